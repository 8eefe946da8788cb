//! Drives the built-in parametric curves.
use crate::json;
use crate::util::*;

type Set = <lcms2::plugins::ParametricCurvesCollection as IntoIterator>::Item;
type Eval = fn(i32, &[f64], f64) -> f64;

const TOL: f64 = 0.0001;
const TYPES: [i32; 10] = [1, 2, 3, 4, 5, 6, 7, 8, 108, 109];
const COUNTS: [usize; 10] = [1, 3, 4, 5, 7, 4, 5, 5, 1, 1];

fn f(x: f64) -> String {
    let b = x.to_bits();
    format!("[{},{}]", (b >> 32) as u32 as i32, b as u32 as i32)
}
fn fs(v: &[f64]) -> String {
    list(v.iter().map(|x| f(*x)))
}
/// never the negative zero, which is no input of interest
fn plus(x: f64) -> f64 {
    if x == 0.0 { 0.0 } else { x }
}
fn next(x: f64, up: bool) -> f64 {
    let y = if x == 0.0 {
        if up { f64::from_bits(1) } else { -f64::from_bits(1) }
    } else if (x > 0.0) == up {
        f64::from_bits(x.to_bits() + 1)
    } else {
        f64::from_bits(x.to_bits() - 1)
    };
    plus(y)
}
/// the result or nothing for a panic
fn call(ev: Eval, t: i32, p: &[f64], x: f64) -> Option<f64> {
    doing(|| format!("curve {} with {:?} at {:?}", t, p, x));
    guard(|| ev(t, p, x)).ok()
}
fn cell(v: Option<f64>) -> String {
    match v {
        Some(v) => f(v),
        None => "[]".into(),
    }
}

/// forward, and back from there; and the inverse at further places
fn curve(out: &mut Shards, ev: Eval, t: i32, p: &[f64], xs: &[f64], ys: &[f64]) {
    out.history();
    // parameters beyond those of the curve
    let mut more = p.to_vec();
    let h = p.iter().chain(xs).fold(xs.len() as u64, |h, v| (h ^ v.to_bits()).wrapping_mul(0x9E37_79B9_7F4A_7C15));
    if h >> 62 == 0 {
        let n = 1 + (h >> 40) as usize % 4;
        more.extend((0..n).map(|i| [0.0, 1.0, 0.5, -3.0, f64::NAN, 77.0][(h >> (8 * i + 3)) as usize % 6]));
    }
    let asked = &more;
    let fwd: Vec<String> = xs.iter().map(|&x| {
        let y = call(ev, t, asked, x);
        let z = y.and_then(|y| call(ev, -t, asked, y));
        format!("[{},{},{}]", f(x), cell(y), cell(z))
    }).collect();
    let inv: Vec<String> = ys.iter().map(|&y| format!("[{},{}]", f(y), cell(call(ev, -t, asked, y)))).collect();
    out.line(&Obj::new("curve").int("t", t as i64).raw("p", fs(p)).list("fwd", fwd).list("inv", inv).end());
}

fn short(r: &mut Rng) -> f64 {
    plus(r.range(-3072, 4096) as f64 / 1024.0)
}
fn any(r: &mut Rng) -> f64 {
    plus(match r.below(13) {
        12 => {
            let v = r.known_float();
            let v = if r.chance(25) { v * *r.pick(&[0.99, 1.01, 0.5, 2.0]) } else { v };
            if v.abs() > 1e6 { 1.0 } else if r.chance(25) { -v } else { v }
        }
        0..=2 => (r.next() >> 11) as f64 / (1u64 << 53) as f64 * 4.0 - 1.0,
        3 => short(r),
        4 => *r.pick(&[0.0, 1.0, 2.0, 2.2, 2.4, 0.5, 1.0 / 1.055, 0.055 / 1.055, 1.0 / 12.92, 0.04045, 0.0031308, 1.8, 3.0, 10.0]),
        5 => *r.pick(&[TOL, -TOL, TOL * 0.99, TOL * 1.01, -TOL * 0.99, -TOL * 1.01, TOL * 0.5, TOL * 2.0, 1e-6, -1e-6, 0.001, 0.01, 0.015]),
        6 => 1.0 + *r.pick(&[TOL * 0.9, TOL * 1.1, -TOL * 0.9, -TOL * 1.1, 0.0, 0.001, -0.001]),
        7 => (r.next() >> 11) as f64 / (1u64 << 53) as f64,
        8 => ((r.next() >> 11) as f64 / (1u64 << 53) as f64 - 0.5) * 40.0,
        9 => ((r.next() >> 11) as f64 / (1u64 << 53) as f64) * 0.03,
        _ => (r.next() >> 11) as f64 / (1u64 << 53) as f64 * 3.0,
    })
}
/// numbers far away from the unit interval
fn far(r: &mut Rng) -> f64 {
    let v = match r.below(4) {
        0 => {
            let v = r.known_float().abs();
            if v > 1e12 || v == 0.0 { 1e12 } else { v * *r.pick(&[1.0, 0.99, 1.01, 2.0, 1000.0]) }
        }
        1 => *r.pick(&[255.0, 256.0, 1023.0, 1024.0, 65535.0, 65536.0, 65537.0, 1e6, 4294967295.0, 4294967296.0, 1e10]),
        _ => 10f64.powf(r.below(1 << 20) as f64 / (1 << 20) as f64 * 12.0 - 3.0),
    };
    if r.chance(20) { -v } else { v }
}
/// parameters with which the curve rises, more often than by chance
fn sensible(r: &mut Rng, t: i32) -> Vec<f64> {
    let u = |r: &mut Rng, lo: f64, hi: f64| lo + (r.next() >> 11) as f64 / (1u64 << 53) as f64 * (hi - lo);
    let g = u(r, 0.2, 4.0);
    let (a, b) = (u(r, 0.2, 2.0), u(r, -0.5, 0.5));
    match t {
        1 => vec![g],
        2 => vec![g, a, b],
        3 | 6 => vec![g, if t == 6 && r.chance(30) { -a } else { a }, b, u(r, -0.5, 0.5)],
        4 | 5 => {
            let b = u(r, 0.0, 0.5);
            let d = u(r, 0.0, 0.9);
            let top = (a * d + b).powf(g);
            let c = u(r, 0.05, 1.0).min(if d > 0.0 { top / d } else { 1.0 });
            if t == 4 {
                vec![g, a, b, c, d]
            } else {
                let f = u(r, -0.3, 0.3);
                let e = c * d + f - top + if r.chance(50) { 0.0 } else { u(r, 0.0, 0.5) };
                vec![g, a, b, c, d, e, f]
            }
        }
        7 => vec![g, if r.chance(30) { -a } else { a }, u(r, 0.1, 2.0), u(r, 0.0, 1.0), u(r, -1.0, 1.0)],
        8 => vec![u(r, 0.1, 2.0), *r.pick(&[0.3, 0.5, 2.0, 2.718281828, 10.0, 1.5]), if r.chance(30) { -a } else { a }, b, u(r, -1.0, 1.0)],
        108 => vec![u(r, 0.1, 10.0)],
        _ => vec![u(r, 0.01, 20.0)],
    }
}
/// the places where pieces of the curve meet
fn joints(t: i32, p: &[f64]) -> Vec<f64> {
    let mut v = match t {
        2 | 3 | 6 => vec![-p[2] / p[1]],
        4 | 5 => vec![p[4], -p[2] / p[1]],
        7 => vec![(-p[3] / p[2]).powf(1.0 / p[0])],
        _ => vec![],
    };
    v.extend([0.0, 1.0, 0.5]);
    v.retain(|x| x.is_finite());
    v
}

/// a curve of a set put together by others
macro_rules! own_curve {
    ($set:expr, $id:expr, $n:expr) => {{
        let mut c = $set.curves[0].clone();
        c.function_curve_id = $id;
        c.parameter_count = $n;
        c
    }};
}
pub fn run(o: &Opts) {
    let mut out = Shards::new(&o.out, o.shards, &meta(), o.flush);
    let mut r = Rng::new(o.seed ^ 0xC0);
    let set = Set::default();
    let ev: Eval = set.evaluator;
    let cases = o.cases.as_ref().map(|p| json::lines(p)).unwrap_or_default();
    match o.mode.as_str() {
        "eval" => {
            for c in &cases {
                let t = c.get("t").int() as i32;
                let q = |j: &json::J| j.arr().iter().map(|n| plus(n.int() as f64 / 1024.0)).collect::<Vec<_>>();
                let (p, xs) = (q(c.get("p")), q(c.get("x")));
                let ys = q(c.get("y"));
                curve(&mut out, ev, t, &p, &xs, &ys);
            }
            // every parameter within and without the tolerance around zero and one
            for (i, &t) in TYPES.iter().enumerate() {
                for k in 0..COUNTS[i] {
                    for near in [0.0, 1.0] {
                        for d in [0.01, 0.5, 0.99, 1.01, 1.5] {
                            for s in [TOL, -TOL] {
                                let mut p = if r.chance(70) { sensible(&mut r, t) } else { (0..COUNTS[i]).map(|_| short(&mut r)).collect() };
                                p[k] = near + d * s;
                                let at = [-2.0, -0.5, 0.0, 0.3, 1.0, 1.7];
                                curve(&mut out, ev, t, &p, &at, &at);
                            }
                        }
                    }
                }
            }
            for _ in 0..o.n {
                let i = r.below(TYPES.len());
                let t = TYPES[i];
                let p: Vec<f64> = match r.below(4) {
                    0 => (0..COUNTS[i]).map(|_| any(&mut r)).collect(),
                    1 => (0..COUNTS[i]).map(|_| short(&mut r)).collect(),
                    2 => {
                        let mut p = sensible(&mut r, t);
                        let k = r.below(p.len());
                        p[k] = any(&mut r);
                        p
                    }
                    _ => sensible(&mut r, t),
                };
                let mut p = p;
                // a negative base has whole powers
                let whole = t == 8 && r.chance(30);
                if whole {
                    p[1] = plus(-(r.below(4096) as f64) / 1024.0);
                    p[2] = *r.pick(&[1.0, -1.0, 2.0, 3.0, -2.0, 4.0]);
                    p[3] = r.range(-4, 4) as f64;
                }
                let mut xs = vec![];
                for j in joints(t, &p) {
                    let j = plus(j);
                    xs.extend([j, next(j, true), next(j, false), plus(j + 1e-6 * (1.0 + j.abs())), plus(j - 1e-6 * (1.0 + j.abs()))]);
                }
                for _ in 0..4 {
                    xs.push(any(&mut r));
                    xs.push(short(&mut r));
                }
                for _ in 0..2 {
                    xs.push(far(&mut r));
                }
                if whole {
                    xs.extend((-3..=5).map(|i| i as f64));
                    xs.push(1.5);
                }
                let mut ys: Vec<f64> = vec![far(&mut r), any(&mut r), short(&mut r), 0.0, 1.0];
                // where the pieces of the reversed curve meet
                let j = match t {
                    3 | 6 => p[3],
                    4 => (p[1] * p[4] + p[2]).max(0.0).powf(p[0]),
                    5 => p[5],
                    7 | 8 => p[4],
                    _ => 0.0,
                };
                let j = if j.is_finite() { plus(j) } else { 0.0 };
                ys.extend([j, next(j, true), next(j, false), plus(j + 1e-6), plus(j - 1e-6)]);
                if t == 5 {
                    ys.push(plus(p[3] * p[4] + p[6]));
                }
                xs.retain(|x| x.is_finite());
                ys.retain(|y| y.is_finite());
                if r.chance(15) {
                    // the ends of the axis
                    let odd = [f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN];
                    xs.push(*r.pick(&odd));
                    ys.push(*r.pick(&odd));
                }
                curve(&mut out, ev, t, &p, &xs, &ys);
            }
        }
        "set" => {
            out.history();
            out.line(&Obj::new("listing").list("curves", set.curves.iter().map(|c| format!("[{},{}]", c.function_curve_id, c.parameter_count))).end());
            let mut nums: Vec<i32> = (-300..=300).collect();
            for k in 0..32 {
                for d in [-2i64, -1, 0, 1, 2] {
                    nums.push(((1i64 << k) + d) as i32);
                    nums.push((-(1i64 << k) + d) as i32);
                }
            }
            for t in TYPES {
                nums.extend([t + 256, t + 65536, t | i32::MIN, -t - 256, t.wrapping_mul(65537), t.swap_bytes(), !t]);
            }
            for _ in 0..o.n {
                nums.push(r.word() as u32 as i32);
            }
            for t in nums {
                out.history();
                doing(|| format!("is_in_set({})", t));
                let pos = guard(|| set.is_in_set(t));
                let pos = match pos {
                    Ok(Some(i)) => format!("[{}]", set.curves.get(i).map_or(-2, |c| c.function_curve_id)),
                    Ok(None) => "[]".into(),
                    Err(()) => "[-1]".into(),
                };
                // a type outside of the set needs no parameter
                let n = *r.pick(&[0usize, 1, 7, 10]);
                let p: Vec<f64> = (0..n).map(|_| any(&mut r)).collect();
                let known = t.checked_abs().map_or(false, |t| TYPES.contains(&t));
                let x = any(&mut r);
                let v = if known { "[]".into() } else { format!("[{}]", cell(call(ev, t, &p, x))) };
                out.line(&Obj::new("number").int("t", t as i64).raw("found", pos).raw("val", v).end());
            }
            // sets put together by others: the first curve listed under a number is the one found
            for k in 0..(o.n / 4).max(50) {
                out.history();
                let mut own = set.clone();
                if r.chance(50) {
                    own.curves.clear();
                }
                let small = r.chance(60);
                for _ in 0..r.below(if k % 20 == 0 { 300 } else { 24 }) {
                    let c = own_curve!(set, if small { r.range(-3, 9) as i32 } else { r.word() as u32 as i32 }, if r.chance(60) { r.below(24) as u32 } else { r.word() as u32 });
                    let at = r.below(own.curves.len() + 1);
                    own.curves.insert(at, c);
                }
                let ids: Vec<i32> = own.curves.iter().map(|c| c.function_curve_id).collect();
                let mut asked: Vec<i32> = (0..4).map(|_| r.range(-10, 10) as i32).collect();
                for _ in 0..6 {
                    if !ids.is_empty() {
                        let i = *r.pick(&ids);
                        asked.extend([i, i.wrapping_neg(), i ^ 256]);
                    }
                }
                asked.extend([i32::MIN, i32::MAX]);
                if let (Some(a), Some(b)) = (ids.first(), ids.last()) {
                    asked.extend([*a, *b]);
                }
                doing(|| format!("is_in_set of {:?} in a set of {:?}", asked, ids));
                let found: Vec<String> = asked.iter().map(|&t| match guard(|| own.is_in_set(t)) {
                    Ok(Some(i)) => format!("[{},[{}]]", t, i as i64 + 1),
                    Ok(None) => format!("[{},[]]", t),
                    Err(()) => format!("[{},[-1]]", t),
                }).collect();
                out.line(&Obj::new("own").list("ids", ids.iter().map(|i| i.to_string())).list("found", found.into_iter()).end());
            }
            // exactly the parameters of the list, and more than those, which must not matter
            for _ in 0..o.n {
                for c in &set.curves {
                    out.history();
                    let n = c.parameter_count as usize;
                    let p: Vec<f64> = (0..n).map(|_| any(&mut r)).collect();
                    let x = any(&mut r);
                    let mut more = p.clone();
                    for _ in 0..(10usize.saturating_sub(n)) {
                        more.push(any(&mut r));
                    }
                    let t = c.function_curve_id;
                    out.line(&Obj::new("exact").int("t", t as i64).raw("p", fs(&p)).raw("x", f(x))
                        .raw("fwd", cell(call(ev, t, &p, x))).raw("bwd", cell(call(ev, t.wrapping_neg(), &p, x)))
                        .raw("fwd2", cell(call(ev, t, &more, x))).raw("bwd2", cell(call(ev, t.wrapping_neg(), &more, x))).end());
                }
            }
        }
        "shape" => {
            let mut one = |k: f64, t: i32, r: &mut Rng| {
                out.history();
                let mut xs: Vec<f64> = vec![0.0, 0.25, 0.5, 0.75, 1.0];
                for _ in 0..12 {
                    let x = (r.next() >> 11) as f64 / (1u64 << 53) as f64;
                    let x = if r.chance(20) { x * x * x * x } else { x };
                    xs.push(plus(x));
                    xs.push(plus(1.0 - x));
                    if r.chance(30) {
                        xs.push((x + 1e-4).min(1.0));
                    }
                }
                xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
                let pts = xs.iter().map(|&x| format!("[{},{},{}]", f(x), cell(call(ev, t, &[k], x)), cell(call(ev, t, &[k], plus(1.0 - x)))));
                let pts: Vec<String> = pts.collect();
                let inv = [0.0, 0.5, 1.0].iter().map(|&y| cell(call(ev, -t, &[k], y)));
                let inv: Vec<String> = inv.collect();
                out.line(&Obj::new("shape").int("t", t as i64).raw("k", f(k)).list("pts", pts).list("inv", inv).end());
            };
            for i in 0..=100 {
                let s = i as f64 / 100.0;
                one(0.01 + s * 19.99, 109, &mut r);
                one(0.1 + s * 9.9, 108, &mut r);
            }
            for k in [0.01, 0.02, 0.05, 0.1, 0.5, 1.0, 2.0, 10.0, 19.999, 20.0] {
                one(k, 109, &mut r);
            }
            for g in [0.1, 0.2, 0.25, 0.5, 0.9999, 1.0, 1.0001, 2.0, 3.0, 10.0] {
                one(g, 108, &mut r);
            }
            for _ in 0..o.n {
                let e = (r.next() >> 11) as f64 / (1u64 << 53) as f64;
                one(0.01 * 2000f64.powf(e), 109, &mut r);
                one(0.1 * 100f64.powf(e), 108, &mut r);
            }
        }
        m => panic!("unknown mode {}", m),
    }
    out.finish();
}
