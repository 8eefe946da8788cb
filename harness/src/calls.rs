//! Calls of everything that turns arguments into a value, again and again, in any order, on several
//! threads, with arguments that are alike and that lie where others lay.
use crate::util::*;
use chrono::{Datelike, NaiveDate, Timelike};
use lcms2::io::{self, FileMem, IOHandler};
use lcms2::types::*;
use std::io::SeekFrom;
use std::sync::Barrier;

type Set = <lcms2::plugins::ParametricCurvesCollection as IntoIterator>::Item;
const TYPES: [i32; 10] = [1, 2, 3, 4, 5, 6, 7, 8, 108, 109];
const COUNTS: [usize; 10] = [1, 3, 4, 5, 7, 4, 5, 5, 1, 1];

#[derive(Clone, PartialEq, Debug)]
enum Args {
    Curve(i32, Vec<f64>, f64),
    Find(i32),
    Encode(f64),
    Decode(u32),
    Adjust(u8, u64),
    Sig(Vec<u8>),
    Text(u32),
    Date([u16; 6]),
    Civil([u16; 6], u32),
    Header(Vec<u8>),
}
/// where a caller keeps the arguments
struct Place {
    params: Vec<f64>,
    mem: FileMem<Vec<u8>>,
    raw: [u8; 128],
}
/// one NaN is as good as another
fn bits(x: f64) -> String {
    let x = if x.is_nan() { f64::NAN } else { x };
    let b = x.to_bits();
    format!("{},{}", (b >> 32) as u32 as i32, b as u32 as i32)
}
fn u8s(b: &[u8]) -> String {
    b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
impl Args {
    fn show(&self) -> (&'static str, String) {
        match self {
            Args::Curve(t, p, x) => ("curve", format!("{},{}{}", t, p.iter().map(|v| bits(*v) + ",").collect::<String>(), bits(*x))),
            Args::Find(t) => ("find", t.to_string()),
            Args::Encode(x) => ("encode", bits(*x)),
            Args::Decode(x) => ("decode", u8s(&x.to_be_bytes())),
            Args::Adjust(w, x) => ("adjust", format!("{},{}", w, u8s(&x.to_be_bytes()))),
            Args::Sig(b) => ("signature", u8s(b)),
            Args::Text(b) => ("text", u8s(&b.to_be_bytes())),
            Args::Date(d) => ("date", d.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
            Args::Civil(d, n) => ("civil", format!("{},{}", d.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), n)),
            Args::Header(b) => ("header", u8s(b)),
        }
    }
    /// the value; nothing if the call panics
    fn call(&self, set: &Set, at: &mut Place, in_place: bool) -> String {
        let v = guard(|| match self {
            Args::Curve(t, p, x) => {
                if in_place {
                    at.params.clear();
                    at.params.extend_from_slice(p);
                    bits((set.evaluator)(*t, &at.params, *x))
                } else {
                    bits((set.evaluator)(*t, &p.clone(), *x))
                }
            }
            Args::Find(t) => set.is_in_set(*t).map_or("".into(), |i| i.to_string()),
            Args::Encode(x) => {
                let mut b = [0u8; 4];
                at.mem.seek(SeekFrom::Start(0)).unwrap();
                at.mem.write_s15f16(*x).unwrap();
                at.mem.seek(SeekFrom::Start(0)).unwrap();
                at.mem.read(&mut b).unwrap();
                u8s(&b)
            }
            Args::Decode(x) => {
                at.mem.seek(SeekFrom::Start(0)).unwrap();
                at.mem.write(&x.to_be_bytes()).unwrap();
                at.mem.seek(SeekFrom::Start(0)).unwrap();
                bits(at.mem.read_s15f16().unwrap())
            }
            Args::Adjust(2, x) => format!("{},{}", u8s(&io::adjust_endianness_u16(*x as u16).to_ne_bytes()), u8s(&io::adjust_endianness_16((*x as u16).to_ne_bytes()))),
            Args::Adjust(4, x) => format!("{},{}", u8s(&io::adjust_endianness_u32(*x as u32).to_ne_bytes()), u8s(&io::adjust_endianness_32((*x as u32).to_ne_bytes()))),
            Args::Adjust(_, x) => format!("{},{}", u8s(&io::adjust_endianness_u64(*x).to_ne_bytes()), u8s(&io::adjust_endianness_64(x.to_ne_bytes()))),
            Args::Sig(b) => {
                let s = if in_place {
                    at.raw[..b.len()].copy_from_slice(b);
                    Signature::from(&at.raw[..b.len()])
                } else {
                    Signature::from(b.clone().as_slice())
                };
                u8s(&u32::from(s).to_be_bytes())
            }
            Args::Text(n) => {
                let s = Signature::from(*n);
                format!("{},0,{}", u8s(String::from(s).as_bytes()), u8s(format!("{:?}", s).as_bytes()))
            }
            Args::Date(d) => {
                let n = DateTimeNumber { year: d[0], month: d[1], day: d[2], hours: d[3], minutes: d[4], seconds: d[5] };
                n.to_naive_date_time().map_or("".into(), |c| format!("{},{},{},{},{},{},{}", c.year(), c.month(), c.day(), c.hour(), c.minute(), c.second(), c.nanosecond()))
            }
            Args::Civil(d, n) => {
                let c = NaiveDate::from_ymd_opt(d[0] as i32, d[1] as u32, d[2] as u32).and_then(|x| x.and_hms_nano_opt(d[3] as u32, d[4] as u32, d[5] as u32, *n));
                c.map_or("".into(), |c| {
                    let n = DateTimeNumber::from(c);
                    format!("{},{},{},{},{},{}", n.year, n.month, n.day, n.hours, n.minutes, n.seconds)
                })
            }
            Args::Header(b) => {
                at.raw.copy_from_slice(b);
                let h = lcms2::types::verif::header_from_bytes(at.raw);
                u8s(&lcms2::types::verif::header_to_bytes(h))
            }
        });
        v.unwrap_or_else(|()| "-1".into())
    }
}

fn unit(r: &mut Rng) -> f64 {
    (r.next() >> 11) as f64 / (1u64 << 53) as f64
}
fn number(r: &mut Rng) -> f64 {
    match r.below(5) {
        0 => r.range(-3072, 4096) as f64 / 1024.0,
        1 => *r.pick(&[0.0, 1.0, 0.5, 2.0, 2.4, 1.0 / 1.055, 0.055 / 1.055, 1.0 / 12.92, 0.04045]),
        2 => unit(r) * 20.0 - 5.0,
        _ => unit(r) * 2.0,
    }
}
/// a number hardly, or not at all, like another
fn alike(r: &mut Rng, x: f64) -> f64 {
    match r.below(9) {
        0 => f64::from_bits(x.to_bits() ^ 1),
        1 => x as f32 as f64,
        2 => f64::from_bits(x.to_bits() ^ (1 << r.below(52))),
        3 => x + 1e-9,
        4 => -x,
        5 => x + 1.0,
        6 => (x * 65536.0).floor() / 65536.0,
        7 => f64::from_bits(x.to_bits().rotate_left(32)),
        _ => number(r),
    }
}
/// other arguments that have something in common with these
fn kin(a: &Args, r: &mut Rng) -> Args {
    let bit = r.below(32);
    match a.clone() {
        Args::Curve(t, mut p, x) => match r.below(7) {
            0 | 1 => {
                let y = alike(r, x);
                Args::Curve(t, p, if y.is_finite() { y } else { 0.25 })
            }
            2 | 3 => {
                let i = r.below(p.len());
                let y = alike(r, p[i]);
                p[i] = if y.is_finite() { y } else { 0.75 };
                Args::Curve(t, p, x)
            }
            4 => Args::Curve(-t, p, x),
            5 if p.len() > 1 => {
                let (i, j) = (r.below(p.len()), r.below(p.len()));
                p.swap(i, j);
                Args::Curve(t, p, x)
            }
            _ => {
                // another curve of the same parameters, as far as they go
                let i = r.below(TYPES.len());
                while p.len() < COUNTS[i] {
                    p.push(number(r));
                }
                p.truncate(COUNTS[i]);
                Args::Curve(if t < 0 { -TYPES[i] } else { TYPES[i] }, p, x)
            }
        },
        Args::Find(t) => Args::Find(*r.pick(&[t.wrapping_neg(), t.wrapping_add(1), t ^ (1 << bit), t.wrapping_add(65536), t & 255])),
        Args::Encode(x) => {
            let y = alike(r, x);
            Args::Encode(if y.is_finite() { y } else { 1.5 })
        }
        Args::Decode(x) => Args::Decode(*r.pick(&[x ^ (1 << bit), x.rotate_left(16), x.wrapping_neg(), x & 0xFFFF])),
        Args::Adjust(w, x) => {
            let v = *r.pick(&[x ^ (1 << (2 * bit)), x.rotate_left(16), x.rotate_left(32), x.swap_bytes(), x & 0xFFFF_FFFF]);
            Args::Adjust(if r.chance(70) { w } else { *r.pick(&[2, 4, 8]) }, v)
        }
        Args::Sig(mut b) => {
            match r.below(4) {
                0 if b.len() < 100 => b.push(*r.pick(&[0x20, 0, 0x41])),
                1 => drop(b.pop()),
                2 => b.reverse(),
                _ if !b.is_empty() => {
                    let i = r.below(b.len());
                    b[i] ^= 1 << r.below(8);
                }
                _ => (),
            }
            Args::Sig(b)
        }
        Args::Text(n) => Args::Text(*r.pick(&[n ^ (1 << bit), n.swap_bytes(), n.rotate_left(8), n | 0x8000_0000])),
        Args::Date(mut d) => {
            let i = r.below(6);
            d[i] = *r.pick(&[d[i].wrapping_add(1), d[i].wrapping_sub(1), d[i] ^ 256, d[(i + 1) % 6]]);
            Args::Date(d)
        }
        Args::Civil(mut d, n) => {
            if r.chance(40) {
                return Args::Civil(d, (n + 500_000_000) % 1_000_000_000);
            }
            d[0] = d[0].wrapping_add(*r.pick(&[1, 4, 100, 400, 65535]));
            d[2] = 1 + (d[2] + 3) % 28;
            Args::Civil(d, n)
        }
        Args::Header(mut b) => {
            let i = r.below(128);
            b[i] ^= 1 << r.below(8);
            Args::Header(b)
        }
    }
}
fn some(r: &mut Rng) -> Args {
    match r.below(16) {
        0 => Args::Find(*r.pick(&[1, 8, 9, 108, 109, -3, 110, 0, i32::MIN])),
        // between two fixed point numbers
        1 if r.chance(40) => Args::Encode((r.range(-(1 << 20), 1 << 20) as f64 + *r.pick(&[0.5, 0.5, 0.25, 0.0])) / 65536.0),
        1 => Args::Encode(if r.chance(50) { number(r) } else { unit(r) * 65536.0 - 32768.0 }),
        2 => Args::Decode(r.word() as u32),
        3 => Args::Adjust(*r.pick(&[2, 4, 8]), r.word()),
        4 => {
            let n = r.below(9);
            Args::Sig(r.bytes(n))
        }
        5 => Args::Text(if r.chance(50) { r.known_sig() } else { r.word() as u32 }),
        6 => Args::Date(crate::profile::valid_date(r)),
        7 => Args::Civil(crate::profile::valid_date(r), r.below(1_000_000_000) as u32),
        8 => Args::Header(r.bytes(128)),
        _ => {
            let i = r.below(TYPES.len());
            let p = (0..COUNTS[i]).map(|_| number(r)).collect();
            Args::Curve(if r.chance(60) { TYPES[i] } else { -TYPES[i] }, p, number(r))
        }
    }
}

pub fn run(o: &Opts) {
    let mut out = Shards::new(&o.out, o.shards, &meta(), o.flush);
    let mut r = Rng::new(o.seed ^ 0xCA11);
    for k in 0..o.n {
        let mut pool: Vec<Args> = vec![some(&mut r)];
        if k % 9 == 4 {
            // what a call may leave behind in the machine itself: curves of all kinds around
            // calls with numbers next to nothing and with results that have to be rounded
            for _ in 0..8 {
                let i = r.below(TYPES.len());
                let p: Vec<f64> = (0..COUNTS[i]).map(|_| if r.chance(30) { unit(&mut r) * 80.0 - 20.0 } else { number(&mut r) }).collect();
                let x = if r.chance(30) { unit(&mut r) * 200.0 - 100.0 } else { number(&mut r) };
                pool.push(Args::Curve(if r.chance(50) { TYPES[i] } else { -TYPES[i] }, p, x));
            }
            for _ in 0..2 {
                let tiny = f64::from_bits(1 + (r.next() >> (13 + r.below(40))));
                pool.push(Args::Curve(2, vec![1.0, *r.pick(&[0.5, 1.0, 0.75]), 0.0], tiny));
                pool.push(Args::Curve(4, vec![2.4, 0.9, 0.05, *r.pick(&[0.5, 1.0 / 12.92]), 0.04], tiny));
                pool.push(Args::Curve(6, vec![1.0, 0.1, 0.7, 1e-17 * unit(&mut r)], unit(&mut r)));
            }
        }
        let others = if k % 50 == 26 { r.below(3) } else { 3 + r.below(9) };
        for _ in 0..others {
            let next = if r.chance(85) {
                let a = r.pick(&pool).clone();
                kin(&a, &mut r)
            } else {
                some(&mut r)
            };
            pool.push(next);
        }
        let threads = if k % 3 == 0 { 1 } else { 2 + r.below(3) };
        // rare events need many calls
        let many = match k % 50 { 1 => 2000, 26 => 20_000, _ => 40 };
        let go = Barrier::new(threads);
        doing(|| format!("calls of {:?} on {} threads", pool, threads));
        let all: Vec<Vec<(usize, String)>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads).map(|_| {
                let (pool, go) = (&pool, &go);
                let mut r = Rng::new(r.next());
                s.spawn(move || {
                    let set = Set::default();
                    let mut at = Place { params: Vec::with_capacity(16), mem: FileMem::new(vec![0; 4]), raw: [0; 128] };
                    go.wait();
                    let mut seen: Vec<(usize, String)> = Vec::new();
                    for _ in 0..many {
                        let i = r.below(pool.len());
                        let v = pool[i].call(&set, &mut at, r.chance(70));
                        // what is known already need not be said again
                        if many == 40 || !seen.iter().any(|x| x.0 == i && x.1 == v) {
                            seen.push((i, v));
                        }
                    }
                    seen
                })
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        out.history();
        out.line(&Obj::new("new").int("threads", threads as i64).end());
        for (t, seen) in all.iter().enumerate() {
            for (i, v) in seen {
                let (f, a) = pool[*i].show();
                out.line(&Obj::new("call").int("by", t as i64 + 1).str("f", f).raw("a", format!("[{}]", a)).raw("v", format!("[{}]", v)).end());
            }
        }
    }
    out.finish();
}
