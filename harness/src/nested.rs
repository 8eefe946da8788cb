//! Error handlers that use the library themselves.
use crate::json;
use crate::profile::{good, random, sibling, view_json, Img};
use crate::util::*;
use lcms2::io::AccessMode;
use lcms2::plugins::{ParametricCurvesCollection, Plugin, PluginType};
use lcms2::state::chunks::error_handler::{default_log_error_handler_function, LogErrorHandlerFunction};
use lcms2::state::verif::with_global_context;
use lcms2::state::{Context, ErrorCode};
use lcms2::types::{Profile, Signature};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::collections::{HashMap, VecDeque};
use std::path::PathBuf;
use std::sync::Arc;

/// what a handler throws
struct Thrown(u32);
#[derive(Clone, Copy, PartialEq)]
enum Via {
    Given,
    Other(usize),
    Default,
    Copy,
    Fresh,
}
#[derive(Clone)]
struct Shot {
    img: Img,
    path: PathBuf,
    alone: i64,
}
#[derive(Clone)]
enum What {
    Open(Shot),
    Write(PathBuf),
    Register(Vec<(u32, u32, u32)>),
    Signal(String),
    Install(usize),
    Throw(u32),
}
#[derive(Clone)]
struct Item {
    depth: usize,
    via: Via,
    what: What,
}
#[derive(Default)]
struct State {
    script: VecDeque<Item>,
    level: usize,
    lines: Vec<String>,
    arena: Vec<Option<Box<Context>>>,
    handler: HashMap<usize, usize>,
    next: usize,
    stack: Vec<usize>,
    kept: Vec<Box<Profile>>,
    views: HashMap<String, i64>,
    keep: bool,
}
thread_local! { static S: RefCell<State> = RefCell::new(State::default()); }
fn st<R>(f: impl FnOnce(&mut State) -> R) -> R {
    S.with(|s| f(&mut s.borrow_mut()))
}
fn say(l: String) {
    st(|s| s.lines.push(l))
}
fn view(p: &Profile) -> i64 {
    let v = view_json(p);
    st(|s| {
        let n = s.views.len() as i64 + 1;
        *s.views.entry(v).or_insert(n)
    })
}
fn user_of(c: &Context) -> i64 {
    c.get_user_data().map(|d| d.get(0).copied().unwrap_or(255) as i64).unwrap_or(0)
}

fn act(name: &str, c: &mut Context, code: ErrorCode, text: String) {
    say(Obj::new("heard").str("h", name).int("user", user_of(c)).int("code", code as u32 as i64).str("text", &text).end());
    st(|s| s.level += 1);
    play(Some(c));
    st(|s| s.level -= 1);
    say(Obj::new("left").end());
}
fn ha(c: &mut Context, code: ErrorCode, t: String) {
    act("ha", c, code, t)
}
fn hb(c: &mut Context, code: ErrorCode, t: String) {
    act("hb", c, code, t)
}
const HANDLERS: [LogErrorHandlerFunction; 3] = [default_log_error_handler_function, ha, hb];
const NAMES: [&str; 3] = ["", "ha", "hb"];

/// performs what the script has for the present depth
fn play(mut given: Option<&mut Context>) {
    loop {
        let item = st(|s| {
            let d = s.level;
            // calls that were to be made inside of one that was not made
            while s.script.front().map_or(false, |i| i.depth > d) {
                s.script.pop_front();
            }
            if s.script.front().map_or(false, |i| i.depth == d) { s.script.pop_front() } else { None }
        });
        let item = match item {
            Some(i) => i,
            None => return,
        };
        perform(given.as_deref_mut(), item)
    }
}
fn perform(given: Option<&mut Context>, item: Item) {
    let top = st(|s| s.stack.last().copied());
    let via = match (item.via, given.is_some()) {
        (Via::Given, false) => Via::Other(1),
        (v, _) => v,
    };
    if let What::Throw(n) = item.what {
        // not through a call of the default context, which would never be usable again
        if given.is_some() && top != Some(0) {
            say(Obj::new("left").int("threw", n as i64).end());
            std::panic::resume_unwind(Box::new(Thrown(n)));
        }
        return;
    }
    match via {
        Via::Given => through(given.unwrap(), top.unwrap(), item.what),
        Via::Other(k) => {
            if top == Some(k) {
                return through(given.unwrap(), k, item.what);
            }
            let c = st(|s| s.arena[k].take());
            if let Some(mut c) = c {
                through(&mut c, k, item.what);
                st(|s| s.arena[k] = Some(c));
            }
        }
        Via::Default => {
            if top == Some(0) {
                return through(given.unwrap(), 0, item.what);
            }
            if st(|s| s.stack.contains(&0)) {
                return;
            }
            match item.what {
                // the way that has the context by itself
                What::Open(_) | What::Write(_) => call(0, &item.what, |w| match w {
                    What::Open(x) => opened(Profile::open_from_file(&x.path, AccessMode::Read)),
                    What::Write(p) => opened(Profile::open_from_file(p, AccessMode::Write)),
                    _ => unreachable!(),
                }),
                w => with_global_context(|g| through(g, 0, w)),
            }
        }
        Via::Copy => {
            let k = st(|s| {
                s.next += 1;
                s.next - 1
            });
            let (mut c, of) = match given {
                Some(g) => (Box::new(g.clone()), top.unwrap()),
                None => match st(|s| s.arena[1].clone()) {
                    Some(c) => (c, 1),
                    None => return,
                },
            };
            let h = st(|s| {
                let h = s.handler[&of];
                s.handler.insert(k, h);
                h
            });
            let _ = h;
            say(Obj::new("copy").int("obj", k as i64).int("of", of as i64).end());
            through(&mut c, k, item.what);
        }
        Via::Fresh => {
            let (k, h) = st(|s| {
                s.next += 1;
                let k = s.next - 1;
                s.handler.insert(k, k % 3);
                (k, k % 3)
            });
            let mut c = Box::new(Context::new(Some(vec![100 + k as u8 % 100].into_boxed_slice())));
            c.verif_set_error_handler(HANDLERS[h]);
            say(Obj::new("fresh").int("obj", k as i64).str("h", NAMES[h]).int("user", user_of(&c)).end());
            through(&mut c, k, item.what);
        }
    }
}
enum Got {
    Profile(std::io::Result<Box<Profile>>),
    Message(Result<(), String>),
    Nothing,
}
fn opened(r: std::io::Result<Box<Profile>>) -> Got {
    Got::Profile(r)
}
fn through(c: &mut Context, obj: usize, what: What) {
    if let What::Install(h) = what {
        c.verif_set_error_handler(HANDLERS[h]);
        st(|s| s.handler.insert(obj, h));
        say(Obj::new("install").int("obj", obj as i64).str("h", NAMES[h]).end());
        return;
    }
    call(obj, &what, |w| match w {
        What::Open(x) => opened(Profile::open_from_file_thr(c, &x.path, AccessMode::Read)),
        What::Write(p) => opened(Profile::open_from_file_thr(c, p, AccessMode::Write)),
        What::Register(l) => Got::Message(c.init_plugin(&chain(l))),
        What::Signal(t) => {
            c.signal_error(ErrorCode::Internal, t.as_str());
            Got::Nothing
        }
        What::Install(_) | What::Throw(_) => unreachable!(),
    })
}
fn call(obj: usize, what: &What, f: impl FnOnce(&What) -> Got) {
    let o = Obj::new("call").int("obj", obj as i64);
    let (o, op) = match what {
        What::Open(x) => {
            let pre = &x.img.pre[..x.img.pre.len().min(x.img.len)];
            (o.str("op", "open").raw("len", limbs(x.img.len as u64, 4)).int("pad", (x.img.len - pre.len()).min(1 << 20) as i64).bytes("pre", pre), "open")
        }
        What::Write(_) => (o.str("op", "write"), "write"),
        What::Register(l) => (
            o.str("op", "register").list("list", l.iter().map(|p| {
                Obj::anon().bytes("magic", &p.0.to_be_bytes()).raw("version", limbs(p.1 as u64, 2)).bytes("type", &p.2.to_be_bytes()).end()
            })),
            "register",
        ),
        What::Signal(_) => (o.str("op", "signal"), "signal"),
        What::Install(_) | What::Throw(_) => unreachable!(),
    };
    say(o.end());
    let (level, deep) = st(|s| {
        s.stack.push(obj);
        (s.level, s.stack.len())
    });
    doing(|| format!("{} at depth {} through context {}", op, deep, obj));
    let mut thrown = None;
    let got = guard(|| catch_unwind(AssertUnwindSafe(|| f(what))).map_err(|p| thrown = p.downcast_ref::<Thrown>().map(|t| t.0)));
    let got = got.and_then(|g| g);
    st(|s| {
        s.level = level;
        s.stack.truncate(deep - 1);
    });
    let o = Obj::new("ret").str("op", op);
    let o = match got {
        Err(()) => match thrown {
            Some(n) => o.str("r", "thrown").int("payload", n as i64),
            None => o.str("r", "panic"),
        },
        Ok(Got::Profile(Ok(p))) => {
            let v = view(&p);
            let o = o.str("r", "ok").int("view", v);
            if st(|s| s.keep) {
                st(|s| s.kept.push(p));
            }
            o
        }
        Ok(Got::Profile(Err(e))) => o.str("r", &kind(&e)),
        Ok(Got::Message(Ok(()))) => o.str("r", "ok"),
        Ok(Got::Message(Err(m))) => o.str("r", "err").str("text", &m),
        Ok(Got::Nothing) => match what {
            What::Signal(t) => o.str("r", "ok").str("text", t),
            _ => o.str("r", "ok"),
        },
    };
    let o = if let What::Open(x) = what { o.int("alone", x.alone) } else { o };
    say(o.end());
}
fn chain(l: &[(u32, u32, u32)]) -> Plugin {
    let mut next: Option<Arc<Plugin>> = None;
    for (i, p) in l.iter().enumerate().rev() {
        let evaluator = <ParametricCurvesCollection as IntoIterator>::Item::default().evaluator;
        let data = PluginType::ParametricCurve { num_functions: 0, function_types: [0; 20], parameter_count: [0; 20], evaluator };
        let plug = Plugin { magic: Signature::from(p.0), expected_version: p.1, r#type: Signature::from(p.2), next: next.take(), data };
        if i == 0 {
            return plug;
        }
        next = Some(Arc::new(plug));
    }
    unreachable!()
}

struct Driver {
    scratch: Scratch,
    files: usize,
}
impl Driver {
    fn shot(&mut self, img: Img) -> Shot {
        let path = self.scratch.path(&format!("n{}.icc", self.files));
        self.files += 1;
        img.write(&path);
        let mut c = Context::new(None);
        let alone = match guard(|| Profile::open_from_file_thr(&mut c, &path, AccessMode::Read)) {
            Ok(Ok(p)) => view(&p),
            _ => 0,
        };
        Shot { img, path, alone }
    }
    fn history(&mut self, out: &mut Shards, script: Vec<Item>, hs: [usize; 4], keep: bool) {
        let ctx = |i: usize| {
            let mut c = Box::new(Context::new(Some(vec![i as u8].into_boxed_slice())));
            c.verif_set_error_handler(HANDLERS[hs[i]]);
            Some(c)
        };
        st(|s| {
            s.script = script.into();
            s.level = 0;
            s.lines.clear();
            s.stack.clear();
            s.arena = vec![None, ctx(1), ctx(2), ctx(3)];
            s.handler = (0..4).map(|i| (i, hs[i])).collect();
            s.next = 4;
            s.keep = keep;
        });
        with_global_context(|g| g.verif_set_error_handler(HANDLERS[hs[0]]));
        play(None);
        with_global_context(|g| g.verif_set_error_handler(HANDLERS[0]));
        let (lines, kept) = st(|s| {
            s.arena.clear();
            (std::mem::take(&mut s.lines), std::mem::take(&mut s.kept))
        });
        let keeps = kept.len();
        let (held, dir) = (self.held(), kept);
        drop(dir);
        let left = self.held();
        out.history();
        out.line(&Obj::new("new").list("hs", hs.iter().map(|h| quote(NAMES[*h]))).list("user", (0..4).map(|i| i.to_string())).end());
        for l in lines {
            out.line(&l);
        }
        out.line(&Obj::new("end").int("kept", keeps as i64).int("held", held).int("left", left).end());
        for i in 0..self.files {
            let _ = std::fs::remove_file(self.scratch.path(&format!("n{}.icc", i)));
        }
        self.files = 0;
    }
    /// descriptors of files of the scratch directory
    fn held(&self) -> i64 {
        let dir = self.scratch.path("");
        std::fs::read_dir("/proc/self/fd").map_or(0, |fds| {
            fds.flatten().filter(|f| std::fs::read_link(f.path()).map_or(false, |t| t.starts_with(&dir))).count() as i64
        })
    }
    fn image(&mut self, what: &str) -> Shot {
        let mut g = good();
        match what {
            "sig" => g.pre[37] ^= 1,
            "date" => g.pre[27] = 13,
            "count" => g.pre[130] = 7,
            "eof" => g.len = 140,
            _ => (),
        }
        self.shot(g)
    }
}
const GOOD: (u32, u32, u32) = (0x61637070, 2131, 0x70617248);
const BAD: (u32, u32, u32) = (0x61637070, 2131, 0x7a7a7a7a);

pub fn run(o: &Opts) {
    let mut out = Shards::new(&o.out, o.shards, &meta(), o.flush);
    let mut r = Rng::new(o.seed);
    let mut d = Driver { scratch: Scratch::new(), files: 0 };
    if let Some(c) = &o.cases {
        for (n, c) in json::lines(c).iter().enumerate() {
            let mut script: Vec<Item> = c.arr().iter().map(|j| Item {
                depth: j.get("depth").int() as usize,
                via: match j.get("via").str() {
                    "given" => Via::Given,
                    "other" => Via::Other(2),
                    "default" => Via::Default,
                    "copy" => Via::Copy,
                    _ => Via::Fresh,
                },
                what: match j.get("op").str() {
                    "open" => What::Open(d.image(j.get("what").str())),
                    "register" => What::Register(if n % 2 == 0 { vec![GOOD, BAD, GOOD] } else { vec![BAD] }),
                    _ => What::Signal("boom".into()),
                },
            }).collect();
            // in two of three trees a handler panics: that of the last call, or that of the first
            let last = script.last().unwrap().depth;
            match n % 3 {
                0 => (),
                1 => script.push(Item { depth: last + 1, via: Via::Given, what: What::Throw(n as u32) }),
                _ => script.push(Item { depth: 1, via: Via::Given, what: What::Throw(n as u32) }),
            }
            d.history(&mut out, script, [[1, 1, 2, 0], [2, 1, 1, 1], [1, 2, 1, 2]][n % 3], n % 5 == 0);
        }
    }
    for k in 0..o.n {
        if k == o.n / 2 {
            crate::age::age(&d.scratch, &mut r);
        }
        let n = if k % 40 == 39 { r.range(20, 60) } else { r.range(2, 9) };
        let mut depth = 0;
        let mut script: Vec<Item> = Vec::new();
        let mut shots: Vec<Shot> = Vec::new();
        let chain = k % 40 == 39 || k % 10 == 3;
        let mut h = || if chain { r.range(1, 2) as usize } else { *r.pick(&[1, 2, 1, 2, 0]) };
        let hs = [h(), h(), h(), h()];
        for _ in 0..n {
            let via = match r.below(8) {
                0 | 1 => Via::Given,
                2 => Via::Other(2),
                3 => Via::Other(3),
                4 => Via::Other(1),
                5 => Via::Default,
                6 => Via::Copy,
                _ => Via::Fresh,
            };
            let via = if chain && r.chance(90) { Via::Given } else { via };
            let what = match r.below(if chain { 8 } else { 14 }) {
                0..=3 => What::Open(d.image(*r.pick(if chain { &["sig", "date", "count"] } else { &["sig", "date", "count", "sig", "date", "count", "eof", "good"] }))),
                4 if !chain && !shots.is_empty() => What::Open(r.pick(&shots).clone()),
                4 | 5 => What::Register(match if chain { 3 } else { r.below(4) } {
                    0 => vec![GOOD; 1 + r.below(3)],
                    1 => vec![GOOD, (GOOD.0, 2132, GOOD.2)],
                    2 => vec![(r.next() as u32, 1, GOOD.2)],
                    _ => vec![GOOD, BAD],
                }),
                6 | 7 => What::Signal(["", "boom", "{}"][r.below(3)].into()),
                8 if depth > 0 && r.chance(50) => What::Throw(k as u32),
                8 => What::Install(r.below(3)),
                9 => {
                    let p = d.scratch.path(&format!("n{}.icc", d.files));
                    d.files += 1;
                    What::Write(p)
                }
                10 if !shots.is_empty() => {
                    let i = r.pick(&shots).img.clone();
                    What::Open(d.shot(sibling(&mut r, &i)))
                }
                _ => What::Open(d.shot({
                    let mut i = random(&mut r);
                    i.len = i.len.min(1 << 20);
                    i
                })),
            };
            if let What::Open(x) = &what {
                shots.push(x.clone());
            }
            // in most places of a tree whose calls may have handlers running
            let speaks = !matches!(what, What::Write(_) | What::Install(_) | What::Throw(_));
            script.push(Item { depth, via, what });
            depth = if chain { depth + speaks as usize } else if speaks && r.chance(55) { depth + 1 } else { depth - r.below(depth + 1) };
        }
        d.history(&mut out, script, hs, r.chance(30));
    }
    out.finish();
}
