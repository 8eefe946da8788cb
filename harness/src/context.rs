//! Histories of contexts: creation, copying, error handlers, plug-in lists.
use crate::age;
use crate::json::{self, J};
use crate::util::*;
use lcms2::plugins::*;
use lcms2::state::chunks::error_handler::{default_log_error_handler_function, LogErrorHandlerFunction};
use lcms2::state::chunks::*;
use lcms2::state::verif::with_global_context;
use lcms2::state::{Context, ErrorCode};
use lcms2::types::Signature;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

struct Call {
    handler: &'static str,
    at: usize,
    code: u32,
    text: String,
}
static CALLS: Mutex<Vec<Call>> = Mutex::new(Vec::new());
fn note(handler: &'static str, ctx: &Context, code: ErrorCode, text: &str) {
    let mut c = CALLS.lock().unwrap_or_else(|e| e.into_inner());
    c.push(Call { handler, at: ctx as *const Context as usize, code: code as u32, text: text.to_string() });
}
fn h1(c: &mut Context, code: ErrorCode, t: String) {
    note("h1", c, code, &t)
}
fn h2(c: &mut Context, code: ErrorCode, t: String) {
    note("h2", c, code, &t)
}
fn swapped(c: &mut Context, code: ErrorCode, t: String) {
    note("swapped", c, code, &t)
}
fn h3(c: &mut Context, code: ErrorCode, t: String) {
    note("h3", c, code, &t);
    c.verif_set_error_handler(swapped);
}
/// signals again until this error has been heard `depth` times
fn again(c: &mut Context, depth: usize) {
    if CALLS.lock().unwrap_or_else(|e| e.into_inner()).len() < depth {
        c.signal_error(ErrorCode::Undefined, "nested");
    }
}
fn h4(c: &mut Context, code: ErrorCode, t: String) {
    note("h4", c, code, &t);
    again(c, 2);
}
fn h5(c: &mut Context, code: ErrorCode, t: String) {
    note("h5", c, code, &t);
    again(c, 3);
}
fn h6(c: &mut Context, code: ErrorCode, t: String) {
    note("h6", c, code, &t);
    again(c, 70);
}
/// signals on a copy of the context
fn h7(c: &mut Context, code: ErrorCode, t: String) {
    note("h7", c, code, &t);
    let mut d = Box::new(c.clone());
    again(&mut d, 2);
}
/// installs another handler, which hears the further error
fn h8(c: &mut Context, code: ErrorCode, t: String) {
    note("h8", c, code, &t);
    c.verif_set_error_handler(swapped);
    c.signal_error(ErrorCode::Undefined, "nested");
}
/// signals on another context
fn h9(c: &mut Context, code: ErrorCode, t: String) {
    note("h9", c, code, &t);
    let mut d = Box::new(Context::new(None));
    d.verif_set_error_handler(swapped);
    d.signal_error(ErrorCode::Undefined, "nested");
    c.verif_set_error_handler(h1);
}
const HANDLERS: [LogErrorHandlerFunction; 10] = [default_log_error_handler_function, h1, h2, h3, h4, h5, h6, h7, h8, h9];
const CODES: [ErrorCode; 14] = [
    ErrorCode::Undefined, ErrorCode::File, ErrorCode::Range, ErrorCode::Internal, ErrorCode::Null, ErrorCode::Read,
    ErrorCode::Seek, ErrorCode::Write, ErrorCode::UnknownExtension, ErrorCode::ColorSpaceCheck, ErrorCode::AlreadyDefined,
    ErrorCode::BadSignature, ErrorCode::CorruptionDetected, ErrorCode::NotSuitable,
];

#[derive(Clone)]
struct Plug {
    magic: [u8; 4],
    version: u32,
    ty: [u8; 4],
}
enum Op {
    Create(Option<Vec<u8>>),
    Copy(usize),
    Install(usize, usize),
    Signal(usize, usize, String),
    Register(usize, Vec<Plug>, usize),
    Drop(usize),
}

// ------------------------------------------------------------------ payloads
fn f_interp(_: u32, _: u32, _: u32) -> InterpFunction {
    InterpFunction::InterpFnFloat(|_, _, _| {})
}
fn f_eval(_: i32, _: &[f64], r: f64) -> f64 {
    r
}
fn f_format(_: Signature, _: FormatterDirection, _: FormatterPrecision) -> Formatter {
    unimplemented!()
}
fn f_read(_: &mut Context, _: &TypeHandler, _: &dyn lcms2::io::IOHandler, _: &mut u32, _: usize) -> Option<Box<[u8]>> {
    None
}
fn f_write(_: &mut Context, _: &TypeHandler, _: &dyn lcms2::io::IOHandler, _: &[u8], _: usize) -> Option<()> {
    None
}
fn f_decide(_: f64, _: &[u8]) -> Signature {
    Signature::default()
}
fn f_link(
    _: &mut Context, _: usize, _: &[Signature], _: &[lcms2::types::Profile], _: &[bool], _: &[f64], _: u32,
) -> Arc<lcms2::types::Pipeline> {
    unimplemented!()
}
fn f_opt(_: &mut Box<[lcms2::types::Pipeline]>, _: Signature) -> Option<(Signature, Signature, u32)> {
    None
}
fn f_t1(_: TransformFn, _: &mut Box<[u8]>, _: &mut Box<lcms2::types::Pipeline>) -> Option<(Signature, Signature, u32)> {
    None
}
fn f_t2(_: Transform2Fn, _: &mut Box<[u8]>, _: &mut Box<lcms2::types::Pipeline>) -> Option<(Signature, Signature, u32)> {
    None
}
const KINDS: [&str; 9] = [
    "interpolation", "parametric_curves", "formatter", "tag_type", "tag", "rendering_intent", "multi_process_element",
    "optimization", "transform",
];
const TYPES: [&[u8; 4]; 9] = [b"inpH", b"parH", b"frmH", b"typH", b"tagH", b"intH", b"mpeH", b"optH", b"xfmH"];
fn payload(k: usize, r: &mut Rng) -> PluginType {
    let sig = match r.below(4) {
        0 => Signature::default(),
        _ => Signature::from(r.word() as u32),
    };
    let handler = TypeHandler::verif_new(sig, r.word() as u32, f_read, f_write);
    match k {
        0 => PluginType::Interpolation { interpolation_factory: f_interp },
        1 => {
            let mut t = [0u32; 20];
            let mut p = [0u32; 20];
            for i in 0..20 {
                t[i] = r.word() as u32;
                p[i] = r.word() as u32;
            }
            PluginType::ParametricCurve { num_functions: r.word() as u32, function_types: t, parameter_count: p, evaluator: f_eval }
        }
        2 => PluginType::Formatter { formatters_factory: f_format },
        3 => PluginType::TagType { handler },
        4 => PluginType::Tag {
            signature: sig,
            descriptor: TagDescriptor::verif_new(r.below(5), (0..r.below(4)).map(|_| Signature::from(r.word() as u32)).collect(), f_decide),
        },
        5 => PluginType::RenderingIntent { intent: sig, link: f_link, description: text(r) },
        6 => PluginType::MultiProcessElement { handler },
        7 => PluginType::Optimization { optimizer: f_opt },
        _ => PluginType::Transform { factory: if r.chance(50) { TransformFactories::Legacy(f_t1) } else { TransformFactories::Modern(f_t2) } },
    }
}
fn tests(p: &PluginType) -> [bool; 9] {
    [
        p.is_interpolation(), p.is_parametric_curves(), p.is_formatter(), p.is_tag_type(), p.is_tag(), p.is_rendering_intent(),
        p.is_multi_process_element(), p.is_optimization(), p.is_transform(),
    ]
}
fn chain(list: &[Plug], kind: usize, r: &mut Rng) -> Plugin {
    let mut next: Option<Arc<Plugin>> = None;
    for (i, p) in list.iter().enumerate().rev() {
        let plug = Plugin {
            magic: Signature::new(&p.magic),
            expected_version: p.version,
            r#type: Signature::new(&p.ty),
            next: next.take(),
            data: payload((kind + i) % 9, r),
        };
        if i == 0 {
            return plug;
        }
        next = Some(Arc::new(plug));
    }
    panic!("empty list")
}

// ------------------------------------------------------------------ histories
struct World {
    ctxs: Vec<Option<Box<Context>>>, // the first is the default one and stays None
    prints: HashMap<String, i64>,
}
impl World {
    fn intern(&mut self, s: String) -> i64 {
        let n = self.prints.len() as i64 + 1;
        *self.prints.entry(s).or_insert(n)
    }
    fn with<R>(&mut self, c: usize, f: impl FnOnce(&mut Context) -> R) -> R {
        if c == 1 {
            with_global_context(f)
        } else {
            f(self.ctxs[c - 1].as_mut().unwrap())
        }
    }
    fn live(&self, c: usize) -> bool {
        c == 1 || (c <= self.ctxs.len() && self.ctxs[c - 1].is_some())
    }
    /// long ones by number: [-1, n]
    fn user(&mut self, u: &Option<Vec<u8>>) -> String {
        match u {
            Some(v) if v.len() > 500 => {
                let n = self.intern(v.iter().map(|b| *b as char).collect());
                format!("[[-1,{}]]", n)
            }
            Some(v) => format!("[{}]", bytes(v)),
            None => "[]".into(),
        }
    }
    fn text(&mut self, t: &[u8]) -> String {
        if t.len() > 500 {
            let n = self.intern(t.iter().map(|b| *b as char).collect());
            format!("[-1,{}]", n)
        } else {
            bytes(t)
        }
    }
    fn start(&mut self, out: &mut Shards) {
        self.ctxs.clear();
        self.ctxs.push(None);
        with_global_context(|g| g.verif_set_error_handler(default_log_error_handler_function));
        let p = with_global_context(|g| format!("{:?}", g));
        let p = self.intern(p);
        out.history();
        out.line(&Obj::new("new").int("print", p).end());
    }
    fn step(&mut self, out: &mut Shards, r: &mut Rng, op: &Op) {
        let mut msg: Option<String> = None;
        CALLS.lock().unwrap_or_else(|e| e.into_inner()).clear();
        let (o, res) = match op {
            Op::Create(u) => {
                let o = Obj::anon().str("op", "create").raw("user", self.user(u));
                let u = u.clone();
                let res = guard(|| Box::new(Context::new(u.map(|v| v.into_boxed_slice()))));
                let s = if res.is_ok() { "ok" } else { "panic" };
                self.ctxs.push(res.ok());
                (o, s)
            }
            Op::Copy(c) => {
                let o = Obj::anon().str("op", "copy").int("c", *c as i64);
                let res = guard(|| self.with(*c, |x| Box::new(x.clone())));
                let s = if res.is_ok() { "ok" } else { "panic" };
                self.ctxs.push(res.ok());
                (o, s)
            }
            Op::Install(c, h) => {
                self.with(*c, |x| x.verif_set_error_handler(HANDLERS[*h]));
                (Obj::anon().str("op", "install").int("c", *c as i64).int("h", *h as i64), "ok")
            }
            Op::Signal(c, code, t) => {
                let o = Obj::anon().str("op", "signal").int("c", *c as i64).int("code", *code as i64).raw("text", self.text(t.as_bytes()));
                let owned = r.chance(50);
                doing(|| format!("signal {} {:?}", code, t));
                let unwinding = r.chance(6);
                let res = guard(|| {
                    self.with(*c, |x| {
                        let mut say = || if owned { x.signal_error(CODES[*code], t.clone()) } else { x.signal_error(CODES[*code], t.as_str()) };
                        if unwinding {
                            // said by a destructor while the thread unwinds
                            let mut res = Ok(());
                            struct Last<F: FnMut()>(F);
                            impl<F: FnMut()> Drop for Last<F> {
                                fn drop(&mut self) {
                                    (self.0)()
                                }
                            }
                            let _ = guard(|| {
                                let _l = Last(|| res = guard(&mut say));
                                panic!("unwinding");
                            });
                            if res.is_err() {
                                panic!("while unwinding");
                            }
                        } else {
                            say()
                        }
                    })
                });
                (o, if res.is_ok() { "ok" } else { "panic" })
            }
            Op::Register(c, l, kind) => {
                let plugs = list(l.iter().map(|p| {
                    Obj::anon().bytes("magic", &p.magic).raw("version", limbs(p.version as u64, 2)).bytes("type", &p.ty).end()
                }));
                let o = Obj::anon().str("op", "register").int("c", *c as i64).raw("list", plugs);
                let p = chain(l, *kind, r);
                doing(|| format!("register {} plug-ins", l.len()));
                let res = guard(|| self.with(*c, |x| x.init_plugin(&p)));
                let s = match res {
                    Ok(Ok(())) => "ok",
                    Ok(Err(m)) => {
                        msg = Some(m);
                        "err"
                    }
                    Err(()) => "panic",
                };
                (o, s)
            }
            Op::Drop(c) => {
                let x = self.ctxs[*c - 1].take();
                let res = guard(|| drop(x));
                (Obj::anon().str("op", "drop").int("c", *c as i64), if res.is_ok() { "ok" } else { "panic" })
            }
        };
        let calls: Vec<Call> = std::mem::take(&mut *CALLS.lock().unwrap_or_else(|e| e.into_inner()));
        let mut at: HashMap<usize, usize> = HashMap::new();
        let g = with_global_context(|g| g as *const Context as usize);
        at.insert(g, 1);
        for (i, c) in self.ctxs.iter().enumerate() {
            if let Some(c) = c {
                at.insert(c.as_ref() as *const Context as usize, i + 1);
            }
        }
        let mut said = Vec::new();
        for c in &calls {
            let t = self.text(c.text.as_bytes());
            said.push(Obj::anon().str("handler", c.handler).int("ctx", at.get(&c.at).copied().unwrap_or(0) as i64)
                .int("code", c.code as i64).raw("text", t).end());
        }
        let calls = list(said.into_iter());
        let mut after = Vec::new();
        for c in 1..=self.ctxs.len() {
            if self.live(c) {
                let (u, p) = self.with(c, |x| (x.get_user_data().map(|u| u.to_vec()), format!("{:?}", x)));
                let p = self.intern(p);
                let u = self.user(&u);
                after.push(Obj::anon().int("c", c as i64).raw("user", u).int("print", p).end());
            }
        }
        let mut e = Obj::new("op").raw("op", o.end()).str("r", res).raw("calls", calls).list("after", after);
        if let Some(m) = &msg {
            e = e.bytes("msg", m.as_bytes());
        }
        out.line(&e.str("shown", msg.as_deref().unwrap_or("")).end());
    }
}

fn text(r: &mut Rng) -> String {
    match r.below(8) {
        0 => String::new(),
        1 => "nested again".into(),
        2 if r.chance(15) => "long ".repeat(*r.pick(&[101, 820, 13107, 13108, 20000, 20000, 210_000, 840_000])),
        2 if r.chance(40) => {
            // one character of interest anywhere in a longer text
            let (a, b) = (r.below(300), r.below(300));
            let c = *r.pick(&["\0", "\n", "\r\n", "\u{feff}", "%", "\u{1F600}", "\u{85}", "\\", "\"", "\u{7f}", "\t"]);
            format!("{}{}{}", "y".repeat(a), c, "z".repeat(b))
        }
        2 => "x".repeat(r.below(400)),
        3 => "Ünïcödé \u{0} \u{1F600} \"quoted\" \\ \n".into(),
        4 if r.chance(40) => "{} {:?} %s %d %%".into(),
        4 | 5 => {
            // pieces of all kinds
            let n = r.below(8);
            (0..n).map(|_| match r.below(12) {
                0 => r.known_text(),
                1 => "\r\n".into(),
                2 => (*r.pick(&["\n", "\r", "\t", "\u{b}", "\u{85}", "\u{2028}", "\u{feff}", "\u{1b}[31m", "\u{7f}", "\0"])).to_string(),
                3 => " ".repeat(1 + r.below(4)),
                4 => (*r.pick(&["e\u{301}", "\u{e9}", "ﬁ", "İ", "\u{200b}", "日本", "\u{fffd}"])).to_string(),
                5 => (*r.pick(&["\\n", "\"", "'", "`", "$HOME", "<b>", "&amp;", "/a/b", "C:\\x"])).to_string(),
                6 => (r.word() as u32).to_string(),
                _ => (0..1 + r.below(9)).map(|_| (b'a' + r.below(26) as u8) as char).collect(),
            }).collect()
        }
        _ => (0..r.below(20)).map(|_| r.range(0x20, 0x7e) as u8 as char).collect(),
    }
}
fn plug(r: &mut Rng, bad: usize) -> Plug {
    let mut p = Plug {
        magic: *b"acpp",
        version: *r.pick(&[0, 1, 2, 2000, 2130, 2131, 2131, 209, 210]),
        ty: **r.pick(&TYPES),
    };
    if bad & 1 != 0 {
        let m = r.word() as u32;
        p.magic = match r.below(6) {
            0 => *b"acsp",
            1 => *b"ppca",
            2 => [0; 4],
            3 => *b"acpp".map(|c| c.to_ascii_uppercase()).first_chunk::<4>().unwrap(),
            4 => {
                let mut x = *b"acpp";
                x[r.below(4)] ^= 1 << r.below(8);
                x
            }
            _ => m.to_be_bytes(),
        };
    }
    if bad & 2 != 0 {
        p.version = match r.below(4) {
            0 => 2132,
            1 => *r.pick(&[2140, 3000, 10000, 65535, 65536, 0x7FFF_FFFF]),
            2 => *r.pick(&[0x8000_0000, 0xFFFF_FFFF, 0x8000_0853, 0x0001_0000]),
            _ => (r.word() as u32).max(2132),
        };
    }
    if bad & 4 != 0 {
        let m = r.word() as u32;
        p.ty = match r.below(6) {
            0 => *r.pick(&[b"zzzz", b"    ", b"Hrap", b"parh", b"PARH", b"acpp", b"mpeh", b"xfmI"]).clone(),
            1 => [0; 4],
            2 => [0xFF; 4],
            3 => {
                let mut x = **r.pick(&TYPES);
                x[r.below(4)] ^= 1 << r.below(8);
                x
            }
            4 => {
                let mut x = **r.pick(&TYPES);
                x.swap(0, 3);
                x
            }
            _ => m.to_be_bytes(),
        };
    }
    p
}
fn plugs(r: &mut Rng) -> Vec<Plug> {
    let n = match r.below(10) {
        0 if r.chance(15) => *r.pick(&[99, 100, 101, 102, 127, 128, 129, 130, 200, 255, 256, 257, 260, 300, 500, 513]),
        0 => r.range(10, 60) as usize,
        1 | 2 => 1,
        _ => r.range(1, 6) as usize,
    };
    let mode = r.below(5);
    let bad_at = match r.below(3) {
        0 => 0,
        1 => n - 1,
        _ => r.below(n),
    };
    (0..n)
        .map(|i| {
            let b = match mode {
                0 => 0,
                1 | 2 if i == bad_at => 1 << r.below(3),
                3 if i == bad_at => r.range(1, 7) as usize,
                4 if i >= bad_at => r.below(8),
                _ => 0,
            };
            plug(r, b)
        })
        .collect()
}
fn user(r: &mut Rng) -> Option<Vec<u8>> {
    match r.below(5) {
        0 => None,
        1 => Some(Vec::new()),
        2 => Some(vec![0]),
        3 if r.chance(20) => {
            let n = *r.pick(&[501usize, 1024, 4096, 65535, 65536, 65537, 70000, 131072]);
            Some(r.bytes(n))
        }
        3 if r.chance(50) => {
            let n = r.below(70);
            Some(vec![*r.pick(&[0u8, 0, 0xFF, 0x20, 0xCD]); n])
        }
        3 => Some(b"user".to_vec()),
        _ => {
            let n = r.below(40);
            Some(r.bytes(n))
        }
    }
}
fn random_op(r: &mut Rng, w: &World, mode: &str, most: usize) -> Op {
    let live: Vec<usize> = (1..=w.ctxs.len()).filter(|c| w.live(*c)).collect();
    let c = *r.pick(&live);
    let weights: [usize; 6] = match mode {
        "plugin" => [1, 1, 3, 1, 12, 0],
        "handler" => [2, 4, 6, 10, 1, 1],
        _ => [4, 4, 3, 3, 3, 2],
    };
    let mut k = r.below(weights.iter().sum());
    let mut i = 0;
    while k >= weights[i] {
        k -= weights[i];
        i += 1;
    }
    match i {
        0 if w.ctxs.len() < most => Op::Create(user(r)),
        1 if w.ctxs.len() < most => Op::Copy(c),
        2 => Op::Install(c, r.below(HANDLERS.len())),
        4 => Op::Register(c, plugs(r), r.below(9)),
        5 if c != 1 => Op::Drop(c),
        _ => Op::Signal(c, r.below(14), text(r)),
    }
}
fn four(s: &str) -> [u8; 4] {
    let mut b = [0u8; 4];
    b.copy_from_slice(s.as_bytes());
    b
}
fn case_op(j: &J, w: &World) -> Option<Op> {
    let c = || j.get("c").int() as usize;
    let ok = |c: usize| w.live(c);
    Some(match j.get("op").str() {
        "create" => Op::Create(Some(j.get("user").str().as_bytes().to_vec())),
        "copy" if ok(c()) => Op::Copy(c()),
        "install" if ok(c()) => Op::Install(c(), j.get("h").int() as usize),
        "signal" if ok(c()) => Op::Signal(c(), j.get("code").int() as usize, j.get("text").str().into()),
        "register" if ok(c()) => Op::Register(
            c(),
            j.get("list").arr().iter().map(|p| Plug {
                magic: four(p.get("magic").str()),
                version: p.get("version").int() as u32,
                ty: four(p.get("type").str()),
            }).collect(),
            c(),
        ),
        "drop" if c() != 1 && ok(c()) => Op::Drop(c()),
        _ => return None,
    })
}

fn defaults(out: &mut Shards, r: &mut Rng) {
    let alarm = alarm_codes::AlarmCodesChunk::default();
    let adapt = adaption_state::AdaptionStateChunk::default();
    let f = formatters::FormattersPluginChunk::default();
    let i = intents::IntentsPluginChunk::default();
    let o = optimizations::OptimizationPluginChunk::default();
    let p = parametric_curves::CurvesPluginChunk::default();
    let t = tag::TagPluginChunk::default();
    let tt = tag_type::TagTypePluginChunk::default();
    let tr = transform::TransformPluginChunk::default();
    let u = user(r);
    let c = Context::new(u.map(|v| v.into_boxed_slice()));
    let s = format!("{:?}", c);
    let found = |x: String, n: usize| (s.matches(&x).count() >= n).to_string();
    let silent = {
        CALLS.lock().unwrap_or_else(|e| e.into_inner()).clear();
        let mut d = c.clone();
        d.signal_error(ErrorCode::Internal, "nobody listens");
        CALLS.lock().unwrap_or_else(|e| e.into_inner()).is_empty()
    };
    out.history();
    out.line(&Obj::new("defaults")
        .list("alarm", alarm.alarm_codes.iter().map(|x| x.to_string()))
        .raw("adaption", limbs(adapt.adaption_state.to_bits(), 4))
        .list("lists", [f.factory_list.len(), i.intents.len(), o.optimization_collection.len(), p.parametric_curves.len(),
            t.tags.len(), tt.tag_types.len(), tr.transform_collection.len()].iter().map(|x| x.to_string()))
        .bool("silent", silent)
        .list("found", [found(format!("{:?}", alarm), 1), found(format!("{:?}", adapt), 1), found(format!("{:?}", f), 1),
            found(format!("{:?}", i), 1), found(format!("{:?}", o), 1), found(format!("{:?}", p), 1), found(format!("{:?}", t), 1),
            found(format!("{:?}", tt), 2), found(format!("{:?}", tr), 1)])
        .end());
}

pub fn run(o: &Opts) {
    let mut out = Shards::new(&o.out, o.shards, &meta(), o.flush);
    let mut r = Rng::new(o.seed);
    let mut w = World { ctxs: Vec::new(), prints: HashMap::new() };
    if o.mode == "kind" {
        for i in 0..o.n.max(9) {
            let k = i % 9;
            let p = payload(k, &mut r);
            out.history();
            out.line(&Obj::new("kind").str("kind", KINDS[k]).list("is", tests(&p).iter().map(|x| x.to_string())).end());
        }
        out.finish();
        return;
    }
    if let Some(c) = &o.cases {
        for l in std::fs::read_to_string(c).unwrap().lines() {
            let j = json::parse(l);
            w.start(&mut out);
            for op in j.arr() {
                if let Some(op) = case_op(op, &w) {
                    w.step(&mut out, &mut r, &op);
                }
            }
        }
    }
    for k in 0..o.n {
        if k % 20 == 0 {
            defaults(&mut out, &mut r);
        }
        if k == o.n / 2 {
            age::age(&Scratch::new(), &mut r);
        }
        w.start(&mut out);
        let (steps, most) = if k % 400 == 399 { (400, 8) } else if k % 12 == 11 { (r.range(30, 60), 18) } else { (r.range(2, 14), 7) };
        for _ in 0..steps {
            let op = random_op(&mut r, &w, &o.mode, most);
            w.step(&mut out, &mut r, &op);
        }
    }
    out.finish();
}
