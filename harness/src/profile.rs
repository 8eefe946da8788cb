//! Opens files as profiles and records what came of it.
use crate::age;
use crate::json;
use crate::util::*;
use lcms2::io::AccessMode;
use lcms2::state::verif::with_global_context;
use lcms2::plugins::{Plugin, PluginType};
use lcms2::state::chunks::error_handler::{default_log_error_handler_function, LogErrorHandlerFunction};
use lcms2::state::{Context, ErrorCode};
use lcms2::types::{Profile, Signature};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

static SIGNALS: Mutex<Vec<(u8, String)>> = Mutex::new(Vec::new());

/// Where the default context (0) and those numbered 1 to 3 are.
static PLACES: [AtomicUsize; 4] = [const { AtomicUsize::new(0) }; 4];

/// Notes the number of the context an error was signalled to (and that it was this context's handler).
fn recorder<const N: u8>(ctx: &mut Context, code: ErrorCode, _text: String) {
    let here = ctx as *const Context as usize == PLACES[N as usize].load(Ordering::Relaxed);
    SIGNALS.lock().unwrap_or_else(|e| e.into_inner()).push((if here { N } else { 200 + N }, format!("{:?}", code)));
}
const RECORDERS: [LogErrorHandlerFunction; 4] = [recorder::<0>, recorder::<1>, recorder::<2>, recorder::<3>];
fn take_signals() -> Vec<(u8, String)> {
    std::mem::take(&mut *SIGNALS.lock().unwrap_or_else(|e| e.into_inner()))
}

/// A file to be made: its first bytes and its length (the rest is zero).
#[derive(Clone)]
pub struct Img {
    pub pre: Vec<u8>,
    pub len: usize,
}
impl Img {
    pub fn write(&self, p: &Path) {
        let pre = &self.pre[..self.pre.len().min(self.len)];
        std::fs::write(p, pre).unwrap();
        if self.len > pre.len() {
            std::fs::OpenOptions::new().write(true).open(p).unwrap().set_len(self.len as u64).unwrap();
        }
    }
}
pub fn num32(v: u32) -> [u8; 4] {
    if cfg!(feature = "little") { v.to_le_bytes() } else { v.to_be_bytes() }
}
fn num16(v: u16) -> [u8; 2] {
    if cfg!(feature = "little") { v.to_le_bytes() } else { v.to_be_bytes() }
}

pub struct Spec {
    pub header: [u8; 128],
    pub count: u32,
    pub entries: Vec<(u32, u32, u32)>,
}
impl Spec {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = self.header.to_vec();
        v.extend(num32(self.count));
        for e in &self.entries {
            v.extend(num32(e.0));
            v.extend(num32(e.1));
            v.extend(num32(e.2));
        }
        v
    }
}
pub fn header(r: &mut Rng, zero: bool) -> [u8; 128] {
    let mut h = [0u8; 128];
    if !zero {
        for b in h.iter_mut() {
            *b = r.byte();
        }
    }
    h[36..40].copy_from_slice(&num32(0x61637370));
    date(&mut h, &valid_date(r));
    h
}
pub fn days(y: i64, m: i64) -> i64 {
    match m {
        2 => if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 { 29 } else { 28 },
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
pub fn valid_date(r: &mut Rng) -> [u16; 6] {
    let y = match r.below(4) {
        0 => *r.pick(&[0, 1, 4, 100, 400, 1900, 1996, 2000, 2022, 2023, 2024, 2100, 2400, 32768, 65532, 65535]),
        1 => r.range(0, 65535),
        _ => r.range(1980, 2060),
    };
    let m = r.range(1, 12);
    let d = match r.below(3) {
        0 => days(y, m),
        1 => 1,
        _ => r.range(1, days(y, m)),
    };
    let h = *r.pick(&[0, 23, 12, 1, 7]);
    let mi = *r.pick(&[0, 59, 30, 5]);
    let s = *r.pick(&[0, 59, 37, 1]);
    [y as u16, m as u16, d as u16, h as u16, mi as u16, s as u16]
}
pub fn bad_date(r: &mut Rng) -> [u16; 6] {
    let mut d = valid_date(r);
    match r.below(11) {
        // what other calendars and clocks have
        9 => {
            d = *r.pick(&[[2016, 12, 31, 23, 59, 60], [2015, 6, 30, 23, 59, 60], [1998, 12, 31, 23, 59, 61], [2024, 2, 29, 24, 0, 0], [2000, 12, 31, 24, 0, 0],
                [1900, 2, 29, 0, 0, 0], [1582, 2, 29, 0, 0, 0], [0, 0, 0, 0, 0, 0], [0, 1, 0, 0, 0, 0], [1712, 2, 30, 12, 0, 0], [65535, 65535, 65535, 65535, 65535, 65535]]);
            if r.chance(40) {
                d[0] = valid_date(r)[0];
                if d[1] == 2 && d[2] == 29 && days(d[0] as i64, 2) == 29 { d[2] = 30 }
            }
        }
        10 => {
            // the last second of a day, and one more
            d[3] = 23;
            d[4] = 59;
            d[5] = 60;
        }
        0 => d[1] = 0,
        1 => d[1] = *r.pick(&[13, 14, 255, 256, 258, 65535]),
        2 => d[2] = 0,
        3 => d[2] = days(d[0] as i64, d[1] as i64) as u16 + 1,
        4 => d[2] = *r.pick(&[32, 33, 99, 257, 65535]),
        5 => d[3] = *r.pick(&[24, 25, 256, 65535]),
        6 => d[4] = *r.pick(&[60, 61, 255, 65535]),
        7 => d[5] = *r.pick(&[60, 61, 99, 256, 65535]),
        _ => {
            d[0] = *r.pick(&[1900, 1901, 2100, 2023, 1, 100, 65535]);
            d[1] = 2;
            d[2] = 29;
        }
    }
    d
}
fn date(h: &mut [u8], d: &[u16; 6]) {
    for i in 0..6 {
        h[24 + 2 * i..26 + 2 * i].copy_from_slice(&num16(d[i]));
    }
}
pub fn good() -> Img {
    let mut h = [0u8; 128];
    h[36..40].copy_from_slice(&num32(0x61637370));
    h[0..4].copy_from_slice(&num32(160));
    date(&mut h, &[2007, 7, 25, 0, 5, 37]);
    let s = Spec { header: h, count: 1, entries: vec![(0x64657363, 144, 16)] };
    Img { pre: s.bytes(), len: 160 }
}

/// A signature for the field at this place of the header.
fn field_sig(r: &mut Rng, at: usize) -> u32 {
    let w = |b: &[u8; 4]| u32::from_be_bytes(*b);
    let classes = [w(b"scnr"), w(b"mntr"), w(b"prtr"), w(b"link"), w(b"abst"), w(b"spac"), w(b"nmcl")];
    let spaces = [w(b"RGB "), w(b"XYZ "), w(b"Lab "), w(b"CMYK"), w(b"GRAY"), w(b"Luv "), w(b"HSV "), w(b"2CLR"), w(b"FCLR"), w(b"MCH1"), w(b"nmcl")];
    let platforms = [w(b"APPL"), w(b"MSFT"), w(b"SUNW"), w(b"SGI "), w(b"TGNT"), w(b"*nix")];
    let makers = [w(b"lcms"), w(b"ADBE"), w(b"appl"), w(b"HP  "), w(b"none"), 0];
    let mut v = match (at, r.below(8)) {
        (_, 0) if r.chance(25) => r.letters(),
        (_, 0) => r.word() as u32,
        (_, 1) => r.known_sig(),
        (12, _) => *r.pick(&classes),
        (16 | 20, _) => if r.chance(70) { spaces[r.below(5)] } else { *r.pick(&spaces) },
        (40, _) => *r.pick(&platforms),
        (4 | 48 | 80, 2 | 3) => *r.pick(&makers),
        _ => r.known_sig(),
    };
    // nearly one of those
    if r.chance(12) {
        let mut b = v.to_be_bytes();
        let i = r.below(4);
        b[i] = match r.below(6) {
            0 => b' ',
            1 => b'0' + r.below(10) as u8,
            2 => b'A' + r.below(26) as u8,
            3 => b'a' + r.below(26) as u8,
            4 => b[i] ^ 0x20,
            _ => r.byte(),
        };
        v = u32::from_be_bytes(b);
    }
    v
}
/// Where a header has signatures.
pub const SIGNED: [usize; 8] = [4, 12, 16, 20, 40, 48, 52, 80];
/// The header of some file: anything, or something that makes sense.
pub fn some_header(r: &mut Rng) -> [u8; 128] {
    let mut h = header(r, false);
    if r.chance(30) {
        // realistic: mostly zero
        h = header(r, true);
        for _ in 0..r.below(4) {
            let i = r.below(128);
            if !(24..40).contains(&i) {
                h[i] = r.byte();
            }
        }
        if r.chance(60) {
            // values that mean something
            for at in [4usize, 8, 12, 16, 20, 40, 44, 48, 52, 56, 60, 64, 80] {
                let v = match at {
                    8 => *r.pick(&[0x02000000u32, 0x02100000, 0x02400000, 0x04000000, 0x04200000, 0x04300000, 0x04400000, 0x05000000, 0x00000002]),
                    44 | 60 | 64 => r.below(9) as u32,
                    56 => *r.pick(&[0u32, 0, 1, 0x8000_0000]),
                    _ => field_sig(r, at),
                };
                if r.chance(80) {
                    h[at..at + 4].copy_from_slice(&num32(v));
                }
            }
            if r.chance(50) {
                // the illuminant of nearly all profiles
                for (i, v) in [0xF6D6u32, 0x10000, 0xD32D].iter().enumerate() {
                    h[68 + 4 * i..72 + 4 * i].copy_from_slice(&num32(*v));
                }
            }
            if r.chance(20) {
                // one field says the same as another
                let (a, b) = (*r.pick(&[4usize, 12, 16, 20, 40, 48, 52, 80]), *r.pick(&[4usize, 12, 16, 20, 40, 48, 52, 80]));
                h.copy_within(a..a + 4, b);
            }
        }
    }
    h
}
/// One randomly generated file.
pub fn random(r: &mut Rng) -> Img {
    let mut h = some_header(r);
    if r.chance(8) {
        let m = match r.below(8) {
            0 => r.next() as u32,
            4 => r.letters(),
            5 => r.known_sig(),
            6 => 0x61637370 ^ (0x20 << (8 * r.below(4))),
            7 => r.word() as u32,
            1 => 0x61637370 ^ (1 << r.below(32)),
            2 => 0x70736361,
            _ => 0,
        };
        h[36..40].copy_from_slice(&num32(m));
    }
    if r.chance(8) {
        date(&mut h, &bad_date(r));
    }
    let n = match r.below(20) {
        0 => *r.pick(&[98, 99, 100]),
        1 => *r.pick(&[101, 102, 103, 128]),
        2 => r.range(13, 97) as usize,
        3 => 0,
        _ => r.below(13),
    };
    let body = 132 + 12 * n;
    let len = match r.below(6) {
        0 => body,
        1 => body + r.below(4),
        2 => 1 << r.range(11, 17),
        // lengths at which a narrow integer gives up (the file has a hole)
        3 if r.chance(20) => *r.pick(&[1usize << 31, (1 << 31) - 1, u32::MAX as usize, 1 << 32, (1 << 32) + body, (1 << 32) + 1, (1 << 33) + 77, 1 << 16]),
        _ => body + r.below(300),
    };
    let len = len.max(if r.chance(99) { body } else { 0 });
    let len32 = len.min(u32::MAX as usize) as u32;
    let hsize: u32 = match r.below(10) {
        0 => len32.saturating_add(1),
        1 => len32.saturating_sub(1),
        2 => u32::MAX,
        3 => 0,
        4 => r.below(len + 50) as u32,
        5 => r.next() as u32,
        6 => len32.wrapping_mul(2),
        _ => len32,
    };
    h[0..4].copy_from_slice(&num32(hsize));
    let limit = hsize.min(len32);
    let mut pool: Vec<(u32, u32)> = Vec::new();
    for _ in 0..(1 + r.below(n.min(20).max(2) + 2)) {
        let off = r.below(limit as usize + 1) as u32;
        pool.push(match r.below(14) {
            0 => (limit, 0),
            1 => (limit.wrapping_add(1), 0),
            2 => (0, limit),
            3 => (off, limit - off),
            4 => (off, (limit - off).wrapping_add(1)),
            5 => (u32::MAX - r.below(3) as u32, r.below(6) as u32),
            6 => (r.below(6) as u32, u32::MAX - r.below(3) as u32),
            7 => (r.next() as u32, r.next() as u32),
            8 => {
                let o = 0x8000_0000u32.wrapping_add(r.below(200) as u32);
                (o, 0u32.wrapping_sub(o).wrapping_add(r.below(limit as usize + 2) as u32))
            }
            9 => (limit / 2, limit - limit / 2),
            _ => (off, r.below((limit - off) as usize + 1) as u32),
        });
    }
    let mut sigs: Vec<u32> = vec![0x64657363, 0x41324230];
    for _ in 0..(if r.chance(40) { 2 } else { n + 2 }) {
        sigs.push(match r.below(12) {
            0 => 0,
            1 => 0x20202020,
            2 => u32::MAX,
            3 => 0x64657363 ^ (1 << r.below(32)),
            4 | 5 => r.known_sig(),
            6 if r.chance(25) => r.letters(),
            6 => r.word() as u32,
            _ => r.next() as u32,
        });
    }
    let distinct = r.chance(60);
    let mut entries: Vec<(u32, u32, u32)> = (0..n)
        .map(|i| {
            let (o, s) = *r.pick(&pool);
            let sig = if distinct { sigs[i % sigs.len()].wrapping_add((i / sigs.len()) as u32) } else { *r.pick(&sigs) };
            (sig, o, s)
        })
        .collect();
    // directories in some order
    match r.below(12) {
        0 => entries.sort(),
        1 => entries.sort_by(|a, b| b.cmp(a)),
        2 => entries.sort_by_key(|e| (e.1, e.2)),
        _ => (),
    }
    if n > 1 && r.chance(8) {
        // names with repetitions, in order
        let per = 1 + r.below(5) as u32;
        for (i, e) in entries.iter_mut().enumerate() {
            e.0 = 0x61612041 + i as u32 / per;
        }
    }
    let count = match r.below(40) {
        0 => *r.pick(&[101u32, 256, 65536, 0x8000_0000, u32::MAX, 0x1_0000 + 5, 0x0100_0001]),
        1 => n as u32 + 1 + r.below(3) as u32,
        2 => r.below(n + 1) as u32,
        _ => n as u32,
    };
    let s = Spec { header: h, count, entries };
    let mut img = Img { pre: s.bytes(), len };
    if r.chance(10) {
        img.len = match r.below(5) {
            0 => r.below(133),
            1 => *r.pick(&[0, 1, 127, 128, 129, 131, 132, 133]),
            2 => body.saturating_sub(1 + r.below(12)),
            3 => 132 + 12 * r.below(n + 1),
            _ => r.below(body + 1),
        };
    }
    if r.chance(2) {
        let n = r.below(400);
        img = Img { pre: r.bytes(n), len: n };
    }
    if r.chance(3) {
        // something before the profile, or its first bytes missing
        let n = *r.pick(&[1usize, 2, 3, 4, 8, 12, 128, 132, 512, 1024]);
        if r.chance(70) {
            let mut front = if r.chance(50) { vec![0u8; n] } else { r.bytes(n) };
            if r.chance(30) {
                front[0] = 0;
            }
            front.extend(&img.pre);
            img = Img { len: img.len + n, pre: front };
        } else if img.pre.len() >= n && img.len >= n {
            img = Img { len: img.len - n, pre: img.pre[n..].to_vec() };
        }
    }
    if r.chance(3) && img.pre.len() > 156 {
        // an entry said twice, one after the other or not
        let k = (img.pre.len() - 132) / 12;
        let i = r.below(k);
        let j = if r.chance(60) && i + 1 < k { i + 1 } else { r.below(k) };
        img.pre.copy_within(132 + 12 * i..144 + 12 * i, 132 + 12 * j);
    }
    img
}

/// A file that differs from another in few places, often only inside the directory.
pub fn sibling(r: &mut Rng, a: &Img) -> Img {
    let mut b = a.clone();
    let n = b.pre.len();
    match r.below(6) {
        0 if n > 0 => b.pre[r.below(n)] ^= 1 << r.below(8),
        1 if n > 144 => {
            let k = (n - 132) / 12;
            let (i, j) = (r.below(k), r.below(k));
            for x in 0..12 {
                b.pre.swap(132 + 12 * i + x, 132 + 12 * j + x);
            }
        }
        2 if n >= 128 => {
            // a field of the header
            let at = *r.pick(&[0usize, 8, 12, 16, 20, 44, 48, 52, 56, 60, 64, 80, 84, 96]);
            let v = r.bytes(4);
            b.pre[at..at + 4].copy_from_slice(&v);
        }
        3 => b.len = (b.len + r.below(40)).saturating_sub(20).max(n.min(b.len)),
        _ if n >= 144 => {
            let k = r.below((n - 132) / 12);
            let at = 132 + 12 * k + 4 * r.below(3);
            let v = if r.chance(50) { num32(r.below(b.len.min(1 << 30) + 1) as u32) } else { num32(r.next() as u32) };
            b.pre[at..at + 4].copy_from_slice(&v);
        }
        _ => (),
    }
    b
}

pub fn view_json(p: &Profile) -> String {
    use chrono::{Datelike, Timelike};
    let v = p.verif_view();
    let c = v.created;
    let b = |x: u32| bytes(&x.to_be_bytes());
    let mut o = Obj::anon()
        .raw("class", b(v.device_class))
        .raw("space", b(v.color_space))
        .raw("pcs", b(v.pcs))
        .raw("version", b(v.version))
        .raw("intent", b(v.rendering_intent))
        .raw("flags", b(v.flags))
        .raw("manuf", b(v.manufacturer))
        .raw("model", b(v.model))
        .raw("attrs", bytes(&v.attributes.to_be_bytes()))
        .raw("creator", b(v.creator))
        .raw("id", bytes(&v.profile_id));
    o = if v.is_write {
        // a profile being written is stamped with the current time
        o.raw("date", "[]")
    } else {
        o.list("date", [c.date().year() as i64, c.date().month() as i64, c.date().day() as i64, c.time().hour() as i64, c.time().minute() as i64, c.time().second() as i64, c.time().nanosecond() as i64].iter().map(|x| x.to_string()))
    };
    o.bool("write", v.is_write)
        .int("count", p.get_tag_count() as i64)
        .list(
            "tags",
            v.tags.iter().map(|t| {
                Obj::anon()
                    .raw("sig", limbs(t.0 as u64, 2))
                    .raw("off", limbs(t.1 as u64, 4))
                    .raw("size", limbs(t.2 as u64, 4))
                    .raw("link", match t.3 {
                        None => "[]".to_string(),
                        Some(l) => format!("[{}]", limbs(l as u64, 2)),
                    })
                    .end()
            }),
        )
        .end()
}

pub struct Driver {
    pub scratch: Scratch,
    ctxs: Vec<Context>,
    muted: [bool; 4],
    pub shards: Shards,
    pub opened: usize,
    full: bool,
    last_sig: u32,
}

fn new_ctx(id: usize) -> Context {
    new_ctx_with(id, if id == 3 { None } else { Some(vec![id as u8]) })
}
fn new_ctx_with(id: usize, data: Option<Vec<u8>>) -> Context {
    let mut c = Context::new(data.map(|d| d.into_boxed_slice()));
    c.verif_set_error_handler(RECORDERS[id]);
    c
}
fn place(id: usize, c: &Context) {
    PLACES[id].store(c as *const Context as usize, Ordering::Relaxed);
}
fn plugin(r: &mut Rng) -> Plugin {
    fn zero(_: i32, _: &[f64], _: f64) -> f64 {
        0.0
    }
    let types = [b"inpH", b"parH", b"frmH", b"typH", b"tagH", b"intH", b"mpeH", b"optH", b"xfmH", b"none"];
    Plugin {
        magic: if r.chance(80) { Signature::new(b"acpp") } else { Signature::from(r.next() as u32) },
        expected_version: *r.pick(&[0u32, 2000, 2130, 2131, u32::MAX]),
        r#type: Signature::new(*r.pick(&types)),
        next: None,
        data: PluginType::ParametricCurve { num_functions: 0, function_types: [0; 20], parameter_count: [0; 20], evaluator: zero },
    }
}
/// What a context may go through between two opens.
fn live(c: &mut Context, r: &mut Rng) {
    match r.below(7) {
        0 | 1 => {
            for _ in 0..1 + r.below(3) {
                let _ = c.init_plugin(&plugin(r));
            }
        }
        2 => {
            for _ in 0..1 + r.below(40) {
                let code = *r.pick(&[ErrorCode::Undefined, ErrorCode::File, ErrorCode::Range, ErrorCode::Internal, ErrorCode::Read, ErrorCode::BadSignature, ErrorCode::CorruptionDetected]);
                c.signal_error(code, *r.pick(&["", "Bad signature", "Too many tags (200)", "x"]));
            }
        }
        3 => {
            let d = c.clone();
            if r.chance(70) {
                *c = d;
            }
        }
        4 => {
            let n = *r.pick(&[0usize, 1, 8, 64, 5000]);
            *c = Context::new(if r.chance(30) { None } else { Some(r.bytes(n).into_boxed_slice()) });
        }
        5 => {
            let mut d = c.clone();
            let _ = d.init_plugin(&plugin(r));
            d.verif_set_error_handler(default_log_error_handler_function);
        }
        _ => (),
    }
}

impl Driver {
    pub fn new(o: &Opts, full: bool) -> Self {
        with_global_context(|c| {
            c.verif_set_error_handler(RECORDERS[0]);
            place(0, c);
        });
        let ctxs: Vec<Context> = (1..=3).map(new_ctx).collect();
        for (i, c) in ctxs.iter().enumerate() {
            place(i + 1, c);
        }
        Driver {
            scratch: Scratch::new(),
            ctxs,
            muted: [false; 4],
            shards: Shards::new(&o.out, o.shards, &meta(), o.flush),
            opened: 0,
            full,
            last_sig: 0x64657363,
        }
    }
    /// the life of a context goes on
    fn stir(&mut self, via: usize, r: &mut Rng) {
        if via > 0 && r.chance(25) {
            // another context takes its place
            let n = *r.pick(&[0usize, 1, 2, 4, 4, 8, 12, 16, 20, 128]);
            self.ctxs[via - 1] = new_ctx_with(via, if r.chance(20) { None } else { Some(r.bytes(n)) });
        }
        let muted = r.chance(15);
        self.muted[via] = muted;
        let handler = if muted { default_log_error_handler_function } else { RECORDERS[via] };
        let mut go = |c: &mut Context| {
            doing(|| format!("a context registers plug-ins, signals errors, is copied, ({})", via));
            for _ in 0..r.below(3) {
                let _ = guard(|| live(c, r));
            }
            c.verif_set_error_handler(handler);
        };
        match via {
            0 => with_global_context(&mut go),
            i => go(&mut self.ctxs[i - 1]),
        }
    }
    /// via 0: the default context, 1..=3: the context with that number
    pub fn open(&mut self, img: &Img, via: usize, r: &mut Rng) -> Option<Box<Profile>> {
        // the path must not matter
        const NAMES: [&str; 16] = ["p.icc", "q", "profile with spaces.icm", "P.ICC", "x.icm", ".hidden", "end.", "sRGB.icc", "a.tif", "tmp", "été.icc", "日本.icc",
                                   "x.icc.bak", "-", "~", "%41.icc"];
        let name = match self.opened % 7 {
            // what the library has a word for
            5 => {
                let w = r.known_text();
                let w: String = w.chars().filter(|c| !"/\0".contains(*c)).take(40).collect();
                if self.opened % 2 == 0 { format!("p.{}", w.trim_start_matches('.')) } else { w }
            }
            6 => NAMES[r.below(16)].into(),
            k => NAMES[k % 3].into(),
        };
        let name = if name == "" || name == "." || name == ".." { "q".into() } else { name };
        let p = self.scratch.path(&name);
        img.write(&p);
        if r.chance(15) {
            self.stir(via, r);
        }
        take_signals();
        let pre = &img.pre[..img.pre.len().min(img.len)];
        doing(|| format!("open of a {}-byte file starting {:?} via context {}", img.len, pre, via));
        let res = guard(|| match via {
            0 => Profile::open_from_file(&p, AccessMode::Read),
            i => Profile::open_from_file_thr(&mut self.ctxs[i - 1], &p, AccessMode::Read),
        });
        let signals = take_signals();
        self.opened += 1;
        let st = status(&res);
        let mut o = Obj::new("open")
            .int("via", via as i64)
            .bool("muted", self.muted[via])
            .raw("len", limbs(img.len as u64, 4))
            .int("pad", (img.len - pre.len()).min(1 << 20) as i64)
            .bytes("pre", pre)
            .str("r", &st)
            .list("signals", signals.iter().map(|s| format!("[{},{}]", s.0, quote(&s.1))));
        let profile = match res {
            Ok(Ok(p)) => Some(p),
            _ => None,
        };
        if let Some(p) = &profile {
            o = o.raw("view", view_json(p));
            let n = p.get_tag_count();
            let mut idx: Vec<usize> = (0..n.min(110)).collect();
            idx.extend([n, n + 1, 99, 100, 101, 255, 256, 65536, 1 << 20, usize::MAX, usize::MAX / 2]);
            for _ in 0..3 {
                // with the right value in the lower half
                idx.push(1usize << r.range(30, 63) | r.below(n + 1));
            }
            idx.push((1 << 32) + n.saturating_sub(1));
            idx.push(1 << 32);
            if !self.full {
                idx.truncate(0);
            }
            o = o.list(
                "at",
                idx.iter().map(|&i| {
                    doing(|| format!("get_tag_signature({}) of {} tags", i, n));
                    match guard(|| p.get_tag_signature(i)) {
                        Ok(s) => format!("[{},{}]", i.min(1 << 30), limbs(u32::from(s) as u64, 2)),
                        Err(()) => format!("[{},[]]", i.min(1 << 30)),
                    }
                }),
            );
            let mut sigs: Vec<u32> = p.verif_view().tags.iter().map(|t| t.0).collect();
            sigs.sort();
            sigs.dedup();
            while sigs.len() > 40 {
                sigs.remove(r.below(sigs.len()));
            }
            sigs.extend([0x20202020, 0, 0x64657363, 0x58595a20]);
            sigs.push(r.next() as u32);
            // in any order, beginning with what was looked for last
            for i in (1..sigs.len()).rev() {
                sigs.swap(i, r.below(i + 1));
            }
            let again = *r.pick(&sigs);
            sigs.push(again);
            sigs.insert(0, self.last_sig);
            if r.chance(50) {
                sigs.push(0x64657363);
            }
            self.last_sig = sigs[sigs.len() - 1];
            if !self.full {
                sigs.truncate(0);
            }
            o = o.list(
                "search",
                sigs.iter().map(|&s| {
                    doing(|| format!("search of tag {:#x} in a profile starting {:?}", s, pre));
                    let f = |follow| match guard(|| p.verif_search_tag(Signature::from(s), follow)) {
                        Ok(Some(i)) => i as i64 + 1,
                        Ok(None) => 0,
                        Err(()) => -2,
                    };
                    format!("[{},{},{}]", limbs(s as u64, 2), f(false), f(true))
                }),
            );
        }
        self.shards.line(&o.end());
        profile
    }
    /// opening something that is not there, or not a file
    pub fn missing(&mut self, dir: bool, via: usize) {
        let p = if dir { self.scratch.path("") } else { self.scratch.path("nothing/here") };
        take_signals();
        doing(|| format!("open of a {} via context {}", if dir { "directory" } else { "missing file" }, via));
        let res = guard(|| match via {
            0 => Profile::open_from_file(&p, AccessMode::Read),
            i => Profile::open_from_file_thr(&mut self.ctxs[i - 1], &p, AccessMode::Read),
        });
        let signals = take_signals();
        let o = Obj::new("missing")
            .int("via", via as i64)
            .str("r", &status(&res))
            .list("signals", signals.iter().map(|s| format!("[{},{}]", s.0, quote(&s.1))));
        self.shards.line(&o.end());
    }
    pub fn compare(&mut self, a: &Profile, b: &Profile, same: bool) {
        let eq = guard(|| (a == b, b == a, a == a, b == b));
        let s = match eq {
            Ok((x, y, z, w)) => format!("[{},{},{},{}]", x, y, z, w),
            Err(()) => "[]".into(),
        };
        let o = Obj::new("eq").bool("same", same).raw("a", view_json(a)).raw("b", view_json(b)).raw("eq", s);
        self.shards.line(&o.end());
    }
}

/// Images enumerated by the specification (G_Profile).
pub fn case_img(c: &json::J) -> Img {
    let mut h = [0u8; 128];
    h[36..40].copy_from_slice(&num32(if c.get("magic").bool() { 0x61637370 } else { 0x61637371 }));
    let d: [u16; 6] = if c.get("date").bool() { [2024, 2, 29, 23, 59, 59] } else { [2023, 2, 29, 23, 59, 59] };
    date(&mut h, &d);
    h[0..4].copy_from_slice(&num32(c.get("size").limbs() as u32));
    let entries = c
        .get("entries")
        .arr()
        .iter()
        .map(|e| (e.get("sig").limbs() as u32, e.get("off").limbs() as u32, e.get("size").limbs() as u32))
        .collect();
    let s = Spec { header: h, count: c.get("count").limbs() as u32, entries };
    Img { pre: s.bytes(), len: c.get("len").int() as usize }
}

/// Two numbers changed so that some summary of both stays the same: exchanged, moved by the same amount
/// in opposite directions, the same bits flipped in both, bytes moved within one.
fn offset_each_other(b: &mut [u8], f: usize, g: usize, kind: usize, r: &mut Rng) {
    let get = |b: &[u8], i: usize| u32::from_be_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
    let put = |b: &mut [u8], i: usize, v: u32| b[i..i + 4].copy_from_slice(&v.to_be_bytes());
    let (u, v) = (get(b, f), get(b, g));
    match kind {
        0 => {
            put(b, f, v);
            put(b, g, u);
        }
        1 => {
            let (x, y) = if cfg!(feature = "little") { (u.swap_bytes(), v.swap_bytes()) } else { (u, v) };
            let d = 1u32 << *r.pick(&[0, 1, 2, 3, 4, 8]);
            b[f..f + 4].copy_from_slice(&num32(x.wrapping_add(d)));
            b[g..g + 4].copy_from_slice(&num32(y.wrapping_sub(d)));
        }
        2 => {
            let m = 1u32 << r.below(32);
            put(b, f, u ^ m);
            put(b, g, v ^ m);
        }
        _ => {
            let i = r.below(3);
            b.swap(f + i, f + i + 1);
        }
    }
}

pub fn run(o: &Opts) {
    let mut r = Rng::new(o.seed);
    let mut d = Driver::new(o, o.mode == "search");
    let real = std::fs::read(concat!("/repo", "/resources/test/sRGB_v4_ICC_preference.icc")).ok();
    if let Some(c) = &o.cases {
        for c in json::lines(c) {
            d.shards.history();
            d.open(&case_img(&c), r.below(4), &mut r);
        }
    }
    match o.mode.as_str() {
        "open" | "search" => {
            // every truncation point of a small file
            let base = loop {
                let i = random(&mut r);
                let n = i.pre.len();
                if n == 132 + 36 && i.len >= n && i.pre[36..40] == num32(0x61637370) && i.pre[128..132] == num32(3) {
                    break i;
                }
            };
            for len in 0..=(132 + 36 + 2) {
                d.shards.history();
                d.open(&Img { pre: base.pre.clone(), len }, r.below(4), &mut r);
            }
            // every header byte on its own
            for i in 0..128 {
                for v in [1u8, 0x80, 0xFF] {
                    let mut g = good();
                    g.pre[i] = g.pre[i].wrapping_add(v);
                    d.shards.history();
                    d.open(&g, r.below(4), &mut r);
                }
            }
            // a profile inside of something else
            let fronts: [&[u8]; 12] = [
                &[0], &[0xFF], b" ", b"\n", &[0xEF, 0xBB, 0xBF], &[0xFE, 0xFF], &[0, 5, b'a', b'.', b'i', b'c', b'c', 0, 0], b"PK\x03\x04",
                &[0x1F, 0x8B, 8, 0], b"ICC_PROFILE\0\x01\x01", &[0xFF, 0xD8, 0xFF, 0xE2, 2, 0x40], b"acsp",
            ];
            for f in fronts {
                for n in [f.len(), 4, 8, 12, 14, 16, 18, 26, 36, 100, 124, 127, 128, 129, 132, 256, 512, 1024] {
                    let g = good();
                    let mut pre = f.to_vec();
                    pre.resize(n, if f[0] == b' ' { b' ' } else { 0 });
                    pre.extend(&g.pre);
                    d.shards.history();
                    d.open(&Img { len: g.len + n, pre }, r.below(4), &mut r);
                }
            }
            // what the library has names for, in every field that could have it
            let (few, all) = (known_sigs(12), known_sigs(1 << 20));
            for (i, &at) in SIGNED.iter().enumerate() {
                for (j, &sig) in few.iter().chain(&all).enumerate() {
                    // the common ones in one field each
                    if j >= few.len() && j % SIGNED.len() != i {
                        continue;
                    }
                    let mut g = good();
                    if j % 3 > 0 {
                        g.pre[..128].copy_from_slice(&some_header(&mut r));
                        g.pre[..4].copy_from_slice(&num32(160));
                    }
                    g.pre[at..at + 4].copy_from_slice(&num32(sig));
                    d.shards.history();
                    d.open(&g, r.below(4), &mut r);
                }
            }
            // every value around the limit of the directory
            for n in 95..106usize {
                for avail in [n, n.saturating_sub(1), 100.min(n)] {
                    let mut h = header(&mut r, true);
                    h[0..4].copy_from_slice(&num32(4000));
                    let entries = (0..avail).map(|i| (r.next() as u32, 1000 + 4 * (i as u32 % 60), 4)).collect();
                    let s = Spec { header: h, count: n as u32, entries };
                    let pre = s.bytes();
                    let len = if avail < n { pre.len() } else { 4000 };
                    d.shards.history();
                    d.open(&Img { pre, len }, r.below(4), &mut r);
                }
            }
            // directories of every length around the usual ones and around the limit, all kept, where
            // two or three entries share their data: the first, the last, neighbours and others
            for n in [2usize, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 98, 99, 100, 100, 100] {
                let mut sets = vec![vec![0, n - 1], vec![n - 2, n - 1], vec![0, 1], vec![0, n / 2, n - 1], (0..n).collect()];
                for _ in 0..3 {
                    sets.push((0..3).map(|_| r.below(n)).collect());
                }
                for (j, set) in sets.into_iter().enumerate() {
                    let mut h = header(&mut r, true);
                    h[0..4].copy_from_slice(&num32(4000));
                    let entries = (0..n).map(|i| {
                        // every other entry has data of its own: another offset or another size
                        let at = if set.contains(&i) { 0 } else { i as u32 + 1 };
                        let (off, size) = if j % 2 == 0 { (1400 + 4 * at, 4) } else { (1400, 4 + at) };
                        (0x61610000 + i as u32, off, size)
                    }).collect();
                    let pre = Spec { header: h, count: n as u32, entries }.bytes();
                    d.shards.history();
                    d.open(&Img { pre, len: 4000 }, r.below(4), &mut r);
                }
            }
            // as many at once as the process may have files
            let mut limit = [0u64; 2];
            unsafe { getrlimit(7, &mut limit) };
            let many = (limit[0].saturating_sub(150) as usize).min(600);
            for all_alike in [true, false] {
                let mut kept = vec![];
                d.shards.history();
                for k in 0..many {
                    if k % 40 == 0 {
                        d.shards.history();
                    }
                    let (img, via) = if all_alike { (good(), 1) } else { (random(&mut r), r.below(4)) };
                    kept.push(d.open(&img, via, &mut r));
                }
                d.shards.history();
                drop(kept);
                d.open(&good(), 0, &mut r);
            }
            for k in 0..o.n {
                if k == o.n / 2 {
                    age::age(&d.scratch, &mut r);
                }
                d.shards.history();
                let via = r.below(4);
                let img = random(&mut r);
                let p = d.open(&img, via, &mut r);
                if r.chance(25) && img.len < 1 << 20 {
                    // the like of it, before and after the first is gone
                    let p = if r.chance(50) { p } else { None };
                    for _ in 0..(1 + r.below(2)) {
                        let b = sibling(&mut r, &img);
                        d.opened += if r.chance(60) { 2 } else { 0 }; // the same path
                        let via = if r.chance(70) { via } else { r.below(4) };
                        d.open(&b, via, &mut r);
                    }
                    drop(p);
                    continue;
                }
                if p.is_none() || k % 16 == 0 {
                    d.open(&good(), via, &mut r);
                    if r.chance(20) {
                        d.open(&good(), 0, &mut r);
                    }
                }
                if r.chance(3) {
                    d.missing(r.chance(50), via);
                    d.open(&good(), r.below(4), &mut r);
                }
            }
            if let Some(x) = real {
                d.shards.history();
                let len = x.len();
                let img = Img { pre: x[..240].to_vec(), len };
                d.open(&img, 1, &mut r);
                d.open(&img, 0, &mut r);
            }
        }
        "eq" => {
            // a file that differs in one byte, for every byte that is read
            for k in 0..2 {
                let mut h = header(&mut r, k == 0);
                h[0..4].copy_from_slice(&num32(400));
                let entries = vec![(0x64657363, 200, 20), (0x41324230, 220, 20), (0x42324130, 200, 20)];
                let a = Img { pre: Spec { header: h, count: 3, entries }.bytes(), len: 400 };
                let pa = d.open(&a, r.below(4), &mut r).unwrap_or_else(|| Box::new(Profile::new()));
                for i in 0..a.pre.len() {
                    d.shards.history();
                    for bit in 0..8 {
                        let mut b = a.clone();
                        b.pre[i] ^= 1 << bit;
                        if let Some(pb) = d.open(&b, r.below(4), &mut r) {
                            d.compare(&pa, &pb, false);
                        }
                    }
                }
            }
            // differences that make up for one another, between any two fields of a header and between any
            // two columns of a directory
            for k in 0..2 {
                let mut h = header(&mut r, k == 0);
                h[0..4].copy_from_slice(&num32(4000));
                let entries = (0..6).map(|i| (0x61610000 + 0x101 * i, 1400 + 40 * ((i * 5) % 6), 4 + 8 * i)).collect();
                let a = Img { pre: Spec { header: h, count: 6, entries }.bytes(), len: 4000 };
                let pa = d.open(&a, r.below(4), &mut r).unwrap_or_else(|| Box::new(Profile::new()));
                let mut fields: Vec<usize> = vec![8, 12, 16, 20, 44, 48, 52, 56, 60, 64, 80, 84, 88, 92, 96];
                fields.extend((0..18).map(|i| 132 + 4 * i));
                for (x, &f) in fields.iter().enumerate() {
                    for &g in &fields[x + 1..] {
                        d.shards.history();
                        let mut kinds = vec![r.below(4)];
                        if g >= 132 && f >= 132 && (g - f) % 12 == 0 {
                            kinds = vec![0, 1, 2, 3];
                        }
                        for kind in kinds {
                            let mut b = a.clone();
                            offset_each_other(&mut b.pre, f, g, kind, &mut r);
                            if let Some(pb) = d.open(&b, r.below(4), &mut r) {
                                d.compare(&pa, &pb, false);
                            }
                        }
                    }
                }
            }
            // small directories of few names and few places for data, that differ in one entry or two
            for _ in 0..400 {
                d.shards.history();
                let mut h = header(&mut r, true);
                h[0..4].copy_from_slice(&num32(400));
                let n = 2 + r.below(4);
                let one = |r: &mut Rng| (*r.pick(&[0x61616161u32, 0x62626262, 0x63636363]), *r.pick(&[200u32, 200, 220, 240]), *r.pick(&[4u32, 4, 4, 8]));
                let mut a: Vec<_> = (0..n).map(|_| one(&mut r)).collect();
                let made = |e: &Vec<(u32, u32, u32)>| Img { pre: Spec { header: h, count: n as u32, entries: e.clone() }.bytes(), len: 400 };
                let pa = d.open(&made(&a), r.below(4), &mut r);
                for _ in 0..2 {
                    let i = r.below(n);
                    match r.below(4) {
                        0 => a[i] = one(&mut r),
                        1 => a[i].1 = one(&mut r).1,
                        2 => a[i].0 = one(&mut r).0,
                        _ => {
                            let j = r.below(n);
                            a.swap(i, j);
                        }
                    }
                    let pb = d.open(&made(&a), r.below(4), &mut r);
                    if let (Some(pa), Some(pb)) = (&pa, pb) {
                        d.compare(pa, &pb, false);
                    }
                }
            }
            // large directories that differ at one place only
            for n in [10u32, 31, 33, 63, 64, 65, 70, 99, 100] {
                d.shards.history();
                let mut h = header(&mut r, true);
                h[0..4].copy_from_slice(&num32(9000));
                let entries: Vec<_> = (0..n).map(|i| (0x61610000 + 0x101 * i, 1400 + 8 * i, 4 + i % 3)).collect();
                let a = Img { pre: Spec { header: h, count: n, entries }.bytes(), len: 9000 };
                let pa = d.open(&a, r.below(4), &mut r).unwrap_or_else(|| Box::new(Profile::new()));
                let mut places = vec![0, n as usize - 1, n as usize - 2];
                places.extend((0..3).map(|_| r.below(n as usize)));
                for i in places {
                    for column in 0..3 {
                        let mut b = a.clone();
                        let at = 132 + 12 * i + 4 * column;
                        b.pre[at..at + 4].copy_from_slice(&num32([0x7a7a7a7a, 6000, 40][column]));
                        if let Some(pb) = d.open(&b, r.below(4), &mut r) {
                            d.compare(&pa, &pb, false);
                        }
                    }
                }
            }
            for k in 0..o.n {
                if k == o.n / 2 {
                    age::age(&d.scratch, &mut r);
                }
                d.shards.history();
                let mut a = random(&mut r);
                if a.pre.len() > 132 + 12 * 14 && r.chance(80) {
                    a = random(&mut r);
                }
                let mut b = a.clone();
                let mut same = false;
                // none, one or two small differences, anywhere in what is read
                let n = b.pre.len();
                match r.below(12) {
                    10 | 11 => {
                        let mut at: Vec<usize> = vec![8, 12, 16, 20, 44, 48, 52, 56, 60, 64, 80, 84, 88, 92, 96];
                        at.extend((33..n / 4).map(|i| 4 * i));
                        if n >= 128 {
                            let (f, g) = (*r.pick(&at), *r.pick(&at));
                            let kind = r.below(4);
                            offset_each_other(&mut b.pre, f, g, kind, &mut r);
                        }
                    }
                    0 => same = true,
                    1 | 2 | 3 => {
                        let i = r.below(n.min(128).max(1));
                        if n > 0 {
                            b.pre[i] ^= 1 << r.below(8);
                        }
                    }
                    4 => {
                        // a kept field, one bit
                        let f = *r.pick(&[8usize, 12, 16, 20, 44, 48, 52, 56, 60, 64, 80, 84, 88, 92, 96]);
                        if n >= 128 {
                            b.pre[f + r.below(4)] ^= 1 << r.below(8);
                        }
                    }
                    5 => {
                        if n >= 128 {
                            date(&mut b.pre, &valid_date(&mut r));
                        }
                    }
                    6 | 7 => {
                        if n > 132 {
                            let i = 132 + r.below(n - 132);
                            b.pre[i] ^= 1 << r.below(8);
                        }
                    }
                    8 => {
                        // one entry fewer or two entries exchanged
                        if n >= 132 + 24 {
                            let k = (n - 132) / 12;
                            let (i, j) = (r.below(k), r.below(k));
                            for x in 0..12 {
                                b.pre.swap(132 + 12 * i + x, 132 + 12 * j + x);
                            }
                        }
                    }
                    _ => b = random(&mut r),
                }
                let (va, vb) = (r.below(4), r.below(4));
                let pa = d.open(&a, va, &mut r);
                let pb = d.open(&b, vb, &mut r);
                if let (Some(pa), Some(pb)) = (pa, pb) {
                    d.compare(&pa, &pb, same);
                }
            }
        }
        m => panic!("unknown mode {}", m),
    }
    d.shards.finish();
}

extern "C" {
    fn fcntl(fd: i32, cmd: i32, ...) -> i32;
    fn setfsuid(id: u32) -> i32;
    fn setfsgid(id: u32) -> i32;
    fn umask(mask: u32) -> u32;
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn getrlimit(resource: i32, limit: *mut [u64; 2]) -> i32;
}
const NOBODY: u32 = 65534;
/// Lets this thread use files as somebody unprivileged, or as itself again; tells whether that works.
fn become_user(on: bool) -> bool {
    unsafe {
        let id = if on { NOBODY } else { 0 };
        setfsgid(id);
        setfsuid(id);
        setfsuid(u32::MAX) as u32 == id
    }
}
/// Leaves no descriptor to open, or as many as before.
fn starve(limit: &mut Option<[u64; 2]>) {
    use std::os::fd::AsRawFd;
    match limit.take() {
        Some(l) => unsafe {
            setrlimit(7, &l);
        },
        None => {
            let next = std::fs::File::open("/dev/null").unwrap().as_raw_fd() as u64;
            let mut l = [0, 0];
            unsafe {
                getrlimit(7, &mut l);
                setrlimit(7, &[next, l[1]]);
            }
            *limit = Some(l);
        }
    }
}

/// Histories of read and write opens over a few names (C07), the descriptors held (C32), new profiles (C33).
pub fn run_fs(o: &Opts) {
    use std::collections::HashMap;
    use std::ffi::{OsStr, OsString};
    use std::os::unix::ffi::OsStrExt;
    use std::os::unix::fs::{symlink, FileTypeExt, MetadataExt, PermissionsExt};
    let mut r = Rng::new(o.seed);
    let mut d = Driver::new(o, false);
    let long = "n".repeat(300);
    // the names of the specification, in order
    let names: Vec<&OsStr> = vec![
        "a".as_ref(), "b".as_ref(), "dir".as_ref(), "missing/x".as_ref(), "c.icc".as_ref(), "s".as_ref(), "profile t.icm".as_ref(), "h".as_ref(),
        "dir/in".as_ref(), OsStr::from_bytes(b"\xff\xfe\x80.icc"), "/dev/null".as_ref(), "/dev/zero".as_ref(),
        "".as_ref(), long.as_ref(), "a\0b".as_ref(), "a/".as_ref(), "a/x".as_ref(),
    ];
    let regular = [0usize, 1, 4, 5, 6, 7, 8, 9];
    let nodes = 12;

    struct Seen {
        ids: HashMap<(u64, u64), usize>,
        stamps: HashMap<(i64, i64), usize>,
        contents: Vec<Vec<u8>>,
    }
    let at = |b: &Path, n: usize| if names[n].is_empty() { PathBuf::new() } else { b.join(names[n]) };
    // a file: its bytes without zeros at the end, and its length
    fn content(p: &Path, len: u64) -> Vec<u8> {
        use std::io::Read;
        let mut v = vec![];
        if let Ok(f) = std::fs::File::open(p) {
            let _ = f.take(len.min(4000)).read_to_end(&mut v);
        }
        while v.last() == Some(&0) {
            v.pop();
        }
        v
    }
    // what is under every name; contents that are new are announced
    fn snap(b: &Path, names: &[&OsStr], seen: &mut Seen, sh: &mut Shards) -> String {
        let mut v = vec![];
        for n in names.iter().take(12) {
            let p = b.join(n);
            let mut node = ("absent", 0usize, 0usize, 0usize, 0u32, 0usize);
            let mut own = 0;
            if let Ok(m) = std::fs::symlink_metadata(&p) {
                if m.is_symlink() {
                    let t = std::fs::read_link(&p).unwrap_or_default();
                    let t = names.iter().position(|x| b.join(x) == b.join(&t)).map_or(0, |t| t + 1);
                    node = ("link", 0, t, 0, 0, 0);
                } else if m.is_dir() {
                    node.0 = "dir";
                } else if m.file_type().is_char_device() {
                    node.0 = "null";
                } else {
                    let k = seen.ids.len() + 1;
                    let id = *seen.ids.entry((m.dev(), m.ino())).or_insert(k);
                    let k = seen.stamps.len() + 1;
                    let stamp = *seen.stamps.entry((m.mtime(), m.mtime_nsec())).or_insert(k);
                    let mut data = 0;
                    if m.len() > 0 {
                        let mut c = m.len().to_be_bytes().to_vec();
                        c.extend(content(&p, m.len()));
                        data = match seen.contents.iter().position(|x| *x == c) {
                            Some(k) => k + 1,
                            None => {
                                sh.line(&Obj::new("content").raw("len", limbs(m.len(), 4)).int("pad", (m.len() as usize - (c.len() - 8)).min(1 << 20) as i64).bytes("pre", &c[8..]).end());
                                seen.contents.push(c);
                                seen.contents.len()
                            }
                        };
                    }
                    node = ("file", id, 0, data, m.permissions().mode() & 0o7777, stamp);
                    own = if m.uid() == 0 { 0 } else { 1 };
                }
            }
            v.push(Obj::anon().str("is", node.0).int("id", node.1 as i64).int("to", node.2 as i64).int("data", node.3 as i64)
                .int("mode", node.4 as i64).int("stamp", node.5 as i64).int("own", own).end());
        }
        for _ in names.iter().skip(12) {
            v.push(Obj::anon().str("is", "absent").int("id", 0).int("to", 0).int("data", 0).int("mode", 0).int("stamp", 0).int("own", 0).end());
        }
        list(v.into_iter())
    }
    // what is there under no name
    fn strangers(b: &Path, names: &[&OsStr]) -> usize {
        fn walk(d: &Path, b: &Path, names: &[&OsStr]) -> usize {
            let Ok(l) = std::fs::read_dir(d) else { return 0 };
            l.flatten().map(|e| {
                let p = e.path();
                let known = names.iter().take(10).any(|n| !n.is_empty() && b.join(n) == p);
                (!known) as usize + if e.file_type().map_or(false, |t| t.is_dir()) { walk(&p, b, names) } else { 0 }
            }).sum()
        }
        walk(b, b, names)
    }
    // how many descriptors this process has on each of the files seen so far
    fn fds(seen: &Seen) -> String {
        let mut n = vec![0i64; seen.ids.len()];
        if let Ok(dir) = std::fs::read_dir("/proc/self/fd") {
            for e in dir.flatten() {
                if let Ok(m) = std::fs::metadata(e.path()) {
                    if let Some(i) = seen.ids.get(&(m.dev(), m.ino())) {
                        n[*i - 1] += 1;
                    }
                }
            }
        }
        list(n.iter().map(|x| x.to_string()))
    }
    // how many it has on anything
    fn all() -> i64 {
        std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count() as i64)
    }
    // whether all of those are closed when another program is started
    fn private(seen: &Seen) -> bool {
        let Ok(dir) = std::fs::read_dir("/proc/self/fd") else { return true };
        dir.flatten().all(|e| match std::fs::metadata(e.path()) {
            Ok(m) if seen.ids.contains_key(&(m.dev(), m.ino())) => {
                let fd: i32 = e.file_name().to_str().and_then(|s| s.parse().ok()).unwrap_or(-1);
                fd < 0 || unsafe { fcntl(fd, 1) } & 1 == 1
            }
            _ => true,
        })
    }
    fn now() -> u64 {
        std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs()
    }
    fn stamps(from: u64, p: &Profile) -> String {
        let t = p.verif_view().created.timestamp();
        list([from, t as u64, now()].iter().map(|t| limbs(*t, 4)))
    }
    let privileged = {
        let yes = become_user(true);
        yes & become_user(false)
    };
    for k in 0..o.n {
        if k == o.n / 2 {
            age::age(&Scratch::new(), &mut r);
        }
        // what has been lost by now is on record; more of it would only take time
        if k % 16 == 0 && std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count()) > 300 {
            break;
        }
        d.shards.history();
        let base = d.scratch.path("fs");
        let _ = std::fs::remove_dir_all(&base);
        std::fs::create_dir_all(base.join("dir")).unwrap();
        std::env::set_current_dir(&base).unwrap();
        let mask = *r.pick(&[0o022, 0o022, 0, 0o077]);
        unsafe { umask(mask) };
        // whether somebody unprivileged may make files
        let shut = r.chance(40);
        for p in [&d.scratch.0, &base, &base.join("dir")] {
            let mode = if shut || p == &d.scratch.0 { 0o755 } else { 0o777 };
            std::fs::set_permissions(p, std::fs::Permissions::from_mode(mode)).unwrap();
        }
        let mut seen = Seen { ids: HashMap::new(), stamps: HashMap::new(), contents: vec![] };
        // some names only, so that they meet
        let mut mine: Vec<usize> = (0..(2 + r.below(3))).map(|_| *r.pick(&regular)).collect();
        mine.sort();
        mine.dedup();
        let mut held: Vec<(usize, Box<Profile>)> = Vec::new();
        // contexts with all kinds of data
        if r.chance(50) {
            for id in 1..=3 {
                let n = *r.pick(&[0usize, 1, 2, 4, 4, 8, 12, 16, 16, 20, 128, 1000]);
                let data = if r.chance(10) { None } else if r.chance(20) { Some(vec![r.byte(); n]) } else { Some(r.bytes(n)) };
                d.ctxs[id - 1] = new_ctx_with(id, data);
            }
        }
        let s = snap(&base, &names, &mut seen, &mut d.shards);
        d.shards.line(&Obj::new("fsnew").raw("fs", s).raw("fds", fds(&seen)).int("all", all()).end());
        for _ in 0..(3 + r.below(14)) {
            if r.chance(30) {
                // somebody makes, fills, moves, links or removes a file
                let i = *r.pick(&mine);
                let j = *r.pick(&mine);
                let (p, q) = (at(&base, i), at(&base, j));
                // (what is not there as expected has been recorded by now)
                let _ = guard(|| match r.below(10) {
                    0 => drop(std::fs::remove_file(&p)),
                    1 | 2 if p.symlink_metadata().is_err() => {
                        let t = if r.chance(70) { j } else { r.below(nodes) };
                        let t = if t == 3 && r.chance(50) { 0 } else { t };
                        let full = at(&base, t);
                        let short: OsString = names[t].into();
                        let up = i == 8; // its directory is another one
                        drop(symlink(if up || r.chance(50) { full.as_os_str() } else { &short }, &p));
                    }
                    3 if q.symlink_metadata().map_or(false, |m| m.is_file()) && i != j => {
                        let _ = std::fs::remove_file(&p);
                        drop(std::fs::hard_link(&q, &p));
                        // and more of them
                        for _ in 0..(if r.chance(50) { 0 } else { r.below(4) }) {
                            let x = at(&base, *r.pick(&regular));
                            if x.symlink_metadata().is_err() {
                                drop(std::fs::hard_link(&q, &x));
                            }
                        }
                    }
                    4 if q.symlink_metadata().map_or(false, |m| m.is_file()) => drop(std::fs::rename(&q, &p)),
                    5 if p.symlink_metadata().map_or(false, |m| m.is_file()) => {
                        let mode = *r.pick(&[0o600u32, 0o644, 0o400, 0o444, 0o777, 0o000, 0o666]);
                        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(mode)).unwrap();
                    }
                    _ if p.symlink_metadata().map_or(false, |m| m.is_symlink()) => (),
                    _ => {
                        if r.chance(40) {
                            let _ = std::fs::remove_file(&p);
                        }
                        let mut img = if r.chance(50) { good() } else { random(&mut r) };
                        img.len = img.len.min(1 << 20);
                        match r.below(20) {
                            0 => img.len = 0,
                            1 => img.len = r.below(img.pre.len() + 2),
                            // a header and nothing more
                            2 | 3 if img.pre.len() >= 132 => {
                                img.len = *r.pick(&[132usize, 132, 128, 133]);
                                img.pre[128..132].fill(0);
                            }
                            _ => (),
                        }
                        if img.pre.len() > 4 && r.chance(20) {
                            // a size that is not the size
                            let v = *r.pick(&[0u32, 1, 128, 132, u32::MAX, 0x7FFF_FFFF, img.len as u32 + 1, (img.len as u32).wrapping_sub(1)]);
                            img.pre[..4].copy_from_slice(&num32(v));
                        }
                        img.write(&p);
                        if r.chance(50) {
                            let t = std::time::UNIX_EPOCH + std::time::Duration::from_nanos(*r.pick(&[0u64, 1_000_000_000, 946_684_800_000_000_000, 4_102_444_800_000_000_000]) + r.below(5) as u64);
                            std::fs::File::options().write(true).open(&p).unwrap().set_modified(t).unwrap();
                        }
                    }
                });
                let s = snap(&base, &names, &mut seen, &mut d.shards);
                d.shards.line(&Obj::new("put").raw("fs", s).raw("fds", fds(&seen)).int("all", all()).end());
                continue;
            }
            if r.chance(6) {
                let from = now();
                let res = guard(Profile::new);
                let mut e = Obj::new("fresh").str("r", if res.is_ok() { "ok" } else { "panic" });
                if let Ok(p) = res {
                    e = e.raw("view", view_json(&p)).bool("io", p.get_io_handler().is_some()).raw("stamp", stamps(from, &p));
                }
                d.shards.line(&e.end());
                continue;
            }
            if !held.is_empty() && r.chance(30) {
                let (id, p) = held.remove(r.below(held.len()));
                let res = guard(|| drop(p));
                d.shards.line(&Obj::new("fsdrop").int("id", id as i64).str("r", if res.is_ok() { "ok" } else { "panic" }).raw("fds", fds(&seen)).int("all", all()).end());
                continue;
            }
            let i = if r.chance(82) { *r.pick(&mine) } else { r.below(names.len()) };
            // several ways to say the name
            let mut p = at(&base, i);
            let plain = i < 10;
            let way = if plain { r.below(7) } else { 0 };
            match way {
                1 => p = PathBuf::from(names[i]),
                2 => p = Path::new("./").join(names[i]),
                3 => p = Path::new("dir/../").join(names[i]),
                4 => p = base.join("dir/.././/./").join(names[i]),
                _ => (),
            }
            let write = r.chance(40);
            let via = r.below(4);
            let mode = || if write { AccessMode::Write } else { AccessMode::Read };
            take_signals();
            doing(|| format!("open of {:?} for {}", p, if write { "writing" } else { "reading" }));
            let from = now();
            let kind = r.below(4);
            let user = privileged && r.chance(25) && become_user(true);
            let mut limit = None;
            let starved = r.chance(6);
            if starved {
                starve(&mut limit);
            }
            let res = guard(|| match (via, kind, p.to_str()) {
                (0, 0, Some(s)) => Profile::open_from_file(s, mode()),
                (0, 1, _) => Profile::open_from_file(p.clone().into_os_string(), mode()),
                (0, 2, _) => Profile::open_from_file(p.as_path(), mode()),
                (0, _, _) => Profile::open_from_file(&p, mode()),
                (v, 0, Some(s)) => Profile::open_from_file_thr(&mut d.ctxs[v - 1], s.to_string(), mode()),
                (v, 1, _) => Profile::open_from_file_thr(&mut d.ctxs[v - 1], p.as_os_str(), mode()),
                (v, 2, _) => Profile::open_from_file_thr(&mut d.ctxs[v - 1], p.as_path(), mode()),
                (v, _, _) => Profile::open_from_file_thr(&mut d.ctxs[v - 1], p.clone(), mode()),
            });
            if starved {
                starve(&mut limit);
            }
            if user {
                become_user(false);
            }
            let st = status(&res);
            let sig = take_signals().len();
            let s = snap(&base, &names, &mut seen, &mut d.shards);
            // the file the name leads to
            let id = std::fs::metadata(at(&base, i)).ok().filter(|m| m.is_file()).and_then(|m| seen.ids.get(&(m.dev(), m.ino())).copied()).unwrap_or(0);
            let mut e = Obj::new("fsopen").int("i", i as i64 + 1).bool("write", write).int("via", via as i64).int("way", way as i64).str("r", &st)
                .int("signals", sig as i64).raw("fs", s).raw("fds", fds(&seen)).int("all", all()).int("others", strangers(&base, &names) as i64)
                .bool("private", private(&seen)).bool("starved", starved).bool("shut", shut).str("who", if user { "user" } else { "root" })
                .int("usual", 0o666 & !mask as i64);
            if let Ok(Ok(p)) = res {
                let v = p.verif_view();
                e = e.bool("iswrite", v.is_write).int("count", p.get_tag_count() as i64).bool("io", p.get_io_handler().is_some());
                e = e.raw("first", limbs(u32::from(p.get_tag_signature(0)) as u64, 2));
                if write {
                    e = e.raw("view", view_json(&p)).raw("stamp", stamps(from, &p));
                }
                held.push((id, p));
            } else {
                e = e.bool("iswrite", false).int("count", 0).bool("io", false).raw("first", "[]");
            }
            d.shards.line(&e.end());
        }
        drop(held);
        let s = snap(&base, &names, &mut seen, &mut d.shards);
        d.shards.line(&Obj::new("fsend").raw("fs", s).raw("fds", fds(&seen)).int("all", all()).end());
        std::env::set_current_dir("/").unwrap();
    }
    d.shards.finish();
}
