//! Drives streams of every kind through histories of operations and records the answers.
use crate::json::{self, J};
use crate::util::*;
use lcms2::io::{FileMem, FileNull, IOHandler};
use lcms2::types::CIEXYZ;
use std::fs::{File, OpenOptions};
use std::io::SeekFrom;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug)]
pub enum Op {
    Read(usize),
    Write(Vec<u8>),
    /// 0 start, 1 end, 2 current
    Seek(u8, u64),
    Tell,
    Size,
    /// elements, most significant byte first
    Put(&'static str, Vec<Vec<u8>>),
    PutFixed(&'static str, Vec<f64>),
    Get(&'static str, usize),
}
pub const TYPES: [&str; 8] = ["u8", "u16", "u32", "u64", "f32", "u16a", "s15", "xyz"];
pub fn width(t: &str) -> usize {
    match t {
        "u8" => 1,
        "u16" | "u16a" => 2,
        "u64" => 8,
        _ => 4,
    }
}
impl Op {
    pub fn json(&self) -> String {
        let o = |n: &str| Obj::anon().str("op", n);
        match self {
            Op::Read(n) => o("read").int("n", *n as i64).end(),
            Op::Write(b) => o("write").bytes("b", b).end(),
            Op::Seek(f, v) => o("seek").str("from", ["start", "end", "current"][*f as usize]).raw("off", limbs(*v, 4)).end(),
            Op::Tell => o("tell").end(),
            Op::Size => o("size").end(),
            Op::Put(t, v) => o("put").str("t", t).list("v", v.iter().map(|x| bytes(x))).end(),
            Op::PutFixed(t, v) => o("put").str("t", t).list("v", v.iter().map(|x| double(*x))).end(),
            Op::Get(t, n) => o("get").str("t", t).int("n", *n as i64).end(),
        }
    }
    pub fn parse(j: &J) -> Op {
        match j.get("op").str() {
            "read" => Op::Read(j.get("n").int() as usize),
            "write" => Op::Write(j.get("b").bytes()),
            "seek" => Op::Seek(
                match j.get("from").str() {
                    "start" => 0,
                    "end" => 1,
                    _ => 2,
                },
                j.get("off").limbs(),
            ),
            "tell" => Op::Tell,
            "size" => Op::Size,
            "get" => Op::Get(TYPES.iter().copied().find(|t| *t == j.get("t").str()).unwrap(), j.get("n").int() as usize),
            "put" => {
                let t = TYPES.iter().copied().find(|t| *t == j.get("t").str()).unwrap();
                if t == "s15" || t == "xyz" {
                    Op::PutFixed(t, j.get("v").arr().iter().map(|x| f64::from_bits((x.arr()[0].int() as u32 as u64) << 32 | x.arr()[1].int() as u32 as u64)).collect())
                } else {
                    Op::Put(t, j.get("v").arr().iter().map(|x| x.bytes()).collect())
                }
            }
            x => panic!("operation {}", x),
        }
    }
    pub fn transfers(&self) -> bool {
        matches!(self, Op::Read(_) | Op::Write(_) | Op::Put(..) | Op::PutFixed(..) | Op::Get(..))
    }
    /// bytes moved
    pub fn len(&self) -> u64 {
        match self {
            Op::Read(n) => *n as u64,
            Op::Write(b) => b.len() as u64,
            Op::Put(t, v) => (width(t) * v.len()) as u64,
            Op::PutFixed(_, v) => 4 * v.len() as u64,
            Op::Get(t, n) => (width(t) * n) as u64,
            _ => 0,
        }
    }
    pub fn writes(&self) -> bool {
        matches!(self, Op::Write(_) | Op::Put(..) | Op::PutFixed(..))
    }
}
/// the halves of the encoding of a double
pub fn double(v: f64) -> String {
    let b = v.to_bits();
    format!("[{},{}]", (b >> 32) as u32 as i32, b as u32 as i32)
}
/// exact Q32.32 digits of a number, empty if it is not one
pub fn q(v: f64) -> String {
    let s = v * 4294967296.0;
    if s.is_finite() && s.fract() == 0.0 && s.abs() < 9.2e18 {
        limbs(s as i64 as u64, 4)
    } else {
        "[]".into()
    }
}
/// a number read: there is no negative zero in fixed point
fn qr(v: f64) -> String {
    if v == 0.0 && v.is_sign_negative() { "[]".into() } else { q(v) }
}
fn be(v: &[u8]) -> u64 {
    v.iter().fold(0, |a, b| (a << 8) | *b as u64)
}

/// One operation through the interface: the value as JSON.
pub fn exec<T: IOHandler + ?Sized>(h: &mut T, op: &Op, junk: u8) -> std::io::Result<String> {
    let one = |b: &[u8]| format!("[{}]", bytes(b));
    Ok(match op {
        Op::Read(n) => {
            let mut b = vec![junk; *n];
            h.read(&mut b)?;
            bytes(&b)
        }
        Op::Write(b) => {
            h.write(b)?;
            "[]".into()
        }
        Op::Seek(f, v) => {
            h.seek(match f {
                0 => SeekFrom::Start(*v),
                1 => SeekFrom::End(*v as i64),
                _ => SeekFrom::Current(*v as i64),
            })?;
            "[]".into()
        }
        Op::Tell => limbs(h.tell()? as u64, 4),
        Op::Size => limbs(h.reported_size()? as u64, 4),
        Op::Put(t, v) => {
            match *t {
                "u8" => h.write_u8(v[0][0])?,
                "u16" => h.write_u16(be(&v[0]) as u16)?,
                "u32" => h.write_u32(be(&v[0]) as u32)?,
                "u64" => h.write_u64(be(&v[0]))?,
                "f32" => h.write_f32(f32::from_bits(be(&v[0]) as u32))?,
                "u16a" => h.write_u16_array(&v.iter().map(|x| be(x) as u16).collect::<Vec<_>>())?,
                _ => unreachable!(),
            }
            "[]".into()
        }
        Op::PutFixed(t, v) => {
            match *t {
                "s15" => h.write_s15f16(v[0])?,
                _ => h.write_xyz(CIEXYZ { X: v[0], Y: v[1], Z: v[2] })?,
            }
            "[]".into()
        }
        Op::Get(t, n) => match *t {
            "u8" => one(&[h.read_u8()?]),
            "u16" => one(&h.read_u16()?.to_be_bytes()),
            "u32" => one(&h.read_u32()?.to_be_bytes()),
            "u64" => one(&h.read_u64()?.to_be_bytes()),
            "f32" => one(&h.read_f32()?.to_bits().to_be_bytes()),
            "u16a" => {
                let mut b = vec![u16::from_ne_bytes([junk, junk]); *n];
                h.read_u16_array(&mut b)?;
                list(b.iter().map(|x| bytes(&x.to_be_bytes())))
            }
            "s15" => format!("[{}]", qr(h.read_s15f16()?)),
            _ => {
                let c = h.read_xyz()?;
                format!("[{},{},{}]", qr(c.X), qr(c.Y), qr(c.Z))
            }
        },
    })
}

enum Held {
    Vec(FileMem<Vec<u8>>),
    VecRef(FileMem<&'static mut Vec<u8>>, *mut Vec<u8>),
    Slice(FileMem<&'static mut [u8]>, *mut [u8]),
    Boxed(FileMem<Box<[u8]>>),
    File(File, PathBuf),
    Null(FileNull),
    Dyn(Box<dyn IOHandler>, Option<PathBuf>),
    Gone,
}
pub struct Stream {
    held: Held,
    kind: &'static str,
    how: &'static str,
    pos: Option<u64>,
    len: u64,
}
fn disk(p: &Path, data: &[u8]) -> File {
    std::fs::write(p, data).unwrap();
    OpenOptions::new().read(true).write(true).open(p).unwrap()
}
impl Stream {
    fn new(kind: &'static str, how: &'static str, data: &[u8], path: PathBuf) -> Self {
        let held = match (kind, how) {
            ("vec", "owned") => Held::Vec(FileMem::new(data.to_vec())),
            ("vec", "borrowed") => {
                let p = Box::into_raw(Box::new(data.to_vec()));
                Held::VecRef(FileMem::new(unsafe { &mut *p }), p)
            }
            ("vec", _) => Held::Dyn(Box::new(FileMem::new(data.to_vec())), None),
            ("fixed", "slice") => {
                let p = Box::into_raw(data.to_vec().into_boxed_slice());
                Held::Slice(FileMem::new(unsafe { &mut *p }), p)
            }
            ("fixed", _) => Held::Boxed(FileMem::new(data.to_vec().into_boxed_slice())),
            ("file", "owned") => Held::File(disk(&path, data), path),
            ("file", _) => Held::Dyn(Box::new(disk(&path, data)), Some(path)),
            // two ways of making one
            ("null", "owned") if data.len() % 2 == 0 => Held::Null(FileNull::new()),
            ("null", "owned") => Held::Null(FileNull::default()),
            ("null", _) => Held::Dyn(Box::new(FileNull::new()), None),
            _ => unreachable!(),
        };
        Stream { held, kind, how, pos: Some(0), len: if kind == "null" { 0 } else { data.len() as u64 } }
    }
    fn growing(&self) -> bool {
        self.kind == "vec" || self.kind == "file"
    }
    fn apply(&mut self, op: &Op, junk: u8) -> (String, String) {
        doing(|| format!("{} on a {} {} stream at {:?} of {}", op.json(), self.how, self.kind, self.pos, self.len));
        let r = guard(|| match &mut self.held {
            Held::Vec(h) => exec(h, op, junk),
            Held::VecRef(h, _) => exec(h, op, junk),
            Held::Slice(h, _) => exec(h, op, junk),
            Held::Boxed(h) => exec(h, op, junk),
            Held::File(h, _) => exec(h, op, junk),
            Held::Null(h) => exec(h, op, junk),
            Held::Dyn(h, _) => exec(h.as_mut(), op, junk),
            Held::Gone => unreachable!(),
        });
        let st = status(&r);
        let ok = st == "ok";
        // a rough idea of where the stream is, to choose the next operation
        match op {
            Op::Seek(f, v) if ok => {
                self.pos = match f {
                    0 => Some(*v),
                    1 => self.len.checked_add_signed(*v as i64),
                    _ => self.pos.and_then(|p| p.checked_add_signed(*v as i64)),
                }
            }
            Op::Seek(..) | Op::Tell | Op::Size => (),
            _ if ok => {
                self.pos = self.pos.and_then(|p| p.checked_add(op.len()));
                if op.writes() && self.kind != "fixed" {
                    self.len = self.len.max(self.pos.unwrap_or(0));
                }
            }
            _ => self.pos = None,
        }
        if let (Op::Tell, Ok(Ok(v)), None) = (op, &r, self.pos) {
            self.pos = Some(json::parse(v).limbs());
        }
        (st, r.ok().and_then(|x| x.ok()).unwrap_or("[]".into()))
    }
    fn close(&mut self) -> (String, Option<Vec<u8>>) {
        doing(|| format!("close of a {} {} stream", self.how, self.kind));
        match std::mem::replace(&mut self.held, Held::Gone) {
            Held::Vec(h) => (status(&guard(|| h.close())), None),
            Held::VecRef(h, p) => {
                let s = status(&guard(|| h.close()));
                (s, Some(unsafe { *Box::from_raw(p) }))
            }
            Held::Slice(h, p) => {
                let s = status(&guard(|| h.close()));
                (s, Some(unsafe { Box::from_raw(p) }.into_vec()))
            }
            Held::Boxed(h) => (status(&guard(|| h.close())), None),
            Held::File(h, p) => {
                let s = status(&guard(|| h.close()));
                (s, std::fs::read(p).ok())
            }
            Held::Null(h) => (status(&guard(|| h.close())), None),
            Held::Dyn(h, p) => {
                drop(h);
                ("ok".into(), p.and_then(|p| std::fs::read(p).ok()))
            }
            Held::Gone => unreachable!(),
        }
    }
    fn reopen(&mut self) -> String {
        if let Held::File(..) = self.held {
            let p = match std::mem::replace(&mut self.held, Held::Gone) {
                Held::File(h, p) => {
                    let s = status(&guard(|| h.close()));
                    self.held = Held::File(OpenOptions::new().read(true).write(true).open(&p).unwrap(), p);
                    s
                }
                _ => unreachable!(),
            };
            self.pos = Some(0);
            return p;
        }
        "ok".into()
    }
}

/// streams driven through the same operations
pub struct Group {
    pub s: Vec<Stream>,
    /// no writes beyond this position
    limit: u64,
}
impl Group {
    pub fn new(kinds: &[(&'static str, &'static str)], data: &[u8], scratch: &Scratch, sh: &mut Shards) -> Self {
        sh.history();
        let s: Vec<Stream> = kinds
            .iter()
            .enumerate()
            .map(|(i, k)| Stream::new(k.0, k.1, data, scratch.path(&format!("s{}", i))))
            .collect();
        let l = list(s.iter().map(|x| {
            Obj::anon().str("kind", x.kind).str("how", x.how).bytes("data", if x.kind == "null" { &[] } else { data }).end()
        }));
        sh.line(&Obj::new("new").raw("streams", l).end());
        Group { s, limit: 300 }
    }
    /// false if some stream refused a transfer (its position is then unknown)
    pub fn apply(&mut self, op: &Op, junk: u8, sh: &mut Shards) -> bool {
        let res: Vec<(String, String)> = self.s.iter_mut().map(|s| s.apply(op, junk)).collect();
        let ok = !op.transfers() || res.iter().all(|r| r.0 == "ok");
        let l = list(res.into_iter().map(|(r, v)| Obj::anon().str("r", &r).raw("val", v).end()));
        sh.line(&Obj::new("op").raw("op", op.json()).raw("res", l).end());
        ok
    }
    pub fn reopen(&mut self, sh: &mut Shards) {
        let l = list(self.s.iter_mut().map(|s| Obj::anon().str("r", &s.reopen()).end()));
        sh.line(&Obj::new("reopen").raw("res", l).end());
    }
    pub fn end(&mut self, sh: &mut Shards) {
        let l = list(self.s.iter_mut().map(|s| {
            let (r, d) = s.close();
            Obj::anon().str("r", &r).bool("seen", d.is_some()).bytes("data", &d.unwrap_or_default()).end()
        }));
        sh.line(&Obj::new("end").raw("res", l).end());
    }
    fn far(&self) -> bool {
        self.s.iter().any(|s| s.growing() && s.pos.map(|p| p > self.limit).unwrap_or(true))
    }
    fn past_end(&self) -> bool {
        self.s.iter().any(|s| s.pos.map(|p| p > s.len).unwrap_or(true))
    }
    fn len(&self) -> u64 {
        self.s.iter().map(|s| s.len).max().unwrap_or(0).min(20_000)
    }
    /// writing here would be unreasonable (memory) or is left open by the interface
    pub fn unfit(&self, op: &Op, tidy: bool) -> bool {
        op.writes() && (self.far() || tidy && op.len() == 0 && self.past_end())
            // further than every file system goes
            || tidy && matches!(op, Op::Seek(0, v) if *v > 1 << 40)
    }
    /// a long write that does not fit a fixed buffer (any part of it may be done: too much to follow)
    fn overruns(&self, op: &Op) -> bool {
        op.writes() && op.len() > 64 && self.s.iter().any(|s| s.kind == "fixed" && s.pos.map(|p| p + op.len() > s.len).unwrap_or(true))
    }
    /// everything that was written, read back through the interface
    pub fn sweep(&mut self, r: &mut Rng, sh: &mut Shards) {
        self.apply(&Op::Seek(0, 0), 0, sh);
        self.apply(&Op::Size, 0, sh);
        let n = self.s.iter().filter(|s| s.kind != "null").map(|s| s.len).min().unwrap_or(3) as usize;
        self.apply(&Op::Read(n), r.byte(), sh);
        self.apply(&Op::Tell, 0, sh);
    }
}

pub fn typed(r: &mut Rng, exact: bool) -> Op {
    let t = *r.pick(&TYPES);
    let w = width(t);
    if r.chance(45) {
        let n = match t {
            "u16a" => r.below(6),
            "xyz" => 3,
            _ => 1,
        };
        return Op::Get(t, n);
    }
    match t {
        "s15" => Op::PutFixed(t, vec![fixed(r, exact)]),
        "xyz" => Op::PutFixed(t, (0..3).map(|_| fixed(r, exact)).collect()),
        _ => {
            let n = if t == "u16a" { r.below(6) } else { 1 };
            Op::Put(t, (0..n).map(|_| r.word().to_be_bytes()[8 - w..].iter().copied().collect()).collect())
        }
    }
}
/// a number in units of 2^-32; exact: one that a raw value stands for
pub fn fixed(r: &mut Rng, exact: bool) -> f64 {
    let raw = (r.word() as u32) as i32 as f64;
    if exact {
        return raw / 65536.0;
    }
    let v = match r.below(9) {
        0 => raw,
        1 => raw + 0.5,
        2 => raw + *r.pick(&[0.499, 0.501, 1e-5, -1e-5, -0.499, -0.5, -0.501]),
        3 => *r.pick(&[2147483647.0, -2147483648.0]) + r.range(-8, 8) as f64 / 4.0,
        // beyond the range
        4 => raw * *r.pick(&[2.0, 3.5, 65536.0, 4294967296.0, 1e30, 1e290]),
        5 => *r.pick(&[f64::INFINITY, f64::NEG_INFINITY, 1e308, -1e308, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, 5e-324, -5e-324, 0.0, -0.0, 1e-30, -1e-30]),
        // the neighbours of ties and of raw values
        6 | 7 => {
            let k = (r.word() as u32 >> r.below(32)) as i32 as f64;
            let t = k + *r.pick(&[0.5, 0.5, -0.5, 0.0, 1.0]);
            let b = t.to_bits();
            if t == 0.0 { t } else { f64::from_bits(match r.below(3) { 0 => b - 1, 1 => b + 1, _ => b }) }
        }
        _ => raw + (r.next() >> 11) as f64 / (1u64 << 53) as f64,
    };
    v / 65536.0
}
/// bytes to be written: now and then all the same
pub fn block(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(10) {
        0 | 1 => vec![0; n],
        2 => vec![*r.pick(&[0xFFu8, 0x20, 1, 0x80]); n],
        3 => {
            let mut b = vec![0; n];
            if n > 0 { b[r.below(n)] = r.byte() }
            b
        }
        _ => r.bytes(n),
    }
}
fn prim(r: &mut Rng, len: i64, tidy: bool) -> Op {
    match r.below(10) {
        0 | 1 | 2 => Op::Read(if r.chance(70) { r.below(6) } else { r.below(len as usize + 4) }),
        3 | 4 | 5 => {
            let n = if r.chance(80) { r.below(6) } else { r.below(20) };
            Op::Write(block(r, n))
        }
        6 | 7 | 8 => {
            let f = r.below(3) as u8;
            let odd: &[u64] = if tidy { &[u64::MAX] } else { &[u64::MAX, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, 1 << 32, (1 << 32) + 3, 1 << 31, u64::MAX - 3] };
            let v = match (f, r.below(12)) {
                (0, 0) if tidy => *r.pick(&[1u64 << 31, (1 << 32) + 3, 1 << 39]),
                // far, but not out of reach of anything
                (_, 1) if r.chance(30) => {
                    let v = (1u64 << r.range(12, 38)).wrapping_add(r.below(3) as u64).wrapping_sub(1);
                    if f > 0 && r.chance(25) { v.wrapping_neg() } else { v }
                }
                (_, 0) => *r.pick(odd),
                (0, _) => r.range(0, len + 6) as u64,
                (1, _) => r.range(-len - 3, 5) as u64,
                (_, _) => r.range(-len / 2 - 3, len / 2 + 3) as u64,
            };
            Op::Seek(f, v)
        }
        _ => Op::Tell,
    }
}

/// one transfer of megabytes each way; contents are compared here, what came out of it is judged elsewhere
fn bulk(kind: &'static str, how: &'static str, n: usize, at: u64, scratch: &Scratch, r: &mut Rng, sh: &mut Shards) {
    fn go<H: IOHandler + ?Sized>(h: &mut H, at: u64, data: &[u8], want: &[u8], null: bool, from: u64, m: usize, past: bool) -> Obj {
        let o = Obj::new("bulk");
        let _ = guard(|| h.seek(SeekFrom::Start(at)));
        let w = status(&guard(|| h.write(data)));
        let told = guard(|| h.tell()).ok().and_then(|x| x.ok()).map_or(-1, |x| x as i64);
        let size = guard(|| h.reported_size()).ok().and_then(|x| x.ok()).map_or(-1, |x| x as i64);
        let from = if past { from + 1 } else { from };
        let _ = guard(|| h.seek(SeekFrom::Start(from)));
        let mut b = vec![0xA5u8; m];
        let g = status(&guard(|| h.read(&mut b)));
        let told2 = guard(|| h.tell()).ok().and_then(|x| x.ok()).map_or(-1, |x| x as i64);
        let size2 = guard(|| h.reported_size()).ok().and_then(|x| x.ok()).map_or(-1, |x| x as i64);
        let wrong = if g != "ok" { 0 } else { (0..m).filter(|&i| b[i] != if null { 0 } else { want.get(from as usize + i).copied().unwrap_or(!b[i]) }).count() };
        o.str("wrote", &w).int("told", told).int("size", size).int("from", from as i64).int("m", m as i64)
            .str("got", &g).int("told2", told2).int("size2", size2).int("wrong", wrong as i64)
    }
    let pre = if kind == "fixed" { r.bytes(at as usize + n + 9) } else { r.bytes(9) };
    let data = r.bytes(n);
    let null = kind == "null";
    let mut want = if null { vec![] } else { pre.clone() };
    let end = at as usize + n;
    if !null {
        if want.len() < end {
            want.resize(end, 0);
        }
        want[at as usize..end].copy_from_slice(&data);
    }
    let total = if null { end } else { want.len() };
    // the whole, all but the first bytes, or more than there is
    let from = *r.pick(&[0u64, 0, 1, at]);
    let (m, past) = (total - from as usize, r.chance(30));
    sh.history();
    sh.line(&Obj::new("new").list("streams", std::iter::empty::<String>()).end());
    let mut s = Stream::new(kind, how, &pre, scratch.path("bulk"));
    doing(|| format!("a write of {} bytes at {} and a read of {} at {} on a {} {} stream", n, at, m, from, how, kind));
    let o = match &mut s.held {
        Held::Vec(h) => go(h, at, &data, &want, null, from, m, past),
        Held::VecRef(h, _) => go(h, at, &data, &want, null, from, m, past),
        Held::Slice(h, _) => go(h, at, &data, &want, null, from, m, past),
        Held::Boxed(h) => go(h, at, &data, &want, null, from, m, past),
        Held::File(h, _) => go(h, at, &data, &want, null, from, m, past),
        Held::Null(h) => go(h, at, &data, &want, null, from, m, past),
        Held::Dyn(h, _) => go(h.as_mut(), at, &data, &want, null, from, m, past),
        Held::Gone => unreachable!(),
    };
    let (closed, found) = s.close();
    let stored = match found {
        Some(f) => (f.len() as i64 - want.len() as i64).abs() + f.iter().zip(&want).filter(|(a, b)| a != b).count() as i64,
        None => 0,
    };
    let o = o.str("kind", kind).str("how", how).int("pre", if null { 0 } else { pre.len() as i64 }).int("at", at as i64).int("n", n as i64);
    sh.line(&o.str("closed", &closed).int("stored", stored).end());
}

pub fn run(o: &Opts) {
    let mut r = Rng::new(o.seed ^ 0x5712);
    let scratch = Scratch::new();
    let mut sh = Shards::new(&o.out, o.shards, &meta(), o.flush);
    let mem: &[(&str, &str)] = &[("vec", "owned"), ("vec", "borrowed"), ("fixed", "slice"), ("fixed", "boxed")];
    let file: &[(&str, &str)] = &[("file", "owned")];
    let null: &[(&str, &str)] = &[("null", "owned")];
    let every: &[(&str, &str)] = &[("vec", "owned"), ("vec", "borrowed"), ("fixed", "slice"), ("fixed", "boxed"), ("file", "owned"), ("null", "owned")];
    let lock: &[(&str, &str)] = &[("vec", "owned"), ("vec", "borrowed"), ("file", "owned"), ("vec", "dyn"), ("file", "dyn"), ("null", "owned"), ("null", "dyn")];
    let kinds: &'static [(&'static str, &'static str)] = match o.mode.as_str() {
        "mem" => unsafe { std::mem::transmute(mem) },
        "file" => unsafe { std::mem::transmute(file) },
        "null" => unsafe { std::mem::transmute(null) },
        "lock" => unsafe { std::mem::transmute(lock) },
        "fixed" => &[("vec", "owned")],
        _ => unsafe { std::mem::transmute(every) },
    };
    let tidy = o.mode == "lock";
    let again = |r: &mut Rng, len: i64| match r.below(if tidy { 2 } else { 3 }) {
        0 => Op::Seek(0, r.range(0, len) as u64),
        1 => Op::Seek(1, r.range(-len.min(3), 0) as u64),
        _ => Op::Tell,
    };
    if let Some(c) = &o.cases {
        for c in json::lines(c) {
            let mut g = Group::new(kinds, &[11, 22, 33, 44], &scratch, &mut sh);
            for op in c.arr() {
                let op = Op::parse(op);
                if g.unfit(&op, tidy) {
                    continue;
                }
                if !g.apply(&op, 0xAA, &mut sh) {
                    g.apply(if tidy { &Op::Seek(0, 1) } else { &Op::Tell }, 0, &mut sh);
                }
            }
            g.apply(&Op::Tell, 0, &mut sh);
            g.end(&mut sh);
        }
    }
    // arrays of more elements than any table has
    if o.mode == "typed" {
        for (k, n) in [16_390usize, 33_100].into_iter().enumerate() {
            let kinds: &'static [(&'static str, &'static str)] = if k == 0 { &[("vec", "owned"), ("file", "owned")] } else { &[("vec", "owned")] };
            let mut g = Group::new(kinds, &[], &scratch, &mut sh);
            g.limit = 100_000;
            g.apply(&Op::Put("u16a", (0..n).map(|_| r.bytes(2)).collect()), 0, &mut sh);
            g.apply(&Op::Tell, 0, &mut sh);
            g.apply(&Op::Seek(0, k as u64), 0, &mut sh);
            g.apply(&Op::Get("u16a", n - k), 0x5A, &mut sh);
            g.apply(&Op::Tell, 0, &mut sh);
            g.end(&mut sh);
        }
    }
    // arrays of every moderate length, of round lengths and one more or less
    if o.mode == "typed" {
        let mut ns: Vec<usize> = (6..=40).step_by(3).collect();
        ns.extend([63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025]);
        for m in [100usize, 128, 250, 256, 500, 512, 1000, 1024, 2000, 2048, 4096] {
            ns.push(m * r.range(2, 4) as usize + *r.pick(&[0, 1, 1, m - 1]));
        }
        ns.extend([2001, 3001, 4097]);
        for n in ns {
            let kinds: &'static [(&'static str, &'static str)] = if n % 4 == 0 { &[("file", "owned")] } else { &[("vec", "owned")] };
            let mut g = Group::new(kinds, &[], &scratch, &mut sh);
            g.limit = 100_000;
            g.apply(&Op::Put("u16a", (0..n).map(|_| r.bytes(2)).collect()), 0, &mut sh);
            g.apply(&Op::Tell, 0, &mut sh);
            g.apply(&Op::Seek(0, 0), 0, &mut sh);
            g.apply(&Op::Get("u16a", n), 0x5A, &mut sh);
            g.apply(&Op::Tell, 0, &mut sh);
            g.end(&mut sh);
        }
    }
    // transfers of megabytes: what was stored and read is compared here, byte by byte
    if matches!(o.mode.as_str(), "mem" | "file" | "null" | "lock") {
        for (k, &n) in [1usize << 20, (1 << 20) + 1, 3_000_000, (4 << 20) - 1, (5 << 20) + 12345, (6 << 20) + 7].iter().enumerate() {
            for &(kind, how) in kinds {
                let at = [0u64, 5, 4096, 70_000][(k + r.below(2)) % 4];
                bulk(kind, how, n, at, &scratch, &mut r, &mut sh);
            }
        }
    }
    // transfers larger than any buffer or block
    for k in 0..(if o.mode == "fixed" { 0 } else { 36 + o.n / 400 }) {
        // a few of them larger still
        let sizes: &[usize] = if k % 3 == 0 { &[8191, 8192, 8193, 8200, 9002, 10000, 16383, 16384, 16385, 18000, 20000, 32767, 32768, 32769, 65535, 65536, 65537, 66000] }
            else { &[255usize, 256, 257, 511, 512, 513, 1000, 1024, 1500, 2047, 2048, 4095, 4096, 4097, 5000] };
        let size = |r: &mut Rng| { let a = *r.pick(sizes) + if r.chance(30) { r.below(12) } else { 0 }; let b = *r.pick(sizes); if r.chance(50) { a.min(b) } else { a } };
        let n = if r.chance(40) { 0 } else { size(&mut r) };
        let data = r.bytes(n);
        // fixed buffers refuse what does not fit: without them, arrays can grow
        let open: &'static [(&'static str, &'static str)] = &[("vec", "owned"), ("vec", "borrowed"), ("file", "owned"), ("null", "owned")];
        let grow = matches!(o.mode.as_str(), "typed" | "size") && k % 4 != 1;
        let mut g = Group::new(if grow { open } else { kinds }, &data, &scratch, &mut sh);
        g.limit = 9000;
        for _ in 0..(2 + r.below(5)) {
            let len = g.len() as i64;
            let op = match (o.mode.as_str(), r.below(10)) {
                ("typed" | "lock", 0 | 1 | 2) => {
                    let n = if k % 3 == 0 { size(&mut r).min(20000) } else { size(&mut r) } / 2;
                    Op::Put("u16a", (0..n).map(|_| r.bytes(2)).collect())
                }
                ("typed" | "lock", 3 | 4 | 5) => Op::Get("u16a", r.below(len as usize + 3) / 2),
                (_, 0 | 1 | 2) => {
                    let n = size(&mut r);
                    Op::Write(block(&mut r, n))
                }
                (_, 3 | 4) => Op::Read(size(&mut r).min(len as usize + 1)),
                (_, 5 | 6) => Op::Seek(0, r.range(0, (len + 10).min(8900)) as u64),
                (_, 7) => Op::Size,
                (_, 8) => Op::Seek(1, r.range(-len, 0) as u64),
                _ => Op::Tell,
            };
            let op = match op {
                op if g.unfit(&op, tidy) => Op::Seek(0, r.range(0, len) as u64),
                Op::Write(b) if g.overruns(&Op::Write(b.clone())) => {
                    let room = g.s.iter().filter(|s| s.kind == "fixed").map(|s| s.len.saturating_sub(s.pos.unwrap_or(s.len))).min().unwrap_or(0);
                    Op::Write(b[..b.len().min(room as usize)].to_vec())
                }
                op if g.overruns(&op) => Op::Seek(0, r.range(0, len) as u64),
                op => op,
            };
            if !g.apply(&op, r.byte(), &mut sh) {
                g.apply(&Op::Seek(0, r.range(0, len.min(100)) as u64), 0, &mut sh);
            } else if op.transfers() {
                // where that led to, and something small there
                match r.below(4) {
                    0 | 1 => drop(g.apply(&Op::Tell, 0, &mut sh)),
                    2 if !g.overruns(&op) => {
                        let op = Op::Read(r.below(3));
                        if !g.apply(&op, 0x11, &mut sh) {
                            g.apply(&Op::Seek(0, 0), 0, &mut sh);
                        }
                    }
                    _ => (),
                }
            }
        }
        g.apply(&Op::Seek(0, 0), 0, &mut sh);
        g.sweep(&mut r, &mut sh);
        g.end(&mut sh);
    }
    for k in 0..o.n {
        if k == o.n / 2 {
            crate::age::age(&scratch, &mut r);
        }
        let n = if tidy && r.chance(60) { 0 } else { r.below(24) };
        let data = r.bytes(n);
        let mut g = Group::new(kinds, &data, &scratch, &mut sh);
        let probe = r.chance(40);
        let mut pending: Option<Op> = None;
        let steps = if k % 500 == 499 { 600 } else { 4 + r.below(if k % 10 == 0 { 60 } else { 22 }) };
        for _ in 0..steps {
            let len = g.len() as i64;
            let op = match pending.take() {
                Some(p) => p,
                None => match o.mode.as_str() {
                    "typed" => match r.below(10) {
                        0 | 1 | 2 | 3 | 4 | 5 => typed(&mut r, true),
                        6 => prim(&mut r, len, true),
                        7 => Op::Tell,
                        _ => Op::Seek(0, r.range(0, len + 2) as u64),
                    },
                    "fixed" => match r.below(10) {
                        0 | 1 | 2 => Op::PutFixed("s15", vec![fixed(&mut r, false)]),
                        3 => Op::PutFixed("xyz", (0..3).map(|_| fixed(&mut r, false)).collect()),
                        4 => Op::Write((r.word() as u32).to_be_bytes().to_vec()),
                        5 | 6 => Op::Get("s15", 1),
                        7 => Op::Get("xyz", 3),
                        _ => Op::Seek(0, 4 * r.below(len as usize / 4 + 1) as u64),
                    },
                    "size" => {
                        if r.chance(35) {
                            Op::Size
                        } else {
                            prim(&mut r, len, false)
                        }
                    }
                    "lock" => match r.below(10) {
                        0 | 1 => typed(&mut r, true),
                        2 => Op::Size,
                        _ => prim(&mut r, len, true),
                    },
                    _ => {
                        if r.chance(8) {
                            Op::Size
                        } else {
                            prim(&mut r, len, false)
                        }
                    }
                },
            };
            let op = if g.unfit(&op, tidy) { Op::Seek(0, r.range(0, len) as u64) } else { op };
            let ok = g.apply(&op, r.byte(), &mut sh);
            if !ok || g.s.iter().any(|s| s.pos.is_none()) {
                pending = Some(again(&mut r, len));
            } else if probe && !matches!(op, Op::Tell) {
                pending = Some(Op::Tell);
            } else if op.writes() && r.chance(30) {
                // look at what has just been written
                pending = Some(Op::Seek(2, (op.len() as i64).wrapping_neg() as u64));
            } else if o.mode == "file" && r.chance(4) {
                g.reopen(&mut sh);
            }
        }
        if let Some(op) = pending {
            g.apply(&op, 0, &mut sh);
        }
        if r.chance(60) {
            g.sweep(&mut r, &mut sh);
        }
        g.end(&mut sh);
    }
    if o.mode == "fixed" {
        // raw values on their own: boundaries of every bit pattern, then anything
        let mut raws: Vec<u32> = vec![];
        for i in 0..32 {
            for d in [0u32, 1, u32::MAX] {
                raws.push((1u32 << i).wrapping_add(d));
                raws.push((!(1u32 << i)).wrapping_add(d));
                raws.push((u32::MAX << i).wrapping_add(d));
            }
        }
        for _ in 0..o.n {
            raws.push(r.next() as u32);
        }
        for c in raws.chunks(8) {
            let mut b: Vec<u8> = vec![];
            for x in c {
                b.extend(if cfg!(feature = "little") { x.to_le_bytes() } else { x.to_be_bytes() });
            }
            let mut g = Group::new(kinds, &b, &scratch, &mut sh);
            for x in c {
                g.apply(&Op::Get("s15", 1), 0, &mut sh);
                g.apply(&Op::Seek(2, (-4i64) as u64), 0, &mut sh);
                g.apply(&Op::PutFixed("s15", vec![*x as i32 as f64 / 65536.0]), 0, &mut sh);
            }
            g.sweep(&mut r, &mut sh);
            g.end(&mut sh);
        }
    }
    sh.finish();
}
