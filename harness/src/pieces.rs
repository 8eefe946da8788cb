//! Streams on pipes, sockets, character devices and full disks: bytes come and go in pieces.
use crate::stream::{block, exec, typed, Op};
use crate::util::*;
use lcms2::io::IOHandler;
use std::fs::{File, OpenOptions};
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::{AsRawFd, OwnedFd};
use std::os::unix::fs::OpenOptionsExt;
use std::os::unix::net::UnixStream;
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::Duration;

extern "C" {
    fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32;
    fn fcntl(fd: i32, cmd: i32, ...) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
    fn siginterrupt(sig: i32, flag: i32) -> i32;
    fn pthread_self() -> usize;
    fn pthread_kill(thread: usize, sig: i32) -> i32;
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
}
const USR1: i32 = 10;
const XFSZ: i32 = 25;
const LIMIT: u64 = 1 << 30;
extern "C" fn nothing(_: i32) {}

#[derive(Clone)]
struct Dev {
    incoming: Vec<u8>,
    more: bool,
    endless: bool,
    room: u64,
    most: u64,
    full: &'static str,
    noread: &'static str,
    nowrite: &'static str,
}
const BIG: u64 = 1 << 30;
impl Dev {
    fn json(&self) -> String {
        Obj::anon().bytes("in", &self.incoming).bool("more", self.more).bool("endless", self.endless).raw("out", "[]")
            .int("room", self.room as i64).int("most", self.most as i64).str("full", self.full).str("noread", self.noread).str("nowrite", self.nowrite)
            .bool("lost", false).raw("maybe", "[]").end()
    }
}
fn dev() -> Dev {
    Dev { incoming: vec![], more: false, endless: false, room: BIG, most: BIG, full: "WouldBlock", noread: "", nowrite: "" }
}

/// the stream under test: owned as it is, or behind the interface
enum Held {
    File(File),
    Dyn(Box<dyn IOHandler>),
}
struct One<'a> {
    h: Option<Held>,
    /// the same device, for looking at it beside the library
    raw: Option<File>,
    how: String,
    sh: &'a mut Shards,
    /// the last operation did not come to its end
    open_end: bool,
}
impl<'a> One<'a> {
    fn new(f: File, d: &Dev, how: String, r: &mut Rng, sh: &'a mut Shards) -> Self {
        let raw = f.try_clone().ok();
        let h = if r.chance(25) { Held::Dyn(Box::new(f)) } else { Held::File(f) };
        sh.history();
        sh.line(&Obj::new("new").bool("new", true).str("how", &how).raw("dev", d.json()).end());
        One { h: Some(h), raw, how, sh, open_end: false }
    }
    fn op(&mut self, op: &Op, junk: u8) -> bool {
        doing(|| format!("{} on a stream on {}", short(op), self.how));
        let h = self.h.as_mut().unwrap();
        let res = guard(|| match h {
            Held::File(f) => exec(f, op, junk),
            Held::Dyn(b) => exec(b.as_mut(), op, junk),
        });
        let st = status(&res);
        let val = res.ok().and_then(|x| x.ok()).unwrap_or("[]".into());
        self.sh.line(&Obj::new("op").str("how", &self.how).raw("op", op.json()).str("r", &st).raw("val", val).end());
        self.open_end |= st != "ok" && op.transfers();
        st == "ok"
    }
    fn note(&mut self, ev: &str, b: &[u8]) {
        let l = Obj::new(ev).str("how", &self.how).bytes("b", b).end();
        self.sh.line(&l);
    }
    fn taken(&mut self, b: &[u8], room: u64, most: u64) {
        let l = Obj::new("taken").str("how", &self.how).bytes("b", b).int("room", room as i64).int("most", most as i64).end();
        self.sh.line(&l);
        self.open_end = false;
    }
    /// takes what the stream has left over
    fn rest(&mut self) {
        let mut b = vec![];
        doing(|| format!("reading what is left on {}", self.how));
        let raw = self.raw.as_mut().unwrap();
        let _ = guard(|| raw.read_to_end(&mut b));
        self.note("rest", &b);
        self.open_end = false;
    }
    fn close(&mut self, r: &mut Rng) {
        self.raw = None;
        let how = &self.how;
        doing(|| format!("closing a stream on {}", how));
        let h = self.h.take().unwrap();
        let how = r.below(2);
        let _ = guard(|| match h {
            Held::File(f) if how == 0 => drop(f.close()),
            Held::File(f) => drop(f),
            Held::Dyn(b) => drop(b),
        });
    }
    fn closed(&mut self, seen: bool) {
        let l = Obj::new("closed").str("how", &self.how).bool("seen", seen).end();
        self.sh.line(&l);
    }
}
fn short(op: &Op) -> String {
    let s = op.json();
    if s.len() > 300 { format!("{}…", &s[..300]) } else { s }
}

fn nonblock(f: &File) {
    unsafe { fcntl(f.as_raw_fd(), 4, 0o4000) };
}
fn socket() -> (File, File) {
    let (a, b) = UnixStream::pair().unwrap();
    (File::from(OwnedFd::from(a)), File::from(OwnedFd::from(b)))
}
/// both ends; the device between them holds little
fn narrow(kind: &str, s: &Scratch, r: &mut Rng) -> (File, File) {
    let (a, b) = pair(kind, s);
    if kind != "socket" && r.chance(70) {
        unsafe { fcntl(b.as_raw_fd(), 1031, 4096) };
    }
    (a, b)
}
/// both ends, for reading and for writing
fn pair(kind: &str, s: &Scratch) -> (File, File) {
    match kind {
        "pipe" => {
            let (a, b) = std::io::pipe().unwrap();
            (File::from(OwnedFd::from(a)), File::from(OwnedFd::from(b)))
        }
        "fifo" => {
            let p = s.path("fifo");
            let _ = std::fs::remove_file(&p);
            let c = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
            assert_eq!(unsafe { mkfifo(c.as_ptr(), 0o600) }, 0);
            let a = OpenOptions::new().read(true).custom_flags(0o4000).open(&p).unwrap();
            let b = OpenOptions::new().write(true).open(&p).unwrap();
            unsafe { fcntl(a.as_raw_fd(), 4, 0) };
            (a, b)
        }
        _ => socket(),
    }
}
const KINDS: [&str; 3] = ["pipe", "fifo", "socket"];

/// an operation that takes bytes, mostly no more than there are
fn getter(r: &mut Rng, left: usize) -> Op {
    for _ in 0..20 {
        let op = match r.below(10) {
            0 => Op::Read(r.below(4)),
            1 => Op::Read(left),
            2 => Op::Read(r.below(left + 3)),
            3 => Op::Get("u16a", r.below(left.min(300) / 2 + 2)),
            _ => typed(r, true),
        };
        if !op.writes() && (op.len() <= left as u64 || r.chance(8)) {
            return op;
        }
    }
    Op::Read(left.min(3))
}
fn putter(r: &mut Rng, largest: usize) -> Op {
    loop {
        let op = match r.below(10) {
            0 => {
                let n = r.below(4);
                Op::Write(block(r, n))
            }
            1 => {
                let n = r.below(largest + 1);
                Op::Write(block(r, n))
            }
            2 => {
                let n = r.below(largest.min(300) / 2 + 2);
                Op::Put("u16a", (0..n).map(|_| r.bytes(2)).collect())
            }
            _ => typed(r, true),
        };
        if op.writes() {
            return op;
        }
    }
}
fn place(r: &mut Rng) -> Op {
    match r.below(4) {
        0 => Op::Size,
        1 => Op::Tell,
        _ => Op::Seek(r.below(3) as u8, *r.pick(&[0, 1, 4, u64::MAX])),
    }
}
fn pause(r: &mut Rng) {
    match r.below(4) {
        0 => (),
        1 => std::thread::yield_now(),
        _ => std::thread::sleep(Duration::from_micros(r.below(120) as u64)),
    }
}
/// Runs f while signals keep interrupting this thread.
fn pestered<R>(on: bool, seed: u64, f: impl FnOnce() -> R) -> R {
    if !on {
        return f();
    }
    let me = unsafe { pthread_self() };
    let stop = AtomicBool::new(false);
    std::thread::scope(|s| {
        let stop = &stop;
        s.spawn(move || {
            let mut r = Rng::new(seed);
            while !stop.load(Ordering::Relaxed) {
                unsafe { pthread_kill(me, USR1) };
                std::thread::sleep(Duration::from_micros(20 + r.below(150) as u64));
            }
        });
        let x = f();
        stop.store(true, Ordering::Relaxed);
        x
    })
}

/// the other end sends everything in pieces and leaves
fn source(r: &mut Rng, s: &Scratch, sh: &mut Shards, total: usize) {
    let kind = *r.pick(&KINDS);
    let (a, mut b) = pair(kind, s);
    let all = r.bytes(total);
    let d = Dev { incoming: all.clone(), nowrite: if kind == "socket" { "" } else { "Uncategorized" }, ..dev() };
    let signals = r.chance(40);
    let mut one = One::new(a, &d, format!("a {}{}", kind, if signals { " with signals" } else { "" }), r, sh);
    let seed = r.next();
    let largest = match r.below(4) { 0 => 1, 1 => 3, 2 => 40, _ => total.max(1) };
    let largest = if total > 8192 { *r.pick(&[700, 4096, 5000, 8191]) } else { largest };
    std::thread::scope(|sc| {
        let feeder = sc.spawn(move || {
            let mut r = Rng::new(seed);
            let mut i = 0;
            while i < all.len() {
                let n = (1 + r.below(largest)).min(all.len() - i);
                if b.write_all(&all[i..i + n]).is_err() {
                    break;
                }
                i += n;
                if total < 25_000 || r.chance(5) {
                    pause(&mut r);
                }
            }
            if kind == "socket" {
                // the rest of the conversation
                unsafe { shutdown(b.as_raw_fd(), 1) };
                let mut got = vec![];
                let _ = b.read_to_end(&mut got);
                got
            } else {
                vec![]
            }
        });
        let back = pestered(signals, seed ^ 1, || {
            let mut left = total;
            for _ in 0..(3 + r.below(20)) {
                let op = match r.below(14) {
                    // one large read, whatever the pieces it comes in
                    _ if left > 8192 && r.chance(60) => {
                        let n = match r.below(4) { 0 => left, 1 => left - r.below(9), _ => 8193 + r.below(left - 8192) };
                        Op::Read(n)
                    }
                    0 => place(r),
                    1 if kind == "socket" || r.chance(30) => putter(r, 60),
                    _ => getter(r, left),
                };
                let n = if op.writes() { 0 } else { op.len() as usize };
                if one.op(&op, r.byte()) {
                    left -= n.min(left);
                } else if op.transfers() && !op.writes() {
                    one.rest();
                    left = 0;
                    if r.chance(60) { break }
                }
            }
            one.rest();
            one.close(r);
            let mut got = vec![];
            doing(|| format!("waiting for the end of a {} that was given up", kind));
            let _ = guard(|| got = feeder.join().unwrap());
            got
        });
        if kind == "socket" {
            one.taken(&back, 0, 0);
        }
        one.closed(true);
    });
}
extern "C" {
    fn shutdown(fd: i32, how: i32) -> i32;
}

/// the other end takes everything in pieces
fn sink(r: &mut Rng, s: &Scratch, sh: &mut Shards, largest: usize) {
    let kind = *r.pick(&KINDS);
    let (mut b, a) = narrow(kind, s, r);
    let d = Dev { noread: if kind == "socket" { "" } else { "Uncategorized" }, ..dev() };
    let signals = r.chance(50);
    let mut one = One::new(a, &d, format!("a {} read by somebody{}", kind, if signals { ", with signals" } else { "" }), r, sh);
    let seed = r.next();
    let piece = match r.below(4) { 0 => 1, 1 => 7, 2 => 5000, _ => 100_000 };
    std::thread::scope(|sc| {
        let drainer = sc.spawn(move || {
            let mut r = Rng::new(seed);
            if kind == "socket" {
                unsafe { shutdown(b.as_raw_fd(), 1) };
            }
            let mut got = vec![];
            let mut buf = vec![0; piece];
            loop {
                let n = 1 + r.below(piece);
                match Read::read(&mut b, &mut buf[..n]) {
                    Ok(0) | Err(_) => break,
                    Ok(n) => got.extend_from_slice(&buf[..n]),
                }
                if got.len() < 3000 || r.chance(2) {
                    pause(&mut r);
                }
            }
            got
        });
        let got = pestered(signals, seed ^ 1, || {
            for _ in 0..(2 + r.below(if largest > 10_000 { 4 } else { 15 })) {
                let op = match r.below(12) {
                    0 => place(r),
                    1 => getter(r, 0),
                    _ => putter(r, largest),
                };
                if !one.op(&op, r.byte()) && op.transfers() && !op.writes() && kind == "socket" {
                    one.rest();
                }
            }
            one.close(r);
            let mut got = vec![];
            doing(|| format!("waiting for the end of a {} that was given up", kind));
            let _ = guard(|| got = drainer.join().unwrap());
            got
        });
        one.taken(&got, 0, 0);
        one.closed(true);
    });
}

/// nobody reads any more, from the start or after a while
fn broken(r: &mut Rng, s: &Scratch, sh: &mut Shards, later: bool) {
    let kind = if later { "pipe" } else { *r.pick(&KINDS) };
    let (mut b, a) = pair(kind, s);
    let cap = unsafe { fcntl(a.as_raw_fd(), 1032) } as i64;
    let d = Dev { noread: if kind == "socket" { "" } else { "Uncategorized" }, room: if later { 1000 } else { 0 },
                  most: if later { 1000 + cap.max(65536) as u64 } else { 0 }, full: "BrokenPipe", ..dev() };
    let mut one = One::new(a, &d, format!("a {} nobody reads any more", kind), r, sh);
    if later {
        let n = 1000 + cap.max(65536) as usize + 1 + r.below(5000);
        let op = Op::Write(r.bytes(n));
        std::thread::scope(|sc| {
            let t = sc.spawn(move || {
                let mut got = vec![0; 1000];
                b.read_exact(&mut got).unwrap();
                got
            });
            one.op(&op, 0);
            let got = t.join().unwrap();
            one.taken(&got, 0, 0);
        });
    } else {
        drop(b);
    }
    for _ in 0..(1 + r.below(4)) {
        let op = if r.chance(80) { putter(r, 20) } else { place(r) };
        if !one.op(&op, 0) && op.transfers() {
            one.taken(&[], 0, 0);
        }
    }
}

/// a device that does not wait, and a script
fn impatient_source(r: &mut Rng, s: &Scratch, sh: &mut Shards) {
    let kind = *r.pick(&KINDS);
    let (a, b) = pair(kind, s);
    nonblock(&a);
    let d = Dev { more: true, nowrite: if kind == "socket" { "" } else { "Uncategorized" }, ..dev() };
    let mut one = One::new(a, &d, format!("a {} that does not wait", kind), r, sh);
    let mut b = Some(b);
    let mut left = 0usize;
    for _ in 0..(4 + r.below(20)) {
        match r.below(8) {
            0 | 1 | 2 if left < 2000 => {
                if let Some(b) = &mut b {
                    let n = if r.chance(70) { 12 } else { 300 };
                    let n = 1 + r.below(n);
                    let x = r.bytes(n);
                    b.write_all(&x).unwrap();
                    one.note("send", &x);
                    left += n;
                }
            }
            3 if r.chance(10) => {
                b = None;
                one.note("hang", &[]);
            }
            4 if r.chance(50) => {
                let op = place(r);
                one.op(&op, 0);
            }
            _ => {
                let n = if r.chance(30) { left + r.below(9) } else { left };
                let op = getter(r, n);
                if one.op(&op, r.byte()) {
                    left -= (op.len() as usize).min(left);
                } else if op.transfers() {
                    one.rest();
                    left = 0;
                }
            }
        }
    }
    if one.open_end {
        one.rest();
    }
}
fn impatient_sink(r: &mut Rng, s: &Scratch, sh: &mut Shards, large: bool) {
    let kind = *r.pick(&KINDS);
    let (mut b, a) = narrow(kind, s, r);
    nonblock(&a);
    nonblock(&b);
    let (room, most) = if kind == "socket" { (0, BIG) } else { (4096, (unsafe { fcntl(a.as_raw_fd(), 1032) } as i64).max(4096) as u64) };
    let d = Dev { noread: if kind == "socket" { "WouldBlock" } else { "Uncategorized" }, room, most, ..dev() };
    let mut one = One::new(a, &d, format!("a {} that does not wait to be read", kind), r, sh);
    let mut take = |one: &mut One, r: &mut Rng| {
        let mut got = vec![];
        let mut buf = vec![0; 1 + r.below(10_000)];
        while let Ok(n) = Read::read(&mut b, &mut buf) {
            if n == 0 {
                break;
            }
            got.extend_from_slice(&buf[..n]);
        }
        one.taken(&got, room, most);
    };
    for _ in 0..(3 + r.below(12)) {
        let op = if most < 10_000 && r.chance(20) {
            let n = 2000 + r.below(6000);
            Op::Write(r.bytes(n))
        } else if large && r.chance(40) {
            let n = 60_000 + r.below(20_000);
            Op::Write(r.bytes(n))
        } else if r.chance(10) {
            place(r)
        } else {
            putter(r, 1500)
        };
        let ok = one.op(&op, 0);
        if (!ok && op.transfers()) || r.chance(25) {
            take(&mut one, r);
        }
    }
    take(&mut one, r);
}

/// a device that does not wait, while somebody takes from it all the time
fn hurried_sink(r: &mut Rng, s: &Scratch, sh: &mut Shards) {
    let kind = *r.pick(&KINDS);
    let (b, a) = narrow(kind, s, r);
    nonblock(&a);
    let d = Dev { noread: if kind == "socket" { "WouldBlock" } else { "Uncategorized" }, room: 0, most: BIG, ..dev() };
    let mut one = One::new(a, &d, format!("a {} that does not wait and is read by somebody", kind), r, sh);
    let total = if r.chance(80) { 3000 + r.below(20_000) } else { 100_000 + r.below(100_000) };
    let seed = r.next();
    let mut seen = 0;
    std::thread::scope(|sc| {
        let drainer = sc.spawn(move || {
            let mut b = b;
            let mut r = Rng::new(seed);
            let mut got = vec![];
            let mut buf = vec![0; 1 + r.below(70_000)];
            while let Ok(n) = Read::read(&mut b, &mut buf) {
                if n == 0 {
                    break;
                }
                got.extend_from_slice(&buf[..n]);
                if r.chance(20) {
                    pause(&mut r);
                }
            }
            got
        });
        for _ in 0..4 {
            let n = if r.chance(60) { total } else { r.below(3000) };
            seen += n;
            if !one.op(&Op::Write(r.bytes(n)), 0) || seen > 400_000 {
                break;
            }
        }
        one.close(r);
        let mut got = vec![];
        let _ = guard(|| got = drainer.join().unwrap());
        one.taken(&got, 0, 0);
    });
}

/// character devices, directories, files opened for one direction only
fn devices(r: &mut Rng, s: &Scratch, sh: &mut Shards) {
    let p = s.path("disk");
    let n = r.below(40);
    let data = r.bytes(n);
    std::fs::write(&p, &data).unwrap();
    let open = |p: &str, w: bool| OpenOptions::new().read(true).write(w).open(p);
    let (f, d, how) = match r.below(6) {
        0 => (open("/dev/full", true), Dev { endless: true, room: 0, most: 0, full: "StorageFull", ..dev() }, "a full device"),
        1 => (open("/dev/zero", true), Dev { endless: true, ..dev() }, "a device of zeros"),
        2 => (open("/dev/null", true), dev(), "a device of nothing"),
        3 => (File::open(&p), Dev { incoming: data, nowrite: "Uncategorized", ..dev() }, "a disk file opened for reading"),
        4 => (OpenOptions::new().write(true).open(&p), Dev { noread: "Uncategorized", ..dev() }, "a disk file opened for writing"),
        _ => (File::open(&s.0), Dev { noread: "IsADirectory", nowrite: "Uncategorized", ..dev() }, "a directory"),
    };
    let f = match f {
        Ok(f) => f,
        Err(_) => return,
    };
    let mut one = One::new(f, &d, how.to_string(), r, sh);
    for _ in 0..(2 + r.below(10)) {
        let op = if r.chance(50) { putter(r, 50) } else { getter(r, d.incoming.len() / 2) };
        if !one.op(&op, r.byte()) {
            if !op.writes() && d.noread == "" {
                one.rest();
            } else if op.writes() && d.nowrite == "" {
                one.taken(&[], d.room, d.most);
            }
            one.open_end = false;
        }
    }
}
/// a disk file that may not get any longer
fn full_disk(r: &mut Rng, s: &Scratch, sh: &mut Shards) {
    let p = s.path("limited");
    let _ = std::fs::remove_file(&p);
    let mut f = OpenOptions::new().read(true).write(true).create(true).open(&p).unwrap();
    let k = r.below(60) as u64;
    Seek::seek(&mut f, SeekFrom::Start(LIMIT - k)).unwrap();
    let d = Dev { room: k, most: k, full: "FileTooLarge", ..dev() };
    let mut one = One::new(f, &d, "a disk file that may not grow".to_string(), r, sh);
    for _ in 0..12 {
        let op = putter(r, 30);
        if !one.op(&op, 0) {
            break;
        }
    }
    let mut f = File::open(&p).unwrap();
    let mut got = vec![];
    Seek::seek(&mut f, SeekFrom::Start(LIMIT - k)).unwrap();
    f.read_to_end(&mut got).unwrap();
    let left = k - got.len() as u64;
    one.taken(&got, left, left);
    if left > 0 {
        return;
    }
    for _ in 0..2 {
        let op = putter(r, 30);
        if !one.op(&op, 0) {
            one.taken(&[], 0, 0);
        }
    }
}

pub fn run(o: &Opts) {
    let mut r = Rng::new(o.seed ^ 0x91EC);
    let scratch = Scratch::new();
    unsafe {
        signal(USR1, nothing as *const () as usize);
        siginterrupt(USR1, 1);
        signal(XFSZ, 1);
        setrlimit(1, &[LIMIT, u64::MAX]);
    }
    let mut sh = Shards::new(&o.out, o.shards, &meta(), o.flush);
    for k in 0..o.n {
        if k == o.n / 2 {
            crate::age::age(&scratch, &mut r);
        }
        match r.below(10) {
            0 | 1 => {
                let n = match r.below(20) { 0 => 1 + r.below(6000), 1 => 0, _ => r.below(80) };
                let n = if k % 25 == 11 { 8193 + r.below(12_000) } else { n };
                let n = if k % 200 == 7 { 70_000 + r.below(30_000) } else { n };
                source(&mut r, &scratch, &mut sh, n);
            }
            2 | 3 => {
                let n = match r.below(20) { 0 => 6000, _ => 60 };
                sink(&mut r, &scratch, &mut sh, if k % 200 == 8 { 90_000 } else { n });
            }
            4 => broken(&mut r, &scratch, &mut sh, k % 300 == 9),
            5 => impatient_source(&mut r, &scratch, &mut sh),
            6 => impatient_sink(&mut r, &scratch, &mut sh, k % 100 < 2),
            7 => full_disk(&mut r, &scratch, &mut sh),
            _ => devices(&mut r, &scratch, &mut sh),
        }
    }
    // each kind of large transfer, at least once
    for _ in 0..(1 + o.n / 1000) {
        let n = 70_000 + r.below(30_000);
        source(&mut r, &scratch, &mut sh, n);
        sink(&mut r, &scratch, &mut sh, 90_000);
        broken(&mut r, &scratch, &mut sh, true);
        impatient_sink(&mut r, &scratch, &mut sh, true);
        for _ in 0..20 {
            hurried_sink(&mut r, &scratch, &mut sh);
        }
    }
    sh.finish();
}
