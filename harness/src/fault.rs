//! A device that fails at chosen calls, implementing only the required operations.
use crate::stream::{exec, fixed, width, Op, TYPES};
use crate::util::*;
use lcms2::io::IOHandler;
use std::io::{Error, ErrorKind, Result, SeekFrom};

#[derive(Debug)]
struct Device {
    data: Vec<u8>,
    pos: usize,
    calls: usize,
    /// the calls that fail, and how
    faults: Vec<(usize, ErrorKind)>,
    ever_after: bool,
    junk: u8,
    log: Vec<String>,
}
impl Device {
    fn fault(&mut self) -> Option<ErrorKind> {
        let n = self.calls;
        self.calls += 1;
        if n > 10_000 {
            panic!("runaway");
        }
        self.faults.iter().find(|f| f.0 == n || self.ever_after && n > f.0).map(|f| f.1)
    }
    fn note(&mut self, c: &str, b: &[u8], r: &Result<()>) {
        let s = match r {
            Ok(_) => "ok".to_string(),
            Err(e) => kind(e),
        };
        self.log.push(Obj::new("call").str("c", c).bytes("b", b).str("r", &s).end());
    }
}
impl IOHandler for Device {
    fn read(&mut self, buf: &mut [u8]) -> Result<()> {
        let r = match self.fault() {
            Some(e) => {
                // a failing device may leave anything in the buffer
                buf.fill(self.junk);
                Err(Error::from(e))
            }
            None if self.pos + buf.len() > self.data.len() => Err(Error::from(ErrorKind::UnexpectedEof)),
            None => {
                buf.copy_from_slice(&self.data[self.pos..self.pos + buf.len()]);
                self.pos += buf.len();
                Ok(())
            }
        };
        let b = buf.to_vec();
        self.note("read", &b, &r);
        r
    }
    fn write(&mut self, buf: &[u8]) -> Result<()> {
        let r = match self.fault() {
            Some(e) => Err(Error::from(e)),
            None => {
                let end = self.pos + buf.len();
                if self.data.len() < end {
                    self.data.resize(end, 0);
                }
                self.data[self.pos..end].copy_from_slice(buf);
                self.pos = end;
                Ok(())
            }
        };
        self.note("write", buf, &r);
        r
    }
    fn seek(&mut self, pos: SeekFrom) -> Result<()> {
        let r = match self.fault() {
            Some(e) => Err(Error::from(e)),
            None => {
                let t = match pos {
                    SeekFrom::Start(v) => Some(v),
                    SeekFrom::End(v) => (self.data.len() as u64).checked_add_signed(v),
                    SeekFrom::Current(v) => (self.pos as u64).checked_add_signed(v),
                };
                match t {
                    Some(t) => {
                        self.pos = t as usize;
                        Ok(())
                    }
                    None => Err(Error::from(ErrorKind::InvalidInput)),
                }
            }
        };
        self.note("seek", &[], &r);
        r
    }
    fn tell(&mut self) -> Result<usize> {
        let r = match self.fault() {
            Some(e) => Err(Error::from(e)),
            None => Ok(()),
        };
        self.note("tell", &[], &r);
        r.map(|_| self.pos)
    }
    fn close(self) -> Result<()> {
        Ok(())
    }
}

const KINDS: [ErrorKind; 8] = [
    ErrorKind::PermissionDenied,
    ErrorKind::TimedOut,
    ErrorKind::Interrupted,
    ErrorKind::WriteZero,
    ErrorKind::UnexpectedEof,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::Other,
];

fn one(op: &Op, faults: Vec<(usize, ErrorKind)>, ever_after: bool, size: usize, r: &mut Rng, sh: &mut Shards) -> usize {
    let data = r.bytes(size);
    let pos = if matches!(op, Op::Size) { r.below(size + 5) } else { r.below(size / 2 + 1) };
    let mut d = Device { data, pos, calls: 0, faults, ever_after, junk: r.byte(), log: vec![] };
    sh.history();
    let n = Obj::new("new").raw("op", op.json()).int("pos", pos as i64).raw("len", limbs(size as u64, 4)).end();
    sh.line(&n);
    doing(|| format!("{} on a device with faults {:?}", op.json(), d.faults));
    let dynamic = r.chance(30);
    let res = guard(|| if dynamic { exec(&mut d as &mut dyn IOHandler, op, 0x5A) } else { exec(&mut d, op, 0x5A) });
    for c in std::mem::take(&mut d.log) {
        sh.line(&c);
    }
    let st = status(&res);
    let val = res.ok().and_then(|x| x.ok()).unwrap_or("[]".into());
    sh.line(&Obj::new("ret").str("r", &st).raw("val", val).int("pos", d.pos as i64).end());
    d.calls
}

/// Closing streams on devices of all kinds: the last bytes either get to where they belong, or it is said.
fn closings(r: &mut Rng, sh: &mut Shards) {
    use std::fs::{File, OpenOptions};
    use std::os::fd::OwnedFd;
    let s = Scratch::new();
    let _ = std::fs::write(s.path("data"), [7; 300]);
    let rw = |p: &std::path::Path| OpenOptions::new().read(true).write(true).open(p);
    for k in 0..60 {
        let mut other: Option<OwnedFd> = None;
        let (how, f): (&str, std::io::Result<File>) = match k % 12 {
            0 => ("a disk file", rw(&s.path("data"))),
            1 => ("a disk file for reading", File::open(s.path("data"))),
            2 => ("a disk file for writing", File::create(s.path("data"))),
            3 => ("a folder", File::open(s.path(""))),
            4 => ("/dev/null", rw("/dev/null".as_ref())),
            5 => ("/dev/zero", rw("/dev/zero".as_ref())),
            6 => ("/dev/full", rw("/dev/full".as_ref())),
            7 | 8 => match std::os::unix::net::UnixStream::pair() {
                Ok((a, b)) => {
                    other = Some(OwnedFd::from(b));
                    ("a socket", Ok(File::from(OwnedFd::from(a))))
                }
                Err(e) => ("a socket", Err(e)),
            },
            9 | 10 => match std::io::pipe() {
                Ok((a, b)) if k % 12 == 9 => {
                    other = Some(OwnedFd::from(b));
                    ("the reading end of a pipe", Ok(File::from(OwnedFd::from(a))))
                }
                Ok((a, b)) => {
                    other = Some(OwnedFd::from(a));
                    ("the writing end of a pipe", Ok(File::from(OwnedFd::from(b))))
                }
                Err(e) => ("a pipe", Err(e)),
            },
            _ => ("/dev/urandom", File::open("/dev/urandom")),
        };
        let Ok(mut f) = f else { continue };
        if r.chance(50) {
            let b = r.bytes(5);
            let _ = guard(|| IOHandler::write(&mut f, &b));
        }
        if r.chance(30) {
            let _ = guard(|| f.reported_size());
        }
        let Ok(raw) = f.try_clone() else { continue };
        let raw = status(&guard(|| raw.sync_data()));
        doing(|| format!("closing a stream on {}", how));
        let res = guard(|| IOHandler::close(f));
        drop(other);
        sh.history();
        sh.line(&Obj::new("giveup").bool("new", true).str("how", how).str("raw", &raw).str("r", &status(&res)).end());
    }
}

pub fn run(o: &Opts) {
    let mut r = Rng::new(o.seed ^ 0xFA17);
    let mut sh = Shards::new(&o.out, o.shards, &meta(), o.flush);
    closings(&mut r, &mut sh);
    // long arrays, failing early, late, at powers of two, or not at all
    for _ in 0..(2 + o.n / 50) {
        for n in [15usize, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 255, 256, 257, 300] {
            let ops = [Op::Get("u16a", n), Op::Put("u16a", (0..n).map(|_| r.bytes(2)).collect())];
            for op in &ops {
                let calls = one(op, vec![], false, 2 * 2 * n + 2, &mut r, &mut sh);
                let any = r.below(calls);
                let k = *r.pick(&[0, calls.saturating_sub(1), calls / 2, any]);
                let e = *r.pick(&KINDS);
                one(op, vec![(k, e)], r.chance(50), 2 * 2 * n + 2, &mut r, &mut sh);
            }
        }
    }
    for _ in 0..o.n {
        let mut ops: Vec<Op> = vec![Op::Size];
        for t in TYPES {
            let n = match t {
                "u16a" => r.below(7),
                "xyz" => 3,
                _ => 1,
            };
            ops.push(Op::Get(t, n));
            ops.push(match t {
                "s15" | "xyz" => Op::PutFixed(t, (0..n).map(|_| fixed(&mut r, true)).collect()),
                _ => Op::Put(t, (0..n).map(|_| r.word().to_be_bytes()[8 - width(t)..].to_vec()).collect()),
            });
        }
        for op in &ops {
            // no fault, every single call failing, everything failing from a call on, two calls failing
            let size = 30 + r.below(30);
            let calls = one(op, vec![], false, size, &mut r, &mut sh);
            for k in 0..calls {
                let e = *r.pick(&KINDS);
                let size = 30 + r.below(30);
                one(op, vec![(k, e)], false, size, &mut r, &mut sh);
                let e = *r.pick(&KINDS);
                one(op, vec![(k, e)], true, size, &mut r, &mut sh);
                for j in k + 1..calls {
                    let e = (*r.pick(&KINDS), *r.pick(&KINDS));
                    one(op, vec![(k, e.0), (j, e.1)], false, size, &mut r, &mut sh);
                }
            }
            // a device that ends too early
            let size = r.below(6);
            one(op, vec![], false, size, &mut r, &mut sh);
        }
    }
    sh.finish();
}
