//! Several streams on one disk file.
use crate::json;
use crate::stream::{block, exec, typed, Op};
use crate::util::*;
use lcms2::io::IOHandler;
use std::fs::{File, OpenOptions};
use std::path::PathBuf;

struct Handle {
    f: Option<File>,
    mode: &'static str,
    /// on the same description as another one
    pos: u64,
}
struct Set {
    path: PathBuf,
    h: Vec<Handle>,
}
const MODES: [&str; 5] = ["rw", "r", "w", "a", "ra"];
fn open(p: &PathBuf, mode: &str) -> std::io::Result<File> {
    let mut o = OpenOptions::new();
    match mode {
        "rw" => o.read(true).write(true),
        "r" => o.read(true),
        "w" => o.write(true),
        "a" => o.append(true),
        _ => o.read(true).append(true),
    };
    o.open(p)
}
impl Set {
    fn new(path: PathBuf, data: &[u8], sh: &mut Shards) -> Self {
        sh.history();
        std::fs::write(&path, data).unwrap();
        sh.line(&Obj::new("hnew").bool("new", true).bytes("disk", data).end());
        Set { path, h: vec![] }
    }
    fn disk(&self) -> Vec<u8> {
        std::fs::read(&self.path).unwrap()
    }
    fn open(&mut self, mode: &'static str, sh: &mut Shards) {
        let f = open(&self.path, mode);
        let r = if f.is_ok() { "ok" } else { "failed" };
        self.h.push(Handle { f: f.ok(), mode, pos: 0 });
        sh.line(&Obj::new("hopen").int("h", self.h.len() as i64).str("mode", mode).str("r", r).bytes("disk", &self.disk()).end());
    }
    fn dup(&mut self, of: usize, sh: &mut Shards) {
        let f = self.h[of].f.as_ref().unwrap().try_clone();
        let r = if f.is_ok() { "ok" } else { "failed" };
        let (mode, pos) = (self.h[of].mode, self.h[of].pos);
        self.h.push(Handle { f: f.ok(), mode, pos });
        sh.line(&Obj::new("hdup").int("h", self.h.len() as i64).int("of", of as i64 + 1).str("r", r).bytes("disk", &self.disk()).end());
    }
    fn close(&mut self, h: usize, polite: bool, sh: &mut Shards) {
        let f = self.h[h].f.take().unwrap();
        let r = if polite { status(&guard(|| IOHandler::close(f))) } else { drop(f); "ok".into() };
        sh.line(&Obj::new("hclose").int("h", h as i64 + 1).str("r", &r).bytes("disk", &self.disk()).end());
    }
    fn outside(&mut self, data: &[u8], sh: &mut Shards) {
        // in place: the streams stay on this file
        std::fs::write(&self.path, data).unwrap();
        sh.line(&Obj::new("outside").bytes("disk", data).end());
    }
    fn live(&self) -> Vec<usize> {
        (0..self.h.len()).filter(|&i| self.h[i].f.is_some()).collect()
    }
    fn apply(&mut self, h: usize, op: &Op, junk: u8, sh: &mut Shards) {
        doing(|| format!("{} on stream {} ({}) of a shared file", op.json(), h + 1, self.h[h].mode));
        let f = self.h[h].f.as_mut().unwrap();
        let r = guard(|| exec(f, op, junk));
        let st = status(&r);
        if let Op::Seek(0, v) = op {
            self.h[h].pos = *v;
        }
        let res = Obj::anon().str("r", &st).raw("val", r.ok().and_then(|x| x.ok()).unwrap_or("[]".into())).end();
        sh.line(&Obj::new("hop").int("h", h as i64 + 1).raw("op", op.json()).raw("res", res).bytes("disk", &self.disk()).end());
        if op.transfers() && st != "ok" {
            // where it is now is not known
            let f = self.h[h].f.as_mut().unwrap();
            let op = Op::Tell;
            let r = guard(|| exec(f, &op, 0));
            let st = status(&r);
            let res = Obj::anon().str("r", &st).raw("val", r.ok().and_then(|x| x.ok()).unwrap_or("[]".into())).end();
            sh.line(&Obj::new("hop").int("h", h as i64 + 1).raw("op", op.json()).raw("res", res).bytes("disk", &self.disk()).end());
        }
    }
}
fn is_mode(s: &str) -> Option<&'static str> {
    MODES.iter().copied().find(|m| *m == s)
}

pub fn run(o: &Opts) {
    let mut r = Rng::new(o.seed ^ 0x4a11);
    let scratch = Scratch::new();
    let mut sh = Shards::new(&o.out, o.shards, &meta(), o.flush);
    if let Some(c) = &o.cases {
        for c in json::lines(c) {
            let mut s = Set::new(scratch.path("c"), &[11, 22, 33, 44], &mut sh);
            s.open(is_mode(c.get("first").str()).unwrap(), &mut sh);
            match is_mode(c.get("second").str()) {
                Some(m) => s.open(m, &mut sh),
                None => s.dup(0, &mut sh),
            }
            for x in c.get("steps").arr() {
                s.apply(x.get("h").int() as usize - 1, &Op::parse(x.get("op")), 0xAA, &mut sh);
            }
            for h in 0..2 {
                s.apply(h, &Op::Tell, 0, &mut sh);
                s.close(h, h == 0, &mut sh);
            }
        }
    }
    for k in 0..o.n {
        let long = k % 40 == 39;
        let n = if long { *r.pick(&[1000usize, 4095, 4096, 4097, 8192, 20000]) } else { r.below(24) };
        let data = r.bytes(n);
        let mut s = Set::new(scratch.path("h"), &data, &mut sh);
        s.open(*r.pick(&["rw", "rw", "rw", "ra", "a", "w"]), &mut sh);
        let steps = if long { 12 } else { 6 + r.below(36) };
        let mut sized = 0usize;
        for _ in 0..steps {
            let live = s.live();
            let len = s.disk().len() as i64;
            if live.is_empty() || (s.h.len() < 6 && r.chance(10)) {
                if !live.is_empty() && r.chance(30) {
                    let of = *r.pick(&live);
                    s.dup(of, &mut sh);
                } else {
                    s.open(*r.pick(&MODES), &mut sh);
                }
                continue;
            }
            let h = *r.pick(&live);
            match r.below(60) {
                0 => s.close(h, true, &mut sh),
                1 => s.close(h, false, &mut sh),
                2 => {
                    let n = if r.chance(50) { len as usize + r.below(5) } else { r.below(12) };
                    let d = r.bytes(n);
                    s.outside(&d, &mut sh);
                }
                _ => {
                    let op = match r.below(12) {
                        0 | 1 => typed(&mut r, true),
                        2 | 3 => Op::Read(if long && r.chance(50) { *r.pick(&[100usize, 1000, 4096, 5000, 8193]) } else { 1 + r.below(5) }),
                        4 | 5 => {
                            let n = if long && r.chance(40) { *r.pick(&[600usize, 1500, 4096, 8200]) } else { 1 + r.below(6) };
                            Op::Write(block(&mut r, n))
                        }
                        6 => Op::Seek(0, r.range(0, len + 4) as u64),
                        7 => Op::Seek(1, r.range(-len - 1, 3) as u64),
                        8 => Op::Seek(2, r.range(-4, 4) as u64),
                        9 => Op::Tell,
                        _ => Op::Size,
                    };
                    // a question asked twice, with something in between
                    let op = if sized > 0 && r.chance(40) { Op::Size } else { op };
                    sized = if matches!(op, Op::Size) { 2 } else { sized.saturating_sub(1) };
                    let far = s.h[h].pos > 20_000;
                    if op.writes() && (op.len() == 0 || far) {
                        continue;
                    }
                    s.apply(h, &op, r.byte(), &mut sh);
                }
            }
        }
        for h in s.live() {
            s.apply(h, &Op::Tell, 0, &mut sh);
            s.apply(h, &Op::Size, 0, &mut sh);
        }
        for h in s.live() {
            s.close(h, true, &mut sh);
        }
    }
    sh.finish();
}
