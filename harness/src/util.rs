//! Shared machinery: random numbers, JSON lines, shards, guarded calls, watchdog, scratch space.
use std::cell::RefCell;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    pub fn byte(&mut self) -> u8 {
        self.next() as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    /// a 64-bit value with interesting bit patterns
    pub fn word(&mut self) -> u64 {
        match self.below(9) {
            8 => {
                let d = dict();
                let v = if self.chance(50) { *self.pick_rare(&d.nums) } else { *self.pick_rare(&d.sigs) as u64 };
                let v = if self.chance(30) { v.wrapping_add(self.below(3) as u64).wrapping_sub(1) } else { v };
                if self.chance(10) { v << 32 | v & 0xFFFF_FFFF } else { v }
            }
            0 => self.next(),
            1 => self.next() >> self.below(64),
            2 => 1u64 << self.below(64),
            3 => (1u64 << self.below(64)).wrapping_sub(1),
            4 => !(1u64 << self.below(64)),
            5 => *self.pick(&[0, 1, u64::MAX, 0x8000_0000_0000_0000, 0x7FFF_FFFF_FFFF_FFFF, 0xFF, 0xFF00]),
            6 => {
                let b = self.byte() as u64;
                b.wrapping_mul(0x0101_0101_0101_0101)
            }
            _ => {
                // few non-zero bytes
                let mut v = 0u64;
                for _ in 0..2 {
                    v |= (self.byte() as u64) << (8 * self.below(8));
                }
                v
            }
        }
    }
}

impl Rng {
    /// one of the literals of one of the source files; files with few literals count most
    fn pick_rare<'a, T>(&mut self, by_file: &'a [Vec<T>]) -> &'a T {
        let i = if self.chance(60) { self.below((by_file.len() + 1) / 2) } else { self.below(by_file.len()) };
        let v = &by_file[i];
        self.pick(v)
    }
    /// a signature that occurs in the library
    pub fn known_sig(&mut self) -> u32 {
        *self.pick_rare(&dict().sigs)
    }
    /// a number that occurs in the library
    pub fn known_num(&mut self) -> u64 {
        *self.pick_rare(&dict().nums)
    }
    /// a text that occurs in the library
    pub fn known_text(&mut self) -> String {
        self.pick_rare(&dict().texts).clone()
    }
    /// four bytes that are text, with letters of several bytes
    pub fn letters(&mut self) -> u32 {
        let mut s = String::new();
        while s.len() != 4 {
            if s.len() > 4 { s.clear() }
            s.push(match self.below(5) {
                0 | 1 => (b'a' + self.below(26) as u8) as char,
                2 => *self.pick(&['é', 'ß', '\u{80}', '\u{7ff}']),
                3 => *self.pick(&['€', '\u{ffff}', '日', '\u{800}']),
                _ => *self.pick(&['😀', '\u{10000}', ' ', '\0']),
            });
        }
        u32::from_be_bytes(*s.as_bytes().first_chunk::<4>().unwrap())
    }
    pub fn known_float(&mut self) -> f64 {
        *self.pick_rare(&dict().floats)
    }
}
/// The literals of the library's source text: what special cases are likely to be about.
pub struct Dict {
    sigs: Vec<Vec<u32>>,
    texts: Vec<Vec<String>>,
    nums: Vec<Vec<u64>>,
    floats: Vec<Vec<f64>>,
}
pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut files = vec![];
        let mut dirs = vec![PathBuf::from("/repo/src")];
        while let Some(d) = dirs.pop() {
            for e in std::fs::read_dir(d).map(|r| r.flatten().collect::<Vec<_>>()).unwrap_or_default() {
                let p = e.path();
                if p.is_dir() {
                    dirs.push(p);
                } else if p.extension().map_or(false, |x| x == "rs") {
                    files.push(p);
                }
            }
        }
        files.sort();
        let mut d = Dict { sigs: vec![vec![0x61637370]], texts: vec![vec!["acsp".into()]], nums: vec![vec![0, 1]], floats: vec![vec![0.0, 1.0]] };
        for f in files {
            let text = std::fs::read_to_string(f).unwrap_or_default();
            let (mut s, n, x) = literals(text.as_bytes());
            // numbers that read as text
            s.extend(n.iter().filter(|v| **v > 0x2020_2020 && **v <= u32::MAX as u64 && (**v as u32).to_be_bytes().iter().all(|b| (0x20..0x7F).contains(b))).map(|v| *v as u32));
            let t = texts(&text);
            if !t.is_empty() { d.texts.push(t) }
            if !s.is_empty() { d.sigs.push(s) }
            if !n.is_empty() { d.nums.push(n) }
            if !x.is_empty() { d.floats.push(x) }
        }
        d.sigs.sort_by_key(|v| v.len());
        d.texts.sort_by_key(|v| v.len());
        d.nums.sort_by_key(|v| v.len());
        d.floats.sort_by_key(|v| v.len());
        d
    })
}
/// every signature of the dictionary, once; only those of source files with few of them
pub fn known_sigs(few: usize) -> Vec<u32> {
    let mut v: Vec<u32> = dict().sigs.iter().filter(|f| f.len() <= few).flatten().copied().collect();
    v.sort();
    v.dedup();
    v
}
/// every text and signature of the dictionary, once
pub fn known_texts() -> Vec<Vec<u8>> {
    let d = dict();
    let mut v: Vec<Vec<u8>> = d.texts.iter().flatten().map(|t| t.as_bytes().to_vec()).chain(d.sigs.iter().flatten().map(|s| s.to_be_bytes().to_vec())).collect();
    v.sort();
    v.dedup();
    v
}
/// what is between quotation marks
fn texts(t: &str) -> Vec<String> {
    let mut v = vec![];
    for line in t.lines() {
        let line = line.trim_start();
        if line.starts_with("//") {
            continue;
        }
        let mut c = line.chars();
        while let Some(x) = c.next() {
            if x != '"' && x != '\'' {
                continue;
            }
            let mut w = String::new();
            let mut ended = false;
            while let Some(y) = c.next() {
                if y == x {
                    ended = true;
                    break;
                }
                w.push(match y {
                    '\\' => match c.next() {
                        Some('n') => '\n',
                        Some('r') => '\r',
                        Some('t') => '\t',
                        Some('0') => '\0',
                        Some(z) => z,
                        None => break,
                    },
                    y => y,
                });
                // a lifetime, not a letter
                if x == '\'' && w.chars().count() > 1 {
                    break;
                }
            }
            if ended && !w.is_empty() && w.len() < 200 {
                v.push(w);
            }
        }
    }
    v
}
fn literals(t: &[u8]) -> (Vec<u32>, Vec<u64>, Vec<f64>) {
    let (mut sigs, mut nums, mut floats) = (vec![], vec![], vec![]);
    let mut i = 0;
    while i < t.len() {
        if t[i] == b'"' {
            let mut j = i + 1;
            while j < t.len() && t[j] != b'"' && t[j] != b'\n' {
                j += if t[j] == b'\\' { 2 } else { 1 };
            }
            if j - i == 5 && j < t.len() {
                sigs.push(u32::from_be_bytes([t[i + 1], t[i + 2], t[i + 3], t[i + 4]]));
            }
            i = j + 1;
        } else if t[i].is_ascii_digit() {
            let mut j = i;
            while j < t.len() && (t[j].is_ascii_alphanumeric() || t[j] == b'_' || t[j] == b'.' && t.get(j + 1).map_or(false, |c| c.is_ascii_digit())) {
                j += 1;
            }
            let w: String = String::from_utf8_lossy(&t[i..j]).replace('_', "");
            let strip = |w: &str| -> String {
                for s in ["usize", "isize", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8", "f64", "f32"] {
                    if let Some(x) = w.strip_suffix(s) { return x.into() }
                }
                w.into()
            };
            if let Some(h) = w.strip_prefix("0x") {
                if let Ok(v) = u64::from_str_radix(h, 16).or_else(|_| u64::from_str_radix(&strip(h), 16)) { nums.push(v) }
            } else if let Ok(v) = strip(&w).parse::<u64>() {
                nums.push(v);
                floats.push(v as f64);
            } else if let Ok(v) = strip(&w).parse::<f64>() {
                floats.push(v);
            }
            i = j.max(i + 1);
        } else if t[i].is_ascii_alphabetic() || t[i] == b'_' {
            let j = i;
            while i < t.len() && (t[i].is_ascii_alphanumeric() || t[i] == b'_') {
                i += 1;
            }
            if i - j == 1 && t[j] == b'b' { continue }
        } else {
            i += 1;
        }
    }
    (sigs, nums, floats)
}

/// One JSON object, built left to right.
pub struct Obj(String);
impl Obj {
    pub fn new(ev: &str) -> Self {
        Obj(format!("{{\"ev\":\"{}\"", ev))
    }
    pub fn anon() -> Self {
        Obj("{".into())
    }
    fn key(&mut self, k: &str) {
        if self.0.len() > 1 {
            self.0.push(',');
        }
        self.0.push('"');
        self.0.push_str(k);
        self.0.push_str("\":");
    }
    pub fn raw(mut self, k: &str, v: impl AsRef<str>) -> Self {
        self.key(k);
        self.0.push_str(v.as_ref());
        self
    }
    pub fn int(self, k: &str, v: i64) -> Self {
        self.raw(k, v.to_string())
    }
    pub fn bool(self, k: &str, v: bool) -> Self {
        self.raw(k, if v { "true" } else { "false" })
    }
    pub fn str(self, k: &str, v: &str) -> Self {
        self.raw(k, quote(v))
    }
    pub fn bytes(self, k: &str, v: &[u8]) -> Self {
        self.raw(k, bytes(v))
    }
    pub fn list(self, k: &str, v: impl IntoIterator<Item = String>) -> Self {
        self.raw(k, list(v))
    }
    pub fn end(mut self) -> String {
        self.0.push('}');
        self.0
    }
}
pub fn quote(v: &str) -> String {
    let mut s = String::with_capacity(v.len() + 2);
    s.push('"');
    for c in v.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    s.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => s.push(c),
        }
    }
    s.push('"');
    s
}
pub fn list(v: impl IntoIterator<Item = String>) -> String {
    let mut s = String::from("[");
    for (i, x) in v.into_iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&x);
    }
    s.push(']');
    s
}
pub fn bytes(v: &[u8]) -> String {
    let mut s = String::with_capacity(v.len() * 4 + 2);
    s.push('[');
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&x.to_string());
    }
    s.push(']');
    s
}
/// 16-bit digits, most significant first
pub fn limbs(v: u64, n: usize) -> String {
    list((0..n).rev().map(|i| ((v >> (16 * i)) & 0xFFFF).to_string()))
}

/// Output shards: one file per TLC process.
pub struct Shards {
    files: Vec<BufWriter<File>>,
    cur: usize,
    flush: bool,
    out: PathBuf,
    pub lines: usize,
    pub histories: usize,
}
impl Shards {
    pub fn new(dir: &Path, n: usize, meta: &str, flush: bool) -> Self {
        std::fs::create_dir_all(dir).unwrap();
        let files = (0..n)
            .map(|i| {
                let mut f = BufWriter::new(File::create(dir.join(format!("t{}.ndjson", i))).unwrap());
                writeln!(f, "{}", meta).unwrap();
                f
            })
            .collect();
        Shards { files, cur: 0, flush, out: dir.to_path_buf(), lines: 0, histories: 0 }
    }
    /// the next history goes to the next shard
    pub fn history(&mut self) {
        self.cur = (self.cur + 1) % self.files.len();
        self.histories += 1;
    }
    pub fn line(&mut self, s: &str) {
        writeln!(self.files[self.cur], "{}", s).unwrap();
        if self.flush {
            self.files[self.cur].flush().unwrap();
        }
        self.lines += 1;
    }
    pub fn finish(mut self) {
        for f in &mut self.files {
            f.flush().unwrap();
        }
        let s = Obj::anon().int("histories", self.histories as i64).int("events", self.lines as i64).end();
        std::fs::write(self.out.join("summary.json"), s).unwrap();
    }
}

// ---------------------------------------------------------------- guarded calls

static BEAT: AtomicU64 = AtomicU64::new(0);
static BUSY: AtomicU64 = AtomicU64::new(0);
static DOING: Mutex<Option<String>> = Mutex::new(None);

thread_local! { pub static QUIET: RefCell<bool> = RefCell::new(false); }

pub fn install(out: &Path) {
    std::panic::set_hook(Box::new(|info| {
        if !QUIET.with(|q| *q.borrow()) {
            eprintln!("{}", info);
        }
    }));
    // made now, as there may be no descriptor left then
    let (tmp, hang) = (out.join("hang.tmp"), out.join("hang"));
    let mut note = File::create(&tmp).unwrap();
    std::thread::spawn(move || {
        let mut last = (0u64, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let b = BEAT.load(Ordering::Relaxed);
            if b != last.0 || BUSY.load(Ordering::Relaxed) == 0 {
                last = (b, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(20) {
                let what = DOING.lock().map(|d| d.clone()).unwrap_or(None).unwrap_or_default();
                let _ = note.write_all(what.as_bytes());
                let _ = std::fs::rename(&tmp, &hang);
                std::process::exit(3);
            }
        }
    });
}
/// Names the call about to be made (for the report on a hang or an abort).
pub fn doing(s: impl FnOnce() -> String) {
    let s = s();
    if let Some(o) = NAMED.lock().unwrap().as_ref() {
        let _ = std::fs::write(o, &s);
    }
    *DOING.lock().unwrap() = Some(s);
}
/// when looking for the reason of an abort: file naming the call under way
static NAMED: Mutex<Option<PathBuf>> = Mutex::new(None);
pub fn name_calls(p: PathBuf) {
    *NAMED.lock().unwrap() = Some(p);
}
/// Runs a call of the code under test; a panic is data.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    QUIET.with(|q| *q.borrow_mut() = true);
    BEAT.fetch_add(1, Ordering::Relaxed);
    BUSY.fetch_add(1, Ordering::Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| ());
    BUSY.fetch_sub(1, Ordering::Relaxed);
    QUIET.with(|q| *q.borrow_mut() = false);
    r
}
pub fn kind(e: &std::io::Error) -> String {
    format!("{:?}", e.kind())
}
/// "ok", an error kind, or "panic"
pub fn status<T>(r: &Result<std::io::Result<T>, ()>) -> String {
    match r {
        Ok(Ok(_)) => "ok".into(),
        Ok(Err(e)) => kind(e),
        Err(()) => "panic".into(),
    }
}

/// A scratch directory, removed at the end.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Self {
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        for b in [base, std::env::temp_dir()] {
            let p = b.join(format!("lcms2-verif-{}", std::process::id()));
            if std::fs::create_dir_all(&p).is_ok() {
                return Scratch(p);
            }
        }
        panic!("no scratch directory");
    }
    pub fn path(&self, n: &str) -> PathBuf {
        self.0.join(n)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub struct Opts {
    pub out: PathBuf,
    pub shards: usize,
    pub seed: u64,
    pub n: usize,
    pub cases: Option<PathBuf>,
    pub mode: String,
    pub flush: bool,
}
pub fn meta() -> String {
    Obj::new("meta")
        .bool("little", cfg!(feature = "little"))
        .str("host", if cfg!(target_endian = "little") { "little" } else { "big" })
        .bool("checked", cfg!(debug_assertions))
        .end()
}
