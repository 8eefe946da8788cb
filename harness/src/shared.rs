//! Threads opening files through the shared default context.
use crate::json;
use crate::profile::{self, Img};
use crate::util::*;
use lcms2::io::AccessMode;
use lcms2::state::verif::with_global_context;
use lcms2::state::{Context, ErrorCode};
use lcms2::types::Profile;
use std::cell::Cell;
use std::collections::HashMap;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

static LOG: Mutex<Vec<String>> = Mutex::new(Vec::new());
static INSIDE: AtomicUsize = AtomicUsize::new(0);
static ENTERED: AtomicUsize = AtomicUsize::new(0);
static HOLD: AtomicBool = AtomicBool::new(false);
thread_local! {
    static ME: Cell<i64> = Cell::new(0);
    /// how often this thread got to a handler
    static MINE: Cell<usize> = Cell::new(0);
}

fn log(s: String) {
    LOG.lock().unwrap_or_else(|e| e.into_inner()).push(s);
}
/// the default context is 0; copies of one context are told apart by the thread using them
const COPY: u8 = 200;
fn id(ctx: &Context, t: i64) -> i64 {
    match ctx.get_user_data() {
        None => 0,
        Some(d) if d[0] == COPY => COPY as i64 + t,
        Some(d) => d[0] as i64,
    }
}
/// an open that a handler stays for
static AWAITED: AtomicBool = AtomicBool::new(false);
/// handlers stay until that many of them are at work
static GATHER: AtomicUsize = AtomicUsize::new(0);
/// waits that nobody ended: those after the second one are short
static LATE: AtomicUsize = AtomicUsize::new(0);
fn patience(seconds: u64) -> Duration {
    if LATE.load(Ordering::SeqCst) > 1 {
        Duration::from_millis(200)
    } else {
        Duration::from_secs(seconds)
    }
}
extern "C" {
    fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32;
}
fn handler(ctx: &mut Context, code: ErrorCode, _: String) {
    let me = ME.with(|m| m.get());
    let c = id(ctx, me);
    log(Obj::new("enter").int("t", me).int("ctx", c).str("code", &format!("{:?}", code)).end());
    let mut late = false;
    INSIDE.fetch_add(1, Ordering::SeqCst);
    ENTERED.fetch_add(1, Ordering::SeqCst);
    MINE.with(|m| m.set(m.get() + 1));
    if GATHER.load(Ordering::SeqCst) > 0 {
        let t = Instant::now();
        while ENTERED.load(Ordering::SeqCst) < GATHER.load(Ordering::SeqCst) && !late {
            std::thread::sleep(Duration::from_micros(100));
            late = t.elapsed() > patience(8);
        }
    } else if me == 1 && AWAITED.load(Ordering::SeqCst) {
        let t = Instant::now();
        while AWAITED.load(Ordering::SeqCst) && !late {
            std::thread::sleep(Duration::from_micros(100));
            late = t.elapsed() > patience(10);
        }
    } else if HOLD.load(Ordering::SeqCst) {
        // stay for a while, or until somebody else comes in
        let t = Instant::now();
        while t.elapsed() < Duration::from_millis(8) && INSIDE.load(Ordering::SeqCst) < 2 {
            std::thread::sleep(Duration::from_micros(200));
        }
    } else {
        for _ in 0..3 {
            std::thread::yield_now();
        }
    }
    INSIDE.fetch_sub(1, Ordering::SeqCst);
    if late {
        LATE.fetch_add(1, Ordering::SeqCst);
    }
    log(Obj::new("leave").int("t", me).bool("late", late).end());
}

struct Files {
    paths: Vec<PathBuf>,
    kinds: Vec<&'static str>,
    event: String,
}
type Prints = Arc<Mutex<HashMap<String, i64>>>;
fn result(r: &Result<std::io::Result<Box<Profile>>, ()>, prints: &Prints) -> String {
    let v = match r {
        Ok(Ok(p)) => {
            let s = profile::view_json(p);
            let mut m = prints.lock().unwrap();
            let n = m.len() as i64 + 1;
            *m.entry(s).or_insert(n)
        }
        _ => 0,
    };
    format!("[{},{}]", quote(&status(r)), v)
}
fn files(s: &Scratch, r: &mut Rng, prints: &Prints) -> Files {
    let mut imgs: Vec<(&'static str, Option<Img>)> = vec![("good", Some(profile::good())), ("missing", None)];
    let mut bad = profile::good();
    bad.pre[36] ^= 1;
    imgs.push(("bad", Some(bad)));
    let mut date = profile::good();
    date.pre[26] = 13;
    date.pre[27] = 13;
    imgs.push(("date", Some(date)));
    let mut many = profile::good();
    many.pre.truncate(132);
    many.pre[128..132].copy_from_slice(&[0, 1, 0, 101]);
    imgs.push(("many", Some(many)));
    let mut short = profile::good();
    short.len = 130;
    imgs.push(("short", Some(short)));
    // what comes out of a pipe: cut in the header, or of the wrong kind
    let mut cut = profile::good();
    cut.len = 60;
    cut.pre.truncate(60);
    imgs.push(("pipe-short", Some(cut)));
    let mut other = profile::good();
    other.pre.truncate(128);
    other.pre[36] ^= 1;
    other.len = 128;
    imgs.push(("pipe-bad", Some(other)));
    for _ in 0..6 {
        imgs.push(("tags", Some(profile::random(r))));
    }
    let mut paths = Vec::new();
    let mut events = Vec::new();
    let mut kinds = Vec::new();
    for (i, (k, img)) in imgs.iter().enumerate() {
        let p = s.path(&format!("f{}", i));
        let _ = std::fs::remove_file(&p);
        if let Some(img) = img {
            img.write(&p);
        }
        let mut own = Context::new(None);
        let solo = guard(|| Profile::open_from_file_thr(&mut own, &p, AccessMode::Read));
        let mut o = Obj::anon().bool("missing", img.is_none()).raw("solo", result(&solo, prints));
        if let Some(img) = img {
            let pre = &img.pre[..img.pre.len().min(img.len)];
            o = o.raw("len", limbs(img.len as u64, 4)).int("pad", (img.len - pre.len()).min(1 << 20) as i64).bytes("pre", pre);
        }
        events.push(o.end());
        paths.push(p);
        kinds.push(*k);
    }
    Files { paths, kinds, event: Obj::new("files").list("files", events).end() }
}

fn own(id: u8) -> Context {
    let mut c = Context::new(Some(vec![id].into_boxed_slice()));
    c.verif_set_error_handler(handler);
    c
}
/// through the default context or the one given
fn open(t: i64, f: usize, path: &PathBuf, ctx: Option<&mut Context>, prints: &Prints) {
    ME.with(|m| m.set(t));
    let c = ctx.as_ref().map_or(0, |c| id(c, t));
    log(Obj::new("call").int("t", t).int("ctx", c).int("file", f as i64 + 1).end());
    let r = guard(|| match ctx {
        None => Profile::open_from_file(path, AccessMode::Read),
        Some(c) => Profile::open_from_file_thr(c, path, AccessMode::Read),
    });
    log(Obj::new("return").int("t", t).raw("res", result(&r, prints)).end());
}

/// one open has to wait for the other end of a pipe, to read or to write; another one, of a file, must not
fn writers(s: &Scratch, k: usize) {
    let pipe = s.path("pipe-w");
    let _ = std::fs::remove_file(&pipe);
    let name = std::ffi::CString::new(pipe.to_str().unwrap()).unwrap();
    assert_eq!(unsafe { mkfifo(name.as_ptr(), 0o600) }, 0);
    let file = s.path("file-w");
    profile::good().write(&file);
    // at least one of them writes
    let (first, second) = [(true, true), (true, false), (false, true)][k % 3];
    doing(|| format!("open of a pipe (writing: {}) while a file is opened (writing: {})", first, second));
    let mode = |write: bool| if write { AccessMode::Write } else { AccessMode::Read };
    let (done, over) = (AtomicBool::new(false), AtomicBool::new(false));
    std::thread::scope(|sc| {
        let (pipe, file, done, over) = (&pipe, &file, &done, &over);
        sc.spawn(move || {
            let mut mine = own(1);
            let p = guard(|| Profile::open_from_file_thr(&mut mine, pipe, mode(first)));
            over.store(true, Ordering::SeqCst);
            drop(p);
        });
        sc.spawn(move || {
            std::thread::sleep(Duration::from_millis(5));
            let mut mine = own(2);
            for _ in 0..2 {
                let _ = guard(|| Profile::open_from_file_thr(&mut mine, file, mode(second)));
            }
            done.store(true, Ordering::SeqCst);
        });
        let t = Instant::now();
        while !done.load(Ordering::SeqCst) && t.elapsed() < patience(8) {
            std::thread::sleep(Duration::from_micros(100));
        }
        let late = !done.load(Ordering::SeqCst);
        if late {
            LATE.fetch_add(1, Ordering::SeqCst);
        }
        // both ends at once: nobody has to wait for this
        use std::io::Write;
        let mut w = std::fs::OpenOptions::new().read(true).write(true).open(pipe).unwrap();
        let g = profile::good();
        if !first {
            let _ = w.write_all(&[&g.pre[..], &[0; 1024]].concat());
        }
        while !over.load(Ordering::SeqCst) && t.elapsed() < Duration::from_secs(15) {
            std::thread::sleep(Duration::from_micros(100));
        }
        LOG.lock().unwrap_or_else(|e| e.into_inner()).clear();
        log(Obj::new("fed").bool("late", late).end());
    });
}

pub fn run(o: &Opts) {
    let mut out = Shards::new(&o.out, o.shards, &meta(), o.flush);
    let mut r = Rng::new(o.seed);
    let scratch = Scratch::new();
    let prints: Prints = Arc::new(Mutex::new(HashMap::new()));
    with_global_context(|c| c.verif_set_error_handler(handler));
    doing(|| "concurrent opens through the default context".into());
    let mut fs = files(&scratch, &mut r, &prints);
    let finish = |out: &mut Shards, fs: &Files| {
        out.history();
        out.line(&fs.event);
        out.line("{\"ev\":\"new\",\"new\":true}");
        for l in std::mem::take(&mut *LOG.lock().unwrap_or_else(|e| e.into_inner())) {
            out.line(&l);
        }
        out.line("{\"ev\":\"new\"}");
    };
    // schedules given by the specification
    if let Some(c) = &o.cases {
        for l in std::fs::read_to_string(c).unwrap().lines() {
            let j = json::parse(l);
            let ids: Vec<usize> = j.get("files").arr().iter().map(|k| fs.kinds.iter().position(|x| *x == k.str()).unwrap()).collect();
            let ctx: Vec<u8> = j.get("ctx").arr().iter().map(|c| c.int() as u8).collect();
            let how = j.get("how").str().to_string();
            if (how == "held") == (o.mode == "own") {
                continue;
            }
            if how == "together" {
                // every handler stays until all of them are at work
                ENTERED.store(0, Ordering::SeqCst);
                GATHER.store(ids.len(), Ordering::SeqCst);
                std::thread::scope(|s| {
                    for (t, (&f, &c)) in ids.iter().zip(&ctx).enumerate() {
                        let (fs, prints) = (&fs, &prints);
                        s.spawn(move || {
                            let mut mine = own(c);
                            open(t as i64 + 1, f, &fs.paths[f], if c == 0 { None } else { Some(&mut mine) }, prints);
                            // nobody waits for one that never gets to its handler
                            if MINE.with(|m| m.get()) == 0 {
                                ENTERED.fetch_add(1, Ordering::SeqCst);
                            }
                        });
                    }
                });
                GATHER.store(0, Ordering::SeqCst);
                finish(&mut out, &fs);
                continue;
            }
            if how == "stalled" || how == "dripping" {
                // the first thread reads from a pipe that gives nothing until the second is done
                let pipe = scratch.path("pipe");
                let _ = std::fs::remove_file(&pipe);
                let name = std::ffi::CString::new(pipe.to_str().unwrap()).unwrap();
                assert_eq!(unsafe { mkfifo(name.as_ptr(), 0o600) }, 0);
                let bytes = std::fs::read(&fs.paths[ids[0]]).unwrap();
                let done = AtomicBool::new(false);
                std::thread::scope(|s| {
                    let (fs, prints, pipe, done, how, bytes, ids, ctx) = (&fs, &prints, &pipe, &done, &how, &bytes, &ids, &ctx);
                    s.spawn(move || {
                        let mut mine = own(ctx[0]);
                        open(1, ids[0], pipe, Some(&mut mine), prints);
                    });
                    s.spawn(move || {
                        std::thread::sleep(Duration::from_millis(2));
                        let mut mine = own(ctx[1]);
                        open(2, ids[1], &fs.paths[ids[1]], if ctx[1] == 0 { None } else { Some(&mut mine) }, prints);
                        done.store(true, Ordering::SeqCst);
                    });
                    s.spawn(move || {
                        use std::io::Write;
                        let mut writer = None;
                        let mut given = 0;
                        if how == "dripping" {
                            let mut w = std::fs::OpenOptions::new().write(true).open(pipe).unwrap();
                            given = bytes.len() / 2;
                            w.write_all(&bytes[..given]).unwrap();
                            writer = Some(w);
                        }
                        let t = Instant::now();
                        while !done.load(Ordering::SeqCst) && t.elapsed() < patience(8) {
                            std::thread::sleep(Duration::from_micros(100));
                        }
                        let late = !done.load(Ordering::SeqCst);
                        if late {
                            LATE.fetch_add(1, Ordering::SeqCst);
                        }
                        log(Obj::new("fed").bool("late", late).end());
                        let mut w = writer.unwrap_or_else(|| std::fs::OpenOptions::new().write(true).open(pipe).unwrap());
                        let _ = w.write_all(&bytes[given..]);
                    });
                });
                finish(&mut out, &fs);
                continue;
            }
            let crossed = how == "crossed";
            HOLD.store(!crossed, Ordering::SeqCst);
            AWAITED.store(crossed, Ordering::SeqCst);
            ENTERED.store(0, Ordering::SeqCst);
            std::thread::scope(|s| {
                for (t, (&f, &c)) in ids.iter().zip(&ctx).enumerate() {
                    let (fs, prints) = (&fs, &prints);
                    s.spawn(move || {
                        if t > 0 {
                            let w = Instant::now();
                            while ENTERED.load(Ordering::SeqCst) == 0 && w.elapsed() < Duration::from_secs(2) {
                                std::thread::sleep(Duration::from_micros(100));
                            }
                        }
                        let mut mine = own(c);
                        open(t as i64 + 1, f, &fs.paths[f], if c == 0 { None } else { Some(&mut mine) }, prints);
                        if t > 0 {
                            AWAITED.store(false, Ordering::SeqCst);
                        }
                    });
                }
            });
            open(1, 0, &fs.paths[0], None, &prints);
            finish(&mut out, &fs);
        }
        HOLD.store(false, Ordering::SeqCst);
    }
    // free schedules
    for k in 0..o.n {
        if o.mode == "own" && k % 16 == 3 {
            writers(&scratch, k / 16);
            finish(&mut out, &fs);
        }
        if k == o.n / 2 {
            crate::age::age(&scratch, &mut r);
        }
        if k % 10 == 9 {
            fs = files(&scratch, &mut r, &prints);
        }
        let threads = r.range(2, 8) as usize;
        let rounds = r.range(1, 6) as usize;
        HOLD.store(k % 25 == 0, Ordering::SeqCst);
        let barrier = Barrier::new(threads);
        let plans: Vec<Vec<(usize, bool)>> = (0..threads)
            .map(|_| {
                let only = if r.chance(30) { Some(r.below(fs.paths.len())) } else { None };
                let own = if o.mode == "own" { *r.pick(&[100, 100, 80, 0]) } else { 0 };
                (0..rounds).map(|_| (only.unwrap_or_else(|| r.below(fs.paths.len())), r.chance(own))).collect()
            })
            .collect();
        // contexts may be copies of each other
        let common = own(COPY);
        let copies = r.chance(30);
        std::thread::scope(|s| {
            for (t, plan) in plans.iter().enumerate() {
                let (fs, prints, barrier) = (&fs, &prints, &barrier);
                let mut mine = if copies { common.clone() } else { own(t as u8 + 1) };
                s.spawn(move || {
                    barrier.wait();
                    for &(f, through_own) in plan {
                        open(t as i64 + 1, f, &fs.paths[f], if through_own { Some(&mut mine) } else { None }, prints);
                    }
                });
            }
        });
        open(1, 0, &fs.paths[0], None, &prints);
        finish(&mut out, &fs);
    }
    out.finish();
}
