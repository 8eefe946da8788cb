//! Measures what operations cost: bytes read by the process, memory taken and kept.
use crate::profile::{good, random, Img, Spec};
use crate::util::*;
use lcms2::io::{AccessMode, FileMem, FileNull, IOHandler};
use lcms2::plugins::{ParametricCurvesCollection, Plugin, PluginType};
use lcms2::state::{Context, ErrorCode};
use lcms2::types::{Profile, Signature};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fs::File;
use std::io::SeekFrom;
use std::sync::Arc;

thread_local! {
    static NOW: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    /// the length of the file being opened
    static LEN: Cell<usize> = const { Cell::new(0) };
}
/// counts what each thread takes and gives back
pub struct Counting;
fn add(n: isize) {
    let _ = NOW.try_with(|c| {
        c.set(c.get() + n);
        let now = c.get();
        let _ = PEAK.try_with(|p| if now > p.get() { p.set(now) });
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() { add(l.size() as isize) }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() { add(l.size() as isize) }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as isize));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() { add(n as isize - l.size() as isize) }
        q
    }
}
/// bytes read and times reading
fn read_so_far() -> (u64, u64) {
    let s = std::fs::read_to_string("/proc/thread-self/io").unwrap_or_default();
    let of = |p: &str| s.lines().find_map(|l| l.strip_prefix(p).and_then(|x| x.trim().parse().ok())).unwrap_or(0);
    (of("rchar: "), of("syscr: "))
}
fn kib(n: i64) -> i64 {
    ((n + 1023) / 1024).min(1 << 30)
}

extern "C" {
    fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
}
/// how long this thread has been running, in microseconds
fn busy() -> i64 {
    let mut t = [0i64; 2];
    unsafe { clock_gettime(3, &mut t) };
    t[0] * 1_000_000 + t[1] / 1000
}
/// operations that took seconds: not many more are tried then
static SLOW: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// Runs an operation many times over; `own` is the number of bytes handed to it.
fn measure(out: &mut Shards, op: &str, shown: &str, own: usize, rounds: usize, mut f: impl FnMut() -> bool) {
    doing(|| format!("{} of {} (costs)", op, shown));
    // what reading the counter costs
    read_so_far();
    let a = read_so_far();
    let b = read_so_far();
    let overhead = (b.0 - a.0, b.1 - a.1);
    let mut worst_calls = 0i64;
    let mut least_time = i64::MAX;
    let begun = std::time::Instant::now();
    let mut worst_read = 0i64;
    let mut worst_peak = 0i64;
    let mut res = "ok";
    let mut start = 0;
    let mut done = 0;
    for k in 0..rounds {
        if k == 2 {
            // tables that are made once are there now
            start = NOW.with(|c| c.get());
        }
        let base = NOW.with(|c| c.get());
        PEAK.with(|p| p.set(base));
        let counted = k < 4;
        let before = if counted { read_so_far() } else { (0, 0) };
        let t = busy();
        let r = guard(&mut f);
        let t = busy() - t;
        least_time = least_time.min(t);
        if counted {
            let now = read_so_far();
            worst_read = worst_read.max(now.0.saturating_sub(before.0).saturating_sub(overhead.0) as i64);
            worst_calls = worst_calls.max(now.1.saturating_sub(before.1).saturating_sub(overhead.1) as i64);
        }
        worst_peak = worst_peak.max((PEAK.with(|p| p.get()) - base) as i64);
        match r {
            Ok(true) => (),
            Ok(false) => res = "refused",
            Err(()) => res = "panic",
        }
        done += 1;
        if least_time > 1_000_000 {
            SLOW.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            break;
        }
        if worst_read > 1 << 24 || worst_peak > 1 << 26 || (k > 2 && begun.elapsed().as_millis() > 2000) {
            break;
        }
    }
    let kept = if done > 2 { (NOW.with(|c| c.get()) - start) as i64 } else { 0 };
    out.history();
    out.line(&Obj::new("cost").bool("new", true).str("op", op).str("shown", shown).int("own", own.min(1 << 27) as i64).int("rounds", done as i64)
        .str("r", res).int("read", kib(worst_read)).int("calls", worst_calls.min(1 << 30)).int("len", LEN.with(|l| l.get()).min(1 << 20) as i64).int("time", least_time.min(1 << 30)).int("peak", kib(worst_peak)).int("kept", kib(kept.max(0))).end());
}
fn silent(_: &mut Context, _: ErrorCode, _: String) {}
fn chain(n: usize, bad: bool) -> Plugin {
    let mut next: Option<Arc<Plugin>> = None;
    for i in (0..n).rev() {
        let evaluator = <ParametricCurvesCollection as IntoIterator>::Item::default().evaluator;
        let data = PluginType::ParametricCurve { num_functions: 1, function_types: [0; 20], parameter_count: [0; 20], evaluator };
        let ty = if bad && i == n - 1 { *b"zzzz" } else { *b"parH" };
        let plug = Plugin { magic: Signature::new(b"acpp"), expected_version: 2131, r#type: Signature::new(&ty), next: next.take(), data };
        if i == 0 {
            return plug;
        }
        next = Some(Arc::new(plug));
    }
    unreachable!()
}
/// a directory whose numbers promise much
fn boastful(r: &mut Rng) -> Img {
    let mut h = good().pre[..128].to_vec();
    let big = *r.pick(&[u32::MAX, 0x7FFF_FFFF, 0x4000_0000, 0x1000_0000]);
    let num = |v: u32| if cfg!(feature = "little") { v.to_le_bytes() } else { v.to_be_bytes() };
    h[0..4].copy_from_slice(&num(big));
    let n = *r.pick(&[1usize, 50, 100]);
    let mut header = [0u8; 128];
    header.copy_from_slice(&h);
    let entries = (0..n).map(|i| (0x61616161 + i as u32, *r.pick(&[0, 128, 1 << 20]), big / 2)).collect();
    let s = Spec { header, count: *r.pick(&[n as u32, n as u32, u32::MAX, 0x1000_0000, 101]), entries };
    let len = *r.pick(&[132 + 12 * n, 1 << 20, 1 << 30, 1 << 32, 1 << 40, (1usize << 42) + 5]);
    Img { pre: s.bytes(), len }
}

/// everything happens on a thread with a small stack: what is kept there is memory as well
pub fn run(o: &Opts) {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(256 << 10).spawn_scoped(s, || on_little(o)).unwrap().join().unwrap();
    });
}
fn on_little(o: &Opts) {
    let mut out = Shards::new(&o.out, o.shards, &meta(), o.flush);
    let mut r = Rng::new(o.seed);
    let scratch = Scratch::new();
    let p = scratch.path("c.icc");
    let rounds = 1000;
    let mut ctx = Context::new(None);
    ctx.verif_set_error_handler(silent);
    for k in 0..o.n {
        if SLOW.load(std::sync::atomic::Ordering::Relaxed) > 2 {
            break;
        }
        let img = match k % 4 {
            0 => random(&mut r),
            1 | 2 => boastful(&mut r),
            _ => {
                let mut g = good();
                g.len = *r.pick(&[0usize, 100, 128, 131, 140, 160, 1 << 20, 1 << 36]);
                let n = g.pre.len();
                g.pre[r.below(n)] ^= 1 << r.below(8);
                g
            }
        };
        if guard(|| img.write(&p)).is_err() {
            continue;    // no room for files of this length here
        }
        let shown = format!("a file of {} bytes", img.len);
        LEN.with(|l| l.set(img.len));
        match k % 3 {
            0 => measure(&mut out, "open", &shown, 0, rounds, || Profile::open_from_file(&p, AccessMode::Read).is_ok()),
            1 => measure(&mut out, "open", &shown, 0, rounds, || Profile::open_from_file_thr(&mut ctx, &p, AccessMode::Read).is_ok()),
            _ => measure(&mut out, "open", &shown, 0, rounds, || {
                let mut c = Context::new(Some(vec![1, 2, 3].into_boxed_slice()));
                Profile::open_from_file_thr(&mut c, &p, AccessMode::Read).is_ok()
            }),
        }
        let a = guard(|| Profile::open_from_file_thr(&mut ctx, &p, AccessMode::Read).ok()).unwrap_or(None);
        if let Some(a) = a {
            let b = Profile::open_from_file_thr(&mut ctx, &p, AccessMode::Read).ok();
            let s = Signature::from(r.known_sig());
            measure(&mut out, "use", &shown, 0, rounds, || {
                (0..120).for_each(|i| {
                    a.get_tag_signature(i);
                });
                a.verif_search_tag(s, true);
                a.verif_search_tag(s, false);
                b.as_ref().map_or(true, |b| a == *b || a != *b)
            });
            measure(&mut out, "print", &shown, 1 << 16, 20, || !format!("{:?}", a).is_empty());
            let mut f = File::open(&p).unwrap();
            measure(&mut out, "size", &shown, 0, rounds, || {
                let n = f.reported_size().is_ok();
                f.seek(SeekFrom::End(0)).is_ok() && f.tell().is_ok() && f.seek(SeekFrom::Start(r.next() >> 2)).is_ok() && n
            });
        }
        let _ = std::fs::remove_file(&p);
        LEN.with(|l| l.set(0));
        let w = scratch.path("w.icc");
        measure(&mut out, "write", "a new file", 0, rounds, || Profile::open_from_file_thr(&mut ctx, &w, AccessMode::Write).is_ok());
        measure(&mut out, "open", "a missing file", 0, rounds, || Profile::open_from_file_thr(&mut ctx, scratch.path("nothing"), AccessMode::Read).is_ok());

        let at = r.word() >> 1;
        measure(&mut out, "null", &format!("position {}", at), 0, rounds, || {
            let mut f = FileNull::new();
            let a = f.seek(SeekFrom::Start(at)).is_ok();
            f.write_u32(7).is_ok() && f.read_u16().is_ok() && f.reported_size().is_ok() && f.seek(SeekFrom::End(-1)).is_ok() && a || true
        });
        let own = *r.pick(&[1usize, 100, 5000, 100_000]);
        let data = r.bytes(own);
        measure(&mut out, "null", &format!("{} bytes", own), own, 100, || {
            let mut f = FileNull::new();
            let mut b = data.clone();
            f.write(&data).is_ok() && f.read(&mut b).is_ok() && f.reported_size().is_ok()
        });
        measure(&mut out, "memory", &format!("{} bytes", own), own, 100, || {
            let mut f = FileMem::new(Vec::new());
            let mut b = vec![0u8; own];
            f.write(&data).is_ok() && f.seek(SeekFrom::Start(0)).is_ok() && f.read(&mut b).is_ok() && b == data && f.reported_size().is_ok()
        });
        measure(&mut out, "memory", &format!("position {} without a write", at), own, rounds, || {
            let mut f = FileMem::new(data.clone());
            f.seek(SeekFrom::Start(at)).is_ok() && f.reported_size().is_ok() && f.tell().is_ok() && f.seek(SeekFrom::End(0)).is_ok()
        });
        let q = scratch.path("stream");
        measure(&mut out, "disk", &format!("{} bytes", own), own, 50, || {
            let mut f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&q).unwrap();
            let mut b = vec![0u8; own];
            f.write(&data).is_ok() && f.seek(SeekFrom::Start(0)).is_ok() && f.read(&mut b).is_ok() && f.reported_size().is_ok() && f.close().is_ok()
        });
        measure(&mut out, "context", &format!("{} bytes of user data", own), own, rounds, || {
            let c = Context::new(Some(data.clone().into_boxed_slice()));
            let d = c.clone();
            let e = d.clone();
            drop(c);
            e.get_user_data().map_or(false, |u| u.len() == own)
        });
        let text = "x".repeat(own);
        measure(&mut out, "signal", &format!("{} bytes of text", own), own, rounds, || {
            ctx.signal_error(ErrorCode::Range, text.as_str());
            true
        });
        let n = *r.pick(&[1usize, 2, 7, 64]);
        for bad in [false, true] {
            let plugs = chain(n, bad);
            measure(&mut out, "register", &format!("{} plug-ins", n), n * 4096, if bad { rounds } else { 1 }, || {
                let mut c = ctx.clone();
                c.init_plugin(&plugs).is_ok()
            });
            measure(&mut out, "register", &format!("{} plug-ins on contexts of their own", n), n * 4096, rounds, || {
                let mut c = Context::new(None);
                c.init_plugin(&plugs).is_ok()
            });
        }
    }
    out.finish();
}
