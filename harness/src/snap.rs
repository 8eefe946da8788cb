//! Profiles that live on while their files, their contexts and other profiles come and go.
use crate::profile::{good, random, sibling, view_json, Img};
use crate::util::*;
use lcms2::io::AccessMode;
use lcms2::state::Context;
use lcms2::types::{Profile, Signature};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

fn all(p: &Profile) -> String {
    let t = p.verif_view().created;
    Obj::anon().raw("view", view_json(p)).raw("stamp", limbs(t.timestamp() as u64, 4)).int("nanos", t.timestamp_subsec_nanos() as i64)
        .bool("io", p.get_io_handler().is_some()).end()
}
fn look(n: usize, p: &Profile, after: &str, r: &mut Rng, sh: &mut Shards) {
    doing(|| format!("look at profile {} {}", n + 1, after));
    let extra = [r.next() as u32, 0x64657363];
    let res = guard(|| {
        let n = p.get_tag_count();
        let at = list((0..n).chain([n, 99, 100]).map(|i| format!("[{},{}]", i, limbs(u32::from(p.get_tag_signature(i)) as u64, 2))));
        let mut names: Vec<u32> = (0..n).map(|i| u32::from(p.get_tag_signature(i))).collect();
        names.extend(extra);
        names.sort();
        names.dedup();
        let f = |s: u32, follow| p.verif_search_tag(Signature::from(s), follow).map_or(0, |i| i as i64 + 1);
        let search = list(names.iter().map(|&s| format!("[{},{},{}]", limbs(s as u64, 2), f(s, false), f(s, true))));
        (all(p), at, search)
    });
    let o = Obj::new("slook").int("p", n as i64 + 1).str("after", after);
    sh.line(&match res {
        Ok((v, at, search)) => o.str("r", "ok").raw("all", v).raw("at", at).raw("search", search).end(),
        Err(()) => o.str("r", "panic").end(),
    });
}
fn open(p: &Path, write: bool, via: usize, ctxs: &mut [Context]) -> Result<std::io::Result<Box<Profile>>, ()> {
    let mode = || if write { AccessMode::Write } else { AccessMode::Read };
    guard(|| match via {
        0 => Profile::open_from_file(p, mode()),
        i => Profile::open_from_file_thr(&mut ctxs[i - 1], p, mode()),
    })
}
/// small enough to keep the traces short
fn small(r: &mut Rng) -> Img {
    loop {
        let i = random(r);
        if i.len < 1 << 18 && (i.pre.len() < 132 + 12 * 16 || r.chance(15)) {
            return i;
        }
    }
}

pub fn run(o: &Opts) {
    let mut r = Rng::new(o.seed ^ 0x5a4b);
    let scratch = Scratch::new();
    let mut sh = Shards::new(&o.out, o.shards, &meta(), o.flush);
    let mut ctxs: Vec<Context> = (0..2).map(|_| Context::new(None)).collect();
    let mut made = 0;
    for k in 0..o.n {
        if k == o.n / 2 {
            crate::age::age(&scratch, &mut r);
        }
        sh.history();
        sh.line(&Obj::new("snew").bool("new", true).end());
        let names = 3;
        let path = |i: usize| -> PathBuf { scratch.path(&format!("s{}", i)) };
        let mut images: Vec<Img> = (0..names).map(|_| small(&mut r)).collect();
        for (i, x) in images.iter().enumerate() {
            let _ = std::fs::remove_file(path(i));
            x.write(&path(i));
        }
        let mut held: Vec<Option<Box<Profile>>> = vec![];
        let mut after = String::from("being opened");
        for _ in 0..(8 + r.below(22)) {
            let live: Vec<usize> = (0..held.len()).filter(|&i| held[i].is_some()).collect();
            match r.below(20) {
                0 | 1 | 2 | 3 | 4 | 5 if held.len() < 9 => {
                    let i = r.below(names);
                    let write = r.chance(12);
                    let via = r.below(3);
                    doing(|| format!("open of {:?} for {}", path(i), if write { "writing" } else { "reading" }));
                    let res = open(&path(i), write, via, &mut ctxs);
                    let st = status(&res);
                    let mut e = Obj::new("sopen").str("r", &st).bool("write", write).int("via", via as i64);
                    if let Ok(Ok(p)) = res {
                        e = e.raw("all", all(&p));
                        held.push(Some(p));
                    } else {
                        e = e.raw("all", "[]");
                    }
                    sh.line(&e.end());
                    after = format!("after an open ({})", st);
                }
                6 | 7 | 8 => {
                    let i = r.below(names);
                    let p = path(i);
                    let how = match r.below(6) {
                        0 => {
                            let _ = std::fs::remove_file(&p);
                            "removed"
                        }
                        1 => {
                            if let Ok(f) = std::fs::OpenOptions::new().write(true).open(&p) {
                                f.set_len(r.below(200) as u64).unwrap();
                            }
                            "cut"
                        }
                        2 => {
                            // in place of the old one
                            let q = scratch.path(&format!("n{}", made));
                            made += 1;
                            images[i] = if r.chance(50) { sibling(&mut r, &images[i]) } else { small(&mut r) };
                            images[i].write(&q);
                            std::fs::rename(&q, &p).unwrap();
                            "replaced"
                        }
                        _ => {
                            images[i] = match r.below(4) {
                                0 => good(),
                                1 => small(&mut r),
                                _ => sibling(&mut r, &images[i]),
                            };
                            // over the old bytes
                            let w = std::fs::OpenOptions::new().write(true).create(true).open(&p);
                            drop(w);
                            images[i].write(&p);
                            "overwritten"
                        }
                    };
                    sh.line(&Obj::new("sput").str("how", how).int("i", i as i64).end());
                    after = format!("after a file was {}", how);
                }
                9 if !live.is_empty() => {
                    let i = *r.pick(&live);
                    let p = held[i].take();
                    let res = guard(|| drop(p));
                    sh.line(&Obj::new("sdrop").int("p", i as i64 + 1).str("r", if res.is_ok() { "ok" } else { "panic" }).end());
                    after = format!("after profile {} was dropped", i + 1);
                }
                10 if r.chance(40) => {
                    // nor does the rest of the process stay as it was
                    match r.below(5) {
                        0 | 1 => crate::age::environment(),
                        2 => crate::age::no_environment(),
                        3 => std::env::set_current_dir("/").unwrap(),
                        _ => std::env::set_current_dir(scratch.path("")).unwrap(),
                    }
                    sh.line(&Obj::new("sput").str("how", "environment").int("i", 0).end());
                    after = "after the environment changed".into();
                }
                10 => {
                    // the contexts need not live as long as the profiles
                    let i = r.below(ctxs.len());
                    ctxs[i] = if r.chance(50) { Context::new(None) } else { ctxs[1 - i].clone() };
                    sh.line(&Obj::new("sput").str("how", "context").int("i", i as i64).end());
                    after = "after a context was dropped".into();
                }
                11 | 12 if !live.is_empty() => {
                    let (i, j) = (*r.pick(&live), *r.pick(&live));
                    let eq = guard(|| held[i] == held[j]).map_or("\"panic\"".to_string(), |b| b.to_string());
                    sh.line(&Obj::new("seq").int("p", i as i64 + 1).int("q", j as i64 + 1).raw("eq", eq).end());
                    after = "after a comparison".into();
                }
                _ if !live.is_empty() => {
                    let i = *r.pick(&live);
                    look(i, held[i].as_ref().unwrap(), &after, &mut r, &mut sh);
                    after = "after being looked at".into();
                }
                _ => (),
            }
        }
        if k % 8 == 0 {
            // others open and drop profiles meanwhile
            let stop = Arc::new(AtomicBool::new(false));
            let hands: Vec<_> = (0..3)
                .map(|t| {
                    let stop = stop.clone();
                    let files: Vec<PathBuf> = (0..4)
                        .map(|i| {
                            let p = scratch.path(&format!("t{}-{}", t, i));
                            if i == 0 { good() } else { small(&mut r) }.write(&p);
                            p
                        })
                        .collect();
                    std::thread::spawn(move || {
                        let mut c = Context::new(None);
                        let mut keep = vec![];
                        for i in 0.. {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let p = Profile::open_from_file_thr(&mut c, &files[i % 4], AccessMode::Read);
                            if i % 3 == 0 {
                                keep.push(p.ok());
                                keep.truncate(5);
                            }
                        }
                    })
                })
                .collect();
            for _ in 0..3 {
                for i in 0..held.len() {
                    if let Some(p) = &held[i] {
                        look(i, p, "while others open profiles", &mut r, &mut sh);
                    }
                }
            }
            stop.store(true, Ordering::Relaxed);
            for h in hands {
                let _ = h.join();
            }
        }
        for i in 0..held.len() {
            if let Some(p) = &held[i] {
                look(i, p, &after, &mut r, &mut sh);
            }
        }
        for i in 0..held.len() {
            if let Some(p) = held[i].take() {
                let res = guard(|| drop(p));
                sh.line(&Obj::new("sdrop").int("p", i as i64 + 1).str("r", if res.is_ok() { "ok" } else { "panic" }).end());
            }
        }
    }
    std::env::set_current_dir("/").unwrap();
    sh.finish();
}
