//! A long life: tens of thousands of unrecorded calls of everything, so that what is recorded after
//! them meets a library that has been in use for a while.
use crate::profile::{good, num32, random, Img};
use crate::util::*;
use lcms2::io::{AccessMode, FileMem, FileNull, IOHandler};
use lcms2::plugins::{ParametricCurvesCollection, Plugin, PluginType};
use lcms2::state::{Context, ErrorCode};
use lcms2::types::{Profile, Signature};
use std::io::SeekFrom;

fn refuse(_: i32, _: &[f64], _: f64) -> f64 {
    0.0
}
fn panicking(_: &mut Context, _: ErrorCode, _: String) {
    panic!("aged");
}
fn plugin(magic: u32) -> Plugin {
    Plugin {
        magic: Signature::from(magic),
        expected_version: 2100,
        r#type: Signature::new(b"parH"),
        next: None,
        data: PluginType::ParametricCurve { num_functions: 0, function_types: [0; 20], parameter_count: [0; 20], evaluator: refuse },
    }
}
pub fn age(s: &Scratch, r: &mut Rng) {
    doing(|| "tens of thousands of calls of everything".into());
    environment();
    let _ = guard(|| live(s, r));
}
static OURS: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(vec![]);
/// or not any more
pub fn no_environment() {
    for n in OURS.lock().unwrap().drain(..) {
        std::env::remove_var(n);
    }
}
/// what the library may ask its environment for is there from now on
pub fn environment() {
    for name in known_texts() {
        let name = String::from_utf8_lossy(&name).to_string();
        let plain = name.bytes().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit() || b == b'_');
        if plain && name.len() > 1 && !name.as_bytes()[0].is_ascii_digit() && std::env::var_os(&name).is_none() {
            std::env::set_var(&name, "1");
            OURS.lock().unwrap().push(name);
        }
    }
}
fn live(s: &Scratch, r: &mut Rng) {
    let mut imgs = vec![good()];
    let mut g = good();
    g.pre[36] ^= 1;
    imgs.push(g);
    let mut g = good();
    g.pre[27] = 13;
    imgs.push(g);
    let mut g = good();
    g.pre.truncate(132);
    g.pre[128..132].copy_from_slice(&num32(101));
    imgs.push(g);
    let mut g = good();
    g.len = 130;
    imgs.push(g);
    for _ in 0..4 {
        let i = random(r);
        if i.pre.len() < 500 && i.len < 1 << 20 {
            imgs.push(i);
        }
    }
    let paths: Vec<_> = imgs.iter().enumerate().map(|(n, i): (usize, &Img)| {
        let p = s.path(&format!("aged{}", n));
        i.write(&p);
        p
    }).collect();
    let mut ctx = Context::new(Some(vec![99].into_boxed_slice()));
    let mut last: Option<Box<Profile>> = None;
    for i in 0..66_000usize {
        let p = &paths[i % paths.len()];
        if let Ok(p) = Profile::open_from_file_thr(&mut ctx, p, AccessMode::Read) {
            if i % 16 == 0 {
                if let Some(q) = &last {
                    let _ = *q == p;
                }
                let _ = p.verif_search_tag(Signature::new(b"desc"), true);
                let _ = p.verif_search_tag(p.get_tag_signature(0), false);
                last = Some(p);
            }
        }
    }
    let w = s.path("aged-w");
    for _ in 0..2000 {
        let _ = Profile::open_from_file_thr(&mut ctx, &w, AccessMode::Write);
        let _ = Profile::open_from_file_thr(&mut ctx, s.path("aged-missing"), AccessMode::Read);
        let _ = Profile::new();
    }
    let _ = std::fs::remove_file(&w);
    let (fine, wrong) = (plugin(0x61637070), plugin(0));
    for i in 0..66_000 {
        ctx.signal_error([ErrorCode::Range, ErrorCode::File, ErrorCode::BadSignature][i % 3], "aged");
        if i % 8 == 0 {
            let _ = ctx.init_plugin(&fine);
            let _ = ctx.init_plugin(&wrong);
            let _ = ctx.clone();
            let _ = Context::new(None).get_user_data();
        }
    }
    // handlers may panic
    let mut rough = Context::new(None);
    rough.verif_set_error_handler(panicking);
    for i in 0..600 {
        let p = &paths[i % paths.len()];
        let _ = guard(|| match i % 3 {
            0 => rough.signal_error(ErrorCode::Range, "aged"),
            1 => drop(rough.init_plugin(&wrong)),
            _ => drop(Profile::open_from_file_thr(&mut rough, p, AccessMode::Read)),
        });
    }
    for p in &paths {
        let _ = std::fs::remove_file(p);
    }
    let set = <ParametricCurvesCollection as IntoIterator>::Item::default();
    for i in 0..66_000 {
        let t = [1, 2, 3, 4, 5, 6, 7, 8, 108, 109][i % 10];
        let _ = (set.evaluator)(if i % 2 == 0 { t } else { -t }, &[2.0, 1.0, 0.5, 0.25, 0.1, 0.0, 0.0], 0.5);
        let _ = set.is_in_set(t);
    }
    let mut null = FileNull::new();
    let mut mem = FileMem::new(vec![0u8; 64]);
    let f = s.path("aged-f");
    let mut file = std::fs::File::create(&f).unwrap();
    let all: [&mut dyn IOHandler; 3] = [&mut null, &mut mem, &mut file];
    for (n, h) in all.into_iter().enumerate() {
        for i in 0..if n == 2 { 2000u64 } else { 20_000 } {
            let _ = h.seek(SeekFrom::Start(i % 40));
            let _ = h.write_u64(i);
            let _ = h.write_u16_array(&[1, 2]);
            let _ = h.write_s15f16(1.5);
            let _ = h.seek(SeekFrom::Current(-4));
            let _ = h.read_s15f16();
            let _ = h.reported_size();
            let _ = h.tell();
        }
    }
    let _ = std::fs::remove_file(&f);
}
