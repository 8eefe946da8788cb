//! Drives the real lcms2 code and records what it does, one JSON object per line, for TLC to judge.
mod age;
mod context;
mod calls;
mod cost;
mod curve;
mod fault;
mod handles;
mod json;
mod named;
mod nested;
mod pieces;
mod profile;
mod shared;
mod snap;
mod stream;
mod util;
mod values;
use std::path::PathBuf;

#[global_allocator]
static HEAP: cost::Counting = cost::Counting;

fn main() {
    let mut args = std::env::args().skip(1);
    let family = args.next().expect("family");
    let mut o = util::Opts { out: PathBuf::from("."), shards: 1, seed: 1, n: 100, cases: None, mode: String::new(), flush: false };
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("value");
        match a.as_str() {
            "--out" => o.out = v().into(),
            "--shards" => o.shards = v().parse().unwrap(),
            "--seed" => o.seed = v().parse().unwrap(),
            "--n" => o.n = v().parse().unwrap(),
            "--cases" => o.cases = Some(v().into()),
            "--mode" => o.mode = v(),
            "--flush" => o.flush = true,
            x => panic!("unknown option {}", x),
        }
    }
    std::fs::create_dir_all(&o.out).unwrap();
    util::install(&o.out);
    if o.flush {
        util::name_calls(o.out.join("doing"));
    }
    match family.as_str() {
        "profile" => profile::run(&o),
        "fs" => profile::run_fs(&o),
        "handles" => handles::run(&o),
        "fault" => fault::run(&o),
        "values" => values::run(&o),
        "context" => context::run(&o),
        "curve" => curve::run(&o),
        "shared" => shared::run(&o),
        "nested" => nested::run(&o),
        "cost" => cost::run(&o),
        "calls" => calls::run(&o),
        "pieces" => pieces::run(&o),
        "snap" => snap::run(&o),
        "stream" => stream::run(&o),
        f => panic!("unknown family {}", f),
    }
}
