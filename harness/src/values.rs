//! Conversions of values: byte order, signatures, dates, header and directory entry.
use crate::json;
use crate::profile::{bad_date, days, valid_date};
use crate::util::*;
use chrono::{Datelike, NaiveDate, NaiveDateTime, Timelike};
use lcms2::io;
use lcms2::types::*;

pub fn run(o: &Opts) {
    let mut out = Shards::new(&o.out, o.shards, &meta(), o.flush);
    let mut r = Rng::new(o.seed);
    let cases: Vec<json::J> = match &o.cases {
        Some(c) => std::fs::read_to_string(c).unwrap().lines().map(json::parse).collect(),
        None => Vec::new(),
    };
    match o.mode.as_str() {
        "adj" => adj(o, &mut out, &mut r),
        "sig" => sig(o, &mut out, &mut r, &cases),
        "date" => date(o, &mut out, &mut r, &cases),
        "codec" => codec(o, &mut out, &mut r),
        "print" => print(o, &mut out, &mut r),
        "equal" => equal(o, &mut out, &mut r),
        m => panic!("unknown mode {}", m),
    }
    out.finish();
}

macro_rules! helpers {
    ($out:ident, $name:expr, $m:path, $v:expr) => {{
        use $m as m;
        let v: u64 = $v;
        {
            let b = (v as u16).to_ne_bytes();
            let n = u16::from_ne_bytes(b);
            one($out, $name, &b, &m::adjust_endianness_16(b), &m::adjust_endianness_16(m::adjust_endianness_16(b)),
                &m::adjust_endianness_u16(n).to_ne_bytes(), &m::adjust_endianness_u16(m::adjust_endianness_u16(n)).to_ne_bytes());
        }
        {
            let b = (v as u32).to_ne_bytes();
            let n = u32::from_ne_bytes(b);
            one($out, $name, &b, &m::adjust_endianness_32(b), &m::adjust_endianness_32(m::adjust_endianness_32(b)),
                &m::adjust_endianness_u32(n).to_ne_bytes(), &m::adjust_endianness_u32(m::adjust_endianness_u32(n)).to_ne_bytes());
        }
        {
            let b = v.to_ne_bytes();
            let n = u64::from_ne_bytes(b);
            one($out, $name, &b, &m::adjust_endianness_64(b), &m::adjust_endianness_64(m::adjust_endianness_64(b)),
                &m::adjust_endianness_u64(n).to_ne_bytes(), &m::adjust_endianness_u64(m::adjust_endianness_u64(n)).to_ne_bytes());
        }
    }};
}
fn one(out: &mut Shards, name: &str, b: &[u8], arr: &[u8], arr2: &[u8], int: &[u8], int2: &[u8]) {
    out.line(&Obj::new("adj").str("mod", name).bytes("in", b).bytes("arr", arr).bytes("arr2", arr2)
        .bytes("int", int).bytes("int2", int2).end());
}
fn adj(o: &Opts, out: &mut Shards, r: &mut Rng) {
    let fixed: Vec<u64> = vec![0, 1, u64::MAX, 0x0102030405060708, 0xFF, 0x8000_0000_0000_0000, 0x7FFF_FFFF_FFFF_FFFF];
    for k in 0..o.n {
        let v = if k < fixed.len() { fixed[k] } else if k % 3 == 0 { k as u64 * 0x0001_0001_0001_0001 } else { r.word() };
        out.history();
        helpers!(out, "be", io::big_endian, v);
        helpers!(out, "le", io::little_endian, v);
        helpers!(out, "default", io, v);
    }
}

fn sig_event(out: &mut Shards, how: &str, input: &[u8], f: impl FnOnce() -> Signature) {
    doing(|| format!("signature from {} {:?}", how, input));
    let res = guard(|| {
        let s = f();
        let n: u32 = s.into();
        let b: [u8; 4] = s.into();
        let t: String = s.into();
        let again = [Signature::from(n) == s, Signature::from(&b) == s];
        let ta = Signature::from(t.as_str()) == s;
        (n, b, t, again, ta)
    });
    let e = Obj::new("sig").str("how", how).bytes("in", input);
    out.line(&match res {
        Ok((n, b, t, again, ta)) => e.str("r", "ok").bytes("num", &n.to_be_bytes()).bytes("bytes", &b).bytes("text", t.as_bytes())
            .list("again", again.iter().map(|x| x.to_string())).bool("textagain", ta).end(),
        Err(()) => e.str("r", "panic").end(),
    });
}
fn all_ways(out: &mut Shards, b: &[u8]) {
    sig_event(out, "slice", b, || Signature::from(b));
    if let Ok(s) = std::str::from_utf8(b) {
        sig_event(out, "str", b, || Signature::from(s));
    }
    match b.len() {
        1 => sig_event(out, "b1", b, || Signature::from(&[b[0]])),
        2 => sig_event(out, "b2", b, || Signature::from(&[b[0], b[1]])),
        3 => sig_event(out, "b3", b, || Signature::from(&[b[0], b[1], b[2]])),
        4 => {
            let a = [b[0], b[1], b[2], b[3]];
            sig_event(out, "b4", b, || Signature::from(&a));
            sig_event(out, "new", b, || Signature::new(&a));
            sig_event(out, "u32", b, || Signature::from(u32::from_be_bytes(a)));
        }
        _ => {}
    }
}
fn utf8_four(r: &mut Rng) -> Vec<u8> {
    let mut s = String::new();
    while s.len() < 4 {
        s.push(match r.below(5) {
            0 => char::from_u32(r.range(0, 0x7f) as u32).unwrap(),
            1 => *r.pick(&['é', '\u{80}', '\u{7ff}', 'ß']),
            2 => *r.pick(&['€', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}']),
            3 => *r.pick(&['\u{10000}', '\u{10ffff}', '😀']),
            _ => char::from_u32(r.range(0x20, 0x7e) as u32).unwrap(),
        });
    }
    s.into_bytes()
}
fn any_bytes(r: &mut Rng) -> Vec<u8> {
    match if r.chance(4) { 5 } else { r.below(5) } {
        5 => {
            // long texts: lengths around every power of two
            let n = (1usize << r.range(6, 10)) + r.below(9) - 4;
            (0..n).map(|_| r.range(0x20, 0x7e) as u8).collect()
        }
        0 => {
            let n = r.below(7);
            r.bytes(n)
        }
        1 => utf8_four(r),
        2 if r.chance(20) => {
            // something known, and something after it
            let mut t = r.known_text().into_bytes();
            let n = r.below(4);
            t.extend((0..n).map(|_| r.range(0x20, 0x7e) as u8));
            t
        }
        2 => (r.word() as u32).to_be_bytes().to_vec(),
        3 => {
            let n = r.below(40);
            (0..n).map(|_| r.range(0x20, 0x7e) as u8).collect()
        }
        _ => {
            let n = r.range(0, 4) as usize;
            (0..n).map(|_| *r.pick(&[0u8, 0x20, 0x41, 0x7f, 0x80, 0xff])).collect()
        }
    }
}
fn sig(o: &Opts, out: &mut Shards, r: &mut Rng, cases: &[json::J]) {
    for c in cases.iter().filter(|c| c.has("sig")) {
        out.history();
        all_ways(out, &c.get("sig").bytes());
    }
    out.history();
    sig_event(out, "default", b"    ", Signature::default);
    for (name, s) in crate::named::named() {
        let b: [u8; 4] = s.into();
        out.line(&Obj::new("named").str("name", name).str("is", &String::from_utf8_lossy(&b)).end());
    }
    for t in known_texts() {
        out.history();
        all_ways(out, &t);
    }
    for _ in 0..o.n {
        out.history();
        let a = any_bytes(r);
        all_ways(out, &a);
        let b = match r.below(4) {
            0 => any_bytes(r),
            1 => a.clone(),
            2 => {
                let mut b = a.clone();
                b.push(0x20);
                b
            }
            _ => {
                let mut b = a.clone();
                if !b.is_empty() {
                    let i = r.below(b.len());
                    b[i] ^= 1 << r.below(8);
                }
                b
            }
        };
        if let Ok((eq, sym)) = guard(|| {
            let (x, y) = (Signature::from(a.as_slice()), Signature::from(b.as_slice()));
            (x == y, y == x)
        }) {
            out.line(&Obj::new("sigeq").bytes("a", &a).bytes("b", &b).bool("eq", eq).bool("sym", sym).end());
        }
    }
}

fn six(d: &DateTimeNumber) -> [u16; 6] {
    [d.year, d.month, d.day, d.hours, d.minutes, d.seconds]
}
fn nums(v: &[u16]) -> String {
    list(v.iter().map(|x| x.to_string()))
}
fn date_event(out: &mut Shards, d: [u16; 6]) {
    doing(|| format!("date {:?}", d));
    let n = DateTimeNumber { year: d[0], month: d[1], day: d[2], hours: d[3], minutes: d[4], seconds: d[5] };
    let res = guard(|| {
        let c: NaiveDateTime = n.into();
        let back: DateTimeNumber = c.into();
        (c, back)
    });
    let e = Obj::new("date").raw("d", nums(&d));
    out.line(&match res {
        Ok((c, back)) => e.str("r", "ok")
            .raw("to", format!("[{},{},{},{},{},{},{}]", c.year(), c.month(), c.day(), c.hour(), c.minute(), c.second(), c.nanosecond()))
            .raw("back", nums(&six(&back))).end(),
        Err(()) => e.str("r", "panic").end(),
    });
}
/// six numbers that need not be a date
fn opt_event(out: &mut Shards, d: [u16; 6]) {
    doing(|| format!("date or not {:?}", d));
    let n = DateTimeNumber { year: d[0], month: d[1], day: d[2], hours: d[3], minutes: d[4], seconds: d[5] };
    let e = Obj::new("opt").raw("d", nums(&d));
    out.line(&match guard(|| n.to_naive_date_time()) {
        Ok(Some(c)) => e.str("r", "some")
            .raw("to", format!("[{},{},{},{},{},{},{}]", c.year(), c.month(), c.day(), c.hour(), c.minute(), c.second(), c.nanosecond())).end(),
        Ok(None) => e.str("r", "none").end(),
        Err(()) => e.str("r", "panic").end(),
    });
}
fn ndate_event(out: &mut Shards, d: [u16; 6], nanos: u32) {
    let c = match NaiveDate::from_ymd_opt(d[0] as i32, d[1] as u32, d[2] as u32)
        .and_then(|x| x.and_hms_nano_opt(d[3] as u32, d[4] as u32, d[5] as u32, nanos)) {
        Some(c) => c,
        None => return,
    };
    let e = Obj::new("ndate").raw("in", format!("[{},{},{},{},{},{},{}]", d[0], d[1], d[2], d[3], d[4], d[5], nanos));
    out.line(&match guard(|| DateTimeNumber::from(c)) {
        Ok(n) => e.str("r", "ok").raw("out", nums(&six(&n))).end(),
        Err(()) => e.str("r", "panic").end(),
    });
}
fn date(o: &Opts, out: &mut Shards, r: &mut Rng, cases: &[json::J]) {
    for c in cases.iter().filter(|c| c.has("date")) {
        out.history();
        let d: Vec<u16> = c.get("date").arr().iter().map(|x| x.int() as u16).collect();
        if (d[2] as i64) > days(d[0] as i64, d[1] as i64) {
            opt_event(out, [d[0], d[1], d[2], 12, 0, 0]);
            continue;
        }
        let t = *r.pick(&[[0u16, 0, 0], [23, 59, 59], [12, 0, 59], [0, 59, 1], [13, 1, 0]]);
        let all = [d[0], d[1], d[2], t[0], t[1], t[2]];
        date_event(out, all);
        opt_event(out, all);
        ndate_event(out, all, *r.pick(&[0, 1, 499_999_999, 500_000_000, 999_999_999, 1_000_000_000, 1_999_999_999]));
    }
    for _ in 0..o.n {
        out.history();
        let d = valid_date(r);
        date_event(out, d);
        opt_event(out, if r.chance(50) { d } else { bad_date(r) });
        ndate_event(out, d, r.range(0, 999_999_999) as u32);
    }
}

fn be<const N: usize>(b: [u8; N]) -> Vec<u8> {
    b.to_vec()
}
fn sg(s: Signature) -> Vec<u8> {
    u32::from(s).to_be_bytes().to_vec()
}
fn header_fields(h: &ICCHeader) -> Vec<Vec<u8>> {
    let d = six(&h.date);
    vec![
        be(h.size.to_be_bytes()), sg(h.cmm_id), be(h.version.to_be_bytes()), sg(h.device_class), sg(h.color_space), sg(h.pcs),
        d.iter().flat_map(|x| x.to_be_bytes()).collect(), sg(h.magic), sg(h.platform), be(h.flags.to_be_bytes()),
        sg(h.manufacturer), be(h.model.to_be_bytes()), be(h.attributes.to_be_bytes()), be(h.rendering_intent.to_be_bytes()),
        [h.illuminant.x, h.illuminant.y, h.illuminant.z].iter().flat_map(|x| x.to_be_bytes()).collect(),
        sg(h.creator), unsafe { h.profile_id.id8.to_vec() }, h.reserved.to_vec(),
    ]
}
fn entry_fields(t: &TagEntry) -> Vec<Vec<u8>> {
    vec![sg(t.sig), be(t.offset.to_be_bytes()), be(t.size.to_be_bytes())]
}
fn fields(v: &[Vec<u8>]) -> String {
    list(v.iter().map(|x| bytes(x)))
}
fn interesting(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(4) {
        0 => (0..n).map(|i| i as u8 + 1).collect(),
        1 => r.bytes(n),
        2 => {
            let mut v = vec![if r.chance(50) { 0 } else { 255 }; n];
            let i = r.below(n);
            v[i] = r.byte();
            v
        }
        _ => r.bytes(n).iter().map(|b| if b & 3 == 0 { 0 } else { b | 0x80 }).collect(),
    }
}
/// a header from its bytes, and those from the header
fn header_both(out: &mut Shards, b: [u8; 128]) {
    let e = Obj::new("dec").str("what", "header").bytes("in", &b);
    let mut made = None;
    out.line(&match guard(|| {
        let h = verif::header_from_bytes(b);
        (h, verif::header_to_bytes(h))
    }) {
        Ok((h, enc)) => {
            made = Some(h);
            e.str("r", "ok").raw("fields", fields(&header_fields(&h))).bytes("enc", &enc).end()
        }
        Err(()) => e.str("r", "panic").end(),
    });
    if let Some(h) = made {
        header_out(out, h);
    }
}
fn header_out(out: &mut Shards, h: ICCHeader) {
    let e = Obj::new("enc").str("what", "header").raw("fields", fields(&header_fields(&h)));
    out.line(&match guard(|| {
        let b = verif::header_to_bytes(h);
        (b, verif::header_from_bytes(b))
    }) {
        Ok((b, back)) => e.str("r", "ok").bytes("out", &b).raw("back", fields(&header_fields(&back))).bool("same", back == h).end(),
        Err(()) => e.str("r", "panic").end(),
    });
}
fn codec(o: &Opts, out: &mut Shards, r: &mut Rng) {
    // what the library has names for, in every field that could have it
    let (few, all) = (known_sigs(12), known_sigs(1 << 20));
    for (i, &at) in crate::profile::SIGNED.iter().enumerate() {
        for (j, &sig) in few.iter().chain(&all).enumerate() {
            if j >= few.len() && j % 8 != i {
                continue;
            }
            let mut b = match j % 3 {
                0 => [0u8; 128],
                _ => crate::profile::some_header(r),
            };
            b[at..at + 4].copy_from_slice(&sig.to_be_bytes());
            out.history();
            header_both(out, b);
        }
    }
    for k in 0..o.n {
        out.history();
        // bytes -> fields -> bytes
        let mut b = [0u8; 128];
        b.copy_from_slice(&interesting(r, 128));
        if k % 2 == 0 {
            b = crate::profile::some_header(r);
        }
        header_both(out, b);
        let mut b = [0u8; 12];
        b.copy_from_slice(&interesting(r, 12));
        let e = Obj::new("dec").str("what", "entry").bytes("in", &b);
        out.line(&match guard(|| {
            let t = verif::tag_entry_from_bytes(b);
            (t, verif::tag_entry_to_bytes(t))
        }) {
            Ok((t, enc)) => e.str("r", "ok").raw("fields", fields(&entry_fields(&t))).bytes("enc", &enc).end(),
            Err(()) => e.str("r", "panic").end(),
        });
        // fields -> bytes -> fields
        let mut id = [0u8; 16];
        id.copy_from_slice(&r.bytes(16));
        let mut reserved = [0u8; 28];
        reserved.copy_from_slice(&r.bytes(28));
        let mut w = || r.word() as u32;
        let h = ICCHeader {
            size: w(), cmm_id: w().into(), version: w(), device_class: w().into(), color_space: w().into(), pcs: w().into(),
            date: DateTimeNumber { year: w() as u16, month: w() as u16, day: w() as u16, hours: w() as u16, minutes: w() as u16, seconds: w() as u16 },
            magic: w().into(), platform: w().into(), flags: w(), manufacturer: w().into(), model: w(),
            attributes: ((w() as u64) << 32) | w() as u64, rendering_intent: w(),
            illuminant: EncodedXYZNumber { x: w() as i32, y: w() as i32, z: w() as i32 },
            creator: w().into(), profile_id: ProfileID { id8: id }, reserved,
        };
        header_out(out, h);
        let mut w = || r.word() as u32;
        let t = TagEntry { sig: w().into(), offset: w(), size: w() };
        let e = Obj::new("enc").str("what", "entry").raw("fields", fields(&entry_fields(&t)));
        out.line(&match guard(|| {
            let b = verif::tag_entry_to_bytes(t);
            (b, verif::tag_entry_from_bytes(b))
        }) {
            Ok((b, back)) => e.str("r", "ok").bytes("out", &b).raw("back", fields(&entry_fields(&back))).bool("same", back == t).end(),
            Err(()) => e.str("r", "panic").end(),
        });
    }
}

fn print_event(out: &mut Shards, what: &str, b: &[u8], f: impl FnOnce() -> String) {
    doing(|| format!("printing a {} {:?}", what, b));
    // the pretty forms
    let (what, pretty) = (what.trim_end_matches('+'), what.ends_with('+'));
    let e = Obj::new("print").str("what", what).bool("pretty", pretty).bytes("b", b);
    out.line(&match guard(f) {
        Ok(t) if matches!(what, "signature" | "id") => e.str("r", "ok").bytes("text", t.as_bytes()).str("shown", &t).end(),
        Ok(t) => e.str("r", "ok").str("shown", &t).end(),
        Err(()) => e.str("r", "panic").end(),
    });
}
/// the like of it: the same digits and bytes in another arrangement
fn vary(r: &mut Rng, b: &mut [u8]) {
    let n = b.len();
    let (i, j) = (r.below(n), r.below(n));
    match r.below(8) {
        0 => b.swap(i, j),
        1 => b[i] = b[i].rotate_left(4),
        2 => {
            // exchange a digit with a neighbour's
            let (x, y) = (b[i], b[(i + 1) % n]);
            b[i] = (x & 0xF0) | (y >> 4);
            b[(i + 1) % n] = (x << 4) | (y & 0x0F);
        }
        3 => b[i] ^= 1 << r.below(8),
        4 => b[i] &= 0x0F,
        5 => b[i] ^= 0x20,
        6 => b[i] = *r.pick(&[0u8, 1, 0x10, 0x20, 0x22, 0x5c, 0x7f, 0x80, 0xff, b'\n', b'\'']),
        _ => b.rotate_left(1),
    }
}
/// values of several parts, and others with one part changed
fn print_parts(out: &mut Shards, r: &mut Rng, what: &str) {
    let n = match what { "header" => 128, _ => 12 };
    let mut b = if r.chance(60) { r.bytes(n) } else { (0..n).map(|_| if r.chance(80) { 0 } else { r.byte() & 0x1F }).collect() };
    if what == "date" && r.chance(60) {
        b = crate::profile::valid_date(r).iter().flat_map(|x| x.to_be_bytes()).collect();
    }
    let w = |b: &[u8], i: usize| u16::from_be_bytes([b[i], b[i + 1]]);
    let d = |b: &[u8], i: usize| u32::from_be_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
    for _ in 0..(3 + r.below(if n == 12 { 14 } else { 5 })) {
        let pretty = r.chance(30);
        let shown = |x: &dyn std::fmt::Debug| if pretty { format!("{:#?}", x) } else { format!("{:?}", x) };
        let name = if pretty { format!("{}+", what) } else { what.to_string() };
        print_event(out, &name, &b, || match what {
            "header" => shown(&verif::header_from_bytes(b.clone().try_into().unwrap())),
            "entry" => shown(&TagEntry { sig: Signature::from(d(&b, 0)), offset: d(&b, 4), size: d(&b, 8) }),
            "date" => shown(&DateTimeNumber { year: w(&b, 0), month: w(&b, 2), day: w(&b, 4), hours: w(&b, 6), minutes: w(&b, 8), seconds: w(&b, 10) }),
            _ => shown(&EncodedXYZNumber { x: d(&b, 0) as i32, y: d(&b, 4) as i32, z: d(&b, 8) as i32 }),
        });
        if r.chance(50) {
            vary(r, &mut b);
        } else {
            // one number a little or a lot larger or smaller
            let i = 2 * r.below(n / 2);
            let by = *r.pick(&[1u16, 2, 10, 12, 24, 60, 100, 1000, 1900, 10_000, 32_768]);
            let v = if r.chance(50) { w(&b, i).wrapping_add(by) } else { w(&b, i).wrapping_sub(by) };
            b[i..i + 2].copy_from_slice(&v.to_be_bytes());
        }
    }
}
fn print(o: &Opts, out: &mut Shards, r: &mut Rng) {
    for k in 0..o.n {
        out.history();
        out.line(&Obj::new("pnew").bool("new", true).end());
        if k % 4 == 3 {
            let what = match r.below(16) { 0 => "header", 1..=5 => "entry", 6..=9 => "colour", _ => "date" };
            print_parts(out, r, what);
            continue;
        }
        if k % 3 == 2 {
            let mut b = if k % 2 == 0 { r.bytes(16) } else { vec![r.byte() & 0x1F; 16] };
            for _ in 0..(2 + r.below(8)) {
                let id = ProfileID { id8: b.clone().try_into().unwrap() };
                print_event(out, "id", &b, || format!("{:?}", id));
                print_event(out, "id+", &b, || format!("{:#?}", id));
                vary(r, &mut b);
            }
        } else {
            let mut b = any_bytes(r);
            b.resize(4, r.byte());
            for _ in 0..(3 + r.below(12)) {
                let s = Signature::from(&[b[0], b[1], b[2], b[3]]);
                print_event(out, "signature", &b, || format!("{:?}", s));
                print_event(out, "signature+", &b, || format!("{:#?}", s));
                vary(r, &mut b);
            }
        }
        // printing anything else
        if k % 5 == 0 {
            print_event(out, "profile", &[], || format!("{:?} {:#?}", Profile::new(), Profile::new()));
        }
    }
}

/// x == y, y == x, x != y, x == x, and a copy of x == x
fn five<T: PartialEq + Clone>(x: &T, y: &T) -> Result<[bool; 5], ()> {
    guard(|| [x == y, y == x, x != y, x == x, x.clone() == *x])
}
fn equal_event(out: &mut Shards, what: &str, a: String, b: String, f: impl FnOnce() -> Result<[bool; 5], ()>) {
    doing(|| format!("comparing two of {}: {} and {}", what, a, b));
    let e = Obj::new("equal").str("what", what).raw("a", a).raw("b", b);
    out.line(&match f() {
        Ok(x) => e.str("r", "ok").list("is", x.iter().map(|x| x.to_string())).end(),
        Err(()) => e.str("r", "panic").end(),
    });
}
/// values as bytes; what they are made of is compared in the specification
fn bytes_alike(out: &mut Shards, n: usize, a: &[u8], b: &[u8]) {
    let w = |b: &[u8], i: usize| u16::from_be_bytes([b[i], b[i + 1]]);
    let d = |b: &[u8], i: usize| u32::from_be_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
    match n {
        128 => {
            let (x, y) = (verif::header_from_bytes(a.try_into().unwrap()), verif::header_from_bytes(b.try_into().unwrap()));
            equal_event(out, "header", fields(&header_fields(&x)), fields(&header_fields(&y)), || five(&x, &y));
        }
        12 if a[0] & 1 == 0 => {
            let e = |b: &[u8]| TagEntry { sig: Signature::from(d(b, 0)), offset: d(b, 4), size: d(b, 8) };
            let (x, y) = (e(a), e(b));
            equal_event(out, "entry", fields(&entry_fields(&x)), fields(&entry_fields(&y)), || five(&x, &y));
        }
        12 => {
            let c = |b: &[u8]| EncodedXYZNumber { x: d(b, 0) as i32, y: d(b, 4) as i32, z: d(b, 8) as i32 };
            let p = |c: &EncodedXYZNumber| list([c.x, c.y, c.z].iter().map(|v| bytes(&v.to_be_bytes())));
            let (x, y) = (c(a), c(b));
            equal_event(out, "encoded colour", p(&x), p(&y), || five(&x, &y));
            let t = |b: &[u8]| DateTimeNumber { year: w(b, 0), month: w(b, 2), day: w(b, 4), hours: w(b, 6), minutes: w(b, 8), seconds: w(b, 10) };
            let p = |t: &DateTimeNumber| list(six(t).iter().map(|v| bytes(&v.to_be_bytes())));
            let (x, y) = (t(a), t(b));
            equal_event(out, "date", p(&x), p(&y), || five(&x, &y));
        }
        16 => {
            let i = |b: &[u8]| ProfileID { id8: b.try_into().unwrap() };
            let p = |i: &ProfileID| list(unsafe { i.id8 }.iter().map(|v| bytes(&[*v])));
            let (x, y) = (i(a), i(b));
            equal_event(out, "ID", p(&x), p(&y), || five(&x, &y));
        }
        _ => {
            let (x, y) = (Signature::from(d(a, 0)), Signature::from(d(b, 0)));
            equal_event(out, "signature", fields(&[sg(x)]), fields(&[sg(y)]), || five(&x, &y));
        }
    }
}
fn colour(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => 0.0,
        1 => -0.0,
        2 => f64::NAN,
        3 => f64::from_bits(r.next()),
        4 => *r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, f64::from_bits(1), f64::MAX, 1.0, -1.0, 0.9642, 0.8249]),
        5 => r.range(-70_000, 70_000) as f64 / 65536.0,
        6 => 0.9642 + r.range(-3, 3) as f64 * f64::EPSILON / 2.0,
        _ => r.range(-3, 3) as f64 * 1e-300,
    }
}
fn equal(o: &Opts, out: &mut Shards, r: &mut Rng) {
    for k in 0..o.n {
        out.history();
        let n = *r.pick(&[4usize, 12, 12, 16, 128]);
        let mut a = if r.chance(30) { vec![*r.pick(&[0u8, 0x20, 0xff, 1]); n] } else { interesting(r, n) };
        for _ in 0..8 {
            let mut b = a.clone();
            match r.below(9) {
                0 => (),
                // one bit
                1 | 2 => b[r.below(n)] ^= 1 << r.below(8),
                // the same bit in two places
                3 => {
                    let (i, j, m) = (r.below(n), r.below(n), 1u8 << r.below(8));
                    b[i] ^= m;
                    b[j] ^= m;
                }
                // one more here, one less there
                4 => {
                    let (i, j) = (r.below(n), r.below(n));
                    b[i] = b[i].wrapping_add(1);
                    b[j] = b[j].wrapping_sub(1);
                }
                // two of the same width exchanged
                5 => {
                    let w = *r.pick(&[1usize, 2, 4]);
                    let (i, j) = (r.below(n / w) * w, r.below(n / w) * w);
                    for k in 0..w {
                        b.swap(i + k, j + k);
                    }
                }
                6 => b.reverse(),
                7 => b.rotate_left(1),
                _ => b = interesting(r, n),
            }
            if n == 12 {
                b[0] = b[0] & !1 | a[0] & 1;
            }
            bytes_alike(out, n, &a, &b);
            if r.chance(30) {
                a = b;
            }
        }
        // every single bit of one value
        if k % 20 == 0 {
            for i in 0..8 * n {
                let mut b = a.clone();
                b[i / 8] ^= 1 << (i % 8);
                if n == 12 && i == 0 {
                    continue;
                }
                bytes_alike(out, n, &a, &b);
            }
        }
        // the same moment written in different ways
        let a: [u16; 6] = [r.range(1990, 2030) as u16, r.range(0, 14) as u16, r.range(0, 32) as u16, r.range(0, 25) as u16, r.range(0, 61) as u16, r.range(0, 61) as u16];
        let mut b = a;
        for _ in 0..(1 + r.below(2)) {
            let (i, n) = *r.pick(&[(0, 12u16), (1, 28), (1, 29), (1, 30), (1, 31), (2, 24), (3, 60), (4, 60)]);
            if r.chance(50) {
                b[i] = b[i].wrapping_add(1);
                b[i + 1] = b[i + 1].wrapping_sub(n);
            } else {
                b[i] = b[i].wrapping_sub(1);
                b[i + 1] = b[i + 1].wrapping_add(n);
            }
        }
        let t = |v: &[u16; 6]| DateTimeNumber { year: v[0], month: v[1], day: v[2], hours: v[3], minutes: v[4], seconds: v[5] };
        let p = |v: &[u16; 6]| list(v.iter().map(|v| bytes(&v.to_be_bytes())));
        equal_event(out, "date", p(&a), p(&b), || five(&t(&a), &t(&b)));
        let a = CIEXYZ { X: colour(r), Y: colour(r), Z: colour(r) };
        let mut b = a;
        match r.below(5) {
            0 => (),
            1 => b.X = colour(r),
            2 => b.Y = colour(r),
            3 => b.Z = colour(r),
            _ => std::mem::swap(&mut b.X, &mut b.Z),
        }
        let p = |c: &CIEXYZ| list([c.X, c.Y, c.Z].iter().map(|v| format!("[{},{}]", (v.to_bits() >> 32) as u32 as i32, v.to_bits() as u32 as i32)));
        equal_event(out, "colour", p(&a), p(&b), || five(&a, &b));
    }
    use lcms2::state::ErrorCode::*;
    use std::hash::{Hash, Hasher};
    let codes = [
        Undefined, File, Range, Internal, Null, Read, Seek, Write, UnknownExtension, ColorSpaceCheck, AlreadyDefined, BadSignature,
        CorruptionDetected, NotSuitable,
    ];
    let hash = |c: &lcms2::state::ErrorCode| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        c.hash(&mut h);
        h.finish()
    };
    for (i, a) in codes.iter().enumerate() {
        out.history();
        for b in &codes {
            let e = Obj::new("codes").int("place", i as i64).int("a", *a as i64).int("b", *b as i64);
            doing(|| format!("comparing error codes {} and {}", *a as u32, *b as u32));
            let is = guard(|| {
                let o = match a.cmp(b) {
                    std::cmp::Ordering::Less => "less",
                    std::cmp::Ordering::Equal => "equal",
                    std::cmp::Ordering::Greater => "greater",
                };
                (o, [a == b, a < b, a > b, a <= b, a >= b, a.partial_cmp(b) == Some(a.cmp(b)), hash(a) == hash(b)])
            });
            out.line(&match is {
                Ok((c, v)) => e.str("r", "ok").str("cmp", c).list("is", v.iter().map(|x| x.to_string())).end(),
                Err(()) => e.str("r", "panic").end(),
            });
        }
    }
}
