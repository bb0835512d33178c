//! The command-line encoder seen from outside: makes an input video and what
//! the library answers for the frames and configuration the options stand
//! for, and reads the files an invocation left behind.
use crate::content::*;
use crate::dec;
use crate::session::{guard, status};
use crate::cfg;
use rav1e::prelude::*;
use serde_json::{json, Value};
use std::io::Write;

fn fnv(b: &[u8]) -> String { let mut f = dec::Fnv::new(); f.bytes(b); f.hex() }

fn dims(cs: u64, w: usize, h: usize) -> Vec<(usize, usize)> {
    match cs {
        400 => vec![(w, h)],
        420 => vec![(w, h), ((w + 1) / 2, (h + 1) / 2), ((w + 1) / 2, (h + 1) / 2)],
        422 => vec![(w, h), ((w + 1) / 2, h), ((w + 1) / 2, h)],
        _ => vec![(w, h); 3],
    }
}

/// Bytes of the input video.
fn video(job: &Value) -> Vec<u8> {
    let (w, h) = (job["cfg"]["w"].as_u64().unwrap() as usize, job["cfg"]["h"].as_u64().unwrap() as usize);
    let bd = job["cfg"]["bd"].as_u64().unwrap() as usize;
    let content = Content::from(&job["content"], bd);
    let mut out = job["line"].as_str().unwrap().as_bytes().to_vec();
    out.push(b'\n');
    let marks = ["FRAME\n", "FRAME Ip\n", "FRAME Xnote\n"];
    let vary = job["params"].as_bool().unwrap_or(false);
    for i in 0..job["n"].as_u64().unwrap() {
        out.extend_from_slice(marks[if vary { i as usize % 3 } else { 0 }].as_bytes());
        for (p, (pw, ph)) in dims(job["cfg"]["cs"].as_u64().unwrap(), w, h).into_iter().enumerate() {
            for y in 0..ph { for x in 0..pw {
                let v = content.at(i, p, x, y);
                out.push(v as u8);
                if bd > 8 { out.push((v >> 8) as u8) }
            } }
        }
    }
    if let Some(s) = job["tail"].as_str() { out.extend_from_slice(s.as_bytes()) }
    out
}

struct Ref { end: String, pk: Vec<String>, sum: Vec<u8>, recs: Vec<Vec<u8>> }

/// The library's answer: the frames from `skip` on, at most `limit`.
fn reference<T: Pixel>(job: &Value, given: Option<(&[u8], &[Vec<u8>])>, emit: bool) -> Ref {
    let mut r = Ref { end: String::new(), pk: vec![], sum: vec![], recs: vec![] };
    let e = {
        let mut e = cfg::enc_config(&job["cfg"]);
        if let Some(n) = job["photon"].as_u64().filter(|n| *n > 0) {
            e.film_grain_params = Some(vec![generate_photon_noise_params(0, i64::MAX as u64, NoiseGenArgs {
                iso_setting: n as u32 * 100, width: e.width as u32, height: e.height as u32,
                transfer_function: if job["cfg"]["color"][1] == 16 { TransferFunction::SMPTE2084 } else { TransferFunction::BT1886 },
                chroma_grain: false, random_seed: None,
            })]);
        }
        e
    };
    let mut rc = RateControlConfig::new();
    if let Some((s, _)) = given {
        rc = match RateControlConfig::from_summary_slice(s) { Ok(r) => r, Err(x) => { r.end = format!("summary {x}"); return r } };
    }
    rc = rc.with_emit_data(emit);
    let c = Config::new().with_encoder_config(e.clone()).with_threads(1).with_rate_control(rc);
    let mut ctx: Context<T> = match guard(|| c.new_context()) {
        Ok(Ok(c)) => c,
        Ok(Err(x)) => { r.end = format!("refused {x}"); return r }
        Err(m) => { r.end = format!("panic {m}"); return r }
    };
    let content = Content::from(&job["content"], e.bit_depth);
    let (n, skip, k) = (job["n"].as_u64().unwrap(), job["skip"].as_u64().unwrap_or(0), job["k"].as_u64().unwrap());
    let mut next = skip;
    let mut at = 0;
    r.end = match guard(|| {
        for _ in 0..(50 * n + 300) {
            if let Some((_, recs)) = given {
                while ctx.rc_second_pass_data_required() > 0 {
                    if at >= recs.len() { return "starved".to_string() }
                    if ctx.rc_send_pass_data(&recs[at]).is_err() { return "bad pass data".into() }
                    at += 1;
                }
            }
            let ans = ctx.receive_packet();
            let (done, take) = match ans {
                Ok(p) => { r.pk.push(fnv(&p.data)); (None, true) }
                Err(EncoderStatus::NeedMoreData) => {
                    if next < n && next - skip < k {
                        let mut f = ctx.new_frame();
                        content.fill(&mut f, next, e.width, e.height);
                        let _ = ctx.send_frame(f);
                        next += 1;
                    } else { ctx.flush() }
                    (None, false)
                }
                Err(EncoderStatus::Encoded) => (None, true),
                Err(EncoderStatus::LimitReached) => (Some("ok".to_string()), true),
                Err(s) => (Some(status(s).to_string()), false),
            };
            if emit && take {
                match ctx.rc_receive_pass_data() {
                    Some(RcData::Frame(b)) => r.recs.push(b.to_vec()),
                    Some(RcData::Summary(b)) => r.sum = b.to_vec(),
                    None => {}
                }
            }
            if let Some(d) = done { return d }
        }
        "livelock".into()
    }) { Ok(s) => s, Err(m) => format!("panic {m}") };
    r
}

/// The statistics file: the summary in front, then the records, each after
/// its length as eight bytes.
fn framed(r: &Ref) -> Vec<u8> {
    let mut o = vec![];
    for b in std::iter::once(&r.sum).chain(r.recs.iter()) {
        o.extend_from_slice(&(b.len() as u64).to_be_bytes());
        o.extend_from_slice(b);
    }
    o
}

fn make_t<T: Pixel>(job: &Value) -> Value {
    let one = |r: &Ref| json!({"end": r.end, "pk": r.pk});
    let mut out = json!({});
    for x in job["refs"].as_array().unwrap_or(&vec![]) {
        match x.as_str().unwrap() {
            "plain" => out["plain"] = one(&reference::<T>(job, None, false)),
            "passes" => {
                let a = reference::<T>(job, None, true);
                let f = framed(&a);
                out["first"] = one(&a);
                out["first"]["stats"] = json!(fnv(&f));
                if a.end == "ok" && !a.pk.is_empty() {
                    let b = reference::<T>(job, Some((&a.sum, &a.recs)), true);
                    out["again"] = one(&b);
                    out["again"]["stats"] = json!(fnv(&framed(&b)));
                    out["second"] = one(&reference::<T>(job, Some((&a.sum, &a.recs)), false));
                }
            }
            k => return json!({"error": format!("ref {k}")}),
        }
    }
    out
}

pub fn make(job: &Value) -> Value {
    if let Some(p) = job["path"].as_str() {
        std::fs::File::create(p).unwrap().write_all(&video(job)).unwrap();
    }
    if job["cfg"]["bd"].as_u64() == Some(8) && job["hbd"].as_bool() != Some(true) { make_t::<u8>(job) } else { make_t::<u16>(job) }
}

fn le(b: &[u8]) -> u64 { b.iter().rev().fold(0, |a, x| a << 8 | *x as u64) }
fn big(mut x: u64) -> Vec<u64> { let mut v = vec![]; while x > 0 { v.push(x & 32767); x >>= 15 } v }

fn look_ivf(path: &str, decode: bool) -> Value {
    let Ok(b) = std::fs::read(path) else { return json!({"ex": 0, "hash": "", "size": 0}) };
    let mut o = json!({"ex": 1, "hash": fnv(&b), "size": b.len(), "head": 0, "w": 0, "h": 0, "rate": [[], []], "pts": [], "ph": [], "rest": b.len(), "dec": [], "derr": 0});
    if b.len() < 32 || &b[..4] != b"DKIF" || le(&b[4..6]) != 0 || le(&b[6..8]) != 32 || &b[8..12] != b"AV01" { return o }
    o["head"] = json!(1);
    o["w"] = json!(le(&b[12..14]));
    o["h"] = json!(le(&b[14..16]));
    o["rate"] = json!([big(le(&b[16..20])), big(le(&b[20..24]))]);
    let (mut at, mut pts, mut ph, mut ds, mut bad) = (32, vec![], vec![], vec![], 0);
    let mut d = dec::Dec::new(0);
    while b.len() - at >= 12 {
        let len = le(&b[at..at + 4]) as usize;
        if b.len() - at - 12 < len { break }
        let p = &b[at + 12..at + 12 + len];
        pts.push(le(&b[at + 4..at + 12]).min(1 << 30));
        ph.push(fnv(p));
        if decode {
            let (e, pics) = d.feed(p);
            if e != 0 || pics.len() != 1 { bad += 1 }
            for p in pics { ds.push(p.hash.clone()) }
        }
        at += 12 + len;
    }
    o["rest"] = json!(b.len() - at);
    o["pts"] = json!(pts);
    o["ph"] = json!(ph);
    o["dec"] = json!(ds);
    o["derr"] = json!(bad);
    o
}

/// A y4m file: header line and a hash per picture.
fn look_y4m(path: &str, c: &Value) -> Value {
    let Ok(b) = std::fs::read(path) else { return json!({"ex": 0}) };
    let mut o = json!({"ex": 1, "line": "", "pics": [], "rest": b.len()});
    let Some(e) = b.iter().position(|x| *x == 10) else { return o };
    o["line"] = json!(String::from_utf8_lossy(&b[..e]));
    let (w, h, cs) = (c["w"].as_u64().unwrap() as usize, c["h"].as_u64().unwrap() as usize, c["cs"].as_u64().unwrap());
    let bytes = if c["bd"].as_u64().unwrap() > 8 { 2 } else { 1 };
    let n: usize = dims(cs, w, h).iter().map(|(a, b)| a * b).sum::<usize>() * bytes;
    let (mut at, mut pics) = (e + 1, vec![]);
    while b.len() - at >= 6 + n && &b[at..at + 6] == b"FRAME\n" {
        let mut f = dec::Fnv::new();
        for s in b[at + 6..at + 6 + n].chunks(bytes) { f.u16(le(s) as u16) }
        pics.push(f.hex());
        at += 6 + n;
    }
    o["pics"] = json!(pics);
    o["rest"] = json!(b.len() - at);
    o
}

pub fn look(job: &Value) -> Value {
    let mut o = json!({"out": look_ivf(job["ivf"].as_str().unwrap(), job["dec"].as_bool().unwrap_or(false))});
    if let Some(p) = job["rec"].as_str() { o["rec"] = look_y4m(p, &job["cfg"]) }
    if let Some(p) = job["stats"].as_str() { o["stats"] = json!(std::fs::read(p).map(|b| fnv(&b)).unwrap_or_default()) }
    o
}

/// The pictures of a y4m file, as samples by plane.
fn pictures(path: &str, c: &Value) -> Option<Vec<Vec<Vec<u16>>>> {
    let b = std::fs::read(path).ok()?;
    let (w, h, cs) = (c["w"].as_u64()? as usize, c["h"].as_u64()? as usize, c["cs"].as_u64()?);
    let bytes = if c["bd"].as_u64()? > 8 { 2 } else { 1 };
    let mut at = b.iter().position(|x| *x == 10)? + 1;
    let ds = dims(cs, w, h);
    let n: usize = ds.iter().map(|(a, b)| a * b).sum::<usize>() * bytes;
    let mut out = vec![];
    while b.len() - at >= 6 {
        let e = at + b[at..].iter().position(|x| *x == 10)? + 1;
        if b.len() - e < n { break }
        let mut q = e;
        out.push(ds.iter().map(|(x, y)| {
            let v = b[q..q + x * y * bytes].chunks(bytes).map(|s| le(s) as u16).collect();
            q += x * y * bytes;
            v
        }).collect());
        at = e + n;
    }
    Some(out)
}

/// What a run of the command-line encoder wrote, for the report it made on
/// it: size, type and quantizer of every frame, and the squared error of
/// every picture of the reconstruction.
pub fn measure(job: &Value) -> Value {
    let Ok(b) = std::fs::read(job["ivf"].as_str().unwrap()) else { return json!({"error": "no ivf"}) };
    let (mut at, mut pk, mut parser) = (32, vec![], crate::obu::Parser::default());
    while b.len() >= at + 12 {
        let len = le(&b[at..at + 4]) as usize;
        if b.len() - at - 12 < len { break }
        let (obus, err) = parser.tu(&b[at + 12..at + 12 + len]);
        pk.push(json!({"len": len, "pts": le(&b[at + 4..at + 12]), "obus": obus, "oerr": err.unwrap_or_default()}));
        at += 12 + len;
    }
    let mut o = json!({"pk": pk});
    if let Some(r) = job["rec"].as_str() {
        let (Some(src), Some(rec)) = (pictures(job["src"].as_str().unwrap(), &job["cfg"]), pictures(r, &job["cfg"])) else { return json!({"error": "no pictures"}) };
        let skip = job["skip"].as_u64().unwrap_or(0) as usize;
        o["sse"] = json!(rec.iter().zip(src.iter().skip(skip)).map(|(r, s)| r.iter().zip(s).map(|(a, b)| {
            let e: u64 = a.iter().zip(b).map(|(x, y)| (*x as i64 - *y as i64).pow(2) as u64).sum();
            json!([e, a.len()])
        }).collect::<Vec<_>>()).collect::<Vec<_>>());
        o["pics"] = json!(rec.len());
    }
    o
}
