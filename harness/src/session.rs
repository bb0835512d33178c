//! Executes one encoder session (configuration, frames, schedule of API
//! calls) against the real encoder and records every observable.
use crate::content::*;
use crate::{cfg, dec, obu};
use rav1e::prelude::*;
use serde_json::{json, Map, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

/// Where the last panic happened, for the reports.
pub static PANICS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub static WHERE: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

/// Runs f; a panic becomes Err(message).
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into());
            let m: String = m.chars().take(200).collect();
            Err(format!("{m} at {}", WHERE.lock().unwrap()))
        }
    }
}

pub fn status(e: EncoderStatus) -> &'static str {
    match e {
        EncoderStatus::NeedMoreData => "NeedMoreData",
        EncoderStatus::EnoughData => "EnoughData",
        EncoderStatus::LimitReached => "LimitReached",
        EncoderStatus::Encoded => "Encoded",
        EncoderStatus::Failure => "Failure",
        EncoderStatus::NotReady => "NotReady",
    }
}

pub fn ftn(t: FrameType) -> u8 {
    match t { FrameType::KEY => 0, FrameType::INTER => 1, FrameType::INTRA_ONLY => 2, FrameType::SWITCH => 3 }
}

/// Per-frame parameters described by the job.
pub fn params(job: &Value, i: u64) -> Option<FrameParameters> {
    let key = job["key"].as_array().is_some_and(|a| a.iter().any(|x| x.as_u64() == Some(i)));
    let opq = job["opq"].as_array().is_some_and(|a| a.iter().any(|x| x.as_u64() == Some(i)));
    let t35 = &job["t35"][i.to_string()];
    if !key && !opq && !t35.is_array() { return None; }
    let t35: Vec<T35> = t35.as_array().map(|a| a.iter().map(|x| T35 {
        country_code: x[0].as_u64().unwrap() as u8, country_code_extension_byte: x[1].as_u64().unwrap() as u8,
        data: x[2].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect(),
    }).collect()).unwrap_or_default();
    Some(FrameParameters {
        frame_type_override: if key { FrameTypeOverride::Key } else { FrameTypeOverride::No },
        opaque: opq.then(|| Opaque::new(1000 + i)),
        t35_metadata: t35.into_boxed_slice(),
    })
}

pub struct Observer {
    w: usize, h: usize, mono: bool,
    want_obu: bool, decs: Vec<dec::Dec>, parser: obu::Parser,
    want_src: bool, want_grain: bool, want_report: bool,
    pub pkts: Vec<Vec<u8>>, pub keys: Vec<usize>, keep: bool, brief: bool,
}
impl Observer {
    pub fn new(job: &Value, e: &EncoderConfig) -> Self {
        let want = |k: &str| job["want"].as_array().is_some_and(|a| a.iter().any(|x| x.as_str() == Some(k)));
        let mut decs = vec![];
        if want("dav1d") { decs.push(dec::Dec::new(0)) }
        if want("aom") { decs.push(dec::Dec::new(1)) }
        Observer { w: e.width, h: e.height, mono: e.chroma_sampling == ChromaSampling::Cs400, want_obu: want("obu"), decs, parser: Default::default(), want_src: want("src"), want_grain: want("grain"), want_report: want("report"),
            pkts: vec![], keys: vec![], keep: want("ra"), brief: want("brief") }
    }
    pub fn hash<T: Pixel>(&self, f: &Frame<T>) -> String { frame_hash(f, self.w, self.h, self.mono) }
    /// Everything observable about a packet.
    pub fn packet<T: Pixel>(&mut self, p: &mut Packet<T>) -> Value {
        let mut o = Map::new();
        o.insert("r".into(), json!("pkt"));
        o.insert("no".into(), json!(p.input_frameno));
        o.insert("ft".into(), json!(ftn(p.frame_type)));
        o.insert("opq".into(), json!(p.opaque.take().map(|x| x.downcast::<u64>().map(|v| *v as i64).unwrap_or(-2)).unwrap_or(-1)));
        if self.brief {
            let shown = self.decs.iter_mut().map(|d| d.feed(&p.data)).all(|(e, pics)| e == 0 && pics.len() == 1);
            o.insert("shown".into(), json!(shown));
            return Value::Object(o);
        }
        o.insert("qp".into(), json!(p.qp));
        let mut f = dec::Fnv::new();
        f.bytes(&p.data);
        o.insert("hash".into(), json!(f.hex()));
        o.insert("len".into(), json!(p.data.len()));
        o.insert("rec".into(), json!(p.rec.as_ref().map(|r| self.hash(r)).unwrap_or_default()));
        if self.want_src { o.insert("src".into(), json!(p.source.as_ref().map(|r| self.hash(r)).unwrap_or_default())); }
        if self.want_report {
            let s = &p.enc_stats;
            o.insert("text".into(), json!(p.to_string()));
            o.insert("st".into(), json!({"bs": s.block_size_counts.to_vec(), "tx": s.tx_type_counts.to_vec(), "y": s.luma_pred_mode_counts.to_vec(),
                "uv": s.chroma_pred_mode_counts.to_vec(), "skip": s.skip_block_count}));
        }
        if self.want_obu {
            let (obus, err) = self.parser.tu(&p.data);
            o.insert("obus".into(), json!(obus));
            o.insert("oerr".into(), json!(err.unwrap_or_default()));
        }
        let mut ds = vec![];
        for d in self.decs.iter_mut() {
            let (e, pics) = d.feed(&p.data);
            ds.push(json!({"e": e, "n": pics.len(), "h": pics.iter().map(|p| p.hash.clone()).collect::<Vec<_>>(),
                "fmt": pics.iter().map(|p| json!([p.w, p.h, p.bpc, p.layout])).collect::<Vec<_>>()}));
            if self.want_grain {
                let l = ds.len() - 1;
                if let Some(p) = pics.first() { ds[l]["grain"] = json!(p.grain); }
            }
        }
        if !self.decs.is_empty() { o.insert("dec".into(), json!(ds)); }
        if self.keep {
            if p.frame_type == FrameType::KEY { self.keys.push(self.pkts.len()); }
            self.pkts.push(p.data.clone());
        }
        Value::Object(o)
    }
    /// Starts a fresh decoder at every keyframe after the first.
    pub fn random_access(&self, ev: &mut Vec<Value>) {
        for &k in self.keys.iter().filter(|&&k| k > 0) {
            let mut d = dec::Dec::new(0);
            let (mut es, mut hs) = (vec![], vec![]);
            for p in self.pkts[k..].iter().take(12) {
                let (e, pics) = d.feed(p);
                es.push(if pics.len() == 1 { e } else { 9999 });
                hs.push(pics.first().map(|p| p.hash.clone()).unwrap_or_default());
            }
            ev.push(json!({"o": "RA", "r": "ok", "at": k, "e": es, "h": hs}));
        }
    }
}

pub fn run(job: &Value) -> Value {
    if job["cfg"]["bd"].as_u64().unwrap_or(8) == 8 && job["hbd"].as_bool() != Some(true) { run_t::<u8>(job) } else { run_t::<u16>(job) }
}

fn run_t<T: Pixel>(job: &Value) -> Value {
    let mut c = cfg::config(&job["cfg"]);
    if let Some(n) = job["pool"].as_u64() {
        c = c.with_thread_pool(Arc::new(rayon::ThreadPoolBuilder::new().num_threads(n as usize).build().unwrap()));
    }
    let e = cfg::enc_config(&job["cfg"]);
    let mut ev: Vec<Value> = vec![];
    let mut ctx: Context<T> = match guard(|| c.new_context()) {
        Ok(Ok(c)) => { ev.push(json!({"o": "C", "r": "ok"})); c }
        Ok(Err(x)) => { ev.push(json!({"o": "C", "r": "err", "why": format!("{x:?}")})); return json!({"ev": ev}); }
        Err(m) => { ev.push(json!({"o": "C", "r": "panic", "why": m})); return json!({"ev": ev}); }
    };
    let content = Content::from(&job["content"], e.bit_depth);
    let n = job["n"].as_u64().unwrap_or(0);
    let mut ob = Observer::new(job, &e);
    let mut next = 0u64;
    let mut accepted = 0u64;
    let mut delivered = 0u64;
    let shared = job["shared"].as_bool().unwrap_or(false);
    let mut dead = false;
    let mut held: Vec<Arc<Frame<T>>> = vec![];

    let mut send = |ctx: &mut Context<T>, ob: &Observer, ev: &mut Vec<Value>, next: &mut u64, accepted: &mut u64| -> bool {
        let i = *next;
        *next += 1;
        let mut f = ctx.new_frame();
        content.fill(&mut f, i, e.width, e.height);
        let h = if ob.want_src { ob.hash(&f) } else { String::new() };
        let pr = params(job, i);
        let mut info = json!({"o": "S", "i": i, "key": 0, "opq": -1, "h": h, "t35": []});
        if let Some(p) = &pr {
            info["key"] = json!((p.frame_type_override == FrameTypeOverride::Key) as u8);
            info["opq"] = json!(p.opaque.as_ref().map(|_| 1000 + i as i64).unwrap_or(-1));
            info["t35"] = json!(p.t35_metadata.iter().map(|t| {
                let mut v = vec![t.country_code];
                if t.country_code == 0xff { v.push(t.country_code_extension_byte); }
                v.extend_from_slice(&t.data);
                v
            }).collect::<Vec<_>>());
        }
        let r = guard(|| {
            if shared {
                let np = if ob.mono { 1 } else { 3 };
                for p in f.planes[..np].iter_mut() { p.pad(e.width, e.height); }
                let a = Arc::new(f);
                held.push(a.clone());
                ctx.send_frame((a, pr))
            } else { ctx.send_frame((f, pr)) }
        });
        match r {
            Ok(Ok(())) => { *accepted += 1; info["r"] = json!("ok"); ev.push(info); true }
            Ok(Err(s)) => { info["r"] = json!(status(s)); ev.push(info); true }
            Err(m) => { info["r"] = json!("panic"); info["why"] = json!(m); ev.push(info); false }
        }
    };
    // returns (alive, status)
    let recv = |ctx: &mut Context<T>, ob: &mut Observer, ev: &mut Vec<Value>, delivered: &mut u64| -> (bool, &'static str) {
        match guard(|| ctx.receive_packet()) {
            Ok(Ok(mut p)) => {
                *delivered += 1;
                let mut v = ob.packet(&mut p);
                v["o"] = json!("R");
                ev.push(v);
                (true, "pkt")
            }
            Ok(Err(s)) => {
                let s = status(s);
                ev.push(json!({"o": "R", "r": s}));
                (true, s)
            }
            Err(m) => { ev.push(json!({"o": "R", "r": "panic", "why": m})); (false, "panic") }
        }
    };
    let flush = |ctx: &mut Context<T>, ev: &mut Vec<Value>| -> bool {
        match guard(|| ctx.flush()) {
            Ok(()) => { ev.push(json!({"o": "F", "r": "ok"})); true }
            Err(m) => { ev.push(json!({"o": "F", "r": "panic", "why": m})); false }
        }
    };

    let sched: Vec<char> = job["sched"].as_str().unwrap_or("L").chars().collect();
    'outer: for op in sched {
        match op {
            'S' => { if !send(&mut ctx, &ob, &mut ev, &mut next, &mut accepted) { dead = true; break } }
            'R' => { if !recv(&mut ctx, &mut ob, &mut ev, &mut delivered).0 { dead = true; break } }
            'F' => { if !flush(&mut ctx, &mut ev) { dead = true; break } }
            'N' => {
                match guard(|| ctx.send_frame(None::<Arc<Frame<T>>>)) {
                    Ok(Ok(())) => ev.push(json!({"o": "F", "r": "ok"})),
                    Ok(Err(s)) => ev.push(json!({"o": "F", "r": status(s)})),
                    Err(m) => { ev.push(json!({"o": "F", "r": "panic", "why": m})); dead = true; break }
                }
            }
            'A' => { while next < n { if !send(&mut ctx, &ob, &mut ev, &mut next, &mut accepted) { dead = true; break 'outer } } }
            'D' => {
                // drain: until end of stream, starvation, an error, or clearly too long
                for _ in 0..(8 * n + 64) {
                    let (ok, s) = recv(&mut ctx, &mut ob, &mut ev, &mut delivered);
                    if !ok { dead = true; break 'outer }
                    if s != "pkt" && s != "Encoded" { break }
                }
            }
            'L' => {
                // the documented loop
                for _ in 0..(16 * n + 64) {
                    let (ok, s) = recv(&mut ctx, &mut ob, &mut ev, &mut delivered);
                    if !ok { dead = true; break 'outer }
                    match s {
                        "pkt" | "Encoded" => {}
                        "NeedMoreData" => {
                            let ok = if next < n { send(&mut ctx, &ob, &mut ev, &mut next, &mut accepted) } else { flush(&mut ctx, &mut ev) };
                            if !ok { dead = true; break 'outer }
                        }
                        _ => break,
                    }
                }
            }
            c => panic!("bad schedule op {c}"),
        }
    }
    if !dead {
        ob.random_access(&mut ev);
        let hdr = guard(|| ctx.container_sequence_header()).unwrap_or_default();
        ev.push(json!({"o": "E", "r": "ok", "acc": accepted, "del": delivered, "av1c": hdr}));
    }
    json!({"ev": ev})
}
