//! Two-pass sessions: statistics out of one pass into the next, in order and
//! complete, or damaged.
use crate::content::*;
use crate::session::{ftn, guard, status};
use crate::{cfg, obu};
use rav1e::prelude::*;
use serde_json::{json, Value};

fn int(b: &[u8]) -> i64 {
    b.iter().rev().fold(0, |a, x| a << 8 | *x as i64)
}

/// The fields of a serialised summary.
fn summary_fields(b: &[u8]) -> Value {
    if b.len() != 68 { return json!({"ntus": -1, "nframes": [-1, -1, -1, -1, -1], "exp": [0, 0, 0, 0], "zero": [0, 0, 0, 0]}); }
    json!({"ntus": int(&b[8..12]), "nframes": (0..5).map(|t| int(&b[12 + 4 * t..16 + 4 * t])).collect::<Vec<_>>(),
        "exp": b[32..36].to_vec(), "zero": (0..4).map(|t| (int(&b[36 + 8 * t..44 + 8 * t]) == 0) as u8).collect::<Vec<_>>()})
}

fn record_fields(b: &[u8]) -> Value {
    if b.len() != 8 { return json!({"len": b.len(), "fti": -1, "show": -1}); }
    let v = int(&b[..4]);
    json!({"len": 8, "fti": v & 0x7fffffff, "show": v >> 31})
}

struct Pass<T: Pixel> {
    ctx: Context<T>,
    e: EncoderConfig,
    content: Content,
    parser: obu::Parser,
    n: u64, next: u64,
    emit: bool, second: bool, bytes: bool,
    ev: Vec<Value>,
    dead: bool,
    summary: Vec<u8>, recs: Vec<Vec<u8>>,
    given: Vec<Vec<u8>>, at: usize, off: usize,
    key: Vec<u64>,
    chunks: Vec<usize>, nchunk: usize,
    qs: Vec<Value>, want_fr: bool,
}

impl<T: Pixel> Pass<T> {
    fn put(&mut self, v: Value) { self.ev.push(v) }
    fn panicked(&mut self, o: &str, m: String) { self.dead = true; self.put(json!({"o": o, "r": "panic", "why": m})) }
    fn send(&mut self) {
        let i = self.next;
        self.next += 1;
        let mut f = self.ctx.new_frame();
        self.content.fill(&mut f, i, self.e.width, self.e.height);
        let p = self.key.contains(&i).then(|| FrameParameters { frame_type_override: FrameTypeOverride::Key, ..Default::default() });
        let ctx = &mut self.ctx;
        match guard(|| ctx.send_frame((f, p))) {
            Ok(r) => self.put(json!({"o": "S", "r": r.map(|_| "ok").unwrap_or_else(status)})),
            Err(m) => self.panicked("S", m),
        }
    }
    fn flush(&mut self) {
        let ctx = &mut self.ctx;
        match guard(|| ctx.flush()) {
            Ok(()) => self.put(json!({"o": "F", "r": "ok"})),
            Err(m) => self.panicked("F", m),
        }
    }
    fn recv(&mut self) -> &'static str {
        let ctx = &mut self.ctx;
        match guard(|| ctx.receive_packet()) {
            Ok(Ok(p)) => {
                let (obus, err) = self.parser.tu(&p.data);
                let sef = obus.iter().rev().find(|o| o.get("se").is_some()).is_some_and(|o| o["se"] == 1);
                if self.want_fr { self.qs.push(json!({"no": p.input_frameno, "ft": ftn(p.frame_type), "qp": p.qp, "obus": obus})); }
                self.put(json!({"o": "R", "r": "pkt", "sef": sef as u8, "key": (p.frame_type == FrameType::KEY) as u8, "no": p.input_frameno, "err": err.unwrap_or_default()}));
                "pkt"
            }
            Ok(Err(s)) => { let s = status(s); self.put(json!({"o": "R", "r": s, "sef": 0, "key": 0})); s }
            Err(m) => { self.panicked("R", m); "panic" }
        }
    }
    fn take(&mut self, byte_api: bool) -> &'static str {
        let o = if byte_api { "T" } else { "G" };
        let ctx = &mut self.ctx;
        let r = if byte_api {
            guard(|| ctx.twopass_out().map(|b| b.to_vec())).map(|x| x.map(|b| (if b.len() == 8 { "frame" } else if b[8..].iter().all(|x| *x == 0) { "placeholder" } else { "summary" }, b)))
        } else {
            guard(|| ctx.rc_receive_pass_data()).map(|x| x.map(|d| match d { RcData::Summary(b) => ("summary", b.to_vec()), RcData::Frame(b) => ("frame", b.to_vec()) }))
        };
        match r {
            Ok(None) => { self.put(json!({"o": o, "r": "none"})); "none" }
            Ok(Some((k, b))) => {
                let mut v = json!({"o": o, "r": k, "len": b.len()});
                if k == "frame" { v["rec"] = record_fields(&b); self.recs.push(b) } else { v["sum"] = summary_fields(&b); if k == "summary" { self.summary = b } }
                self.put(v);
                k
            }
            Err(m) => { self.panicked(o, m); "panic" }
        }
    }
    fn need(&mut self) -> usize {
        let ctx = &mut self.ctx;
        let o = if self.bytes { "Y" } else { "Q" };
        let bytes = self.bytes;
        match guard(|| if bytes { ctx.twopass_bytes_needed() } else { ctx.rc_second_pass_data_required() }) {
            Ok(n) => { self.put(json!({"o": o, "r": "ok", "n": n})); n }
            Err(m) => { self.panicked(o, m); 0 }
        }
    }
    /// Offers the next record or chunk; false when there is none.
    fn supply(&mut self) -> bool {
        if self.bytes {
            let all: Vec<u8> = self.given.concat();
            if self.off >= all.len() { return false }
            let len = self.chunks[self.nchunk % self.chunks.len()].max(1).min(all.len() - self.off);
            self.nchunk += 1;
            let (ctx, b) = (&mut self.ctx, &all[self.off..self.off + len]);
            match guard(|| ctx.twopass_in(b)) {
                Ok(Ok(c)) => { self.off += c; self.put(json!({"o": "J", "r": "ok", "len": len, "consumed": c})); true }
                Ok(Err(s)) => { self.put(json!({"o": "J", "r": status(s), "len": len, "consumed": 0})); false }
                Err(m) => { self.panicked("J", m); false }
            }
        } else {
            if self.at >= self.given.len() { return false }
            let b = self.given[self.at].clone();
            self.at += 1;
            let ctx = &mut self.ctx;
            match guard(|| ctx.rc_send_pass_data(&b)) {
                Ok(r) => { let ok = r.is_ok(); self.put(json!({"o": "I", "r": r.map(|_| "ok").unwrap_or_else(status)})); ok }
                Err(m) => { self.panicked("I", m); false }
            }
        }
    }
    fn damaged(&mut self, k: usize) {
        let b: Vec<u8> = match k % 5 {
            0 => vec![],
            1 => vec![1, 0, 0, 128, 0, 0, 0],
            2 => vec![0, 0, 0, 128, 0, 0, 0, 0, 0],
            3 => vec![5, 0, 0, 128, 1, 2, 3, 4],
            _ => vec![255; 8],
        };
        let ctx = &mut self.ctx;
        match guard(|| ctx.rc_send_pass_data(&b)) {
            Ok(r) => self.put(json!({"o": "B", "r": r.map(|_| "ok").unwrap_or_else(status), "len": b.len()})),
            Err(m) => self.panicked("B", m),
        }
    }
    /// The documented loop, from wherever the session is.
    fn finish(&mut self, bytes_out: bool) -> &'static str {
        let mut stuck = 0;
        for _ in 0..(40 * self.n + 200) {
            if self.dead { return "panic" }
            if self.emit && self.take(bytes_out) == "panic" { return "panic" }
            if self.second {
                let mut left = 600;
                while self.need() > 0 && !self.dead {
                    let o = self.off;
                    if !self.supply() {
                        if self.dead { return "panic" }
                        return if self.ev.last().is_some_and(|e| e["r"] == "Failure") { "refused" } else { "starved" };
                    }
                    left -= 1;
                    if left == 0 { return "livelock" }
                    if self.bytes && o == self.off { break }
                }
            }
            if self.dead { return "panic" }
            match self.recv() {
                "pkt" | "Encoded" => stuck = 0,
                "NeedMoreData" => if self.next < self.n { self.send() } else { self.flush() },
                "LimitReached" => {
                    if self.emit { for _ in 0..3 { if self.take(bytes_out) != "frame" { break } } }
                    return if self.dead { "panic" } else { "done" };
                }
                "NotReady" => { stuck += 1; if stuck > 3 { return "starved" } }
                "panic" => return "panic",
                _ => return "refused",
            }
        }
        "livelock"
    }
    fn run(&mut self, sched: &str, bytes_out: bool) -> &'static str {
        let mut k = 0;
        // without a summary in the configuration this starts the second pass
        if self.second && self.bytes { self.need(); }
        for c in sched.chars() {
            if self.dead { break }
            match c {
                'S' => if self.next < self.n { self.send() },
                'F' => { if self.second { while self.next < self.n && !self.dead { self.send() } } self.flush() }
                'R' => { self.recv(); }
                'G' => { self.take(bytes_out); }
                'Q' => if self.second { self.need(); },
                'I' => if self.second && self.need() > 0 && !self.dead { self.supply(); },
                'B' => if !self.bytes { self.damaged(k); k += 1 },
                _ => panic!("bad op {c}"),
            }
        }
        self.finish(bytes_out)
    }
}

pub fn run(job: &Value) -> Value {
    if job["cfg"]["bd"].as_u64().unwrap_or(8) == 8 { run_t::<u8>(job) } else { run_t::<u16>(job) }
}

fn bytes_of(v: &Value) -> Vec<u8> { v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default() }

/// Puts a damaged value into a recorded statistics set.
fn apply_edit(e: &Value, sum: &mut Vec<u8>, recs: &mut Vec<Vec<u8>>) {
    if let Some(a) = e["sum"].as_array() { for x in a { let i = x[0].as_u64().unwrap() as usize; if i < sum.len() { sum[i] = x[1].as_u64().unwrap() as u8; } } }
    if let Some(a) = e["rec"].as_array() {
        for x in a {
            let (i, j) = (x[0].as_u64().unwrap() as usize, x[1].as_u64().unwrap() as usize);
            if !recs.is_empty() { let l = recs.len(); if j < recs[i % l].len() { recs[i % l][j] = x[2].as_u64().unwrap() as u8 } }
        }
    }
    if let Some(a) = e["set"].as_array() { for x in a { let i = x[0].as_u64().unwrap() as usize; if !recs.is_empty() { let l = recs.len(); recs[i % l] = bytes_of(&x[1]) } } }
    if let Some(n) = e["sumlen"].as_u64() { sum.resize(n as usize, 0) }
    if let Some(n) = e["keep"].as_u64() { recs.truncate(n as usize) }
    if let Some(n) = e["repeat"].as_u64() { let r = recs.clone(); for _ in 0..n { recs.extend(r.clone()) } }
    if let Some(n) = e["rotate"].as_u64() { if !recs.is_empty() { let l = recs.len(); recs.rotate_left(n as usize % l) } }
}

fn run_t<T: Pixel>(job: &Value) -> Value {
    let mut ev = vec![];
    let (mut summary, mut recs): (Vec<u8>, Vec<Vec<u8>>) = (vec![], vec![]);
    let mut ends = vec![];
    let mut qs = vec![];
    let mut frames = None;
    for (k, p) in job["passes"].as_array().unwrap().iter().enumerate() {
        let mut c = job["cfg"].clone();
        if let Some(o) = p["cfg"].as_object() { for (a, b) in o { c[a] = b.clone(); } }
        let e = cfg::enc_config(&c);
        let n = p["n"].as_u64().or(frames).unwrap_or(job["n"].as_u64().unwrap());
        let emit = p["emit"].as_bool().unwrap_or(k == 0);
        let bytes = p["bytes"].as_bool().unwrap_or(false);
        let head = p["head"].as_bool().unwrap_or(true);
        let second = k > 0;
        let content = Content::from(&job["content"], e.bit_depth);
        let (mut sum, mut given) = (summary.clone(), recs.clone());
        let edited = p["edit"].is_object();
        if edited { apply_edit(&p["edit"], &mut sum, &mut given) }
        let mut rc = RateControlConfig::new();
        if second && head {
            rc = match guard(|| RateControlConfig::from_summary_slice(&sum)) {
                Ok(Ok(r)) => r,
                Ok(Err(x)) => { ends.push("refused".to_string()); if !edited { ev.push(json!({"o": "N", "r": x.to_string(), "c": {}})) } break }
                Err(m) => { ends.push(format!("panic {m}")); break }
            };
        }
        rc = rc.with_emit_data(emit);
        let made = guard(|| cfg::config(&c).with_rate_control(rc).new_context::<T>());
        let cc = json!({"emit": emit as u8, "second": second as u8, "delay": if second { c["rfd"].as_i64().unwrap_or(0) } else { 0 }, "head": head as u8});
        let ctx = match made {
            Ok(Ok(x)) => { ev.push(json!({"o": "N", "r": "ok", "c": cc})); x }
            Ok(Err(x)) => { ev.push(json!({"o": "N", "r": x.to_string(), "c": cc})); ends.push("refused".into()); break }
            Err(m) => { ev.push(json!({"o": "N", "r": "panic", "c": cc, "why": m})); ends.push(format!("panic {m}")); break }
        };
        if second && !head { given.insert(0, sum.clone()); if !bytes { given.remove(0); } }
        let key = job["key"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default();
        let chunks: Vec<usize> = p["chunks"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or(vec![1000]);
        let mut ps = Pass { ctx, e, content, parser: Default::default(), n, next: 0, emit, second, bytes, ev: vec![], dead: false, summary: vec![], recs: vec![], given, at: 0, off: 0, key, chunks, nchunk: 0, qs: vec![], want_fr: job["want"].is_array() };
        let end = ps.run(p["sched"].as_str().unwrap_or(""), p["bytesout"].as_bool().unwrap_or(false));
        frames = frames.or(Some(ps.ev.iter().filter(|v| v["o"] == "S" && v["r"] == "ok").count() as u64));
        let why = ps.ev.iter().rev().find_map(|v| v["why"].as_str().map(|s| s.to_string())).unwrap_or_default();
        ev.append(&mut ps.ev);
        qs.push(ps.qs.clone());
        ends.push(if why.is_empty() { end.to_string() } else { format!("{end} {why}") });
        if end == "done" { ev.push(json!({"o": "E", "r": "ok"})); } else { break }
        summary = ps.summary;
        recs = ps.recs;
    }
    json!({"ev": ev, "ends": ends, "sum": summary, "recs": recs, "frs": qs})
}

/// Answers to offering byte strings as summaries.
pub fn summaries(job: &Value) -> Value {
    let out: Vec<Value> = job["bs"].as_array().unwrap().iter().map(|b| {
        let b = bytes_of(b);
        match guard(|| RateControlConfig::from_summary_slice(&b).map(|_| ())) {
            Ok(Ok(())) => json!({"r": "ok"}),
            Ok(Err(_)) => json!({"r": "err"}),
            Err(m) => json!({"r": "panic", "why": m}),
        }
    }).collect();
    json!({"out": out})
}
