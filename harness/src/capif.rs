//! Sessions on the C interface, each call mirrored on the native one.
use crate::cfg;
use crate::content::*;
use crate::headers::c_config;
use crate::session::{ftn, guard};
use rav1e::capi::{self, *};
use rav1e::prelude as nat;
use rav1e::prelude::CastFromPrimitive;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_void};
use std::ptr::null_mut;
use std::sync::Mutex;

static RELEASED: Mutex<Vec<u64>> = Mutex::new(vec![]);
extern "C" fn release(p: *mut c_void) { RELEASED.lock().unwrap().push(p as u64) }
fn released() -> Value { json!(std::mem::take(&mut *RELEASED.lock().unwrap())) }

fn code(r: Result<(), nat::EncoderStatus>) -> i32 {
    match r { Ok(()) => 0, Err(s) => match s {
        nat::EncoderStatus::NeedMoreData => 1, nat::EncoderStatus::EnoughData => 2, nat::EncoderStatus::LimitReached => 3,
        nat::EncoderStatus::Encoded => 4, nat::EncoderStatus::Failure => -1, nat::EncoderStatus::NotReady => -2 } }
}

fn fnv(b: &[u8]) -> String { let mut f = crate::dec::Fnv::new(); f.bytes(b); f.hex() }

struct Fr { c: *mut capi::Frame, content: u64, filled: bool, key: bool, t35: Vec<nat::T35>, bd: usize }

struct Two<T: nat::Pixel> { c: *mut capi::Context, n: nat::Context<T> }

struct S<T: nat::Pixel> {
    e: nat::EncoderConfig, content: Content, xs: Vec<Option<Two<T>>>, fr: BTreeMap<u64, Fr>, pk: Vec<*mut Packet>, ev: Vec<Value>,
    given: Vec<u8>, off: usize, sum: Vec<u8>, recs: Vec<Vec<u8>>,
}

impl<T: nat::Pixel> S<T> {
    fn dims(&self, p: usize) -> (usize, usize) {
        let (xd, yd) = if p == 0 { (0, 0) } else { self.e.chroma_sampling.get_decimation().unwrap_or((0, 0)) };
        ((self.e.width + xd) >> xd, (self.e.height + yd) >> yd)
    }
    fn planes(&self) -> usize { if self.e.chroma_sampling == nat::ChromaSampling::Cs400 { 1 } else { 3 } }
    fn native_frame(&self, x: usize, f: &Fr) -> nat::Frame<T> {
        let mut n = self.xs[x].as_ref().unwrap().n.new_frame();
        if f.filled { self.content.fill(&mut n, f.content, self.e.width, self.e.height) }
        n
    }
    unsafe fn fill(&mut self, k: u64, i: u64, slack: usize) {
        let (w, h) = (self.e.width, self.e.height);
        let any = self.xs.iter().position(|x| x.is_some()).unwrap();
        let mut n = self.xs[any].as_ref().unwrap().n.new_frame();
        self.content.fill(&mut n, i, w, h);
        let bw = std::mem::size_of::<T>();
        for p in 0..self.planes() {
            let (pw, ph) = self.dims(p);
            let stride = (pw + slack) * bw;
            let mut b = vec![0xa5u8; stride * ph];
            let cfg = &n.planes[p].cfg;
            let d = n.planes[p].data_origin();
            for y in 0..ph { for x in 0..pw {
                let v = u16::cast_from(d[y * cfg.stride + x]);
                let o = y * stride + x * bw;
                b[o] = v as u8;
                if bw == 2 { b[o + 1] = (v >> 8) as u8 }
            } }
            let f = &self.fr[&k];
            rav1e_frame_fill_plane(f.c, p as c_int, b.as_ptr(), b.len(), stride as isize, bw as c_int);
        }
        let f = self.fr.get_mut(&k).unwrap();
        f.content = i;
        f.filled = true;
    }
    unsafe fn extract(&self, f: *const capi::Frame) -> String {
        if f.is_null() { return String::new() }
        let bw = std::mem::size_of::<T>();
        let mut h = crate::dec::Fnv::new();
        for p in 0..self.planes() {
            let (pw, ph) = self.dims(p);
            let stride = (pw + 5) * bw;
            let mut b = vec![0u8; stride * ph];
            rav1e_frame_extract_plane(f, p as c_int, b.as_mut_ptr(), b.len(), stride as isize, bw as c_int);
            for y in 0..ph { for x in 0..pw {
                let o = y * stride + x * bw;
                h.u16(if bw == 2 { b[o] as u16 | (b[o + 1] as u16) << 8 } else { b[o] as u16 });
            } }
        }
        h.hex()
    }
    fn put(&mut self, mut v: Value) { v["cbs"] = released(); self.ev.push(v) }
    unsafe fn send(&mut self, x: usize, k: Option<u64>) {
        let t = self.xs[x].as_ref().unwrap();
        let (cx, fc) = (t.c, k.map_or(null_mut(), |k| self.fr[&k].c));
        let c = rav1e_send_frame(cx, fc) as i32;
        let r = match k {
            None => { let n = &mut self.xs[x].as_mut().unwrap().n; guard(|| n.send_frame(None::<std::sync::Arc<nat::Frame<T>>>)) }
            Some(k) => {
                let f = &self.fr[&k];
                let fit = f.bd == std::mem::size_of::<T>();
                let nf = self.native_frame(x, f);
                let p = nat::FrameParameters { frame_type_override: if f.key { nat::FrameTypeOverride::Key } else { nat::FrameTypeOverride::No }, opaque: None, t35_metadata: f.t35.clone().into_boxed_slice() };
                let n = &mut self.xs[x].as_mut().unwrap().n;
                let r = guard(|| if fit { n.send_frame((nf, p)) } else { Err(nat::EncoderStatus::Failure) });
                self.fr.get_mut(&k).unwrap().t35.clear();
                r
            }
        };
        let n = r.map(code).unwrap_or(99);
        let last = rav1e_last_status(cx) as i32;
        self.put(json!({"o": if k.is_some() { "send" } else { "flush" }, "x": x + 1, "k": k.unwrap_or(0), "c": c, "n": n, "last": last}));
    }
    unsafe fn recv(&mut self, x: usize) -> i32 {
        let cx = self.xs[x].as_ref().unwrap().c;
        let mut p: *mut Packet = null_mut();
        let c = rav1e_receive_packet(cx, &mut p) as i32;
        let n = &mut self.xs[x].as_mut().unwrap().n;
        let (nc, pn) = match guard(|| n.receive_packet()) {
            Ok(Ok(p)) => (0, json!({"no": p.input_frameno, "ft": ftn(p.frame_type), "data": fnv(&p.data), "len": p.data.len(),
                "rec": p.rec.as_ref().map(|r| frame_hash(r, self.e.width, self.e.height, self.planes() == 1)).unwrap_or_default(),
                "src": p.source.as_ref().map(|r| frame_hash(r, self.e.width, self.e.height, self.planes() == 1)).unwrap_or_default()})),
            Ok(Err(s)) => (code(Err(s)), json!({})),
            Err(_) => (99, json!({})),
        };
        let (mut pc, mut opq) = (json!({}), 0u64);
        if c == 0 && !p.is_null() {
            let q = &*p;
            pc = json!({"no": q.input_frameno, "ft": ftn(q.frame_type), "data": fnv(std::slice::from_raw_parts(q.data, q.len)), "len": q.len, "rec": self.extract(q.rec), "src": self.extract(q.source)});
            opq = q.opaque as u64;
            self.pk.push(p);
        }
        let last = rav1e_last_status(cx) as i32;
        self.put(json!({"o": "recv", "x": x + 1, "c": c, "n": nc, "last": last, "got": !p.is_null(), "pc": pc, "pn": pn, "opq": opq}));
        c
    }
    unsafe fn rcout(&mut self, x: usize) -> i32 {
        let t = self.xs[x].as_mut().unwrap();
        let mut d: *mut Data = null_mut();
        let k = rav1e_rc_receive_pass_data(t.c, &mut d) as i32;
        let n = &mut t.n;
        let (kn, bn) = match guard(|| n.rc_receive_pass_data()) { Ok(Some(nat::RcData::Summary(b))) => (0, b.to_vec()), Ok(Some(nat::RcData::Frame(b))) => (1, b.to_vec()), Ok(None) => (2, vec![]), Err(_) => (99, vec![]) };
        let mut bc: Vec<u8> = vec![];
        if !d.is_null() { bc = std::slice::from_raw_parts((*d).data, (*d).len).to_vec(); rav1e_data_unref(d); }
        let (sc, sn) = (rav1e_rc_summary_size(t.c), t.n.rc_summary_size());
        let cx = t.c;
        if k == 0 { self.sum = bc.clone() } else if k == 1 { self.recs.push(bc.clone()) }
        let last = rav1e_last_status(cx) as i32;
        self.put(json!({"o": "rcout", "x": x + 1, "c": k, "n": kn, "bc": bc, "bn": bn, "sc": sc, "sn": sn, "last": last}));
        k
    }
    unsafe fn rcneed(&mut self, x: usize) -> usize {
        let t = self.xs[x].as_mut().unwrap();
        let c = rav1e_rc_second_pass_data_required(t.c);
        let n = &mut t.n;
        let r = guard(|| n.rc_second_pass_data_required()).map(|v| v as i64).unwrap_or(-99);
        let last = rav1e_last_status(self.xs[x].as_ref().unwrap().c) as i32;
        self.put(json!({"o": "need", "x": x + 1, "c": c, "n": r, "last": last}));
        c.max(0) as usize
    }
    /// Offers `avail` bytes of the statistics; records what moved.
    unsafe fn rcin(&mut self, x: usize, avail: usize) -> bool {
        let b: Vec<u8> = self.given[self.off..(self.off + avail).min(self.given.len())].to_vec();
        let t = self.xs[x].as_mut().unwrap();
        let (mut d, mut l) = (b.as_ptr(), b.len());
        let c = rav1e_rc_send_pass_data(t.c, &mut d, &mut l);
        let moved = d as usize - b.as_ptr() as usize;
        let shrunk = b.len() - l;
        // what the native interface makes of the record, if it is all there
        let whole = b.len() >= 8 && u64::from_be_bytes(b[..8].try_into().unwrap()) <= (b.len() - 8) as u64;
        let n = &mut t.n;
        let r = if whole {
            let len = u64::from_be_bytes(b[..8].try_into().unwrap()) as usize;
            guard(|| n.rc_send_pass_data(&b[8..8 + len])).map(code).unwrap_or(99)
        } else { 0 };
        let last = rav1e_last_status(t.c) as i32;
        self.off += moved;
        self.put(json!({"o": "rcin", "x": x + 1, "c": c, "n": r, "last": last, "avail": b.len(), "head": b[..b.len().min(8)].to_vec(), "moved": moved, "shrunk": shrunk}));
        moved > 0
    }
    unsafe fn tpin(&mut self, x: usize, avail: usize) -> usize {
        let mut b: Vec<u8> = self.given[self.off..(self.off + avail).min(self.given.len())].to_vec();
        let t = self.xs[x].as_mut().unwrap();
        let nc = rav1e_twopass_bytes_needed(t.c);
        let n = &mut t.n;
        let nn = guard(|| n.twopass_bytes_needed()).map(|v| v as i64).unwrap_or(-99);
        let c = rav1e_twopass_in(t.c, b.as_mut_ptr(), b.len());
        let n = &mut t.n;
        let r = match guard(|| n.twopass_in(&b)) { Ok(Ok(v)) => (v as i64, 0), Ok(Err(s)) => (-1, code(Err(s))), Err(_) => (-99, 99) };
        let last = rav1e_last_status(t.c) as i32;
        self.off += c.max(0) as usize;
        self.put(json!({"o": "tpin", "x": x + 1, "c": c, "n": r.0, "st": r.1, "last": last, "nc": nc, "nn": nn}));
        c.max(0) as usize
    }
    unsafe fn tpout(&mut self, x: usize) -> bool {
        let t = self.xs[x].as_mut().unwrap();
        let d = rav1e_twopass_out(t.c);
        let n = &mut t.n;
        let bn: Vec<u8> = guard(|| n.twopass_out().map(|b| b.to_vec())).ok().flatten().unwrap_or_default();
        let mut bc: Vec<u8> = vec![];
        if !d.is_null() { bc = std::slice::from_raw_parts((*d).data, (*d).len).to_vec(); rav1e_data_unref(d); }
        let last = rav1e_last_status(self.xs[x].as_ref().unwrap().c) as i32;
        if bc.len() == 8 { self.recs.push(bc.clone()) } else if !bc.is_empty() { self.sum = bc.clone() }
        let more = !bc.is_empty();
        self.put(json!({"o": "tpout", "x": x + 1, "bc": bc, "bn": bn, "last": last}));
        more
    }
    unsafe fn drop_ctx(&mut self, x: usize) {
        if let Some(t) = self.xs[x].take() {
            rav1e_context_unref(t.c);
            drop(t.n);
            self.put(json!({"o": "drop", "x": x + 1}));
        }
    }
    unsafe fn header(&mut self, x: usize) {
        let t = self.xs[x].as_ref().unwrap();
        let d = rav1e_container_sequence_header(t.c);
        let b = std::slice::from_raw_parts((*d).data, (*d).len).to_vec();
        rav1e_data_unref(d);
        let n = t.n.container_sequence_header();
        self.put(json!({"o": "hdr", "x": x + 1, "c": b, "n": n}));
    }
    fn new_frame(&mut self, x: usize, k: u64) {
        let c = unsafe { rav1e_frame_new(self.xs[x].as_ref().unwrap().c) };
        self.fr.insert(k, Fr { c, content: 0, filled: false, key: false, t35: vec![], bd: std::mem::size_of::<T>() });
        self.put(json!({"o": "new", "k": k}));
    }
    /// Drives context x to its end with frames first.. of the video.
    unsafe fn finish(&mut self, x: usize, first: u64, n: u64, pass: &str, chunk: usize) -> &'static str {
        let mut next = first;
        let mut stuck = 0;
        for _ in 0..40 * (n + 10) {
            if pass == "out" { self.rcout(x); }
            if pass == "tpout" { while self.tpout(x) {} }
            if pass == "in" {
                let mut left = 3 * self.given.len() + 50;
                let mut size = chunk;
                while self.rcneed(x) > 0 && left > 0 {
                    left -= 1;
                    if self.rcin(x, size) { size = chunk } else { size += chunk }
                    if size > 100000 { return "starved" }
                }
            }
            if pass == "tpin" {
                let mut z = 0;
                while z < 3 && self.off < self.given.len() { if self.tpin(x, chunk) == 0 { z += 1; } else { z = 0 } if z > 0 { break } }
            }
            match self.recv(x) {
                0 | 4 => stuck = 0,
                1 => {
                    if next < n {
                        let k = 9000 + next;
                        self.new_frame(x, k);
                        self.fill(k, next, (next % 3) as usize);
                        self.send(x, Some(k));
                        rav1e_frame_unref(self.fr.remove(&k).unwrap().c);
                        self.put(json!({"o": "unref", "k": k}));
                        next += 1;
                    } else { self.send(x, None) }
                }
                3 => {
                    if pass == "out" { self.rcout(x); self.rcout(x); }
                    if pass == "tpout" { self.tpout(x); self.tpout(x); }
                    return "done"
                }
                -2 => { stuck += 1; if stuck > 3 { return "starved" } }
                _ => return "refused",
            }
        }
        "livelock"
    }
}

/// Makes a context of both kinds; the C one from a C configuration.
unsafe fn pair<T: nat::Pixel>(c: *mut capi::Config, n: &nat::Config, ev: &mut Vec<Value>) -> Option<Two<T>> {
    let x = rav1e_context_new(c);
    let r = guard(|| n.new_context::<T>());
    ev.push(json!({"o": "ctx", "c": !x.is_null(), "n": matches!(r, Ok(Ok(_))), "cbs": []}));
    match r { Ok(Ok(n)) if !x.is_null() => Some(Two { c: x, n }), _ => None }
}

pub fn run(job: &Value) -> Value {
    match job["reps"].as_u64() {
        Some(n) => crate::mem::repeat(n, || once(job)),
        None => once(job),
    }
}

fn once(job: &Value) -> Value {
    RELEASED.lock().unwrap().clear();
    if job["cfg"]["bd"].as_u64().unwrap_or(8) == 8 { unsafe { run_t::<u8>(job) } } else { unsafe { run_t::<u16>(job) } }
}

unsafe fn options(c: *mut capi::Config, job: &Value) {
    for (k, v) in job["copt"].as_object().unwrap() {
        let k = CString::new(k.as_str()).unwrap();
        let v = CString::new(v.as_str().unwrap()).unwrap();
        assert_eq!(rav1e_config_parse(c, k.as_ptr(), v.as_ptr()), 0, "option {k:?} {v:?}");
    }
}

unsafe fn run_t<T: nat::Pixel>(job: &Value) -> Value {
    let e = cfg::enc_config(&job["cfg"]);
    let mut ev = vec![];
    let content = Content::from(&job["content"], e.bit_depth);
    let mut end = "done".to_string();
    let (mut sum, mut recs): (Vec<u8>, Vec<Vec<u8>>) = (vec![], vec![]);
    for p in job["passes"].as_array().unwrap() {
        let mode = p["mode"].as_str().unwrap_or("");
        let cc = c_config(&job["cfg"]);
        options(cc, job);
        let mut rc = nat::RateControlConfig::new();
        let emit = mode == "out" || mode == "tpout";
        rav1e_config_set_emit_data(cc, if emit { p["emitv"].as_i64().unwrap_or(1) as c_int } else { 0 });
        let mut given: Vec<u8> = recs.concat();
        if mode == "in" {
            // the summary, in ever larger pieces
            let step = p["step"].as_u64().unwrap_or(1000) as usize;
            let mut all = sum.clone();
            if let Some(a) = p["head"].as_array() { for (i, b) in a.iter().enumerate() { all[i] = b.as_u64().unwrap() as u8 } }
            all.extend_from_slice(&[1, 2, 3]);
            let mut avail = step;
            let mut got = false;
            for _ in 0..100 {
                avail = avail.min(all.len());
                let (mut d, mut l) = (all.as_ptr(), avail);
                let r = rav1e_config_set_rc_summary(cc, &mut d, &mut l);
                let moved = d as usize - all.as_ptr() as usize;
                let whole = avail >= 8 && u64::from_be_bytes(all[..8].try_into().unwrap()) <= (avail - 8) as u64;
                let nr = if whole { let len = u64::from_be_bytes(all[..8].try_into().unwrap()) as usize; guard(|| nat::RateControlConfig::from_summary_slice(&all[8..8 + len]).is_ok()).map(|b| if b { 0 } else { -1 }).unwrap_or(99) } else { 0 };
                ev.push(json!({"o": "sum", "c": r, "n": nr, "avail": avail, "head": all[..avail.min(8)].to_vec(), "moved": moved, "shrunk": avail - l, "cbs": []}));
                if r == 0 { got = moved > 0; break }
                if r < 0 || avail == all.len() { break }
                avail += step;
            }
            if !got { rav1e_config_unref(cc); end = "no-summary".into(); break }
            let len = u64::from_be_bytes(sum[..8].try_into().unwrap()) as usize;
            rc = nat::RateControlConfig::from_summary_slice(&sum[8..8 + len]).unwrap();
            if p["reset"].as_bool() == Some(true) {
                let r = rav1e_config_set_rc_summary(cc, null_mut(), null_mut());
                ev.push(json!({"o": "reset", "c": r, "cbs": []}));
                rc = nat::RateControlConfig::new();
            }
        }
        if mode == "tpin" { given.splice(0..0, sum.iter().copied()); }
        let n = cfg::config(&job["cfg"]).with_rate_control(rc.with_emit_data(emit));
        let nx = p["ctxs"].as_u64().unwrap_or(1);
        let mut xs = vec![];
        for _ in 0..nx { xs.push(pair::<T>(cc, &n, &mut ev)) }
        rav1e_config_unref(cc);
        if xs.iter().any(|x| x.is_none()) { end = "refused".into(); break }
        let mut s = S { e: e.clone(), content: content.clone(), xs, fr: BTreeMap::new(), pk: vec![], ev: vec![], given, off: 0, sum: vec![], recs: vec![] };
        for op in p["ops"].as_array().unwrap_or(&vec![]) {
            let a = |i: usize| op[i].as_u64().unwrap_or(0);
            let x = (a(1).max(1) - 1) as usize;
            match op[0].as_str().unwrap() {
                "new" => if s.xs[x].is_some() && !s.fr.contains_key(&a(2)) { s.new_frame(x, a(2)) },
                "fill" => if s.fr.contains_key(&a(2)) && s.xs.iter().any(|x| x.is_some()) { s.fill(a(2), a(3), a(4) as usize) },
                "opq" => if s.fr.contains_key(&a(2)) {
                    rav1e_frame_set_opaque(s.fr[&a(2)].c, a(3) as *mut c_void, if a(4) == 1 { Some(release) } else { None });
                    s.put(json!({"o": "opq", "k": a(2), "id": a(3), "cb": a(4)}));
                },
                "t35" => if let Some(f) = s.fr.get_mut(&a(2)) {
                    let d: Vec<u8> = (0..a(3)).map(|i| (i * 7 + a(2)) as u8).collect();
                    rav1e_frame_add_t35_metadata(f.c, 181, 3, d.as_ptr(), d.len());
                    f.t35.push(nat::T35 { country_code: 181, country_code_extension_byte: 3, data: d.into() });
                },
                "type" => if let Some(f) = s.fr.get_mut(&a(2)) {
                    let c = rav1e_frame_set_type(f.c, if a(3) == 1 { nat::FrameTypeOverride::Key } else { nat::FrameTypeOverride::No });
                    f.key = a(3) == 1;
                    s.put(json!({"o": "type", "c": c}));
                },
                "send" => if s.xs[x].is_some() && s.fr.contains_key(&a(2)) { s.send(x, Some(a(2))) },
                "flush" => if s.xs[x].is_some() { s.send(x, None) },
                "recv" => if s.xs[x].is_some() { s.recv(x); },
                "unref" => if let Some(f) = s.fr.remove(&a(2)) { rav1e_frame_unref(f.c); s.put(json!({"o": "unref", "k": a(2)})) },
                "punref" => if !s.pk.is_empty() { let i = a(2) as usize % s.pk.len(); let q = s.pk.remove(i); rav1e_packet_unref(q); s.put(json!({"o": "punref"})) },
                "hdr" => if s.xs[x].is_some() { s.header(x) },
                "rcout" => if s.xs[x].is_some() { s.rcout(x); },
                "tpout" => if s.xs[x].is_some() { s.tpout(x); },
                "rcin" => if s.xs[x].is_some() && s.rcneed(x) > 0 { s.rcin(x, a(2) as usize); },
                "bad" => if s.xs[x].is_some() {
                    // a damaged record in front of the real ones
                    let mut b = op[2].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as u8).collect::<Vec<_>>();
                    let keep = s.given.split_off(s.off);
                    s.given.append(&mut b);
                    s.rcin(x, s.given.len() - s.off);
                    s.given.truncate(s.off);
                    s.given.extend(keep);
                },
                "drop" => if s.xs[x].is_some() { s.drop_ctx(x) },
                "null" => { rav1e_frame_unref(null_mut()); rav1e_packet_unref(null_mut()); rav1e_context_unref(null_mut()); rav1e_config_unref(null_mut()); rav1e_data_unref(null_mut()); s.put(json!({"o": "null"})); }
                o => panic!("bad op {o}"),
            }
        }
        if p["finish"].as_bool().unwrap_or(true) {
            for x in 0..s.xs.len() {
                if s.xs[x].is_some() {
                    end = s.finish(x, p["first"].as_u64().unwrap_or(0), p["n"].as_u64().unwrap_or(5), mode, p["chunk"].as_u64().unwrap_or(1000) as usize).to_string();
                    s.put(json!({"o": "end", "r": end}));
                }
            }
        }
        // everything is given back, in one of the two orders
        let frames: Vec<u64> = s.fr.keys().copied().collect();
        if p["frames_first"].as_bool() == Some(true) {
            for k in &frames { rav1e_frame_unref(s.fr.remove(k).unwrap().c); s.put(json!({"o": "unref", "k": k})) }
        }
        for x in 0..s.xs.len() { s.drop_ctx(x) }
        for k in &frames { if let Some(f) = s.fr.remove(k) { rav1e_frame_unref(f.c); s.put(json!({"o": "unref", "k": k})) } }
        for q in std::mem::take(&mut s.pk) { rav1e_packet_unref(q); s.put(json!({"o": "punref"})) }
        s.put(json!({"o": "over"}));
        ev.append(&mut s.ev);
        sum = std::mem::take(&mut s.sum);
        recs = std::mem::take(&mut s.recs);
    }
    json!({"ev": ev, "end": end})
}

extern "C" {
    #[link_name = "rav1e_config_set_pixel_format"]
    fn set_pixel_format(cfg: *mut c_void, bd: u8, ss: c_int, pos: c_int, range: c_int) -> c_int;
    #[link_name = "rav1e_config_set_color_description"]
    fn set_color(cfg: *mut c_void, m: c_int, p: c_int, t: c_int) -> c_int;
    #[link_name = "rav1e_status_to_str"]
    fn status_to_str(s: c_int) -> *const c_char;
}

/// Option calls and the configuration after each of them.
pub fn options_job(job: &Value) -> Value {
    let mut out = vec![];
    let presets: Vec<String> = (0..=10).map(|s| format!("{:?}", nat::SpeedSettings::from_preset(s))).collect();
    unsafe {
        let c = rav1e_config_default();
        let see = |c: *mut capi::Config| {
            // the C configuration holds exactly a native one
            if std::mem::size_of::<capi::Config>() == std::mem::size_of::<nat::Config>() { format!("{:?}", *(c as *const nat::Config)) } else { String::new() }
        };
        out.push(json!({"r": 0, "cfg": see(c)}));
        for op in job["ops"].as_array().unwrap() {
            let i = |k: usize| op[k].as_i64().unwrap() as c_int;
            let r = match op[0].as_str().unwrap() {
                "opt" => { let (k, v) = (CString::new(op[1].as_str().unwrap()).unwrap(), CString::new(op[2].as_str().unwrap()).unwrap()); rav1e_config_parse(c, k.as_ptr(), v.as_ptr()) }
                "raw" => { let b = |k: usize| { let mut v: Vec<u8> = op[k].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect(); v.push(0); v }; let (k, v) = (b(1), b(2)); rav1e_config_parse(c, k.as_ptr() as *const c_char, v.as_ptr() as *const c_char) }
                "int" => { let k = CString::new(op[1].as_str().unwrap()).unwrap(); rav1e_config_parse_int(c, k.as_ptr(), i(2)) }
                "pix" => set_pixel_format(c as *mut c_void, i(1) as u8, i(2), i(3), i(4)),
                "color" => set_color(c as *mut c_void, i(1), i(2), i(3)),
                "cll" => rav1e_config_set_content_light(c, i(1) as u16, i(2) as u16),
                "mdcv" => { let p = [1usize, 3, 5].map(|k| nat::ChromaticityPoint { x: i(k) as u16, y: i(k + 1) as u16 }); rav1e_config_set_mastering_display(c, p.as_ptr(), nat::ChromaticityPoint { x: i(7) as u16, y: i(8) as u16 }, op[9].as_u64().unwrap() as u32, op[10].as_u64().unwrap() as u32) }
                "tb" => { rav1e_config_set_time_base(c, nat::Rational { num: op[1].as_u64().unwrap(), den: op[2].as_u64().unwrap() }); 0 }
                "sar" => { rav1e_config_set_sample_aspect_ratio(c, nat::Rational { num: op[1].as_u64().unwrap(), den: op[2].as_u64().unwrap() }); 0 }
                "emit" => { rav1e_config_set_emit_data(c, i(1)); 0 }
                o => panic!("bad op {o}"),
            };
            out.push(json!({"r": r, "cfg": see(c)}));
        }
        let n = rav1e_context_new(c);
        // the same configuration, used natively
        let ok = if std::mem::size_of::<capi::Config>() == std::mem::size_of::<nat::Config>() {
            let k: &nat::Config = &*(c as *const nat::Config);
            if see(c).contains("bit_depth: 8,") { guard(|| k.new_context::<u8>().is_ok()) } else { guard(|| k.new_context::<u16>().is_ok()) }.unwrap_or(false)
        } else { !n.is_null() };
        out.push(json!({"r": if n.is_null() { -1 } else { 0 }, "n": ok, "cfg": see(c)}));
        rav1e_context_unref(n);
        rav1e_config_unref(c);
        let strs: Vec<Value> = (-2..5).map(|s| { let p = status_to_str(s); if p.is_null() { json!("") } else { json!(std::ffi::CStr::from_ptr(p).to_string_lossy()) } }).collect();
        json!({"out": out, "presets": presets, "strs": strs})
    }
}

/// Makes and gives back one kind of object many times: bytes it left behind.
pub fn leaks(job: &Value) -> Value {
    unsafe { leaks_t(job) }
}

unsafe fn leaks_t(job: &Value) -> Value {
    let times = job["times"].as_u64().unwrap_or(200);
    let set = |c: *mut capi::Config| for (k, v) in [("width", "32"), ("height", "32"), ("speed", "10"), ("threads", "1"), ("low_latency", "true"), ("rdo_lookahead_frames", "1"), ("bitrate", "100")] {
        let (k, v) = (CString::new(k).unwrap(), CString::new(v).unwrap());
        rav1e_config_parse(c, k.as_ptr(), v.as_ptr());
    };
    let cc = rav1e_config_default();
    set(cc);
    rav1e_config_set_emit_data(cc, 1);
    let cx = rav1e_context_new(cc);
    rav1e_config_set_emit_data(cc, 0);
    let plain = rav1e_context_new(cc);
    let mut ev = vec![];
    let data = [5u8; 300];
    let mut recs = 0;
    let mut rec = |cx: *mut capi::Context| { let mut d: *mut Data = null_mut(); if rav1e_rc_receive_pass_data(cx, &mut d) as i32 == 1 { recs += 1 } ; if !d.is_null() { rav1e_data_unref(d) } };
    for what in ["packet", "record", "resend", "parse", "frame", "opaque", "t35", "header", "config", "refused"] {
        let mut go = |n: u64| for i in 0..n {
            match what {
                "config" => { let c = rav1e_config_default(); set(c); rav1e_config_unref(c) }
                "refused" => {
                    let c = rav1e_config_default();
                    set(c);
                    let (k, v) = (CString::new("width").unwrap(), CString::new("1").unwrap());
                    rav1e_config_parse(c, k.as_ptr(), v.as_ptr());
                    assert!(rav1e_context_new(c).is_null());
                    rav1e_config_unref(c);
                }
                "parse" => { set(cc); let (k, v) = (CString::new("quantizer").unwrap(), CString::new("zzz").unwrap()); rav1e_config_parse(cc, k.as_ptr(), v.as_ptr()); }
                "frame" => rav1e_frame_unref(rav1e_frame_new(cx)),
                "opaque" => { let f = rav1e_frame_new(cx); rav1e_frame_set_opaque(f, 7 as *mut c_void, Some(release)); rav1e_frame_set_opaque(f, 8 as *mut c_void, if i % 2 == 0 { None } else { Some(release) }); rav1e_frame_unref(f) }
                "t35" => { let f = rav1e_frame_new(cx); for _ in 0..3 { rav1e_frame_add_t35_metadata(f, 181, 0, data.as_ptr(), data.len()) } rav1e_frame_unref(f) }
                "header" => rav1e_data_unref(rav1e_container_sequence_header(cx)),
                _ => {
                    let cx = if what == "record" { cx } else { plain };
                    let f = rav1e_frame_new(cx);
                    if what == "resend" { rav1e_frame_set_opaque(f, 9 as *mut c_void, Some(release)); rav1e_frame_add_t35_metadata(f, 181, 0, data.as_ptr(), data.len()) }
                    rav1e_send_frame(cx, f);
                    if what == "resend" { rav1e_send_frame(cx, f); }
                    rav1e_frame_unref(f);
                    for _ in 0..5 {
                        let mut p: *mut Packet = null_mut();
                        rav1e_receive_packet(cx, &mut p);
                        rav1e_packet_unref(p);
                        if what == "record" { rec(cx) }
                    }
                }
            }
            RELEASED.lock().unwrap().clear();
        };
        go(40);
        let a = crate::mem::live();
        go(times);
        let b = crate::mem::live();
        ev.push(json!({"o": "left", "what": what, "times": times, "before": a, "after": b, "cbs": []}));
    }
    rav1e_context_unref(cx);
    rav1e_context_unref(plain);
    rav1e_config_unref(cc);
    RELEASED.lock().unwrap().clear();
    json!({"ev": ev, "records": recs})
}
