//! IVF writer and reader through awkward streams.
use crate::session::guard;
use serde_json::{json, Value};
use std::io::{self, Read, Write};

/// Accepts a few bytes at a time and is interrupted now and then.
struct Slow { out: Vec<u8>, chunk: usize, n: usize }
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.n += 1;
        if self.chunk > 0 && self.n % 5 == 0 { return Err(io::ErrorKind::Interrupted.into()); }
        let k = if self.chunk == 0 { b.len() } else { b.len().min(self.chunk) };
        self.out.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
struct Drip<'a> { d: &'a [u8], chunk: usize, n: usize }
impl Read for Drip<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.n += 1;
        if self.chunk > 0 && self.n % 5 == 0 { return Err(io::ErrorKind::Interrupted.into()); }
        let mut k = b.len().min(self.d.len());
        if self.chunk > 0 { k = k.min(self.chunk); }
        b[..k].copy_from_slice(&self.d[..k]);
        self.d = &self.d[k..];
        Ok(k)
    }
}
fn h32(x: u32) -> Value { json!([x & 0xffff, x >> 16]) }
fn h64(x: u64) -> Value { json!([x & 0xffff, x >> 16 & 0xffff, x >> 32 & 0xffff, x >> 48]) }
fn kind(e: io::Error) -> Value {
    json!({"r": match e.kind() { io::ErrorKind::UnexpectedEof => "eof".into(), io::ErrorKind::InvalidData => "bad".into(), k => format!("{k:?}") }})
}
fn read_all(d: &[u8], chunk: usize) -> Value {
    let mut out = vec![];
    let r = guard(|| {
        let mut r = Drip { d, chunk, n: 0 };
        match ivf::read_header(&mut r) {
            Ok(h) => out.push(json!({"r": "hdr", "tag": h.tag, "w": h.w, "h": h.h, "num": h32(h.timebase_num), "den": h32(h.timebase_den)})),
            Err(e) => { out.push(kind(e)); return; }
        }
        loop {
            match ivf::read_packet(&mut r) {
                Ok(p) => out.push(json!({"r": "pkt", "pts": h64(p.pts), "data": p.data})),
                Err(e) => { out.push(kind(e)); return; }
            }
            if out.len() > 1000 { return; }
        }
    });
    if r.is_err() { out.push(json!({"r": "panic"})); }
    json!(out)
}
fn u(v: &Value) -> u64 { v.as_u64().unwrap() }

pub fn run(job: &Value) -> Value {
    let chunk = job["chunk"].as_u64().unwrap_or(0) as usize;
    let h = &job["h"];
    let pay = |p: &Value| -> Vec<u8> {
        if let Some(a) = p["data"].as_array() { return a.iter().map(|x| u(x) as u8).collect(); }
        let n = u(&p["len"]);
        (0..n).map(|i| (i.wrapping_mul(0x9e37_79b9) >> 13) as u8).collect()
    };
    let mut ev = vec![];
    let w = guard(|| {
        let mut s = Slow { out: vec![], chunk, n: 0 };
        ivf::write_ivf_header(&mut s, u(&h["w"]) as usize, u(&h["h"]) as usize, u(&h["num"]) as usize, u(&h["den"]) as usize);
        for p in job["ps"].as_array().unwrap() { ivf::write_ivf_frame(&mut s, u(&p["pts"]), &pay(p)); }
        s.out
    });
    let bytes = match w { Ok(b) => b, Err(m) => return json!({"ev": [{"o": "W", "panic": m}]}) };
    ev.push(json!({"o": "W", "h": {"w": h["w"], "h": h["h"], "num": h32(u(&h["num"]) as u32), "den": h32(u(&h["den"]) as u32)},
        "ps": job["ps"].as_array().unwrap().iter().map(|p| json!({"pts": h64(u(&p["pts"])), "data": pay(p)})).collect::<Vec<_>>(),
        "bytes": bytes, "res": read_all(&bytes, chunk)}));
    for c in 0..bytes.len() { ev.push(json!({"o": "T", "cut": c, "res": read_all(&bytes[..c], chunk)})); }
    for p in 0..4 {
        for v in [0u8, 68, 73, 255] {
            let mut b = bytes.clone();
            b[p] = v;
            ev.push(json!({"o": "X", "pos": p + 1, "val": v, "res": read_all(&b, chunk)}));
        }
    }
    for p in job["big"].as_array().unwrap() {
        let d = pay(p);
        let pts = u(&p["pts"]);
        let r = guard(|| {
            let mut s = Slow { out: vec![], chunk: if chunk == 0 { 0 } else { 4096 }, n: 0 };
            ivf::write_ivf_frame(&mut s, pts, &d);
            let b = s.out;
            let back = match ivf::read_packet(&mut Drip { d: &b, chunk: if chunk == 0 { 0 } else { 4096 }, n: 0 }) {
                Ok(q) => json!({"r": "pkt", "pts": h64(q.pts), "same": q.data[..] == d[..]}),
                Err(e) => kind(e),
            };
            let cut = match ivf::read_packet(&mut &b[..b.len() - 1]) { Ok(_) => json!("pkt"), Err(e) => kind(e)["r"].clone() };
            json!({"o": "B", "pts": h64(pts), "len": d.len(), "fh": b[..12.min(b.len())], "same": b.len() == d.len() + 12 && b[12..] == d[..], "back": back, "cut": cut})
        });
        ev.push(r.unwrap_or_else(|m| json!({"o": "B", "pts": h64(pts), "len": d.len(), "fh": [], "same": false, "why": m})));
    }
    json!({"ev": ev})
}
