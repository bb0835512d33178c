//! What an encoder holds on to: pictures, user data and heap memory.
use crate::cfg;
use crate::content::*;
use crate::session::{guard, status};
use rav1e::prelude::*;
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::sync::{Arc, Weak};

/// Bytes allocated and not yet freed by the Rust code of this process.
static LIVE: AtomicI64 = AtomicI64::new(0);
pub struct Counting;
// SAFETY: passes every request on to the system's allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() { LIVE.fetch_add(l.size() as i64, std::sync::atomic::Ordering::Relaxed); }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() { LIVE.fetch_add(l.size() as i64, std::sync::atomic::Ordering::Relaxed); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() { LIVE.fetch_add(n as i64 - l.size() as i64, std::sync::atomic::Ordering::Relaxed); }
        q
    }
}
pub fn live() -> i64 { LIVE.load(SeqCst) }
/// The least that is allocated until it is no more than the limit, or until
/// nothing has moved for a while; worker threads end on their own time.
pub fn settled(limit: i64, calm: u128) -> i64 {
    let t = std::time::Instant::now();
    let (mut m, mut moved) = (live(), t);
    while m > limit && moved.elapsed().as_millis() < calm && t.elapsed().as_millis() < 6000 {
        std::thread::sleep(std::time::Duration::from_millis(1));
        let n = live();
        if n < m { m = n; moved = std::time::Instant::now(); }
    }
    m
}

static OPAQUES: AtomicI64 = AtomicI64::new(0);
struct Tag(#[allow(dead_code)] u64);
impl Drop for Tag {
    fn drop(&mut self) { OPAQUES.fetch_sub(1, SeqCst); }
}

pub fn run(job: &Value) -> Value {
    if job["cfg"]["bd"].as_u64().unwrap_or(8) == 8 { run_t::<u8>(job) } else { run_t::<u16>(job) }
}

fn run_t<T: Pixel>(job: &Value) -> Value { repeat(job["reps"].as_u64().unwrap_or(2), || once::<T>(job)) }

/// Does the same thing again and again: "before" and "after" are what stays
/// allocated after the second and after the last time.
pub fn repeat(reps: u64, f: impl Fn() -> Value) -> Value {
    let mut out = json!({});
    let mut base = 0;
    for r in 0..reps {
        let v = f();
        if r + 1 < reps {
            drop(v);
            // after the first two, whatever is made once is there
            if r == 1 { base = settled(0, 30); }
            continue;
        }
        // what the result itself occupies is not the encoder's
        let text = v.to_string().into_boxed_str();
        drop(v);
        let now = settled(base + text.len() as i64 + 4096, 1500) - text.len() as i64;
        out = serde_json::from_str(&text).unwrap();
        out["before"] = json!(base);
        out["after"] = json!(now);
    }
    out
}

struct Step { op: u8, res: String, no: i64, held: Vec<u64>, opq: i64, heap: i64 }

fn once<T: Pixel>(job: &Value) -> Value {
    let c = cfg::config(&job["cfg"]);
    let e = cfg::enc_config(&job["cfg"]);
    let content = Content::from(&job["content"], e.bit_depth);
    let n = job["n"].as_u64().unwrap_or(0);
    let stop = job["stop"].as_u64().unwrap_or(u64::MAX);
    let ahead = job["ahead"].as_u64().unwrap_or(0);
    let every = job["opq"].as_u64().unwrap_or(0);
    let t35 = job["t35"].as_u64().unwrap_or(0);
    let keyed = job["key"].as_u64().unwrap_or(0);
    let period = job["period"].as_u64().unwrap_or(u64::MAX);
    OPAQUES.store(0, SeqCst);
    let mut steps: Vec<Step> = Vec::with_capacity(8 * n as usize + 64);
    let mut alive: Vec<(u64, Weak<Frame<T>>)> = Vec::with_capacity(n as usize + 1);
    let mut bytes = 0i64;
    let base = live();
    let mut end = String::new();
    let mut ctx: Context<T> = match guard(|| c.new_context()) {
        Ok(Ok(x)) => x,
        Ok(Err(x)) => return json!({"ev": [], "end": format!("{x:?}")}),
        Err(m) => return json!({"ev": [], "end": m}),
    };
    let mut next = 0;
    let mut done = 0u64;
    let mut note = |op: u8, res: String, no: i64, alive: &mut Vec<(u64, Weak<Frame<T>>)>| {
        alive.retain(|(_, w)| w.strong_count() > 0);
        let held: Vec<u64> = alive.iter().map(|a| a.0).collect();
        // the record itself does not count
        let heap = live() - base - bytes;
        bytes += (held.capacity() * 8 + res.capacity()) as i64;
        steps.push(Step { op, res, no, heap: heap - (held.capacity() * 8) as i64, held, opq: OPAQUES.load(SeqCst) });
    };
    let mut starved = false;
    let mut flushed = false;
    loop {
        if steps_over(done, stop) { break }
        if next < n && (starved || next < done + ahead) {
            starved = false;
            let i = next;
            next += 1;
            let mut f = ctx.new_frame();
            content.fill(&mut f, i % period, e.width, e.height);
            let np = if e.chroma_sampling == ChromaSampling::Cs400 { 1 } else { 3 };
            for p in f.planes[..np].iter_mut() { p.pad(e.width, e.height); }
            let a = Arc::new(f);
            alive.push((i, Arc::downgrade(&a)));
            let has = every > 0 && i % every == 0;
            if has { OPAQUES.fetch_add(1, SeqCst); }
            let with_t35 = t35 > 0 && i % t35 == 0;
            let key = keyed > 0 && i % keyed == 0;
            let pr = (has || with_t35 || key).then(|| FrameParameters {
                frame_type_override: if key { FrameTypeOverride::Key } else { FrameTypeOverride::No },
                opaque: has.then(|| Opaque::new(Tag(i))),
                t35_metadata: if with_t35 { vec![T35 { country_code: 1, country_code_extension_byte: 0, data: vec![7u8; 40].into_boxed_slice() }].into_boxed_slice() } else { Box::new([]) },
            });
            let r = guard(|| ctx.send_frame((a, pr)));
            match r {
                Ok(Ok(())) => note(b'S', "ok".into(), i as i64, &mut alive),
                Ok(Err(s)) => note(b'S', status(s).into(), i as i64, &mut alive),
                Err(m) => { end = format!("panic {m}"); break }
            }
            continue;
        }
        if starved && !flushed {
            flushed = true;
            starved = false;
            // a frame offered after the flush is refused and released
            if let Err(m) = guard(|| ctx.flush()) { end = format!("panic {m}"); break }
            let f = ctx.new_frame();
            let a = Arc::new(f);
            alive.push((n, Arc::downgrade(&a)));
            OPAQUES.fetch_add(1, SeqCst);
            let pr = FrameParameters { frame_type_override: FrameTypeOverride::No, opaque: Some(Opaque::new(Tag(n))), t35_metadata: Box::new([]) };
            match guard(|| ctx.send_frame((a, pr))) {
                Ok(Ok(())) => note(b'S', "ok".into(), n as i64, &mut alive),
                Ok(Err(s)) => note(b'S', status(s).into(), n as i64, &mut alive),
                Err(m) => { end = format!("panic {m}"); break }
            }
            continue;
        }
        match guard(|| ctx.receive_packet()) {
            Ok(Ok(p)) => {
                let no = p.input_frameno as i64;
                drop(p);
                done += 1;
                note(b'R', "pkt".into(), no, &mut alive);
            }
            Ok(Err(EncoderStatus::Encoded)) => note(b'R', "Encoded".into(), -1, &mut alive),
            Ok(Err(EncoderStatus::NeedMoreData)) => { if flushed { end = "NeedMoreData".into(); break } starved = true; }
            Ok(Err(s)) => { end = status(s).into(); break }
            Err(m) => { end = format!("panic {m}"); break }
        }
    }
    if guard(move || drop(ctx)).is_err() { end = "panic in drop".into(); }
    // worker threads let go of what they hold on their own time
    let t = std::time::Instant::now();
    while (alive.iter().any(|a| a.1.strong_count() > 0) || OPAQUES.load(SeqCst) != 0) && t.elapsed().as_millis() < 4000 { std::thread::sleep(std::time::Duration::from_millis(2)) }
    note(b'D', "".into(), -1, &mut alive);
    let ev: Vec<Value> = steps.iter().map(|s| json!({"o": (s.op as char).to_string(), "r": s.res, "no": s.no, "held": s.held, "opq": s.opq, "heap": s.heap})).collect();
    json!({"ev": ev, "end": end})
}

fn steps_over(done: u64, stop: u64) -> bool { done >= stop }
