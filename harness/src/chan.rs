//! The channel interface beside the direct one: the same frames through both,
//! under a schedule of producer and consumer steps.
use crate::content::*;
use crate::session::{guard, params, Observer};
use crate::{cfg, dec};
use rav1e::prelude::*;
use rav1e::*;
use serde_json::{json, Value};
use std::sync::Arc;
use std::time::Duration;

fn hex(b: &[u8]) -> String { let mut f = dec::Fnv::new(); f.bytes(b); f.hex() }
fn rec(d: &RcData) -> Value { match d { RcData::Summary(b) => json!({"k": 0, "d": hex(b), "n": b.len()}), RcData::Frame(b) => json!({"k": 1, "d": hex(b), "n": b.len()}) } }

struct Rng(u64);
impl Rng {
    fn next(&mut self, n: u64) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        if n == 0 { 0 } else { (self.0 >> 11) % n }
    }
    fn pause(&mut self, style: u64) {
        match style {
            0 => {}
            1 => if self.next(2) == 0 { std::thread::yield_now() },
            2 => std::thread::sleep(Duration::from_micros(self.next(2000))),
            3 => if self.next(4) == 0 { std::thread::sleep(Duration::from_millis(self.next(12))) },
            _ => std::thread::sleep(Duration::from_millis(self.next(6))),
        }
    }
}

/// One pass on the direct interface, as a second reading of the same job.
fn direct<T: Pixel>(job: &Value, c: &Config, n: u64, records: Option<&[RcData]>, emit: bool) -> (Vec<Value>, Vec<RcData>, &'static str) {
    let e = cfg::enc_config(&job["cfg"]);
    let content = Content::from(&job["content"], e.bit_depth);
    let mut ob = Observer::new(job, &e);
    let (mut pk, mut out) = (vec![], vec![]);
    let mut ctx: Context<T> = match guard(|| c.new_context()) { Ok(Ok(x)) => x, Ok(Err(_)) => return (pk, out, "invalid"), Err(_) => return (pk, out, "panic") };
    let mut given = records.unwrap_or(&[]).iter();
    let mut next = 0;
    let mut end = "livelock";
    let eager = job["close"].as_str().unwrap_or("drop") == "drop";
    let mut summed = false;
    for _ in 0..30 * (n + 20) {
        if records.is_some() {
            while ctx.rc_second_pass_data_required() > 0 {
                match given.next() {
                    Some(RcData::Frame(b)) => { if ctx.rc_send_pass_data(b).is_err() { return (pk, out, "bad-record") } }
                    _ => return (pk, out, "starved"),
                }
            }
        }
        let r = match guard(|| ctx.receive_packet()) { Ok(r) => r, Err(_) => return (pk, out, "panic") };
        if emit && !summed && (r.is_ok() || matches!(r, Err(EncoderStatus::Encoded | EncoderStatus::LimitReached))) {
            while let Some(d) = ctx.rc_receive_pass_data() { summed = matches!(d, RcData::Summary(_)); out.push(d); if summed { break } }
        }
        match r {
            Ok(mut p) => pk.push(ob.packet(&mut p)),
            Err(EncoderStatus::Encoded) => {}
            Err(EncoderStatus::NeedMoreData) => {
                if next < n {
                    let mut f = ctx.new_frame();
                    content.fill(&mut f, next, e.width, e.height);
                    let _ = ctx.send_frame((f, params(job, next)));
                    next += 1;
                    // the channel sees the end when it waits for the next frame
                    if next == n && eager { ctx.flush() }
                } else { ctx.flush() }
            }
            Err(EncoderStatus::LimitReached) => { end = "done"; break }
            Err(_) => { end = "failed"; break }
        }
    }
    (pk, out, end)
}

pub fn run(job: &Value) -> Value {
    if job["cfg"]["bd"].as_u64().unwrap_or(8) == 8 { run_t::<u8>(job) } else { run_t::<u16>(job) }
}

/// The endpoints of a channel and what went through them.
struct Ch<T: Pixel> { tx: Option<FrameSender<T>>, rx: Option<PacketReceiver<T>>, ds: Option<RcDataSender>, dr: Option<RcDataReceiver> }

fn open<T: Pixel>(c: &Config, pass: &str) -> Result<Ch<T>, String> {
    let r = guard(|| match pass {
        "first" => c.new_firstpass_channel::<T>().map(|((tx, rx), dr)| Ch { tx: Some(tx), rx: Some(rx), ds: None, dr: Some(dr) }),
        "second" => c.new_secondpass_channel::<T>().map(|((tx, rx), ds)| Ch { tx: Some(tx), rx: Some(rx), ds: Some(ds), dr: None }),
        "multi" => c.new_multipass_channel::<T>().map(|((tx, rx), (ds, dr))| Ch { tx: Some(tx), rx: Some(rx), ds: Some(ds), dr: Some(dr) }),
        _ => c.new_channel::<T>().map(|(tx, rx)| Ch { tx: Some(tx), rx: Some(rx), ds: None, dr: None }),
    });
    match r { Ok(Ok(c)) => Ok(c), Ok(Err(e)) => Err(format!("{e:?}")), Err(m) => Err(m) }
}

struct Feed { content: Content, w: usize, h: usize, job: Value, n: u64, mono: bool }
impl Feed {
    fn frame<T: Pixel>(&self, tx: &FrameSender<T>, i: u64) -> (Frame<T>, String) {
        let mut f = tx.new_frame();
        self.content.fill(&mut f, i, self.w, self.h);
        let h = frame_hash(&f, self.w, self.h, self.mono);
        (f, h)
    }
}

fn run_t<T: Pixel>(job: &Value) -> Value {
    let e = cfg::enc_config(&job["cfg"]);
    let n = job["n"].as_u64().unwrap_or(5);
    let pass = job["pass"].as_str().unwrap_or("").to_string();
    let slots = job["slots"].as_u64().unwrap_or(0) as usize;
    let mut c = cfg::config(&job["cfg"]);
    if let Some(p) = job["pool"].as_u64() {
        c = c.with_thread_pool(Arc::new(rayon::ThreadPoolBuilder::new().num_threads(p as usize).build().unwrap()));
    }
    let emit = pass == "first" || pass == "multi";
    let mut ev = vec![];
    let mut records: Vec<RcData> = vec![];
    let mut rc = RateControlConfig::new();
    if pass == "second" || pass == "multi" {
        let (_, out, end) = direct::<T>(job, &c.clone().with_rate_control(RateControlConfig::new().with_emit_data(true)), n, None, true);
        if end != "done" { return json!({"skip": end}) }
        for d in out { match d { RcData::Summary(b) => rc = RateControlConfig::from_summary_slice(&b).unwrap(), f => records.push(f) } }
    }
    let c = c.with_rate_control(rc.with_emit_data(emit)).with_parallel_gops(slots);
    let n2 = n + job["extra"].as_u64().unwrap_or(0);
    // direct, for comparison
    let second = pass == "second" || pass == "multi";
    let (dpk, drec, dend) = if slots > 1 { (vec![], vec![], "done") } else { direct::<T>(job, &c, n, second.then_some(&records[..]), emit) };
    if dend == "invalid" || dend == "panic" {
        ev.push(json!({"o": "C", "r": if open::<T>(&c, &pass).is_ok() { "ok" } else { "err" }, "d": if dend == "panic" { "panic" } else { "err" }}));
        return json!({"ev": ev, "direct": [], "drecs": [], "end": "invalid"})
    }
    if dend != "done" { return json!({"skip": dend}) }
    let twin = job["twin"].as_u64().unwrap_or(1) as usize;
    let mut chs = vec![];
    for _ in 0..twin {
        match open::<T>(&c, &pass) {
            Ok(ch) => chs.push(ch),
            Err(m) => { ev.push(json!({"o": "C", "r": "err", "d": if slots > 1 && guard(|| c.new_context::<T>().is_err()).unwrap_or(false) { "err" } else { "ok" }, "why": m})); return json!({"ev": ev, "direct": [], "drecs": [], "end": "invalid"}) }
        }
        ev.push(json!({"o": "C", "r": "ok", "d": "ok"}));
    }
    let panics = || crate::session::PANICS.load(std::sync::atomic::Ordering::SeqCst);
    let before = panics();
    let feed = Arc::new(Feed { content: Content::from(&job["content"], e.bit_depth), w: e.width, h: e.height, job: job.clone(), n: n2, mono: e.chroma_sampling == ChromaSampling::Cs400 });
    let style = job["style"].as_u64().unwrap_or(0);
    let seed = job["seed"].as_u64().unwrap_or(1) * 2 + 1;
    let closing = job["close"].as_str().unwrap_or("drop").to_string();
    let limit = job["take"].as_u64().unwrap_or(u64::MAX);
    let rcdrop = job["rcdrop"].as_u64().unwrap_or(u64::MAX);
    let rcbad = job["rcbad"].as_u64().unwrap_or(u64::MAX);
    let late = job["late"].as_bool().unwrap_or(false);
    let sends = |ds: &mut RcDataSender, records: &[RcData], rng: &mut Rng| -> Vec<Value> {
        let mut out = vec![];
        for (i, d) in records.iter().enumerate() {
            if i as u64 == rcdrop { break }
            let RcData::Frame(b) = d else { continue };
            let mut b = b.clone();
            if i as u64 == rcbad { b[3] |= 0x60; b[2] = 0xff; }
            rng.pause(style);
            let r = if rng.next(2) == 0 { ds.send(RcData::Frame(b)).is_ok() } else { ds.try_send(RcData::Frame(b)).is_ok() };
            out.push(json!({"o": "D", "i": i, "r": if r { "ok" } else { "err" }}));
        }
        out
    };
    if job["single"].as_bool() == Some(true) || twin > 1 {
        // one thread does everything, several channels in turn
        let mut rng = Rng(seed);
        let mut obs: Vec<_> = chs.iter().map(|_| Observer::new(job, &e)).collect();
        let (mut next, mut got, mut closed, mut over) = (vec![0u64; twin], vec![0u64; twin], vec![false; twin], vec![false; twin]);
        let mut evs: Vec<Vec<Value>> = vec![vec![]; twin];
        let mut rr = vec![vec![]; twin];
        for (x, ch) in chs.iter_mut().enumerate() {
            if let Some(mut ds) = ch.ds.take() { evs[x].extend(sends(&mut ds, &records, &mut rng)); }
        }
        if limit == 0 { for ch in &mut chs { ch.rx = None } }
        let begun = std::time::Instant::now();
        while !over.iter().all(|o| *o) {
            if begun.elapsed() > Duration::from_secs(25) { for x in 0..twin { if !over[x] { evs[x].push(json!({"o": "T"})) } } break }
            let mut moved = false;
            for x in 0..twin {
                let ch = &mut chs[x];
                if !closed[x] {
                    let tx = ch.tx.as_mut().unwrap();
                    if next[x] < feed.n {
                        let (f, h) = feed.frame(tx, next[x]);
                        let r = match tx.try_send((f, params(&feed.job, next[x]))) { Ok(()) => "ok", Err(TrySendError::Full(_)) => "full", Err(TrySendError::Disconnected(_)) => "disc" };
                        if r == "ok" || r == "disc" || next[x] >= n { evs[x].push(json!({"o": "S", "i": next[x], "r": r, "h": h})); next[x] += 1; moved = true }
                    } else {
                        moved = true;
                        if closing == "flush" {
                            let r = tx.send(None::<Arc<Frame<T>>>).is_ok();
                            evs[x].push(json!({"o": "F", "r": if r { "ok" } else { "err" }}));
                        } else { ch.tx = None }
                        closed[x] = true;
                    }
                }
                if let Some(dr) = &ch.dr { while let Ok(d) = dr.try_recv() { rr[x].push(rec(&d)); moved = true } }
                if let Some(rx) = &ch.rx {
                    match rx.try_recv() {
                        Ok(mut p) => { got[x] += 1; moved = true; let mut v = obs[x].packet(&mut p); v["o"] = json!("P"); evs[x].push(v); if got[x] >= limit { ch.rx = None } }
                        Err(TryRecvError::Empty) => {}
                        Err(TryRecvError::Disconnected) => { if !over[x] { evs[x].push(json!({"o": "E"})) } over[x] = true }
                    }
                } else if closed[x] { over[x] = true }
            }
            if !moved { std::thread::sleep(Duration::from_millis(1)) }
        }
        let timed = evs.iter().any(|v| v.iter().any(|e| e["o"] == "T"));
        if !timed { for (x, ch) in chs.iter_mut().enumerate() { ch.tx = None; if let Some(dr) = &ch.dr { while let Ok(d) = dr.recv() { rr[x].push(rec(&d)) } } } }
        else { std::mem::forget(chs) }
        let all: Vec<Value> = evs.into_iter().zip(rr).map(|(mut v, r)| { v.extend(r.into_iter().map(|r| json!({"o": "R", "rec": r}))); json!(v) }).collect();
        return json!({"evs": all, "panics": panics() - before, "ev": ev, "direct": dpk, "drecs": drec.iter().map(rec).collect::<Vec<_>>(), "end": if timed { "timeout" } else { "over" }})
    }
    let ch = chs.pop().unwrap();
    let (mut tx, rx, ds, dr) = (ch.tx.unwrap(), ch.rx.unwrap(), ch.ds, ch.dr);
    let (started, wait) = std::sync::mpsc::channel::<()>();
    let producer = {
        let (feed, closing) = (feed.clone(), closing.clone());
        std::thread::spawn(move || {
            let mut rng = Rng(seed * 3);
            let mut ev = vec![];
            for i in 0..feed.n {
                rng.pause(style);
                let (f, h) = feed.frame(&tx, i);
                let r = if rng.next(3) > 0 { if tx.send((f, params(&feed.job, i))).is_ok() { "ok" } else { "disc" } }
                else {
                    let mut fp = (f, params(&feed.job, i));
                    let since = std::time::Instant::now();
                    loop {
                        match tx.try_send(fp) {
                            Ok(()) => break "ok",
                            Err(TrySendError::Disconnected(_)) => break "disc",
                            Err(TrySendError::Full((f, p))) => {
                                if tx.is_empty() || since.elapsed() > Duration::from_secs(4) { break "full" }
                                std::thread::sleep(Duration::from_micros(300));
                                fp = (Arc::try_unwrap(f.unwrap()).unwrap(), p);
                            }
                        }
                    }
                };
                ev.push(json!({"o": "S", "i": i, "r": r, "h": h}));
            }
            rng.pause(style);
            if closing != "drop" {
                let r = tx.send(None::<Arc<Frame<T>>>).is_ok();
                ev.push(json!({"o": "F", "r": if r { "ok" } else { "err" }}));
                if closing == "more" {
                    for i in 0..2 { let (f, h) = feed.frame(&tx, feed.n + i); let r = tx.send(f).is_ok(); ev.push(json!({"o": "S", "i": feed.n + i, "r": if r { "after" } else { "disc" }, "h": h})); }
                }
            }
            let _ = started.send(());
            if closing == "flush" { std::thread::sleep(Duration::from_millis(5)); std::mem::forget(tx) } else { drop(tx) }
            ev
        })
    };
    let (recs2, fd) = (records, ds.is_some());
    let (mut dsv, mut rrv) = (vec![], vec![]);
    let mut pkv = vec![];
    let timed;
    {
        // statistics endpoints have threads of their own
        let feeder = ds.map(|mut ds| {
            let mut rng = Rng(seed * 5);
            std::thread::spawn(move || {
                let mut out = vec![];
                for (i, d) in recs2.iter().enumerate() {
                    if i as u64 == rcdrop { break }
                    let RcData::Frame(b) = d else { continue };
                    let mut b = b.clone();
                    if i as u64 == rcbad { b[3] |= 0x60; b[2] = 0xff; }
                    rng.pause(style);
                    let r = if rng.next(2) == 0 { ds.send(RcData::Frame(b)).is_ok() } else { ds.try_send(RcData::Frame(b)).is_ok() };
                    out.push(json!({"o": "D", "i": i, "r": if r { "ok" } else { "err" }}));
                }
                out
            })
        });
        let keeper = dr.map(|dr| {
            let mut rng = Rng(seed * 7);
            std::thread::spawn(move || {
                let mut out = vec![];
                loop {
                    rng.pause(style);
                    let d = if rng.next(2) == 0 { dr.recv().map_err(|_| true) } else { dr.try_recv().map_err(|e| e == TryRecvError::Disconnected) };
                    match d { Ok(d) => out.push(rec(&d)), Err(true) => break, Err(false) => std::thread::sleep(Duration::from_micros(500)) }
                }
                out
            })
        });
        let mut ob = Observer::new(job, &e);
        let mut rng = Rng(seed);
        if late { let _ = wait.recv_timeout(Duration::from_secs(20)); }
        let mut got = 0;
        let begun = std::time::Instant::now();
        loop {
            if got >= limit { break }
            rng.pause(style);
            match rx.try_recv() {
                Ok(mut p) => { got += 1; let mut v = ob.packet(&mut p); v["o"] = json!("P"); pkv.push(v); continue }
                Err(TryRecvError::Disconnected) => { pkv.push(json!({"o": "E"})); break }
                Err(TryRecvError::Empty) => {}
            }
            if begun.elapsed() > Duration::from_secs(25) { pkv.push(json!({"o": "T"})); break }
            if rng.next(3) == 0 && begun.elapsed() < Duration::from_secs(1) && limit == u64::MAX && job["block"].as_bool() == Some(true) {
                match rx.recv() { Ok(mut p) => { got += 1; let mut v = ob.packet(&mut p); v["o"] = json!("P"); pkv.push(v) } Err(_) => { pkv.push(json!({"o": "E"})); break } }
            } else { std::thread::sleep(Duration::from_micros(400)) }
        }
        timed = pkv.last().is_some_and(|v| v["o"] == "T");
        if timed { std::mem::forget(rx) } else { drop(rx) }
        if !timed {
            let end = std::time::Instant::now();
            while !producer.is_finished() && end.elapsed() < Duration::from_secs(20) { std::thread::sleep(Duration::from_micros(500)) }
            if producer.is_finished() { ev.extend(producer.join().unwrap()) } else { ev.push(json!({"o": "T"})) }
            if let Some(f) = feeder { dsv = f.join().unwrap() }
            if let Some(k) = keeper { rrv = k.join().unwrap() }
        }
    }
    let _ = fd;
    ev.extend(dsv);
    ev.extend(pkv);
    ev.extend(rrv.into_iter().map(|r| json!({"o": "R", "rec": r})));
    // the process is still there a moment later
    if limit != u64::MAX || rcdrop != u64::MAX || rcbad != u64::MAX { std::thread::sleep(Duration::from_millis(150)) }
    json!({"ev": ev, "panics": panics() - before, "direct": dpk, "drecs": drec.iter().map(rec).collect::<Vec<_>>(), "end": if timed { "timeout" } else { "over" }})
}
