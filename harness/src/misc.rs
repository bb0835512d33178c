//! Small jobs: tile layouts, configuration validation.
use crate::cfg;
use crate::session::guard;
use rav1e::prelude::*;
use serde_json::{json, Value};

pub fn tiling(job: &Value) -> Value {
    let out: Vec<Value> = job["qs"].as_array().unwrap().iter().map(|q| {
        match guard(|| cfg::config(q).tiling_info()) {
            Ok(Ok(t)) => json!({"r": "ok", "cols": t.cols, "rows": t.rows, "tw": t.tile_width_sb, "th": t.tile_height_sb, "cl": t.tile_cols_log2, "rl": t.tile_rows_log2}),
            Ok(Err(e)) => json!({"r": "err", "why": e.to_string()}),
            Err(m) => json!({"r": "panic", "why": m}),
        }
    }).collect();
    json!({"out": out})
}

fn variant(e: &rav1e::InvalidConfig) -> String {
    format!("{e:?}").chars().take_while(|c| c.is_alphanumeric()).collect()
}

/// Statistics summary of a minimal first pass.
fn summary() -> Vec<u8> {
    let mut e = EncoderConfig::with_speed_preset(10);
    e.width = 16;
    e.height = 16;
    e.bitrate = 100_000;
    e.quantizer = 255;
    e.speed_settings.rdo_lookahead_frames = 1;
    let c = Config::new().with_encoder_config(e).with_threads(1).with_rate_control(RateControlConfig::new().with_emit_data(true));
    let mut ctx: Context<u8> = c.new_context().unwrap();
    for _ in 0..3 { let f = ctx.new_frame(); ctx.send_frame(f).unwrap(); }
    ctx.flush();
    let mut last = vec![];
    for _ in 0..50 {
        let r = ctx.receive_packet();
        while let Some(d) = ctx.rc_receive_pass_data() {
            match d { RcData::Summary(s) => { last = s.to_vec(); break } RcData::Frame(_) => {} }
        }
        if let Err(EncoderStatus::LimitReached) = r { break }
    }
    last
}

/// Answers to creating an encoder from each configuration: validation, the
/// encoder itself, the tile layout, and creating it once more.
pub fn config(job: &Value) -> Value {
    let sum = summary();
    let out: Vec<Value> = job["qs"].as_array().unwrap().iter().map(|q| {
        let mk = || {
            let mut c = cfg::config(q);
            match q["pass"].as_u64() {
                Some(1) => c = c.with_rate_control(RateControlConfig::new().with_emit_data(true)),
                Some(2) => c = c.with_rate_control(RateControlConfig::from_summary_slice(&sum).unwrap()),
                Some(3) => c = c.with_rate_control(RateControlConfig::from_summary_slice(&sum).unwrap().with_emit_data(true)),
                _ => {}
            }
            c
        };
        fn ans<X>(r: Result<Result<X, rav1e::InvalidConfig>, String>) -> (String, String) {
            match r { Ok(Ok(_)) => ("ok".into(), String::new()), Ok(Err(e)) => (variant(&e), e.to_string()), Err(m) => ("panic".into(), m) }
        }
        let c = mk();
        let wide = q["bd"].as_u64().unwrap_or(8) > 8;
        let create = || if wide { ans(guard(|| c.new_context::<u16>())) } else { ans(guard(|| c.new_context::<u8>())) };
        let v = ans(guard(|| c.validate()));
        let n = create();
        let t = ans(guard(|| c.tiling_info()));
        let n2 = create();
        json!({"v": v.0, "n": n.0, "t": t.0, "n2": n2.0, "why": if n.1.is_empty() { v.1 } else { n.1 }})
    }).collect();
    json!({"out": out})
}
