//! Container headers as offered by the three interfaces.
use crate::cfg;
use crate::session::guard;
use rav1e::capi::*;
use rav1e::prelude::*;
use serde_json::{json, Value};
use std::ffi::CString;

/// A C configuration with the options of the job that the C interface has.
pub unsafe fn c_config(v: &Value) -> *mut rav1e::capi::Config {
    let e = cfg::enc_config(v);
    let c = rav1e_config_default();
    let set = |k: &str, x: String| {
        let (k, x) = (CString::new(k).unwrap(), CString::new(x).unwrap());
        rav1e_config_parse(c, k.as_ptr(), x.as_ptr())
    };
    set("speed", v["speed"].as_u64().unwrap_or(10).to_string());
    set("width", e.width.to_string());
    set("height", e.height.to_string());
    set("threads", v["threads"].as_u64().unwrap_or(1).to_string());
    set("still_picture", e.still_picture.to_string());
    set("enable_timing_info", e.enable_timing_info.to_string());
    set("level", match e.level_idx { None => "auto".into(), Some(31) => "unconstrained".into(), Some(l) => format!("{}.{}", 2 + (l >> 2), l & 3) });
    rav1e_config_set_time_base(c, e.time_base);
    rav1e_config_set_sample_aspect_ratio(c, e.sample_aspect_ratio);
    rav1e_config_set_pixel_format(c, e.bit_depth as u8, e.chroma_sampling, e.chroma_sample_position, e.pixel_range);
    if let Some(d) = e.color_description { rav1e_config_set_color_description(c, d.matrix_coefficients, d.color_primaries, d.transfer_characteristics); }
    if let Some(d) = e.content_light { rav1e_config_set_content_light(c, d.max_content_light_level, d.max_frame_average_light_level); }
    if let Some(d) = e.mastering_display { rav1e_config_set_mastering_display(c, d.primaries.as_ptr(), d.white_point, d.max_luminance, d.min_luminance); }
    c
}

fn native<T: Pixel>(c: &rav1e::config::Config) -> (Value, Value) {
    let d = guard(|| c.new_context::<T>().map(|x| x.container_sequence_header()).unwrap_or_default()).unwrap_or_default();
    let h = guard(|| match c.new_channel::<T>() {
        Ok((s, r)) => { let h = r.container_sequence_header(); drop(s); h }
        Err(_) => vec![],
    }).unwrap_or_default();
    (json!(d), json!(h))
}

pub fn run(job: &Value) -> Value {
    let c = cfg::config(&job["cfg"]);
    let (d, h) = if job["cfg"]["bd"].as_u64().unwrap_or(8) == 8 { native::<u8>(&c) } else { native::<u16>(&c) };
    let k = unsafe {
        let cc = c_config(&job["cfg"]);
        let x = rav1e_context_new(cc);
        let mut out = vec![];
        if !x.is_null() {
            let d = rav1e_container_sequence_header(x);
            out = std::slice::from_raw_parts((*d).data, (*d).len).to_vec();
            rav1e_data_unref(d);
        }
        rav1e_context_unref(x);
        rav1e_config_unref(cc);
        out
    };
    json!({"conts": [d, h, k]})
}
