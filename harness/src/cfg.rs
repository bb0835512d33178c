//! JSON -> rav1e configuration.
use rav1e::config::*;
use rav1e::prelude::*;
use serde_json::Value;

fn u(v: &Value, k: &str) -> Option<u64> { v.get(k).and_then(|x| x.as_u64()) }
fn b(v: &Value, k: &str) -> Option<bool> { v.get(k).and_then(|x| x.as_bool().or(x.as_u64().map(|z| z != 0))) }

macro_rules! pick { ($v:expr, $($n:literal => $e:expr),* $(,)?) => { match $v { $($n => $e,)* o => panic!("bad enum {o}") } } }

pub fn primaries(n: u64) -> ColorPrimaries {
    use ColorPrimaries::*;
    pick!(n, 1 => BT709, 2 => Unspecified, 4 => BT470M, 5 => BT470BG, 6 => BT601, 7 => SMPTE240, 8 => GenericFilm, 9 => BT2020, 10 => XYZ, 11 => SMPTE431, 12 => SMPTE432, 22 => EBU3213)
}
pub fn transfer(n: u64) -> TransferCharacteristics {
    use TransferCharacteristics::*;
    pick!(n, 1 => BT709, 2 => Unspecified, 4 => BT470M, 5 => BT470BG, 6 => BT601, 7 => SMPTE240, 8 => Linear, 9 => Log100, 10 => Log100Sqrt10, 11 => IEC61966, 12 => BT1361, 13 => SRGB, 14 => BT2020_10Bit, 15 => BT2020_12Bit, 16 => SMPTE2084, 17 => SMPTE428, 18 => HLG)
}
pub fn matrix(n: u64) -> MatrixCoefficients {
    use MatrixCoefficients::*;
    pick!(n, 0 => Identity, 1 => BT709, 2 => Unspecified, 4 => FCC, 5 => BT470BG, 6 => BT601, 7 => SMPTE240, 8 => YCgCo, 9 => BT2020NCL, 10 => BT2020CL, 11 => SMPTE2085, 12 => ChromatNCL, 13 => ChromatCL, 14 => ICtCp)
}
pub fn sampling(n: u64) -> ChromaSampling {
    pick!(n, 400 => ChromaSampling::Cs400, 420 => ChromaSampling::Cs420, 422 => ChromaSampling::Cs422, 444 => ChromaSampling::Cs444)
}

fn av<const N: usize, T: serde::de::DeserializeOwned>(v: &Value) -> arrayvec::ArrayVec<T, N> {
    v.as_array().map(|a| a.iter().map(|x| serde_json::from_value(x.clone()).unwrap()).collect()).unwrap_or_default()
}

pub fn grain(v: &Value) -> GrainTableSegment {
    let lag = u(v, "lag").unwrap_or(0) as u8;
    GrainTableSegment {
        start_time: u(v, "start").unwrap_or(0),
        end_time: u(v, "end").unwrap_or(u64::MAX),
        scaling_points_y: av(&v["y"]), scaling_points_cb: av(&v["cb"]), scaling_points_cr: av(&v["cr"]),
        scaling_shift: u(v, "shift").unwrap_or(8) as u8,
        ar_coeff_lag: lag,
        ar_coeffs_y: av(&v["ay"]), ar_coeffs_cb: av(&v["acb"]), ar_coeffs_cr: av(&v["acr"]),
        ar_coeff_shift: u(v, "ashift").unwrap_or(6) as u8,
        cb_mult: u(v, "cbm").unwrap_or(128) as u8, cb_luma_mult: u(v, "cbl").unwrap_or(192) as u8, cb_offset: u(v, "cbo").unwrap_or(256) as u16,
        cr_mult: u(v, "crm").unwrap_or(128) as u8, cr_luma_mult: u(v, "crl").unwrap_or(192) as u8, cr_offset: u(v, "cro").unwrap_or(256) as u16,
        overlap_flag: b(v, "overlap").unwrap_or(false),
        chroma_scaling_from_luma: b(v, "cfl").unwrap_or(false),
        grain_scale_shift: u(v, "gss").unwrap_or(0) as u8,
        random_seed: u(v, "seed").unwrap_or(0) as u16,
    }
}

pub fn enc_config(v: &Value) -> EncoderConfig {
    let mut e = EncoderConfig::with_speed_preset(u(v, "speed").unwrap_or(10) as u8);
    apply(v, &mut e);
    e
}

pub fn apply(v: &Value, e: &mut EncoderConfig) {
    if let Some(x) = u(v, "w") { e.width = x as usize }
    if let Some(x) = u(v, "h") { e.height = x as usize }
    if let Some(x) = v.get("sar") { e.sample_aspect_ratio = Rational::new(x[0].as_u64().unwrap(), x[1].as_u64().unwrap()) }
    if let Some(x) = v.get("tb") { e.time_base = Rational::new(x[0].as_u64().unwrap(), x[1].as_u64().unwrap()) }
    if let Some(x) = u(v, "bd") { e.bit_depth = x as usize }
    if let Some(x) = u(v, "cs") { e.chroma_sampling = sampling(x) }
    if let Some(x) = u(v, "csp") { e.chroma_sample_position = pick!(x, 0 => ChromaSamplePosition::Unknown, 1 => ChromaSamplePosition::Vertical, 2 => ChromaSamplePosition::Colocated) }
    if let Some(x) = b(v, "full") { e.pixel_range = if x { PixelRange::Full } else { PixelRange::Limited } }
    if let Some(x) = v.get("color").filter(|x| x.is_array()) {
        e.color_description = Some(ColorDescription { color_primaries: primaries(x[0].as_u64().unwrap()), transfer_characteristics: transfer(x[1].as_u64().unwrap()), matrix_coefficients: matrix(x[2].as_u64().unwrap()) })
    }
    if let Some(x) = v.get("mdcv").filter(|x| x.is_array()) {
        let n: Vec<u64> = x.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
        let cp = |i: usize| ChromaticityPoint { x: n[i] as u16, y: n[i + 1] as u16 };
        e.mastering_display = Some(MasteringDisplay { primaries: [cp(0), cp(2), cp(4)], white_point: cp(6), max_luminance: n[8] as u32, min_luminance: n[9] as u32 })
    }
    if let Some(x) = v.get("cll").filter(|x| x.is_array()) {
        e.content_light = Some(ContentLight { max_content_light_level: x[0].as_u64().unwrap() as u16, max_frame_average_light_level: x[1].as_u64().unwrap() as u16 })
    }
    if let Some(x) = v.get("level") { e.level_idx = x.as_u64().map(|x| x as u8) }
    if let Some(x) = b(v, "timing") { e.enable_timing_info = x }
    if let Some(x) = b(v, "still") { e.still_picture = x }
    if let Some(x) = b(v, "er") { e.error_resilient = x }
    if let Some(x) = u(v, "switch") { e.switch_frame_interval = x }
    if let Some(x) = u(v, "minkf") { e.min_key_frame_interval = x }
    if let Some(x) = u(v, "maxkf") { e.max_key_frame_interval = x }
    if let Some(x) = v.get("rfd") { e.reservoir_frame_delay = x.as_i64().map(|x| x as i32) }
    if let Some(x) = b(v, "ll") { e.low_latency = x }
    if let Some(x) = u(v, "q") { e.quantizer = x as usize }
    if let Some(x) = u(v, "minq") { e.min_quantizer = x as u8 }
    if let Some(x) = v.get("br").and_then(|x| x.as_i64()) { e.bitrate = x as i32 }
    if let Some(x) = u(v, "tune") { e.tune = if x == 0 { Tune::Psnr } else { Tune::Psychovisual } }
    if let Some(x) = u(v, "tcols") { e.tile_cols = x as usize }
    if let Some(x) = u(v, "trows") { e.tile_rows = x as usize }
    if let Some(x) = u(v, "tiles") { e.tiles = x as usize }
    if let Some(x) = u(v, "la") { e.speed_settings.rdo_lookahead_frames = x as usize }
    if let Some(x) = u(v, "scd") { e.speed_settings.scene_detection_mode = pick!(x, 0 => SceneDetectionSpeed::None, 1 => SceneDetectionSpeed::Fast, 2 => SceneDetectionSpeed::Standard) }
    if let Some(x) = v.get("grain").and_then(|x| x.as_array()) { e.film_grain_params = Some(x.iter().map(grain).collect()) }
    if let Some(o) = v.get("ss").and_then(|x| x.as_object()) {
        // individual speed settings, overlaid through the serialised form
        fn overlay(a: &mut Value, o: &serde_json::Map<String, Value>) {
            for (k, x) in o { if let Some(m) = x.as_object() { overlay(&mut a[k], m) } else { a[k] = x.clone() } }
        }
        let mut s = serde_json::to_value(&e.speed_settings).unwrap();
        overlay(&mut s, o);
        e.speed_settings = serde_json::from_value(s).unwrap();
    }
}

pub fn config(v: &Value) -> Config {
    Config::new().with_encoder_config(enc_config(v)).with_threads(u(v, "threads").unwrap_or(0) as usize)
}
