//! Deterministic synthetic video.
use rav1e::prelude::*;
use serde_json::Value;

pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}
fn h(seed: u64, a: u64, b: u64, c: u64) -> u64 { mix(seed ^ mix(a ^ mix(b ^ mix(c)))) }

#[derive(Clone)]
pub struct Content { pub kind: String, pub seed: u64, pub cuts: Vec<u64>, pub bd: usize }

impl Content {
    pub fn from(v: &Value, bd: usize) -> Self {
        Content {
            kind: v["kind"].as_str().unwrap_or("pan").into(),
            seed: v["seed"].as_u64().unwrap_or(1),
            cuts: v["cuts"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default(),
            bd,
        }
    }
    /// Smooth lattice noise, 0..1
    fn tex(&self, scene: u64, p: u64, x: f64, y: f64, cell: f64) -> f64 {
        let (gx, gy) = (x / cell, y / cell);
        let (x0, y0) = (gx.floor(), gy.floor());
        let (fx, fy) = (gx - x0, gy - y0);
        let g = |i: f64, j: f64| (h(self.seed, scene * 8 + p, (i as i64) as u64, (j as i64) as u64) & 0xffff) as f64 / 65535.0;
        let a = g(x0, y0) * (1.0 - fx) + g(x0 + 1.0, y0) * fx;
        let b = g(x0, y0 + 1.0) * (1.0 - fx) + g(x0 + 1.0, y0 + 1.0) * fx;
        a * (1.0 - fy) + b * fy
    }
    fn sample(&self, i: u64, p: usize, x: usize, y: usize) -> u16 {
        let max = ((1u32 << self.bd) - 1) as f64;
        let scene = self.cuts.iter().filter(|&&c| c <= i).count() as u64;
        let pp = p as u64;
        let t = i as f64;
        let (xf, yf) = (x as f64, y as f64);
        let v: f64 = match self.kind.as_str() {
            "flat" => ((h(self.seed, scene, pp, 1) & 0xff) as f64) / 255.0,
            // a flat picture whose level drifts by the minimum: distinct but uneventful
            "drift" => (40.0 + ((i + h(self.seed, scene, 2, 3)) % 150) as f64) / 255.0,
            "noise" => (h(self.seed, i, (x as u64) << 32 | y as u64, pp) & 0xffff) as f64 / 65535.0,
            "extreme" => (h(self.seed, i, (x as u64 / 3) << 32 | y as u64 / 5, pp) & 1) as f64,
            "static" => self.tex(scene, pp, xf, yf, 5.0),
            "grad" => ((xf * 3.0 + yf * 5.0 + t * 4.0 + scene as f64 * 97.0) % 256.0) / 255.0,
            "text" => {
                let bx = (x as u64 + 2 * i) / 4;
                let by = (y as u64 + i / 2) / 6;
                if h(self.seed, scene, bx << 32 | by, pp) % 3 == 0 { 0.9 } else { 0.1 }
            }
            "mixed" => {
                if (x / 8 + y / 8) % 2 == 0 { self.tex(scene, pp, xf + t * 1.25, yf, 7.0) }
                else if x / 32 % 2 == 0 { (h(self.seed, i, (x as u64) << 32 | y as u64, pp) & 0xff) as f64 / 255.0 }
                else { 0.3 }
            }
            "fade" => self.tex(scene, pp, xf, yf, 9.0) * ((t * 0.17).sin() * 0.5 + 0.5),
            // parts of the picture racing in different directions, in and out of it
            "whip" => {
                let q = (x as u64 / 40) << 8 | (y as u64 / 24);
                let v = |k: u64| (h(self.seed, scene, q, k) % 97) as f64 - 48.0;
                self.tex(scene, pp, xf + v(1) * t, yf + v(2) * t, 6.0)
            }
            // the whole picture racing
            "rush" => {
                let v = |k: u64| (h(self.seed, scene, 9, k) % 121) as f64 - 60.0;
                self.tex(scene, pp, xf + v(1) * t, yf + v(2) * t, 6.0)
            }
            "cutall" => ((h(self.seed, i, pp, 77) & 0xff) as f64) / 255.0,
            // "pan"
            _ => {
                let (dx, dy) = ((h(self.seed, scene, 5, 5) % 7) as f64 * 0.4 - 1.2, (h(self.seed, scene, 6, 6) % 7) as f64 * 0.3 - 0.9);
                let n = (h(self.seed, i, (x as u64) << 32 | y as u64, pp) & 0xff) as f64 / 255.0;
                self.tex(scene, pp, xf + dx * t, yf + dy * t, 6.0) * 0.95 + n * 0.05
            }
        };
        (v * max).round().clamp(0.0, max) as u16
    }
    /// One sample of frame i.
    pub fn at(&self, i: u64, p: usize, x: usize, y: usize) -> u16 { self.sample(i, p, x, y) }
    pub fn fill<T: Pixel>(&self, f: &mut Frame<T>, i: u64, w: usize, hh: usize) {
        let np = f.planes.len();
        for p in 0..np {
            let (xd, yd) = (f.planes[p].cfg.xdec, f.planes[p].cfg.ydec);
            let (pw, ph) = ((w + xd) >> xd, (hh + yd) >> yd);
            if pw == 0 || ph == 0 || f.planes[p].cfg.width == 0 { continue; }
            let stride = f.planes[p].cfg.stride;
            let d = f.planes[p].data_origin_mut();
            for y in 0..ph {
                for x in 0..pw {
                    d[y * stride + x] = T::cast_from(self.sample(i, p, x, y));
                }
            }
        }
    }
}

/// Hash of the visible part of a frame, comparable with decoder picture hashes.
pub fn frame_hash<T: Pixel>(f: &Frame<T>, w: usize, h: usize, mono: bool) -> String {
    let mut fnv = crate::dec::Fnv::new();
    for p in 0..if mono { 1 } else { 3 } {
        let pl = &f.planes[p];
        let (xd, yd) = (pl.cfg.xdec, pl.cfg.ydec);
        let (pw, ph) = ((w + xd) >> xd, (h + yd) >> yd);
        let d = pl.data_origin();
        for y in 0..ph {
            for x in 0..pw {
                fnv.u16(u16::cast_from(d[y * pl.cfg.stride + x]));
            }
        }
    }
    fnv.hex()
}
