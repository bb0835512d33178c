//! Independent AV1 OBU / header parser written from the AV1 specification
//! (sections 5.3 - 5.9).  It only extracts facts; rules live in the TLA+ specs.
use serde_json::{json, Value};

pub struct Br<'a> { d: &'a [u8], p: usize }
type R<T> = Result<T, String>;
impl<'a> Br<'a> {
    pub fn new(d: &'a [u8]) -> Self { Br { d, p: 0 } }
    pub fn bit(&mut self) -> R<u64> {
        if self.p >= self.d.len() * 8 { return Err("eof".into()); }
        let b = (self.d[self.p / 8] >> (7 - self.p % 8)) & 1;
        self.p += 1;
        Ok(b as u64)
    }
    pub fn f(&mut self, n: usize) -> R<u64> {
        let mut v = 0u64;
        for _ in 0..n { v = (v << 1) | self.bit()?; }
        Ok(v)
    }
    fn uvlc(&mut self) -> R<u64> {
        let mut lz = 0;
        while self.bit()? == 0 { lz += 1; if lz >= 32 { return Ok((1u64 << 32) - 1); } }
        Ok(self.f(lz)? + (1 << lz) - 1)
    }
    fn su(&mut self, n: usize) -> R<i64> {
        let v = self.f(n)? as i64;
        Ok(if v & (1 << (n - 1)) != 0 { v - (1 << n) } else { v })
    }
    fn ns(&mut self, n: u64) -> R<u64> {
        let mut w = 0;
        let mut x = n;
        while x != 0 { x >>= 1; w += 1; }
        let m = (1u64 << w) - n;
        let v = self.f(w - 1)?;
        if v < m { return Ok(v); }
        Ok((v << 1) - m + self.bit()?)
    }
}

#[derive(Clone, Debug, Default)]
pub struct Seq {
    pub profile: u64, pub still: u64, pub reduced: u64,
    pub timing: Option<[u64; 3]>, // units_in_display_tick, time_scale, num_ticks_per_picture (0 = not equal)
    pub decoder_model: u64, pub init_disp: u64,
    pub n_op: u64, pub op_idc: u64, pub level: u64, pub tier: u64,
    pub wbits: usize, pub hbits: usize, pub w: u64, pub h: u64, pub frame_ids: u64,
    pub sb128: u64, pub filter_intra: u64, pub intra_edge: u64,
    pub interintra: u64, pub masked: u64, pub warped: u64, pub dual: u64, pub order_hint: u64, pub jnt: u64, pub ref_mvs: u64,
    pub force_sct: u64, pub force_imv: u64, pub oh_bits: usize, pub superres: u64, pub cdef: u64, pub restoration: u64,
    pub bd: u64, pub mono: u64, pub cp: u64, pub tc: u64, pub mc: u64, pub cdesc: u64, pub range: u64, pub ssx: u64, pub ssy: u64, pub csp: u64, pub suvdq: u64,
    pub film_grain: u64,
}

pub fn parse_seq(d: &[u8]) -> R<Seq> {
    let mut b = Br::new(d);
    let mut s = Seq::default();
    s.profile = b.f(3)?;
    s.still = b.bit()?;
    s.reduced = b.bit()?;
    if s.reduced == 1 {
        s.n_op = 1;
        s.level = b.f(5)?;
    } else {
        if b.bit()? == 1 {
            let a = b.f(32)?;
            let t = b.f(32)?;
            let eq = b.bit()?;
            let n = if eq == 1 { b.uvlc()? + 1 } else { 0 };
            s.timing = Some([a, t, n]);
            s.decoder_model = b.bit()?;
            if s.decoder_model == 1 { return Err("decoder model unsupported".into()); }
        }
        s.init_disp = b.bit()?;
        s.n_op = b.f(5)? + 1;
        for i in 0..s.n_op {
            let idc = b.f(12)?;
            let l = b.f(5)?;
            let t = if l > 7 { b.bit()? } else { 0 };
            if s.init_disp == 1 && b.bit()? == 1 { b.f(4)?; }
            if i == 0 { s.op_idc = idc; s.level = l; s.tier = t; }
        }
    }
    s.wbits = b.f(4)? as usize + 1;
    s.hbits = b.f(4)? as usize + 1;
    s.w = b.f(s.wbits)? + 1;
    s.h = b.f(s.hbits)? + 1;
    if s.reduced == 0 {
        s.frame_ids = b.bit()?;
        if s.frame_ids == 1 { return Err("frame ids unsupported".into()); }
    }
    s.sb128 = b.bit()?;
    s.filter_intra = b.bit()?;
    s.intra_edge = b.bit()?;
    s.force_sct = 2;
    s.force_imv = 2;
    if s.reduced == 0 {
        s.interintra = b.bit()?;
        s.masked = b.bit()?;
        s.warped = b.bit()?;
        s.dual = b.bit()?;
        s.order_hint = b.bit()?;
        if s.order_hint == 1 { s.jnt = b.bit()?; s.ref_mvs = b.bit()?; }
        if b.bit()? == 0 { s.force_sct = b.bit()?; }
        if s.force_sct > 0 { if b.bit()? == 0 { s.force_imv = b.bit()?; } }
        if s.order_hint == 1 { s.oh_bits = b.f(3)? as usize + 1; }
    }
    s.superres = b.bit()?;
    s.cdef = b.bit()?;
    s.restoration = b.bit()?;
    // color config
    let hbd = b.bit()?;
    s.bd = if s.profile == 2 && hbd == 1 { if b.bit()? == 1 { 12 } else { 10 } } else if hbd == 1 { 10 } else { 8 };
    s.mono = if s.profile == 1 { 0 } else { b.bit()? };
    s.cdesc = b.bit()?;
    (s.cp, s.tc, s.mc) = if s.cdesc == 1 { (b.f(8)?, b.f(8)?, b.f(8)?) } else { (2, 2, 2) };
    if s.mono == 1 {
        s.range = b.bit()?;
        s.ssx = 1; s.ssy = 1;
    } else if s.cp == 1 && s.tc == 13 && s.mc == 0 {
        s.range = 1;
        s.suvdq = b.bit()?;
    } else {
        s.range = b.bit()?;
        match s.profile {
            0 => { s.ssx = 1; s.ssy = 1; }
            1 => {}
            _ => {
                if s.bd == 12 { s.ssx = b.bit()?; if s.ssx == 1 { s.ssy = b.bit()?; } } else { s.ssx = 1; }
            }
        }
        if s.ssx == 1 && s.ssy == 1 { s.csp = b.f(2)?; }
        s.suvdq = b.bit()?;
    }
    s.film_grain = b.bit()?;
    // trailing bits
    if b.bit()? != 1 { return Err("sequence header: no trailing one bit".into()); }
    while b.p < d.len() * 8 { if b.bit()? != 0 { return Err("sequence header: trailing bits".into()); } }
    Ok(s)
}

impl Seq {
    pub fn json(&self) -> Value {
        json!({"profile": self.profile, "still": self.still, "reduced": self.reduced,
            "timing": self.timing.map(|t| json!(t)).unwrap_or(json!([])), "level": self.level, "tier": self.tier, "nop": self.n_op,
            "w": self.w, "h": self.h, "sb128": self.sb128, "ohb": self.oh_bits,
            "bd": self.bd, "mono": self.mono, "cdesc": self.cdesc, "cp": self.cp, "tc": self.tc, "mc": self.mc, "range": self.range,
            "ssx": self.ssx, "ssy": self.ssy, "csp": self.csp, "fg": self.film_grain})
    }
}

#[derive(Clone, Debug, Default)]
struct Slot { valid: bool, w: u64, h: u64, rw: u64, rh: u64, oh: u64, ft: u64, bq: u64 }

#[derive(Default)]
pub struct Parser { pub seq: Option<Seq>, slots: [Slot; 8] }

fn leb(d: &[u8], p: &mut usize) -> R<u64> {
    let mut v = 0u64;
    for i in 0..8 {
        let b = *d.get(*p).ok_or("leb eof")?;
        *p += 1;
        v |= ((b & 0x7f) as u64) << (7 * i);
        if b & 0x80 == 0 { return Ok(v); }
    }
    Err("leb too long".into())
}

/// Parses the tile info syntax; returns (uniform, col starts, row starts, ctx tile id, log2 cols, log2 rows), starts in superblocks incl. the end.
fn tile_info(b: &mut Br, sb_cols: u64, sb_rows: u64, sbl: u64) -> R<(u64, Vec<u64>, Vec<u64>, u64, u64, u64)> {
    let tl2 = |blk: u64, target: u64| -> u64 { let mut k = 0; while (blk << k) < target { k += 1; } k };
    let sb_size_log2 = sbl + 2; // 6 for 64x64
    let max_tile_width_sb = 4096u64 >> sb_size_log2;
    let mut max_tile_area_sb = (4096u64 * 2304) >> (2 * sb_size_log2);
    let min_cols = tl2(max_tile_width_sb, sb_cols);
    let max_cols = tl2(1, sb_cols.min(64));
    let max_rows = tl2(1, sb_rows.min(64));
    let min_tiles = min_cols.max(tl2(max_tile_area_sb, sb_rows * sb_cols));
    let uniform = b.bit()?;
    let (mut cols, mut rows) = (vec![], vec![]);
    let (cl, rl);
    if uniform == 1 {
        let mut k = min_cols;
        while k < max_cols { if b.bit()? == 1 { k += 1 } else { break } }
        let w = (sb_cols + (1 << k) - 1) >> k;
        let mut s = 0;
        while s < sb_cols { cols.push(s); s += w; }
        cols.push(sb_cols);
        cl = k;
        let minr = (min_tiles as i64 - cl as i64).max(0) as u64;
        let mut k = minr;
        while k < max_rows { if b.bit()? == 1 { k += 1 } else { break } }
        let h = (sb_rows + (1 << k) - 1) >> k;
        let mut s = 0;
        while s < sb_rows { rows.push(s); s += h; }
        rows.push(sb_rows);
        rl = k;
    } else {
        let mut widest = 0;
        let mut s = 0;
        while s < sb_cols {
            cols.push(s);
            let maxw = (sb_cols - s).min(max_tile_width_sb);
            let w = b.ns(maxw)? + 1;
            widest = widest.max(w);
            s += w;
            if cols.len() > 64 { return Err("too many tile cols".into()); }
        }
        cols.push(sb_cols);
        cl = tl2(1, cols.len() as u64 - 1);
        if min_tiles > 0 { max_tile_area_sb = (sb_rows * sb_cols) >> (min_tiles + 1); } else { max_tile_area_sb = sb_rows * sb_cols; }
        let max_h = (max_tile_area_sb / widest).max(1);
        let mut s = 0;
        while s < sb_rows {
            rows.push(s);
            let mh = (sb_rows - s).min(max_h);
            let h = b.ns(mh)? + 1;
            s += h;
            if rows.len() > 64 { return Err("too many tile rows".into()); }
        }
        rows.push(sb_rows);
        rl = tl2(1, rows.len() as u64 - 1);
    }
    let mut ctxid = 0;
    if cl > 0 || rl > 0 {
        ctxid = b.f((cl + rl) as usize)?;
        b.f(2)?;
    }
    Ok((uniform, cols, rows, ctxid, cl, rl))
}

impl Parser {
    /// Splits a temporal unit into OBUs and describes each.
    pub fn tu(&mut self, d: &[u8]) -> (Vec<Value>, Option<String>) {
        let mut out = vec![];
        let mut p = 0;
        while p < d.len() {
            match self.one(d, &mut p) {
                Ok(v) => out.push(v),
                Err(e) => return (out, Some(e)),
            }
        }
        (out, None)
    }

    fn one(&mut self, d: &[u8], p: &mut usize) -> R<Value> {
        let h = d[*p];
        *p += 1;
        if h & 0x80 != 0 { return Err("forbidden bit".into()); }
        let t = (h >> 3) & 15;
        let ext = (h >> 2) & 1;
        let has_size = (h >> 1) & 1;
        if h & 1 != 0 { return Err("reserved bit".into()); }
        if ext == 1 { *p += 1; }
        if has_size == 0 { return Err("obu without size".into()); }
        let len = leb(d, p)? as usize;
        if *p + len > d.len() { return Err("obu overruns the temporal unit".into()); }
        let body = &d[*p..*p + len];
        *p += len;
        Ok(match t {
            1 => {
                let s = parse_seq(body)?;
                let mut f = crate::dec::Fnv::new();
                f.bytes(body);
                let v = json!({"t": "seq", "hash": f.hex(), "seq": s.json(), "b": body});
                self.seq = Some(s);
                v
            }
            2 => json!({"t": "td", "len": len}),
            3 | 6 | 7 => {
                let mut v = self.frame_hdr(body)?;
                v["t"] = json!(if t == 6 { "frame" } else { "fh" });
                v
            }
            4 => json!({"t": "tg"}),
            5 => {
                let mut q = 0;
                let ty = leb(body, &mut q)?;
                let mut e = body.len();
                while e > q && body[e - 1] == 0 { e -= 1; }
                if e == q || body[e - 1] != 0x80 { return Err("metadata without trailing bits".into()); }
                let pl = &body[q..e - 1];
                let v: Vec<u64> = match ty {
                    1 if pl.len() == 4 => pl.chunks(2).map(|c| c[0] as u64 * 256 + c[1] as u64).collect(),
                    2 if pl.len() == 24 => {
                        let mut v: Vec<u64> = pl[..16].chunks(2).map(|c| c[0] as u64 * 256 + c[1] as u64).collect();
                        for c in pl[16..].chunks(4) { v.push(u32::from_be_bytes([c[0], c[1], c[2], c[3]]) as u64) }
                        v
                    }
                    _ => pl.iter().map(|&x| x as u64).collect(),
                };
                json!({"t": match ty {1 => "cll", 2 => "mdcv", 4 => "t35", _ => "meta"}, "v": v, "b": if ty == 1 || ty == 2 { body.to_vec() } else { vec![] }})
            }
            15 => json!({"t": "pad"}),
            _ => json!({"t": "other", "n": t}),
        })
    }

    fn frame_hdr(&mut self, d: &[u8]) -> R<Value> {
        let s = self.seq.clone().ok_or("frame before sequence header")?;
        let mut b = Br::new(d);
        let (mut ft, mut show, mut showable, mut er) = (0u64, 1u64, 0u64, 1u64);
        if s.reduced == 0 {
            if b.bit()? == 1 {
                let idx = b.f(3)?;
                if s.decoder_model == 1 { return Err("decoder model".into()); }
                let sl = self.slots[idx as usize].clone();
                if sl.valid && sl.ft == 0 { for x in self.slots.iter_mut() { *x = sl.clone(); } }
                return Ok(json!({"se": 1, "idx": idx, "bq": sl.bq, "sft": sl.ft}));
            }
            ft = b.f(2)?;
            show = b.bit()?;
            if show == 1 { showable = (ft != 0) as u64; } else { showable = b.bit()?; }
            er = if ft == 3 || (ft == 0 && show == 1) { 1 } else { b.bit()? };
        }
        if ft == 0 && show == 1 { for x in self.slots.iter_mut() { x.valid = false; } }
        let dcu = b.bit()?;
        let sct = if s.force_sct == 2 { b.bit()? } else { s.force_sct };
        let mut imv = 0;
        if sct == 1 { imv = if s.force_imv == 2 { b.bit()? } else { s.force_imv }; }
        let intra = ft == 0 || ft == 2;
        if intra { imv = 1; }
        let fso = if ft == 3 { 1 } else if s.reduced == 1 { 0 } else { b.bit()? };
        let oh = b.f(s.oh_bits)?;
        let prf = if intra || er == 1 { 7 } else { b.f(3)? };
        let refresh = if ft == 3 || (ft == 0 && show == 1) { 255 } else { b.f(8)? };
        let mut roh = vec![];
        if (!intra || refresh != 255) && er == 1 && s.order_hint == 1 {
            for _ in 0..8 { roh.push(b.f(s.oh_bits)?); }
        }
        let mut refs = vec![];
        let (mut w, mut h) = (s.w, s.h);
        let (mut rw, mut rh);
        let mut ibc = 0;
        let frame_size = |b: &mut Br| -> R<(u64, u64)> {
            let (mut w, mut h) = (s.w, s.h);
            if fso == 1 { w = b.f(s.wbits)? + 1; h = b.f(s.hbits)? + 1; }
            if s.superres == 1 && b.bit()? == 1 { return Err("superres".into()); }
            Ok((w, h))
        };
        let render = |b: &mut Br, w: u64, h: u64| -> R<(u64, u64)> {
            if b.bit()? == 1 { Ok((b.f(16)? + 1, b.f(16)? + 1)) } else { Ok((w, h)) }
        };
        let mut hp = 0;
        let mut ref_mvs = 0;
        if intra {
            if ft == 2 && refresh == 255 { return Err("intra-only refresh 255".into()); }
            (w, h) = frame_size(&mut b)?;
            (rw, rh) = render(&mut b, w, h)?;
            if sct == 1 { ibc = b.bit()?; }
        } else {
            let mut short = 0;
            if s.order_hint == 1 { short = b.bit()?; if short == 1 { b.f(6)?; } }
            if short == 1 { return Err("short signaling".into()); }
            for _ in 0..7 { refs.push(b.f(3)?); }
            rw = 0; rh = 0;
            let mut found = 0;
            if fso == 1 && er == 0 {
                for i in 0..7 {
                    found = b.bit()?;
                    if found == 1 { w = self.slots[refs[i] as usize].w; h = self.slots[refs[i] as usize].h; rw = self.slots[refs[i] as usize].rw; rh = self.slots[refs[i] as usize].rh; break; }
                }
                if found == 1 && s.superres == 1 { b.bit()?; }
            }
            if found == 0 { (w, h) = frame_size(&mut b)?; (rw, rh) = render(&mut b, w, h)?; }
            hp = if imv == 1 { 0 } else { b.bit()? };
            if b.bit()? == 0 { b.f(2)?; }
            b.bit()?; // is_motion_mode_switchable
            ref_mvs = if er == 1 || s.ref_mvs == 0 { 0 } else { b.bit()? };
        }
        let dfeuc = if s.reduced == 1 || dcu == 1 { 1 } else { b.bit()? };
        let sbl: u64 = if s.sb128 == 1 { 5 } else { 4 };
        let mi_cols = 2 * ((w + 7) >> 3);
        let mi_rows = 2 * ((h + 7) >> 3);
        let sb_cols = (mi_cols + (1 << sbl) - 1) >> sbl;
        let sb_rows = (mi_rows + (1 << sbl) - 1) >> sbl;
        let (uni, cols, rows, ctxid, cl, rl) = tile_info(&mut b, sb_cols, sb_rows, sbl)?;
        // quantization params
        let bq = b.f(8)?;
        let dq = |b: &mut Br| -> R<i64> { if b.bit()? == 1 { b.su(7) } else { Ok(0) } };
        let ydc = dq(&mut b)?;
        let mut cdq = [0i64; 4];
        if s.mono == 0 {
            let diff = if s.suvdq == 1 { b.bit()? } else { 0 };
            cdq[0] = dq(&mut b)?;
            cdq[1] = dq(&mut b)?;
            if diff == 1 { cdq[2] = dq(&mut b)?; cdq[3] = dq(&mut b)?; } else { cdq[2] = cdq[0]; cdq[3] = cdq[1]; }
        }
        let qm = b.bit()?;
        let _ = (ibc, hp);
        for i in 0..8 {
            if refresh >> i & 1 == 1 { self.slots[i] = Slot { valid: true, w, h, rw, rh, oh, ft, bq }; }
        }
        Ok(json!({"se": 0, "ft": ft, "show": show, "showable": showable, "er": er, "dcu": dcu, "oh": oh, "prf": prf, "refresh": refresh,
            "refs": refs, "roh": roh, "w": w, "h": h, "rw": rw, "rh": rh, "fso": fso, "mvs": ref_mvs, "dfe": dfeuc,
            "uni": uni, "cols": cols, "rows": rows, "ctxid": ctxid, "cl": cl, "rl": rl, "bq": bq, "ydc": ydc, "cdq": cdq, "qm": qm}))
    }
}
