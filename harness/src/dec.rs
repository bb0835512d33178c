//! Bridge to the independent decoders (dav1d = 0, libaom = 1).
use std::os::raw::{c_char, c_int, c_void};

#[repr(C)]
pub struct VPic {
    pub w: c_int, pub h: c_int, pub bpc: c_int, pub layout: c_int,
    pub data: [*const u8; 3],
    pub stride: [isize; 3],
    pub is16: c_int,
    pub grain: [c_char; 4096],
    pub frame_type: c_int, pub show_existing: c_int, pub yac: c_int, pub offset: c_int,
    pub seq_level: c_int, pub cl_present: c_int, pub cl: [c_int; 2], pub md_present: c_int, pub n_t35: c_int,
    pub md: [u32; 10],
}
type Cb = extern "C" fn(*const VPic, *mut c_void);
extern "C" {
    fn vdec_open(kind: c_int) -> *mut c_void;
    fn vdec_feed(v: *mut c_void, buf: *const u8, len: usize, cb: Cb, u: *mut c_void, n: *mut c_int) -> c_int;
    fn vdec_close(v: *mut c_void);
}

#[derive(Clone, Debug)]
pub struct Pic {
    pub w: usize, pub h: usize, pub bpc: usize, pub layout: i32,
    pub hash: String,
    pub grain: String,
    pub frame_type: i32, pub yac: i32, pub offset: i32,
    pub cl: Option<[i32; 2]>,
    pub md: Option<[u32; 10]>,
    pub n_t35: i32,
    pub samples: Option<Vec<Vec<u16>>>,
}

pub struct Fnv(pub u64);
impl Fnv {
    pub fn new() -> Self { Fnv(0xcbf29ce484222325) }
    #[inline]
    pub fn u16(&mut self, v: u16) {
        self.0 = (self.0 ^ v as u64).wrapping_mul(0x100000001b3);
    }
    pub fn bytes(&mut self, b: &[u8]) {
        for &x in b { self.u16(x as u16) }
    }
    pub fn hex(&self) -> String { format!("{:016x}", self.0) }
}

struct Out { pics: Vec<Pic>, keep: bool }
extern "C" fn on_pic(p: *const VPic, u: *mut c_void) {
    let (p, out) = unsafe { (&*p, &mut *(u as *mut Out)) };
    let np = if p.layout == 0 { 1 } else { 3 };
    let mut f = Fnv::new();
    let mut samples = vec![];
    for pli in 0..np {
        let (xd, yd) = if pli == 0 { (0, 0) } else { match p.layout { 1 => (1, 1), 2 => (1, 0), _ => (0, 0) } };
        let w = ((p.w as usize) + xd) >> xd;
        let h = ((p.h as usize) + yd) >> yd;
        let mut pl = vec![];
        for y in 0..h {
            unsafe {
                let row = p.data[pli].offset(p.stride[pli] * y as isize);
                for x in 0..w {
                    let v = if p.is16 != 0 { *(row as *const u16).add(x) } else { *row.add(x) as u16 };
                    f.u16(v);
                    if out.keep { pl.push(v) }
                }
            }
        }
        samples.push(pl);
    }
    let grain = unsafe { std::ffi::CStr::from_ptr(p.grain.as_ptr()) }.to_string_lossy().into_owned();
    out.pics.push(Pic {
        w: p.w as usize, h: p.h as usize, bpc: p.bpc as usize, layout: p.layout, hash: f.hex(), grain,
        frame_type: p.frame_type, yac: p.yac, offset: p.offset,
        cl: (p.cl_present != 0).then_some(p.cl), md: (p.md_present != 0).then_some(p.md), n_t35: p.n_t35,
        samples: out.keep.then_some(samples),
    });
}

pub struct Dec { h: *mut c_void, pub keep: bool }
impl Dec {
    pub fn new(kind: i32) -> Self {
        let h = unsafe { vdec_open(kind) };
        assert!(!h.is_null());
        Dec { h, keep: false }
    }
    /// Feeds one temporal unit: (error code, pictures).
    pub fn feed(&mut self, data: &[u8]) -> (i32, Vec<Pic>) {
        let mut out = Out { pics: vec![], keep: self.keep };
        let mut n = 0;
        let r = unsafe { vdec_feed(self.h, data.as_ptr(), data.len(), on_pic, &mut out as *mut Out as *mut c_void, &mut n) };
        (r, out.pics)
    }
}
impl Drop for Dec {
    fn drop(&mut self) { unsafe { vdec_close(self.h) } }
}
