// Thin, behaviour-free bridge to two independent AV1 decoders.
#include <dav1d/dav1d.h>
#include <aom/aom_decoder.h>
#include <aom/aomdx.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef struct {
  int w, h, bpc, layout; // layout: 0=400 1=420 2=422 3=444
  const uint8_t *data[3];
  ptrdiff_t stride[3];
  int is16;
  // dav1d only:
  char grain[4096];
  int frame_type, show_existing, yac, offset;
  int seq_level, cl_present, cl[2], md_present, n_t35;
  unsigned md[10];
} VPic;
typedef void (*pic_cb)(const VPic *, void *);
typedef struct { int kind; Dav1dContext *d; aom_codec_ctx_t a; } VDec;

static void quiet(void *c, const char *f, va_list l) { (void)c; (void)f; (void)l; }

VDec *vdec_open(int kind) {
  VDec *v = calloc(1, sizeof *v);
  v->kind = kind;
  if (kind == 0) {
    Dav1dSettings s;
    dav1d_default_settings(&s);
    s.n_threads = 1; s.max_frame_delay = 1; s.apply_grain = 0;
    s.strict_std_compliance = 1; s.all_layers = 0;
    s.logger.callback = quiet;
    if (dav1d_open(&v->d, &s)) { free(v); return NULL; }
  } else {
    aom_codec_dec_cfg_t cfg = { 1, 0, 0, 1 };
    if (aom_codec_dec_init(&v->a, aom_codec_av1_dx(), &cfg, 0)) { free(v); return NULL; }
    aom_codec_control(&v->a, AV1D_SET_SKIP_FILM_GRAIN, 1);
  }
  return v;
}

static void grain_text(char *o, size_t n, const Dav1dFrameHeader *h, int mono) {
  size_t k = 0;
  const Dav1dFilmGrainData *g = &h->film_grain.data;
#define W(...) k += (size_t)snprintf(o + k, k < n ? n - k : 0, __VA_ARGS__)
  int any = h->film_grain.present && (g->num_y_points || g->num_uv_points[0] || g->num_uv_points[1] || (g->chroma_scaling_from_luma && g->num_y_points));
  (void)any;
  if (!h->film_grain.present) { snprintf(o, n, "off"); return; }
  W("y:");
  for (int i = 0; i < g->num_y_points; i++) W("%d/%d,", g->y_points[i][0], g->y_points[i][1]);
  W(";cfl%d", g->chroma_scaling_from_luma);
  for (int p = 0; p < 2; p++) { W(";uv%d:", p);
    for (int i = 0; i < g->num_uv_points[p]; i++) W("%d/%d,", g->uv_points[p][i][0], g->uv_points[p][i][1]); }
  W(";ss%d;lag%d;", g->scaling_shift, g->ar_coeff_lag);
  int na = 2 * g->ar_coeff_lag * (g->ar_coeff_lag + 1);
  W("ay:"); if (g->num_y_points) for (int i = 0; i < na; i++) W("%d,", g->ar_coeffs_y[i]);
  for (int p = 0; p < 2; p++) { W(";a%d:", p);
    if (!mono && (g->num_uv_points[p] || g->chroma_scaling_from_luma))
      for (int i = 0; i < na + !!g->num_y_points; i++) W("%d,", g->ar_coeffs_uv[p][i]); }
  W(";as%d;gs%d", (int)g->ar_coeff_shift, g->grain_scale_shift);
  for (int p = 0; p < 2; p++) if (g->num_uv_points[p]) W(";m%d:%d,%d,%d", p, g->uv_mult[p], g->uv_luma_mult[p], g->uv_offset[p]);
  W(";ov%d;cl%d;seed%u", g->overlap_flag, g->clip_to_restricted_range, g->seed);
}

static int drain_d(VDec *v, pic_cb cb, void *u, int *n) {
  for (;;) {
    Dav1dPicture p; memset(&p, 0, sizeof p);
    int r = dav1d_get_picture(v->d, &p);
    if (r == DAV1D_ERR(EAGAIN)) return 0;
    if (r) return r;
    VPic o; memset(&o, 0, sizeof o);
    o.w = p.p.w; o.h = p.p.h; o.bpc = p.p.bpc; o.is16 = p.p.bpc > 8;
    o.layout = p.p.layout == DAV1D_PIXEL_LAYOUT_I400 ? 0 : p.p.layout == DAV1D_PIXEL_LAYOUT_I420 ? 1 : p.p.layout == DAV1D_PIXEL_LAYOUT_I422 ? 2 : 3;
    for (int i = 0; i < 3; i++) { o.data[i] = p.data[i]; o.stride[i] = p.stride[i ? 1 : 0]; }
    grain_text(o.grain, sizeof o.grain, p.frame_hdr, o.layout == 0);
    o.frame_type = p.frame_hdr->frame_type; o.show_existing = p.frame_hdr->show_existing_frame;
    o.yac = p.frame_hdr->quant.yac; o.offset = p.frame_hdr->frame_offset;
    if (p.content_light) { o.cl_present = 1; o.cl[0] = p.content_light->max_content_light_level; o.cl[1] = p.content_light->max_frame_average_light_level; }
    if (p.mastering_display) { o.md_present = 1; for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) o.md[i*2+j] = p.mastering_display->primaries[i][j];
      o.md[6] = p.mastering_display->white_point[0]; o.md[7] = p.mastering_display->white_point[1]; o.md[8] = p.mastering_display->max_luminance; o.md[9] = p.mastering_display->min_luminance; }
    o.n_t35 = (int)p.n_itut_t35;
    cb(&o, u); (*n)++;
    dav1d_picture_unref(&p);
  }
}

// Feeds one temporal unit; returns 0 or a decoder error. *n = pictures output.
int vdec_feed(VDec *v, const uint8_t *buf, size_t len, pic_cb cb, void *u, int *n) {
  *n = 0;
  if (v->kind == 0) {
    Dav1dData d; memset(&d, 0, sizeof d);
    uint8_t *q = dav1d_data_create(&d, len);
    if (!q) return -1;
    memcpy(q, buf, len);
    int guard = 0;
    while (d.sz > 0) {
      int r = dav1d_send_data(v->d, &d);
      if (r && r != DAV1D_ERR(EAGAIN)) { dav1d_data_unref(&d); return r; }
      int r2 = drain_d(v, cb, u, n);
      if (r2) { if (d.sz) dav1d_data_unref(&d); return r2; }
      if (++guard > 1000) { dav1d_data_unref(&d); return -2; }
    }
    return drain_d(v, cb, u, n);
  }
  int r = aom_codec_decode(&v->a, buf, len, NULL);
  if (r) return r;
  aom_codec_iter_t it = NULL; aom_image_t *img;
  while ((img = aom_codec_get_frame(&v->a, &it))) {
    int bad = 0;
    aom_codec_control(&v->a, AOMD_GET_FRAME_CORRUPTED, &bad);
    if (bad) return -3;
    VPic o; memset(&o, 0, sizeof o);
    o.w = (int)img->d_w; o.h = (int)img->d_h; o.bpc = (int)img->bit_depth; o.is16 = !!(img->fmt & AOM_IMG_FMT_HIGHBITDEPTH);
    o.layout = img->monochrome ? 0 : (img->x_chroma_shift ? (img->y_chroma_shift ? 1 : 2) : 3);
    for (int i = 0; i < 3; i++) { o.data[i] = img->planes[i]; o.stride[i] = img->stride[i]; }
    strcpy(o.grain, "n/a");
    cb(&o, u); (*n)++;
  }
  return 0;
}

void vdec_close(VDec *v) {
  if (!v) return;
  if (v->kind == 0) dav1d_close(&v->d); else aom_codec_destroy(&v->a);
  free(v);
}
