// Drives the C interface from C through the shared library: list model, closed form geometry of
// rectangles, ownership. usage: driver SEED HISTORIES. Prints FAIL ... and exits 1 on a deviation.
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef struct cavc_pline cavc_pline;
typedef struct cavc_plinelist cavc_plinelist;
typedef struct cavc_aabbindex cavc_aabbindex;
typedef struct { double x, y, bulge; } cavc_vertex;
typedef struct {
  const cavc_aabbindex *aabb_index;
  double pos_equal_eps, slice_join_eps, offset_dist_eps;
  uint8_t handle_self_intersects;
} cavc_pline_parallel_offset_o;
typedef struct {
  const cavc_aabbindex *pline1_aabb_index;
  double pos_equal_eps;
} cavc_pline_boolean_o;

int32_t cavc_pline_parallel_offset_o_init(cavc_pline_parallel_offset_o *);
int32_t cavc_pline_boolean_o_init(cavc_pline_boolean_o *);
int32_t cavc_pline_create(const cavc_vertex *, uint32_t, uint8_t, const cavc_pline **);
void cavc_pline_f(cavc_pline *);
int32_t cavc_pline_reserve(cavc_pline *, uint32_t);
int32_t cavc_pline_clone(const cavc_pline *, const cavc_pline **);
int32_t cavc_pline_get_is_closed(const cavc_pline *, uint8_t *);
int32_t cavc_pline_set_is_closed(cavc_pline *, uint8_t);
int32_t cavc_pline_get_vertex_count(const cavc_pline *, uint32_t *);
int32_t cavc_pline_get_vertex_data(const cavc_pline *, cavc_vertex *);
int32_t cavc_pline_set_vertex_data(cavc_pline *, const cavc_vertex *, uint32_t);
int32_t cavc_pline_clear(cavc_pline *);
int32_t cavc_pline_add(cavc_pline *, double, double, double);
int32_t cavc_pline_get_vertex(const cavc_pline *, uint32_t, cavc_vertex *);
int32_t cavc_pline_set_vertex(cavc_pline *, uint32_t, cavc_vertex);
int32_t cavc_pline_remove(cavc_pline *, uint32_t);
int32_t cavc_pline_eval_path_length(const cavc_pline *, double *);
int32_t cavc_pline_eval_area(const cavc_pline *, double *);
int32_t cavc_pline_eval_wn(const cavc_pline *, double, double, int32_t *);
int32_t cavc_pline_invert_direction(cavc_pline *);
int32_t cavc_pline_scale(cavc_pline *, double);
int32_t cavc_pline_translate(cavc_pline *, double, double);
int32_t cavc_pline_remove_repeat_pos(cavc_pline *, double);
int32_t cavc_pline_remove_redundant(cavc_pline *, double);
int32_t cavc_pline_eval_extents(const cavc_pline *, double *, double *, double *, double *);
int32_t cavc_pline_parallel_offset(const cavc_pline *, double, const cavc_pline_parallel_offset_o *, const cavc_plinelist **);
int32_t cavc_pline_boolean(const cavc_pline *, const cavc_pline *, uint32_t, const cavc_pline_boolean_o *, const cavc_plinelist **, const cavc_plinelist **);
int32_t cavc_pline_create_approx_aabbindex(const cavc_pline *, const cavc_aabbindex **);
int32_t cavc_pline_create_aabbindex(const cavc_pline *, const cavc_aabbindex **);
void cavc_aabbindex_f(cavc_aabbindex *);
int32_t cavc_aabbindex_get_extents(const cavc_aabbindex *, double *, double *, double *, double *);
void cavc_plinelist_f(cavc_plinelist *);
int32_t cavc_plinelist_get_count(const cavc_plinelist *, uint32_t *);
int32_t cavc_plinelist_get_pline(const cavc_plinelist *, uint32_t, const cavc_pline **);
int32_t cavc_plinelist_pop(cavc_plinelist *, const cavc_pline **);
int32_t cavc_plinelist_take(cavc_plinelist *, uint32_t, const cavc_pline **);

static uint64_t S;
static uint64_t rnd(void) {
  S += 0x9e3779b97f4a7c15ull;
  uint64_t z = S;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static int below(int n) { return (int)(rnd() % (uint64_t)n); }
static double f01(void) { return (double)(rnd() >> 11) / 9007199254740992.0; }
static double range(double a, double b) { return a + (b - a) * f01(); }

static long calls, hist, offsets, booleans, released;
static long seed0;
#define FAILF(...) do { printf("FAIL seed %ld history %ld line %d: ", seed0, hist, __LINE__); printf(__VA_ARGS__); printf("\n"); exit(1); } while (0)
#define RC(want, e) do { int32_t rc_ = (e); calls++; if (rc_ != (want)) FAILF("%s returned %d, documented %d", #e, rc_, (int)(want)); } while (0)
#define NEAR(a, b) do { double a_ = (a), b_ = (b); if (!(fabs(a_ - b_) <= 1e-6 * (1 + fabs(b_)))) FAILF("%s is %.17g, expected %.17g", #a, a_, b_); } while (0)

enum { CAP = 64 };
typedef struct { cavc_pline *p; cavc_vertex v[CAP]; int n, closed; } M;

static void observe(M *m) {
  uint32_t n = 999;
  uint8_t cl = 99;
  RC(0, cavc_pline_get_vertex_count(m->p, &n));
  RC(0, cavc_pline_get_is_closed(m->p, &cl));
  if ((int)n != m->n || (cl != 0) != m->closed) FAILF("count %u closed %u, model %d %d", n, cl, m->n, m->closed);
  cavc_vertex *b = malloc(sizeof *b * (n ? n : 1)); // exact size: an overrun is visible to valgrind
  RC(0, cavc_pline_get_vertex_data(m->p, n ? b : (below(2) ? b : NULL)));
  if (memcmp(b, m->v, sizeof *b * n)) FAILF("vertex data differs from the model");
  free(b);
  if (n) {
    cavc_vertex v = {-1, -2, -3};
    int i = below((int)n);
    RC(0, cavc_pline_get_vertex(m->p, i, &v));
    if (memcmp(&v, &m->v[i], sizeof v)) FAILF("vertex %d differs from the model", i);
  }
  cavc_vertex v = {-1, -2, -3};
  RC(2, cavc_pline_get_vertex(m->p, n, &v));
  RC(2, cavc_pline_get_vertex(m->p, UINT32_MAX, &v));
  if (v.x != -1 || v.y != -2 || v.bulge != -3) FAILF("refused get_vertex wrote its output");
}
static void mk(M *m) {
  m->n = below(8);
  m->closed = below(2);
  for (int i = 0; i < m->n; i++) m->v[i] = (cavc_vertex){range(-5, 5), range(-5, 5), below(2) ? 0 : range(-1, 1)};
  const cavc_pline *out = NULL;
  cavc_vertex *src = malloc(sizeof *src * (m->n ? m->n : 1));
  memcpy(src, m->v, sizeof *src * m->n);
  RC(0, cavc_pline_create(m->n ? src : NULL, m->n, m->closed ? 1 + below(255) : 0, &out));
  memset(src, 0x5a, sizeof *src * m->n); // the source buffer is the caller's
  free(src);
  m->p = (cavc_pline *)out;
}
static void edit(M *m) {
  cavc_vertex v = {range(-5, 5), range(-5, 5), range(-1, 1)};
  int i;
  switch (below(10)) {
  case 0: case 1: case 2:
    if (m->n < CAP) { RC(0, cavc_pline_add(m->p, v.x, v.y, v.bulge)); m->v[m->n++] = v; }
    break;
  case 3:
    if (m->n) { i = below(m->n); RC(0, cavc_pline_set_vertex(m->p, i, v)); m->v[i] = v; }
    RC(2, cavc_pline_set_vertex(m->p, m->n, v));
    break;
  case 4:
    RC(2, cavc_pline_remove(m->p, m->n + below(3)));
    if (m->n) { i = below(m->n); RC(0, cavc_pline_remove(m->p, i)); memmove(m->v + i, m->v + i + 1, sizeof v * (m->n - i - 1)); m->n--; }
    break;
  case 5: if (below(4) == 0) { RC(0, cavc_pline_clear(m->p)); m->n = 0; } break;
  case 6: m->closed = below(2); RC(0, cavc_pline_set_is_closed(m->p, m->closed)); break;
  case 7: {
    int n = below(12);
    cavc_vertex *b = malloc(sizeof *b * (n ? n : 1));
    for (i = 0; i < n; i++) b[i] = (cavc_vertex){range(-5, 5), range(-5, 5), 0};
    RC(0, cavc_pline_set_vertex_data(m->p, n ? b : NULL, n));
    memcpy(m->v, b, sizeof *b * n);
    free(b);
    m->n = n;
    break;
  }
  case 8: RC(0, cavc_pline_reserve(m->p, below(100))); break;
  default: {
    double dx = below(9) - 4, dy = below(9) - 4;
    RC(0, cavc_pline_translate(m->p, dx, dy));
    for (i = 0; i < m->n; i++) { m->v[i].x += dx; m->v[i].y += dy; }
  }
  }
}
static M rect(double x, double y, double w, double h) {
  M m = {0};
  m.closed = 1;
  m.n = 4;
  m.v[0] = (cavc_vertex){x, y, 0};
  m.v[1] = (cavc_vertex){x + w, y, 0};
  m.v[2] = (cavc_vertex){x + w, y + h, 0};
  m.v[3] = (cavc_vertex){x, y + h, 0};
  const cavc_pline *o = NULL;
  RC(0, cavc_pline_create(m.v, 4, 1, &o));
  m.p = (cavc_pline *)o;
  return m;
}
// signed area over a list, every item read through its handle; the list is emptied in random order
static double drain(const cavc_plinelist *cl, int *count) {
  cavc_plinelist *l = (cavc_plinelist *)cl;
  uint32_t n = 77;
  double t = 0;
  RC(0, cavc_plinelist_get_count(l, &n));
  if (count) *count = n;
  int keep = below(3) == 0; // free the list while it still owns polylines
  const cavc_pline *p = NULL, *q = NULL;
  RC(2, cavc_plinelist_get_pline(l, n, &p));
  RC(2, cavc_plinelist_take(l, n, &p));
  if (p) FAILF("refused list access wrote its output");
  for (uint32_t i = 0; i < n; i++) {
    double a;
    RC(0, cavc_plinelist_get_pline(l, i, &p));
    RC(0, cavc_pline_eval_area(p, &a));
    t += fabs(a);
  }
  while (!keep && n) {
    if (below(2)) {
      RC(0, cavc_plinelist_get_pline(l, n - 1, &q));
      RC(0, cavc_plinelist_pop(l, &p));
    } else {
      int i = below(n);
      RC(0, cavc_plinelist_get_pline(l, i, &q));
      RC(0, cavc_plinelist_take(l, i, &p));
    }
    if (p != q) FAILF("another polyline was released");
    cavc_pline_f((cavc_pline *)p);
    released++;
    uint32_t k = 0;
    RC(0, cavc_plinelist_get_count(l, &k));
    if (k != --n) FAILF("count %u after release, expected %u", k, n);
  }
  if (!n) { p = NULL; RC(2, cavc_plinelist_pop(l, &p)); if (p) FAILF("refused pop wrote its output"); }
  cavc_plinelist_f(l);
  return t;
}
static void geometry(void) {
  double x = range(-3, 3), y = range(-3, 3), w = range(2, 6), h = range(2, 6), d = range(0.1, 0.8);
  M a = rect(x, y, w, h);
  double r[4];
  int32_t wn = -5;
  RC(0, cavc_pline_eval_area(a.p, &r[0]));
  NEAR(r[0], w * h);
  RC(0, cavc_pline_eval_path_length(a.p, &r[0]));
  NEAR(r[0], 2 * (w + h));
  RC(0, cavc_pline_eval_wn(a.p, x + w / 2, y + h / 2, &wn));
  if (wn != 1) FAILF("winding number %d", wn);
  RC(0, cavc_pline_eval_wn(a.p, x - 1, y + h / 2, &wn));
  if (wn != 0) FAILF("winding number %d", wn);
  RC(0, cavc_pline_eval_extents(a.p, &r[0], &r[1], &r[2], &r[3]));
  NEAR(r[0], x); NEAR(r[1], y); NEAR(r[2], x + w); NEAR(r[3], y + h);
  const cavc_aabbindex *ix = NULL;
  if (below(2)) RC(0, cavc_pline_create_aabbindex(a.p, &ix)); else RC(0, cavc_pline_create_approx_aabbindex(a.p, &ix));
  RC(0, cavc_aabbindex_get_extents(ix, &r[0], &r[1], &r[2], &r[3]));
  NEAR(r[0], x); NEAR(r[1], y); NEAR(r[2], x + w); NEAR(r[3], y + h);
  // options as laid out by a C compiler
  struct { cavc_pline_parallel_offset_o o; unsigned char tail[16]; } po;
  memset(&po, 0xEE, sizeof po);
  RC(0, cavc_pline_parallel_offset_o_init(&po.o));
  for (int i = 0; i < 16; i++) if (po.tail[i] != 0xEE) FAILF("options init wrote past the struct");
  if (po.o.aabb_index || po.o.handle_self_intersects) FAILF("offset option defaults");
  NEAR(po.o.pos_equal_eps, 1e-5); NEAR(po.o.slice_join_eps, 1e-4); NEAR(po.o.offset_dist_eps, 1e-4);
  if (po.o.pos_equal_eps <= 0 || po.o.slice_join_eps <= 0 || po.o.offset_dist_eps <= 0) FAILF("offset option defaults");
  struct { cavc_pline_boolean_o o; unsigned char tail[16]; } bo;
  memset(&bo, 0xEE, sizeof bo);
  RC(0, cavc_pline_boolean_o_init(&bo.o));
  for (int i = 0; i < 16; i++) if (bo.tail[i] != 0xEE) FAILF("options init wrote past the struct");
  if (bo.o.pline1_aabb_index || bo.o.pos_equal_eps <= 0 || bo.o.pos_equal_eps > 1e-3) FAILF("boolean option defaults");
  // offsets of a counter clockwise rectangle: positive is inside
  const cavc_plinelist *l = (const cavc_plinelist *)1, *l2 = (const cavc_plinelist *)1;
  int n;
  po.o.aabb_index = below(2) ? ix : NULL;
  po.o.handle_self_intersects = (uint8_t)below(3);
  RC(0, cavc_pline_parallel_offset(a.p, d, below(3) ? &po.o : NULL, &l));
  offsets++;
  NEAR(drain(l, &n), (w - 2 * d) * (h - 2 * d));
  if (n != 1) FAILF("%d polylines", n);
  RC(0, cavc_pline_parallel_offset(a.p, -d, below(3) ? &po.o : NULL, &l));
  offsets++;
  NEAR(drain(l, &n), w * h + 2 * d * (w + h) + 3.14159265358979323846 * d * d);
  RC(0, cavc_pline_parallel_offset(a.p, (w < h ? w : h), &po.o, &l));
  NEAR(drain(l, &n), 0);
  if (n != 0) FAILF("%d polylines", n);
  // booleans of two rectangles
  double x2 = x + range(0.3, w - 0.3), y2 = y + range(0.3, h - 0.3), w2 = range(2, 9), h2 = range(2, 9);
  if (fabs(x2 + w2 - x - w) < 0.1) w2 += 0.3;
  if (fabs(y2 + h2 - y - h) < 0.1) h2 += 0.3;
  M b = rect(x2, y2, w2, h2);
  double ix_ = fmin(x + w, x2 + w2) - x2, iy_ = fmin(y + h, y2 + h2) - y2, in = ix_ * iy_;
  double want[4] = {w * h + w2 * h2 - in, in, w * h - in, w * h + w2 * h2 - 2 * in};
  bo.o.pline1_aabb_index = below(2) ? ix : NULL;
  for (uint32_t op = 0; op < 6; op++) {
    l = l2 = (const cavc_plinelist *)1;
    if (op > 3) {
      RC(2, cavc_pline_boolean(a.p, b.p, op, &bo.o, &l, &l2));
      if (l != (const cavc_plinelist *)1 || l2 != (const cavc_plinelist *)1) FAILF("refused boolean wrote its outputs");
      continue;
    }
    RC(0, cavc_pline_boolean(a.p, b.p, op, below(2) ? &bo.o : NULL, &l, &l2));
    booleans++;
    double pos = drain(l, NULL), neg = drain(l2, NULL);
    NEAR(pos - neg, want[op]);
  }
  // inversion, scale, repeated and redundant vertexes
  RC(0, cavc_pline_invert_direction(a.p));
  RC(0, cavc_pline_eval_area(a.p, &r[0]));
  NEAR(r[0], -w * h);
  RC(0, cavc_pline_scale(a.p, 2));
  RC(0, cavc_pline_eval_area(a.p, &r[0]));
  NEAR(r[0], -4 * w * h);
  cavc_vertex v;
  RC(0, cavc_pline_get_vertex(a.p, 3, &v));
  RC(0, cavc_pline_add(a.p, v.x, v.y, 0));
  RC(0, cavc_pline_remove_repeat_pos(a.p, 1e-5));
  uint32_t k = 0;
  RC(0, cavc_pline_get_vertex_count(a.p, &k));
  if (k != 4) FAILF("%u vertexes after removing a repeated one", k);
  cavc_vertex f;
  RC(0, cavc_pline_get_vertex(a.p, 0, &f));
  RC(0, cavc_pline_add(a.p, (v.x + f.x) / 2, (v.y + f.y) / 2, 0));
  RC(0, cavc_pline_remove_redundant(a.p, 1e-5));
  RC(0, cavc_pline_get_vertex_count(a.p, &k));
  if (k != 4) FAILF("%u vertexes after removing a redundant one", k);
  RC(0, cavc_pline_eval_area(a.p, &r[0]));
  NEAR(r[0], -4 * w * h);
  cavc_aabbindex_f((cavc_aabbindex *)ix);
  cavc_pline_f(a.p);
  cavc_pline_f(b.p);
}
int main(int argc, char **argv) {
  seed0 = argc > 1 ? atol(argv[1]) : 1;
  long n = argc > 2 ? atol(argv[2]) : 10;
  for (hist = 0; hist < n; hist++) {
    S = (uint64_t)seed0 * 1000003u + (uint64_t)hist * 7919u;
    M m[6];
    int k = 1 + below(5), live = k;
    for (int i = 0; i < k; i++) mk(&m[i]);
    for (int s = 0; s < 40; s++) {
      int i = below(live);
      edit(&m[i]);
      observe(&m[i]);
      if (live < 6 && below(12) == 0) {
        const cavc_pline *o = NULL;
        RC(0, cavc_pline_clone(m[i].p, &o));
        if (!o || o == m[i].p) FAILF("clone");
        m[live] = m[i];
        m[live++].p = (cavc_pline *)o;
      }
    }
    for (int i = 0; i < live; i++) { observe(&m[i]); }
    while (live) { int i = below(live); cavc_pline_f(m[i].p); m[i] = m[--live]; }
    geometry();
    cavc_pline_f(NULL);
    cavc_plinelist_f(NULL);
    cavc_aabbindex_f(NULL);
  }
  printf("EV c_histories %ld\nEV c_calls %ld\nEV c_offsets %ld\nEV c_booleans %ld\nEV c_released %ld\nDONE\n", hist, calls, offsets, booleans, released);
  return 0;
}
