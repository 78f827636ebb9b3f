#include "tn.h"
using namespace vh;
int main(int c, char** v) {
  init(c, v); tn::Quiet q; Rng r(9);
  for (int k = 0; k < 2500 * g_scale; k++) {
    double bud = 6000; int w = r.d(6, bud), h = r.b(0.3) && w < 70 ? w : r.d(6, bud), M = r.d(4, bud), S = r.d(4, bud), rw = r.i(1, 4), rh = r.b(0.4) ? rw : r.i(1, 4); float f = r.b(0.3) ? 1 : r.q();
    int op = r.i(0, 3), ew = r.b(0.3) ? r.i(0, rw - 1) : 0, eh = r.b(0.3) ? r.i(0, rh - 1) : 0;
    if (op == 0) {
      begin(str("SMS %dx%d maps %d samples %d", w, h, M, S));
      Tensor s(M, w, h, S), t(S, w, h, M); tn::fill(s, r); tn::fill(t, r); auto sb = tn::snap(s);
      Conv::TensorMath::SMS(s, t);
      check(tn::same(s, sb), "source changed");
      tn::all(t, "swapped", 0, [&](size_t x, size_t y, size_t m, size_t n) { return tn::at(s, x, y, n, m); });
    } else if (op == 1) {
      begin(str("DOWN target %dx%d maps %d samples %d region %dx%d factor %g rest %d,%d", w, h, M, S, rw, rh, f, ew, eh));
      Tensor s(S, w * rw + ew, h * rh + eh, M), t(S, w, h, M); tn::fillq(s, r); tn::fillq(t, r); auto sb = tn::snap(s);
      Conv::TensorMath::DOWN(s, t, rw, rh, f);
      check(tn::same(s, sb), "source changed");
      tn::all(t, "downscaled", 1e-4, [&](size_t x, size_t y, size_t m, size_t n) { double a = 0; for (int j = 0; j < rh; j++) for (int i = 0; i < rw; i++) a += tn::at(s, x * rw + i, y * rh + j, m, n); return a * f; });
    } else if (op == 2) {
      begin(str("UP source %dx%d maps %d samples %d region %dx%d factor %g rest %d,%d", w, h, M, S, rw, rh, f, ew, eh));
      Tensor s(S, w, h, M), t(S, w * rw + ew, h * rh + eh, M); tn::fillq(s, r); tn::fillq(t, r); auto sb = tn::snap(s), tb = tn::snap(t);
      Conv::TensorMath::UP(s, t, rw, rh, f);
      check(tn::same(s, sb), "source changed");
      tn::all(t, "upscaled", 1e-5, [&](size_t x, size_t y, size_t m, size_t n) -> double { if ((int)x >= w * rw || (int)y >= h * rh) return tb[tn::off(t, x, y, m, n)]; return (double)tn::at(s, x / rw, y / rh, m, n) * f; });
    } else {
      begin(str("ADD %dx%d maps %d samples %d", w, h, M, S));
      Tensor a(S, w, h, M), b(S, w, h, M), t(S, w, h, M); tn::fillq(a, r); tn::fillq(b, r); tn::fillq(t, r); auto ab = tn::snap(a), bb = tn::snap(b);
      bool inpl = r.b(0.2);
      Conv::TensorMath::ADD(a, b, inpl ? a : t); Tensor& o = inpl ? a : t;
      check((inpl || tn::same(a, ab)) && tn::same(b, bb), "a source changed");
      tn::all(o, "sum", 0, [&](size_t x, size_t y, size_t m, size_t n) { size_t i = tn::off(b, x, y, m, n); return (double)(ab[i] + bb[i]); });
    }
  }
  return finish();
}
