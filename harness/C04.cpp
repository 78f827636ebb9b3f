#include "tn.h"
using namespace vh;
int main(int c, char** v) {
  init(c, v); tn::Quiet q; Rng r(4);
  for (int k = 0; k < 1500 * g_scale; k++) {
    double bud = 20000; size_t M = r.d(6, bud), w = r.d(6, bud), h = r.d(6, bud), S = r.d(4, bud);
    int mode = r.i(0, 6);
    begin(str("%zus %zux%zu %zum data mode %d case %d", S, w, h, M, mode, k));
    Tensor t(S, w, h, M);
    switch (mode) {
      case 0: tn::fill(t, r); break; case 1: tn::fill(t, r, -3, -0.001); break; case 2: tn::filli(t, r, -1, 1); break; case 3: tn::filli(t, r, -2, 0); break;
      case 4: tn::setall(t, r.b(0.4) ? 0 : (float)r.f(-2, 2)); if (r.b(0.2)) t[r.i(0, t.elements() - 1)] = (float)r.f(-1e-30, 1e-30); break; case 5: tn::fill(t, r, -1e38, -1e37); break; case 6: tn::setall(t, -std::numeric_limits<float>::max()); if (r.b(0.5)) t[r.i(0, t.elements() - 1)] = -3e38f; break; }
    auto b = tn::snap(t); size_t V = w * h * M;
    for (size_t s = 0; s < S; s++) {
      size_t e = 0; for (size_t i = 1; i < V; i++) if (b[s * V + i] > b[s * V + e]) e = i;
      size_t g = t.Maximum(s); check(g == e, str("Maximum(%zu)=%zu, first largest element is %zu", s, g, e));
      for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) {
        size_t p = 0; for (size_t m = 1; m < M; m++) if (tn::at(t, x, y, m, s) > tn::at(t, x, y, p, s)) p = m;
        size_t o = t.PixelMaximum(x, y, s); check(o == p, str("PixelMaximum(%zu,%zu,%zu)=%zu expected %zu", x, y, s, o, p)); }
    }
    size_t a = 0; for (size_t i = 1; i < b.size(); i++) if (std::fabs(b[i]) > std::fabs(b[a])) a = i;
    size_t g = t.AbsMaximum(); check(g == a, str("AbsMaximum=%zu expected %zu", g, a));
    check(tn::same(t, b) && tn::shape(t, S, w, h, M), "query changed the tensor");
  }
  return finish();
}
