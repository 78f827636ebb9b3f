#include "tn.h"
using namespace vh;
struct G { int W, H, M, S, kw, kh, sw, sh, pw, ph, tw, th; };
static G pick(Rng& r, int k) {
  G g; do {
    g.W = r.i(1, 9); g.H = r.b(0.3) ? g.W : r.i(1, 9); g.M = r.i(1, 3); g.S = r.i(1, 3); g.kw = r.i(1, 4); g.kh = r.b(0.4) ? g.kw : r.i(1, 4);
    g.sw = r.b(0.5) ? 1 : r.i(1, 3); g.sh = r.b(0.5) ? g.sw : r.i(1, 3); g.pw = r.b(0.5) ? 0 : r.i(0, 3); g.ph = r.b(0.5) ? g.pw : r.i(0, 3);
    if (k % 60 == 7) { g.W = r.i(60, 300); g.H = r.i(1, 4); if (r.b()) std::swap(g.W, g.H); } if (k % 60 == 11) { g.W = r.i(1, 4); g.H = r.i(1, 4); (r.b() ? g.M : g.S) = r.i(30, 270); } if (k % 40 == 0) { g.W = r.i(8, 24); g.H = r.i(4, 20); g.kw = r.i(1, 7); g.kh = r.i(1, 7); }
  } while (2 * g.pw + g.W < g.kw || 2 * g.ph + g.H < g.kh);
  g.tw = (2 * g.pw + g.W - g.kw) / g.sw + 1; g.th = (2 * g.ph + g.H - g.kh) / g.sh + 1; return g;
}
int main(int c, char** v) {
  init(c, v); tn::Quiet q; Rng r(8);
  for (int k = 0; k < 1500 * g_scale; k++) {
    G g = pick(r, k); bool fold = r.b();
    begin(str("%s image %dx%dx%d samples %d kernel %dx%d stride %dx%d pad %dx%d", fold ? "COL2IM" : "IM2COL", g.W, g.H, g.M, g.S, g.kw, g.kh, g.sw, g.sh, g.pw, g.ph));
    Tensor s(g.S, g.W, g.H, g.M), t(g.kw * g.kh * g.M, g.tw, g.th, g.S); tn::fillq(s, r); tn::fillq(t, r);
    auto sb = tn::snap(s), tb = tn::snap(t);
    auto row = [&](int m, int ky, int kx) { return (m * g.kh + ky) * g.kw + kx; };
    if (!fold) {
      Conv::TensorMath::IM2COL(s, g.W, g.H, g.M, g.S, g.kw, g.kh, g.sw, g.sh, g.pw, g.ph, t);
      check(tn::same(s, sb), "source changed");
      for (int m = 0; m < g.M; m++) for (int ky = 0; ky < g.kh; ky++) for (int kx = 0; kx < g.kw; kx++) for (int n = 0; n < g.S; n++) for (int oy = 0; oy < g.th; oy++) for (int ox = 0; ox < g.tw; ox++) {
        int ix = ox * g.sw - g.pw + kx, iy = oy * g.sh - g.ph + ky; float e = (ix >= 0 && iy >= 0 && ix < g.W && iy < g.H) ? tn::at(s, ix, iy, m, n) : 0, a = tn::at(t, ox, oy, n, row(m, ky, kx));
        if (e != a) { fail(str("column (kx=%d,ky=%d,map=%d) at (%d,%d) sample %d is %g, expected %g", kx, ky, m, ox, oy, n, a, e)); goto next; } }
    } else {
      Conv::TensorMath::COL2IM(s, g.W, g.H, g.M, g.S, g.kw, g.kh, g.sw, g.sh, g.pw, g.ph, t);
      check(tn::same(t, tb), "columns changed");
      std::vector<double> ex(sb.size(), 0.0);
      for (int m = 0; m < g.M; m++) for (int ky = 0; ky < g.kh; ky++) for (int kx = 0; kx < g.kw; kx++) for (int n = 0; n < g.S; n++) for (int oy = 0; oy < g.th; oy++) for (int ox = 0; ox < g.tw; ox++) {
        int ix = ox * g.sw - g.pw + kx, iy = oy * g.sh - g.ph + ky; if (ix >= 0 && iy >= 0 && ix < g.W && iy < g.H) ex[tn::off(s, ix, iy, m, n)] += tn::at(t, ox, oy, n, row(m, ky, kx)); }
      tn::all(s, "folded image", 1e-4, [&](size_t x, size_t y, size_t m, size_t n) { return ex[tn::off(s, x, y, m, n)]; });
    }
    next:;
  }
  return finish();
}
