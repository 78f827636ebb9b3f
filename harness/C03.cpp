#include "tn.h"
using namespace vh;
int main(int c, char** v) {
  init(c, v); tn::Quiet q; Rng r(3);
  for (int k = 0; k < 1500 * g_scale; k++) {
    double bud = 6000; size_t sw = r.d(6, bud), sh = r.d(6, bud), sM = r.d(4, bud), sS = r.d(4, bud);
    size_t tS = r.d(4, bud), tw = sw, th = sh, tM = r.b(0.7) ? sM : r.i(1, 4);
    int mode = r.i(0, 5);
    if (mode == 1) { tw += r.i(0, 3); th += r.i(0, 3); } else if (mode == 2) { tw = r.i(1, 7); th = r.i(1, 7); } else if (mode == 3) { tw = sh; th = sw; } else if (mode == 4) { tw += r.i(1, 2); } else if (mode == 5) { th += r.i(1, 2); }
    size_t ss = r.i(0, sS - 1), ts = r.i(0, tS - 1);
    if (r.b(0.1)) ss = sS + r.i(0, 1); if (r.b(0.1)) ts = tS + r.i(0, 1);
    bool whole = r.b(0.5); size_t sm = r.i(0, sM - 1), tm = r.i(0, tM - 1);
    begin(str("%s source %zus %zux%zu %zum target %zus %zux%zu %zum sample %zu->%zu map %zu->%zu", whole ? "CopySample" : "CopyMap", sS, sw, sh, sM, tS, tw, th, tM, ss, ts, sm, tm));
    Tensor s(sS, sw, sh, sM), t(tS, tw, th, tM); tn::fill(s, r); tn::fill(t, r);
    auto sb = tn::snap(s), tb = tn::snap(t);
    bool fits = ss < sS && ts < tS && tw >= sw && th >= sh && (!whole || sM == tM);
    bool ok = whole ? Tensor::CopySample(s, ss, t, ts) : Tensor::CopyMap(s, ss, sm, t, ts, tm);
    check(ok == fits, str("reports %d, possible %d", ok, fits));
    check(tn::same(s, sb) && tn::shape(s, sS, sw, sh, sM), "source changed");
    check(tn::shape(t, tS, tw, th, tM), "target shape changed");
    if (!fits) check(tn::same(t, tb), "refused copy changed the target");
    else tn::all(t, "copy", 0, [&](size_t x, size_t y, size_t m, size_t n) -> double {
      if (n != ts || (!whole && m != tm)) return tb[tn::off(t, x, y, m, n)];
      if (x >= sw || y >= sh) return 0; return tn::at(s, x, y, whole ? m : sm, ss); });
  }
  return finish();
}
