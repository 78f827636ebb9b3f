#include "ly.h"
#include <MaxPoolingLayer.h>
#include <AdvancedMaxPoolingLayer.h>
using namespace vh;
static void one(Rng& r) {
  bool adv = r.b(0.6); int rw = r.i(1, 4), rh = r.b(0.4) ? rw : r.i(1, 4), sw = adv ? r.i(1, 4) : rw, sh = adv ? (r.b(0.4) ? sw : r.i(1, 4)) : rh;
  int w = adv || r.b(0.1) ? r.d(9) : rw * r.i(1, 4), h = adv || r.b(0.1) ? r.d(9, w < 50) : rh * r.i(1, 4), M = r.d(3, w * h < 50), S = r.d(3, w * h * M < 200), kind = r.i(0, 3);
  bool bystr = r.b(0.3);
  begin(str("%s pooling %dx%d stride %dx%d on %dx%d maps %d samples %d data kind %d%s", adv ? "strided" : "plain", rw, rh, sw, sh, w, h, M, S, kind, bystr ? " (from text)" : ""));
  Conv::Layer* l = adv ? (bystr ? (Conv::Layer*)new Conv::AdvancedMaxPoolingLayer(str("amaxpooling(size=%dx%d stride=%dx%d)", rw, rh, sw, sh)) : new Conv::AdvancedMaxPoolingLayer(rw, rh, sw, sh))
                       : (bystr ? (Conv::Layer*)new Conv::MaxPoolingLayer(str("maxpooling(size=%dx%d)", rw, rh)) : new Conv::MaxPoolingLayer(rw, rh));
  ly::Run R(l, {ly::ct(S, w, h, M)});
  bool ok = adv ? (w >= rw && h >= rh) : (w % rw == 0 && h % rh == 0);
  check(R.created == ok, ok ? "fitting regions rejected" : "regions that do not fit accepted");
  if (!ok || !R.created) return;
  if (!check(R.connected && R.out.size() == 1, "does not connect")) return;
  int ow = adv ? (w - rw) / sw + 1 : w / rw, oh = adv ? (h - rh) / sh + 1 : h / rh;
  Tensor &in = R.in[0]->data, &id = R.in[0]->delta, &out = R.out[0]->data, &od = R.out[0]->delta;
  if (!check(tn::shape(out, S, ow, oh, M) && tn::shape(od, S, ow, oh, M), str("output is %s", tn::dims(out).c_str()))) return;
  for (int round = 0; round < 2; round++) {
    if (kind == 0) tn::fill(in, r); else if (kind == 1) tn::filli(in, r, -2, 2); else if (kind == 2) tn::fill(in, r, -5, -1); else tn::setall(in, (float)r.i(-1, 1));
    if (kind == 0 && r.b(0.3)) in.data_ptr_[r.i(0, in.elements_ - 1)] = -1e30f;
    tn::fill(od, r); R.dirty(r);
    auto ib = tn::snap(in);
    l->FeedForward();
    check(tn::same(in, ib), "input changed");
    if (!tn::all(out, "output", 0, [&](size_t x, size_t y, size_t m, size_t s) { float b = -INFINITY; for (int j = 0; j < rh; j++) for (int i = 0; i < rw; i++) b = std::max(b, tn::at(in, x * sw + i, y * sh + j, m, s)); return (double)b; })) return;
    auto odb = tn::snap(od), ob = tn::snap(out);
    l->BackPropagate();
    check(tn::same(od, odb) && tn::same(out, ob) && tn::same(in, ib), "back-propagation changed its inputs");
    // with ties any maximal element may receive the gradient, but exactly one per region
    bool ties = kind == 1 || kind == 3;
    if (!ties) {
      if (!tn::all(id, "input gradient", 1e-5, [&](size_t x, size_t y, size_t m, size_t s) { double g = 0;
        for (int oy = 0; oy < oh; oy++) for (int ox = 0; ox < ow; ox++) if ((int)x >= ox * sw && (int)x < ox * sw + rw && (int)y >= oy * sh && (int)y < oy * sh + rh && tn::at(in, x, y, m, s) == tn::at(out, ox, oy, m, s)) g += tn::at(od, ox, oy, m, s);
        return g; })) return;
    } else {
      // exactly one receiver per region: probe with one output gradient at a time
      for (int p = 0; p < 4; p++) {
        int ox = r.i(0, ow - 1), oy = r.i(0, oh - 1), m = r.i(0, M - 1), s = r.i(0, S - 1);
        tn::setall(od, 0); tn::ref(od, ox, oy, m, s) = 3; tn::fill(id, r);
        l->BackPropagate(); int hits = 0;
        for (int ss = 0; ss < S; ss++) for (int mm = 0; mm < M; mm++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { float g = tn::at(id, x, y, mm, ss);
          if (g == 0) continue; hits++;
          check(g == 3 && ss == s && mm == m && x >= ox * sw && x < ox * sw + rw && y >= oy * sh && y < oy * sh + rh && tn::at(in, x, y, mm, ss) == tn::at(out, ox, oy, m, s), str("gradient %g of region (%d,%d) sent to (%d,%d) map %d sample %d", g, ox, oy, x, y, mm, ss)); }
        if (!check(hits == 1, str("gradient of region (%d,%d) reaches %d elements", ox, oy, hits))) return;
      }
    }
  }
}
static void refuse(Rng& r) {
  bool adv = r.b(); int a = r.i(1, 3), b = r.i(1, 3); ly::Dim d{r.i(1, 3), a * r.i(1, 3), b * r.i(1, 3), r.i(1, 3)};
  begin(str("set-up of %s pooling %dx%d refuses what does not fit, on %dx%d maps %d samples %d, try %ld", adv ? "strided" : "plain", a, b, d.w, d.h, d.M, d.S, g_evals));
  ly::refusals(r, [&] { return adv ? (Conv::Layer*)new Conv::AdvancedMaxPoolingLayer(a, b, a, b) : new Conv::MaxPoolingLayer(a, b); }, {d});
  int sa = a, sb = b; if (r.b()) (r.b() ? a : b) = 0; else if (adv) (r.b() ? sa : sb) = 0; else (r.b() ? a = d.w + 1 : b = d.h + 1);
  begin(str("%s pooling %dx%d stride %dx%d is refused on %dx%d", adv ? "strided" : "plain", a, b, sa, sb, d.w, d.h)); ly::nofit([&] { return adv ? (Conv::Layer*)new Conv::AdvancedMaxPoolingLayer(a, b, sa, sb) : new Conv::MaxPoolingLayer(a, b); }, d, "accepted");
}
int main(int c, char** v) {
  init(c, v); tn::Quiet q; tn::init_system(); Rng r(10);
  for (int k = 0; k < 1500 * g_scale; k++) { one(r); if (k % 4 == 0) refuse(r); }
  return finish();
}
