#include "ly.h"
#include <NonLinearityLayer.h>
using namespace vh;
static void one(Rng& r) {
  int op = r.i(0, 3), w = r.d(7), h = op == 3 ? 1 : r.d(5, w < 50), M = op == 3 ? 1 : r.d(4, w * h < 50), S = r.d(4, w * h * M < 200), kind = r.i(0, 3);
  static const char* nm[] = {"logistic", "tanh", "rectifier", "softmax"};
  begin(str("%s on %dx%d maps %d samples %d data kind %d", nm[op], w, h, M, S, kind));
  bool s_ = r.b(); std::string cf = "x";
  Conv::Layer* l = op == 0 ? (s_ ? (Conv::Layer*)new Conv::SigmoidLayer(cf) : new Conv::SigmoidLayer()) : op == 1 ? (s_ ? (Conv::Layer*)new Conv::TanhLayer(cf) : new Conv::TanhLayer()) : op == 2 ? (s_ ? (Conv::Layer*)new Conv::ReLULayer(cf) : new Conv::ReLULayer()) : (s_ ? (Conv::Layer*)new Conv::SoftmaxLayer(cf) : new Conv::SoftmaxLayer());
  ly::Run R(l, {ly::ct(S, w, h, M)});
  if (!check(R.created && R.connected && R.out.size() == 1, "not set up")) return;
  Tensor &in = R.in[0]->data, &id = R.in[0]->delta, &o = R.out[0]->data, &od = R.out[0]->delta;
  if (!check(tn::shape(o, S, w, h, M), "output shape")) return;
  for (int round = 0; round < 2; round++) {
    if (kind == 0) tn::fill(in, r, -3, 3); else if (kind == 1) tn::filli(in, r, -1, 1); else if (kind == 2) tn::fill(in, r, -0.05, 0.05); else tn::fill(in, r, -12, 12);
    tn::fill(od, r, -4, 4); R.dirty(r); auto ib = tn::snap(in), gb = tn::snap(od);
    l->FeedForward(); check(tn::same(in, ib), "input changed");
    auto f = [&](size_t x, size_t y, size_t m, size_t s) -> double { double v = tn::at(in, x, y, m, s);
      if (op == 0) return 1 / (1 + std::exp(-v)); if (op == 1) return std::tanh(v); if (op == 2) return v > 0 ? v : 0;
      double t = 0; for (int i = 0; i < w; i++) t += std::exp((double)tn::at(in, i, 0, 0, s)); return std::exp(v) / t; };
    if (!tn::all(o, "output", 2e-6, f)) return;
    auto ob = tn::snap(o); l->BackPropagate(); check(tn::same(in, ib) && tn::same(od, gb) && tn::same(o, ob), "back-propagation changed data or output gradient");
    if (!tn::all(id, "input gradient", 2e-5, [&](size_t x, size_t y, size_t m, size_t s) -> double { double g = tn::at(od, x, y, m, s), v = tn::at(in, x, y, m, s), u = tn::at(o, x, y, m, s);
      if (op == 0) return g * u * (1 - u); if (op == 1) return g * (1 - u * u); if (op == 2) return v > 0 ? g : 0; return g; })) return;
  }
}
static void refuse(Rng& r) {
  int op = r.i(0, 2); ly::Dim d{r.i(1, 3), r.i(1, 4), r.i(1, 4), r.i(1, 3)};
  begin(str("set-up of activation %d refuses what does not fit, on %dx%d maps %d samples %d, try %ld", op, d.w, d.h, d.M, d.S, g_evals));
  ly::refusals(r, [&]() -> Conv::Layer* { return op == 0 ? (Conv::Layer*)new Conv::SigmoidLayer() : op == 1 ? (Conv::Layer*)new Conv::TanhLayer() : new Conv::ReLULayer(); }, {d}, true, true);
}
int main(int c, char** v) {
  init(c, v); tn::Quiet q; tn::init_system(); Rng r(13);
  for (int k = 0; k < 2000 * g_scale; k++) { one(r); if (k % 4 == 0) refuse(r); }
  return finish();
}
