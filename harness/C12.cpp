#include "ly.h"
#include <ConcatenationLayer.h>
#include <SumLayer.h>
#include <GradientAccumulationLayer.h>
using namespace vh;
static void one(Rng& r) {
  int op = r.i(0, 2), w = r.d(6), h = r.b(0.3) && w < 50 ? w : r.d(6, w < 50), Ma = r.d(4, w * h < 50), Mb = op == 1 && r.b(0.85) ? Ma : r.d(4, w * h < 50), S = r.d(4, w * h * (Ma + Mb) < 200), K = r.i(1, 5);
  int w2 = r.b(0.85) ? w : r.d(6), h2 = r.b(0.85) ? h : r.d(6), S2 = r.b(0.9) ? S : r.d(4); bool bys = r.b(0.3);
  static const char* nm[] = {"concatenation", "sum", "fan-out"};
  begin(op == 2 ? str("fan-out to %d outputs, %dx%d maps %d samples %d", K, w, h, Ma, S) : str("%s of %dx%dx%d,%d samples and %dx%dx%d,%d samples", nm[op], w, h, Ma, S, w2, h2, Mb, S2));
  if (op == 2) {
    Conv::Layer* l = bys ? new Conv::GradientAccumulationLayer(str("gradientaccumulation(outputs=%d)", K)) : new Conv::GradientAccumulationLayer(K);
    if (r.b(0.1)) {   // a wrong output must be refused
      ly::CV in{ly::ct(S, w, h, Ma)}, out; Conv::NetStatus st;
      for (int k = 0; k < K; k++) out.push_back(ly::ct(S, w, h, Ma));
      int j = r.i(0, K - 1), how = r.i(0, 2); delete out[j]; out[j] = how == 0 ? ly::ct(S + 1, w, h, Ma) : how == 1 ? ly::ct(S, w, h, Ma + 1) : ly::ct(S, w + 1, h, Ma);
      check(!l->Connect(in, out, &st), "output of the wrong size accepted"); out.push_back(ly::ct(S, w, h, Ma)); delete l;
      l = new Conv::GradientAccumulationLayer(K); check(!l->Connect(in, out, &st), "wrong number of outputs accepted"); delete l;
      for (auto* t : in) delete t; for (auto* t : out) delete t; return;
    }
    ly::Run R(l, {ly::ct(S, w, h, Ma)});
    if (!check(R.created && R.connected && (int)R.out.size() == K, "not set up")) return;
    for (int round = 0; round < 2; round++) {
      tn::fillq(R.in[0]->data, r); for (auto* t : R.out) tn::fillq(t->delta, r); R.dirty(r, false);
      auto ib = tn::snap(R.in[0]->data); std::vector<std::vector<float>> ds; for (auto* t : R.out) ds.push_back(tn::snap(t->delta));
      l->FeedForward(); check(tn::same(R.in[0]->data, ib), "input changed");
      for (auto* t : R.out) if (!check(tn::shape(t->data, S, w, h, Ma) && tn::same(t->data, ib), "an output differs from the input")) return;
      l->BackPropagate(); check(tn::same(R.in[0]->data, ib), "input changed");
      for (int k = 0; k < K; k++) check(tn::same(R.out[k]->delta, ds[k]), "an output gradient changed");
      if (!tn::all(R.in[0]->delta, "input gradient", 1e-5, [&](size_t x, size_t y, size_t m, size_t s) { double t = 0; for (auto* o : R.out) t += tn::at(o->delta, x, y, m, s); return t; })) return;
    }
    return;
  }
  Conv::Layer* l = op == 0 ? (Conv::Layer*)new Conv::ConcatenationLayer() : new Conv::SumLayer();
  ly::Run R(l, {ly::ct(S, w, h, Ma), ly::ct(S2, w2, h2, Mb)});
  bool ok = w == w2 && h == h2 && S == S2 && (op == 0 || Ma == Mb);
  if (!check(R.created == ok, ok ? "fitting inputs rejected" : "inputs that do not fit together accepted") || !ok) return;
  if (!check(R.connected && R.out.size() == 1, "does not connect")) return;
  Tensor &a = R.in[0]->data, &b = R.in[1]->data, &o = R.out[0]->data, &od = R.out[0]->delta;
  int om = op == 0 ? Ma + Mb : Ma;
  if (!check(tn::shape(o, S, w, h, om) && tn::shape(od, S, w, h, om), str("output is %s", tn::dims(o).c_str()))) return;
  if (r.b(0.1)) { ly::CV bad{ly::ct(S, w, h, om + 1)}; Conv::NetStatus st; Conv::Layer* l2 = op == 0 ? (Conv::Layer*)new Conv::ConcatenationLayer() : new Conv::SumLayer(); check(!l2->Connect(R.in, bad, &st), "output of the wrong size accepted"); delete l2; delete bad[0]; }
  for (int round = 0; round < 2; round++) {
    tn::fillq(a, r); tn::fillq(b, r); tn::fillq(od, r); R.dirty(r); auto ab = tn::snap(a), bb = tn::snap(b), gb = tn::snap(od);
    l->FeedForward(); check(tn::same(a, ab) && tn::same(b, bb), "an input changed");
    if (!tn::all(o, "output", 0, [&](size_t x, size_t y, size_t m, size_t s) -> double { if (op == 1) return tn::at(a, x, y, m, s) + tn::at(b, x, y, m, s); return (int)m < Ma ? tn::at(a, x, y, m, s) : tn::at(b, x, y, m - Ma, s); })) return;
    auto ob = tn::snap(o); l->BackPropagate(); check(tn::same(a, ab) && tn::same(b, bb) && tn::same(od, gb) && tn::same(o, ob), "back-propagation changed data or output gradient");
    for (int k = 0; k < 2; k++) if (!tn::all(R.in[k]->delta, k ? "gradient of the second input" : "gradient of the first input", 0, [&](size_t x, size_t y, size_t m, size_t s) -> double { return tn::at(od, x, y, op == 0 && k ? m + Ma : m, s); })) return;
  }
}
static void refuse(Rng& r) {
  int op = r.i(0, 2), K = r.i(1, 4); ly::Dim d{r.i(1, 3), r.i(1, 4), r.i(1, 4), r.i(1, 3)}, e = d; if (op == 0) e.M = r.i(1, 3);
  begin(str("set-up of layer kind %d refuses what does not fit, on %dx%d maps %d samples %d, try %ld", op, d.w, d.h, d.M, d.S, g_evals));
  ly::refusals(r, [&]() -> Conv::Layer* { return op == 0 ? (Conv::Layer*)new Conv::ConcatenationLayer() : op == 1 ? (Conv::Layer*)new Conv::SumLayer() : new Conv::GradientAccumulationLayer(K); }, op == 2 ? std::vector<ly::Dim>{d} : std::vector<ly::Dim>{d, e}, true, true, op != 2);
}
int main(int c, char** v) {
  init(c, v); tn::Quiet q; tn::init_system(); Rng r(12);
  for (int k = 0; k < 1500 * g_scale; k++) { one(r); if (k % 4 == 0) refuse(r); }
  return finish();
}
