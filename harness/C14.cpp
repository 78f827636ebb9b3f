#include "ly.h"
#include <LocalResponseNormalizationLayer.h>
using namespace vh;
typedef Conv::LocalResponseNormalizationLayer LRN;
static void one(Rng& r) {
  bool within = r.b(); int sz = r.b(0.03) ? r.i(8, 40) : r.i(1, 7), w = r.d(6), h = r.d(6, w < 50), M = r.b(0.1) && w * h < 100 ? r.i(6, 12) : r.d(5, w * h < 40), S = r.d(3, w * h * M < 100);
  if ((long)w * h * M * S * sz * (within ? sz : 1) > 400000) sz = 1 + sz % 3;
  float al = (float)r.f(0.1, 4), be = r.b(0.2) ? 1 : r.b(0.2) ? 2 : (float)r.f(0.2, 2); int kind = r.i(0, 2);
  begin(str("normalisation %s size %d alpha %g beta %g on %dx%d maps %d samples %d data kind %d", within ? "within" : "across", sz, al, be, w, h, M, S, kind));
  auto* l = new LRN(sz, al, be, within ? LRN::WITHIN_CHANNELS : LRN::ACROSS_CHANNELS);
  ly::Run R(l, {ly::ct(S, w, h, M)});
  if (!check(R.created && R.connected && R.out.size() == 1, "not set up")) return;
  Tensor &in = R.in[0]->data, &id = R.in[0]->delta, &o = R.out[0]->data, &od = R.out[0]->delta;
  if (!check(tn::shape(o, S, w, h, M), "output shape")) return;
  int sub = (sz - 1) / 2, add = sz / 2;
  for (int round = 0; round < 2; round++) {
    if (kind == 0) tn::fill(in, r, -2, 2); else if (kind == 1) tn::fillq(in, r); else tn::fill(in, r, -0.2, 0.2);
    if (r.b(0.2)) tn::setall(in, 0), in.data_ptr_[r.u() % in.elements_] = 1.5f;
    tn::fill(od, r, -3, 3); if (r.b(0.2)) tn::setall(od, 0), od.data_ptr_[r.u() % od.elements_] = 2;
    R.dirty(r); auto ib = tn::snap(in), gb = tn::snap(od);
    l->FeedForward(); check(tn::same(in, ib), "input changed");
    // window of an element and its response
    auto win = [&](int x, int y, int m, int& x0, int& x1, int& y0, int& y1, int& m0, int& m1) {
      x0 = x1 = x; y0 = y1 = y; m0 = m1 = m;
      if (within) { x0 = std::max(0, x - sub); x1 = std::min(w - 1, x + add); y0 = std::max(0, y - sub); y1 = std::min(h - 1, y + add); } else { m0 = std::max(0, m - sub); m1 = std::min(M - 1, m + add); } };
    std::vector<double> Q(in.elements_), N(in.elements_);
    for (int s = 0; s < S; s++) for (int m = 0; m < M; m++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
      int x0, x1, y0, y1, m0, m1; win(x, y, m, x0, x1, y0, y1, m0, m1); double q = 0, n = 0;
      for (int c = m0; c <= m1; c++) for (int b = y0; b <= y1; b++) for (int a = x0; a <= x1; a++) { double v = tn::at(in, a, b, c, s); q += v * v; n++; }
      size_t k = tn::off(in, x, y, m, s); N[k] = n; Q[k] = 1 + (double)al / n * q; }
    if (!tn::all(o, "output", 1e-5, [&](size_t x, size_t y, size_t m, size_t s) -> double { return tn::at(in, x, y, m, s) / std::pow(Q[tn::off(in, x, y, m, s)], (double)be); })) return;
    auto ob = tn::snap(o); l->BackPropagate(); check(tn::same(in, ib) && tn::same(od, gb) && tn::same(o, ob), "back-propagation changed data or output gradient");
    std::vector<double> g(in.elements_, 0), mag(in.elements_, 0);
    for (int s = 0; s < S; s++) for (int m = 0; m < M; m++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
      int x0, x1, y0, y1, m0, m1; win(x, y, m, x0, x1, y0, y1, m0, m1); size_t k = tn::off(in, x, y, m, s);
      double go = od.data_ptr_[k], xi = in.data_ptr_[k], d = std::pow(Q[k], (double)be); g[k] += go / d; mag[k] += std::fabs(go / d);
      double f = go * xi * be * std::pow(Q[k], (double)be - 1) * al / N[k] * 2 / (d * d);
      for (int c = m0; c <= m1; c++) for (int b = y0; b <= y1; b++) for (int a = x0; a <= x1; a++) { size_t j = tn::off(in, a, b, c, s); g[j] -= f * in.data_ptr_[j]; mag[j] += std::fabs(f * in.data_ptr_[j]); } }
    for (size_t k = 0; k < g.size(); k++) if (!check(close_sum(id.data_ptr_[k], g[k], mag[k], 3e-5), str("input gradient of element %zu is %.9g, expected %.9g", k, id.data_ptr_[k], g[k]))) return;
  }
}
static void refuse(Rng& r) {
  ly::Dim d{r.i(1, 3), r.i(1, 4), r.i(1, 4), r.i(1, 3)}; bool within = r.b();
  begin(str("set-up of normalisation refuses what does not fit, on %dx%d maps %d samples %d, try %ld", d.w, d.h, d.M, d.S, g_evals));
  ly::refusals(r, [&] { return new LRN(3, 1, 0.5, within ? LRN::WITHIN_CHANNELS : LRN::ACROSS_CHANNELS); }, {d});
}
int main(int c, char** v) {
  init(c, v); tn::Quiet q; tn::init_system(); Rng r(14);
  for (int k = 0; k < 1500 * g_scale; k++) { one(r); if (k % 4 == 0) refuse(r); }
  return finish();
}
