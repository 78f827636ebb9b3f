#include "ly.h"
#include <ErrorLayer.h>
using namespace vh;
static void one(Rng& r) {
  int w = r.d(6), h = r.d(6, w < 50), M = r.d(4, w * h < 50), S = r.d(4, w * h * M < 200), bad = r.b(0.1) ? r.i(1, 3) : 0; float lw = r.b(0.3) ? 1 : r.b(0.2) ? 0 : (float)r.f(0, 3);
  begin(str("error layer weight %g on %dx%d maps %d samples %d mismatch %d", lw, w, h, M, S, bad));
  auto* l = new Conv::ErrorLayer(lw);
  ly::Run R(l, {ly::ct(S, w, h, M), bad == 1 ? ly::ct(S + 1, w, h, M) : bad == 2 ? ly::ct(S, w, h, M + 1) : ly::ct(S, w, h, M), ly::ct(bad == 3 ? S + 1 : S, w, h, 1)});
  if (bad) { check(!R.created, "inputs that do not fit together accepted"); Conv::NetStatus st; check(!l->Connect(R.in, R.out, &st), "inputs that do not fit together connected"); return; }
  if (!check(R.created && R.connected && R.out.empty(), "not set up")) return;
  Tensor &a = R.in[0]->data, &b = R.in[1]->data, &wt = R.in[2]->data;
  for (int round = 0; round < 2; round++) {
    tn::fillq(a, r); tn::fillq(b, r); tn::fill(wt, r, 0, 2); R.dirty(r);
    for (int k = 1; k < 3; k++) if (r.b()) tn::setall(R.in[k]->delta, 0);
    auto ab = tn::snap(a), bb = tn::snap(b), wb = tn::snap(wt), d1 = tn::snap(R.in[1]->delta), d2 = tn::snap(R.in[2]->delta);
    l->FeedForward(); double loss = l->CalculateLossFunction(); l->BackPropagate();
    check(tn::same(a, ab) && tn::same(b, bb) && tn::same(wt, wb), "an input changed");
    check(tn::same(R.in[1]->delta, d1) && tn::same(R.in[2]->delta, d2), "label or weight input received a gradient");
    double e = 0; for (size_t i = 0; i < a.elements_; i++) { double d = (double)a.data_ptr_[i] - b.data_ptr_[i]; size_t s = i / ((size_t)w * h * M); e += d * d * wt.data_ptr_[s * w * h + i % (w * h)]; } e = e * lw / 2;
    check(std::fabs(loss - e) <= 1e-5 * (std::fabs(e) + 1e-6), str("loss is %.9g, expected %.9g", loss, e));
    if (!tn::all(R.in[0]->delta, "gradient", 1e-6, [&](size_t x, size_t y, size_t m, size_t s) -> double { return ((double)tn::at(a, x, y, m, s) - tn::at(b, x, y, m, s)) * tn::at(wt, x, y, 0, s) * lw; })) return;
  }
}
static void refuse(Rng& r) {
  ly::Dim d{r.i(1, 3), r.i(1, 4), r.i(1, 4), r.i(1, 3)}, w = d; w.M = 1;
  begin(str("set-up of the error layer refuses what does not fit, on %dx%d maps %d samples %d, try %ld", d.w, d.h, d.M, d.S, g_evals));
  ly::refusals(r, [&] { return new Conv::ErrorLayer(1); }, {d, d, w}, false);
}
int main(int c, char** v) {
  init(c, v); tn::Quiet q; tn::init_system(); Rng r(15);
  for (int k = 0; k < 1500 * g_scale; k++) { one(r); if (k % 4 == 0) refuse(r); }
  return finish();
}
