#include "ly.h"
#include <HMaxActivationFunction.h>
using namespace vh;
static void one(Rng& r) {
  int w = r.d(6), h = r.d(5, w < 50), M = r.d(4, w * h < 50), S = r.d(4, w * h * M < 200); bool s_ = r.b();
  float mu = (float)r.f(0.1, 2), lw = r.b() ? 0 : (float)r.f(0.01, 1), lr = r.b(0.3) ? 1 : (float)r.f(0.1, 3);
  begin(str("hmax mu %g weight %g local lr %g on %dx%d maps %d samples %d", mu, lw, lr, w, h, M, S));
  auto* l = s_ ? new Conv::HMaxActivationFunction(str("mu=%.6f weight=%.6f", mu, lw)) : new Conv::HMaxActivationFunction(mu, lw);
  ly::Run R(l, {ly::ct(S, w, h, M)}); l->SetLocalLearningRate(lr);
  if (!check(R.created && R.connected && R.out.size() == 1 && l->parameters().size() == 1 && l->parameters()[0]->data.elements() == 2, "not set up")) return;
  Tensor &in = R.in[0]->data, &id = R.in[0]->delta, &o = R.out[0]->data, &od = R.out[0]->delta; CombinedTensor* wt = l->parameters()[0];
  if (!check(tn::shape(o, S, w, h, M), "output shape")) return;
  for (int round = 0; round < 2; round++) {
    float a = round ? (float)r.f(0.2, 2) * (r.b() ? 1 : -1) : 1, b = round ? (float)r.f(-1, 1) : 1;
    wt->data.data_ptr()[0] = a; wt->data.data_ptr()[1] = b; wt->delta.data_ptr()[0] = 77; wt->delta.data_ptr()[1] = -55;
    tn::fill(in, r, -2, 2); tn::fill(od, r, -4, 4); if (r.b(0.3)) for (size_t k = 1; k < in.elements_; k += 3) in.data_ptr_[k] = in.data_ptr_[0];
    R.dirty(r); auto ib = tn::snap(in), gb = tn::snap(od);
    l->FeedForward(); check(tn::same(in, ib), "input changed");
    if (!tn::all(o, "output", 2e-6, [&](size_t x, size_t y, size_t m, size_t s) -> double { return 1 / (1 + std::exp(-((double)a * tn::at(in, x, y, m, s) + b))); })) return;
    auto ob = tn::snap(o); l->BackPropagate(); check(tn::same(in, ib) && tn::same(od, gb) && tn::same(o, ob), "back-propagation changed data or output gradient");
    check(wt->data.data_ptr()[0] == a && wt->data.data_ptr()[1] == b, "weights changed");
    if (lw == 0) {
      if (!tn::all(id, "input gradient", 2e-5, [&](size_t x, size_t y, size_t m, size_t s) -> double { double u = tn::at(o, x, y, m, s); return tn::at(od, x, y, m, s) * (double)a * u * (1 - u); })) return;
      double ga = 0, gb2 = 0, sa = 0, sb = 0; for (size_t k = 0; k < in.elements_; k++) { double u = o.data_ptr_[k], q = od.data_ptr_[k] * u * (1 - u); ga += q * in.data_ptr_[k]; gb2 += q; sa += std::fabs(q * in.data_ptr_[k]); sb += std::fabs(q); }
      check(close_sum(wt->delta.data_ptr()[0], lr * ga, lr * sa, 2e-5), str("gradient of a is %.9g, expected %.9g", wt->delta.data_ptr()[0], lr * ga));
      check(close_sum(wt->delta.data_ptr()[1], lr * gb2, lr * sb, 2e-5), str("gradient of b is %.9g, expected %.9g", wt->delta.data_ptr()[1], lr * gb2));
    } else {
      // the sparsity term depends on nothing but the element's output and is proportional to the weight
      auto d1 = tn::snap(id); std::vector<double> t1(d1.size());
      for (size_t k = 0; k < d1.size(); k++) { double u = o.data_ptr_[k]; t1[k] = d1[k] - od.data_ptr_[k] * (double)a * u * (1 - u); }
      std::map<float, double> term; for (size_t k = 0; k < d1.size(); k++) { auto it = term.find(o.data_ptr_[k]); if (it == term.end()) term[o.data_ptr_[k]] = t1[k]; else if (!check(std::fabs(it->second - t1[k]) < 1e-5, str("sparsity term of output %g is %g for one element and %g for another", o.data_ptr_[k], it->second, t1[k]))) return; }
      l->loss_weight_ = lw * 2; l->BackPropagate(); l->loss_weight_ = lw;
      for (size_t k = 0; k < d1.size(); k++) { double u = o.data_ptr_[k], t2 = id.data_ptr_[k] - od.data_ptr_[k] * (double)a * u * (1 - u); if (!check(std::fabs(t2 - 2 * t1[k]) < 2e-5, str("sparsity term %g at weight %g but %g at twice the weight", t1[k], lw, t2))) return; }
    }
  }
}
static void refuse(Rng& r) {
  ly::Dim d{r.i(1, 3), r.i(1, 4), r.i(1, 4), r.i(1, 3)};
  begin(str("set-up of hmax refuses what does not fit, on %dx%d maps %d samples %d, try %ld", d.w, d.h, d.M, d.S, g_evals));
  ly::refusals(r, [&] { return new Conv::HMaxActivationFunction(1, 0); }, {d}, true, true);
}
int main(int c, char** v) {
  init(c, v); tn::Quiet q; tn::init_system(); Rng r(31);
  { std::string cf = ""; new Conv::HMaxActivationFunction(1, 0); }   // registers the statistics
  for (int k = 0; k < 2000 * g_scale; k++) { one(r); if (k % 4 == 0) refuse(r); }
  return finish();
}
