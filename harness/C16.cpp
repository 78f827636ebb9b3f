#include "ly.h"
#include <ConvolutionLayer.h>
using namespace vh;
static void one(Rng& r) {
  int G = r.b(0.4) ? r.i(2, 3) : 1, w = r.d(7), h = r.d(7, w < 40), IM = G * r.i(1, 3), OM = G * r.i(1, 3), S = r.d(3, w * h * IM < 60);
  int kw = r.i(1, 4), kh = r.i(1, 4), sw = r.i(1, 3), sh = r.i(1, 3), pw = r.b() ? 0 : r.i(1, 3), ph = r.b() ? 0 : r.i(1, 3), bad = r.b(0.06) ? r.i(1, 2) : 0; bool s_ = r.b(), bp = r.b(0.85); float llr = (float)r.f(0.5, 2);
  if (bad == 1) { kw = w + 2 * pw + 1 + (sw == 1 ? 0 : sw + r.i(0, 3)); } if (bad == 2 && G == 1) bad = 0;
  begin(str("convolution %dx%d kernels %d stride %dx%d pad %dx%d group %d %s on %dx%d maps %d samples %d mismatch %d%s", kw, kh, OM, sw, sh, pw, ph, G, s_ ? "from text" : "direct", w, h, IM, S, bad, bp ? "" : " no input gradient"));
  auto make = [&](int om) { return s_ ? new Conv::ConvolutionLayer(str("size=%dx%d stride=%dx%d pad=%dx%d kernels=%d group=%d seed=5", kw, kh, sw, sh, pw, ph, om, G)) : new Conv::ConvolutionLayer(kw, kh, om, sw, sh, pw, ph, G, 5); };
  if (bad == 2) {   // the process ends on map counts that the groups do not divide
    int st = in_child([&] { auto* l = make(OM); Conv::CombinedTensor in(S, w, h, IM + 1); ly::CV i{&in}, o; if (l->CreateOutputs(i, o)) _exit(0); _exit(7); });
    check(!child_ok(st), "input maps that the groups do not divide accepted");
    st = in_child([&] { Conv::ConvolutionLayer l(kw, kh, OM + 1, sw, sh, pw, ph, G, 5); _exit(0); }); check(!child_ok(st), "output maps that the groups do not divide accepted"); return;
  }
  auto* l = make(OM);
  ly::Run R(l, {ly::ct(S, w, h, IM)});
  bool fits = kw <= w + 2 * pw && kh <= h + 2 * ph;
  if (!fits) { check(!R.created || !R.connected, "kernel that does not fit accepted"); return; }
  if (!check(R.created && R.connected && R.out.size() == 1, "not set up")) return;
  int ow = (w + 2 * pw - kw) / sw + 1, oh = (h + 2 * ph - kh) / sh + 1; l->SetLocalLearningRate(llr); l->SetBackpropagationEnabled(bp);
  Tensor &in = R.in[0]->data, &id = R.in[0]->delta, &o = R.out[0]->data, &od = R.out[0]->delta;
  if (!check(tn::shape(o, S, ow, oh, OM) && l->parameters().size() == 2, "output shape")) return;
  CombinedTensor *W = l->parameters()[0], *B = l->parameters()[1]; int IG = IM / G, OG = OM / G;
  if (!check(tn::shape(W->data, OM, kw, kh, IG) && B->data.elements() == (size_t)OM, "parameter shapes")) return;
  for (int round = 0; round < 2; round++) {
    if (r.b()) { tn::fillq(in, r); tn::fillq(W->data, r); tn::fillq(B->data, r); } else { tn::fill(in, r); tn::fill(W->data, r); tn::fill(B->data, r); }
    tn::fill(od, r, -2, 2); R.dirty(r); tn::setall(W->delta, 99); tn::setall(B->delta, -99); if (r.b(0.3)) { tn::setall(o, std::nanf("")); tn::setall(id, std::nanf("")); tn::setall(W->delta, std::nanf("")); tn::setall(B->delta, std::nanf("")); }
    auto ib = tn::snap(in), gb = tn::snap(od), wb = tn::snap(W->data), bb = tn::snap(B->data), idb = tn::snap(id);
    auto px = [&](const Tensor& t, int x, int y, int m, int s) -> double { return x < 0 || y < 0 || x >= w || y >= h ? 0 : tn::at(t, x, y, m, s); };
    l->FeedForward(); check(tn::same(in, ib) && tn::same(W->data, wb) && tn::same(B->data, bb), "forward pass changed input or parameters");
    if (!tn::all(o, "output", 1e-4, [&](size_t x, size_t y, size_t m, size_t s) -> double { double v = B->data.data_ptr_[m]; int g = m / OG;
      for (int c = 0; c < IG; c++) for (int b = 0; b < kh; b++) for (int a = 0; a < kw; a++) v += tn::at(W->data, a, b, c, m) * px(in, (int)x * sw - pw + a, (int)y * sh - ph + b, g * IG + c, s); return v; })) return;
    l->BackPropagate(); check(tn::same(in, ib) && tn::same(od, gb) && tn::same(W->data, wb) && tn::same(B->data, bb), "back-propagation changed data, output gradient or parameters");
    std::vector<double> gi(in.elements_, 0), gw(W->data.elements_, 0), gB(OM, 0);
    for (int s = 0; s < S; s++) for (int m = 0; m < OM; m++) for (int y = 0; y < oh; y++) for (int x = 0; x < ow; x++) { double d = tn::at(od, x, y, m, s); gB[m] += d; int g = m / OG;
      for (int c = 0; c < IG; c++) for (int b = 0; b < kh; b++) for (int a = 0; a < kw; a++) { int X = x * sw - pw + a, Y = y * sh - ph + b; if (X < 0 || Y < 0 || X >= w || Y >= h) continue;
        gi[tn::off(in, X, Y, g * IG + c, s)] += d * tn::at(W->data, a, b, c, m); gw[tn::off(W->data, a, b, c, m)] += d * tn::at(in, X, Y, g * IG + c, s); } }
    double sc = 0; for (float v : gb) sc += std::fabs(v);
    if (bp) { for (size_t k = 0; k < gi.size(); k++) if (!check(close_sum(id.data_ptr_[k], gi[k], 8 * sc, 2e-6) && close(id.data_ptr_[k], gi[k], 1e-3), str("input gradient of element %zu is %.9g, expected %.9g", k, id.data_ptr_[k], gi[k]))) return; }
    for (size_t k = 0; k < gw.size(); k++) if (!check(close_sum(W->delta.data_ptr_[k], gw[k], 8 * sc, 2e-6), str("weight gradient of element %zu is %.9g, expected %.9g", k, W->delta.data_ptr_[k], gw[k]))) return;
    for (int k = 0; k < OM; k++) if (!check(close_sum(B->delta.data_ptr_[k], gB[k], sc, 2e-6), str("bias gradient of map %d is %.9g, expected %.9g", k, B->delta.data_ptr_[k], gB[k]))) return;
  }
}
struct St : Conv::NetStatus {};
static void refuse(Rng& r) {
  int a = r.i(1, 2), b = r.i(1, 2); ly::Dim d{r.i(1, 3), r.i(2, 4), r.i(2, 4), r.i(1, 3)};
  begin(str("set-up of convolution %dx%d refuses what does not fit, on %dx%d maps %d samples %d, try %ld", a, b, d.w, d.h, d.M, d.S, g_evals));
  ly::refusals(r, [&] { return new Conv::ConvolutionLayer(a, b, 2); }, {d});
  int how = r.i(0, 5), kw = 1, kh = 1, sx = 1, sy = 1, g = 1, om = r.i(1, 6); bool text = r.b(); if (how == 0) (r.b() ? kw : kh) = 0; if (how == 1) (r.b() ? sx : sy) = 0; if (how == 2) g = 0; if (how == 3) { g = r.i(2, 4); om = om * g + r.i(1, g - 1); d.M = g * r.i(1, 2); } if (how == 4) (r.b() ? kw = d.w + 1 : kh = d.h + 1); if (how == 5) { g = r.i(2, 4); om *= g; d.M = d.M * g + r.i(1, g - 1); }
  std::string conf = str("size=%dx%d stride=%dx%d group=%d kernels=%d", kw, kh, sx, sy, g, om); begin(str("convolution %s%s is refused on %dx%d maps %d", conf.c_str(), text ? " (as text)" : "", d.w, d.h, d.M));
  ly::nofit([&] { return text ? new Conv::ConvolutionLayer(conf) : new Conv::ConvolutionLayer(kw, kh, om, sx, sy, 0, 0, g); }, d, "accepted");
}
int main(int c, char** v) {
  init(c, v); tn::Quiet q; tn::init_system(); Rng r(16);
  for (int k = 0; k < 1200 * g_scale; k++) { one(r); if (k % 4 == 0) refuse(r); }
  return finish();
}
