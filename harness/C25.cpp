// C25: patch datasets over in-memory streams
#include "ly.h"
#include "dsconf.h"
#include <Dataset.h>
using namespace vh; using namespace Conv;
static datum ef(unsigned x, unsigned y, unsigned w, unsigned h) { return 0.5f + x * 3 + y * 101 + w * 0.25f + h * 7; }
static void closefds() { for (int f = 3; f < 64; f++) close(f); }
struct Img { Tensor* d; Tensor* l; };
int main(int c, char** v) {
  init(c, v); tn::init_system(); tn::Quiet q; Rng r(25), rc(2525);
  for (int k = 0; k < 300 * g_scale; k++) {
    if (k % 6 == 0) { dsconf(rc, true, true); closefds(); }
    int px = r.i(1, 5), py = r.i(1, 5), ntr = r.i(0, 4), nte = r.i(0, 4); unsigned im = r.i(1, 3), lm = r.i(1, 3); bool tight = r.b(0.3);
    begin(str("#%d patches %dx%d, %d+%d images, %u image maps, %u classes%s", k, px, py, ntr, nte, im, lm, tight ? ", images of about patch size" : ""));
    std::vector<Img> set[2]; std::stringstream ss[2]; std::vector<unsigned> colors(lm); std::vector<std::string> names(lm); std::vector<datum> wts; for (unsigned i = 0; i < lm; i++) wts.push_back(r.b(0.2) ? 0 : r.i(1, 24) / 8.0f);
    for (int t = 0; t < 2; t++) for (int i = 0; i < (t ? nte : ntr); i++) {
      int w = tight ? std::max(1, px + r.i(-1, 1)) : r.i(1, 12), h = tight ? std::max(1, py + r.i(-1, 1)) : r.i(1, 12);
      Img a{new Tensor(1, w, h, im), new Tensor(1, w, h, lm)}; tn::fill(*a.d, r); tn::fill(*a.l, r); a.d->Serialize(ss[t]); a.l->Serialize(ss[t]); set[t].push_back(a);
    }
    TensorStreamPatchDataset ds(ss[0], ss[1], lm, names, colors, wts, px, py, ef);
    bool ok = true; unsigned B = r.i(1, 3); Tensor D(B, px, py, im), Lb(B, 1, 1, lm), Hp(B, 1, 1, 2), Wt(B, 1, 1, 1);
    for (int t = 0; t < 2 && ok; t++) {
      struct Pos { int i, x, y; }; std::vector<Pos> pos;
      for (size_t i = 0; i < set[t].size(); i++) for (int y = 0; y + py <= (int)set[t][i].d->height_; y++) for (int x = 0; x + px <= (int)set[t][i].d->width_; x++) pos.push_back({(int)i, x, y});
      ok = check((t ? ds.GetTestingSamples() : ds.GetTrainingSamples()) == pos.size(), str("%u %s samples, expected %zu", t ? ds.GetTestingSamples() : ds.GetTrainingSamples(), t ? "test" : "training", pos.size()));
      for (int x = 0; x < 3 && ok; x++) { unsigned far = pos.size() + (x == 2 ? 100000u : (unsigned)x * r.i(1, 30)); ok = check(!(t ? ds.GetTestingSample(D, Lb, Hp, Wt, 0, far) : ds.GetTrainingSample(D, Lb, Hp, Wt, 0, far)), str("index %u of %zu accepted", far, pos.size())); }
      if (ok && !pos.empty()) ok = check(ds.GetInputMaps() == im && ds.GetLabelMaps() == lm, "map counts");
      for (size_t n = 0; n < pos.size() && ok; n++) {
        unsigned s = r.i(0, B - 1); for (Tensor* x : {&D, &Lb, &Wt}) tn::fill(*x, r, 3, 9); auto b0 = tn::snap(D), b1 = tn::snap(Lb), b3 = tn::snap(Wt);
        ok = check(t ? ds.GetTestingSample(D, Lb, Hp, Wt, s, n) : ds.GetTrainingSample(D, Lb, Hp, Wt, s, n), str("index %zu refused", n)); if (!ok) break;
        Pos p = pos[n]; Img& a = set[t][p.i]; int cx = p.x + px / 2, cy = p.y + py / 2; int best = 0; for (unsigned m = 1; m < lm; m++) if (tn::at(*a.l, cx, cy, m, 0) > tn::at(*a.l, cx, cy, best, 0)) best = m;
        std::string wh = str("%s index %zu (image %d at %d,%d): ", t ? "test" : "training", n, p.i, p.x, p.y);
        ok = tn::all(D, (wh + "patch").c_str(), 0, [&](size_t x, size_t y, size_t m, size_t z) -> double { return z != s ? b0[tn::off(D, x, y, m, z)] : tn::at(*a.d, p.x + x, p.y + y, m, 0); })
          && tn::all(Lb, (wh + "label").c_str(), 0, [&](size_t x, size_t y, size_t m, size_t z) -> double { return z != s ? b1[tn::off(Lb, x, y, m, z)] : tn::at(*a.l, cx, cy, m, 0); })
          && tn::all(Wt, (wh + "weight").c_str(), 1e-5, [&](size_t, size_t, size_t, size_t z) -> double { return z != s ? b3[z] : (double)ef(cx, cy, a.d->width_, a.d->height_) * wts[best]; });
      }
    }
    for (auto& z : set) for (auto& a : z) { delete a.d; delete a.l; }
  }
  return finish();
}
