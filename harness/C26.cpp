// C26: whole-image patch and label extraction
#include "ly.h"
#include <Segmentation.h>
using namespace vh; using namespace Conv;
static int mir(int p, int n) { return p < 0 ? -p : p >= n ? 2 * n - 1 - p : p; }
int main(int c, char** v) {
  init(c, v); tn::init_system(); tn::Quiet q; Rng r(26);
  for (int k = 0; k < 600 * g_scale; k++) {
    int w = r.i(1, 9), h = r.i(1, 9), M = r.i(1, 3), S = r.i(1, 3), px = r.i(1, w), py = r.i(1, h), s = r.i(0, S - 1); bool mean = r.b();
    begin(str("#%d patches %dx%d of %dx%d image, %d maps, sample %d of %d%s", k, px, py, w, h, M, s, S, mean ? ", mean removed" : ""));
    Tensor src(S, w, h, M), T, Hp; tn::fill(src, r); if (r.b()) { T.Resize(r.i(1, 4), r.i(1, 4), r.i(1, 4), 1); tn::fill(T, r); } auto b = tn::snap(src);
    Segmentation::ExtractPatches(px, py, T, Hp, src, s, mean);
    if (!check(tn::same(src, b), "image changed") || !check(tn::shape(T, w * h, px, py, M), "number or shape of patches")) continue;
    std::vector<double> mu(w * h, 0); if (mean) for (int e = 0; e < w * h; e++) { for (int m = 0; m < M; m++) for (int y = 0; y < py; y++) for (int x = 0; x < px; x++) mu[e] += tn::at(src, mir(e % w + x - px / 2, w), mir(e / w + y - py / 2, h), m, s); mu[e] /= px * py * M; }
    if (!tn::all(T, "patches", mean ? 1e-4 : 0, [&](size_t x, size_t y, size_t m, size_t e) -> double { return tn::at(src, mir((int)(e % w) + (int)x - px / 2, w), mir((int)(e / w) + (int)y - py / 2, h), m, s) - mu[e]; })) continue;
    Tensor L, Wt; int ign = r.i(-1, 3); for (size_t e = 0; e < src.elements_; e++) *(duint*)&src.data_ptr_[e] = (duint)r.i(0, 3); b = tn::snap(src);
    Segmentation::ExtractLabels(px, py, L, Wt, src, s, ign);
    if (!check(tn::same(src, b), "label image changed") || !check(L.elements() == (size_t)w * h && Wt.elements() == (size_t)w * h, "number of labels")) continue;
    for (int e = 0; e < w * h; e++) { float l = tn::at(src, e % w, e / w, 0, s); duint n; memcpy(&n, &l, sizeof n);
      if (!check(memcmp(&l, &L.data_ptr_[e], sizeof l) == 0, str("label of patch %d (pixel %d,%d)", e, e % w, e / w)) || !check(Wt.data_ptr_[e] == ((int)n == ign ? 0.0f : 1.0f), str("weight of patch %d: %g for class %u, ignored class %d", e, Wt.data_ptr_[e], (unsigned)n, ign))) break; }
  }
  return finish();
}
