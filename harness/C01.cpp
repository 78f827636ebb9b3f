#include "tn.h"
using namespace vh;
static void addressing(Tensor& t, const char* how) {
  std::set<size_t> seen;
  size_t expect = 0;
  check(t.elements() == t.samples() * t.maps() * t.width() * t.height(), str("%s: element count %zu is not the product of the dimensions", how, t.elements()));
  for (size_t s = 0; s < t.samples(); s++) for (size_t m = 0; m < t.maps(); m++) for (size_t y = 0; y < t.height(); y++) for (size_t x = 0; x < t.width(); x++) {
    size_t o = t.Offset(x, y, m, s);
    if (!check(o < t.elements(), "address outside the tensor")) return;
    if (!check(seen.insert(o).second, "two coordinates share an address")) return;
    if (!check(o == expect, str("layout order broken at %zu,%zu,%zu,%zu: %zu", x, y, m, s, o))) return;
    if (!check(t.data_ptr(x, y, m, s) == t.data_ptr() + o && t.data_ptr_const(x, y, m, s) == t.data_ptr_const() + o, "element pointer differs from address")) return;
    if (!check(&t[o] == t.data_ptr() + o && &t(o) == t.data_ptr() + o, "element reference differs")) return;
    *t.data_ptr(x, y, m, s) = (float)expect;   // touches storage: ASan checks the allocation
    expect++;
  }
}
int main(int c, char** v) {
  init(c, v); tn::Quiet q; Rng r(1);
  int n = 400 * g_scale;
  for (int k = 0; k < n; k++) {
    double bud = 15000; size_t S = r.d(4, bud), w = r.d(6, bud), h = r.d(6, bud), M = r.d(4, bud);
    begin(str("construct %zus %zux%zu %zum then operations, case %d", S, w, h, M, k));
    Tensor t(S, w, h, M);
    check(tn::shape(t, S, w, h, M), "constructor dimensions");
    addressing(t, "construct");
    for (int op = 0; op < 4; op++) {
      std::vector<float> before = tn::snap(t);
      size_t oS = t.samples(), ow = t.width(), oh = t.height(), oM = t.maps();
      if (r.b(0.5)) {
        bud = 15000; S = r.d(4, bud); w = r.d(6, bud); h = r.d(6, bud); M = r.d(4, bud);
        if (r.b(0.3)) { S = oM; M = oS; w = oh; h = ow; }
        if (r.b(0.5)) { t.Resize(S, w, h, M); } else { Tensor u(S, w, h, M); t.Resize(u); }
        if (!check(tn::shape(t, S, w, h, M), str("resize to %zus %zux%zu %zum gives %s", S, w, h, M, tn::dims(t).c_str()))) break;
        addressing(t, "resize");
      } else {
        size_t d[4] = {oS, ow, oh, oM};
        if (r.b(0.6)) { for (int a = 0; a < 4; a++) std::swap(d[a], d[r.i(0, 3)]); if (r.b(0.3)) { d[0] = t.elements(); d[1] = d[2] = d[3] = 1; } }
        else { d[r.i(0, 3)] += r.i(0, 2); if (r.b(0.2)) d[r.i(0, 3)] = 0; }
        bool same = d[0] * d[1] * d[2] * d[3] == t.elements();
        datum* p = t.data_ptr();
        bool ok = t.Reshape(d[0], d[1], d[2], d[3]);
        if (!check(ok == same, str("reshape to %zus %zux%zu %zum reports %d", d[0], d[1], d[2], d[3], ok))) break;
        if (ok) check(tn::shape(t, d[0], d[1], d[2], d[3]), "reshape dimensions");
        else check(tn::shape(t, oS, ow, oh, oM), "refused reshape changed the dimensions");
        check(p == t.data_ptr() && tn::same(t, before), "reshape changed elements");
      }
    }
  }
  { begin("empty tensor refuses reshape"); Tensor t; check(!t.Reshape(1, 1, 1, 1), "reshape of an empty tensor succeeded"); check(!t.Reshape(0, 0, 0, 0), "reshape of a tensor without data succeeded"); check(t.elements() == 0 && t.samples() == 0 && t.width() == 0, "dimensions of an empty tensor"); }
  { begin("reshape with overflowing-looking dims"); Tensor t(2, 3, 4, 5); check(!t.Reshape(2, 3, 4, 6), "refuses"); check(t.Reshape(1, 120), "1x120"); check(t.Reshape(120), "120"); check(tn::shape(t, 120, 1, 1, 1), "default dims"); }
  // large tensors: addresses beyond 32 bits, storage supplied by the caller and never touched
  for (int k = 0; k < 40 * g_scale; k++) {
    size_t S = r.i(1, 40), w = r.i(1, 90000), h = r.i(1, 90000), M = r.i(1, 600);
    begin(str("large %zus %zux%zu %zum", S, w, h, M));
    static float dummy[4];
    Tensor t; t.Resize(S, w, h, M, dummy, false, true);
    check(tn::shape(t, S, w, h, M), str("large resize: %zu elements", t.elements()));
    for (int j = 0; j < 30; j++) {
      size_t x = r.i(0, w - 1), y = r.i(0, h - 1), m = r.i(0, M - 1), s = r.i(0, S - 1);
      if (j == 0) { x = w - 1; y = h - 1; m = M - 1; s = S - 1; }
      check(t.Offset(x, y, m, s) == ((s * M + m) * h + y) * w + x, str("large address (%zu,%zu,%zu,%zu) = %zu", x, y, m, s, t.Offset(x, y, m, s)));
    }
    size_t nw = w, nh = h; std::swap(nw, nh);
    check(t.Reshape(M, nw, nh, S) && tn::shape(t, M, nw, nh, S), "large reshape");
    check(!t.Reshape(S, w + 1, h, M) || (w + 1) * h * S * M == w * h * S * M, "large reshape accepted a different count");
    size_t e = t.elements();
    if (e > (1ull << 32)) check(!t.Reshape(1, e & 0xffffffffu), "reshape compared truncated counts");
    t.data_ptr_ = nullptr;
  }
  return finish();
}
