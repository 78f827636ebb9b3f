// C23: the dataset input layer driven over a dataset whose samples carry their own number
#include "ly.h"
#include <DatasetInputLayer.h>
using namespace vh; using namespace Conv;
static float code(int kind, bool test, unsigned i, size_t p) { return kind == 3 ? 1 + (float)((i * 7 + p * 3 + test) % 50) / 8 : (float)(kind * 100000 + (test ? 50000 : 0) + i * 200) + (float)(p % 193); }
struct Mock : Dataset {
  Method me; unsigned w, h, im, lm, tr, te; int calls = 0; bool oob = false;
  Task GetTask() const { return SEMANTIC_SEGMENTATION; } Method GetMethod() const { return me; } unsigned GetWidth() const { return w; } unsigned GetHeight() const { return h; }
  unsigned GetInputMaps() const { return im; } unsigned GetLabelMaps() const { return lm; } unsigned GetClasses() const { return lm; }
  std::vector<std::string> GetClassNames() const { return {}; } std::vector<unsigned> GetClassColors() const { return {}; } std::vector<datum> GetClassWeights() const { return {}; }
  unsigned GetTrainingSamples() const { return tr; } unsigned GetTestingSamples() const { return te; } bool SupportsTesting() const { return te > 0; }
  bool get(Tensor& d, Tensor& l, Tensor& hp, Tensor& wt, unsigned s, unsigned i, bool test) {
    calls++; if (i >= (test ? te : tr)) { oob = true; return false; }
    Tensor* t[4] = {&d, &l, &hp, &wt};
    for (int k = 0; k < 4; k++) { size_t n = t[k]->width_ * t[k]->height_ * t[k]->maps_; if (s >= t[k]->samples_) { oob = true; return false; } for (size_t p = 0; p < n; p++) t[k]->data_ptr_[s * n + p] = code(k, test, i, p); }
    return true;
  }
  bool GetTrainingSample(Tensor& d, Tensor& l, Tensor& hp, Tensor& wt, unsigned s, unsigned i) { return get(d, l, hp, wt, s, i, false); }
  bool GetTestingSample(Tensor& d, Tensor& l, Tensor& hp, Tensor& wt, unsigned s, unsigned i) { return get(d, l, hp, wt, s, i, true); }
};
struct L { DatasetInputLayer l; ly::CV in, out; NetStatus st; L(Mock& m, unsigned b, float p, unsigned seed) : l(m, b, p, seed) { Layer* z = &l; if (!z->CreateOutputs(in, out) || !z->Connect(in, out, &st)) out.clear(); } ~L() { for (auto* t : out) delete t; } };
// which sample the slot holds; -1 if data, label, helper and weight disagree
static int slot(L& a, Mock& m, unsigned s, bool test, bool weightless, float p, bool& bad) {
  size_t n0 = (size_t)m.w * m.h * m.im; float f = a.out[0]->data.data_ptr_[s * n0]; int i = (int)((f - (test ? 50000 : 0)) / 200);
  if (i < 0 || (unsigned)i >= (test ? m.te : m.tr)) return -1;
  for (int k = 0; k < 4; k++) {
    Tensor& t = a.out[k]->data; size_t n = t.width_ * t.height_ * t.maps_; std::map<std::pair<int, int>, int> blk;
    for (size_t q = 0; q < n; q++) {
      float g = t.data_ptr_[s * n + q], e = code(k, test, i, q);
      if (k < 3) { if (g != e) return -1; continue; }
      if (weightless) { if (g != 0) { bad = true; return i; } continue; }
      if (test || m.me == PATCH || p >= 1) { if (g != e) return -1; continue; }
      auto b = std::make_pair((int)(q % t.width_) / 12, (int)(q / t.width_) / 12); int v = g == 0 ? 1 : g == e ? 2 : 3; if (v == 3) return -1; if (p <= 0 && v == 2) return -1;
      if (blk.count(b) && blk[b] != v) return -1; blk[b] = v;
    }
  }
  return i;
}
int main(int c, char** v) {
  init(c, v); tn::init_system(); tn::Quiet q; Rng r(23);
  for (int k = 0; k < 500 * g_scale; k++) {
    Mock m; m.me = r.b(0.7) ? FCN : PATCH; bool big = r.b(0.15); m.w = big ? r.i(12, 40) : r.i(1, 6); m.h = big ? r.i(12, 40) : r.i(1, 6); m.im = r.i(1, 3); m.lm = r.i(1, 3); m.tr = r.b(0.05) ? r.i(60, 200) : r.i(1, 12); m.te = r.i(1, 9);
    unsigned B = r.i(1, 6), seed = r.i(1, 100000); float p = r.b(0.4) ? 1.0f : r.b(0.1) ? 0.0f : (float)r.f(0.05, 0.95);
    begin(str("#%d %s %ux%u, %u+%u maps, %u training and %u test samples, batch %u, seed %u, p %g", k, m.me == FCN ? "images" : "patches", m.w, m.h, m.im, m.lm, m.tr, m.te, B, seed, p));
    L a(m, B, p, seed), b(m, B, p, seed);
    if (!check(a.out.size() == 4 && b.out.size() == 4, "not set up")) continue;
    int lw = m.me == FCN ? m.w : 1, lh = m.me == FCN ? m.h : 1;
    if (!check(tn::shape(a.out[0]->data, B, m.w, m.h, m.im) && tn::shape(a.out[1]->data, B, lw, lh, m.lm) && tn::shape(a.out[2]->data, B, lw, lh, 2) && tn::shape(a.out[3]->data, B, lw, lh, 1), "output shapes")) continue;
    std::vector<int> seq; size_t tested = 0; bool testing = false, ok = true; unsigned steps = r.i(2, 5) * (m.tr / B + 1);
    for (unsigned z = 0; z < steps && ok; z++) {
      if (r.b(0.3)) { bool t = r.b(); a.l.SetTestingMode(t); if (t && !testing) tested = 0; testing = t; if (r.b(0.2)) a.l.SetTestingMode(t); }
      for (auto* t : a.out) if (r.b()) tn::fill(t->data, r);
      m.calls = 0; a.l.FeedForward(); a.l.BackPropagate();
      if (m.oob) { ok = check(false, "a sample number outside the dataset was asked for"); break; }
      for (unsigned s = 0; s < B && ok; s++) {
        bool wl = testing && tested >= m.te, bad = false; int i = slot(a, m, s, testing, wl, p, bad);
        ok = check(!bad, str("slot %u is beyond the end of the test set but carries weight", s)) && check(i >= 0, str("slot %u: data, label, helper and weight are not those of one sample", s));
        if (!ok) break;
        if (testing) { if (!wl) { ok = check(i == (int)tested, str("test sample %d delivered, expected %zu", i, tested)); tested++; } }
        else seq.push_back(i);
      }
    }
    // every pass is a permutation
    for (size_t s = 0; ok && s < seq.size(); s += m.tr) { std::set<int> d(seq.begin() + s, seq.begin() + std::min(seq.size(), s + m.tr)); ok = check(d.size() == std::min((size_t)m.tr, seq.size() - s), str("pass %zu delivers a training sample twice", s / m.tr)); }
    // another seed gives another order
    if (ok && m.tr >= 40 && seq.size() >= m.tr) { L o(m, B, p, seed + 1); std::vector<int> other; for (bool bad = false; other.size() < m.tr;) { o.l.FeedForward(); for (unsigned s = 0; s < B; s++) other.push_back(slot(o, m, s, false, false, p, bad)); } ok = check(!std::equal(seq.begin(), seq.begin() + m.tr, other.begin()), "the order does not depend on the seed"); }
    // the same seed gives the same order
    for (size_t n = 0; ok && n < seq.size();) { b.l.FeedForward(); for (unsigned s = 0; s < B && n < seq.size() && ok; s++, n++) { bool bad = false; int i = slot(b, m, s, false, false, p, bad); ok = check(i == seq[n], str("delivery %zu differs for the same seed: %d and %d", n, seq[n], i)); } }
  }
  return finish();
}
