// C22: saving and loading network parameters
#include "ly.h"
#include <NetGraph.h>
#include <NetGraphNode.h>
#include <ConvolutionLayer.h>
#include <NonLinearityLayer.h>
#include <InputLayer.h>
using namespace vh; using namespace Conv;
struct P : Layer {
  int outs = 1;
  P() : Layer("") {}
  bool CreateOutputs(const std::vector<CombinedTensor*>&, std::vector<CombinedTensor*>& o) { o.push_back(new CombinedTensor(1, 2, 2, 1)); return true; }
  bool Connect(const std::vector<CombinedTensor*>&, const std::vector<CombinedTensor*>&, const NetStatus*) { return true; }
  void FeedForward() {} void BackPropagate() {} void CreateBufferDescriptors(std::vector<NetGraphBuffer>& b) { b.push_back(NetGraphBuffer()); }
};
struct Spec { std::vector<std::vector<std::vector<int>>> shapes; std::vector<int> src, src2, ord; bool real; std::vector<int> k, out; };
static NetGraph* build(const Spec& s, Rng& r) {
  NetGraph* g = new NetGraph; std::vector<NetGraphNode*> n;
  for (size_t i = 0; i < s.shapes.size(); i++) {
    Layer* l; NetGraphNode* node;
    if (s.real && i > 0 && s.k[i] > 0) { l = new ConvolutionLayer(s.k[i], s.k[i], s.out[i], 1, 1, 0, 0, 1, i * 31 + 7); node = new NetGraphNode(l); }
    else if (s.real && i == 0) { Tensor t(1, 9, 9, 2); tn::fill(t, r); static std::vector<Tensor*> keep; Tensor* d = new Tensor(t, true); Tensor *la = new Tensor(1, 9, 9, 1), *h = new Tensor(1, 9, 9, 1), *w = new Tensor(1, 9, 9, 1); keep.push_back(d); l = new InputLayer(*d, *la, *h, *w); node = new NetGraphNode(l); }
    else { P* p = new P; for (auto& z : s.shapes[i]) { auto* t = new CombinedTensor(z[0], z[1], z[2], z[3]); p->parameters_.push_back(t); } l = p; node = new NetGraphNode(l); }
    n.push_back(node);
    if (i == 0) node->is_input = true; else { node->input_connections.push_back(NetGraphConnection(n[s.src[i]])); if (!s.real && s.src2[i] >= 0) node->input_connections.push_back(NetGraphConnection(n[s.src2[i]])); }
  }
  n.back()->is_output = true;
  for (int i : s.ord) g->AddNode(n[i]);
  g->Initialize();
  for (auto* x : g->GetNodes()) for (auto* t : x->layer->parameters()) for (size_t e = 0; e < t->data.elements(); e++) { uint32_t b = (uint32_t)r.u(); memcpy(t->data.data_ptr() + e, &b, 4); }
  return g;
}
struct St { size_t l; std::vector<float> v; size_t d[4]; float* p; };
static std::vector<St> state(NetGraph& g) { std::vector<St> o; for (size_t l = 0; l < g.GetNodes().size(); l++) for (auto* t : g.GetNodes()[l]->layer->parameters()) o.push_back({l, tn::snap(t->data), {t->data.samples(), t->data.width(), t->data.height(), t->data.maps()}, nullptr}); return o; }
static bool eq(const St& a, const St& b) { return a.v.size() == b.v.size() && !memcmp(a.d, b.d, sizeof a.d) && (a.v.empty() || !memcmp(a.v.data(), b.v.data(), a.v.size() * 4)); }
int main(int c, char** v) {
  init(c, v); tn::init_system(); tn::Quiet q; Rng r(22);
  for (int k = 0; k < 500 * g_scale; k++) {
    Spec s; int n = r.i(1, 8); s.real = r.b(0.2); if (s.real) n = r.i(2, 4); std::string d = str("#%d %s layers=%d", k, s.real ? "convolution" : "mock", n);
    for (int i = 0; i < n; i++) { std::vector<std::vector<int>> sh; int m = r.i(0, 3); if (!s.real) for (int j = 0; j < m; j++) { sh.push_back({r.i(1, 3), r.i(1, 5), r.i(1, 5), r.i(1, 3)}); d += str(" %d:%dx%dx%dx%d", i, sh[j][0], sh[j][1], sh[j][2], sh[j][3]); } s.shapes.push_back(sh); s.src.push_back(i ? r.i(s.real ? i - 1 : 0, i - 1) : 0); s.src2.push_back(i && r.b(0.4) ? r.i(0, i - 1) : -1); s.k.push_back(r.i(1, 3)); s.out.push_back(r.i(1, 4)); s.ord.push_back(i); }
    if (r.b()) std::shuffle(s.ord.begin(), s.ord.end(), r.g);
    vh::begin(d);
    NetGraph *a = build(s, r), *b = build(s, r); auto sa = state(*a), sb = state(*b);
    size_t elems = 0; for (auto& x : sa) elems += x.v.size();
    std::vector<CombinedTensor*> ps; a->GetParameters(ps); size_t cnt = 0; for (auto* t : ps) cnt += t->data.elements(); check(cnt == elems && ps.size() == sa.size(), "parameter count");
    std::stringstream ss; a->SerializeParameters(ss); auto sa2 = state(*a); for (size_t i = 0; i < sa.size(); i++) check(eq(sa[i], sa2[i]), "saving changed a parameter");
    check(ss.str().size() == 32 * sa.size() + 4 * elems, str("%zu bytes written for %zu sets of %zu parameters", ss.str().size(), sa.size(), elems));
    size_t N = a->GetNodes().size(); check(b->GetNodes().size() == N, "layers");
    unsigned last = r.b(0.5) ? 0 : r.b(0.2) ? N + r.i(0, 3) : (unsigned)r.i(0, N - 1); unsigned lim = last == 0 || last >= N ? N - 1 : last;
    std::string path = g_scratch + "/c22.param"; bool file = r.b(0.4);
    if (file) { std::ofstream f(path, std::ios::binary); f << ss.str(); f.close(); std::ifstream i(path, std::ios::binary); b->DeserializeParameters(i, last); }
    else { if (r.b()) b->DeserializeParameters(ss, last); else { std::stringstream s2(ss.str() + "xx"); b->DeserializeParameters(s2, last); } }
    auto sn = state(*b); if (!check(sn.size() == sa.size(), "number of parameter sets changed")) continue;
    for (size_t i = 0; i < sn.size(); i++) {
      if (sn[i].l <= lim) { if (!check(eq(sn[i], sa[i]), str("load up to layer %u: parameters of layer %zu differ from the saved ones", last, sn[i].l))) break; }
      else if (!check(eq(sn[i], sb[i]), str("load up to layer %u changed layer %zu", last, sn[i].l))) break;
    }
    std::vector<CombinedTensor*> pb; b->GetParameters(pb); for (size_t i = 0; i < pb.size(); i++) check(pb[i]->delta.elements() == pb[i]->data.elements(), "gradient size");
    delete a; delete b;
  }
  return finish();
}
