// C21: random acyclic networks of instrumented linear layers: execution order, completeness, summed gradients
#include "ly.h"
#include <NetGraph.h>
#include <NetGraphNode.h>
#include <StatLayer.h>
#include <LossFunctionLayer.h>
#include <TrainingLayer.h>
using namespace vh; using namespace Conv;
static std::vector<int> g_log;
struct Lin : Layer {
  int id, outs; std::vector<CombinedTensor*> in, out; std::vector<std::vector<int>> a; std::vector<bool> bp; bool enabled = true; int connected = 0;
  Lin(int i, int o) : Layer(""), id(i), outs(o) {}
  bool CreateOutputs(const std::vector<CombinedTensor*>&, std::vector<CombinedTensor*>& o) { for (int i = 0; i < outs; i++) o.push_back(new CombinedTensor(1, 2, 1, 1)); return true; }
  bool Connect(const std::vector<CombinedTensor*>& i, const std::vector<CombinedTensor*>& o, const NetStatus*) { in = i; out = o; connected++; return true; }
  void FeedForward() { g_log.push_back(id); for (int o = 0; o < outs; o++) for (int e = 0; e < 2; e++) { double s = 1 + id + o; for (size_t i = 0; i < in.size(); i++) s += a[o][i] * in[i]->data.data_ptr_const()[e]; out[o]->data.data_ptr()[e] = s; } }
  void BackPropagate() { g_log.push_back(id); enabled = backprop_enabled_; for (size_t i = 0; i < in.size(); i++) if (bp[i]) for (int e = 0; e < 2; e++) { double s = 0; for (int o = 0; o < outs; o++) s += a[o][i] * out[o]->delta.data_ptr_const()[e]; in[i]->delta.data_ptr()[e] = s; } }
  void OnLayerConnect(const std::vector<Layer*> next);
  void CreateBufferDescriptors(std::vector<NetGraphBuffer>& b) { for (int i = 0; i < outs; i++) b.push_back(NetGraphBuffer()); }
};
static std::vector<std::pair<Layer*, std::vector<Layer*>>> g_told;
void Lin::OnLayerConnect(const std::vector<Layer*> next) { g_told.push_back(std::make_pair((Layer*)this, next)); }
struct LinS : Lin, StatLayer { LinS(int i, int o) : Lin(i, o) {} void UpdateAll() {} void Print(std::string, bool) {} void Reset() {} void SetDisabled(bool) {} };
struct LinL : Lin, LossFunctionLayer { LinL(int i, int o) : Lin(i, o) {} datum CalculateLossFunction() { return id; } };
struct LinT : Lin, TrainingLayer { LinT(int i, int o) : Lin(i, o) {} void SetTestingMode(bool) {} unsigned int GetSamplesInTrainingSet() { return 1; } unsigned int GetSamplesInTestingSet() { return 1; } unsigned int GetBatchSize() { return 1; } unsigned int GetLabelWidth() { return 1; } unsigned int GetLabelHeight() { return 1; } datum GetLossSamplingProbability() { return 1; } };
struct Con { int src, buf; bool bp; };
int main(int c, char** v) {
  init(c, v); tn::init_system(); tn::Quiet q; Rng r(21);
  for (int k = 0; k < 1500 * g_scale; k++) {
    int n = r.i(2, r.b(0.1) ? 25 : 9); std::vector<Lin*> L; std::vector<NetGraphNode*> N; std::vector<std::vector<Con>> C(n); std::string d = str("#%d:", k);
    double multi = r.b() ? 0 : 0.3;
    for (int i = 0; i < n; i++) {
      int outs = r.b(multi) ? r.i(2, 3) : 1, kind = r.i(0, 6); L.push_back(kind == 0 ? new LinS(i, outs) : kind == 1 ? (Lin*)new LinL(i, outs) : kind == 2 ? (Lin*)new LinT(i, outs) : new Lin(i, outs)); d += kind > 2 ? "" : kind == 0 ? " S" : kind == 1 ? " L" : " T"; N.push_back(new NetGraphNode(L[i]));
      bool inp = i == 0 || r.b(0.12); N[i]->is_input = inp;
      if (!inp) { int m = r.i(1, 3); for (int j = 0; j < m; j++) { int s = r.b(0.4) ? i - 1 : r.i(0, i - 1); Con x = {s, r.i(0, L[s]->outs - 1), r.b(0.85)}; if (j && r.b(0.15)) { x = C[i][0]; } C[i].push_back(x); } }
      L[i]->a.assign(L[i]->outs, std::vector<int>()); for (auto& row : L[i]->a) for (size_t j = 0; j < C[i].size(); j++) row.push_back(r.i(-2, 2));
      d += str(" %d%s(%d)", i, inp ? "i" : "", L[i]->outs); for (auto& x : C[i]) d += str("<-%d.%d%s", x.src, x.buf, x.bp ? "" : "n");
    }
    std::vector<bool> used(n, false); for (auto& cs : C) for (auto& x : cs) used[x.src] = true;
    bool anyout = false; for (int i = 0; i < n; i++) if (!used[i] && !N[i]->is_input) { N[i]->is_output = true; anyout = true; }
    for (int i = 0; i < n; i++) for (auto& x : C[i]) N[i]->input_connections.push_back(NetGraphConnection(N[x.src], x.buf, x.bp));
    // a defect for the completeness check now and then
    int bad = r.b(0.25) ? r.i(1, 8) : 0; bool expect = anyout; int victim = -1; NetGraphNode* outside = nullptr; int dropped = -1;
    if (bad) { std::vector<int> cand; for (int i = 0; i < n; i++) if (!C[i].empty()) cand.push_back(i);
      if (cand.empty()) bad = 0; else { victim = cand[r.i(0, cand.size() - 1)]; auto& con = N[victim]->input_connections[r.i(0, C[victim].size() - 1)];
        if (bad == 1) { con.buffer = con.node->output_buffers.size() + r.i(0, 2); expect = false; }
        if (bad == 2) { con.node = nullptr; expect = false; }
        if (bad == 3) { outside = new NetGraphNode(new Lin(99, 1)); con.node = outside; con.buffer = 0; expect = false; }
        if (bad == 4) { for (auto* x : N) x->is_output = false; expect = false; }
        if (bad == 8) { for (auto* x : N) x->is_input = false; expect = false; }
        if (bad == 6) { N[0]->is_output = true; expect = false; }
        if (bad == 7) { N[0]->input_connections.push_back(NetGraphConnection(nullptr, 0, r.b())); expect = false; }
        if (bad == 5) { for (int i = 0; i < n; i++) if (N[i] == con.node) dropped = i; expect = false; }
        d += str(" defect %d at %d", bad, victim); } }
    if (bad && !anyout) expect = false;
    std::vector<int> ord(n); for (int i = 0; i < n; i++) ord[i] = i; if (r.b(0.7)) std::shuffle(ord.begin(), ord.end(), r.g);
    d += " added:"; for (int i : ord) d += str(" %d", i); int dup = r.b(0.3) ? r.i(1, 4) : 0;
    vh::begin(d); bool ok = true;
    auto* gp = new NetGraph; NetGraph& g = *gp; size_t added = 0;
    for (int i : ord) { if (i == dropped) continue; g.AddNode(N[i]); added++; if (dup && r.b(0.4)) { g.AddNode(N[i]); dup--; } }
    ok = check(g.GetNodes().size() == added, str("%zu nodes registered, %zu added", g.GetNodes().size(), added));
    std::set<std::string> names; for (auto* x : g.GetNodes()) names.insert(x->unique_name); ok = ok && check(names.size() == g.GetNodes().size(), "names are not unique");
    { std::vector<NetGraphNode*> w[5]; for (auto* x : g.GetNodes()) { if (x->is_input) w[0].push_back(x); if (x->is_output) w[1].push_back(x); if (dynamic_cast<StatLayer*>(x->layer)) w[2].push_back(x); if (dynamic_cast<LossFunctionLayer*>(x->layer)) w[3].push_back(x); if (dynamic_cast<TrainingLayer*>(x->layer)) w[4].push_back(x); }
      ok = ok && check(w[0] == g.input_nodes_ && w[1] == g.GetOutputNodes() && w[2] == g.GetStatNodes() && w[3] == g.GetLossNodes() && w[4] == g.GetTrainingNodes(), "a list of input, output, statistics, loss or training nodes is wrong"); }
    bool comp = false; int inputs = 0; for (auto* x : g.GetNodes()) inputs += x->is_input; if (!inputs) expect = false;
    bool outs2 = false; for (auto* x : g.GetNodes()) outs2 |= x->is_output; if (!outs2) expect = false;
    comp = g.IsComplete(); ok = ok && check(comp == expect, str("IsComplete says %d, expected %d", comp, expect));
    if (bad || !ok || !expect) { delete gp; continue; }
    // flags as the network decided them: gradients never flow into input nodes
    for (int i = 0; i < n; i++) for (size_t j = 0; j < C[i].size(); j++) { if (N[C[i][j].src]->is_input) C[i][j].bp = false; }
    for (int i = 0; i < n; i++) { L[i]->bp.clear(); for (auto& x : C[i]) L[i]->bp.push_back(x.bp); }
    g.Initialize();
    for (int i = 0; i < n; i++) ok = check(L[i]->connected == 1, str("layer %d connected %d times", i, L[i]->connected)) && ok;
    { g_told.clear(); g.InitializeWeights(); std::map<Layer*, int> told; std::vector<int> cnt(n, 0);
      for (auto& t : g_told) { for (int i = 0; i < n; i++) if (L[i] == t.first) { cnt[i]++; std::vector<Layer*> w; for (auto& b : N[i]->backprop_connections) { w.push_back(b.node->layer); bool lin = false; for (auto* l : L) lin |= l == b.node->layer; if (lin) ok = check(told[b.node->layer] == 1, str("layer %d was told before a layer behind it", i)) && ok; } ok = check(w == t.second, str("layer %d was told %zu layers, %zu are behind it, or others", i, t.second.size(), w.size())) && ok; } told[t.first]++; }
      for (int i = 0; i < n; i++) ok = check(cnt[i] == 1, str("layer %d was told %d times", i, cnt[i])) && ok; }
    // values
    std::vector<std::vector<std::vector<double>>> val(n), grad(n);
    for (int i = 0; i < n; i++) { val[i].assign(L[i]->outs, std::vector<double>(2, 0)); for (int o = 0; o < L[i]->outs; o++) for (int e = 0; e < 2; e++) { double s = 1 + i + o; for (size_t j = 0; j < C[i].size(); j++) s += L[i]->a[o][j] * val[C[i][j].src][C[i][j].buf][e]; val[i][o][e] = s; } }
    int passes = r.i(1, 3);
    for (int ps = 0; ps < passes && ok; ps++) {
      g_log.clear(); g.FeedForward(); std::vector<int> cnt(n, 0), pos(n, -1); for (size_t z = 0; z < g_log.size(); z++) { cnt[g_log[z]]++; pos[g_log[z]] = z; }
      for (int i = 0; i < n && ok; i++) { ok = check(cnt[i] == 1, str("pass %d: layer %d ran forward %d times", ps, i, cnt[i])); for (auto& x : C[i]) ok = ok && check(pos[x.src] < pos[i], str("layer %d ran before its input layer %d", i, x.src)); }
      for (int i = 0; i < n && ok; i++) for (int o = 0; o < L[i]->outs && ok; o++) for (int e = 0; e < 2; e++) ok = ok && check(close(L[i]->out[o]->data.data_ptr_const()[e], val[i][o][e], 1e-4), str("output %d of layer %d is %g, expected %g", o, i, L[i]->out[o]->data.data_ptr_const()[e], val[i][o][e]));
      // gradients
      for (int i = 0; i < n; i++) { grad[i].assign(L[i]->outs, std::vector<double>(2, 0)); }
      std::vector<std::vector<int>> uses(n); for (int i = 0; i < n; i++) uses[i].assign(L[i]->outs, 0); for (int i = 0; i < n; i++) for (auto& x : C[i]) if (x.bp) uses[x.src][x.buf]++;
      for (int i = 0; i < n; i++) for (int o = 0; o < L[i]->outs; o++) for (int e = 0; e < 2; e++) { float seed = r.i(-3, 3); L[i]->out[o]->delta.data_ptr()[e] = uses[i][o] ? 1000 + seed : seed; grad[i][o][e] = uses[i][o] ? 0 : seed; }
      for (int i = n - 1; i >= 0; i--) for (size_t j = 0; j < C[i].size(); j++) if (C[i][j].bp) for (int e = 0; e < 2; e++) { double s = 0; for (int o = 0; o < L[i]->outs; o++) s += L[i]->a[o][j] * grad[i][o][e]; grad[C[i][j].src][C[i][j].buf][e] += s; }
      g_log.clear(); g.BackPropagate(); std::fill(cnt.begin(), cnt.end(), 0); for (size_t z = 0; z < g_log.size(); z++) { cnt[g_log[z]]++; pos[g_log[z]] = z; }
      for (int i = 0; i < n && ok; i++) { ok = check(cnt[i] == 1, str("pass %d: layer %d ran backward %d times", ps, i, cnt[i])); bool any = false; for (auto& x : C[i]) { any |= x.bp; if (x.bp) ok = ok && check(pos[x.src] > pos[i], str("layer %d ran backward before its consumer %d", x.src, i)); } ok = ok && check(L[i]->enabled == any, str("back propagation of layer %d switched %s", i, any ? "off" : "on")); }
      for (int i = 0; i < n && ok; i++) for (int o = 0; o < L[i]->outs && ok; o++) if (!N[i]->is_input) for (int e = 0; e < 2; e++) ok = ok && check(close(L[i]->out[o]->delta.data_ptr_const()[e], grad[i][o][e], 1e-4), str("gradient of output %d of layer %d is %g, expected %g (%d consumers)", o, i, L[i]->out[o]->delta.data_ptr_const()[e], grad[i][o][e], uses[i][o]));
    }
    delete gp;
  }
  return finish();
}
