// C20: training runs on networks of instrumented layers, compared with a simulation of the configured update
#include "ly.h"
#include <NetGraph.h>
#include <NetGraphNode.h>
#include <Trainer.h>
#include <TrainingLayer.h>
#include <LossFunctionLayer.h>
#include <StatAggregator.h>
using namespace vh; using namespace Conv;
static Rng* G; static bool g_testing = false; static int g_ff = 0;
struct In : Layer, TrainingLayer {
  unsigned bs, lw, lh, tr, te; datum p; In() : Layer("") {}
  bool CreateOutputs(const std::vector<CombinedTensor*>&, std::vector<CombinedTensor*>& o) { o.push_back(new CombinedTensor(1, 2, 2, 1)); return true; }
  bool Connect(const std::vector<CombinedTensor*>&, const std::vector<CombinedTensor*>&, const NetStatus*) { return true; }
  void FeedForward() { g_ff++; } void BackPropagate() {}
  void CreateBufferDescriptors(std::vector<NetGraphBuffer>& b) { b.push_back(NetGraphBuffer()); }
  void SetTestingMode(bool t) { g_testing = t; } unsigned GetSamplesInTrainingSet() { return tr; } unsigned GetSamplesInTestingSet() { return te; }
  unsigned GetBatchSize() { return bs; } datum GetLossSamplingProbability() { return p; } unsigned GetLabelWidth() { return lw; } unsigned GetLabelHeight() { return lh; }
};
struct P : Layer {
  std::vector<std::vector<double>> acc; int bps = 0; int zero_mode = 0;
  P(int n, datum lr) : Layer("") { local_lr_ = lr; for (int i = 0; i < n; i++) { auto* t = new CombinedTensor(G->i(1, 2), G->i(1, 4), G->i(1, 3), G->i(1, 3)); tn::fillq(t->data, *G); if (G->b(0.3)) t->data.data_ptr()[0] = 0; parameters_.push_back(t); acc.push_back(std::vector<double>(t->data.elements(), 0)); } }
  bool CreateOutputs(const std::vector<CombinedTensor*>&, std::vector<CombinedTensor*>& o) { o.push_back(new CombinedTensor(1, 2, 2, 1)); return true; }
  bool Connect(const std::vector<CombinedTensor*>&, const std::vector<CombinedTensor*>&, const NetStatus*) { return true; }
  void FeedForward() {}
  void BackPropagate() { bps++; for (size_t k = 0; k < parameters_.size(); k++) for (size_t e = 0; e < acc[k].size(); e++) { float g = zero_mode == 1 ? 0 : zero_mode == 2 && G->b(0.3) ? 0 : G->q() * 4; parameters_[k]->delta.data_ptr()[e] = g; acc[k][e] += g; } }
  void CreateBufferDescriptors(std::vector<NetGraphBuffer>& b) { b.push_back(NetGraphBuffer()); }
};
struct Loss : Layer, LossFunctionLayer {
  Loss() : Layer("") {} bool CreateOutputs(const std::vector<CombinedTensor*>&, std::vector<CombinedTensor*>&) { return true; }
  bool Connect(const std::vector<CombinedTensor*>&, const std::vector<CombinedTensor*>&, const NetStatus*) { return true; }
  void FeedForward() {} void BackPropagate() {} datum CalculateLossFunction() { return 1; } void CreateBufferDescriptors(std::vector<NetGraphBuffer>&) {}
};
template <class T> static int sg(T v) { return (T(0) < v) - (v < T(0)); }
int main(int c, char** v) {
  init(c, v); tn::init_system(); tn::Quiet q; Rng r(20); G = &r;
  for (int k = 0; k < 400 * g_scale; k++) {
    In* in = new In; in->bs = r.i(1, 4); in->lw = r.i(1, 5); in->lh = r.i(1, 5); in->tr = r.i(1, 6); in->te = r.i(0, 9); in->p = r.b() ? 1.0f : r.i(1, 7) / 8.0f;
    NetGraph g; NetGraphNode* n0 = new NetGraphNode(in); n0->is_input = true; std::vector<NetGraphNode*> ns; ns.push_back(n0); std::vector<P*> ps; NetGraphNode* last = n0; int np = r.i(1, 5);
    for (int i = 0; i < np; i++) { P* p = new P(r.i(0, 3), r.b(0.2) ? 0 : r.b() ? 1 : r.i(1, 24) / 8.0f); ps.push_back(p); p->zero_mode = r.b(0.1) ? 1 : r.i(0, 2); if (p->zero_mode == 1 && r.b()) p->zero_mode = 0; last = new NetGraphNode(p, NetGraphConnection(last)); ns.push_back(last); }
    NetGraphNode* lo = new NetGraphNode(new Loss, NetGraphConnection(last)); lo->is_output = true; ns.push_back(lo);
    if (r.b()) std::shuffle(ns.begin(), ns.end(), r.g);
    for (auto* n : ns) g.AddNode(n); g.Initialize();
    TrainerSettings s; s.learning_rate = r.i(1, 16) / 16.0f; s.l1_weight = r.b() ? 0 : r.i(1, 8) / 16.0f; s.l2_weight = r.b() ? 0 : r.i(1, 8) / 16.0f; s.exponent = r.i(0, 8) / 4.0f; s.gamma = r.i(0, 8) / 8.0f; s.momentum = r.b(0.3) ? 0 : r.i(1, 15) / 16.0f;
    s.mu = r.i(8, 20) / 8.0f; s.sbatchsize = r.i(1, 4); s.iterations = r.b(0.2) ? 0 : r.i(1, 4); s.epoch_training_ratio = r.b(0.8) ? 1.0f : 0.5f; s.stats_during_training = r.b(); s.optimization_method = r.b(0.6) ? GRADIENT_DESCENT : QUICKPROP; s.pbatchsize = in->bs; s.testing_ratio = r.b() ? 1 : 0.5f;
    if (s.optimization_method == QUICKPROP) s.iterations = r.b(0.2) ? 0 : r.i(1, 2);
    bool qp = s.optimization_method == QUICKPROP;
    std::stringstream d; d << "#" << k << " " << s << " ratio " << s.epoch_training_ratio << " it " << s.iterations << " p " << in->p << " batch " << in->bs << " label " << in->lw << "x" << in->lh << " layers " << np;
    vh::begin(d.str());
    Trainer t(g, s);
    size_t total = 0; for (auto* p : ps) for (auto* x : p->parameters()) total += x->data.elements();
    check(t.weight_count_ == total, "weight count");
    struct W { double w, step, slope; }; std::map<CombinedTensor*, std::vector<W>> sim; for (auto* p : ps) for (auto* x : p->parameters()) { auto& z = sim[x]; for (size_t e = 0; e < x->data.elements(); e++) z.push_back({x->data.data_ptr_const()[e], 0, 0}); }
    bool tie = false; unsigned epoch = 0; bool first = true; bool ok = true; double n = (double)in->bs * in->lw * in->lh * s.sbatchsize;
    int ops = r.i(1, 5); if (qp) ops = r.i(1, 4);
    for (int o = 0; o < ops && ok; o++) {
      int op = r.i(0, 9);
      if (op == 0) { t.Reset(); first = true; for (auto& z : sim) for (auto& w : z.second) w.step = w.slope = 0; }
      else if (op == 1) { epoch = r.i(0, 20); t.SetEpoch(epoch); first = true; for (auto& z : sim) for (auto& w : z.second) w.step = w.slope = 0; ok = check(t.epoch() == epoch, "epoch"); }
      else if (op == 2) { std::vector<std::vector<float>> b; for (auto* p : ps) for (auto* x : p->parameters()) b.push_back(tn::snap(x->data)); g_ff = 0; t.Test(); size_t z = 0; for (auto* p : ps) for (auto* x : p->parameters()) ok = check(tn::same(x->data, b[z++]), "testing changed a parameter") && ok; ok = ok && check(!g_testing, "still testing"); }
      else {
        // one epoch at a time; the per-iteration accumulations are recovered by running single iterations
        unsigned it = s.iterations == 0 ? in->tr : s.iterations; it = (unsigned)((float)it * s.epoch_training_ratio);
        // record the gradient sums of every iteration
        struct Tap { };
        std::vector<std::map<CombinedTensor*, std::vector<double>>> logs;
        // hook: snapshot accumulations every sbatchsize back propagations of the first layer in order
        for (auto* p : ps) { p->bps = 0; for (auto& a : p->acc) std::fill(a.begin(), a.end(), 0); }
        // run iteration by iteration through the public interface of the trainer with the generator rewound
        auto save = r.g; 
        // dry replay: produce the gradients in the order the network's back propagation will ask for them
        for (unsigned i = 0; i < it; i++) { for (unsigned b = 0; b < s.sbatchsize; b++) { g.BackPropagate(); } std::map<CombinedTensor*, std::vector<double>> m; for (auto* p : ps) for (size_t z = 0; z < p->acc.size(); z++) { m[p->parameters()[z]] = p->acc[z]; std::fill(p->acc[z].begin(), p->acc[z].end(), 0); } logs.push_back(m); }
        r.g = save; for (auto* p : ps) p->bps = 0;
        g_ff = 0; t.Train(1, false);
        for (auto* p : ps) ok = check((unsigned)p->bps == it * s.sbatchsize, str("%d backward passes, expected %u", p->bps, it * s.sbatchsize)) && ok;
        ok = ok && check((unsigned)g_ff == it * s.sbatchsize, str("%d forward passes, expected %u", g_ff, it * s.sbatchsize));
        for (unsigned i = 0; i < it; i++) {
          double lr = s.learning_rate * std::pow(1.0 + (double)s.gamma * (epoch * it + i), -(double)s.exponent);
          ok = ok && check(close(t.CalculateLR(epoch * it + i), lr, 1e-5), "learning rate formula");
          for (auto* p : ps) for (auto* x : p->parameters()) { auto& z = sim[x]; auto& a = logs[i][x]; for (size_t e = 0; e < z.size(); e++) {
            W& w = z[e]; double delta = p->local_lr_ * (a[e] / n * in->p) + p->local_lr_ * (s.l2_weight * w.w + s.l1_weight * sg(w.w));
            if (!qp) { double st = lr * delta + s.momentum * w.step; w.w -= st; w.step = st; if (std::fabs(w.w) < 1e-6) w.w = w.w; }
            else { float cs = (float)delta, ls = (float)w.slope, lst = (float)w.step; double step;
              if (first) step = -0.1 * cs;
              else if (std::fabs(cs) <= 1e-15f) step = -cs * lr;
              else { double qs; if (std::fabs(std::fabs(cs) - std::fabs(s.mu * (ls - cs))) < 1e-3 * (std::fabs(cs) + 1e-3) || std::fabs(ls - cs) < 1e-4 || std::fabs(cs) < 1e-5 || (lst != 0 && std::fabs(lst) < 1e-6)) tie = true; if (std::fabs(cs) < std::fabs(s.mu * (ls - cs)) && sg(lst) != sg(ls - cs)) qs = (double)lst * cs / (ls - cs); else qs = s.mu * lst; step = sg(cs) == sg(ls) ? qs - lr * cs : qs; }
              w.w += step; w.step = step; w.slope = cs; }
          } }
          first = false;
        }
        epoch++; ok = ok && check(t.epoch() == epoch, "epoch counter");
      }
      if (tie) break;   // rounding may decide the case distinction
      double tol = qp ? 2e-2 : 3e-3; bool near0 = false;
      for (size_t pi = 0; pi < ps.size() && ok; pi++) for (size_t z = 0; z < ps[pi]->parameters().size() && ok; z++) { auto* x = ps[pi]->parameters()[z]; auto& w = sim[x];
        for (size_t e = 0; e < w.size() && ok; e++) {
          double got = x->data.data_ptr_const()[e];
          if (ps[pi]->local_lr_ == 0) ok = check((float)w[e].w == (float)got || close(got, w[e].w, 1e-6), str("parameter of a layer with learning rate 0 changed to %g (was %g)", got, w[e].w));
          else if (!close(got, w[e].w, tol)) { if (s.l1_weight > 0 && (std::fabs(w[e].w) < 0.3 * s.l1_weight + 1e-3)) { near0 = true; continue; } ok = check(false, str("layer %zu (local rate %g) parameter %zu element %zu is %.8g, expected %.8g after operation %d", pi, ps[pi]->local_lr_, z, e, got, w[e].w, o)); }
        } }
      if (near0) break;
      // keep the simulation from drifting
      if (!qp) for (auto& z : sim) for (size_t e = 0; e < z.second.size(); e++) z.second[e].w = z.first->data.data_ptr_const()[e];
    }
  }
  return finish();
}
