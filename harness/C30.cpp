// BUILD: openmp-tsan
// C30: every parallel loop run with one and with several threads, results compared bit by bit, conflicting accesses
// reported by the thread sanitizer.  The threads come from the small OpenMP runtime below (static schedule).
#include "ly.h"
#include <pthread.h>
#include <ConvolutionLayer.h>
#include <MaxPoolingLayer.h>
#include <AdvancedMaxPoolingLayer.h>
#include <ResizeLayer.h>
#include <SpatialPriorLayer.h>
#include <ConcatenationLayer.h>
#include <SumLayer.h>
#include <GradientAccumulationLayer.h>
#include <NonLinearityLayer.h>
#include <LocalResponseNormalizationLayer.h>
#include <BinaryStatLayer.h>
#include <StatAggregator.h>
#include <Dataset.h>
#include <FloatTensorStream.h>
using namespace vh; using namespace Conv;
static int NT = 1; static __thread int me = 0, team = 1; static long regions = 0; static bool backwards = false;
struct Arg { void (*f)(void*); void* d; int k; };
static void* go(void* p) { Arg* a = (Arg*)p; me = a->k; team = NT; a->f(a->d); me = 0; team = 1; return 0; }
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
extern "C" {
int omp_get_thread_num() { return me; }
int omp_get_num_threads() { return team; }
int omp_get_max_threads() { return NT; }
int omp_get_num_procs() { return NT; }
int omp_in_parallel() { return team > 1; }
void omp_set_num_threads(int) {}
void GOMP_parallel(void (*f)(void*), void* d, unsigned n, unsigned) {
  regions++; if (NT == 1 || n == 1 || team > 1) { int m = me, t = team; me = 0; team = 1; f(d); me = m; team = t; return; }
  std::vector<Arg> a(NT); std::vector<pthread_t> t(NT);
  for (int k = 0; k < NT; k++) { int j = backwards ? NT - 1 - k : k; a[j] = {f, d, j}; pthread_create(&t[j], 0, go, &a[j]); }
  for (int k = 0; k < NT; k++) pthread_join(t[k], 0);
}
void GOMP_critical_start() { pthread_mutex_lock(&mx); }
void GOMP_critical_end() { pthread_mutex_unlock(&mx); }
void GOMP_atomic_start() { pthread_mutex_lock(&mx); }
void GOMP_atomic_end() { pthread_mutex_unlock(&mx); }
void GOMP_barrier() {}
const char* __tsan_default_options() { return "halt_on_error=0 exitcode=0 log_path=stderr report_thread_leaks=0 report_signal_unsafe=0 history_size=4"; }
}
static long races = 0;
extern "C" void __tsan_on_report(void*) { if (races++ < 3) say("FAIL", "two threads access the same memory without order (thread sanitizer report)"); g_fail++; }

typedef std::vector<float> F;
static void add(F& o, const Tensor& t) { o.insert(o.end(), t.data_ptr_, t.data_ptr_ + t.elements_); }
// the same scenario with one thread and with several; r is copied so that every run sees the same input
static void agree(const Rng& r0, const std::function<F(Rng&)>& run) {
  Rng r = r0; NT = 1; F a = run(r); static const int ns[] = {2, 3, 4, 7};
  for (int k = 0; k < 2; k++) {
    int n = ns[(g_evals + k * 2) % 4]; backwards = (g_evals + k) & 1; Rng q = r0; NT = n; F b = run(q); NT = 1;
    if (!check(a.size() == b.size(), "result sizes differ")) return;
    for (size_t i = 0; i < a.size(); i++) if (memcmp(&a[i], &b[i], 4)) { fail(str("value %zu is %.9g with one thread and %.9g with %d", i, a[i], b[i], n)); return; }
  }
}
static F layer(Layer* l, ly::CV in, Rng& r, int kind) {
  F o; ly::Run R(l, in); if (!R.connected) return o;
  for (int round = 0; round < 2; round++) {
    for (auto* t : R.in) { if (kind == 1) tn::filli(t->data, r, -2, 2); else tn::fill(t->data, r); } R.dirty(r); for (auto* t : R.out) { tn::setall(t->data, 5); tn::fill(t->delta, r); }
    l->FeedForward(); for (auto* t : R.out) add(o, t->data);
    l->BackPropagate(); for (auto* t : R.in) { add(o, t->delta); add(o, t->data); } for (auto* t : R.out) add(o, t->delta); for (auto* p : l->parameters_) add(o, p->delta);
  }
  return o;
}
int main(int c, char** v) {
  init(c, v); g_limit = 60; tn::init_system(); tn::Quiet q; Rng r(30);
  if (!System::stat_aggregator) System::stat_aggregator = new StatAggregator;
  for (int k = 0; k < 160 * g_scale; k++) {
    int op = k % 16, S = r.i(1, 6), w = r.i(1, 9), h = r.i(1, 9), M = r.i(1, 5), x = r.i(1, 3), y = r.i(1, 3), z = r.i(0, 2), kind = r.i(0, 1); bool b1 = r.b(), b2 = r.b(); Rng q0(r.u());
    static const char* nm[] = {"convolution", "max pooling", "strided max pooling", "border resize", "spatial prior", "concatenation", "sum", "gradient accumulation", "sigmoid", "tanh", "relu", "softmax", "lrn", "GEMM and GEMV", "IM2COL and ADD", "binary statistics and dataset"};
    begin(str("#%d %s on %dx%d maps %d samples %d, %d %d %d data %d %d%d", k, nm[op], w, h, M, S, x, y, z, kind, b1, b2));
    agree(q0, [=](Rng& r) -> F {
      ly::CV one{ly::ct(S, w, h, M)};
      switch (op) {
        case 0: { int g = b1 && M % 2 == 0 ? 2 : 1; Layer* l = new ConvolutionLayer(x, y, 2 * g, 1 + (z == 1), 1 + (z == 2), b2 ? x - 1 : 0, b2 ? y - 1 : 0, g, 17); return layer(l, one, r, kind); }
        case 1: one[0]->data.Resize(S, w * x, h * y, M); one[0]->delta.Resize(S, w * x, h * y, M); return layer(new MaxPoolingLayer(x, y), one, r, kind);
        case 2: return layer(new AdvancedMaxPoolingLayer(x, y, 1 + z, 1 + (z + b1) % 3), one, r, kind);
        case 3: return layer(new ResizeLayer(x, y), one, r, kind);
        case 4: return layer(new SpatialPriorLayer(), {ly::ct(S, w, h, M), ly::ct(S, w, h, 2)}, r, kind);
        case 5: return layer(new ConcatenationLayer(), {ly::ct(S, w, h, M), ly::ct(S, w, h, x)}, r, kind);
        case 6: return layer(new SumLayer(), {ly::ct(S, w, h, M), ly::ct(S, w, h, M)}, r, kind);
        case 7: return layer(new GradientAccumulationLayer(x), one, r, kind);
        case 8: return layer(new SigmoidLayer(), one, r, kind);
        case 9: return layer(new TanhLayer(), one, r, kind);
        case 10: return layer(new ReLULayer(), one, r, kind);
        case 11: return layer(new SoftmaxLayer(), {ly::ct(S, w, 1, 1)}, r, kind);
        case 12: return layer(new LocalResponseNormalizationLayer(2 * x - 1, 0.5, 0.75, b1 ? LocalResponseNormalizationLayer::WITHIN_CHANNELS : LocalResponseNormalizationLayer::ACROSS_CHANNELS), one, r, kind);
        case 13: { F o; delete one[0]; Tensor A(1, w, h, S), B(1, h, M, S), C(1, M, w, S); tn::fill(A, r); tn::fill(B, r); tn::fill(C, r);
          TensorMath::GEMM(true, b1, b2, w, M, h, 1.5, A, 0, b1 ? w : h, B, 0, b2 ? h : M, z ? 0.5 : 0, C, 0, M); add(o, C);
          Tensor X(1, 40, 1, 1), Y(1, 40, 1, 1); tn::fill(X, r); tn::fill(Y, r); TensorMath::GEMV(true, b1, w, h, 1.5, A, 0, b1 ? w : h, X, 0, 1 + z, 0.5, Y, 0, x); add(o, Y); return o; }
        case 14: { F o; int ow = (w + 2 * z - x) / y + 1, oh = (h + 2 * z - x) / y + 1; Tensor& s = one[0]->data; tn::fill(s, r);
          if (w + 2 * z >= x && h + 2 * z >= x) { Tensor t(x * x * M, ow, oh, S); tn::fill(t, r); TensorMath::IM2COL(s, w, h, M, S, x, x, y, y, z, z, t); add(o, t); }
          Tensor u(s), d(s); tn::fill(u, r); TensorMath::ADD(s, u, d); add(o, d); TensorMath::ADD(s, u, u); add(o, u); delete one[0]; return o; }
        default: { F o; delete one[0]; ly::CV in{ly::ct(S, w, h, 1), ly::ct(S, w, h, 1), ly::ct(S, w, h, 1)}, out; NetStatus ns; BinaryStatLayer L(7 + z, -1, 1); if (!L.CreateOutputs(in, out) || !L.Connect(in, out, &ns)) return o;
          for (auto* t : in) tn::fill(t->data, r); for (auto* t : in) tn::filli(in[1]->data, r, 0, 1); L.FeedForward(); L.FeedForward();
          for (int i = 0; i < 7 + z; i++) for (datum* p : {L.true_positives_, L.true_negatives_, L.false_positives_, L.false_negatives_}) o.push_back(p[i]);
          for (auto* t : in) delete t;
          TensorStream* ts[2]; std::string path = g_scratch + "/c30";
          for (int t = 0; t < 2; t++) { std::ofstream f(path + str("%d", t), std::ios::binary); for (int i = 0; i < 2; i++) { Tensor a(1, 60 + w, 60 + h, 3), l(1, 60 + w, 60 + h, 2); tn::fill(a, r); tn::filli(l, r, 0, 2); a.Serialize(f); l.Serialize(f); } f.close(); ts[t] = new FloatTensorStream; ts[t]->LoadFile(path + str("%d", t)); }
          { TensorStreamDataset ds(ts[0], ts[1], 2, {"a", "b"}, {1, 2}, {0.5f, 2.0f}, [](unsigned x, unsigned y, unsigned w, unsigned h) -> datum { return x + y * 0.5f + w + h; });
            Tensor D(2, ds.GetWidth(), ds.GetHeight(), 3), Lb(2, ds.GetWidth(), ds.GetHeight(), 2), Hp(2, ds.GetWidth(), ds.GetHeight(), 2), Wt(2, ds.GetWidth(), ds.GetHeight(), 1);
            for (int i = 0; i < 2; i++) { bool a = i ? ds.GetTestingSample(D, Lb, Hp, Wt, b1, z % 2) : ds.GetTrainingSample(D, Lb, Hp, Wt, b1, z % 2); o.push_back(a); for (Tensor* t : {&D, &Lb, &Hp, &Wt}) add(o, *t); } }
          for (int t = 0; t < 2; t++) { delete ts[t]; unlink((path + str("%d", t)).c_str()); } for (int f = 3; f < 64; f++) close(f);
          return o; }
      }
    });
  }
  check(regions > 0, "no parallel region was entered");
  return finish();
}
