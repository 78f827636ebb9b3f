// C28: configuration text against an own reading of it (words, keys, values)
#include "ly.h"
#include "dsconf.h"
#include <ConfigParsing.h>
#include <LayerFactory.h>
#include <ConfigurableFactory.h>
#include <ConvolutionLayer.h>
#include <MaxPoolingLayer.h>
#include <AdvancedMaxPoolingLayer.h>
#include <ResizeLayer.h>
#include <GradientAccumulationLayer.h>
#include <HMaxActivationFunction.h>
#include <LocalResponseNormalizationLayer.h>
#include <UpscaleLayer.h>
#include <InputDownSamplingLayer.h>
#include <NonLinearityLayer.h>
#include <InputLayer.h>
#include <ErrorLayer.h>
#include <SumLayer.h>
#include <ConcatenationLayer.h>
#include <NetGraph.h>
#include <NetGraphNode.h>
using namespace vh;
typedef std::string S;
struct KV { S k, v; };
static const char* KEYS[] = {"size", "stride", "pad", "kernels", "group", "dropout", "llr", "seed", "size", "presize", "psize", "siz", "sizes", "l1", "l1_weight", "my_l1", "mu", "amu", "weight", "weights", "lr", "llr", "x", "e", "i"};
static S num(Rng& r) { return str("%d", r.b(0.2) ? r.i(0, 1999999999) : r.i(0, 40)); }
static S flt(Rng& r) { switch (r.i(0, 4)) { case 0: return num(r); case 1: return str("%.4f", r.f(0, 10)); case 2: return str("%.3e", r.f(0, 10)); case 3: return str("-%g", r.f(0, 10)); default: return str("0.%d", r.i(0, 99999)); } }
static S val(Rng& r) { switch (r.i(0, 5)) { case 0: return flt(r); case 1: return num(r) + "x" + num(r); case 2: return num(r); case 3: { S s; for (int n = r.i(1, 9); n > 0; n--) s += "abcxyz019._"[r.i(0, 10)]; return s; } case 4: return S("x") + num(r); default: return num(r) + "x"; } }
static S join(const std::vector<KV>& p) { S s; for (size_t k = 0; k < p.size(); k++) s += (k ? " " : "") + p[k].k + "=" + p[k].v; return s; }
// the value of the first word that is exactly key=...
static const S* get(const std::vector<KV>& p, const S& key) { for (auto& q : p) if (q.k == key) return &q.v; return nullptr; }
static std::vector<KV> some(Rng& r, int hi = 6) { std::vector<KV> p; for (int n = r.i(0, hi); n > 0; n--) p.push_back({KEYS[r.i(0, 24)], val(r)}); return p; }
static bool digits(const S& s) { return s.size() && s.find_first_not_of("0123456789") == S::npos; }
static float tofloat(const S& s) { std::stringstream ss; ss << s; float f = 0; ss >> f; return f; }
static void params(Rng& r) {
  auto p = some(r); S line = join(p), key = KEYS[r.i(0, 24)]; if (r.b(0.2)) line = S(r.b() ? "convolutional" : "amaxpooling") + (line.size() ? " " : "") + line;
  begin(str("parameter %s of the line '%s'", key.c_str(), line.c_str())); const S* v = get(p, key);
  S s = "kept"; Conv::ParseStringParamIfPossible(line, key, s); if (!check(s == (v ? *v : "kept"), "string is '" + s + "'")) return;
  unsigned int u = 4711; Conv::ParseCountIfPossible(line, key, u); if (!v || digits(*v)) check(u == (v ? (unsigned)atoi(v->c_str()) : 4711), str("count is %u", u));
  float d = -47.25f; Conv::ParseDatumParamIfPossible(line, key, d); if (!v) check(d == -47.25f, str("number is %g without being stated", d)); else if (isdigit((*v)[0]) || (*v)[0] == '-') check(d == tofloat(*v), str("number is %.9g, expected %.9g", d, tofloat(*v)));
  unsigned int kx = 47, ky = 11; Conv::ParseKernelSizeIfPossible(line, key, kx, ky); size_t x = v ? v->find('x') : S::npos;
  if (x == S::npos) check(kx == 47 && ky == 11, str("size is %ux%u without being stated", kx, ky));
  else if (digits(v->substr(0, x)) && digits(v->substr(x + 1))) check(kx == (unsigned)atoi(v->substr(0, x).c_str()) && ky == (unsigned)atoi(v->substr(x + 1).c_str()), str("size is %ux%u", kx, ky));
}
static void lines(Rng& r) {
  S k = KEYS[r.i(0, 24)], key = r.b(0.4) ? k : S(KEYS[r.i(0, 24)]), v = r.b(0.1) ? "" : val(r); int how = r.i(0, 9);
  S line = how == 0 ? "" : how == 1 ? k : how == 2 ? " " + k + "=" + v : how == 3 ? k.substr(0, k.size() - 1) : k + "=" + v; bool is = line.compare(0, key.size() + 1, key + "=") == 0;
  begin(str("setting %s of the line '%s'", key.c_str(), line.c_str())); S w = is ? line.substr(key.size() + 1) : "";
  check(Conv::StartsWithIdentifier(line, key) == (line.compare(0, key.size(), key) == 0), "StartsWithIdentifier");
  S s = "kept"; Conv::ParseStringIfPossible(line, key, s); if (!check(s == (is ? w : "kept"), "string is '" + s + "'")) return;
  unsigned int u = 4711; Conv::ParseUIntIfPossible(line, key, u); if (!is || digits(w)) check(u == (is ? (unsigned)atoi(w.c_str()) : 4711), str("integer is %u", u));
  float d = -47.25f; Conv::ParseDatumIfPossible(line, key, d); if (!is) check(d == -47.25f, str("number is %g without being stated", d)); else if (w.size() && (isdigit(w[0]) || w[0] == '-')) check(d == tofloat(w), str("number is %.9g, expected %.9g", d, tofloat(w)));
}
// name [ ( [ key=value { space key=value } ] ) ]
static bool valid(const S& t) {
  size_t i = 0, n = t.size(); auto run = [&](const char* set) { size_t b = i; while (i < n && strchr(set, t[i])) i++; return i > b; };
  const char *lo = "abcdefghijklmnopqrstuvwxyz", *an = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.";
  if (!run(lo)) return false; if (i == n) return true; if (t[i++] != '(') return false; if (i == n - 1) return t[i] == ')';
  for (;;) { if (!run(lo) || i >= n || t[i++] != '=' || !run(an) || i >= n) return false; if (t[i] == ')') return i == n - 1; if (t[i++] != ' ') return false; }
}
static const char* TYPES[] = {"convolution", "maxpooling", "amaxpooling", "tanh", "sigm", "relu", "gradientaccumulation", "resize", "hmax", "lrn", "maxpoolin", "maxpoolings", "conv", "a"};
static S descriptor(Rng& r, S& type, std::vector<KV>& p) {
  type = TYPES[r.i(0, 13)]; p.clear(); std::set<S> seen; static const char* DK[] = {"size", "stride", "pad", "kernels", "group", "dropout", "llr", "border", "outputs", "mu", "weight", "unused", "asize", "pads"};
  for (int n = r.i(0, 7); n > 0; n--) { S k = DK[r.i(0, 13)]; if (!seen.insert(k).second) continue; bool two = k == "size" || k == "stride" || k == "pad" || k == "border" || k == "asize" || k == "pads", f = k == "dropout" || k == "llr" || k == "mu" || k == "weight";
    p.push_back({k, two ? str("%dx%d", r.i(1, 30), r.i(1, 30)) : f ? str("%.3f", r.f(0.001, 3)) : str("%d", r.i(1, 30))}); }
  return type + (p.empty() && r.b() ? "" : "(" + join(p) + ")");
}
static void factory(Rng& r) {
  S type; std::vector<KV> p; S t = descriptor(r, type, p); bool bad = r.b(0.4);
  if (bad) for (int n = r.i(1, 2); n > 0; n--) { static const char C[] = "()= aA0.x_-\\\n,="; size_t at = r.i(0, t.size()); if (r.b(0.4) && at < t.size()) t.erase(at, 1); else t.insert(at, 1, C[r.i(0, 14)]); }
  begin("layer description '" + t + "'"); bool ok = valid(t);
  if (!check(Conv::LayerFactory::IsValidDescriptor(t) == ok, ok ? "rejected" : "accepted though malformed")) return;
  if (ok) { size_t b = t.find('('); S ty = t.substr(0, b), cf = b == S::npos ? "" : t.substr(b + 1, t.size() - b - 2);
    check(Conv::LayerFactory::ExtractLayerType(t) == ty, "type is " + Conv::LayerFactory::ExtractLayerType(t)); check(Conv::LayerFactory::ExtractConfiguration(t) == cf, "configuration is " + Conv::LayerFactory::ExtractConfiguration(t));
    if (bad) { type = ty; p.clear(); std::stringstream ss(cf); S w; while (ss >> w) p.push_back({w.substr(0, w.find('=')), w.substr(w.find('=') + 1)}); } }
  for (auto& q : p) if (bad && (q.k == "border" || q.k == "size" || q.k == "stride" || q.k == "pad" || q.k == "kernels" || q.k == "group" || q.k == "outputs" || q.k == "dropout" || q.k == "llr" || q.k == "mu" || q.k == "weight")) { if (q.v.find_first_not_of("0123456789x") != S::npos || q.v.size() > 6) return; }
  Conv::Layer* l = Conv::LayerFactory::ConstructLayer(t); int kind = -1; for (int k = 0; k < 9; k++) if (ok && type == TYPES[k]) kind = k;
  if (!check((l != nullptr) == (kind >= 0), l ? "a layer was created" : "no layer was created") || !l) return;
  auto two = [&](const char* key, unsigned dx, unsigned dy, unsigned gx, unsigned gy) { const S* v = get(p, key); size_t x = v ? v->find('x') : S::npos; if (x != S::npos) { if (bad && !(digits(v->substr(0, x)) && digits(v->substr(x + 1)))) return; dx = atoi(v->substr(0, x).c_str()); dy = atoi(v->substr(x + 1).c_str()); } check(dx == gx && dy == gy, str("%s is %ux%u, expected %ux%u", key, gx, gy, dx, dy)); };
  auto one = [&](const char* key, unsigned d, unsigned g) { const S* v = get(p, key); if (v) { if (bad && !digits(*v)) return; d = atoi(v->c_str()); } check(d == g, str("%s is %u, expected %u", key, g, d)); };
  auto f = [&](const char* key, float d, float g) { const S* v = get(p, key); if (v) { if (bad && !digits(*v)) return; d = tofloat(*v); } check(d == g, str("%s is %g, expected %g", key, g, d)); };
  bool cast = true;
  switch (kind) {
  case 0: if (auto* c = dynamic_cast<Conv::ConvolutionLayer*>(l)) { two("size", 0, 0, c->kernel_width_, c->kernel_height_); two("stride", 1, 1, c->stride_width_, c->stride_height_); two("pad", 0, 0, c->pad_width_, c->pad_height_); one("kernels", 0, c->output_maps_); one("group", 1, c->group_); f("dropout", 0, c->dropout_fraction_); f("llr", 1, c->local_lr_); } else cast = false; break;
  case 1: if (auto* c = dynamic_cast<Conv::MaxPoolingLayer*>(l)) two("size", 1, 1, c->region_width_, c->region_height_); else cast = false; break;
  case 2: if (auto* c = dynamic_cast<Conv::AdvancedMaxPoolingLayer*>(l)) { two("size", 1, 1, c->region_width_, c->region_height_); two("stride", c->region_width_, c->region_height_, c->stride_width_, c->stride_height_); } else cast = false; break;
  case 3: cast = dynamic_cast<Conv::TanhLayer*>(l) != 0; break;
  case 4: cast = dynamic_cast<Conv::SigmoidLayer*>(l) != 0; break;
  case 5: cast = dynamic_cast<Conv::ReLULayer*>(l) != 0; break;
  case 6: if (auto* c = dynamic_cast<Conv::GradientAccumulationLayer*>(l)) one("outputs", 0, c->output_count_); else cast = false; break;
  case 7: if (auto* c = dynamic_cast<Conv::ResizeLayer*>(l)) two("border", 0, 0, c->borderx_, c->bordery_); else cast = false; break;
  case 8: if (auto* c = dynamic_cast<Conv::HMaxActivationFunction*>(l)) { f("mu", 1, c->mu_); f("weight", 0, c->loss_weight_); } else cast = false; break;
  }
  check(cast, "a layer of another type was created"); if (kind != 8) delete l;
}
// the seed that a description states decides about the weights
static std::vector<float> weights(const S& t, int in) {
  auto* l = Conv::LayerFactory::ConstructLayer(t); if (!l) return {}; ly::Run R(l, {ly::ct(1, 6, 6, in)}); if (!R.connected) return {}; l->OnLayerConnect({}); auto v = tn::snap(l->parameters()[0]->data), b = tn::snap(l->parameters()[1]->data); v.insert(v.end(), b.begin(), b.end()); return v;
}
static void seeds(Rng& r) {
  int a = r.i(1, 30000), b = r.i(1, 30000), kw = r.i(1, 4), kh = r.i(2, 4), n = r.i(2, 4), in = r.i(1, 3); bool stated = r.b(), first = r.b(); S base = str("size=%dx%d kernels=%d", kw, kh, n);
  S t = "convolution(" + (stated ? (first ? str("seed=%d ", b) + base : base + str(" seed=%d", b)) : base) + ")"; begin("seed of '" + t + str("' becomes %d", a)); if (r.b(0.2)) { t = "tanh"; stated = false; }
  S u = Conv::LayerFactory::InjectSeed(t, a), exp = t == "tanh" ? str("tanh(seed=%d)", a) : !stated ? "convolution(" + base + str(" seed=%d)", a) : "convolution(" + (first ? str("seed=%d ", a) + base : base + str(" seed=%d", a)) + ")";
  if (!check(u == exp, "description became " + u) || t == "tanh") return;
  auto w = weights(u, in), w2 = weights("convolution(" + base + str(" seed=%d)", a), in), dflt = weights("convolution(" + base + ")", in), dflt0 = weights("convolution(seed=0 " + base + ")", in); if (!check(w.size() == (size_t)(kw * kh * n * in + n), str("layer has %zu weights", w.size()))) return;
  if (w == dflt && w2 == dflt && w == dflt0) { known("seed-ignored", "the weights do not depend on the seed"); return; }
  check(w == w2, "equal seeds, different weights"); if (a != b) check(w != weights("convolution(" + base + str(" seed=%d)", b), in), "different seeds, equal weights");
}
static void settings(Rng& r) {
  struct T { const char* k; float Conv::TrainerSettings::* d; unsigned int Conv::TrainerSettings::* u; }; typedef Conv::TrainerSettings Z;
  static const T TT[] = {{"l1", &Z::l1_weight, 0}, {"l2", &Z::l2_weight, 0}, {"lr", &Z::learning_rate, 0}, {"gamma", &Z::gamma, 0}, {"momentum", &Z::momentum, 0}, {"exponent", &Z::exponent, 0}, {"eta", &Z::eta, 0}, {"mu", &Z::mu, 0}, {"iterations", 0, &Z::iterations}, {"sbatchsize", 0, &Z::sbatchsize}, {"pbatchsize", 0, &Z::pbatchsize}};
  Z e; S text; int n = r.i(0, 20);
  for (int k = 0; k < n; k++) {
    int how = r.i(0, 9); const T& t = TT[r.i(0, 10)]; S v = t.d ? (r.b() ? str("%.5f", r.f(0, 3)) : str("%.3e", r.f(0, 3))) : str("%d", r.i(0, 5000)), line;
    if (how == 0) line = S("#") + t.k + "=" + v; else if (how == 1) line = S(t.k) + (r.b() ? "_x=" : "x=") + v; else if (how == 2) line = r.b() ? "" : t.k; else if (how == 3) line = S("?convolutional size=3x3 ") + t.k + "=" + v; else if (how == 4) { bool q = r.b(); line = S("optimization=") + (q ? "quickprop" : "gradient_descent"); e.optimization_method = q ? Conv::QUICKPROP : Conv::GRADIENT_DESCENT; }
    else { line = S(t.k) + "=" + v; if (t.d) e.*t.d = tofloat(v); else e.*t.u = atoi(v.c_str()); }
    text += line + (k == n - 1 && r.b() ? "" : "\n");
  }
  S shown = text; std::replace(shown.begin(), shown.end(), '\n', '|'); begin("training settings of '" + shown + "'");
  std::istringstream is(text); Conv::ConfigurableFactory F(is, 1, r.b()); F.InitOptimalSettings(); Z g = F.optimal_settings();
  for (auto& t : TT) { if (t.d) check(g.*t.d == e.*t.d, str("%s is %.9g, expected %.9g", t.k, g.*t.d, e.*t.d)); else check(g.*t.u == e.*t.u, str("%s is %u, expected %u", t.k, g.*t.u, e.*t.u)); }
  check(g.optimization_method == e.optimization_method && g.epoch_training_ratio == Z().epoch_training_ratio && g.testing_ratio == Z().testing_ratio && g.stats_during_training == Z().stats_during_training, "method or a setting without a key");
}
struct Want { int kind; std::vector<double> p; };
static void network(Rng& r) {
  static std::set<Conv::HMaxActivationFunction*> keep; int classes = r.i(1, 9), n = r.i(1, 7); bool patch = r.b(); S text = patch ? "# net\n?method=patch\n" : ""; std::vector<Want> want; std::vector<S> parts;
  auto shuffle = [&](S name, std::vector<S> q) { std::shuffle(q.begin(), q.end(), r.g); S s = "?" + name; for (auto& x : q) s += " " + x; return s; };
  auto dim = [&](const char* k, int a, int b) { return str("%s=%dx%d", k, a, b); }; auto cnt = [&](const char* k, int a) { return str("%s=%d", k, a); }; auto num_ = [&](const char* k, double a) { return str("%s=%.3f", k, a); };
  auto q3 = [&] { return r.i(1, 3000) / 1000.0; }; double fx = 1, fy = 1;
  for (int k = 0; k < n; k++) {
    int kind = r.i(0, 9); std::vector<S> q; Want w; w.kind = kind; int a = r.i(1, 5), b = r.i(1, 5), c = r.i(1, 4), d = r.i(1, 4), e = r.i(0, 2), f = r.i(0, 2), m = r.i(1, 20), g = r.i(1, 3); double x = q3(), y = q3(); bool o = r.b(0.3);
    if (r.b(0.15)) text += "# ?maxpooling size=9x9\n"; if (r.b(0.1)) text += "\n";
    if (kind == 0) { bool st = r.b(), pd = r.b(), gr = r.b(), dr = r.b(), lr = r.b(); if (gr) o ? g = 1 : m *= g; q = {dim("size", a, b), o ? "kernels=(o)" : cnt("kernels", m)}; if (st) q.push_back(dim("stride", c, d)); if (pd) q.push_back(dim("pad", e, f)); if (gr) q.push_back(cnt("group", g)); if (dr) q.push_back(num_("dropout", x)); if (lr) q.push_back(num_("llr", y));
      w.p = {(double)a, (double)b, st ? c : 1., st ? d : 1., pd ? e : 0., pd ? f : 0., o ? classes : (double)m, gr ? g : 1., dr ? x : 0, lr ? y : 1}; text += shuffle("convolutional", q); if (st) { fx *= c; fy *= d; } }
    if (kind == 1) { bool lr = r.b(); w.kind = 0; q = {o ? "neurons=(o)" : cnt("neurons", m)}; if (lr) q.push_back(num_("llr", y)); w.p = {1, 1, 1, 1, 0, 0, o ? classes : (double)m, 1, 0, lr ? y : 1}; text += shuffle("fullyconnected", q); }
    if (kind == 2) { text += shuffle("maxpooling", {dim("size", a, b)}); w.p = {(double)a, (double)b}; fx *= a; fy *= b; }
    if (kind == 3) { bool st = r.b(); q = {dim("size", a, b)}; if (st) q.push_back(dim("stride", c, d)); text += shuffle("amaxpooling", q); w.p = {(double)a, (double)b, st ? c : (double)a, st ? d : (double)b}; fx *= st ? c : a; fy *= st ? d : b; }
    if (kind == 4) { bool within = r.b(); q = {S("method=") + (within ? "within" : "across"), cnt("size", m), num_("alpha", x), num_("beta", y)}; text += shuffle("lrn", q); w.p = {(double)m, x, y, (double)within}; }
    if (kind == 5) { bool mu = r.b(), wt = r.b(); if (mu) q.push_back(num_("mu", x)); if (wt) q.push_back(num_("weight", y)); text += shuffle("hmax", q); w.p = {mu ? x : 1, wt ? y : 0}; }
    if (kind == 6) { text += shuffle("upscale", {dim("factor", a, b)}); w.p = {(double)a, (double)b}; }
    if (kind == 7) { text += shuffle("downsampling", {dim("size", a, b)}); w.p = {(double)a, (double)b}; fx *= a; fy *= b; }
    if (kind >= 8) { w.kind = 8 + r.i(0, 2); text += w.kind == 8 ? "?tanh" : w.kind == 9 ? "?sigm" : "?relu"; }
    text += "\n"; want.push_back(w);
  }
  S shown = text; std::replace(shown.begin(), shown.end(), '\n', '|'); begin(str("network of %d classes: '", classes) + shown + "'"); if (fx > 1e6 || fy > 1e6) return;
  static std::stringstream sink; std::istringstream is(text); Conv::ConfigurableFactory F(is, r.i(1, 9999), true); Conv::NetGraph net; Conv::Tensor d0; d0.Resize(1, 4, 4, 3); auto* in = new Conv::NetGraphNode(new Conv::InputLayer(d0)); in->is_input = true; net.AddNode(in);
  if (!check((F.method() == Conv::PATCH) == patch, "method")) return;
  F.AddLayers(net, Conv::NetGraphConnection(in), classes, false); std::vector<Conv::NetGraphNode*> ns; for (auto* x : net.GetNodes()) if (x != in && !dynamic_cast<Conv::ResizeLayer*>(x->layer)) ns.push_back(x);
  if (!check(ns.size() == want.size(), str("%zu layers, expected %zu", ns.size(), want.size()))) return;
  auto cmp = [&](size_t k, const char* nm, std::vector<double> g) { S ds; bool ok = g.size() == want[k].p.size(); for (size_t j = 0; ok && j < g.size(); j++) { ok = (float)g[j] == (float)want[k].p[j]; ds += str(" %g(%g)", g[j], want[k].p[j]); } check(ok, str("layer %zu, %s: parameters", k, nm) + ds + " (expected)"); };
  for (size_t k = 0; k < ns.size(); k++) {
    auto* L = ns[k]->layer; bool ok = true;
    if (k) check(ns[k]->input_connections.size() == 1 && ns[k]->input_connections[0].node == ns[k - 1] && ns[k]->input_connections[0].buffer == 0 && ns[k]->input_connections[0].backprop == (want[k - 1].kind != 7), str("layer %zu is not fed by the one before it", k));
    switch (want[k].kind) {
    case 0: if (auto* c = dynamic_cast<Conv::ConvolutionLayer*>(L)) cmp(k, "convolution", {(double)c->kernel_width_, (double)c->kernel_height_, (double)c->stride_width_, (double)c->stride_height_, (double)c->pad_width_, (double)c->pad_height_, (double)c->output_maps_, (double)c->group_, c->dropout_fraction_, c->local_lr_}); else ok = false; break;
    case 2: if (auto* c = dynamic_cast<Conv::MaxPoolingLayer*>(L)) cmp(k, "max-pooling", {(double)c->region_width_, (double)c->region_height_}); else ok = false; break;
    case 3: if (auto* c = dynamic_cast<Conv::AdvancedMaxPoolingLayer*>(L)) cmp(k, "advanced max-pooling", {(double)c->region_width_, (double)c->region_height_, (double)c->stride_width_, (double)c->stride_height_}); else ok = false; break;
    case 4: if (auto* c = dynamic_cast<Conv::LocalResponseNormalizationLayer*>(L)) cmp(k, "normalisation", {(double)c->size_, c->alpha_, c->beta_, c->normalization_method_ == Conv::LocalResponseNormalizationLayer::WITHIN_CHANNELS ? 1. : 0.}); else ok = false; break;
    case 5: if (auto* c = dynamic_cast<Conv::HMaxActivationFunction*>(L)) cmp(k, "hmax", {c->mu_, c->loss_weight_}); else ok = false; break;
    case 6: if (auto* c = dynamic_cast<Conv::UpscaleLayer*>(L)) cmp(k, "up-scaling", {(double)c->region_width_, (double)c->region_height_}); else ok = false; break;
    case 7: if (auto* c = dynamic_cast<Conv::InputDownSamplingLayer*>(L)) cmp(k, "down-sampling", {(double)c->region_width_, (double)c->region_height_}); else ok = false; break;
    case 8: ok = dynamic_cast<Conv::TanhLayer*>(L) != 0; break; case 9: ok = dynamic_cast<Conv::SigmoidLayer*>(L) != 0; break; case 10: ok = dynamic_cast<Conv::ReLULayer*>(L) != 0; break;
    }
    check(ok, str("layer %zu is of another type than the one stated", k));
  }
}
// which layer feeds which: stacks, border, up-scaling, output and loss of a network file
static void topology(Rng& r) {
  struct C { int node; unsigned buf; bool bp; }; struct N { S type; std::vector<C> in; bool out; double p, q; }; std::vector<N> want; std::vector<C> st[2]; C last{-1, 0, false};
  int classes = r.i(1, 4), n = r.i(2, 12), fx = 1, fy = 1, rx = 0, ry = 0; bool patch = r.b(0.3), training = r.b(0.8), loss = r.b(), manual = r.b(0.25), have = false; if (!training) patch = false; S text = r.b(0.3) || patch ? S("# net\n?method=") + (patch ? "patch" : training ? "fcn" : "patch") + "\n" : ""; std::vector<S> body; std::vector<std::function<void()>> run;
  auto add = [&](N x) { want.push_back(x); last = C{(int)want.size() - 1, 0, true}; }; std::function<bool()> up_ = [&] { return fx == 1 && fy == 1; }; bool up = false;
  auto one = [&](const char* t, double p = 0, double q = 0) { add(N{t, {last}, false, p, q}); };
  int mx = 0, my = 0, mfx = 1, mfy = 1; if (manual) { mx = r.i(1, 40); my = r.i(1, 40); mfx = r.i(1, 4); mfy = r.i(1, 4); std::vector<S> q = {str("rfx=%d", mx), str("rfy=%d", my), str("factorx=%d", mfx), str("factory=%d", mfy)}; std::shuffle(q.begin(), q.end(), r.g); S l = "manual"; for (auto& x : q) l += " " + x; text += l + "\n"; }
  size_t depth[2] = {0, 0};
  for (int k = 0; k < n; k++) {
    int kind = r.i(0, 9), w = r.b(), a = r.i(1, 4), b = r.i(1, 4), c = r.i(1, 3), d = r.i(1, 3), e = r.b(0.3) ? r.i(0, 1) : 0, f = r.b(0.3) ? r.i(0, 1) : 0; S sn = w ? "b" : "a";
    if (kind <= 1) { bool sd = r.b(); text += str("?convolutional size=%dx%d kernels=2", a, b) + (sd ? str(" stride=%dx%d", c, d) : "") + (e || f ? str(" pad=%dx%d", e, f) : "") + "\n"; rx += fx * (a - 1 - 2 * e); ry += fy * (b - 1 - 2 * f); if (sd) { fx *= c; fy *= d; } run.push_back([=] { one("conv", a, b); }); }
    else if (kind == 2) { text += str("?maxpooling size=%dx%d\n", c, d); fx *= c; fy *= d; run.push_back([=] { one("mp", c, d); }); }
    else if (kind == 3) { bool sd = r.b(); text += str("?amaxpooling size=%dx%d", a, b) + (sd ? str(" stride=%dx%d", c, d) : "") + "\n"; rx += fx * (a - 1); ry += fy * (b - 1); fx *= sd ? c : a; fy *= sd ? d : b; run.push_back([=] { one("amp", a, b); }); }
    else if (kind == 4) { text += "?relu\n"; run.push_back([=] { one("relu"); }); }
    else if (kind <= 6) { text += "push" + sn + "\n"; depth[w]++; run.push_back([&st, &last, w] { st[w].push_back(last); }); }
    else if (kind == 7 && depth[w]) { text += "pop" + sn + "\n"; depth[w]--; run.push_back([&st, &last, w] { last = st[w].back(); st[w].pop_back(); }); }
    else if (kind >= 8 && depth[w]) { bool sum = kind == 8; text += S(sum ? "?sum" : "?concat") + (w || r.b() ? " stack=" + sn : "") + "\n"; run.push_back([&st, &add, w, sum] { add(N{sum ? "sum" : "cat", std::vector<C>(st[w].rbegin(), st[w].rend()), false, 0, 0}); }); }
    else if (kind == 9 && r.b(0.4)) { text += "?spatialprior\n"; run.push_back([&] { if (!up && !patch) { one("up", fx, fy); up = true; } add(N{"cat", {last, C{-1, 2, false}}, false, 0, 0}); }); }
    if (fx > 400 || fy > 400) break;
  }
  if (r.b(0.8)) { have = true; bool wt = r.b(); float lw = 1; if (wt) { S t = str("%.3f", r.i(1, 4000) / 1000.0); lw = tofloat(t); text += "?output weight=" + t; } else text += "?output"; if (r.b()) text += "\n";
    run.push_back([&, lw] { add(N{classes == 1 ? "tanh" : "sigm", {last}, patch || up, 0, 0}); if (!up && !patch) add(N{"up", {last}, true, (double)fx, (double)fy}); if (loss) { C l = last; want.push_back(N{"loss", {l, C{-1, 1, false}, C{-1, 3, false}}, false, lw, 0}); } }); }
  S shown = text; std::replace(shown.begin(), shown.end(), '\n', '|'); begin(str("structure of a network of %d classes%s%s: '", classes, loss ? " with loss" : "", training ? "" : ", not for training") + shown + "'");
  if (manual) { rx = mx; ry = my; fx = mfx; fy = mfy; } int px = rx + (patch ? fx : 0), py = ry + (patch ? fy : 0); up = up_();
  if (!patch && rx > 0 && ry > 0) { add(N{"border", {last}, false, (double)rx, (double)ry}); last.bp = false; } for (auto& x : run) x(); (void)have;
  std::istringstream is(text); Conv::ConfigurableFactory F(is, r.i(1, 9999), training); if (!check((F.method() == Conv::PATCH) == patch, "method") || !check(F.patchsizex() == px && F.patchsizey() == py, str("receptive field %dx%d, expected %dx%d", F.patchsizex(), F.patchsizey(), px, py))) return;
  Conv::NetGraph net; Conv::Tensor d0(1, 4, 4, 3), d1(1, 4, 4, 1), d2(1, 4, 4, 2), d3(1, 4, 4, 1); auto* in = new Conv::NetGraphNode(new Conv::InputLayer(d0, d1, d2, d3)); in->is_input = true; net.AddNode(in);
  F.AddLayers(net, Conv::NetGraphConnection(in), classes, loss); auto ns = net.GetNodes(); ns.erase(ns.begin()); if (!check(ns.size() == want.size(), str("%zu layers, expected %zu", ns.size(), want.size()))) return;
  for (size_t k = 0; k < ns.size(); k++) {
    N& w = want[k]; auto* L = ns[k]->layer; double p = 0, q = 0; S t = "?";
    if (auto* c = dynamic_cast<Conv::ConvolutionLayer*>(L)) { t = "conv"; p = c->kernel_width_; q = c->kernel_height_; } else if (auto* c = dynamic_cast<Conv::MaxPoolingLayer*>(L)) { t = "mp"; p = c->region_width_; q = c->region_height_; } else if (auto* c = dynamic_cast<Conv::AdvancedMaxPoolingLayer*>(L)) { t = "amp"; p = c->region_width_; q = c->region_height_; }
    else if (auto* c = dynamic_cast<Conv::UpscaleLayer*>(L)) { t = "up"; p = c->region_width_; q = c->region_height_; } else if (auto* c = dynamic_cast<Conv::ResizeLayer*>(L)) { t = "border"; p = c->borderx_; q = c->bordery_; } else if (auto* c = dynamic_cast<Conv::ErrorLayer*>(L)) { t = "loss"; p = c->loss_weight_; }
    else if (dynamic_cast<Conv::SumLayer*>(L)) t = "sum"; else if (dynamic_cast<Conv::ConcatenationLayer*>(L)) t = "cat"; else if (dynamic_cast<Conv::ReLULayer*>(L)) t = "relu"; else if (dynamic_cast<Conv::TanhLayer*>(L)) t = "tanh"; else if (dynamic_cast<Conv::SigmoidLayer*>(L)) t = "sigm";
    if (!check(t == w.type && (float)p == (float)w.p && (float)q == (float)w.q, str("layer %zu is %s %gx%g, expected %s %gx%g", k, t.c_str(), p, q, w.type.c_str(), w.p, w.q)) || !check(ns[k]->is_output == w.out, str("layer %zu: output flag", k)) || !check(ns[k]->input_connections.size() == w.in.size(), str("layer %zu: number of inputs", k))) return;
    for (size_t j = 0; j < w.in.size(); j++) { auto& g = ns[k]->input_connections[j]; C x = w.in[j]; if (x.node < 0) x.bp = false; if (!check(g.node == (x.node < 0 ? in : ns[x.node]) && g.buffer == x.buf && g.backprop == x.bp, str("layer %zu: input %zu", k, j))) return; }
  }
}
int main(int c, char** v) {
  init(c, v); tn::Quiet q; tn::init_system(); Rng r(28);
  for (int k = 0; k < 1500 * g_scale; k++) { params(r); lines(r); params(r); lines(r); factory(r); if (k % 3 == 0) { seeds(r); settings(r); network(r); topology(r); dsconf(r, k % 2, false); } q.s.str(""); }
  return finish();
}
