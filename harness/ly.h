// drives one layer through the public interface: CreateOutputs, Connect, FeedForward, BackPropagate
#pragma once
#include "tn.h"
#include <NetStatus.h>
#include <Layer.h>
namespace ly {
using namespace vh;
typedef std::vector<CombinedTensor*> CV;
struct Run {
  Conv::Layer* l; CV in, out; Conv::NetStatus st; bool created = false, connected = false;
  Run(Conv::Layer* layer, CV inputs) : l(layer), in(inputs) {
    created = l->CreateOutputs(in, out);
    if (created) connected = l->Connect(in, out, &st);
  }
  // garbage in everything the layer has to write
  void dirty(Rng& r, bool outputs = true) {
    for (auto* t : in) tn::fill(t->delta, r, -9, 9);
    if (outputs) for (auto* t : out) tn::fill(t->data, r, -9, 9);
  }
  ~Run() { delete l; for (auto* t : in) delete t; for (auto* t : out) delete t; }
};
struct Dim { int S, w, h, M; };
inline CombinedTensor* ct(int S, int w, int h, int M) { return new CombinedTensor(S, w, h, M); }
inline CombinedTensor* ct(const Dim& d) { return ct(d.S, d.w, d.h, d.M); }
// a configuration that never fits: the constructor, CreateOutputs or Connect has to say so
template <class F> void nofit(F make, Dim d, const char* what) {
  Conv::Layer* l = nullptr; CV in{ct(d)}, out; Conv::NetStatus st; bool a = true;
  try { l = make(); a = l->CreateOutputs(in, out) && l->Connect(in, out, &st); } catch (std::exception&) { a = false; }
  check(!a, what); delete l; for (auto* t : in) delete t; for (auto* t : out) delete t;
}
// what a layer has to refuse when it is set up: missing, superfluous and null inputs, and outputs of another count or shape
template <class F> void refusals(Rng& r, F make, std::vector<Dim> dims, bool connect_null = true, bool bigger_out = false, bool create_null = true) {
  int how = r.i(0, 7), n = dims.size(); CV in, out; Conv::NetStatus st; size_t k = r.i(0, n - 1);
  for (auto& d : dims) in.push_back(ct(d));
  Conv::Layer* l = make(); CombinedTensor* keep = in[k];
  if (how == 0 && create_null) { in[k] = nullptr; check(!l->CreateOutputs(in, out) && out.empty(), str("null input %zu accepted", k)); in[k] = keep; }
  else if (how == 1 && n) { in.pop_back(); check(!l->CreateOutputs(in, out) && out.empty(), "missing input accepted"); in.push_back(ct(dims[n - 1])); }
  else if (how == 2) { in.push_back(ct(dims[k])); check(!l->CreateOutputs(in, out) && out.empty(), "superfluous input accepted"); }
  else if (check(l->CreateOutputs(in, out), "fitting inputs rejected")) {
    if (how == 3 && connect_null) { in[k] = nullptr; check(!l->Connect(in, out, &st), "connected to a null input"); in[k] = keep; }
    else if (how == 4 && out.size()) { size_t j = r.i(0, out.size() - 1); auto* o = out[j]; out[j] = nullptr; check(!l->Connect(in, out, &st), "connected to a null output"); out[j] = o; }
    else if (how == 5) { out.push_back(ct(dims[0])); check(!l->Connect(in, out, &st), "connected to a superfluous output"); }
    else if (how == 6 && out.size()) { auto* o = out.back(); out.pop_back(); check(!l->Connect(in, out, &st), "connected with a missing output"); out.push_back(o); }
    else if (how == 7 && out.size() && bigger_out) { size_t j = r.i(0, out.size() - 1), e = r.i(0, 3); auto& t = out[j]->data; int old[4] = {(int)t.samples(), (int)t.width(), (int)t.height(), (int)t.maps()}, by = old[e] > 1 && r.b() ? -1 : 1; old[e] += by; Dim d{old[0], old[1], old[2], old[3]};
      delete out[j]; out[j] = ct(d); check(!l->Connect(in, out, &st), str("connected to an output that is %s than its own in dimension %zu", by > 0 ? "larger" : "smaller", e)); }
  }
  delete l; for (auto* t : in) delete t; for (auto* t : out) delete t;
}
}
