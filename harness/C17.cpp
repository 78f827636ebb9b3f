// C17: confusion matrix layer against an exact counting model, over histories of batches and resets
#include "ly.h"
#include <ConfusionMatrixLayer.h>
#include <StatAggregator.h>
#include <NetStatus.h>
using namespace vh;
int main(int c, char** v) {
  init(c, v); tn::init_system(); tn::Quiet q;
  Rng r(17); Conv::StatAggregator& A = *Conv::System::stat_aggregator; bool started = false;
  for (int k = 0; k < 500 * g_scale; k++) {
    int C = r.i(1, 8), S = r.i(1, 4), w = r.d(6), h = r.d(6); if (r.b(0.1)) C = r.i(9, 40);
    if (w * h * C > 20000) w = 3;
    vh::begin(str("#%d classes=%d %dx%d samples=%d", k, C, w, h, S));
    std::vector<std::string> names; for (int i = 0; i < C; i++) names.push_back(str("class number %d", i));
    size_t nd = A.stat_descriptors_.size(); Conv::ConfusionMatrixLayer* L = new Conv::ConfusionMatrixLayer(names, C);
    ly::CV in = {ly::ct(S, w, h, C), ly::ct(S, w, h, C), ly::ct(S, w, h, 1)}, out; Conv::NetStatus ns;
    if (!check(L->CreateOutputs(in, out) && out.empty() && L->Connect(in, out, &ns), "set up refused")) continue;
    if (!started) { A.Initialize(); started = true; }
    A.StartRecording();
    bool ok = true; static const char* NM[3] = {"Overall Recognition Rate", "Average Recognition Rate", "Average Intersection over Union"}; Conv::StatDescriptor* D[3];
    for (int z = 0; z < 3; z++) { D[z] = 0; for (size_t e = nd; e < A.stat_descriptors_.size(); e++) if (A.stat_descriptors_[e]->description == NM[z]) D[z] = A.stat_descriptors_[e]; ok = ok && check(D[z] != 0, str("no statistic is called %s", NM[z])) && check(D[z]->nullable && D[z]->unit == "%", str("unit or nullability of %s", NM[z])); }
    if (!ok) continue;
    std::vector<double> m(C * C, 0); double tot = 0, right = 0; bool disabled = false;
    auto inits = [&] { A.StopRecording(); for (auto* d : D) d->init_function(A.stats_[d->stat_id]); A.StartRecording(); };
    inits();
    int steps = r.i(1, 8); int shift = r.i(0, 2);
    for (int i = 0; i < steps && ok; i++) {
      int op = r.i(0, 9);
      if (op == 0) { L->Reset(); std::fill(m.begin(), m.end(), 0); tot = right = 0; }
      else if (op == 1) { disabled = !disabled; L->SetDisabled(disabled); }
      else if (op == 2) { inits(); std::fill(m.begin(), m.end(), 0); tot = right = 0; }
      else {
        for (int z = 0; z < 2; z++) tn::filli(in[z]->data, r, -3 - shift * 3, 3 - shift * 3);
        if (r.b(0.3)) tn::filli(in[1]->data, r, 0, 1);
        int wm = r.i(0, 2); for (size_t z = 0; z < in[2]->data.elements(); z++) in[2]->data.data_ptr()[z] = wm == 0 ? 1 : wm == 1 ? r.i(0, 1) : r.i(0, 12) / 4.0f;
        auto s0 = tn::snap(in[0]->data), s1 = tn::snap(in[1]->data), s2 = tn::snap(in[2]->data);
        L->FeedForward(); if (r.b(0.2)) L->BackPropagate();
        ok = check(tn::same(in[0]->data, s0) && tn::same(in[1]->data, s1) && tn::same(in[2]->data, s2), "inputs changed");
        if (!disabled) for (int s = 0; s < S; s++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
          int a = 0, b = 0; for (int z = 1; z < C; z++) { if (tn::at(in[0]->data, x, y, z, s) > tn::at(in[0]->data, x, y, a, s)) a = z; if (tn::at(in[1]->data, x, y, z, s) > tn::at(in[1]->data, x, y, b, s)) b = z; }
          double wt = tn::at(in[2]->data, x, y, 0, s); m[a * C + b] += wt; tot += wt; if (a == b) right += wt; }
      }
      for (int a = 0; ok && a < C; a++) { double pc = 0; for (int b = 0; b < C; b++) { pc += m[b * C + a]; ok = ok && check(close((double)L->matrix_[a * C + b], m[a * C + b], 1e-9), str("cell (predicted %d, true %d) is %g, expected %g after %d steps", a, b, (double)L->matrix_[a * C + b], m[a * C + b], i + 1)); }
        ok = ok && check(close((double)L->per_class_[a], pc, 1e-9), str("total of true class %d is %g, expected %g", a, (double)L->per_class_[a], pc)); }
      ok = ok && check(close((double)L->total_, tot, 1e-9) && close((double)L->right_, right, 1e-9), str("total %g right %g, expected %g %g", (double)L->total_, (double)L->right_, tot, right));
      if (ok && r.b(0.6)) {
        inits(); /* clears the layer too */ for (int z = 0; z < C * C; z++) L->matrix_[z] = m[z]; for (int b = 0; b < C; b++) { L->per_class_[b] = 0; for (int a = 0; a < C; a++) L->per_class_[b] += m[a * C + b]; } L->total_ = tot; L->right_ = right;
        L->UpdateAll();
        double arr = 0, n = 0, iou = 0;
        for (int t = 0; t < C; t++) { double pc = 0, row = 0; for (int z = 0; z < C; z++) { pc += m[z * C + t]; row += m[t * C + z]; } if (pc > 0) { arr += m[t * C + t] / pc; n++; } double u = pc + row - m[t * C + t]; if (u > 0) iou += m[t * C + t] / u; }
        Conv::Stat o[3]; for (int z = 0; z < 3; z++) o[z] = A.stats_[D[z]->stat_id];
        if (tot >= 1) {
          ok = check(!o[0].is_null && close(o[0].value, 100 * right / tot, 1e-9), str("overall rate %g, expected %g", o[0].value, 100 * right / tot))
            && check(!o[1].is_null && close(o[1].value, 100 * arr / n, 1e-9), str("mean class rate %g, expected %g", o[1].value, 100 * arr / n))
            && check(!o[2].is_null && close(o[2].value, 100 * iou / C, 1e-9), str("mean intersection over union %g, expected %g", o[2].value, 100 * iou / C));
        } else if (tot == 0) ok = check(o[0].is_null && o[1].is_null && o[2].is_null, "rates without samples");
      }
    }
    A.StopRecording();
    // the aggregator keeps the descriptors: neutralise them before the layer goes
    for (auto* d : D) d->init_function = [](Conv::Stat&) {};
    delete L; for (auto* t : in) delete t;
  }
  return finish();
}
