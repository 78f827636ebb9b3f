// C18: binary statistics layer against an exact counting model
#include "ly.h"
#include <BinaryStatLayer.h>
#include <StatAggregator.h>
using namespace vh;
int main(int c, char** v) {
  init(c, v); tn::init_system(); tn::Quiet q;
  Rng r(18); Conv::StatAggregator& A = *Conv::System::stat_aggregator; bool started = false;
  for (int k = 0; k < 600 * g_scale; k++) {
    int T = r.b(0.15) ? 1 : r.b(0.1) ? r.i(14, 60) : r.i(2, 13), S = r.i(1, 4), w = r.d(6), h = r.d(6), M = 1;
    float lo = r.i(-8, 4) / 4.0f, hi = lo + r.i(1, 16) / 4.0f; if (r.b(0.05)) { lo = -1; hi = 1; }
    vh::begin(str("#%d thresholds=%d [%g,%g] %dx%d samples=%d", k, T, lo, hi, w, h, S));
    size_t nd = A.stat_descriptors_.size(); Conv::BinaryStatLayer* L = new Conv::BinaryStatLayer(T, lo, hi);
    ly::CV in = {ly::ct(S, w, h, M), ly::ct(S, w, h, M), ly::ct(S, w, h, M)}, out; Conv::NetStatus ns;
    if (!check(L->CreateOutputs(in, out) && out.empty() && L->Connect(in, out, &ns), "set up refused")) continue;
    if (!started) { A.Initialize(); started = true; }
    std::vector<double> th(T); bool ok = true;
    for (int t = 0; t < T; t++) { th[t] = T == 1 ? (lo + hi) / 2 : lo + (double)(hi - lo) * t / (T - 1); ok = ok && check(close(L->threshold_values_[t], th[t], 1e-5), str("threshold %d is %g, expected %g", t, L->threshold_values_[t], th[t])); th[t] = L->threshold_values_[t]; }
    static const char* NM[6] = {"False Positive Rate", "False Negative Rate", "Precision", "Recall", "Accuracy", "F1 Value"};
    Conv::StatDescriptor* D[6]; for (int z = 0; z < 6; z++) { D[z] = 0; for (size_t e = nd; e < A.stat_descriptors_.size(); e++) if (A.stat_descriptors_[e]->description == NM[z]) D[z] = A.stat_descriptors_[e]; ok = ok && check(D[z] != 0, str("no statistic is called %s", NM[z])) && check(D[z]->nullable && D[z]->unit == "%", str("unit or nullability of %s", NM[z])); }
    if (!ok) continue; int base = D[0]->stat_id;
    A.StartRecording();
    std::vector<double> tp(T, 0), fp(T, 0), tnn(T, 0), fn(T, 0); auto zero = [&] { for (auto* x : {&tp, &fp, &tnn, &fn}) std::fill(x->begin(), x->end(), 0); };
    auto inits = [&](bool all) { for (int z = all ? 0 : 1; z < 6; z++) D[z]->init_function(A.stats_[D[z]->stat_id]); if (!all) { A.stats_[base].is_null = true; A.stats_[base].value = 0; } };
    inits(true); bool disabled = false; double tot = 0;
    int steps = r.i(1, 8), mode = r.i(0, 4);
    for (int i = 0; i < steps && ok; i++) {
      int op = r.i(0, 9);
      if (op == 0) { L->Reset(); zero(); tot = 0; }
      else if (op == 1) { disabled = !disabled; L->SetDisabled(disabled); }
      else if (op == 2) { inits(true); zero(); tot = 0; }
      else {
        for (size_t z = 0; z < in[0]->data.elements(); z++) {
          float x = r.b(0.3) ? (float)th[r.i(0, T - 1)] : lo + (hi - lo) * r.i(-2, 18) / 16.0f; if (mode == 1) x = lo - 1; if (mode == 2) x = hi + 1;
          in[0]->data.data_ptr()[z] = x; in[1]->data.data_ptr()[z] = mode == 3 ? -1 : mode == 4 ? 1 : r.b(0.2) ? r.i(-2, 2) / 8.0f : r.b() ? 1 : -1;
          in[2]->data.data_ptr()[z] = r.b(0.2) ? 0 : r.b() ? 1 : r.i(0, 12) / 4.0f; }
        auto s0 = tn::snap(in[0]->data), s1 = tn::snap(in[1]->data), s2 = tn::snap(in[2]->data);
        L->FeedForward(); if (r.b(0.2)) L->BackPropagate();
        ok = check(tn::same(in[0]->data, s0) && tn::same(in[1]->data, s1) && tn::same(in[2]->data, s2), "inputs changed");
        if (!disabled) for (size_t z = 0; z < s0.size(); z++) { tot += s2[z]; for (int t = 0; t < T; t++) { bool p = s0[z] > (float)th[t], e = s1[z] > 0; (p ? (e ? tp : fp) : (e ? fn : tnn))[t] += s2[z]; } }
      }
      for (int t = 0; ok && t < T; t++) {
        ok = check(close(L->true_positives_[t], tp[t], 1e-6) && close(L->false_positives_[t], fp[t], 1e-6) && close(L->true_negatives_[t], tnn[t], 1e-6) && close(L->false_negatives_[t], fn[t], 1e-6),
          str("threshold %d (%g): TP %g FP %g TN %g FN %g, expected %g %g %g %g after %d steps", t, th[t], L->true_positives_[t], L->false_positives_[t], L->true_negatives_[t], L->false_negatives_[t], tp[t], fp[t], tnn[t], fn[t], i + 1))
          && check(close((double)L->true_positives_[t] + L->false_positives_[t] + L->true_negatives_[t] + L->false_negatives_[t], tot, 1e-6), "sum of the counts");
      }
      if (ok && r.b(0.6)) {
        inits(false); L->UpdateAll(); double g[6]; bool nul[6]; for (int z = 0; z < 6; z++) { g[z] = A.stats_[D[z]->stat_id].value; nul[z] = A.stats_[D[z]->stat_id].is_null; }
        // accept any threshold whose F1 is the best up to rounding
        double best = -1; std::vector<double> f(T, -1);
        for (int t = 0; t < T; t++) if (tp[t] + fp[t] > 0 && tp[t] + fn[t] > 0) { double p = tp[t] / (tp[t] + fp[t]), q2 = tp[t] / (tp[t] + fn[t]); f[t] = p + q2 > 0 ? 2 * p * q2 / (p + q2) : 0; best = std::max(best, f[t]); }
        bool any = false; std::string ex;
        for (int t = 0; t < T; t++) if (f[t] > best - 1e-5 && (f[t] >= 0) == (best >= 0)) {
          double e[6]; auto R = [](double a, double b) { return b > 0 ? 100 * a / b : -1; };
          e[0] = R(fp[t], fp[t] + tnn[t]); e[1] = R(fn[t], tp[t] + fn[t]); e[2] = R(tp[t], tp[t] + fp[t]); e[3] = R(tp[t], tp[t] + fn[t]); e[4] = R(tp[t] + tnn[t], tot); e[5] = f[t] >= 0 ? 100 * f[t] : -1;
          bool same = true; for (int z = 0; z < 6; z++) same = same && (e[z] < 0 ? nul[z] : !nul[z] && close(g[z], e[z], 2e-5));
          if (ex.size() < 600) ex += str(" [t=%d fpr %g fnr %g pre %g rec %g acc %g f1 %g]", t, e[0], e[1], e[2], e[3], e[4], e[5]);
          any = any || same; }
        ok = check(any, str("reported fpr %g%s fnr %g%s precision %g%s recall %g%s accuracy %g%s f1 %g%s, expected one of", g[0], nul[0] ? "(null)" : "", g[1], nul[1] ? "(null)" : "", g[2], nul[2] ? "(null)" : "", g[3], nul[3] ? "(null)" : "", g[4], nul[4] ? "(null)" : "", g[5], nul[5] ? "(null)" : "") + ex);
        for (int t = 0; ok && t < T; t++) ok = check(close(L->true_positives_[t], tp[t], 1e-6), "reporting changed the counts");
      }
    }
    A.StopRecording();
    for (int z = 0; z < 6; z++) D[z]->init_function = [](Conv::Stat&) {};
    delete L; for (auto* t : in) delete t;
  }
  return finish();
}
