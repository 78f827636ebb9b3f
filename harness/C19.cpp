// C19: histories of the statistics aggregator against a model
#include "tn.h"
#include <StatAggregator.h>
#include <StatSink.h>
#include <CSVStatSink.h>
using namespace vh;
using Conv::Stat; using Conv::StatDescriptor; using Conv::StatAggregator; using Conv::HardcodedStats;
struct Rec : Conv::StatSink {
  std::vector<std::vector<Stat>> got; std::vector<HardcodedStats> hc; int inits = 0; size_t ninit = 0; std::vector<std::string> exps;
  std::vector<int>* order; int id;
  void Initialize(std::vector<StatDescriptor*>& d) { inits++; ninit = d.size(); }
  void SetCurrentExperiment(std::string e) { exps.push_back(e); }
  void Process(HardcodedStats& h, std::vector<Stat*>& s) { std::vector<Stat> v; for (auto* x : s) v.push_back(*x); got.push_back(v); hc.push_back(h); order->push_back(id); }
};
struct M { double v; bool null; int kind; int inits; };
#include <unistd.h>
#include <chrono>
static double tnow() { return std::chrono::duration<double>(std::chrono::system_clock::now().time_since_epoch()).count(); }
enum St { I, S, R };
int main(int c, char** v) {
  init(c, v); tn::init_system(); tn::Quiet q;
  Rng r(19);
  for (int k = 0; k < 1500 * g_scale; k++) {
    StatAggregator a; std::vector<StatDescriptor*> ds; std::vector<M*> m; std::vector<Rec*> sinks; std::vector<int> order;
    St st = I; std::vector<std::vector<Stat>> want; std::vector<unsigned long> wit; std::vector<size_t> sink_from; std::vector<std::string> wexp; std::vector<size_t> exp_from; size_t late = 0;
    unsigned long iters = 0, weights = 0; int inited = 0; double lo = 0, hi = 0, s0 = 0, s1 = 0;
    int steps = r.i(5, 40); std::string h = str("#%d:", k);
    bool ok = true;
    auto model_reset = [&] { if (st != S) return; lo = hi = 0; iters = 0; weights = 0; for (auto* x : m) { x->inits++; if (x->kind == 1) { x->v = 0; x->null = true; } else if (x->kind == 2) { x->v = 5; x->null = false; } } };
    auto report = [&] { std::vector<Stat> w; for (auto* x : m) { Stat s; s.value = x->kind == 3 ? x->v * 2 + (double)iters : x->v; s.is_null = x->null; w.push_back(s); } want.push_back(w); wit.push_back(iters); };
    for (int i = 0; i < steps && ok; i++) {
      int op = i == 0 ? 0 : r.i(0, 12); if (i < 6 && r.b(0.5)) op = 0;
      switch (op) {
      case 0: case 1: { if (op == 1 && r.b(0.6)) { if (sinks.size() < 3) { Rec* s = new Rec; s->order = &order; s->id = sinks.size(); unsigned id = a.RegisterSink(s); ok = check(id == sinks.size(), "sink id"); sinks.push_back(s); sink_from.push_back(want.size()); exp_from.push_back(wexp.size()); if (st != I) late++; h += " sink"; } break; }
        if (op == 1) { a.hardcoded_stats_.iterations += 3; iters += 3; a.hardcoded_stats_.weights = weights = 77; break; }
        StatDescriptor* d = new StatDescriptor; M* x = new M{0, false, r.i(0, 3), 0};
        if (x->kind == 3) { /* update accumulates, output transforms */
          d->init_function = [x](Stat& s) { s.value = 0; s.is_null = false; }; d->update_function = [](Stat& s, double u) { s.value += u; s.is_null = false; };
          d->output_function = [](HardcodedStats& hs, Stat& s) -> Stat { Stat o = s; o.value = s.value * 2 + (double)hs.iterations; return o; };
        } else if (x->kind == 1) { d->init_function = [](Stat& s) { s.value = 0; s.is_null = true; }; d->update_function = [](Stat& s, double u) { s.value = u; s.is_null = false; }; d->nullable = true; }
        else if (x->kind == 2) { d->init_function = [](Stat& s) { s.value = 5; s.is_null = false; }; d->update_function = [](Stat& s, double u) { s.value += u; }; }
        d->description = str("Stat no. %zu!", ds.size());
        unsigned id = a.RegisterStat(d); h += str(" reg(kind %d)", x->kind);
        ok = check(id == ds.size() && d->stat_id == id, str("statistic %zu got id %u / %u", ds.size(), id, d->stat_id)) && ok;
        ds.push_back(d); m.push_back(x); break; }
      case 2: a.Initialize(); h += " init"; if (st == I) { st = S; inited++; model_reset(); for (auto* x : m) if (x->kind == 3) x->v = 0; wexp.push_back("unnamed"); } break;
      case 3: case 4: { double t = tnow(); a.StartRecording(); h += " start"; if (st == S) { st = R; s0 = t; s1 = tnow(); } break; }
      case 5: { double t = tnow(); a.StopRecording(); h += " stop"; if (st == R) { st = S; lo += t - s1; hi += tnow() - s0; } break; }
      case 6: case 7: case 8: { unsigned id = r.b(0.8) ? (unsigned)r.i(0, (int)ds.size()) : r.b() ? 4294967295u : (unsigned)r.i(0, 100); double u = r.q();
        if (r.b(0.8) && !ds.empty()) id = r.i(0, ds.size() - 1);
        a.Update(id, u); h += str(" update(%u,%g)", id, u);
        if (st == R && id < m.size()) { M* x = m[id]; if (x->kind == 1) { x->v = u; x->null = false; } else if (x->kind == 2) x->v += u; else if (x->kind == 3) { x->v += u; x->null = false; } }
        break; }
      case 9: a.Reset(); h += " reset"; if (st == S) { model_reset(); for (auto* x : m) if (x->kind == 3) x->v = 0; } break;
      case 10: a.Generate(); h += " generate"; report(); break;
      case 11: { double t = tnow(); a.Snapshot(); h += " snapshot"; if (st == R) { report(); s0 = t; s1 = tnow(); st = S; model_reset(); for (auto* x : m) if (x->kind == 3) x->v = 0; st = R; } } break;
      case 12: { std::string e = str("exp%d", r.i(0, 9)); a.SetCurrentExperiment(e); h += " exp"; if (st == S) wexp.push_back(e); break; }
      }
      vh::begin(h);
      St real = a.state_ == StatAggregator::INIT ? I : a.state_ == StatAggregator::STOPPED ? S : R;
      ok = check(real == st, str("state is %d, expected %d", real, st)) && ok;
      for (size_t j = 0; ok && j < ds.size(); j++) ok = check(ds[j]->stat_id == j, "id changed");
      ok = ok && check(a.stats_.size() >= m.size() , "values missing");
      for (size_t j = 0; ok && j < m.size(); j++) ok = check(a.stats_[j].value == m[j]->v && a.stats_[j].is_null == m[j]->null, str("statistic %zu is %g%s, expected %g%s", j, a.stats_[j].value, a.stats_[j].is_null ? " null" : "", m[j]->v, m[j]->null ? " null" : ""));
      ok = ok && check(a.hardcoded_stats_.iterations == iters && a.hardcoded_stats_.weights == weights, "built-in counters");
      if (st == I) {} else ok = ok && check(a.hardcoded_stats_.seconds_elapsed >= lo - 1e-6 && a.hardcoded_stats_.seconds_elapsed <= hi + 1e-6, str("elapsed time is %g, recorded for %g to %g", a.hardcoded_stats_.seconds_elapsed, lo, hi)); if (r.b(0.1)) usleep(200);
      for (size_t j = 0; ok && j < sinks.size(); j++) {
        Rec* s = sinks[j];
        ok = check(s->got.size() == want.size() - sink_from[j], str("sink %zu got %zu reports, expected %zu", j, s->got.size(), want.size() - sink_from[j]));
        if (ok && !s->got.empty()) { auto& g = s->got.back(); auto& w = want.back(); ok = check(g.size() == w.size(), str("report has %zu values, expected %zu", g.size(), w.size()));
          for (size_t z = 0; ok && z < g.size(); z++) ok = check(g[z].value == w[z].value && g[z].is_null == w[z].is_null, str("sink %zu: value %zu of the report is %g, expected %g", j, z, g[z].value, w[z].value));
          ok = ok && check(s->hc.back().iterations == wit.back(), "iterations in the report"); }
        ok = ok && check(s->exps == std::vector<std::string>(wexp.begin() + exp_from[j], wexp.end()), "experiment names");
      }
      if (op == 10 || op == 11) { for (size_t j = 1; ok && j < order.size(); j++) ok = check(order[j] == (order[j - 1] + 1) % (int)sinks.size() || order[j] == 0, "sinks called out of order"); order.clear(); }
    }
    if (!ok) { k += 50; }
    for (auto* d : ds) delete d; for (auto* x : m) delete x; for (auto* s : sinks) delete s;
  }
  mkdir("csv", 0755);
  for (int k = 0; k < 60 * g_scale; k++) {   // CSV sink: header and one line per report, empty field for null
    StatAggregator a; Conv::CSVStatSink sink; a.RegisterSink(&sink); int n = r.i(0, 5); std::vector<StatDescriptor> ds(n);
    for (int i = 0; i < n; i++) { ds[i].description = str("a b-%d%%", i); ds[i].nullable = true; ds[i].init_function = [](Stat& s) { s.is_null = true; s.value = 0; }; ds[i].update_function = [](Stat& s, double u) { s.is_null = false; s.value = u; }; a.RegisterStat(&ds[i]); }
    std::string e = str("e%d", k); vh::begin(str("csv %d stats=%d", k, n));
    a.Initialize(); a.SetCurrentExperiment(e);
    std::string want = "IsTraining,Epoch,Iterations,SecondsElapsed,"; for (int i = 0; i < n; i++) want += str("%sab%d", i ? "," : "", i);
    std::vector<std::string> rows; int reps = r.i(1, 4);
    for (int j = 0; j < reps; j++) {
      a.StartRecording(); a.hardcoded_stats_.iterations = j + 2; a.hardcoded_stats_.epoch = 7; a.hardcoded_stats_.is_training = r.b();
      std::string row = str("%d,7,%d,*,", a.hardcoded_stats_.is_training ? 1 : 0, j + 2);
      for (int i = 0; i < n; i++) { row += i ? "," : ""; if (r.b(0.7)) { double u = r.i(-50, 50) / 4.0; a.Update(i, u); row += str("%g", u); } }
      rows.push_back(row); if (r.b()) { a.StopRecording(); a.Generate(); a.Reset(); } else { a.Snapshot(); a.StopRecording(); a.Reset(); }
    }
    std::ifstream f("csv/" + e + ".csv"); std::string l; std::vector<std::string> lines; while (std::getline(f, l)) lines.push_back(l);
    if (!check(lines.size() == rows.size() + 1, str("%zu lines, expected %zu", lines.size(), rows.size() + 1))) continue;
    check(lines[0] == want, "header: " + lines[0]);
    for (size_t j = 0; j < rows.size(); j++) { std::string g = lines[j + 1]; size_t p = 0; for (int z = 0; z < 3; z++) p = g.find(',', p) + 1; size_t p2 = g.find(',', p); if (p2 != std::string::npos) g = g.substr(0, p) + "*" + g.substr(p2); check(g == rows[j], "line: " + g + " expected " + rows[j]); }
  }
  return finish();
}
