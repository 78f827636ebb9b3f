// Data set configuration files: what CreateFromConfiguration makes of the lines a file states
#pragma once
#include <Dataset.h>
#include <KITTIData.h>
#include <TensorStream.h>
#include <CompressedTensor.h>
#include <CompressedTensorStream.h>
#include <fstream>
#include <sstream>
namespace vh {
// pairs of constant images and labels in the float or the compressed format
inline std::vector<float> dsfile(Rng& r, const std::string& path, unsigned n, unsigned im, unsigned lm, bool packed) {
  using namespace Conv; std::ofstream o(path, std::ios::binary); if (packed) { uint64_t m = CN24_CTS_MAGIC; o.write((char*)&m, 8); } std::vector<float> v;
  for (unsigned i = 0; i < n; i++) { size_t w = r.i(3, 6), h = r.i(3, 6); v.push_back(r.i(1, 90)); for (int q = 0; q < 2; q++) { Tensor t(1, w, h, q ? lm : im); t.Clear(q ? 0.0 : v.back()); if (packed) { CompressedTensor c; c.Compress(t); c.Serialize(o); } else t.Serialize(o); } }
  return v;
}
inline void dsconf(Rng& r, bool patch, bool files) {
  using namespace Conv; typedef std::string S; int classes = r.i(1, 6); S cls = str("classes=%d", classes) + "\n"; std::vector<S> names, blocks; std::vector<unsigned> colors; std::vector<float> weights; unsigned im = r.i(1, 3), n[2] = {0, 0}; int err = 0; static int count = 0; count++; bool given[2] = {false, false}; std::vector<float> vals[2];
  static const char* words[] = {"road", "sky", "training=x", "my class", "weights", "#1", "colors", "testing", "a", ""};
  for (int c = 0; c < classes; c++) { names.push_back(S(words[r.i(0, 8)]) + str("%d", c)); cls += names.back() + "\n"; }
  blocks.push_back(cls); S tail; 
  { S b = "colors\n"; for (int c = 0; c < classes; c++) { colors.push_back(r.u() & (r.b(0.2) ? 0xFFFFFFFFu : 0xFFFFFFu)); b += (r.b() ? "0x" : "") + str(r.b() ? "%06X" : "%x", colors.back()) + "\n"; } blocks.push_back(b); }
  if (r.b(0.6)) { S b = "weights\n"; for (int c = 0; c < classes; c++) { S t = str("%.3f", r.i(0, 5000) / 1000.0); std::stringstream ss(t); float f; ss >> f; weights.push_back(f); b += t + "\n"; } blocks.push_back(b); } else weights.assign(classes, 1.0f);
  if (r.b(0.5)) { err = r.i(0, 2); blocks.push_back(S("localized_error=") + (err == 1 ? "kitti" : err == 0 ? "default" : "other") + "\n"); }
  S path[2]; for (int t = 0; t < 2; t++) if (r.b(0.75)) { given[t] = true; path[t] = files ? g_scratch + str("/c%d%d", t, count) : str("/nonexistent/%d", t); n[t] = r.i(1, 4); if (files) vals[t] = dsfile(r, path[t], n[t], im, classes, !patch && r.b()); blocks.push_back(S(t ? "testing=" : "training=") + path[t] + "\n"); }
  if (patch && r.b(0.4)) blocks.push_back("nommap\n");
  if (r.b(0.4)) blocks.push_back(r.b() ? "# comment\n" : r.b() ? "\n" : r.b() ? "atraining=zzz\n" : "class=9\n");
  std::shuffle(blocks.begin() + 1, blocks.end(), r.g); S text; for (auto& b : blocks) text += b; if (r.b()) text.pop_back();
  auto sel = (DatasetLoadSelection)r.i(0, 2); bool dont = !files; S shown = text; std::replace(shown.begin(), shown.end(), '\n', '|');
  begin(str("%s data set of the configuration '%s', %s", patch ? "patch" : "stream", shown.c_str(), dont ? "not loaded" : sel == LOAD_BOTH ? "both parts" : sel == LOAD_TRAINING_ONLY ? "training part" : "testing part"));
  std::istringstream is(text); unsigned ps = patch ? 1 + 2 * r.i(0, 1) : 0; TensorStreamPatchDataset* pd = nullptr; TensorStreamDataset* sd = nullptr; Dataset* d;
  if (patch) d = pd = TensorStreamPatchDataset::CreateFromConfiguration(is, dont, sel, ps, ps); else d = sd = TensorStreamDataset::CreateFromConfiguration(is, dont, sel);
  if (!check(d->GetClasses() == (unsigned)classes, str("%u classes", d->GetClasses())) || !check(d->GetClassNames() == names, "class names") || !check(d->GetClassColors() == colors, "class colours")) return;
  auto w = d->GetClassWeights(); if (!check(w.size() >= (size_t)classes && std::equal(weights.begin(), weights.end(), w.begin()), "class weights")) return;
  auto ef = patch ? pd->error_function_ : sd->error_function_; check(ef == (err == 1 ? (dataset_localized_error_function)KITTIData::LocalizedError : DefaultLocalizedErrorFunction), "error function");
  for (int t = 0; t < 2; t++) {
    bool want = files && given[t] && (sel == LOAD_BOTH || sel == (t ? LOAD_TESTING_ONLY : LOAD_TRAINING_ONLY)); unsigned got = t ? d->GetTestingSamples() : d->GetTrainingSamples();
    if (!check(!want ? got == 0 : patch ? got >= n[t] : got == n[t], str("%u %s samples, the file has %u images", got, t ? "testing" : "training", want ? n[t] : 0)) || !want) continue;
    Tensor D(1, d->GetWidth(), d->GetHeight(), im), L(1, patch ? 1 : d->GetWidth(), patch ? 1 : d->GetHeight(), classes), H(1, patch ? 1 : d->GetWidth(), patch ? 1 : d->GetHeight(), 2), W(1, patch ? 1 : d->GetWidth(), patch ? 1 : d->GetHeight(), 1);
    unsigned i = patch ? r.b() * (got - 1) : r.i(0, got - 1); bool ok = t ? d->GetTestingSample(D, L, H, W, 0, i) : d->GetTrainingSample(D, L, H, W, 0, i); float v = patch ? (i ? vals[t].back() : vals[t][0]) : vals[t][i];
    check(ok && *D.data_ptr() == v, str("%s sample %u starts with %g, the file has %g", t ? "testing" : "training", i, *D.data_ptr(), v));
  }
}
}  // namespace vh
