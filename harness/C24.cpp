// C24: image datasets over float, compressed and list streams written by the harness
#include "ly.h"
#include "dsconf.h"
#include <Dataset.h>
#include <FloatTensorStream.h>
#include <CompressedTensorStream.h>
#include <CompressedTensor.h>
#include <ListTensorStream.h>
using namespace vh; using namespace Conv;
static datum ef(unsigned x, unsigned y, unsigned w, unsigned h) { return 0.5f + x * 3 + y * 101 + w * 0.25f + h * 7; }
struct Img { Tensor* d; Tensor* l; };
static void closefds() { for (int f = 3; f < 64; f++) close(f); }
static size_t up(size_t v) { return (v + 63) / 64 * 64; }
int main(int c, char** v) {
  init(c, v); tn::init_system(); tn::Quiet q; Rng r(24), rc(2424);
  for (int k = 0; k < 120 * g_scale; k++) {
    if (k % 4 == 0) { dsconf(rc, false, true); closefds(); }
    int kind = r.i(0, 9) < 5 ? 0 : r.i(1, 2); if (r.b(0.2)) kind = 2; // 0 float, 1 compressed, 2 list of images
    unsigned im = kind == 2 ? 3 : r.i(1, 3), lm = kind == 2 ? r.i(1, 4) : r.i(1, 4), ntr = r.i(0, 4), nte = r.i(ntr ? 0 : 1, 3), mx = r.b(0.2) ? 140 : 20; bool same = r.b(0.2);
    int sw = r.i(1, mx), sh = r.i(1, mx); if (same && r.b()) { sw = up(sw); sh = up(sh); } if (same && sw * sh > 5000) sh = 64;
    std::vector<unsigned> colors; std::vector<std::string> names; std::vector<datum> wts; for (unsigned i = 0; i < lm; i++) { unsigned col; do col = (unsigned)(r.u() & 0xffffff) & (r.b() ? 0xff00ff : 0xffffff); while (std::find(colors.begin(), colors.end(), col) != colors.end()); colors.push_back(col); names.push_back(str("c%u", i)); wts.push_back(r.b(0.2) ? 0 : r.i(1, 24) / 8.0f); }
    begin(str("#%d %s, %u+%u images of up to %d pixels, %u image maps, %u classes%s", k, kind == 0 ? "float stream" : kind == 1 ? "compressed stream" : "image list", ntr, nte, mx, im, lm, same ? ", all of one size" : ""));
    std::vector<Img> set[2]; size_t mw = 0, mh = 0; TensorStream* ts[2];
    for (int t = 0; t < 2; t++) {
      std::string path = g_scratch + str("/s%d_%d", k, t); std::ofstream o, il, ll; if (kind < 2) o.open(path, std::ios::binary); else { il.open(path + ".il"); ll.open(path + ".ll"); }
      if (kind == 1) { uint64_t m = CN24_CTS_MAGIC; o.write((char*)&m, 8); }
      for (unsigned i = 0; i < (t ? nte : ntr); i++) {
        int w = same ? sw : r.i(1, mx), h = same ? sh : r.i(1, mx); if ((size_t)w > mw) mw = w; if ((size_t)h > mh) mh = h;
        Img a{new Tensor(1, w, h, im), new Tensor(1, w, h, lm)};
        if (kind == 2) {
          Tensor lab(1, w, h, 3); a.l->Clear(0.0); for (size_t e = 0; e < a.d->elements_; e++) a.d->data_ptr_[e] = DATUM_FROM_UCHAR(r.i(0, 255));
          for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { int cl = r.i(-1, (int)lm - 1); unsigned col = cl < 0 ? 0x123456 : colors[cl]; if (cl < 0 && std::find(colors.begin(), colors.end(), col) != colors.end()) cl = std::find(colors.begin(), colors.end(), col) - colors.begin();
            double df = 0; for (int b = 0; b < 3; b++) { float p = DATUM_FROM_UCHAR((col >> (16 - 8 * b)) & 255), z = DATUM_FROM_UCHAR((colors[0] >> (16 - 8 * b)) & 255); tn::ref(lab, x, y, b, 0) = p; df += (p - z) * (p - z); }
            if (lm == 1) tn::ref(*a.l, x, y, 0, 0) = 1 - 2 * std::sqrt(df) / std::sqrt(3.0); else if (cl >= 0) tn::ref(*a.l, x, y, cl, 0) = 1; }
          std::string fi = str("i%d_%d_%u.png", k, t, i), fl = str("l%d_%d_%u.png", k, t, i); a.d->WriteToFile(g_scratch + "/" + fi); lab.WriteToFile(g_scratch + "/" + fl); il << fi << "\n"; ll << fl << "\n";
        } else {
          if (r.b(0.3)) { a.d->Clear(r.q()); for (int e = r.i(0, 3); e--;) a.d->data_ptr_[r.u() % a.d->elements_] = r.q(); } else tn::fill(*a.d, r); if (r.b()) tn::filli(*a.l, r, 0, 2); else tn::fill(*a.l, r);
          for (Tensor* z : {a.d, a.l}) if (kind == 0) z->Serialize(o); else { CompressedTensor ct; Tensor copy(*z); ct.Compress(copy); ct.Serialize(o); }
        }
        set[t].push_back(a);
      }
      o.close(); il.close(); ll.close();
      if (kind == 0) { ts[t] = new FloatTensorStream; ts[t]->LoadFile(path); } else if (kind == 1) { ts[t] = new CompressedTensorStream; ts[t]->LoadFile(path); } else { ts[t] = new ListTensorStream(colors); ts[t]->LoadFile("list:" + path + ".il;" + g_scratch + ";" + path + ".ll;" + g_scratch); }
    }
    TensorStreamDataset ds(ts[0], ts[1], lm, names, colors, wts, ef);
    size_t W = up(mw), H = up(mh); bool ok = check(ds.GetWidth() >= mw && ds.GetHeight() >= mh, str("dataset is %ux%u but an image is %zux%zu", ds.GetWidth(), ds.GetHeight(), mw, mh)) && check(ds.GetTrainingSamples() == ntr && ds.GetTestingSamples() == nte, "sample counts") && check(ds.GetInputMaps() == im && ds.GetLabelMaps() == lm && ds.GetClasses() == lm && ds.SupportsTesting() == (nte > 0), "maps and classes");
    (void)W; (void)H; W = ds.GetWidth(); H = ds.GetHeight(); unsigned B = r.i(1, 3); Tensor D(B, W, H, im), Lb(B, W, H, lm), Hp(B, W, H, 2), Wt(B, W, H, 1);
    for (int z = 0; z < 2 * (int)(ntr + nte) + 2 && ok; z++) {
      bool t = r.b(); unsigned n = t ? nte : ntr, i = r.b(0.15) ? n + r.i(0, 2) : n ? r.i(0, n - 1) : 0, s = r.i(0, B - 1);
      for (Tensor* x : {&D, &Lb, &Hp, &Wt}) tn::fill(*x, r, 3, 9); auto b0 = tn::snap(D), b1 = tn::snap(Lb), b2 = tn::snap(Hp), b3 = tn::snap(Wt);
      bool g = t ? ds.GetTestingSample(D, Lb, Hp, Wt, s, i) : ds.GetTrainingSample(D, Lb, Hp, Wt, s, i);
      ok = check(g == (i < n), str("%s sample %u of %u %s", t ? "test" : "training", i, n, g ? "returned" : "refused")); if (!ok || !g) continue;
      Img& a = set[t][i]; size_t w = a.d->width_, h = a.d->height_; std::string wh = str("%s sample %u, slot %u: ", t ? "test" : "training", i, s);
      ok = tn::all(D, (wh + "image").c_str(), 0, [&](size_t x, size_t y, size_t m, size_t q) -> double { return q != s ? b0[tn::off(D, x, y, m, q)] : x < w && y < h ? tn::at(*a.d, x, y, m, 0) : 0; })
        && tn::all(Lb, (wh + "label").c_str(), kind == 2 && lm == 1 ? 1e-4 : 0, [&](size_t x, size_t y, size_t m, size_t q) -> double { return q != s ? b1[tn::off(Lb, x, y, m, q)] : x < w && y < h ? tn::at(*a.l, x, y, m, 0) : 0; })
        && tn::all(Hp, (wh + "helper").c_str(), 1e-5, [&](size_t x, size_t y, size_t m, size_t q) -> double { return q != s ? b2[tn::off(Hp, x, y, m, q)] : !(x < w && y < h) ? 0 : m == 0 ? (w > 1 ? (double)x / (w - 1) : 0) : (h > 1 ? (double)y / (h - 1) : 0); })
        && tn::all(Wt, (wh + "weight").c_str(), 1e-5, [&](size_t x, size_t y, size_t, size_t q) -> double { if (q != s) return b3[tn::off(Wt, x, y, 0, q)]; if (!(x < w && y < h)) return 0; int best = 0; for (unsigned m = 1; m < lm; m++) if (tn::at(*a.l, x, y, m, 0) > tn::at(*a.l, x, y, best, 0)) best = m; return (double)ef(x, y, w, h) * wts[best]; });
    }
    delete ts[0] ; delete ts[1]; for (auto& z : set) for (auto& a : z) { delete a.d; delete a.l; }
    closefds();
    for (int t = 0; t < 2; t++) { for (const char* e : {"", ".il", ".ll"}) unlink((g_scratch + str("/s%d_%d", k, t) + e).c_str()); for (unsigned i = 0; i < (t ? nte : ntr); i++) { unlink((g_scratch + str("/i%d_%d_%u.png", k, t, i)).c_str()); unlink((g_scratch + str("/l%d_%d_%u.png", k, t, i)).c_str()); } }
  }
  return finish();
}
