// C27: pixel values through network values and PNG files; class maps to colours
#include "ly.h"
#include <Dataset.h>
#include <PNGUtil.h>
#include <png.h>
using namespace vh; using namespace Conv;
struct Mock : Dataset {
  unsigned n; std::vector<unsigned> col;
  Task GetTask() const { return SEMANTIC_SEGMENTATION; } Method GetMethod() const { return FCN; } unsigned GetWidth() const { return 1; } unsigned GetHeight() const { return 1; }
  unsigned GetInputMaps() const { return 1; } unsigned GetLabelMaps() const { return n; } unsigned GetClasses() const { return n; }
  std::vector<std::string> GetClassNames() const { return {}; } std::vector<unsigned> GetClassColors() const { return col; } std::vector<datum> GetClassWeights() const { return {}; }
  unsigned GetTrainingSamples() const { return 0; } unsigned GetTestingSamples() const { return 0; } bool SupportsTesting() const { return false; }
  bool GetTrainingSample(Tensor&, Tensor&, Tensor&, Tensor&, unsigned, unsigned) { return false; } bool GetTestingSample(Tensor&, Tensor&, Tensor&, Tensor&, unsigned, unsigned) { return false; }
};
static std::string enc(const std::vector<unsigned char>& p, int w, int h, int ch, bool inter) {
  std::string out; png_structp a = png_create_write_struct(PNG_LIBPNG_VER_STRING, 0, 0, 0); png_infop i = png_create_info_struct(a);
  png_set_write_fn(a, &out, [](png_structp x, png_bytep d, png_size_t n) { ((std::string*)png_get_io_ptr(x))->append((char*)d, n); }, 0);
  int ct[] = {0, PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_GRAY_ALPHA, PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_RGB_ALPHA};
  png_set_IHDR(a, i, w, h, 8, ct[ch], inter ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT); png_write_info(a, i);
  std::vector<png_bytep> rows(h); for (int y = 0; y < h; y++) rows[y] = (png_bytep)&p[(size_t)y * w * ch]; png_write_image(a, rows.data()); png_write_end(a, 0); png_destroy_write_struct(&a, &i); return out;
}
int main(int c, char** v) {
  init(c, v); tn::init_system(); tn::Quiet q; Rng r(27);
  begin("all 256 pixel values");
  for (int k = 0; k < 256; k++) { volatile datum d = DATUM_FROM_UCHAR(k); check(UCHAR_FROM_DATUM(d) == k, str("value %d becomes %d", k, (int)UCHAR_FROM_DATUM(d))); }
  for (int k = 0; k < 200 * g_scale; k++) {
    int w = r.b(0.1) ? r.i(20, 90) : r.i(1, 9), h = r.b(0.1) ? r.i(20, 60) : r.i(1, 9), ch = r.i(1, 4); bool inter = r.b(0.2);
    begin(str("#%d %dx%d image with %d channels%s", k, w, h, ch, inter ? ", interlaced" : ""));
    std::vector<unsigned char> p((size_t)w * h * ch); int sm = r.i(0, 2); for (auto& b : p) b = sm == 0 ? r.i(0, 255) : sm == 1 ? (r.b() ? 255 : 0) : r.i(250, 255);
    std::stringstream s(enc(p, w, h, ch, inter)); Tensor t; if (r.b()) t.Resize(1, r.i(1, 4), r.i(1, 4), 2);
    bool ok = check(PNGUtil::LoadFromStream(s, t), "not read") && check(tn::shape(t, 1, w, h, ch), "shape"); if (!ok) continue;
    for (int y = 0; y < h && ok; y++) for (int x = 0; x < w && ok; x++) for (int m = 0; m < ch && ok; m++) { int o = p[((size_t)y * w + x) * ch + m]; ok = check(tn::at(t, x, y, m, 0) == DATUM_FROM_UCHAR(o) && UCHAR_FROM_DATUM(tn::at(t, x, y, m, 0)) == o, str("pixel (%d,%d) channel %d: %g for %d", x, y, m, tn::at(t, x, y, m, 0), o)); }
    if (!ok) continue;
    std::string f = g_scratch + (r.b() ? "/x.png" : "/x.PNG"); auto b = tn::snap(t);
    if (ch == 3) { t.WriteToFile(f); check(tn::same(t, b), "writing changed the image"); Tensor u(f); check(tn::shape(u, 1, w, h, 3) && tn::same(u, b), "image read back from a PNG file differs"); unlink(f.c_str()); }
    else { std::stringstream o; check(!PNGUtil::WriteToStream(o, t), "image without three channels written"); }
  }
  for (int k = 0; k < 300 * g_scale; k++) {
    Mock m; m.n = r.i(2, 5); for (unsigned i = 0; i < m.n; i++) m.col.push_back((unsigned)r.u() & 0xffffff); int S = r.i(1, 3), w = r.i(1, 6), h = r.i(1, 6), sg = r.i(0, 2);
    begin(str("#%d colours of %u classes, %dx%d, %d samples, %s values", k, m.n, w, h, S, sg == 0 ? "mixed" : sg == 1 ? "negative" : "huge"));
    Tensor n(S, w, h, m.n), t(S, w, h, 3); if (r.b()) tn::fillq(n, r); else tn::fill(n, r); if (sg == 1) for (size_t e = 0; e < n.elements_; e++) n.data_ptr_[e] = -std::fabs(n.data_ptr_[e]) - 1; if (sg == 2) for (size_t e = 0; e < n.elements_; e++) n.data_ptr_[e] *= 1e37f;
    tn::fill(t, r); auto b = tn::snap(n); m.Colorize(n, t); check(tn::same(n, b), "class maps changed");
    tn::all(t, "colour", 0, [&](size_t x, size_t y, size_t p, size_t s) -> double { unsigned best = 0; for (unsigned z = 1; z < m.n; z++) if (tn::at(n, x, y, z, s) > tn::at(n, x, y, best, s)) best = z; return DATUM_FROM_UCHAR((m.col[best] >> (16 - 8 * p)) & 255); });
  }
  for (int k = 0; k < 200 * g_scale; k++) {
    Mock m; m.n = 1; m.col.push_back((unsigned)r.u() & (r.b() ? 0xffffff : 0xff00ff)); int S = r.i(1, 3), w = r.i(1, 6), h = r.i(1, 6);
    begin(str("#%d colour %06x of one class, %dx%d, %d samples", k, m.col[0], w, h, S));
    Tensor n(S, w, h, 1), t(S, w, h, 3); if (r.b()) tn::fillq(n, r); else tn::fill(n, r); tn::fill(t, r); auto b = tn::snap(n); m.Colorize(n, t); check(tn::same(n, b), "class maps changed");
    tn::all(t, "colour", 1e-5, [&](size_t x, size_t y, size_t p, size_t s) -> double { return DATUM_FROM_UCHAR((m.col[0] >> (16 - 8 * p)) & 255) * ((tn::at(n, x, y, 0, s) + 1.0) / 2); });
  }
  return finish();
}
