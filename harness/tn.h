// helpers on the library's own tensors
#pragma once
#include "vh.h"
#include <cn24.h>
#include <Tensor.h>
#include <TensorMath.h>
using Conv::Tensor; using Conv::datum; using Conv::CombinedTensor;
namespace tn {
inline size_t off(const Tensor& t, size_t x, size_t y, size_t m, size_t s) { return ((s * t.maps_ + m) * t.height_ + y) * t.width_ + x; }
inline float at(const Tensor& t, size_t x, size_t y, size_t m, size_t s) { return t.data_ptr_[off(t, x, y, m, s)]; }
inline float& ref(Tensor& t, size_t x, size_t y, size_t m, size_t s) { return t.data_ptr_[off(t, x, y, m, s)]; }
inline void fill(Tensor& t, vh::Rng& r, double lo = -1, double hi = 1) { for (size_t i = 0; i < t.elements_; i++) t.data_ptr_[i] = (float)r.f(lo, hi); }
inline void fillq(Tensor& t, vh::Rng& r) { for (size_t i = 0; i < t.elements_; i++) t.data_ptr_[i] = r.q(); }
inline void filli(Tensor& t, vh::Rng& r, int lo, int hi) { for (size_t i = 0; i < t.elements_; i++) t.data_ptr_[i] = (float)r.i(lo, hi); }
inline void setall(Tensor& t, float v) { for (size_t i = 0; i < t.elements_; i++) t.data_ptr_[i] = v; }
inline std::vector<float> snap(const Tensor& t) { return std::vector<float>(t.data_ptr_, t.data_ptr_ + t.elements_); }
inline bool same(const Tensor& t, const std::vector<float>& v) { return t.elements_ == v.size() && (v.empty() || memcmp(t.data_ptr_, v.data(), v.size() * 4) == 0); }
inline bool shape(const Tensor& t, size_t S, size_t w, size_t h, size_t M) { return t.samples() == S && t.width() == w && t.height() == h && t.maps() == M && t.elements() == S * w * h * M; }
inline std::string dims(const Tensor& t) { return vh::str("%zux%zux%zum%zus", t.width_, t.height_, t.maps_, t.samples_); }
// every element of t equals f(x,y,m,s)
template <class F> bool all(const Tensor& t, const char* what, double tol, F f) {
  for (size_t s = 0; s < t.samples_; s++) for (size_t m = 0; m < t.maps_; m++) for (size_t y = 0; y < t.height_; y++) for (size_t x = 0; x < t.width_; x++) {
    double e = f(x, y, m, s), g = at(t, x, y, m, s);
    bool ok = tol == 0 ? ((float)e == (float)g || (std::isnan(e) && std::isnan(g))) : vh::close(e, g, tol);
    if (!ok) { vh::fail(vh::str("%s: element (x=%zu,y=%zu,map=%zu,sample=%zu) of %s is %.9g, expected %.9g", what, x, y, m, s, dims(t).c_str(), g, e)); return false; }
  }
  return true;
}
inline void init_system() { static int d = 0; if (!d++) Conv::System::Init(); }
// muted cout/cerr
struct Quiet { std::streambuf *a, *b; std::stringbuf s; Quiet() { a = std::cout.rdbuf(&s); b = std::cerr.rdbuf(&s); } ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
}
