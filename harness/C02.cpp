#include "tn.h"
#include <sys/mman.h>
using namespace vh;
int main(int c, char** v) {
  init(c, v); tn::Quiet q; Rng r(2);
  for (int k = 0; k < 500 * g_scale; k++) {
    double bud = 30000; size_t S = r.d(5, bud), w = r.d(7, bud), h = r.d(7, bud), M = r.d(4, bud);
    begin(str("%zus %zux%zu %zum case %d", S, w, h, M, k));
    Tensor t(S, w, h, M); tn::fill(t, r);
    std::vector<float> b = tn::snap(t);
    auto at = [&](size_t x, size_t y, size_t m, size_t s) { return b[((s * M + m) * h + y) * w + x]; };
    float val = r.b(0.3) ? 0.f : r.q();
    int smp = r.i(-1, S - 1);
    { Tensor u(t, true); if (r.b(0.5)) u.Clear(val, smp); else Conv::TensorMath::SETSAMPLE(u, smp, val);
      check(tn::shape(u, S, w, h, M), "clear changed the shape");
      tn::all(u, str("clear(%g, sample %d)", val, smp).c_str(), 0, [&](size_t x, size_t y, size_t m, size_t s) { return smp == -1 || (int)s == smp ? val : at(x, y, m, s); });
      u.Clear(); tn::all(u, "clear()", 0, [&](size_t, size_t, size_t, size_t) { return 0.0; });
      check(tn::same(t, b), "clearing a copy changed the original"); }
    { Tensor u(t, true); u.Transpose();
      check(tn::shape(u, S, h, w, M), "transpose shape");
      tn::all(u, "transpose", 0, [&](size_t x, size_t y, size_t m, size_t s) { return at(y, x, m, s); });
      u.Transpose(); check(tn::shape(u, S, w, h, M) && tn::same(u, b), "transposing twice is not the identity"); }
    { Tensor u(t); check(tn::shape(u, S, w, h, M) && tn::same(u, b) && u.data_ptr() != t.data_ptr(), "copy");
      u.Clear(3); check(tn::same(t, b), "change to the copy shows in the source"); tn::setall(t, 5); tn::all(u, "change to the source shows in the copy", 0, [&](size_t, size_t, size_t, size_t) { return 3.0; });
      memcpy(t.data_ptr(), b.data(), 4 * b.size()); }
    { Tensor a(t, true); datum* p = a.data_ptr(); Tensor m(std::move(a));
      check(tn::shape(m, S, w, h, M) && tn::same(m, b), "move loses shape or elements");
      check(a.elements() == 0 && a.samples() == 0 && a.width() == 0 && a.height() == 0 && a.maps() == 0 && a.data_ptr() == nullptr, "moved-from tensor is not empty");
      a.Resize(1, 2, 2, 1); a.Clear(1); check(tn::same(m, b), "reusing the moved-from tensor changed the target"); (void)p; }
    // shadows do not own their memory, wherever they are moved to
    { Tensor base(t, true); { Tensor sh; sh.Shadow(base); check(sh.data_ptr() == base.data_ptr() && tn::shape(sh, S, w, h, M), "shadow"); Tensor mv(std::move(sh)); check(tn::same(mv, b), "moved shadow"); }
      check(tn::same(base, b), "moving a shadow released the memory it looks at"); base.Clear(1); }
  }
  // memory mapped storage moved around: released as a mapping
  for (int k = 0; k < 10; k++) {
    begin(str("move of memory mapped tensor %d", k));
    std::string f = g_scratch + "/m.bin";
    Tensor t(1, 5 + k, 4, 3); tn::fill(t, r); { std::ofstream o(f, std::ios::binary); t.Serialize(o); t.Serialize(o); }
    std::vector<float> b = tn::snap(t);
    { std::ifstream i(f, std::ios::binary); int fd = open(f.c_str(), O_RDONLY); Tensor a, a2; a.Deserialize(i, false, true, fd); a2.Deserialize(i, false, true, fd);
      Tensor m(std::move(a)); check(tn::same(m, b), "moved mapped tensor"); check(a.elements() == 0, "source not empty"); a.Resize(1, 3); a.Clear(2); Tensor m2(std::move(m)); check(tn::same(m2, b), "moved twice"); m.Resize(2, 2); close(fd); }
  }
  // empty tensor
  { begin("empty tensor clear/transpose"); Tensor t; t.Clear(3); t.Transpose(); check(t.elements() == 0, "empty"); Tensor m(std::move(t)); check(m.elements() == 0, "move of empty"); }
  // a sample beyond 2^31 elements cannot be allocated here; sample offsets are checked by the proof
  return finish();
}
