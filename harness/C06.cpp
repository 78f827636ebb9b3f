// C06: the compressed tensor codec: lossless, bounded, and exact stream round trips
#include "tn.h"
#include <CompressedTensor.h>
using namespace vh; using Conv::CompressedTensor;
static float bits(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static float sym(Rng& r, int mode) {
  static const uint32_t B[] = {0x58585858u, 0x59595858u, 0x58595858u, 0x00580058u, 0x58000000u, 0x00000058u, 0x59000000u, 0u, 0x80000000u, 0x3f800000u, 0x7fc00000u, 0x7f800000u, 0xff800000u, 0x7fc05858u, 0x58590358u, 0x00000001u, 0xffffffffu};
  if (mode == 0 || r.b(0.4)) return bits(B[r.i(0, 16)]);
  if (mode == 1) return (float)r.i(-2, 2);
  return bits((uint32_t)r.u());
}
static bool same(float a, float b) { return memcmp(&a, &b, 4) == 0 || (a == 0 && b == 0); }
int main(int c, char** v) {
  init(c, v); tn::init_system(); tn::Quiet q;
  Rng r(6);
  static const int RL[] = {1, 2, 3, 4, 5, 126, 127, 128, 129, 252, 253, 254, 255, 256, 257, 258, 505, 506, 507, 508, 509, 510, 759, 760, 1024};
  int N = 700 * g_scale;
  for (int k = 0; k < N; k++) {
    std::vector<float> d; int mode = r.i(0, 2); std::string ds = str("#%d", k);
    int runs = r.i(1, 9);
    for (int j = 0; j < runs; j++) {
      int n = r.b(0.3) ? RL[r.i(0, 24)] : r.i(1, 5); if (r.b(0.03)) n = r.i(1, 3000);
      float s = sym(r, mode); if (j && r.b(0.15)) s = d.back();
      uint32_t b; memcpy(&b, &s, 4); ds += str(" %dx%08x", n, b);
      for (int i = 0; i < n; i++) d.push_back(s);
    }
    // factor the length into a shape
    size_t n = d.size(); size_t w = 1; for (size_t f = 2; f < 40; f++) if (n % f == 0 && r.b(0.4)) { w = f; break; }
    size_t rest = n / w, h = 1; for (size_t f = 2; f < 40; f++) if (rest % f == 0 && r.b(0.4)) { h = f; break; }
    size_t M = rest / h, S = 1; if (M % 2 == 0 && r.b()) { S = 2; M /= 2; } else if (r.b()) std::swap(S, M);
    begin(ds + str(" as %zux%zux%zu s%zu", w, h, M, S));
    Tensor t(S, w, h, M); memcpy(t.data_ptr(), d.data(), n * 4);
    CompressedTensor ct; 
    if (r.b(0.3)) { Tensor o(1, 3, 3, 3); o.Clear(1); ct.Compress(o); }
    ct.Compress(t);
    check(tn::same(t, d), "compressing changed the tensor");
    check(ct.samples() == S && ct.width() == w && ct.height() == h && ct.maps() == M && ct.elements() == n, "compressed shape");
    check(ct.compressed_length() <= 8 * n + 2, str("compressed length %zu of %zu elements", ct.compressed_length(), n));
    Tensor o; if (r.b()) o.Resize(2, 2, 2, 2);
    auto verify = [&](CompressedTensor& x, const char* what) {
      int st = 0; (void)st;
      Tensor u; if (r.b()) u.Resize(1, 2, 3, 4);
      x.Decompress(u);
      if (!check(u.samples() == S && u.width() == w && u.height() == h && u.maps() == M && u.elements() == n, str("%s: decompressed shape %s", what, tn::dims(u).c_str()))) return;
      for (size_t i = 0; i < n; i++) if (!same(u.data_ptr_const()[i], d[i])) { check(false, str("%s: element %zu is %a, was %a", what, i, u.data_ptr_const()[i], d[i])); return; }
    };
    verify(ct, "decompress");
    if (r.b(0.4)) {   // streams, back to back
      bool file = r.b(), map = file && r.b();
      Tensor t2(1, r.i(1, 4), 2, 1); tn::filli(t2, r, 0, 1); CompressedTensor c2; c2.Compress(t2);
      std::string path = g_scratch + "/c06.bin"; std::stringstream ss; std::ofstream of; std::ostream* os = &ss;
      if (file) { of.open(path, std::ios::binary | std::ios::trunc); os = &of; }
      bool first = r.b(); size_t p1 = 0;
      if (first) { c2.Serialize(*os); p1 = os->tellp(); }
      ct.Serialize(*os); size_t p2 = os->tellp(); c2.Serialize(*os); *os << "tail"; if (file) of.close();
      std::ifstream inf; std::istream* in = &ss; int fd = 0;
      if (file) { inf.open(path, std::ios::binary); in = &inf; if (map) fd = open(path.c_str(), O_RDONLY); }
      bool head = r.b(0.3);
      { CompressedTensor a; CompressedTensor* b = r.b() ? new CompressedTensor : &a;
        if (first) { b->Deserialize(*in, r.b(), map && r.b(), fd); check((size_t)in->tellg() == p1, "stream position after the first"); }
        b->Deserialize(*in, head, map, fd); 
        check((size_t)in->tellg() == p2, str("stream position %ld, expected %zu", (long)in->tellg(), p2));
        { check(b->samples() == S && b->width() == w && b->height() == h && b->maps() == M && b->compressed_length() == ct.compressed_length(), "header read back"); }
        if (r.b(0.3)) { CompressedTensor e; std::stringstream se; e.Serialize(se); std::ofstream fe(path + "e", std::ios::binary | std::ios::trunc); fe << se.str(); fe.close(); std::ifstream ie(path + "e", std::ios::binary); int f2 = open((path + "e").c_str(), O_RDONLY);
          CompressedTensor b2; std::stringstream s3; ct.Serialize(s3); b2.Deserialize(s3); b2.Deserialize(ie, false, true, f2); check(b2.elements() == 0 && b2.compressed_length() == 0, "empty compressed tensor keeps old contents"); close(f2); }
        if (!head) {
          check(b->samples() == S && b->width() == w && b->height() == h && b->maps() == M && b->compressed_length() == ct.compressed_length(), "shape read back");
          check(memcmp(b->compressed_data_ptr_, ct.compressed_data_ptr_, ct.compressed_length()) == 0, "compressed bytes read back");
          verify(*b, "decompress after reading"); }
        if (b != &a) delete b; }
      CompressedTensor l; l.Deserialize(*in); Tensor u; l.Decompress(u); check(u.elements() == t2.elements() && tn::same(u, tn::snap(t2)), "tensor behind it");
      std::string rest2((std::istreambuf_iterator<char>(*in)), std::istreambuf_iterator<char>()); check(rest2 == "tail", "bytes behind");
      if (fd) close(fd);
    }
  }
  return finish();
}
