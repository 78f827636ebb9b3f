// C05: native serialisation of tensors: exact bytes, exact consumption, header-only reads, files, memory mapping
#include "tn.h"
using namespace vh;
static void rnd(Tensor& t, Rng& r, bool big) {
  int S = r.i(1, 4), w = r.i(1, 6), h = r.i(1, 6), M = r.i(1, 5);
  if (big && r.b(0.1)) { w = r.i(20, 70); h = r.i(20, 70); }
  if (r.b(0.12)) { int k = r.i(0, 4); if (k == 0) S = 0; if (k == 1) w = 0; if (k == 2) h = 0; if (k == 3) M = 0; if (k == 4) S = w = h = M = 0; }
  t.Resize(S, w, h, M);
  for (size_t i = 0; i < t.elements(); i++) { uint32_t b = (uint32_t)r.u(); if (r.b(0.3)) b = 0x7f800000u | (b & 0x807fffffu); memcpy(t.data_ptr() + i, &b, 4); }
}
struct Img { size_t d[4]; std::vector<float> v; size_t elems() const { return d[0] * d[1] * d[2] * d[3]; } };
static Img img(const Tensor& t) { Img i = {{t.samples(), t.width(), t.height(), t.maps()}, tn::snap(t)}; return i; }
static bool eq(const Tensor& t, const Img& i, bool zero_dims_free) {
  if (t.elements() != i.v.size()) return false;
  if (!(zero_dims_free && i.v.empty()) && (t.samples() != i.d[0] || t.width() != i.d[1] || t.height() != i.d[2] || t.maps() != i.d[3])) return false;
  return i.v.empty() || memcmp(t.data_ptr_const(), i.v.data(), i.v.size() * 4) == 0;
}
int main(int c, char** v) {
  init(c, v); tn::init_system(); tn::Quiet q;
  Rng r(5);
  int N = 600 * g_scale;
  for (int k = 0; k < N; k++) {
    int n = r.i(1, 6); bool file = r.b(0.35); bool map = file && r.b(0.5);
    std::vector<Img> im; std::vector<Tensor*> src;
    std::string d = str("#%d n=%d%s%s", k, n, file ? " file" : " memory", map ? " mmap" : "");
    for (int i = 0; i < n; i++) { Tensor* t = new Tensor; rnd(*t, r, true); im.push_back(img(*t)); src.push_back(t); d += " " + tn::dims(*t); }
    vh::begin(d);
    std::string path = g_scratch + "/c05.bin";
    size_t want = 0; for (auto& i : im) want += 32 + 4 * i.v.size();
    std::string tail = r.b() ? "trailing bytes" : "";
    std::stringstream ss; std::ofstream of; std::ostream* o = &ss;
    if (file) { of.open(path, std::ios::binary | std::ios::trunc); o = &of; }
    std::vector<size_t> ends;
    for (int i = 0; i < n; i++) { src[i]->Serialize(*o); ends.push_back((size_t)o->tellp()); }
    check(ends.back() == want, str("wrote %zu bytes, expected %zu", ends.back(), want));
    for (int i = 0; i < n; i++) check(eq(*src[i], im[i], false), "writing changed the tensor");
    *o << tail; if (file) of.close();
    std::ifstream inf; std::istream* in = &ss; int fd = 0;
    if (file) { inf.open(path, std::ios::binary); in = &inf; fd = map ? open(path.c_str(), O_RDONLY) : 0; }
    Tensor reused, reused2; if (r.b()) rnd(reused, r, false);
    std::vector<Tensor*> keep;
    for (int i = 0; i < n; i++) {
      bool head = r.b(0.3);
      Tensor* t = r.b() ? &reused : new Tensor; if (t != &reused) keep.push_back(t);
      t->Deserialize(*in, head, map, fd);
      if (!in->good() && tail.empty() && i == n - 1) { }
      in->clear();
      long p = (long)in->tellg();
      check(p == (long)ends[i], str("after reading tensor %d (%s) the stream is at %ld, expected %zu", i, head ? "header" : "all", p, ends[i]));
      if (!head) { if (!check(eq(*t, im[i], false), str("tensor %d reads back as %s, elements or dimensions differ", i, tn::dims(*t).c_str()))) break; }
      else check(t->elements() == im[i].v.size() && (im[i].v.empty() || (t->samples() == im[i].d[0] && t->width() == im[i].d[1] && t->height() == im[i].d[2] && t->maps() == im[i].d[3])), "header dimensions differ");
    }
    if (fd) close(fd);
    std::string rest((std::istreambuf_iterator<char>(*in)), std::istreambuf_iterator<char>());
    check(rest == tail, "bytes behind the last tensor were consumed");
    for (auto* t : keep) delete t;
    for (auto* t : src) delete t;
  }
  for (int k = 0; k < 60 * g_scale; k++) {
    Tensor t; rnd(t, r, true); Img i = img(t);
    std::string path = g_scratch + (r.b() ? "/x.Tensor" : "/some.CNTensor");
    begin(str("file %d %s %s", k, path.c_str(), tn::dims(t).c_str()));
    int st = in_child([&] { t.WriteToFile(path); });
    if (!check(child_ok(st), "writing to a native file fails")) continue;
    st = in_child([&] { Tensor u; rnd(u, r, false); u.LoadFromFile(path); if (!eq(u, i, false)) _exit(7); Tensor w(path); if (!eq(w, i, false)) _exit(8); });
    check(child_ok(st), str("file does not load back identical (%d)", WEXITSTATUS(st)));
    struct stat sb; check(stat(path.c_str(), &sb) == 0 && (size_t)sb.st_size == 32 + 4 * i.v.size(), "file size");
  }
  return finish();
}
