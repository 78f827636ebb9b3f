#include "tn.h"
#include <cfloat>
using namespace vh;
// op(A) is M x K, op(B) is K x N, C is M x N, all row-major with leading dimensions and sample offsets
static void gemm(Rng& r, int k) {
  bool ta = r.b(), tb = r.b(); int M = r.i(1, 6), N = r.i(1, 6), K = r.b(0.03) ? 0 : r.i(1, 6);
  if (k % 50 == 0) { M = r.i(6, 20); N = r.i(6, 40); K = r.i(6, 40); } else if (k % 50 == 7) { double bud = 40000; int d[3]; for (int j = 0; j < 3; j++) d[j] = r.b(0.5) && bud > 2000 ? r.i(60, 600) : r.i(1, 8), bud /= d[j]; int o = r.i(0, 2); M = d[o]; N = d[(o + 1) % 3]; K = d[(o + 2) % 3]; }
  int rowA = ta ? K : M, colA = ta ? M : K, rowB = tb ? N : K, colB = tb ? K : N;
  int ldA = std::max(1, colA) + (r.b(0.4) ? r.i(1, 3) : 0), ldB = std::max(1, colB) + (r.b(0.4) ? r.i(1, 3) : 0), ldC = N + (r.b(0.4) ? r.i(1, 3) : 0);
  int sA = r.i(0, 2), sB = r.i(0, 2), sC = r.i(0, 2);
  float al = r.b(0.3) ? 1 : (r.b(0.2) ? 0 : r.q()), be = r.b(0.4) ? 0 : (r.b(0.4) ? 1 : r.q());
  bool rowsAsSamples = r.b(0.3);   // like the convolution layer: matrix rows are the samples
  begin(str("GEMM M=%d N=%d K=%d tA=%d tB=%d ld=%d,%d,%d samples=%d,%d,%d alpha=%g beta=%g", M, N, K, ta, tb, ldA, ldB, ldC, sA, sB, sC, al, be));
  auto mk = [&](int rows, int ld, int s) { return rowsAsSamples ? new Tensor(s + rows + r.i(0, 1), ld) : (r.b() ? new Tensor(s + 1 + r.i(0, 1), ld, rows + r.i(0, 1)) : new Tensor(s + 1, ld, 1, rows)); };
  std::unique_ptr<Tensor> A(mk(std::max(1, rowA), ldA, sA)), Bt(mk(std::max(1, rowB), ldB, sB)), C(mk(M, ldC, sC));
  tn::fillq(*A, r); tn::fillq(*Bt, r); tn::fillq(*C, r);
  if (be == 0 && r.b(0.5)) for (size_t i = 0; i < C->elements_; i++) C->data_ptr_[i] = r.b(0.5) ? NAN : INFINITY;
  auto ab = tn::snap(*A), bb = tn::snap(*Bt), cb = tn::snap(*C);
  size_t oA = tn::off(*A, 0, 0, 0, sA), oB = tn::off(*Bt, 0, 0, 0, sB), oC = tn::off(*C, 0, 0, 0, sC);
  Conv::TensorMath::GEMM(true, ta, tb, M, N, K, al, *A, sA, ldA, *Bt, sB, ldB, be, *C, sC, ldC);
  check(tn::same(*A, ab) && tn::same(*Bt, bb), "an input matrix changed");
  std::vector<double> ex(cb.begin(), cb.end()), sc(cb.size(), -1);
  for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) { double s = 0, m = 0;
    for (int q = 0; q < K; q++) { double a = ab[oA + (ta ? q * ldA + i : i * ldA + q)], b = bb[oB + (tb ? j * ldB + q : q * ldB + j)]; s += a * b; m += std::fabs(a * b); }
    size_t o = oC + (size_t)ldC * i + j; ex[o] = al * s + (be == 0 ? 0.0 : (double)be * cb[o]); sc[o] = std::fabs(al) * m + (be == 0 ? 0.0 : std::fabs((double)be * cb[o])); }
  for (size_t o = 0; o < cb.size(); o++) { float g = C->data_ptr_[o];
    bool ok = sc[o] < 0 ? memcmp(&g, &cb[o], 4) == 0 : close_sum(g, ex[o], sc[o]);
    if (!check(ok, str("element %zu of C is %.9g, expected %.9g%s", o, g, ex[o], sc[o] < 0 ? " (not addressed, must stay)" : ""))) break; }
}
static void gemv(Rng& r, int k) {
  int M = r.i(1, 7), N = r.i(1, 7); if (k % 50 == 0) { M = r.i(5, 30); N = r.i(5, 60); } else if (k % 50 == 7) { M = r.i(1, 9); N = r.i(100, 700); if (r.b()) std::swap(M, N); }
  int ld = N + (r.b(0.4) ? r.i(1, 3) : 0), ix = r.b(0.6) ? 1 : r.i(2, 3), iy = r.b(0.6) ? 1 : r.i(2, 3), sA = r.i(0, 2), sX = r.i(0, 2), sY = r.i(0, 2);
  bool ta = r.b(0.3) ; if (ta) ld = M + r.i(0, 2);
  float al = r.b(0.3) ? 1 : r.q(), be = r.b(0.4) ? 0 : r.q();
  begin(str("GEMV M=%d N=%d tA=%d ld=%d inc=%d,%d samples=%d,%d,%d alpha=%g beta=%g", M, N, ta, ld, ix, iy, sA, sX, sY, al, be));
  Tensor A(sA + 1, ld, ta ? N : M), X(sX + 1, (N - 1) * ix + 1), Y(sY + 1, (M - 1) * iy + 1 + r.i(0, 2));
  tn::fillq(A, r); tn::fillq(X, r); tn::fillq(Y, r);
  if (be == 0 && r.b(0.5)) tn::setall(Y, NAN);
  auto ab = tn::snap(A), xb = tn::snap(X), yb = tn::snap(Y);
  size_t oA = tn::off(A, 0, 0, 0, sA), oX = tn::off(X, 0, 0, 0, sX), oY = tn::off(Y, 0, 0, 0, sY);
  Conv::TensorMath::GEMV(true, ta, M, N, al, A, sA, ld, X, sX, ix, be, Y, sY, iy);
  check(tn::same(A, ab) && tn::same(X, xb), "an input changed");
  std::vector<double> ex(yb.begin(), yb.end()), sc(yb.size(), -1);
  for (int i = 0; i < M; i++) { double s = 0, m = 0; for (int j = 0; j < N; j++) { double a = ab[oA + (ta ? j * ld + i : i * ld + j)], b = xb[oX + j * ix]; s += a * b; m += std::fabs(a * b); }
    size_t o = oY + (size_t)i * iy; ex[o] = al * s + (be == 0 ? 0.0 : (double)be * yb[o]); sc[o] = std::fabs(al) * m + (be == 0 ? 0.0 : std::fabs((double)be * yb[o])); }
  for (size_t o = 0; o < yb.size(); o++) { float g = Y.data_ptr_[o]; bool ok = sc[o] < 0 ? memcmp(&g, &yb[o], 4) == 0 : close_sum(g, ex[o], sc[o]);
    if (!check(ok, str("element %zu of y is %.9g, expected %.9g", o, g, ex[o]))) break; }
}
int main(int c, char** v) {
  init(c, v); tn::Quiet q; Rng r(7);
  for (int k = 0; k < 2500 * g_scale; k++) gemm(r, k);
  for (int k = 0; k < 1500 * g_scale; k++) gemv(r, k);
  return finish();
}
