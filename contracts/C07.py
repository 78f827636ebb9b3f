"""C07: GEMM / GEMV (reference implementation): result elements, everything else unchanged."""
from lib import *
SOURCES = ["src/math/TensorMath.cpp"] + TSRC

class Gemm(Fn):
    qual = "Conv::TensorMath::GEMM"; nparams = 17
    def pre(self, e, st):
        p = e.param
        A, Bt, C = [param_tensor(e, st, x, nonempty=True) for x in "ABC"]
        self.A, self.B_, self.C = A, Bt, C
        M, N, K, ta, tb = p["M"], p["N"], p["K"], p["transpose_A"], p["transpose_B"]
        ldA, ldB, ldC = p["ldA"], p["ldB"], p["ldC"]
        for t, s in ((A, "smA"), (Bt, "smB"), (C, "smC")):
            st.assume(z3.And(0 <= p[s], p[s] < t.S, t.w > 0, t.h > 0, t.M > 0))
        st.assume(z3.And(p["is_row_major"], M >= 0, N >= 0, K >= 0, ldC >= N, ldA >= 0, ldB >= 0))
        oa, ob, oc = [t.shape.off(IV(0), IV(0), IV(0), p[s]) for t, s in ((A, "smA"), (Bt, "smB"), (C, "smC"))]
        # the addressed matrices lie inside the tensors
        st.assume(z3.Implies(z3.And(M > 0, K > 0), oa + z3.If(ta, ldA * (K - 1) + M, ldA * (M - 1) + K) <= A.N))
        st.assume(z3.Implies(z3.And(N > 0, K > 0), ob + z3.If(tb, ldB * (N - 1) + K, ldB * (K - 1) + N) <= Bt.N))
        st.assume(z3.Implies(z3.And(M > 0, N > 0), oc + ldC * (M - 1) + N <= C.N))
        a0, b0, c0 = [e.init[("b", t.buf)] for t in (A, Bt, C)]
        self.dot = Sum(e, "dot", 2, lambda i, j, k: a0[oa + z3.If(ta, k * ldA + i, i * ldA + k)] * b0[ob + z3.If(tb, j * ldB + k, k * ldB + j)])
        ad = self.ad = Addr(e, "C", [M, N], lambda i, j: oc + ldC * i + j)
        al, be = p["alpha"], p["beta"]
        e.cells[C.buf] = NestCells(e, C.buf, ad.D, lambda q, s: e.arr(s, C.buf)[q] == z3.If(be == 0, al * self.dot(ad.c[0](q), ad.c[1](q), K),
                                   be * c0[q] + al * self.dot(ad.c[0](q), ad.c[1](q), K)), [ad.c[0], ad.c[1]], "result")
    def loop_inv(self, e, L, st):
        ch = chain(L)
        if len(ch) == 3:
            a = e.accs(L, st, R)
            if len(a) != 1: raise ExtractionError("accumulator not recognised")
            return [("partial dot product", a[0] == self.dot(ctr(e, st, ch[0]), ctr(e, st, ch[1]), ctr(e, st, L)))]
        return []
    def hints(self, e, L, st):
        p = e.param; ch = chain(L); n = ctr(e, st, L); out = [tick(n)]
        i = ctr(e, st, ch[0])
        if len(ch) >= 2:
            j = ctr(e, st, ch[1]); out.append(seen(self.ad.f(i, j)))
            x = self.ad.f(i, j); out.append(z3.Implies(z3.And(0 <= i, i < p["M"], 0 <= j, j < p["N"]), z3.And(self.ad.D(x), x == self.ad.f(i, j))))
            out += [mono(i, p["M"] - 1, p["ldC"]), mono(IV(0), i, p["ldC"])]
        if len(ch) == 3:
            for v, ex, ld in ((i, p["M"], p["ldA"]), (n, p["K"], p["ldA"]), (j, p["N"], p["ldB"]), (n, p["K"], p["ldB"])):
                out += [mono(v, ex - 1, ld), mono(IV(0), v, ld)]
        return out
    def post(self, e, st, ret, kind):
        post(e, st, e.cells[self.C.buf].post(st), "addressed elements hold alpha*op(A)*op(B)+beta*C (beta zero ignores C), every other element is unchanged")
        for t, n in ((self.A, "A"), (self.B_, "B")): post(e, st, unchanged(e, st, t), n + " unchanged")

class Gemv(Fn):
    qual = "Conv::TensorMath::GEMV"; nparams = 15
    def pre(self, e, st):
        p = e.param
        A, X, Y = [param_tensor(e, st, x, nonempty=True) for x in "AXY"]
        self.A, self.X, self.Y = A, X, Y
        M, N, ta = p["M"], p["N"], p["transpose_A"]; ld, ix, iy = p["ldA"], p["incX"], p["incY"]
        for t, s in ((A, "smA"), (X, "smX"), (Y, "smY")):
            st.assume(z3.And(0 <= p[s], p[s] < t.S, t.w > 0, t.h > 0, t.M > 0))
        st.assume(z3.And(p["is_row_major"], M >= 0, N >= 0, ld >= 0, ix >= 0, iy >= 1))
        oa, ox, oy = [t.shape.off(IV(0), IV(0), IV(0), p[s]) for t, s in ((A, "smA"), (X, "smX"), (Y, "smY"))]
        st.assume(z3.Implies(z3.And(M > 0, N > 0), oa + z3.If(ta, ld * (N - 1) + M, ld * (M - 1) + N) <= A.N))
        st.assume(z3.Implies(N > 0, ox + ix * (N - 1) < X.N))
        st.assume(z3.Implies(M > 0, oy + iy * (M - 1) < Y.N))
        a0, x0, y0 = [e.init[("b", t.buf)] for t in (A, X, Y)]
        self.dot = Sum(e, "dot", 1, lambda i, k: a0[oa + z3.If(ta, k * ld + i, i * ld + k)] * x0[ox + k * ix])
        ad = self.ad = Addr(e, "Y", [M], lambda i: oy + iy * i)
        al, be = p["alpha"], p["beta"]
        e.cells[Y.buf] = NestCells(e, Y.buf, ad.D, lambda q, s: e.arr(s, Y.buf)[q] == z3.If(be == 0, al * self.dot(ad.c[0](q), N),
                                   be * y0[q] + al * self.dot(ad.c[0](q), N)), [ad.c[0]], "result")
    def loop_inv(self, e, L, st):
        ch = chain(L)
        if len(ch) == 2:
            a = e.accs(L, st, R)
            if len(a) != 1: raise ExtractionError("accumulator not recognised")
            return [("partial dot product", a[0] == self.dot(ctr(e, st, ch[0]), ctr(e, st, L)))]
        return []
    def hints(self, e, L, st):
        p = e.param; ch = chain(L); n = ctr(e, st, L); i = ctr(e, st, ch[0]); x = self.ad.f(i)
        out = [tick(n), z3.Implies(z3.And(0 <= i, i < p["M"]), z3.And(self.ad.D(x), x == self.ad.f(i)))]
        for v, ex, ld in ((i, p["M"], p["incY"]), (i, p["M"], p["ldA"])) + (((n, p["N"], p["ldA"]), (n, p["N"], p["incX"])) if len(ch) == 2 else ()):
            out += [mono(v, ex - 1, ld), mono(IV(0), v, ld)]
        return out
    def post(self, e, st, ret, kind):
        post(e, st, e.cells[self.Y.buf].post(st), "addressed elements hold alpha*op(A)*x+beta*y (beta zero ignores y), every other element is unchanged")
        for t, n in ((self.A, "A"), (self.X, "x")): post(e, st, unchanged(e, st, t), n + " unchanged")

def FNS(): return [Gemm(), Gemv()]
def LEMMAS():
    i1, i2, j1, j2, ld, N, i = z3.Ints("i1 i2 j1 j2 ld N i")
    return layout_lemmas() + [
        ("rows do not overlap: ld >= N makes (i,j) -> ld*i+j injective", [ld >= N, 0 <= j1, j1 < N, 0 <= j2, j2 < N, ld * i1 + j1 == ld * i2 + j2, mono(i1 + 1, i2, ld), mono(i2 + 1, i1, ld)], z3.And(i1 == i2, j1 == j2)),
        ("strided vector addresses are injective", [ld >= 1, ld * i1 == ld * i2, mono(i1 + 1, i2, ld), mono(i2 + 1, i1, ld)], i1 == i2)]
