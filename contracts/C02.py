"""C02: Clear / SETSAMPLE fill exactly the requested elements, Transpose permutes, copy and move keep shape and elements."""
from lib import *
SOURCES = TSRC + ["src/math/TensorMath.cpp"]

class ClearAll(Fn):
    qual = "Conv::Tensor::Clear"; nparams = 2
    def label(self): return "Tensor::Clear (whole tensor)"
    def pre(self, e, st):
        self.t = wf_tensor(e, st, "this"); t = self.t; v = e.param["value"]
        st.assume(e.param["sample"] == -1)
        e.cells[t.buf] = Cells(e, t.buf, t.shape, lambda i: z3.And(0 <= i, i < t.N), lambda i, s: e.arr(s, t.buf)[i] == v, "elements", flat=True)
    def post(self, e, st, ret, kind):
        post(e, st, e.cells[self.t.buf].post(st), "every element has the value")

class ClearSample(Fn):
    qual = "Conv::Tensor::Clear"; nparams = 2; want_ranges = True
    def label(self): return "Tensor::Clear (one sample)"
    def pre(self, e, st):
        self.t = wf_tensor(e, st, "this"); t = self.t; v = e.param["value"]; s = e.param["sample"]
        V = t.w * t.h * t.M
        st.assume(z3.And(0 <= s, s < t.S, t.N == t.S * V, V >= 0))
        st.assume(mono(s + 1, t.S, V)); st.assume(mono(0, s, V))
        lo, hi = V * s, V * (s + 1)
        e.cells[t.buf] = Cells(e, t.buf, t.shape, lambda i: z3.And(lo <= i, i < hi), lambda i, q: e.arr(q, t.buf)[i] == v, "elements", flat=True)
        self.V = V
    def post(self, e, st, ret, kind):
        t = self.t; s = e.param["sample"]; v = e.param["value"]; sh = t.shape; i = z3.Int("i")
        A = e.arr(st, t.buf); B = e.init[("b", t.buf)]
        u = sh.us(i)
        hint = z3.And(mono(u + 1, s, self.V), mono(s + 1, u, self.V))   # instances of mul-mono
        post(e, st, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < t.N, hint), A[i] == z3.If(u == s, v, B[i]))), "exactly the elements of that sample have the value")
        post(e, st, z3.ForAll([i], z3.Implies(z3.Or(i < 0, i >= t.N), A[i] == B[i])), "nothing outside the tensor is written")

class SetSample(Fn):
    qual = "Conv::TensorMath::SETSAMPLE"; nparams = 3; want_ranges = True; poly = True
    def pre(self, e, st):
        self.t = param_tensor(e, st, "A"); t = self.t; v = e.param["value"]; s = e.param["smA"]
        V = t.w * t.h * t.M
        st.assume(z3.And(-1 <= s, s < t.S, t.N == t.S * V, V >= 0, t.N > 0))
        st.assume(mono(s + 1, t.S, V)); st.assume(mono(0, s, V))
        lo = z3.If(s == -1, IV(0), V * s); hi = z3.If(s == -1, t.N, V * (s + 1))
        e.cells[t.buf] = Cells(e, t.buf, t.shape, lambda i: z3.And(lo <= i, i < hi), lambda i, q: e.arr(q, t.buf)[i] == v, "elements", flat=True)
        self.V = V
    def post(self, e, st, ret, kind):
        t = self.t; s = e.param["smA"]; v = e.param["value"]; sh = t.shape; i = z3.Int("i")
        A = e.arr(st, t.buf); B = e.init[("b", t.buf)]
        u = sh.us(i)
        hint = z3.And(mono(u + 1, s, self.V), mono(s + 1, u, self.V))
        post(e, st, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < t.N, hint), A[i] == z3.If(z3.Or(s == -1, u == s), v, B[i]))), "exactly the requested elements have the value")
        post(e, st, z3.ForAll([i], z3.Implies(z3.Or(i < 0, i >= t.N), A[i] == B[i])), "nothing outside the tensor is written")

def copy_handler(fn):
    """Tensor(const Tensor&, bool): contract proved by CopyCtor below"""
    def h(e, st, n, oid, av):
        if len(av) != 2 or not isinstance(av[0], StructV): return NotImplemented
        s = TensorView(e, st, av[0].oid)
        e.newbuf(("copy", oid), T("real", name="float"), s.N)
        for f, v in (("width_", s.w), ("height_", s.h), ("maps_", s.M), ("samples_", s.S), ("elements_", s.N)): e.wr(st, ("f", oid, f), v)
        e.wr(st, ("f", oid, "data_ptr_"), PtrV("buf", ("copy", oid), IV(0), z3.Not(s.N > 0)))
        B = fresh("copy", z3.ArraySort(I, R)); i = z3.Int("i")
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.N), B[i] == s.a[i]), patterns=[B[i]]))
        e.wr(st, ("b", ("copy", oid)), B)
    return h

class Transpose(Fn):
    qual = "Conv::Tensor::Transpose"; nparams = 0
    def handlers(self): return {"Conv::Tensor::Tensor": copy_handler(self)}
    def pre(self, e, st):
        self.t = wf_tensor(e, st, "this"); t = self.t
        st.assume(t.N == t.S * t.M * t.w * t.h); st.assume(z3.Implies(t.ptr.null, t.N == 0))
        self.old = t.shape; o = self.old; self.buf = t.buf
        self.A0 = e.init[("b", t.buf)]
        sh = Shape(t.h, t.w, t.M, t.S, t.N); self.sh = sh
        reg_shape(e, sh)
        A0 = self.A0
        e.cells[t.buf] = Cells(e, t.buf, sh, lambda i: z3.And(0 <= i, i < t.N),
            lambda i, q: e.arr(q, t.buf)[i] == A0[o.off(sh.uy(i), sh.ux(i), sh.um(i), sh.us(i))], "elements")
        # after Reshape the element count is written as the product; the layout axioms for it are the same polynomial facts
        shp = Shape(t.h, t.w, t.M, t.S, t.S * t.M * t.h * t.w); reg_shape(e, shp)
    def post(self, e, st, ret, kind):
        t = TensorView(e, st, "this"); o = self.old; sh = self.sh
        A = e.arr(st, self.buf)
        x, y, m, s = z3.Ints("x y m s")
        post(e, st, z3.Implies(o.N > 0, z3.And(t.w == o.h, t.h == o.w, t.M == o.M, t.S == o.S, t.N == o.N)), "width and height are swapped")
        post(e, st, z3.ForAll([x, y, m, s], z3.Implies(z3.And(o.inr(x, y, m, s), o.N > 0), A[sh.off(y, x, m, s)] == self.A0[o.off(x, y, m, s)])), "element (x,y) moved to (y,x)")

class CopyCtor(Fn):
    qual = "Conv::Tensor::Tensor"; nparams = 2
    poly = True
    def node(self, prog):
        for n in prog.byqual.get(self.qual, []):
            ps = params(n)
            if len(ps) == 2 and "Tensor" in ps[0]["type"]["qualType"] and "&&" not in ps[0]["type"]["qualType"]: return n
        raise ExtractionError("copy constructor not found")
    def label(self): return "Tensor::Tensor(const Tensor&, bool)"
    def pre(self, e, st):
        s = self.s = param_tensor(e, st, "tensor")
        st.assume(s.N == s.S * s.M * s.w * s.h)
        st.assume(s.N > 0)
    def post(self, e, st, ret, kind):
        t = TensorView(e, st, "this"); s = self.s; p = t.ptr
        post(e, st, z3.And(t.w == s.w, t.h == s.h, t.M == s.M, t.S == s.S, t.N == s.N), "same shape")
        if p.kind == "null": post(e, st, FALSE, "has storage"); return
        i = z3.Int("i")
        post(e, st, z3.BoolVal(p.target != s.buf), "owns storage of its own")
        post(e, st, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.N), e.arr(st, p.target)[i] == e.init[("b", s.buf)][i])), "same elements")
        post(e, st, unchanged(e, st, s), "source unchanged")

class MoveCtor(Fn):
    qual = "Conv::Tensor::Tensor"; nparams = 1
    def node(self, prog):
        for n in prog.byqual.get(self.qual, []):
            ps = params(n)
            if len(ps) == 1 and "&&" in ps[0]["type"]["qualType"]: return n
        raise ExtractionError("move constructor not found")
    def label(self): return "Tensor::Tensor(Tensor&&)"
    def pre(self, e, st):
        s = self.s = param_tensor(e, st, "tensor")
        self.o = (s.w, s.h, s.M, s.S, s.N, s.ptr, e.rd(st, ("f", s.oid, "is_shadow_"), BL), e.rd(st, ("f", s.oid, "mmapped_"), BL))
    def post(self, e, st, ret, kind):
        t = TensorView(e, st, "this"); w, h, M, S, N, p, shd, mm = self.o
        post(e, st, z3.And(t.w == w, t.h == h, t.M == M, t.S == S, t.N == N), "takes over the shape")
        post(e, st, z3.BoolVal(t.ptr.kind == "buf" and t.ptr.target == p.target and t.ptr.off.eq(p.off)), "takes over the elements")
        post(e, st, z3.BoolVal(e.arr(st, p.target).eq(e.init[("b", p.target)])), "no element is written")
        s = TensorView(e, st, self.s.oid)
        post(e, st, z3.And(s.w == 0, s.h == 0, s.M == 0, s.S == 0, s.N == 0, s.ptr.null), "source ends up empty")
        post(e, st, z3.And(e.rd(st, ("f", "this", "is_shadow_"), BL) == shd, e.rd(st, ("f", "this", "mmapped_"), BL) == mm), "takes over how the storage is to be released")

def FNS(): return [ClearAll(), ClearSample(), SetSample(), Transpose(), CopyCtor(), MoveCtor()]
def LEMMAS(): return mul_lemmas() + [l for l in layout_lemmas() if "layout" in l[0]]
