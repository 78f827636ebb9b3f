"""C01: addressing is a bijection; Resize/Reshape keep dimensions, element count and storage consistent."""
from lib import *
SOURCES = TSRC

class Offset(Fn):
    qual = "Conv::Tensor::Offset"; nparams = 4; poly = True
    def pre(self, e, st):
        self.t = TensorView(e, st, "this")
        _ = (self.t.w, self.t.h, self.t.M, self.t.S)
    def post(self, e, st, ret, kind):
        p = e.param; sh = self.t
        post(e, st, ret == poly_off(self.t.shape, p["x"], p["y"], p["map"], p["sample"]), "result is the row-major position (x fastest, then y, map, sample)")

class DataPtr(Fn):
    nparams = 4
    def __init__(self, q): self.qual = q
    def pre(self, e, st):
        self.t = wf_tensor(e, st, "this", nonempty=True)
        p = e.param
        st.assume(self.t.shape.inr(p["x"], p["y"], p["map"], p["sample"]))
    def post(self, e, st, ret, kind):
        p = e.param
        post(e, st, z3.And(z3.BoolVal(ret.kind == "buf" and ret.target == self.t.buf), ret.off == self.t.shape.off(p["x"], p["y"], p["map"], p["sample"]),
                           0 <= ret.off, ret.off < e.blen[self.t.buf]), "points at the addressed element, inside the storage")

class Accessor(Fn):
    nparams = 0
    def __init__(self, name, field): self.qual, self.f_ = "Conv::Tensor::" + name, field
    def pre(self, e, st): self.v = e.rd(st, ("f", "this", self.f_), U64)
    def post(self, e, st, ret, kind): post(e, st, ret == self.v, "reports " + self.f_)

class Bracket(Fn):
    nparams = 1
    def __init__(self, q): self.qual = q
    def pre(self, e, st):
        self.t = wf_tensor(e, st, "this", nonempty=True)
        st.assume(z3.And(0 <= e.param["element"], e.param["element"] < self.t.N))
    def post(self, e, st, ret, kind):
        post(e, st, z3.And(z3.BoolVal(isinstance(ret, LElem) and ret.buf == self.t.buf), ret.idx == e.param["element"]), "refers to the element with that number")

def consistent(e, st, oid, strict=True):
    tv = TensorView(e, st, oid); p = tv.ptr
    if p.kind == "null":
        return z3.And(tv.N == 0)
    return z3.And(tv.N == tv.S * tv.M * tv.w * tv.h, z3.Implies(tv.N > 0, z3.And(z3.Not(p.null), p.off == 0, e.blen[p.target] >= tv.N)))

class Reshape(Fn):
    qual = "Conv::Tensor::Reshape"; nparams = 4; poly = True
    def pre(self, e, st):
        self.t = wf_tensor(e, st, "this")
        t = self.t
        st.assume(t.N == t.S * t.M * t.w * t.h)
        self.old = (t.w, t.h, t.M, t.S, t.N, t.ptr, t.buf)
    def post(self, e, st, ret, kind):
        p = e.param; w, h, M, S, N, ptr, buf = self.old
        t = TensorView(e, st, "this")
        ok = z3.And(z3.Not(ptr.null), p["samples"] * p["width"] * p["height"] * p["maps"] == N)
        r = e.to_bool(ret)
        post(e, st, r == ok, "succeeds exactly if the tensor has data and the element count is unchanged")
        post(e, st, z3.Implies(r, z3.And(t.w == p["width"], t.h == p["height"], t.M == p["maps"], t.S == p["samples"], t.N == N)), "takes the new dimensions")
        post(e, st, z3.Implies(z3.Not(r), z3.And(t.w == w, t.h == h, t.M == M, t.S == S, t.N == N)), "refused reshape keeps the dimensions")
        post(e, st, t.N == t.S * t.M * t.w * t.h, "element count is the product of the dimensions")
        post(e, st, z3.BoolVal(e.arr(st, buf).eq(e.init[("b", buf)]) and t.ptr.target == buf and z3.is_true(z3.simplify(t.ptr.off == 0))), "no element is written and the storage stays")

class Resize7(Fn):
    qual = "Conv::Tensor::Resize"; nparams = 7; poly = True
    def pre(self, e, st):
        self.t = wf_tensor(e, st, "this")
        t = self.t
        st.assume(t.N == t.S * t.M * t.w * t.h)
        st.assume(z3.Implies(t.ptr.null, t.N == 0))
        p = e.param
        self.pm = p["preallocated_memory"]
        st.assume(z3.And(p["samples"] > 0, p["width"] > 0, p["height"] > 0, p["maps"] > 0))
        v = p["samples"] * p["maps"] * p["width"] * p["height"]
        st.assume(v > 0)   # lemma pos-product
        # caller's obligation: memory handed in is large enough
        e.axioms.append(e.blen[self.pm.target] >= v)
        self.v = v
    def post(self, e, st, ret, kind):
        p = e.param
        t = TensorView(e, st, "this")
        post(e, st, z3.And(t.w == p["width"], t.h == p["height"], t.M == p["maps"], t.S == p["samples"]), "dimensions are the requested ones")
        post(e, st, t.N == self.v, "element count is the product of the dimensions")
        pt = t.ptr
        if pt.kind == "null": post(e, st, FALSE, "storage exists"); return
        post(e, st, z3.And(z3.Not(pt.null), pt.off == 0, e.blen[pt.target] >= t.N), "storage holds every element")

class Resize7Zero(Fn):
    """resizing to zero elements leaves an empty tensor"""
    qual = "Conv::Tensor::Resize"; nparams = 7; poly = True
    def label(self): return "Tensor::Resize (zero elements)"
    def pre(self, e, st):
        self.t = wf_tensor(e, st, "this")
        t = self.t
        st.assume(t.N == t.S * t.M * t.w * t.h)
        st.assume(z3.Implies(t.ptr.null, t.N == 0)); st.assume(z3.Implies(z3.Not(t.ptr.null), t.N > 0))
        p = e.param
        st.assume(z3.And(p["samples"] * p["maps"] * p["width"] * p["height"] == 0, p["preallocated_memory"].null, z3.Not(p["dont_delete"])))
    def post(self, e, st, ret, kind):
        t = TensorView(e, st, "this")
        post(e, st, t.N == t.S * t.M * t.w * t.h, "element count is the product of the dimensions")
        post(e, st, t.N == 0, "no elements remain")

class ResizeLike(Fn):
    qual = "Conv::Tensor::Resize"; nparams = 1; poly = True
    def pre(self, e, st):
        self.t = wf_tensor(e, st, "this"); self.s = param_tensor(e, st, "tensor")
        st.assume(self.t.N == vol(self.t)); st.assume(self.s.N == vol(self.s)); st.assume(self.s.N > 0)
        st.assume(z3.Implies(self.t.ptr.null, self.t.N == 0))
        st.assume(z3.Implies(z3.And(self.s.N > 0), z3.And(self.s.w > 0, self.s.h > 0, self.s.M > 0, self.s.S > 0)))
    def post(self, e, st, ret, kind):
        t = TensorView(e, st, "this"); s = self.s
        post(e, st, z3.And(t.w == s.w, t.h == s.h, t.M == s.M, t.S == s.S, t.N == vol(t)), "takes the other tensor's dimensions")
        pt = t.ptr
        if pt.kind == "null": post(e, st, FALSE, "storage exists"); return
        post(e, st, z3.And(z3.Not(pt.null), pt.off == 0, e.blen[pt.target] >= t.N), "storage holds every element")
        post(e, st, unchanged(e, st, s), "source elements unchanged")

class Delete(Fn):
    qual = "Conv::Tensor::DeleteIfPossible"; nparams = 0
    def pre(self, e, st): self.t = wf_tensor(e, st, "this")
    def post(self, e, st, ret, kind):
        t = TensorView(e, st, "this")
        post(e, st, z3.And(t.w == 0, t.h == 0, t.M == 0, t.S == 0, t.N == 0, t.ptr.null if t.ptr.kind != "null" else TRUE), "tensor is empty afterwards")

def FNS():
    q = "Conv::Tensor::"
    return [Offset(), DataPtr(q + "data_ptr"), DataPtr(q + "data_ptr_const"), Accessor("samples", "samples_"), Accessor("maps", "maps_"), Accessor("width", "width_"),
            Accessor("height", "height_"), Accessor("elements", "elements_"), Bracket(q + "operator[]"), Bracket(q + "operator()"),
            Reshape(), Resize7(), Resize7Zero(), ResizeLike(), Delete()]

def LEMMAS():
    a, b = z3.Ints("a b")
    return layout_lemmas() + [("pos-product: a,b>0 => a*b>0", [a > 0, b > 0], a * b > 0)]
