"""C24: TensorStreamDataset: samples, helper coordinates and weights of the stored images."""
from lib import *
SOURCES = ["src/util/TensorStreamDataset.cpp", "src/util/FloatTensorStream.cpp", "src/util/CompressedTensorStream.cpp", "src/util/ListTensorStream.cpp"] + TSRC
ARR = z3.ArraySort(I, R)
# the stored tensors of a stream: size, maps and pixels of tensor k
def stream(name):
    f = lambda n, *s: z3.Function("%s_%s" % (name, n), *s)
    return {"w": f("w", I, I), "h": f("h", I, I), "M": f("M", I, I), "n": z3.Int(name + "_n"), "px": f("px", I, I, I, I, R)}
TRAIN, TEST = stream("train"), stream("test")
BEST = z3.Function("best", ARR, I, I, I, I)   # first map with the largest value at (x, y) of a sample

def h_pixmax(e, st, n, oid, av):
    """Tensor::PixelMaximum (proved in C04)"""
    t = TensorView(e, st, oid); x, y, s = av; sh = t.shape; reg_shape(e, sh); A = t.a
    e.obl(st, z3.And(0 <= x, x < t.w, 0 <= y, y < t.h, 0 <= s, s < t.S, t.M > 0), "%s: PixelMaximum arguments inside the tensor" % e.fname, "precondition", n)
    r = BEST(A, x, y, s)
    if e.collect is None: st.assume(z3.And(0 <= r, r < t.M))
    return r

class DS(Fn):
    cls = "Conv::TensorStreamDataset"
    assumptions = ("the streams answer GetWidth, GetHeight, GetMaps and GetTensorCount consistently and CopySample as Tensor::CopySample (C03)", "one class weight per label map")
    def S(self, oid): return TRAIN if oid == self.tr else TEST if oid == self.te else self.bad()
    def bad(self): raise ExtractionError("unknown stream")
    def handlers(self):
        def get(k):
            def h(e, st, n, oid, av):
                s = self.S(oid); self.index_ok(e, st, n, s, av[0]); return s[k](av[0])
            return h
        return dict(H_TENSOR, **{"Conv::TensorStream::GetTensorCount": lambda e, st, n, oid, av: self.S(oid)["n"], "Conv::TensorStream::GetWidth": get("w"), "Conv::TensorStream::GetHeight": get("h"),
            "Conv::TensorStream::GetMaps": get("M"), "Conv::TensorStream::CopySample": self.h_copy, "Conv::Tensor::PixelMaximum": h_pixmax,
            self.cls + "::error_function_": lambda e, st, n, oid, av: self.err(*av)})
    def index_ok(self, e, st, n, s, k): e.obl(st, z3.And(0 <= k, k < s["n"]), "%s: tensor index inside the stream" % e.fname, "precondition", n)
    def h_copy(self, e, st, n, oid, av):
        s = self.S(oid); k, ss, smp = av[0], av[1], av[3]; t = TensorView(e, st, av[2].oid); sh = t.shape; reg_shape(e, sh)
        self.index_ok(e, st, n, s, k); e.obl(st, ss == 0, "%s: source sample" % e.fname, "precondition", n)
        ok = z3.And(smp < t.S, t.w >= s["w"](k), t.h >= s["h"](k), t.M == s["M"](k))
        set_cells(e, st, t, lambda i: z3.And(ok, 0 <= i, i < sh.N, sh.us(i) == smp), lambda i: self.stored(s, k, sh, i))
        return ok
    def stored(self, s, k, sh, i): return z3.If(z3.And(sh.ux(i) < s["w"](k), sh.uy(i) < s["h"](k)), s["px"](k, sh.ux(i), sh.uy(i), sh.um(i)), 0)
    def streams(self, e, st):
        CTT = T("ptr", el=T("struct", name="TensorStream"))
        p = [e.rd(st, ("f", "this", m), CTT) for m in ("training_stream_", "testing_stream_")]
        for x in p: st.assume(z3.Not(x.null))
        self.tr, self.te = p[0].target, p[1].target; k = z3.Int("k")
        for s in (TRAIN, TEST):
            st.assume(z3.And(s["n"] >= 0, s["n"] < 2 ** 31))
            e.axioms.append(z3.ForAll([k], z3.And(0 < s["w"](k), s["w"](k) < 2 ** 24), patterns=[s["w"](k)])); e.axioms.append(z3.ForAll([k], z3.And(0 < s["h"](k), s["h"](k) < 2 ** 24), patterns=[s["h"](k)]))
        self.err = z3.Function("localized_error", I, I, I, I, R)

class Get(DS):
    def __init__(self, training): self.training = training; self.qual = self.cls + ("::GetTrainingSample" if training else "::GetTestingSample")
    def pre(self, e, st):
        self.streams(e, st); s = self.s = TRAIN if self.training else TEST; p = e.param; ns = list(p)
        d, l, h, wt = self.d, self.l, self.h, self.wt = [param_tensor(e, st, n, nonempty=True) for n in ns[:4]]; smp, idx = self.smp, self.idx = p[ns[4]], p[ns[5]]
        cnt = fld(e, st, "tensor_count_training_" if self.training else "tensor_count_testing_"); st.assume(cnt == s["n"]); st.assume(fld(e, st, "tensor_count_testing_" if self.training else "tensor_count_training_") == (TEST if self.training else TRAIN)["n"])
        W, H = fld(e, st, "max_width_"), fld(e, st, "max_height_"); im, la = self.im, self.la = 2 * idx, 2 * idx + 1
        for t in (d, l, h, wt): st.assume(z3.And(dims_pos(t), t.w == W, t.h == H, t.S == d.S))
        st.assume(z3.And(h.M == 2, wt.M == 1, smp < d.S, d.M == fld(e, st, "input_maps_"), l.M == fld(e, st, "label_maps_")))
        self.pairs = idx < s["n"] / 2; st.assume(s["n"] % 2 == 0)   # the constructor rejects odd counts
        # every tensor fits (the constructor computes the largest size) and has the maps of the first
        st.assume(z3.Implies(self.pairs, z3.And(s["w"](im) <= W, s["h"](im) <= H, s["M"](im) == d.M, s["M"](la) == l.M, s["w"](la) <= W, s["h"](la) <= H)))
        cw = ("fld", "this", "class_weights_"); n = vec_size(e, st, cw); st.assume(l.M <= n); e.newbuf(("vec", cw), T("real", name="float"), n); self.cw = e.arr(st, ("vec", cw))
        dw, dh = self.dw, self.dh = s["w"](im), s["h"](im)
        hs, ws = h.shape, wt.shape
        inside = lambda sh, i: z3.And(sh.ux(i) < dw, sh.uy(i) < dh)
        def hv(i):
            x, y = z3.ToReal(hs.ux(i)), z3.ToReal(hs.uy(i)); c = z3.If(hs.um(i) == 0, z3.If(dw > 1, x / z3.ToReal(dw - 1), 0), z3.If(dh > 1, y / z3.ToReal(dh - 1), 0))
            return z3.If(inside(hs, i), c, 0)
        def wv(i, q): return self.err(ws.ux(i), ws.uy(i), dw, dh) * self.cw[BEST(e.arr(q, l.buf), ws.ux(i), ws.uy(i), smp)]
        self.hv, self.wv, self.inside = hv, wv, inside
        e.cells[h.buf] = Cells(e, h.buf, hs, lambda i: z3.And(inN(h)(i), hs.us(i) == smp), lambda i, q: e.arr(q, h.buf)[i] == hv(i), "helper")
        e.cells[wt.buf] = Cells(e, wt.buf, ws, lambda i: z3.And(inN(wt)(i), ws.us(i) == smp, inside(ws, i)), lambda i, q: e.arr(q, wt.buf)[i] == wv(i, q), "weights")
    def post(self, e, st, ret, kind):
        r = e.to_bool(ret); d, l, h, wt, s, smp = self.d, self.l, self.h, self.wt, self.s, self.smp; i = z3.Int("i")
        post(e, st, r == self.pairs, "exactly the indices of stored pairs are accepted")
        st2 = st.fork(); st2.assume(self.pairs)
        for nm, t, k in (("image", d, self.im), ("label", l, self.la)):
            A = e.arr(st2, t.buf); sh = t.shape; A0 = e.init[("b", t.buf)]
            post(e, st2, z3.ForAll([i], z3.Implies(inN(t)(i), A[i] == z3.If(sh.us(i) == smp, self.stored(s, k, sh, i), A0[i]))), "the %s is the stored one at the top left, zero elsewhere" % nm)
        A = e.arr(st2, h.buf); A0 = e.init[("b", h.buf)]; sh = h.shape
        post(e, st2, z3.ForAll([i], z3.Implies(inN(h)(i), A[i] == z3.If(sh.us(i) == smp, self.hv(i), A0[i]))), "helper coordinates depend only on the pixel position")
        A = e.arr(st2, wt.buf); A0 = e.init[("b", wt.buf)]; sh = wt.shape
        post(e, st2, z3.ForAll([i], z3.Implies(inN(wt)(i), A[i] == z3.If(sh.us(i) == smp, z3.If(self.inside(sh, i), self.wv(i, st2), 0), A0[i]))), "weight of the largest label map inside the image, zero outside")
        st3 = st.fork(); st3.assume(z3.Not(self.pairs))
        for nm, t in (("image", d), ("label", l), ("helper", h), ("weight", wt)): post(e, st3, unchanged(e, st3, t), "%s untouched when refused" % nm)

class Ctor(DS):
    """after construction the dataset's size covers every stored image and the counts are those of the streams"""
    qual = DS.cls + "::TensorStreamDataset"
    def label(self): return "TensorStreamDataset constructor"
    def node(self, prog): return [n for n in prog.byqual[self.qual] if n["kind"] == "CXXConstructorDecl" and len(params(n)) > 2][0]
    def handlers(self): return dict(DS.handlers(self), **{"Conv::Tensor::Tensor": self.h_tensor, "callptr": lambda e, st, n, oid, av: self.err(*av)})
    def h_tensor(self, e, st, n, oid, av):
        if av: raise ExtractionError("tensor constructor with arguments")
        for f in ("width_", "height_", "maps_", "samples_", "elements_"): e.wr(st, ("f", oid, f), IV(0))
        e.wr(st, ("f", oid, "data_ptr_"), NULLP)
    def pre(self, e, st):
        p = list(e.param.values()); self.tr, self.te = p[0].target, p[1].target; k = z3.Int("k")
        st.assume(z3.And(z3.Not(p[0].null), z3.Not(p[1].null)))
        for s in (TRAIN, TEST):
            st.assume(z3.And(s["n"] >= 0, s["n"] < 2 ** 31))
            e.axioms.append(z3.ForAll([k], z3.And(0 < s["w"](k), s["w"](k) < 2 ** 24), patterns=[s["w"](k)])); e.axioms.append(z3.ForAll([k], z3.And(0 < s["h"](k), s["h"](k) < 2 ** 24), patterns=[s["h"](k)]))
        st.assume(TRAIN["n"] + TEST["n"] > 0)
        self.err = z3.Function("localized_error", I, I, I, I, R)
    def covered(self, e, st, s, n):
        t = z3.Int("t"); W, H = fld(e, st, "max_width_"), fld(e, st, "max_height_")
        return z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < n), z3.And(s["w"](2 * t) <= W, s["h"](2 * t) <= H)))
    def loop_inv(self, e, L, st):
        if len(chain(L)) != 1: return []
        out = [("size only grows", z3.And(fld(e, st, "max_width_") >= fld(e, L.entry, "max_width_"), fld(e, st, "max_height_") >= fld(e, L.entry, "max_height_")))]
        for nm, s in (("training", TRAIN), ("testing", TEST)):
            if getattr(L, "bound", None) is not None and z3.is_true(z3.simplify(L.bound == s["n"] / 2)): out.append(("%s images so far fit" % nm, self.covered(e, st, s, ctr(e, st, L))))
        return out
    def post(self, e, st, ret, kind):
        for nm, s in (("training", TRAIN), ("testing", TEST)):
            post(e, st, self.covered(e, st, s, s["n"] / 2), "every %s image fits" % nm)
            if s is TRAIN: post(e, st, z3.And([fld(e, st, m) == z3.If(TRAIN["n"] > 0, TRAIN["M"](k), TEST["M"](k)) for m, k in (("input_maps_", 0), ("label_maps_", 1))]), "map counts are those of the first pair")
            post(e, st, z3.And(fld(e, st, "tensor_count_%s_" % nm) == s["n"], s["n"] % 2 == 0), "%s tensors are counted, odd counts rejected" % nm)

class FloatStream(Fn):
    """FloatTensorStream answers for tensor k of its list, as the dataset's stream contract assumes"""
    def __init__(self, q, fieldname=None): self.qual = "Conv::FloatTensorStream::" + q; self.q, self.fieldname = q, fieldname
    def handlers(self): return dict(H_TENSOR, **{"Conv::Tensor::CopySample": h_copysample})
    def pre(self, e, st):
        v = ("fld", "this", "tensors_"); self.n = vec_size(e, st, v); st.assume(self.n < 2 ** 31)
        self.k = list(e.param.values())[0] if e.param else None
        if self.k is not None:
            p = vec_ptr(e, st, v, str(z3.simplify(self.k)), T("ptr", el=T("struct", name="Tensor"))); st.assume(z3.Not(p.null)); self.t = wf_tensor(e, st, p.target, nonempty=True); st.assume(dims_pos(self.t))
        if self.q == "CopySample":
            ns = list(e.param); self.target = param_tensor(e, st, ns[2], nonempty=True); st.assume(dims_pos(self.target)); self.ss, self.smp = e.param[ns[1]], e.param[ns[3]]
    def post(self, e, st, ret, kind):
        if self.q == "GetTensorCount": return post(e, st, ret == self.n, "the number of tensors")
        if self.fieldname: return post(e, st, ret == z3.If(self.k < self.n, getattr(self.t, self.fieldname), 0), "that of the tensor with this index")
        s, t = self.t, self.target; sh = t.shape; i = z3.Int("i"); A, A0 = e.arr(st, t.buf), e.init[("b", t.buf)]
        ok = z3.And(self.k < self.n, self.ss < s.S, self.smp < t.S, t.w >= s.w, t.h >= s.h, s.M == t.M)
        post(e, st, e.to_bool(ret) == ok, "exactly samples that fit are copied")
        val = z3.If(z3.And(sh.ux(i) < s.w, sh.uy(i) < s.h), s.a[s.shape.off(sh.ux(i), sh.uy(i), sh.um(i), self.ss)], 0)
        post(e, st, z3.ForAll([i], z3.Implies(inN(t)(i), A[i] == z3.If(z3.And(ok, sh.us(i) == self.smp), val, A0[i]))), "the sample holds the stored pixels, zero outside")
        post(e, st, unchanged(e, st, s), "stored tensor unchanged")

class CompStream(Fn):
    """CompressedTensorStream answers for compressed tensor k of its list; every buffer it hands out stays inside its memory"""
    assumptions = ("the stored compressed tensors are non-empty and hold encoded elements (C06); the temporary tensor holds as many elements as the largest of them, which LoadFile establishes under its own contract",)
    def __init__(self, q, fieldname=None): self.qual = "Conv::CompressedTensorStream::" + q; self.q, self.fieldname = q, fieldname
    def handlers(self): return dict(H_TENSOR, **{"Conv::Tensor::CopySample": h_copysample, "Conv::CompressedTensor::Decompress": self.h_decompress, "Conv::Tensor::Resize": self.h_adopt})
    def pre(self, e, st):
        v = ("fld", "this", "tensors_"); self.n = vec_size(e, st, v); st.assume(self.n < 2 ** 31)
        self.k = list(e.param.values())[0] if e.param else None
        if self.k is None: return
        p = vec_ptr(e, st, v, str(z3.simplify(self.k)), T("ptr", el=T("struct", name="CompressedTensor"))); st.assume(z3.Not(p.null)); self.oid = p.target
        self.f = {m: e.rd(st, ("f", p.target, f), U64) for m, f in (("w", "width_"), ("h", "height_"), ("M", "maps_"), ("S", "samples_"), ("N", "elements_"))}
        S, w, h, M, N = [self.f[m] for m in "SwhMN"]; sh = self.sh = Shape(w, h, M, S, N); st.assume(z3.And(S > 0, w > 0, h > 0, M > 0, N > 0)); reg_shape(e, sh)
        self.P = z3.Const("stored_elements", ARR)
        if self.q != "CopySample": return
        ns = list(e.param); self.target = param_tensor(e, st, ns[2], nonempty=True); st.assume(dims_pos(self.target)); self.ss, self.smp = e.param[ns[1]], e.param[ns[3]]; st.assume(self.smp < self.target.S)
        t = self.tmp = wf_tensor(e, st, ("fld", "this", "temp_tensor_"), nonempty=True); st.assume(dims_pos(t)); mx = self.mx = fld(e, st, "max_elements_"); st.assume(N <= mx); e.axioms.append(e.blen[t.buf] >= mx); self.own = t.ptr
        st.assume(z3.And(self.target.N < 2 ** 40, mx < 2 ** 40)); self.sample_axioms(e, self.target.shape, sh)
    def sample_axioms(self, e, sh, one):
        """a tensor of one sample is laid out like each sample of a tensor with the same width, height and maps (lemmas layout-7, sample-1, sample-2)"""
        i, m, s, x, y = z3.Ints("i m s x y"); b = sh.off(IV(0), IV(0), IV(0), s); o = sh.off(x, y, m, s); fits = z3.And(one.w == sh.w, one.h == sh.h, one.M == sh.M, one.S == 1); rng = z3.And(fits, 0 <= s, s < sh.S)
        e.axioms.append(z3.ForAll([i, s], z3.Implies(z3.And(rng, 0 <= i, i < sh.N), z3.And(b <= i, i < b + one.N) == (sh.us(i) == s)), patterns=[z3.MultiPattern(b, sh.us(i))]))
        e.axioms.append(z3.ForAll([i, s], z3.Implies(z3.And(rng, 0 <= i, i < sh.N, sh.us(i) == s), i == b + one.off(sh.ux(i), sh.uy(i), sh.um(i), IV(0))), patterns=[z3.MultiPattern(b, sh.us(i))]))
        e.axioms.append(z3.ForAll([s], z3.Implies(rng, z3.And(0 <= b, b + one.N <= sh.N)), patterns=[b]))
    def set_dims(self, e, st, oid, S, w, h, M, N):
        for f, v in (("samples_", S), ("width_", w), ("height_", h), ("maps_", M), ("elements_", N)): e.wr(st, ("f", oid, f), v)
    def h_decompress(self, e, st, n, oid, av):
        """CompressedTensor::Decompress (proved in C06) into memory the tensor already has"""
        t = TensorView(e, st, av[0].oid); d = av[1]; N = self.f["N"]; old = t.ptr
        e.obl(st, z3.BoolVal(oid == self.oid), "%s: the named tensor is decompressed" % e.fname, "precondition", n)
        e.obl(st, z3.And(z3.BoolVal(d.kind == "buf" and d.target == old.target), d.off == old.off), "%s: decompressed into the tensor's own memory, so nothing is freed" % e.fname, "precondition", n)
        e.obl(st, z3.And(z3.Not(d.null), 0 <= d.off, d.off + N <= e.blen[d.target]), "%s: every element fits into the memory" % e.fname, "precondition", n)
        A = e.arr(st, d.target); Nw = fresh("dec", A.sort()); i = z3.Int("i")
        st.assume(z3.ForAll([i], Nw[i] == z3.If(z3.And(d.off <= i, i < d.off + N), self.P[i - d.off], A[i]), patterns=[Nw[i]])); e.set_arr(st, d.target, Nw)
        self.set_dims(e, st, av[0].oid, self.f["S"], self.f["w"], self.f["h"], self.f["M"], N); e.wr(st, ("f", av[0].oid, "mmapped_"), FALSE); return OPAQUE
    def h_adopt(self, e, st, n, oid, av):
        """Tensor::Resize with memory handed in (proved in C01)"""
        p = av[4]; old = TensorView(e, st, oid).ptr
        if not isinstance(p, PtrV) or p.kind != "buf": raise ExtractionError("Resize without given memory")
        same = z3.And(z3.BoolVal(p.target == old.target), p.off == old.off)
        e.obl(st, z3.And(z3.Not(p.null), z3.Or(same, e.to_bool(av[6]) if len(av) > 6 and av[6] is not None else FALSE)), "%s: memory in use is not freed" % e.fname, "precondition", n)
        S, w, h, M = [av[k] if av[k] is not None else IV(1) for k in range(4)]; N = fresh("vol", I); st.assume(z3.And(N == S * w * h * M))
        self.set_dims(e, st, oid, S, w, h, M, N); e.wr(st, ("f", oid, "data_ptr_"), p); e.wr(st, ("f", oid, "mmapped_"), av[5] if len(av) > 5 and av[5] is not None else FALSE); return OPAQUE
    def post(self, e, st, ret, kind):
        if self.q == "GetTensorCount": return post(e, st, ret == self.n, "the number of tensors")
        if self.fieldname: return post(e, st, ret == z3.If(self.k < self.n, self.f[self.fieldname], 0), "that of the tensor with this index")
        t, f, ss = self.target, self.f, self.sh; sh = t.shape; i = z3.Int("i"); A, A0 = e.arr(st, t.buf), e.init[("b", t.buf)]
        ok = z3.And(self.k < self.n, self.ss < f["S"], t.w >= f["w"], t.h >= f["h"], f["M"] == t.M)
        post(e, st, e.to_bool(ret) == ok, "exactly samples that fit are copied")
        for g in (sh, ss): reg_shape(e, g)
        val = z3.If(z3.And(sh.ux(i) < f["w"], sh.uy(i) < f["h"]), self.P[ss.off(sh.ux(i), sh.uy(i), sh.um(i), self.ss)], 0)
        post(e, st, z3.ForAll([i], z3.Implies(inN(t)(i), A[i] == z3.If(z3.And(ok, sh.us(i) == self.smp), val, A0[i]))), "the sample holds the stored pixels, zero outside")
        q = TensorView(e, st, ("fld", "this", "temp_tensor_")); p = q.ptr
        post(e, st, z3.And(z3.BoolVal(p.kind == "buf" and p.target == self.own.target), p.off == self.own.off), "the temporary tensor keeps its memory")

class ListStream(Fn):
    """ListTensorStream answers from its list: sizes noted when the list was read, pixels from the file"""
    def __init__(self, q, fieldname=None): self.qual = "Conv::ListTensorStream::" + q; self.q, self.fieldname = q, fieldname
    def handlers(self): return dict(H_TENSOR, **{"Conv::Tensor::CopySample": h_copysample, "Conv::Tensor::Tensor": self.h_tensor})
    def h_tensor(self, e, st, n, oid, av): raise ExtractionError("tensor constructed")
    def entry(self, e, st):
        self.n = vec_size(e, st, ("fld", "this", "tensors_")); st.assume(self.n < 2 ** 31); self.k = list(e.param.values())[0] if e.param else None
        if self.k is not None: self.md = ("fld", ("fld", "this", "tensors_"), "[%s]" % z3.simplify(self.k))
    def pre(self, e, st):
        self.entry(e, st)
        if self.fieldname: self.v = e.rd(st, ("f", self.md, self.fieldname), U64)
    def post(self, e, st, ret, kind):
        if self.q == "GetTensorCount": return post(e, st, ret == self.n, "the number of tensors")
        post(e, st, ret == z3.If(self.k < self.n, self.v, 0), "that of the entry with this index")

class ListCopy(ListStream):
    """image, label with one class, label with several classes; label files have three channels or one"""
    assumptions = ("reading an image file gives a non-empty tensor of one sample; label images have one or three channels",)
    def __init__(self, what, maps=None): ListStream.__init__(self, "CopySample"); self.what, self.maps = what, maps
    def label(self): return "ListTensorStream::CopySample (%s)" % (self.what + (", %d channel%s" % (self.maps, "s" * (self.maps > 1)) if self.maps else ""))
    def pre(self, e, st):
        self.entry(e, st); ns = list(e.param); self.t = t = param_tensor(e, st, ns[2], nonempty=True); st.assume(dims_pos(t)); self.ss, self.smp = e.param[ns[1]], e.param[ns[3]]
        cv = ("fld", "this", "class_colors_"); C = self.C = vec_size(e, st, cv); st.assume(C < 2 ** 24); e.newbuf(("vec", cv), T("int", 32, False), C); self.col = e.arr(st, ("vec", cv))
        k = z3.Int("k"); st.assume(z3.ForAll([k], z3.And(0 <= self.col[k], self.col[k] < 2 ** 32), patterns=[self.col[k]]))
        st.assume(self.k % 2 == (0 if self.what == "image" else 1)); st.assume({"image": TRUE, "one class": C == 1, "several classes": C >= 2}[self.what])
        self.F = z3.Const("file_pixels", ARR); self.lab = None
        d = self.d = {f: z3.Int("file_" + f) for f in ("width_", "height_", "maps_", "elements_")}; st.assume(z3.And([z3.And(v > 0, v < 2 ** 31) for v in d.values()]))
        if self.maps: st.assume(d["maps_"] == self.maps)
        self.fs = Shape(d["width_"], d["height_"], d["maps_"], IV(1), d["elements_"]); reg_shape(e, self.fs)
    def chan(self, c, j): return z3.ToReal(self.col[c] / 2 ** (16 - 8 * j) % 256) * z3.RealVal("0.003921569")
    def pix(self, x, y, j): return self.F[self.fs.off(x, y, IV(j if self.maps == 3 else 0), IV(0))]
    def h_tensor(self, e, st, n, oid, av):
        if len(av) == 1:
            for f, v in dict(self.d, samples_=IV(1)).items(): e.wr(st, ("f", oid, f), v)
            b = ("file",); e.newbuf(b, T("real", name="float"), self.d["elements_"]); e.wr(st, ("b", b), self.F); e.wr(st, ("f", oid, "data_ptr_"), PtrV("buf", b, IV(0), FALSE)); return OPAQUE
        for f in ("samples_", "width_", "height_", "maps_", "elements_"): e.wr(st, ("f", oid, f), IV(0))
        e.wr(st, ("f", oid, "data_ptr_"), NULLP); h_resize(e, st, n, oid, av)
        l = TensorView(e, st, oid); sh = self.ls = l.shape; self.lab = l.buf
        e.cells[l.buf] = Cells(e, l.buf, sh, lambda i: z3.And(0 <= i, i < sh.N), lambda i, q: e.arr(q, l.buf)[i] == self.want(sh.ux(i), sh.uy(i), sh.um(i)), "class maps"); return OPAQUE
    def want(self, x, y, c):
        if self.what == "several classes": return z3.If(z3.And([self.pix(x, y, j) == self.chan(c, j) for j in range(3)]), z3.RealVal(1), z3.RealVal(0))
        df = [self.pix(x, y, j) - self.chan(IV(0), j) for j in range(3)]; return 1 - 2 * (UF["sqrt"](sum((v * v for v in df[1:]), df[0] * df[0])) / UF["sqrt"](z3.RealVal(3)))
    def loop_inv(self, e, L, st):
        out = []; k = z3.Int("k")
        if len(chain(L)) == 1:
            for b, ws in sorted(getattr(L, "wvals", {}).items(), key=str):
                if b[0] != "new" or e.bty[b].k != "real": continue
                for j in range(3):
                    s = L.head.fork()
                    if all(e.valid_qf(s, z3.Implies(z3.And(p), z3.And(v == self.chan(i, j), i == ctr(e, L.head, L)))) for i, v, p in ws): out.append(("class colours, channel %d" % j, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ctr(e, st, L)), e.arr(st, b)[k] == self.chan(k, j)), patterns=[e.arr(st, b)[k]]))); break
        return out
    def post(self, e, st, ret, kind):
        t, d = self.t, self.d; sh = t.shape; i = z3.Int("i"); A, A0 = e.arr(st, t.buf), e.init[("b", t.buf)]; image = self.what == "image"
        M = d["maps_"] if image else self.C; ok = z3.And(self.k < self.n, self.ss < 1, self.smp < t.S, t.w >= d["width_"], t.h >= d["height_"], M == t.M)
        post(e, st, e.to_bool(ret) == ok, "exactly samples that fit are copied")
        x, y, m = sh.ux(i), sh.uy(i), sh.um(i); v = self.F[self.fs.off(x, y, m, self.ss)] if image else self.want(x, y, m)
        post(e, st, z3.ForAll([i], z3.Implies(inN(t)(i), A[i] == z3.If(z3.And(ok, sh.us(i) == self.smp), z3.If(z3.And(x < d["width_"], y < d["height_"]), v, 0), A0[i]))), "the sample holds the file's pixels" if image else "the sample holds the class maps of the label image")

class Load(Fn):
    """LoadFile appends the tensors of the file in stored order; the temporary tensor of a compressed stream holds as many elements as the largest of them"""
    assumptions = ("reading tensor k of a file yields its k-th tensor, reading behind the last one an empty tensor (C05, C06); files hold non-empty tensors",)
    def __init__(self, cls, el): self.cls, self.el = cls, "Conv::" + el; self.qual = "Conv::%s::LoadFile" % cls; self.packed = el.startswith("Comp")
    def pos(self, e, st): return e.rd(st, ("g", "$position"), T("int", 64, True))
    def h_new(self, e, st, n, oid, av):
        if av: raise ExtractionError("constructor with arguments")
        e.wr_arr(st, self.bufs["elements_"], e.soa[oid][1], IV(0))
    def h_read(self, e, st, n, oid, av):
        p = self.pos(e, st); a = e.soa[oid][1]; more = p < self.N
        if len(av) > 1 and not isinstance(av[1], tuple): e.obl(st, z3.Not(e.to_bool(av[1])) if av[1] is not None else TRUE, "%s: the data is read, not only the header" % e.fname, "precondition", n)
        e.wr_arr(st, self.bufs["elements_"], a, z3.If(more, self.TE(p), 0)); e.wr_arr(st, self.bufs["$source"], a, p); e.wr(st, ("g", "$position"), z3.If(more, p + 1, p)); return OPAQUE
    def h_resize(self, e, st, n, oid, av):
        v = IV(1)
        for k in range(4): v = v * (av[k] if k < len(av) and av[k] is not None else IV(1))
        e.wr(st, ("f", oid, "elements_"), v); self.resized = True; return OPAQUE
    def handlers(self):
        def eof(e, st, n, bv, args): r = fresh("eof", B); st.assume(z3.Implies(r, self.pos(e, st) >= self.N)); return r
        nop = lambda e, st, n, bv, args: OPAQUE
        def magic(e, st, n, bv, args):
            p = e.rv(args[0], st); e.wr(st, ("g", "$magic"), IV(1))
            lv = e.deref(st, p, T("int", 64, False), n); e.store(st, lv, z3.Int("file_magic"), n); return OPAQUE
        return dict(H_TENSOR, **{"method:eof": eof, "method:peek": nop, "method:good": lambda e, st, n, bv, args: fresh("good", B), "method:read": magic, "method:flush": nop, "std::open": lambda e, st, n, o, av: fresh("fd", I), "open": lambda e, st, n, oid, av: fresh("fd", I),
            self.el + "::" + self.el.split("::")[1]: self.h_new, self.el + "::Deserialize": self.h_read, "Conv::Tensor::Resize": self.h_resize})
    def pre(self, e, st):
        k = z3.Int("k"); v = self.v = ("fld", "this", "tensors_"); e.heap_class(st, self.el, {"elements_": U64, "$source": T("int", 64, True)}); self.bufs, _, self.n0 = e.heap[self.el]
        self.s0 = vec_size(e, st, v); b = ("vec", v); e.newbuf(b, T("int", 64, True), self.s0); e.ptrvec[v] = self.el; st.assume(self.s0 < 2 ** 31); self.A0 = e.init[("b", b)]
        self.N = z3.Int("tensors_in_file"); self.TE = z3.Function("elements_of_stored", I, I); st.assume(z3.And(0 <= self.N, self.N < 2 ** 30, self.pos(e, st) == 0)); e.axioms.append(z3.ForAll([k], z3.And(0 < self.TE(k), self.TE(k) < 2 ** 40), patterns=[self.TE(k)]))
        if self.packed: self.mx0 = e.rd(st, ("f", "this", "max_elements_"), U64); st.assume(self.mx0 < 2 ** 40)
    def listed(self, e, st, p):
        k = z3.Int("k"); A = e.arr(st, ("vec", self.v)); E, Sr = e.arr(st, self.bufs["elements_"]), e.arr(st, self.bufs["$source"]); j = A[k]
        new = z3.And(self.n0 <= j, j < self.n0 + p, Sr[j] == k - self.s0, E[j] == self.TE(k - self.s0))
        return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.s0 + p), z3.If(k < self.s0, A[k] == self.A0[k], new)))
    def largest(self, e, st, p):
        mx = e.rd(st, ("f", "this", "max_elements_"), U64); k = z3.Int("k"); return z3.And(mx >= self.mx0, mx < 2 ** 40, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < p), self.TE(k) <= mx), patterns=[self.TE(k)]))
    def loop_inv(self, e, L, st):
        p = self.pos(e, st); out = [("position", z3.And(0 <= p, p <= self.N)), ("one entry per tensor read", z3.And(vec_size(e, st, self.v) == self.s0 + p, e.heap_next(st, self.el) == self.n0 + p)), ("listed in stored order", self.listed(e, st, p))]
        return out + ([("largest so far", self.largest(e, st, p))] if self.packed else [])
    def post(self, e, st, ret, kind):
        post(e, st, z3.And(self.pos(e, st) == self.N, vec_size(e, st, self.v) == self.s0 + self.N), "every tensor of the file is listed"); post(e, st, self.listed(e, st, self.N), "tensors are listed in stored order, behind those listed before")
        if self.packed:
            post(e, st, self.largest(e, st, self.N), "the largest element count is known"); mx = e.rd(st, ("f", "this", "max_elements_"), U64)
            post(e, st, e.rd(st, ("f", ("fld", "this", "temp_tensor_"), "elements_"), U64) >= mx, "the temporary tensor holds as many elements as the largest tensor")

def FNS(): return [Load("FloatTensorStream", "Tensor"), Load("CompressedTensorStream", "CompressedTensor"), Get(True), Get(False), Ctor(), FloatStream("GetTensorCount"), FloatStream("GetWidth", "w"), FloatStream("GetHeight", "h"), FloatStream("GetMaps", "M"), FloatStream("CopySample")] + [CompStream("GetTensorCount"), CompStream("GetWidth", "w"), CompStream("GetHeight", "h"), CompStream("GetMaps", "M"), CompStream("CopySample")] + [ListStream("GetTensorCount")] + [ListStream("Get" + f.capitalize() if f != "maps" else "GetMaps", f) for f in ("width", "height", "maps")] + [ListCopy("image")] + [ListCopy(w, m) for w in ("one class", "several classes") for m in (3, 1)]
def LEMMAS():
    w, h, M, S, N, V, x, y, m, s = z3.Ints("w h M S N V x y m s"); off = lambda s: s * (M * h * w) + m * (h * w) + y * w + x
    return layout_lemmas() + [("sample-1: an element's position is its sample's start plus its position in a tensor of one sample", [], off(s) == s * (M * h * w) + off(IV(0))),
        ("sample-2: a sample's block lies inside the tensor", [0 <= s, s < S, V >= 0, mono(s + 1, S, V), mono(0, s, V)], z3.And(0 <= s * V, s * V + V <= S * V))]
