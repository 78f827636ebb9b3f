"""C06: the run-length codec of compressed tensors and their serialisation.

The file format is given by a reference decoder, a byte-driven machine kept as ghost state: 'X' 'X' stands for the byte 'X', 'X' 'Y' n c0 c1 c2 c3
(n >= 1) for n times the four bytes c0..c3, any other byte for itself. CompressData: every byte it stores is fed to the machine, which at the
end has produced exactly the bytes of the elements. DecompressData: on any input the machine accepts it produces the same bytes."""
from lib import *
SOURCES = ["src/util/CompressedTensor.cpp"]
GH = "codec"; G = ("ghost", "decoded"); X, Y = 88, 89

def gk(n): return ("f", GH, "$" + n)
def gv(e, st, n): return e.rd(st, gk(n), I32)
def machine(e, st, N):
    e.newbuf(G, T("int", 32, True), IV(2 ** 62))
    for n in ("s", "g", "fed", "n", "c0", "c1", "c2"): e.wr(st, gk(n), IV(0)); e.init[gk(n)] = IV(0)

def emit_run(e, st, g, n, c):
    """n times the four bytes c are appended to the decoded bytes"""
    D = e.arr(st, G); Nw = fresh("run", D.sort()); j = z3.Int("j"); q = (j - g) % 4
    st.assume(z3.ForAll([j], Nw[j] == z3.If(z3.And(g <= j, j < g + 4 * n), z3.If(q == 0, c[0], z3.If(q == 1, c[1], z3.If(q == 2, c[2], c[3]))), D[j]), patterns=[Nw[j]]))
    return Nw

def feed(e, st, b):
    """one step of the reference decoder"""
    s = z3.simplify(gv(e, st, "s")); g, n = gv(e, st, "g"), gv(e, st, "n"); c = [gv(e, st, "c%d" % k) for k in range(3)]; D = e.arr(st, G)
    def at(k):
        q = z3.simplify(s == k)
        return q if z3.is_true(q) or z3.is_false(q) or e.collect is not None else (TRUE if e.valid_qf(st, q) else FALSE if e.valid_qf(st, z3.Not(q)) else q)
    W = [at(k) for k in range(7)]
    def sel(cases, other):
        r = other
        for w, v in cases:
            if z3.is_true(w): return v
            if not z3.is_false(w): r = e.ite(w, v, r)
        return r
    isX = z3.simplify(b == X); isX = TRUE if e.collect is None and e.valid_qf(st, isX) else FALSE if e.collect is None and e.valid_qf(st, z3.Not(isX)) else isX
    def pick(q, x, y): return x if z3.is_true(q) else y if z3.is_false(q) else z3.If(q, x, y)
    lit = z3.simplify(z3.Or(z3.And(W[0], z3.Not(isX)), z3.And(W[1], isX)))
    D2 = D if z3.is_false(lit) else z3.Store(D, g, b) if z3.is_true(lit) else z3.If(lit, z3.Store(D, g, b), D)
    if not z3.is_false(W[6]): Dr = emit_run(e, st, g, n, c + [b]); D2 = pick(W[6], Dr, D2)
    e.wr(st, gk("g"), z3.simplify(sel([(W[6], g + 4 * n)], pick(lit, g + 1, g))))
    e.wr(st, gk("s"), z3.simplify(sel([(W[0], pick(isX, IV(1), IV(0))), (W[1], pick(isX, IV(0), z3.If(b == Y, IV(2), IV(-1)))), (W[2], IV(3)), (W[3], IV(4)), (W[4], IV(5)), (W[5], IV(6)), (W[6], IV(0))], IV(-1))))
    e.wr(st, gk("n"), sel([(W[2], b)], n))
    for k in range(3): e.wr(st, gk("c%d" % k), sel([(W[3 + k], b)], c[k]))
    e.set_arr(st, G, D2); e.wr(st, gk("fed"), z3.simplify(gv(e, st, "fed") + 1))

def outer_locals(e, L, st):
    """integer locals the loop changes, by what the code does with them: only ever counted up / also assigned"""
    def strip(x):
        while x["kind"] in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr"): x = [c for c in x["inner"] if c][0]
        return x
    top = chain(L)[0]; assigned = set()
    for x in walk(top.node):
        if x["kind"] == "BinaryOperator" and x["opcode"] == "=":
            l = strip(x["inner"][0])
            if l["kind"] == "DeclRefExpr": assigned.add(l["referencedDecl"]["id"])
    cs = {c[0] for l in chain(L) for c in l.counters}
    ints = [k for k in st.store if k[0] == "v" and k[1] == () and k in top.entry.store and is_int(st.store[k]) and k in {**top.scal} and k not in cs]
    return [k for k in ints if k[2] not in assigned], [k for k in ints if k[2] in assigned], [k for k in top.scal if k[0] == "v" and isinstance(top.scal[k][0], PtrV)], [k for k in top.scal if k[0] == "v" and k[2] in assigned and is_real(st.store.get(k))]

class Compress(Fn):
    qual = "Conv::CompressedTensor::CompressData"
    assumptions = ("elements are compared and copied as values: two elements that compare equal have the same bytes (true except for the two zeros), a not-a-number equals nothing", "byte values are 0..255 whatever the signedness of char")
    def pre(self, e, st):
        N = self.N = e.param["uncompressed_elements"]; st.assume(z3.And(0 <= N, N < 2 ** 40))
        self.d = ("elements",); e.newbuf(self.d, T("real", name="float"), N); self.o = ("output",); e.newbuf(self.o, T("int", 8, False), 8 * N + 2)
        fix_param(e, st, "uncompressed", PtrV("buf", self.d, IV(0), N == 0)); fix_param(e, st, "compressed", PtrV("buf", self.o, IV(0), FALSE))
        machine(e, st, N); self.A = e.arr(st, self.d)
        e.store_hook[self.o] = self.stored
    def stored(self, e, st, idx, v, n):
        e.obl(st, idx == gv(e, st, "fed"), "%s: output bytes are written in order" % e.fname, "postcondition", n)
        e.obl(st, z3.And(0 <= v, v < 256), "%s: stored values are bytes" % e.fname, "postcondition", n) if not (z3.is_app(v) and v.decl().eq(BYTE)) else None
        feed(e, st, v)
        e.obl(st, z3.And(gv(e, st, "s") >= 0, z3.Implies(gv(e, st, "s") == 3, gv(e, st, "n") >= 1)), "%s: the output is a valid encoding" % e.fname, "postcondition", n)
    def want(self, e, st, upto):
        j = z3.Int("j"); D = e.arr(st, G)
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < upto), D[j] == BYTE(self.A[j / 4], j % 4)))
    def loop_inv(self, e, L, st):
        ch = chain(L); top = ch[0]; N = self.N; k = z3.Int("k"); g, fed = gv(e, st, "g"), gv(e, st, "fed"); pos = ctr(e, st, top)
        outs, runs, ptrs, syms = outer_locals(e, L, st); rl = st.store[runs[0]]
        common = [("machine between tokens", gv(e, st, "s") == 0), ("output counters", z3.And([st.store[o] == fed for o in outs] + [st.store[p].off == fed for p in ptrs])),
                  ("output size", z3.And(fed <= 2 * g, g >= 0, fed >= 0)), ("decoded so far", self.want(e, st, g))]
        if len(ch) == 1:
            return common + [("elements decoded", z3.And(g == 4 * (pos - rl), rl >= 0, rl < 253, rl <= pos, z3.Or(pos > 0, rl == 0), z3.Implies(pos > N, rl == 1))), ("pending run", z3.And([z3.ForAll([k], z3.Implies(z3.And(pos - rl <= k, k < pos, k < N), self.A[k] == st.store[s])) for s in syms])), ("position", z3.And(pos >= 0, pos <= N + 1))]
        r = ctr(e, st, L); g0 = gv(e, L.entry, "g")
        return common + [("elements written", z3.And(0 <= r, r <= rl, g == g0 + 4 * r))]
    def post(self, e, st, ret, kind):
        N = self.N
        post(e, st, z3.And(gv(e, st, "s") == 0, gv(e, st, "g") == 4 * N), "the output decodes to as many bytes as the elements have")
        post(e, st, self.want(e, st, 4 * N), "the output decodes to the bytes of the elements")
        post(e, st, e.rd(st, ("p", "compressed_length"), U64) == gv(e, st, "fed"), "the reported length is that of the output")
        post(e, st, gv(e, st, "fed") <= 8 * N + 2, "at most twice the raw size plus two bytes")
        post(e, st, TRUE if e.arr(st, self.d).eq(e.init[("b", self.d)]) else FALSE, "elements unchanged")

class Decompress(Fn):
    qual = "Conv::CompressedTensor::DecompressData"
    assumptions = Compress.assumptions[1:] + ("the input is a valid encoding of the elements (what CompressData produces)",)
    def pre(self, e, st):
        n = self.n = e.param["compressed_length"]; N = self.N = z3.Int("encoded_elements"); st.assume(z3.And(0 <= N, N < 2 ** 40, 0 <= n, n < 2 ** 43))
        self.c = ("input",); e.newbuf(self.c, T("int", 8, False), n); self.o = ("output",); e.newbuf(self.o, T("int", 8, False), 4 * N); self.A = e.arr(st, self.c)
        k = z3.Int("k"); st.assume(z3.ForAll([k], z3.And(0 <= self.A[k], self.A[k] < 256), patterns=[self.A[k]]))
        fix_param(e, st, "compressed", PtrV("buf", self.c, IV(0), FALSE)); fix_param(e, st, "uncompressed", PtrV("buf", self.o, IV(0), FALSE))
        machine(e, st, N); e.load_hook[self.c] = self.loaded
        self.valid(e, st)
    def valid(self, e, st):
        """the machine accepts the input and produces 4*N bytes: what that says about its current state"""
        s, g, fed = gv(e, st, "s"), gv(e, st, "g"), gv(e, st, "fed")
        st.assume(z3.And(s >= 0, z3.Implies(s == 3, gv(e, st, "n") >= 1), g <= 4 * self.N, z3.Implies(fed >= self.n, z3.And(s == 0, g == 4 * self.N)), fed <= self.n))
    def loaded(self, e, st, idx, n):
        """the machine reads along; a run's four bytes it takes as soon as the run length is known"""
        fed = gv(e, st, "fed"); e.obl(st, idx <= fed, "%s: input bytes are read in order" % e.fname, "postcondition", n)
        new = z3.simplify(idx == fed)
        if e.collect is None and e.valid_qf(st, new): new = TRUE
        elif e.collect is None and e.valid_qf(st, z3.Not(new)): return
        old = {k: e.rd(st, k) for k in [gk(x) for x in ("s", "g", "fed", "n", "c0", "c1", "c2")] + [("b", G)]}
        feed(e, st, self.A[idx]); s = gv(e, st, "s")
        run = z3.simplify(s == 3); run = TRUE if z3.is_true(run) or e.collect is None and e.valid_qf(st, run) else FALSE if e.collect is None and e.valid_qf(st, z3.Not(run)) else run
        if not z3.is_false(run):
            mid = {k: e.rd(st, k) for k in old}
            self.valid(e, st)
            for j in range(4):
                feed(e, st, self.A[idx + 1 + j])
                if z3.is_true(run) and z3.is_true(new): self.valid(e, st)
            if not z3.is_true(run):
                for k in old: e.wr(st, k, e.ite(run, e.rd(st, k), mid[k]))
        if not z3.is_true(new):
            for k in old: e.wr(st, k, e.ite(new, e.rd(st, k), old[k]))
        self.valid(e, st)
    def loop_inv(self, e, L, st):
        ch = chain(L); j = z3.Int("j"); g, fed = gv(e, st, "g"), gv(e, st, "fed"); pos = e.cval(st, ch[0].counter); D, O = e.arr(st, G), e.arr(st, self.o)
        cs = {c[0] for l in ch for c in l.counters}
        def counted(): return [k for k in ch[0].scal if k[0] == "v" and k not in cs and k in st.store and (is_int(st.store[k]) or isinstance(st.store[k], PtrV))]
        val = lambda k: st.store[k].off if isinstance(st.store[k], PtrV) else st.store[k]
        def out(upto): return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < upto), O[j] == D[j]))
        if len(ch) == 1:
            return [("machine between tokens", z3.And(gv(e, st, "s") == 0, fed == pos, pos >= 0, pos <= self.n)), ("output counters", z3.And([val(k) == g for k in counted()] + [g >= 0, g <= 4 * self.N, z3.Implies(pos == self.n, g == 4 * self.N)])), ("written so far", out(g))]
        r = ctr(e, st, L); E = lambda k: L.entry.store[k].off if isinstance(L.entry.store[k], PtrV) else L.entry.store[k]
        b0 = E(counted()[0])
        return [("machine waits", z3.And([gv(e, st, x) == gv(e, L.entry, x) for x in ("s", "g", "fed")] + [D == e.arr(L.entry, G)])), ("position", pos == e.cval(L.entry, ch[0].counter)), ("output counters", z3.And([val(k) == b0 + 4 * r for k in counted()])), ("written so far", out(b0 + 4 * r))]
    def post(self, e, st, ret, kind):
        j = z3.Int("j"); D, O = e.arr(st, G), e.arr(st, self.o)
        post(e, st, e.rd(st, ("p", "uncompressed_elements"), U64) == self.N, "the number of elements is that which was encoded")
        post(e, st, z3.And(gv(e, st, "fed") == self.n, gv(e, st, "s") == 0), "the whole input is decoded")
        post(e, st, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < 4 * self.N), O[j] == D[j])), "the output is what the input encodes")

FIELDS = ("samples_", "width_", "height_", "maps_", "elements_", "compressed_length_")
class Obj:
    """a CompressedTensor object"""
    def __init__(self, e, st, oid): self.e, self.oid = e, oid; self.S, self.w, self.h, self.M, self.N, self.len = [e.rd(st, ("f", oid, f), U64) for f in FIELDS]; self.ptr = e.rd(st, ("f", oid, "compressed_data_ptr_"), T("ptr", el=T("int", 8, True))); self.mapped = e.rd(st, ("f", oid, "mmapped_"), BL)
def wf_obj(e, st, oid):
    """shape and length belong to each other; data exist exactly if there is a length"""
    o = Obj(e, st, oid); st.assume(z3.And([v >= 0 for v in (o.S, o.w, o.h, o.M, o.N, o.len)])); st.assume(o.N == o.S * o.w * o.h * o.M); st.assume((o.len > 0) == (o.N > 0)); st.assume(o.ptr.null == (o.len == 0)); e.axioms.append(e.blen[o.ptr.target] == o.len)
    st.assume(z3.Implies(o.mapped, z3.Not(o.ptr.null))); e.rd(st, ("f", oid, "original_mmap_"), T("ptr", el=T("void"))); return o

class Release(Fn):
    """one call releases old storage exactly once: a mapping by munmap, other memory by delete[]"""
    def handlers(self): return {"std::munmap": self.h_munmap}
    def h_munmap(self, e, st, n, oid, args):
        p = e.rv(args[0], st); m = e.init[("f", "this", "original_mmap_")]
        e.obl(st, z3.And(e.init[("f", "this", "mmapped_")], z3.Not(self.o.ptr.null)), "%s: only mappings are unmapped" % e.fname, "precondition", n)
        e.obl(st, z3.BoolVal(isinstance(p, PtrV) and p.kind == m.kind and p.target == m.target), "%s: the remembered mapping is released" % e.fname, "precondition", n); return fresh("munmap", I)
    def pre(self, e, st): self.o = wf_obj(e, st, "this")

class Resize(Release):
    qual = "Conv::CompressedTensor::Resize"
    def pre(self, e, st): Release.pre(self, e, st); self.mem = e.param["preallocated_memory"]; st.assume(z3.And([e.param[k] >= 0 for k in ("samples", "width", "height", "maps", "compressed_length")])); self.a = [e.param[k] for k in ("samples", "width", "height", "maps", "compressed_length")]; self.mm = e.param["mmapped"]; st.assume(z3.Implies(self.mem.null, z3.Not(self.mm)))
    def post(self, e, st, ret, kind):
        S, w, h, M, ln = self.a; q = Obj(e, st, "this"); s2 = st.fork(); s2.assume(ln > 0)
        post(e, s2, z3.And(q.S == S, q.w == w, q.h == h, q.M == M, q.N == S * w * h * M, q.len == ln), "shape and length are the arguments")
        post(e, s2, z3.Not(q.ptr.null) if q.ptr.kind != "null" else FALSE, "data exist")
        if q.ptr.kind == "buf":
            if q.ptr.target == self.mem.target: post(e, s2, z3.And(z3.Not(self.mem.null), q.ptr.off == self.mem.off), "the given memory is used"); post(e, s2, q.mapped == self.mm, "memory kind remembered")
            else: post(e, s2, z3.And(self.mem.null, q.ptr.off == 0, e.blen[q.ptr.target] >= ln), "new memory holds the data"); post(e, s2, z3.Not(q.mapped), "memory kind remembered")
        s3 = st.fork(); s3.assume(ln == 0)
        post(e, s3, z3.And(q.N == 0, q.len == 0, q.ptr.null), "empty without data")

class CompressT(Release):
    qual = "Conv::CompressedTensor::Compress"
    def handlers(self): return dict(Release.handlers(self), **{"Conv::CompressedTensor::CompressData": self.codec})
    def pre(self, e, st):
        Release.pre(self, e, st); t = self.t = param_tensor(e, st, "tensor"); st.assume(t.N == t.S * t.w * t.h * t.M); st.assume(z3.And(t.N < 2 ** 40, t.N > 0))
    def codec(self, e, st, n, oid, av):
        src, N, dst = av[0], av[1], av[2]; t = self.t
        e.obl(st, z3.And(z3.BoolVal(isinstance(src, PtrV) and src.target == t.ptr.target), src.off == 0, N == t.N), "%s: all elements of the tensor are compressed" % e.fname, "precondition", n)
        e.obl(st, z3.And(dst.off == 0, e.blen[dst.target] >= 8 * t.N + 2), "%s: the output buffer is large enough" % e.fname, "precondition", n)
        ln = fresh("clen", I); st.assume(z3.And(0 < ln, ln <= 8 * t.N + 2)); e.store(st, e.ev(e.inner(n)[4], st), ln, n); self.dst, self.ln = dst, ln; return OPAQUE
    def post(self, e, st, ret, kind):
        t = self.t; q = Obj(e, st, "this")
        post(e, st, z3.And(q.S == t.S, q.w == t.w, q.h == t.h, q.M == t.M, q.N == t.N), "shape of the tensor")
        post(e, st, z3.And(z3.BoolVal(q.ptr.kind == "buf" and q.ptr.target == self.dst.target), q.ptr.off == 0, q.len == self.ln, z3.Not(q.mapped)), "the compressed bytes are kept")
        post(e, st, unchanged(e, st, t), "tensor unchanged")

class DecompressT(Fn):
    qual = "Conv::CompressedTensor::Decompress"
    assumptions = ("the compressed bytes encode as many elements as the shape says (what Compress and Deserialize leave behind)",)
    def handlers(self): return {"Conv::CompressedTensor::DecompressData": self.codec, "Conv::Tensor::Resize": self.resize}
    def pre(self, e, st):
        o = self.o = wf_obj(e, st, "this"); st.assume(z3.And(o.N > 0, o.N < 2 ** 40)); self.out = None; self.kept = None
        p = e.param["preallocated_buffer"]; e.axioms.append(e.blen[p.target] >= o.N)
    def codec(self, e, st, n, oid, av):
        dst, src, ln = av[0], av[2], av[3]; o = self.o
        e.obl(st, z3.And(z3.BoolVal(isinstance(src, PtrV) and src.target == o.ptr.target), src.off == 0, ln == o.len), "%s: exactly the compressed bytes are decoded" % e.fname, "precondition", n)
        e.obl(st, z3.And(z3.Not(dst.null), dst.off == 0, e.blen[dst.target] >= o.N), "%s: the output buffer holds every element" % e.fname, "precondition", n)
        e.store(st, e.ev(e.inner(n)[2], st), o.N, n); self.outs = getattr(self, "outs", []) + [dst.target]; e.wr(st, ("f", "codec", "$into"), PtrV("buf", dst.target, dst.off, dst.null)); return OPAQUE
    def resize(self, e, st, n, oid, av):
        o = self.o; d = e.rd(st, ("f", "codec", "$into"))
        e.obl(st, z3.And(av[0] == o.S, av[1] == o.w, av[2] == o.h, av[3] == o.M), "%s: the tensor gets the shape of the data" % e.fname, "postcondition", n)
        e.obl(st, z3.BoolVal(oid == e.param["tensor"].oid and isinstance(av[4], PtrV) and av[4].target == d.target) if av[4] is not None else FALSE, "%s: the tensor gets the decoded elements" % e.fname, "postcondition", n)
        e.obl(st, z3.Not(av[5]) if len(av) > 5 and av[5] is not None else TRUE, "%s: the memory is not a mapping" % e.fname, "postcondition", n)
        e.wr(st, ("f", "codec", "$done"), TRUE); return OPAQUE
    def post(self, e, st, ret, kind):
        d = st.store.get(("f", "codec", "$done")); post(e, st, d if d is not None else FALSE, "the tensor is set")

class SerC(LazyStream, Fn):
    qual = "Conv::CompressedTensor::Serialize"
    def handlers(self): return self.stream_handlers()
    def pre(self, e, st): self.o = wf_obj(e, st, "this"); self.stream = ByteStream(e, st, e.param["output"].oid)
    def post(self, e, st, ret, kind):
        s, o = self.stream, self.o; p = s.p0; U, Bt = s.arr(st, 8), s.arr(st, 1); k = z3.Int("k"); A = e.arr(e.entry, o.ptr.target)
        for j, (nm, v) in enumerate((("samples", o.S), ("width", o.w), ("height", o.h), ("maps", o.M), ("compressed length", o.len))): post(e, st, U[p + 8 * j] == v, "header holds " + nm)
        post(e, st, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < o.len), Bt[p + 40 + k] == A[k])), "the bytes follow the header in order")
        post(e, st, s.pos(st) == p + 40 + o.len, "nothing else is written")
        post(e, st, s.kept_before(st, e.entry), "what was written before stays")

class DeC(LazyStream, Fn):
    qual = "Conv::CompressedTensor::Deserialize"
    assumptions = ("the stream holds the bytes that are read", "mapping a file succeeds and shows the bytes of the file at the mapped position; the descriptor and the stream refer to the same file")
    def __init__(self, mode, head): self.mode, self.head = mode, head
    def label(self): return "CompressedTensor::Deserialize (%s%s)" % (self.mode, ", header only" if self.head else "")
    def handlers(self): return dict(self.stream_handlers(), **{"std::mmap64": self.h_mmap, "std::munmap": self.h_munmap})
    def pre(self, e, st):
        self.o = wf_obj(e, st, "this"); s = self.stream = ByteStream(e, st, e.param["input"].oid); U = s.arr(st, 8); p = s.p0
        fix_param(e, st, "try_mmap", z3.BoolVal(self.mode != "read")); fix_param(e, st, "head_only", z3.BoolVal(self.head))
        if self.mode == "no descriptor": fix_param(e, st, "fd", IV(0))
        elif self.mode == "map": st.assume(e.param["fd"] != 0)
        self.d = S, w, h, M, ln = [U[p + 8 * j] for j in range(5)]; st.assume(z3.And(ln >= 0, ln < 2 ** 60, p < 2 ** 60, S * w * h * M >= 0)); st.assume((ln > 0) == (S * w * h * M > 0))
        self.page = z3.Int("page_size"); st.assume(z3.And(self.page > 0, self.page < 2 ** 31)); e.handlers["std::sysconf"] = lambda e, st, n, o, a: self.page
    def h_mmap(self, e, st, n, oid, args):
        av = [e.rv(a, st) for a in args]; ln, fd, at = av[1], av[4], av[5]
        e.obl(st, z3.And(at >= 0, at % self.page == 0), "%s: mapping starts at a page boundary" % e.fname, "precondition", n)
        e.obl(st, fd == e.param["fd"], "%s: the given file is mapped" % e.fname, "precondition", n)
        b = ("mapping",); e.newbuf(b, T("int", 8, False), ln); self.at, self.ln = at, ln
        return PtrV("buf", b, IV(0), FALSE)
    def h_munmap(self, e, st, n, oid, args):
        p = e.rv(args[0], st)
        e.obl(st, z3.BoolVal(not (isinstance(p, PtrV) and p.target == ("mapping",))), "%s: the new mapping is not released" % e.fname, "precondition", n)
        return fresh("munmap", I)
    def post(self, e, st, ret, kind):
        s = self.stream; p = s.p0; Bt = s.arr(e.entry, 1); k = z3.Int("k"); S, w, h, M, ln = self.d; q = Obj(e, st, "this"); s2 = st.fork(); s2.assume(ln > 0)
        post(e, st, s.pos(st) == p + 40 + ln, "exactly the bytes of this record are consumed")
        post(e, s2, z3.And(q.S == S, q.w == w, q.h == h, q.M == M, q.len == ln, q.N == S * w * h * M), "shape and length of the header")
        s3 = st.fork(); s3.assume(ln == 0); post(e, s3, z3.And(q.N == 0, q.len == 0), "an empty record stays empty")
        if self.head: return
        if q.ptr.kind == "null": post(e, s2, FALSE, "data exist"); return
        post(e, s2, z3.Not(q.ptr.null), "data exist")
        if q.ptr.target == ("mapping",):
            post(e, s2, self.at + q.ptr.off == p + 40, "the data are those at the reading position of the file")
            post(e, s2, q.ptr.off + ln <= self.ln, "the mapping holds every byte")
            post(e, s2, q.mapped, "remembered as mapped")
            m = e.rd(s2, ("f", "this", "original_mmap_"), T("ptr", el=T("void")))
            post(e, s2, z3.And(z3.BoolVal(m.target == ("mapping",)), m.off == 0) if isinstance(m, PtrV) and m.kind == "buf" else FALSE, "the mapping's start is remembered for its release")
        else:
            post(e, s2, z3.BoolVal(self.mode != "map"), "mapped if asked for"); post(e, s2, z3.Not(q.mapped), "remembered as allocated")
            A = e.arr(s2, q.ptr.target)
            post(e, s2, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ln), A[q.ptr.off + k] == Bt[p + 40 + k])), "the bytes are those of the stream")

def FNS(): return [Compress(), Decompress(), Resize(), CompressT(), DecompressT(), SerC()] + [DeC(m, h) for m in ("read", "no descriptor", "map") for h in (False, True)]
