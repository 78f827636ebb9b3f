"""C27: Dataset::Colorize (class maps to colours), reading and writing of PNG images around libpng, and the pixel round trip in machine arithmetic (floating-point theory, expressions taken from the source)."""
from lib import *
from C04 import scan_inv
import cast
from cast import ctype
SOURCES = ["src/util/Colorize.cpp", "src/util/PNGUtil.cpp"] + TSRC
UINTVEC = T("vector", name="std::vector<unsigned int>")

EXACT = z3.RealVal("0.003921569")

class Colorize(Fn):
    qual = "Conv::Dataset::Colorize"
    assumptions = ("every element is >= numeric_limits<datum>::lowest() (finite values)", "GetClasses() and GetClassColors() are pure and return one colour per class, each below 2^24",
                   "the target has three maps and the image size and samples of the class maps")
    def handlers(self):
        return {"Conv::Dataset::GetClasses": lambda e, st, n, oid, av: self.cls, "Conv::Dataset::GetClassColors": lambda e, st, n, oid, av: StructV(("colors",), UINTVEC)}
    def pre(self, e, st):
        p = list(e.param); n = self.n = param_tensor(e, st, p[0], nonempty=True); t = self.t = param_tensor(e, st, p[1], nonempty=True)
        st.assume(dims_pos(n)); st.assume(z3.And(t.w == n.w, t.h == n.h, t.S == n.S, t.M == 3)); finite_above(e, st, n)
        C = self.cls = z3.Int("classes"); st.assume(z3.And(C < 2 ** 24, n.M == C)); self.mode(st, C)
        e.wr(st, ("f", ("colors",), "$size"), C); e.newbuf(("vec", ("colors",)), T("int", 32, False), C)
        col = self.col = e.arr(st, ("vec", ("colors",))); k = z3.Int("k"); st.assume(z3.ForAll([k], z3.And(0 <= col[k], col[k] < 2 ** 24), patterns=[col[k]]))
        a, sh, ts = n.a, n.shape, t.shape; self.a = a
        K = self.K = z3.Function("largest", I, I, I, I)   # first class with the largest value at a pixel
        x, y, s, c = z3.Ints("x y s c"); at = lambda x, y, c, s: a[sh.off(x, y, c, s)]; self.at = at
        kk = K(x, y, s)
        e.axioms.append(z3.ForAll([x, y, s], z3.Implies(z3.And(0 <= x, x < n.w, 0 <= y, y < n.h, 0 <= s, s < n.S), z3.And(0 <= kk, kk < C, seen(at(x, y, kk, s)))), patterns=[kk]))
        o = sh.off(x, y, c, s)
        e.axioms.append(z3.ForAll([x, y, s, c], z3.Implies(sh.inr(x, y, c, s), z3.And(a[o] <= at(x, y, kk, s), z3.Implies(c < kk, a[o] < at(x, y, kk, s)))), patterns=[z3.MultiPattern(kk, o)]))
        B = lambda v, k: v / 2 ** (16 - 8 * k) % 256 if k < 2 else v % 256
        def val(i, q):
            m = ts.um(i); X = (ts.ux(i), ts.uy(i), ts.us(i)); c = col[self.win(*X)]; f = self.factor(*X)
            by = [self.scaled(z3.ToReal(B(c, k)), f) for k in range(3)]
            return z3.If(m == 0, by[0], z3.If(m == 1, by[1], by[2]))
        self.val = val
        tol = z3.RealVal("0.000001")   # the conversion factor is the float nearest to 0.003921569
        self.Rel = lambda i, q: self.rel(e.arr(q, t.buf)[i], val(i, q), ts, i, tol)
        e.cells[t.buf] = NestCells(e, t.buf, inN(t), self.Rel, [ts.us, ts.uy, ts.ux], "colours", exts=[n.S, n.h, n.w])
    def pixel(self, e, L, st):
        ch = chain(L)
        o = e.cells[self.t.buf].order(ch[:3]); c = {j: ctr(e, st, l) for j, l in zip(o, ch)}
        return (c[2], c[1], c[0]) if len(c) == 3 else None
    def hints(self, e, L, st):
        out = []; X = self.pixel(e, L, st) if len(chain(L)) >= 3 else None
        if X:
            x, y, s = X; ts = self.t.shape; out += [seen(ts.off(x, y, IV(k), s)) for k in range(3)] + [seen(self.K(x, y, s)), seen(self.at(x, y, IV(0), s))]
        return out
    def post(self, e, st, ret, kind):
        post(e, st, e.cells[self.t.buf].post(st), "every pixel gets the colour of its class with the largest value")
        post(e, st, unchanged(e, st, self.n), "class maps unchanged")

class Single(Colorize):
    def label(self): return "Dataset::Colorize (one class)"
    def mode(self, st, C): st.assume(C == 1)
    def win(self, x, y, s): return IV(0)
    def factor(self, x, y, s): return (self.at(x, y, IV(0), s) + 1) / 2
    def scaled(self, byte, f): return (EXACT * byte) * f
    def rel(self, v, w, ts, i, tol): return v == w
    def loop_inv(self, e, L, st): return []

class Multi(Colorize):
    def label(self): return "Dataset::Colorize (two or more classes)"
    def mode(self, st, C): st.assume(C >= 2)
    def win(self, x, y, s): return self.K(x, y, s)
    def factor(self, x, y, s): return None
    def scaled(self, byte, f): return byte * z3.RealVal("0.003921569")
    def rel(self, v, w, ts, i, tol): return z3.And(v - w <= tol, w - v <= tol)
    def loop_inv(self, e, L, st):
        if len(chain(L)) != 4: return []
        mx, ix = e.accs(L, st, R), e.accs(L, st, I)
        if len(mx) != 1 or len(ix) != 1: raise ExtractionError("running maximum not recognised")
        x, y, s = self.pixel(e, L, st)
        return scan_inv(lambda k: self.at(x, y, k, s), ctr(e, st, L), mx[0], ix[0], LOWEST)

# ---- PNG files: libpng reads and writes rows of bytes; the code in between moves them to and from channels
class Png(Fn):
    assumptions = ("libpng reads and writes the rows it is given, and reports the image's size", "an image has less than 2^31 bytes")
    def nop(self, e, st, n, oid, av): return OPAQUE
    def handle(self, name):
        def h(e, st, n, oid, args): return PtrV("obj", (name, e.newid(st)), IV(0), fresh(name + "_failed", z3.BoolSort()))
        return h
    def loop_inv(self, e, L, st):
        out = []; k = z3.Int("k")
        for b in L.writes:
            if b not in e.rowbuf: continue
            A = e.arr(st, b); c = ctr(e, st, L); f = A[k] == k * self.stride
            body = z3.Implies(z3.And(0 <= k, k < c), f)
            out.append(("row pointers so far", z3.ForAll([k], body, **({"patterns": [A[k]]} if z3.is_const(A) else {}))))
        return out
    def hints(self, e, L, st):
        c = ctr(e, st, L); return [tick(c), mono(c + 1, self.H, self.stride), mono(IV(0), c, self.stride)]

class PngLoad(Png):
    qual = "Conv::PNGUtil::LoadFromStream"
    def handlers(self):
        d = {"std::png_create_read_struct": self.handle("read_struct"), "std::png_create_info_struct": self.handle("info_struct"), "std::png_destroy_read_struct": self.nop, "std::png_set_read_fn": self.nop, "std::png_read_info": self.nop, "Conv::CheckSignature": lambda e, st, n, oid, av: self.sig,
             "std::png_get_image_width": lambda e, st, n, oid, av: self.W, "std::png_get_image_height": lambda e, st, n, oid, av: self.H, "std::png_get_bit_depth": lambda e, st, n, oid, av: IV(8), "std::png_get_channels": lambda e, st, n, oid, av: self.C, "std::png_get_color_type": lambda e, st, n, oid, av: self.color,
             "std::png_read_image": self.read, "Conv::Tensor::Resize": self.resize}
        return dict(H_TENSOR, **d)
    def pre(self, e, st):
        self.W, self.H, self.C, self.color = z3.Ints("image_width image_height image_channels color_type"); self.sig = z3.Bool("signature_valid"); W, H, C = self.W, self.H, self.C
        st.assume(z3.And(W > 0, H > 0, C > 0, C <= 4, W < 2 ** 31, H < 2 ** 31, W * C < 2 ** 31, H * W * C < 2 ** 31, H * W < 2 ** 31, W * C > 0, H * W > 0, 0 <= self.color, self.color < 256))
        self.stride = W * C; self.PIX = z3.Function("pixel_byte", I, I, I); y, k = z3.Ints("y k")
        e.axioms.append(z3.ForAll([y, k], z3.And(0 <= self.PIX(y, k), self.PIX(y, k) < 256), patterns=[self.PIX(y, k)]))
        self.t = None
    def read(self, e, st, n, oid, args):
        av = [None, e.rv(args[1], st)]; rows = av[1]; R_, b = e.arr(st, rows.target), e.rowbuf[rows.target]; y, z, k = z3.Ints("y z k"); s = self.stride
        e.obl(st, z3.And(rows.off == 0, e.blen[rows.target] >= self.H), "%s: a pointer for every row" % e.fname, "precondition", n)
        st2 = st.fork(); st2.assume(z3.And(0 <= y, y < self.H, y < z, z < self.H)); st2.assume(z3.And(R_[y] == R_[y], R_[z] == R_[z], mono(y + 1, z, s), mono(z + 1, self.H, s), mono(IV(0), y, s), mono(IV(0), z, s)))
        e.obl(st2, z3.And(0 <= R_[y], z3.Or(R_[y] + s <= R_[z], R_[z] + s <= R_[y])), "%s: rows do not overlap" % e.fname, "precondition", n)
        st3 = st.fork(); st3.assume(z3.And(0 <= y, y < self.H, mono(y + 1, self.H, s), mono(IV(0), y, s)))
        e.obl(st3, z3.And(0 <= R_[y], R_[y] + s <= e.blen[b]), "%s: rows lie inside the image" % e.fname, "precondition", n)
        e.set_arr(st, b, fresh("image", z3.ArraySort(I, I))); A = e.arr(st, b); self.img = b
        st.assume(z3.ForAll([y, k], z3.Implies(z3.And(0 <= y, y < self.H, 0 <= k, k < s), A[R_[y] + k] == self.PIX(y, k)), patterns=[self.PIX(y, k)])); return OPAQUE
    def resize(self, e, st, n, oid, av):
        h_resize(e, st, n, oid, av); t = self.t = TensorView(e, st, oid); sh = t.shape; b = t.ptr.target
        def rel(i, q): v = 255 * e.arr(q, b)[i]; p = self.PIX(sh.uy(i), self.C * sh.ux(i) + sh.um(i)); return z3.And(z3.ToReal(p) <= v, v < z3.ToReal(p) + 1)
        e.cells[b] = NestCells(e, b, lambda k, N=t.N: z3.And(0 <= k, k < N), rel, [sh.um, sh.uy, sh.ux], "channels", exts=[self.C, self.H, self.W]); self.oid = oid; return OPAQUE
    def hints(self, e, L, st):
        out = Png.hints(self, e, L, st); ch = chain(L)
        if self.t is not None and len(ch) >= 3:
            c, y, x = e.cells[self.t.ptr.target].ctrs(st, ch[:3]); o = self.t.shape.off(x, y, c, IV(0)); b = self.t.shape.off(IV(0), y, c, IV(0))
            out += [seen(o), o == b + x, seen(self.PIX(y, self.C * x + c)), mono(x + 1, self.W, self.C), mono(IV(0), x, self.C), mono(y + 1, self.H, self.stride), mono(IV(0), y, self.stride), self.W * self.C * y == y * self.stride]
        return out
    def post(self, e, st, ret, kind):
        r = z3.simplify(e.to_bool(ret))
        if z3.is_false(r): return
        post(e, st, z3.And(r, z3.And(self.t.S == 1, self.t.w == self.W, self.t.h == self.H, self.t.M == self.C)) if self.t is not None else FALSE, "the tensor has the size of the image")
        if self.t is not None: post(e, st, e.cells[self.t.ptr.target].post(st), "every element is the network value of its pixel byte")

class PngWrite(Png):
    qual = "Conv::PNGUtil::WriteToStream"
    def handlers(self):
        return dict(H_TENSOR, **{"std::png_create_write_struct": self.handle("write_struct"), "std::png_create_info_struct": self.handle("info_struct"), "std::png_destroy_write_struct": self.nop, "std::png_set_write_fn": self.nop, "std::png_write_info": self.nop, "std::png_write_end": self.nop, "std::png_set_IHDR": self.ihdr, "std::png_write_image": self.write})
    def pre(self, e, st):
        t = self.t = param_tensor(e, st, list(e.param)[1], nonempty=True); st.assume(dims_pos(t)); a = t.a; i = z3.Int("i")
        st.assume(z3.And(t.w < 2 ** 24, t.h < 2 ** 24, t.w * t.h * 3 < 2 ** 31, t.w * t.h > 0)); st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < t.N), z3.And(0 <= 255 * a[i], 255 * a[i] < 256)), patterns=[a[i]]))   # a colour image
        self.H, self.stride = t.h, 3 * t.w; self.head = False; self.done = False; self.px = None
        for nm, hy, g in round_trip(e.prog): e.obls.append(Obl("PNGUtil: " + nm, hy, g, "lemma"))
        sh = self.sh = Shape(IV(3), t.w, t.h, IV(1), 3 * t.w * t.h); reg_shape(e, sh); self.e = e
    def val(self, k): t = self.t; return self.t.a[t.shape.off(self.sh.uy(k), self.sh.um(k), self.sh.ux(k), IV(0))]
    def cell(self, e, b):
        def rel(k, q): v = 255 * self.val(k); B = z3.ToReal(e.arr(q, b)[k]); return z3.And(B <= v, v < B + 1)
        if b not in e.cells: e.cells[b] = NestCells(e, b, lambda k: z3.And(0 <= k, k < self.sh.N), rel, [self.sh.um, self.sh.uy], "pixels", exts=[self.t.h, self.t.w]); self.px = b
        return e.cells[b]
    def loop_inv(self, e, L, st):
        for b in L.writes:
            if b not in e.rowbuf: self.cell(e, b)
        return Png.loop_inv(self, e, L, st)
    def hints(self, e, L, st):
        out = Png.hints(self, e, L, st); ch = chain(L); t = self.t
        if len(ch) >= 2 and self.px:
            y, x = e.cells[self.px].ctrs(st, ch[:2])
            for c in range(3): o = self.sh.off(IV(c), x, y, IV(0)); out += [seen(o), o == 3 * t.w * y + 3 * x + c, seen(t.shape.off(x, y, IV(c), IV(0)))]
            out += [mono(x + 1, t.w, IV(3)), mono(y + 1, t.h, self.stride), mono(IV(0), y, self.stride)]
        return out
    def ihdr(self, e, st, n, oid, args):
        t = self.t; av = [None, None] + [e.rv(a, st) for a in args[2:6]]; e.obl(st, z3.And(av[2] == t.w, av[3] == t.h, av[4] == 8, av[5] == 2), "%s: the header states the image's size, 8 bits and three channels" % e.fname, "postcondition", n); self.head = True; return OPAQUE
    def write(self, e, st, n, oid, args):
        av = [None, e.rv(args[1], st)]; rows = av[1]; R_, b = e.arr(st, rows.target), e.rowbuf[rows.target]; t = self.t; x, y, c = z3.Ints("x y c"); A = e.arr(st, b)
        e.obl(st, z3.And(rows.off == 0, e.blen[rows.target] >= t.h), "%s: a pointer for every row" % e.fname, "precondition", n)
        st2 = st.fork(); st2.assume(z3.And(0 <= y, y < t.h, 0 <= x, x < t.w, 0 <= c, c < 3)); o = self.sh.off(c, x, y, IV(0)); k = R_[y] + 3 * x + c
        st2.assume(z3.And(seen(o), o == 3 * t.w * y + 3 * x + c, 3 * t.w * y == y * self.stride, R_[y] == R_[y], e.cells[b].post(st2), seen(e.arr(st2, b)[o]), seen(t.shape.off(x, y, c, IV(0)))))
        v = 255 * t.a[t.shape.off(x, y, c, IV(0))]; e.obl(st, e.cells[b].post(st), "%s: every byte is the network value's" % e.fname, "postcondition", n)
        e.obl(st2, z3.And(0 <= k, k < e.blen[b], z3.ToReal(A[k]) <= v, v < z3.ToReal(A[k]) + 1), "%s: byte 3x+c of row y is that of pixel (x, y), channel c" % e.fname, "postcondition", n); self.done = True; return OPAQUE
    def post(self, e, st, ret, kind):
        r = z3.simplify(e.to_bool(ret)); t = self.t
        post(e, st, unchanged(e, st, t), "tensor unchanged")
        if z3.is_false(r): return
        post(e, st, z3.And(r, z3.BoolVal(self.head and self.done), t.S == 1, t.M == 3), "a written image has one sample and three channels")

class Machine:
    """the value of an expression of the source in IEEE arithmetic, as a term of the floating-point theory"""
    F32, F64, RNE, RTZ = z3.Float32(), z3.Float64(), z3.RNE(), z3.RTZ()
    def __init__(self, leaf, var): self.leaf, self.var = leaf, var
    def cast(self, v, src, dst):
        f = lambda t: t.k == "real"; so = lambda t: self.F32 if t.name in ("float", "datum", "Conv::datum") else self.F64
        if src.k not in ("int", "real") or dst.k not in ("int", "real"): raise ExtractionError("conversion")
        if f(src) and f(dst): return v if so(src) == so(dst) else z3.fpToFP(self.RNE, v, so(dst))
        if f(dst): return (z3.fpSignedToFP if src.sg else z3.fpUnsignedToFP)(self.RNE, v, so(dst))
        if f(src): return z3.fpToUBV(self.RTZ, v, z3.BitVecSort(dst.w)) if not dst.sg else z3.fpToSBV(self.RTZ, v, z3.BitVecSort(dst.w))
        return v if src.w == dst.w else z3.Extract(dst.w - 1, 0, v) if dst.w < src.w else z3.SignExt(dst.w - src.w, v) if src.sg else z3.ZeroExt(dst.w - src.w, v)
    def ev(self, n):
        k = n["kind"]; inner = [c for c in n.get("inner", ()) if c]
        if k in ("ParenExpr", "ExprWithCleanups", "ConstantExpr"): return self.ev(inner[0])
        if self.leaf(n): return self.var
        if k in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr"):
            if n.get("castKind") in ("NoOp", "LValueToRValue"): return self.ev(inner[0])
            return self.cast(self.ev(inner[0]), ctype(inner[0]), ctype(n))
        if k == "FloatingLiteral": return z3.fpRealToFP(self.RNE, z3.RealVal(n["value"]), self.F32 if ctype(n).name in ("float", "datum", "Conv::datum") else self.F64)   # clang prints enough digits
        if k == "IntegerLiteral": return z3.BitVecVal(int(n["value"]), ctype(n).w)
        if k == "BinaryOperator" and n["opcode"] in "+-*/" and ctype(n).k == "real":
            return {"+": z3.fpAdd, "-": z3.fpSub, "*": z3.fpMul, "/": z3.fpDiv}[n["opcode"]](self.RNE, *[self.ev(c) for c in inner])
        raise ExtractionError("expression " + k)

def walk_ast(n):
    yield n
    for c in n.get("inner", ()):
        if c: yield from walk_ast(c)

def round_trip(prog):
    """every conversion of a pixel byte in LoadFromStream, followed by every conversion to a byte in WriteToStream, is the identity on all 256 bytes"""
    byte = lambda t: t.k == "int" and t.w == 8 and not t.sg; out = []
    isfl = lambda n: ctype(n).k == "real"
    var = lambda t: lambda n: n["kind"] == "DeclRefExpr" and t(ctype(n))
    elem = lambda n: n["kind"] in ("UnaryOperator", "ArraySubscriptExpr", "DeclRefExpr", "CallExpr", "CXXMemberCallExpr") and ctype(n).k == "real"
    casts = lambda q, ok: [n for d in prog.byqual.get(q, []) if cast.body(d) for n in walk_ast(cast.body(d)) if n["kind"] in ("CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr") and ok(n)]
    has = lambda n, f: any(f(x) for x in walk_ast(n))
    L = casts("Conv::PNGUtil::LoadFromStream", lambda n: isfl(n) and has(n, var(byte))); W = casts("Conv::PNGUtil::WriteToStream", lambda n: byte(ctype(n)) and has(n, elem))
    v = z3.BitVec("pixel", 8); seen_ = set()
    for l in L:
        for w in W:
            try: f = Machine(var(byte), v).ev(l); g = Machine(elem, f).ev(w)
            except ExtractionError: continue
            if g.sexpr() in seen_: continue
            seen_.add(g.sexpr()); out.append(("pixel round trip, in machine arithmetic", [], g == v))
    return out

def FNS(): return [Multi(), Single(), PngLoad(), PngWrite()]
def LEMMAS(): return layout_lemmas()
