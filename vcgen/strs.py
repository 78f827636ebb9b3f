"""Engine extension for functions over std::string: strings are values of the solvers' sequence theory (std::string, C
string literals, the text of a stringstream, a regular expression's pattern); the library operations have these contracts:

  find(t, p)      first position >= p at which t occurs, npos if none          substr(p, n)   throws unless p <= size
  compare(p, n, t) zero exactly for equal texts, throws unless p <= size        operator+      concatenation
  atoi, >>         functions of the text (the number a text stands for is the C library's business)
  regex_match      whether the whole text is in the language of the pattern (POSIX extended syntax, translated below)
"""
import ast, json
import z3
from sym import *
from cast import *

S = z3.StringSort(); NPOS = 2 ** 64 - 1
ATOI = z3.Function("atoi", S, I); NUM = z3.Function("number_read_from", S, R); ITOS = z3.Function("decimal_digits", I, S)
AT = z3.Function("occurs_at", S, S, I, B)
CHR = z3.Function("char_at", S, I, I)
def is_str(v): return isinstance(v, z3.SeqRef)
def strtype(t):
    if t is None: return False
    if t.k == "ref": t = t.el
    return t.k == "struct" and (t.name or "").replace("std::", "").replace("__cxx11::", "").startswith(("basic_string<", "string")) and "stream" not in t.name and "view" not in t.name
def rxtype(t): return t is not None and t.k == "struct" and "basic_regex" in (t.name or "")
def lit(s): return z3.StringVal(s)
def is_lit(s): return z3.is_string_value(s)
def litval(s): return s.as_string()

def alnum(c): return z3.Or(z3.And(48 <= c, c <= 57), z3.And(65 <= c, c <= 90), z3.And(97 <= c, c <= 122))
CCLASS = {"isalnum": alnum, "isalpha": lambda c: z3.Or(z3.And(65 <= c, c <= 90), z3.And(97 <= c, c <= 122)), "isdigit": lambda c: z3.And(48 <= c, c <= 57),
          "islower": lambda c: z3.And(97 <= c, c <= 122), "isspace": lambda c: z3.Or(c == 32, z3.And(9 <= c, c <= 13))}

class StrEngine(Engine):
    def lazy(self, key, ty):
        if key not in self.init and strtype(ty): self.init[key] = z3.String(keyname(key))
        return Engine.lazy(self, key, ty)
    def field(self, st, oid, name, ty):
        if strtype(ty): return LKey(("f", oid, name), ty)
        return Engine.field(self, st, oid, name, ty)
    def begin(self, node, oid="this"):
        st = Engine.begin(self, node, oid)
        for p in params(node):
            t = ctype(p); t = t.el if t.k == "ref" else t
            if strtype(t):
                key = ("p", p.get("name", "?")); self.bind[((), p["id"])] = LKey(key, t); v = self.lazy(key, t); st.store[key] = v; self.param[p.get("name", "?")] = v; self.vname[key] = p.get("name", "?")
        return st
    def text(self, v, n):
        if isinstance(v, (LKey, LElem)): self.err("text", n)
        if isinstance(v, PtrV): return None
        if not is_str(v): self.err("not a text: %r" % (v,), n)
        return v
    def rs(self, n, st):
        v = self.rv(n, st)
        if isinstance(v, PtrV):
            self.obl(st, FALSE if v.kind == "null" else z3.Not(v.null), "%s: text is not a null pointer" % self.fname, "safety", n); raise Abort()
        if z3.is_expr(v) and is_int(v) and ctype(n).k == "int" and ctype(n).w == 8: return z3.StrFromCode(v)
        return self.text(v, n)
    def ev_StringLiteral(self, n, st): return lit(ast.literal_eval(n.get("value", '""')))
    def decl(self, d, st):
        t = ctype(d)
        if strtype(t) or rxtype(t):
            key = ("v", self.callpath, d["id"]); init = self.inner(d); self.vname[key] = d.get("name")
            self.bind[(self.callpath, d["id"])] = LKey(key, t)
            self.wr(st, key, self.rv(init[0], st) if init else lit("")); return
        if t.k == "struct" and ("stringstream" in (t.name or "") or "match_results" in (t.name or "")):
            oid = ("loc", self.callpath, d["id"]); self.bind[(self.callpath, d["id"])] = StructV(oid, t)
            a = [x for c in self.inner(d) for x in self.inner(c) if x["kind"] != "CXXDefaultArgExpr" and strtype(ctype(x))]
            self.wr(st, ("f", oid, "$str"), self.rs(a[0], st) if a else lit("")); return
        if t.k == "ref" and strtype(t.el):
            v = self.ev(self.inner(d)[0], st)
            key = ("v", self.callpath, d["id"])
            if isinstance(v, LKey): self.bind[(self.callpath, d["id"])] = v
            else: self.bind[(self.callpath, d["id"])] = LKey(key, t.el); self.wr(st, key, v)
            return
        return Engine.decl(self, d, st)
    def ev_CXXConstructExpr(self, n, st):
        t = self.ty(n)
        if strtype(t) or rxtype(t):
            subs = [c for c in self.inner(n) if c["kind"] != "CXXDefaultArgExpr"]
            if not subs: return lit("")
            if strtype(t) and len(subs) > 1: self.err("construction of a string from %d values" % len(subs), n)
            return self.rs(subs[0], st)
        return Engine.ev_CXXConstructExpr(self, n, st)
    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr
    def ev_DeclRefExpr(self, n, st):
        r = n["referencedDecl"]
        if r.get("name") == "npos" and r["kind"] == "VarDecl": return IV(NPOS)
        if r["kind"] == "VarDecl" and (self.callpath, r["id"]) not in self.bind and "basic_regex" not in str(r) and "syntax_option" in r.get("type", {}).get("qualType", ""): return OPAQUE
        return Engine.ev_DeclRefExpr(self, n, st)
    def ev_MemberExpr(self, n, st):
        if n.get("name") == "npos": return IV(NPOS)
        return Engine.ev_MemberExpr(self, n, st)
    def ev_CXXOperatorCallExpr(self, n, st):
        subs = self.inner(n); f = subs[0]; args = subs[1:]
        while f["kind"] in ("ImplicitCastExpr", "ParenExpr"): f = self.inner(f)[0]
        nm = f["referencedDecl"].get("name"); nd = self.tu.byid.get(f["referencedDecl"]["id"])
        if nd is None or nd["kind"] != "CXXMethodDecl":
            if nm == "operator<<":
                b = self.ev(args[0], st)
                if not (isinstance(b, StructV) and ("f", b.oid, "$str") in st.store): return OPAQUE
                v = self.rv(args[1], st); k = ("f", b.oid, "$str")
                if z3.is_expr(v) and is_int(v): v = ITOS(v)
                self.wr(st, k, z3.Concat(st.store[k], self.text(v, n))); return b
            if nm == "operator>>":
                b = self.ev(args[0], st)
                if isinstance(b, StructV) and ("f", b.oid, "$str") in st.store:
                    lv = self.ev(args[1], st); c = st.store[("f", b.oid, "$str")]
                    if isinstance(lv, LKey) and lv.ty.k == "real": self.store(st, lv, NUM(c), n); return b
                self.err("operator>>", n)
            if nm == "operator+" and strtype(ctype(n)): return z3.Concat(self.rs(args[0], st), self.rs(args[1], st))
            if nm in ("operator=", "operator+=") and strtype(ctype(args[0])):
                v = self.rs(args[1], st); lv = self.ev(args[0], st)
                self.wr(st, lv.key, v if nm == "operator=" else z3.Concat(self.load(st, lv), v)); return lv
            if nm in ("operator==", "operator!=") and (strtype(ctype(args[0])) or strtype(ctype(args[1]))):
                e = self.rs(args[0], st) == self.rs(args[1], st); return e if nm == "operator==" else z3.Not(e)
            if nm == "operator[]":
                b = self.rv(args[0], st)
                if is_str(b): return self.char(st, b, self.rv(args[1], st), n)
                if isinstance(b, StructV) and ("f", b.oid, "$str") in st.store: return self.group(st, b.oid, self.rv(args[1], st), n)
        return Engine.ev_CXXOperatorCallExpr(self, n, st)
    # a part of a part of a text is a part of the text: parts are kept as (text, start, length) inside it
    def view(self, v):
        if not hasattr(self, "_views"): self._views = {}
        w = self._views.get(v.get_id())
        if w is not None: return w[1]
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            c, x, y = v.children(); (b, a, n), (b2, a2, n2) = self.view(x), self.view(y)
            if b.eq(b2): return b, (a if a.eq(a2) else z3.If(c, a, a2)), z3.If(c, n, n2)
        return v, IV(0), z3.Length(v)
    def length(self, v): return self.view(v)[2]
    def sub(self, v, p, c):
        b, a, n = self.view(v); a2 = z3.simplify(a + p); rest = n - p; m = rest if c is None else z3.If(c > rest, rest, c)
        r = z3.SubString(b, a2, m); self._views[r.get_id()] = (r, (b, a2, m)); return r
    def char(self, st, s, i, n):
        self.obl(st, z3.And(0 <= i, i <= z3.Length(s)), "%s: character of a text in range" % self.fname, "safety", n)
        c = CHR(s, i); st.assume(z3.And(-128 <= c, c < 128)); return c
    def group(self, st, oid, i, n):
        i = z3.simplify(i); self.obl(st, i == 1, "%s: the group asked for exists" % self.fname, "safety", n)
        return self.rd(st, ("f", oid, "$group1"))
    def std_method(self, n, st, f, base, args):
        nm = f["name"]; args = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
        if strtype(ctype(base)) or nm in ("str", "size") or nm.startswith("operator"):
            lv = self.ev(base, st); b = self.load(st, lv) if isinstance(lv, (LKey, LElem)) else lv
            if isinstance(b, StructV) and ("f", b.oid, "$str") in st.store:
                if nm == "str" and not args: return st.store[("f", b.oid, "$str")]
                if nm == "str": self.wr(st, ("f", b.oid, "$str"), self.rs(args[0], st)); return OPAQUE
                if nm == "size": return self.rd(st, ("f", b.oid, "$groups"))
            if is_str(b):
                if nm in ("str", "c_str", "data") or nm.startswith("operator"): return b
                if nm in ("length", "size"): return self.length(b)
                if nm == "empty": return self.length(b) == 0
                if nm == "at": 
                    i = self.rv(args[0], st); self.obl(st, i < z3.Length(b), "%s: position in a text exists" % self.fname, "safety", n); return self.char(st, b, i, n)
                if nm == "find": return self.find(st, b, self.rs(args[0], st), self.rv(args[1], st) if len(args) > 1 else IV(0))
                if nm == "substr":
                    p = self.rv(args[0], st) if args else IV(0); c = self.rv(args[1], st) if len(args) > 1 else None
                    self.obl(st, p <= self.length(b), "%s: substr starts inside the text" % self.fname, "safety", n)
                    return self.sub(b, p, c)
                if nm == "compare":
                    if len(args) == 1: x, t = b, self.rs(args[0], st)
                    elif len(args) == 3:
                        p, c = self.rv(args[0], st), self.rv(args[1], st); t = self.rs(args[2], st)
                        self.obl(st, p <= z3.Length(b), "%s: compare starts inside the text" % self.fname, "safety", n); rest = z3.Length(b) - p; x = z3.SubString(b, p, z3.If(c > rest, rest, c))
                    else: self.err("compare", n)
                    pre = len(args) == 3 and z3.is_int_value(z3.simplify(p)) and z3.simplify(p).as_long() == 0 and z3.is_true(z3.simplify(c == z3.Length(t)))
                    r = fresh("compare", I); st.assume((r == 0) == (z3.PrefixOf(t, b) if pre else x == t)); return r
                self.err("string method " + nm, n)
        return Engine.std_method(self, n, st, f, base, args)
    def find(self, st, b, t, p):
        if is_lit(z3.simplify(t)):
            r = z3.IndexOf(b, t, p); return z3.If(r < 0, IV(NPOS), r)
        r = fresh("found", I); q = z3.Int("q"); a = AT(b, t, q)
        st.assume(z3.Or(r == NPOS, z3.And(p <= r, AT(b, t, r), r + z3.Length(t) <= z3.Length(b)))); st.assume(0 <= r)
        st.assume(z3.ForAll([q], z3.Implies(z3.And(p <= q, z3.Or(r == NPOS, q < r)), z3.Not(a)), patterns=[a]))
        return r
    def builtin(self, n, st, name, args):
        if name == "atoi": return ATOI(self.rs(args[0], st))
        if name in CCLASS:
            v = self.rv(args[0], st); self.obl(st, z3.And(-1 <= v, v < 256), "%s: argument of %s" % (self.fname, name), "safety", n); return z3.If(CCLASS[name](v), IV(1), IV(0))
        if name == "regex_match":
            a = [x for x in args if x["kind"] != "CXXDefaultArgExpr"]
            s = self.rs(a[0], st); pat = z3.simplify(self.rv(a[-1], st))
            if not is_lit(pat): self.err("pattern is not constant", n)
            r = ERE(litval(pat)); hit = z3.InRe(s, r.re)
            if len(a) == 3:
                m = self.rv(a[1], st); pre, grp, suf = r.split(); g = fresh("group", S); x, y = fresh("before", S), fresh("after", S)
                st.assume(z3.Implies(hit, z3.And(s == z3.Concat(x, g, y), z3.InRe(x, pre), z3.InRe(g, grp), z3.InRe(y, suf))))
                self.wr(st, ("f", m.oid, "$group1"), z3.If(hit, g, lit(""))); self.wr(st, ("f", m.oid, "$groups"), z3.If(hit, IV(1 + r.ngroups), IV(0)))
            return hit
        return Engine.builtin(self, n, st, name, args)

# ---------------------------------------------------------------- POSIX extended regular expressions
class ERE:
    """the language of a pattern; the first group on the top level of a concatenation can be told apart"""
    ANY = z3.AllChar(z3.ReSort(S))
    def __init__(self, p):
        self.p, self.i, self.ngroups, self.top = p, 0, 0, []
        if p.startswith("^"): self.i = 1
        self.end = len(p) - 1 if p.endswith("$") and not p.endswith("\\$") else len(p)
        self.depth = 0; self.re = self.alt()
        if self.i != self.end: raise ExtractionError("pattern %r not understood" % p)
    def more(self): return self.i < self.end and self.p[self.i] not in "|)"
    def alt(self):
        b = [self.cat()]
        while self.i < self.end and self.p[self.i] == "|": self.i += 1; b.append(self.cat())
        return z3.Union(*b) if len(b) > 1 else b[0]
    def cat(self):
        items = []; top = self.depth == 0
        while self.more():
            g = self.p[self.i] == "("; k = self.ngroups + 1; a = self.atom(); q = ""
            while self.i < self.end and self.p[self.i] in "*+?":
                q += self.p[self.i]; a = {"*": z3.Star, "+": z3.Plus, "?": z3.Option}[self.p[self.i]](a); self.i += 1
            items.append(a)
            if top: self.top.append((a, k if g and not q else None))
        if not items: return z3.Re("")
        return z3.Concat(*items) if len(items) > 1 else items[0]
    def atom(self):
        c = self.p[self.i]
        if c == "(":
            self.ngroups += 1; self.i += 1; self.depth += 1; r = self.alt(); self.depth -= 1
            if self.i >= self.end or self.p[self.i] != ")": raise ExtractionError("pattern %r not understood" % self.p)
            self.i += 1; return r
        if c == "[":
            j = self.p.index("]", self.i + 2); body = self.p[self.i + 1:j]; self.i = j + 1
            if body[0] == "^" or "[" in body: raise ExtractionError("pattern %r not understood" % self.p)
            alts = []; k = 0
            while k < len(body):
                if k + 2 < len(body) and body[k + 1] == "-": alts.append(z3.Range(body[k], body[k + 2])); k += 3
                else: alts.append(z3.Re(body[k])); k += 1
            return z3.Union(*alts) if len(alts) > 1 else alts[0]
        self.i += 1
        if c == ".": return self.ANY
        if c == "\\": c = self.p[self.i]; self.i += 1
        elif c in "*+?{}^$": raise ExtractionError("pattern %r not understood" % self.p)
        return z3.Re(c)
    def split(self):
        ks = [k for k, (_, g) in enumerate(self.top) if g == 1]
        if len(ks) != 1: raise ExtractionError("group of pattern %r not understood" % self.p)
        k = ks[0]; cat = lambda l: z3.Concat(*[a for a, _ in l]) if len(l) > 1 else (l[0][0] if l else z3.Re(""))
        return cat(self.top[:k]), self.top[k][0], cat(self.top[k + 1:])
