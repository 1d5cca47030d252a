"""C10: identity, hashing and ordering of terms over random histories in which
terms are built in many ways, discarded and built again."""
import random
from fractions import Fraction
import batch
import terms as T
import values as V
import world as W
from terms import S, A

PRE = batch.CHK + W.DECLS + """(declare-const Real Type) (declare-consts <rational> Real) (declare-const Dec Type) (declare-consts <decimal> Dec)
(declare-const BV (-> Int Type)) (declare-consts <binary> (BV (eo::len eo::self))) (declare-const Hex Type) (declare-consts <hexadecimal> Hex)
(declare-const Vec (-> Int Type)) (declare-const Set (-> Type Type))
(declare-parameterized-const emp ((T Type :implicit)) (Set T))
(declare-parameterized-const opq ((u U :opaque)) U)
(declare-parameterized-const opf ((b Bool :opaque)) (-> U U))
(declare-const @L Type) (declare-const @nil @L) (declare-parameterized-const @cons ((T Type :implicit)) (-> T @L @L) :right-assoc-nil @nil)
(declare-const forall (-> @L Bool Bool) :binder @cons)
(declare-rule cl ((@x Bool)) :args (@x) :conclusion @x)
(declare-rule mp ((@x Bool)) :premises (@x (imp @x @x)) :conclusion @x)
(declare-rule same ((T Type) (@x T)) :args (@x @x) :conclusion true)
(program $id ((T Type) (@x T)) :signature (T) T ((($id @x) @x)))
(program $fst ((T Type) (V Type) (@x T) (@y V)) :signature (T V) T ((($fst @x @y) @x)))
(program $same ((T Type) (V Type) (@x T)) :signature (T V) Bool ((($same @x @x) true)))
(program $nth ((T Type) (V Type) (@x T) (@f (-> T V))) :signature (V) T ((($nth (@f @x)) @x)))
(program $rebuild ((T Type) (V Type) (@x T) (@f (-> T V)) (@y V)) :signature (V) V ((($rebuild (@f @x)) (_ ($rebuild @f) ($rebuild @x))) (($rebuild @y) @y)))
(program $mk ((n Int) (@t U)) :signature (Int U) U ((($mk 0 @t) @t) (($mk n @t) ($mk (eo::add n -1) (g @t (f @t))))))
(program $mkl ((n Int)) :signature (Int) Bool ((($mkl 0) false) (($mkl n) (eo::cons or (lt n i) ($mkl (eo::add n -1))))))
(program $dsum ((n Int)) :signature (Int) Int ((($dsum 0) 0) (($dsum n) (eo::add n ($dsum (eo::add n -1))))))
(program $ins ((@x Bool) (@y Bool) (@l Bool :list)) :signature (Bool Bool) Bool
  ((($ins @x false) (or @x)) (($ins @x (or @x @l)) (or @x @l)) (($ins @x (or @y @l)) (eo::ite (eo::cmp @x @y) (eo::cons or @x (or @y @l)) (eo::cons or @y ($ins @x @l))))))
(program $sort ((@x Bool) (@l Bool :list)) :signature (Bool) Bool ((($sort false) false) (($sort (or @x @l)) ($ins @x ($sort @l)))))
(define m1 ((T Type :implicit) (@x T)) @x)
(define mg ((@x U) (@y U)) (g @y @x))
(define mor ((@x Bool) (@y Bool)) (or @x @y))
"""
BIG = 10 ** 30
LEAVES = {
    "U": [S("(opq x)"), S("(opq y)"), S("(opf a x)"), S("(opf b x)"), S("(opf a y)"), S('(eo::var "x" U)'), S('(eo::var "v" U)'), S("x"), S("y"), S("z")],
    "Bool": [S("(forall ((v U)) (P v))"), S("(forall ((v U) (w Int)) (P v))"), S("(forall ((v U)) a)"), S("(forall ((v Int)) a)"), S('(eo::var "v" Bool)'), S("a"), S("b")],
    "Int": [V.num(0), V.num(1), V.num(-1), V.num(BIG), V.num(BIG + 1), V.num(-BIG), V.num(2 ** 64), V.num(2 ** 32), S("i"), S('(eo::var "v" Int)')],
}
ODD = [(V.num(1), "Int"), (V.rat(Fraction(1)), "Real"), (V.rat(Fraction(1, 2)), "Real"), (V.rat(Fraction(-1, 2)), "Real"), (V.rat(Fraction(1, 3)), "Real"),
       (V.rat(Fraction(BIG, 7)), "Real"), (V.sstr("1"), "Str"), (V.sstr(""), "Str"), (V.sstr("a"), "Str"), (V.sstr("A"), "Str"), (V.sstr("a "), "Str"), (V.sstr("ab"), "Str"),
       (V.sstr("\u00e9"), "Str"), (V.sstr("x"), "Str"), (V.sstr("\U00010061"), "Str"), (V.sstr("\U00020061"), "Str"), (V.sstr("a\U00010062"), "Str"), (V.sstr("\u0161"), "Str"), (V.sstr("a" * 70), "Str"), (V.sstr("a" * 69 + "b"), "Str"),
       (V.binv(32, 1 << 31), "(BV 32)"), (V.binv(33, 1 << 31), "(BV 33)"), (V.binv(64, 1 << 63), "(BV 64)"), (V.binv(65, 1 << 64), "(BV 65)"), (V.binv(65, 0), "(BV 65)"),
       (V.rat(Fraction(BIG + 1, 7)), "Real"), (V.rat(Fraction(2 ** 64 + 1, 2 ** 64)), "Real"), (V.rat(Fraction(1, 2 ** 64)), "Real"), (V.rat(Fraction(1, 2 ** 32)), "Real"), (V.binv(1, 1), "(BV 1)"), (V.binv(4, 1), "(BV 4)"), (V.binv(8, 1), "(BV 8)"), (V.binv(0, 0), "(BV 0)"), (V.binv(1, 0), "(BV 1)"),
       (V.binv(100, 1 << 99), "(BV 100)"), (V.hexv(4, 1), "Hex"), (V.hexv(8, 1), "Hex"), (V.TRUE, "Bool"), (V.FALSE, "Bool"),
       (S("1.0"), "Dec"), (S("0.5"), "Dec"), (S("1.5"), "Dec"), (S("Int"), "Type"), (S("U"), "Type"), (S("(Vec 1)"), "Type"), (S("(Vec 2)"), "Type"), (S("(Set U)"), "Type"),
       (S("(Set (Set U))"), "Type"), (S("(-> U U)"), "Type"), (S("(-> U U U)"), "Type"), (S("(-> (-> U U) U)"), "Type"), (S("Bool"), "Type"),
       (S("(as emp (Set U))"), "(Set U)"), (S("(as emp (Set Int))"), "(Set Int)"), (S("(as emp (Set (Set U)))"), "(Set (Set U))"), (S("f"), "(-> U U)"), (S("not"), "(-> Bool Bool)"),
       (A(S("g"), S("x")), "(-> U U)"), (A(S("or"), S("a")), "(-> Bool Bool)"), (S("or"), "(-> Bool Bool Bool)"), (S("and"), "(-> Bool Bool Bool)"), (S("$id"), None)][:-1]


class Scoped(str):
    """The name of a constant declared in a scope: equal only to itself as
    bound by the same declaration."""
    def __new__(cls, name, uid):
        s = str.__new__(cls, name)
        s.uid = uid
        return s

    def __eq__(self, o):
        return isinstance(o, Scoped) and str.__eq__(self, o) and self.uid == o.uid

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((str(self), self.uid))


def leafgen(extra):
    def leaf(r, ty):
        c = LEAVES.get(ty, []) + [S(n) for n, t in extra.items() if t == ty] * 3
        return r.choice(c) if c and r.random() < 0.45 else None
    return leaf


class Hist:
    def __init__(self, r):
        self.r = r
        self.lines = []
        self.kinds = []
        self.n = 0
        self.scopes = [dict(consts={}, defs=[], hashes=[], names=[], progs={})]
        self.terms = []         # recently used (term, type)

    def emit(self, kind, text):
        self.lines.append(text)
        self.kinds.append(kind)

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def consts(self):
        d = {}
        for s in self.scopes:
            d.update(s["consts"])
        return d

    def allof(self, what):
        return [x for s in self.scopes for x in s[what]]

    def term(self):
        r = self.r
        # a term seen before, or a variation of it, or a new one
        env = self.consts()
        ok = [(t, ty) for t, ty in self.terms if usable(t, env)]
        k = r.random()
        if ok and k < 0.55:
            t, ty = r.choice(ok)
            if k < 0.2 and ty in W.SORTS:
                return W.mutate(r, t, ty) if W.type_of(t, dict(W.TYPES, **env)) else t, ty
            return t, ty
        if k < 0.66:
            t, ty = r.choice(ODD)
        else:
            ty = r.choice(["U", "Bool", "Int", "U", "Bool", W.fn("U", "U")])
            t = W.gen(r, ty, r.choice([1, 1, 2, 2, 3]), leafgen(env))
        self.terms.append((t, ty))
        if len(self.terms) > 40:
            self.terms.pop(r.randrange(len(self.terms)))
        return t, ty

    def other(self, t, ty):
        r = self.r
        for _ in range(10):
            k = r.random()
            if k < 0.4 and ty in W.SORTS:
                o = near(r, t, ty)
            elif k < 0.7:
                o = self.term()[0]
            else:
                o = r.choice(ODD)[0]
            if o != t:
                return o
        return S("k")

    # -------------------------------------------------- ways to build a term
    def way(self, t, ty=None, depth=3):
        r = self.r
        k = r.random()
        if depth > 0 and t[0] == "@" and k < 0.5:
            return self.struct(t, depth)
        sub = lambda u: self.way(u, None, depth - 1)
        if depth > 0:
            if k < 0.55:
                return "($id %s)" % sub(t)
            if k < 0.58:
                return "($rebuild %s)" % sub(t)
            if k < 0.62:
                return "(eo::ite (eo::is_ok %s) %s x)" % (sub(S("y")), sub(t))
            if k < 0.64:
                return "($fst %s %s)" % (sub(t), W.spell(W.gen(r, "U", 1), r))
            if k < 0.67:
                return "(eo::define ((@q %s)) @q)" % sub(t)
            if k < 0.70:
                return "(m1 %s)" % sub(t)
            if k < 0.73:
                return "(eo::requires %s %s %s)" % (sub(S("a")), sub(S("a")), sub(t))
            if k < 0.76 and ty == "Bool":
                return "(eo::list_nth or (or %s %s) 0)" % (sub(t), sub(S("b")))
            if k < 0.8 and t[0] == "num":
                d = r.randint(-5, 5)
                return r.choice(["(eo::add %d %d)" % (t[1] - d, d), "(eo::neg %d)" % -t[1], "(eo::add %d %d %d)" % (t[1] - d - 1, d, 1)])
            if k < 0.8 and t[0] == "str" and len(t[1]) > 1:
                return "(eo::concat %s %s)" % (V.show(("str", t[1][:1])), V.show(("str", t[1][1:])))
            if k < 0.8 and t[0] == "bool":
                return "(eo::not %s)" % ("false" if t[1] else "true")
            if k < 0.8 and t[0] == "rat":
                return "%d/%d" % (t[1].numerator * 6, t[1].denominator * 6)
            if k < 0.8 and t[0] == "bin" and t[1] > 0:
                return "(eo::to_bin %d %d)" % (t[1], t[2])
            if k < 0.86:
                d = [n for n, u in self.allof("defs") if u == t]
                if d:
                    return r.choice(d)
        return W.spell(t, r)

    def struct(self, t, depth):
        r = self.r
        h, args = T.spine(t)
        sub = lambda u: self.way(u, None, depth - 1)
        if h == S("g") and len(args) == 2 and r.random() < 0.2:
            return "(mg %s %s)" % (sub(args[1]), sub(args[0]))
        if h[0] == "s" and h[1] in W.NIL:
            xs = W.flat(t, h[1])
            if xs is not None and len(args) == 2:
                k = r.random()
                if k < 0.25 and len(xs) > 1:
                    p = r.randint(1, len(xs) - 1)
                    return "(eo::list_concat %s (%s %s) (%s %s))" % (h[1], h[1], " ".join(map(sub, xs[:p])), h[1], " ".join(map(sub, xs[p:])))
                if k < 0.35 and h[1] in W.RIGHT:
                    return "(eo::cons %s %s %s)" % (h[1], sub(xs[0]), W.spell(W.nary(h[1], xs[1:]), r))
                if k < 0.45:
                    return "(eo::list_rev %s (%s %s))" % (h[1], h[1], " ".join(map(sub, xs[::-1])))
                if xs:
                    return "(%s %s)" % (h[1], " ".join(map(sub, xs)))
            return "(_ %s)" % " ".join([h[1]] + [sub(a) for a in args])
        if r.random() < 0.2:
            return "(eo::define ((@q %s)) (_ %s @q))" % (sub(t[2]), sub(t[1]))
        if r.random() < 0.3:
            return "(_ %s %s)" % (sub(t[1]), sub(t[2]))
        if h[0] != "s":
            return "(_ %s %s)" % (sub(t[1]), sub(t[2]))
        return "(%s %s)" % (h[1], " ".join(map(sub, args)))

    # -------------------------------------------------------------- commands
    def chk(self, kind, x, y):
        if self.r.random() < 0.5:
            x, y = y, x
        self.emit(kind, "(step %s :rule chk :args (%s %s))" % (self.fresh("st"), x, y))

    def step(self):
        r = self.r
        k = r.random()
        way = lambda t: self.way(t, None, r.choice([0, 1, 2, 3]))
        if k < 0.05:
            if len(self.scopes) < 5:
                self.scopes.append(dict(consts={}, defs=[], hashes=[], names=[], progs={}))
                self.emit("push", "(push)")
            return
        if k < 0.1:
            if len(self.scopes) > 1:
                self.scopes.pop()
                self.emit("pop", "(pop)")
            return
        if k < 0.16:
            # the same few names, with varying types
            n = "w%d" % r.randint(0, 3)
            if n not in [str(x) for x in self.consts()]:
                ty = r.choice(["U", "Bool", "Int"])
                self.n += 1
                self.scopes[-1]["consts"][Scoped(n, self.n)] = ty
                self.emit("declare", "(declare-const %s %s)" % (n, ty))
            return
        if k < 0.21:
            t, ty = self.term()
            n = self.fresh("@d")
            self.emit("define", "(define %s () %s)" % (n, way(t)))
            self.scopes[-1]["defs"].append((n, t))
            return
        if k < 0.26:
            # a program whose definition depends on the scope
            n = "$q%d" % r.randint(0, 2)
            if any(n in s["progs"] for s in self.scopes):
                return
            t, ty = self.term()
            self.scopes[-1]["progs"][n] = t
            self.emit("program", "(program %s ((T Type) (@x T)) :signature (T) Bool (((%s %s) true) ((%s @x) false)))" % (n, n, W.spell(t, r), n))
            return
        if k < 0.31:
            m = r.randint(1, 30)
            self.chk("noise", *r.choice([("(eo::is_eq ($mk %d %s) x)" % (r.randint(1, 6), way(S("x"))), "false"), ("(eo::list_len or ($mkl %d))" % m, str(m)),
                                         ("($dsum %d)" % m, str(m * (m + 1) // 2))]))
            return
        progs = [(n, t) for s in self.scopes for n, t in s["progs"].items()]
        if k < 0.35 and progs:
            n, t = r.choice(progs)
            u = t if r.random() < 0.5 else self.other(t, "U")
            self.chk("program", "(%s %s)" % (n, way(u)), "true" if u == t else "false")
            return
        t, ty = self.term()
        if k < 0.47:
            same = r.random() < 0.55
            u = t if same else self.other(t, ty)
            f = r.choice(["(eo::eq %s %s)", "(eo::is_eq %s %s)", "(eo::is_ok ($same %s %s))", "(eo::is_ok (eo::requires %s %s true))"])
            self.chk("eq", f % (way(t), way(u)), "true" if same else "false")
        elif k < 0.52:
            if ty == "Bool":
                n = self.fresh("st")
                if r.random() < 0.5:
                    self.emit("conclusion", "(step %s %s :rule cl :args (%s))" % (n, way(t), way(t)))
                else:
                    w = self.fresh("pm")
                    self.emit("premise", "(assume %s %s) (assume %s_ (imp %s %s)) (step %s %s :rule mp :premises (%s %s_))" % (w, way(t), w, way(t), way(t), n, way(t), w, w))
            else:
                self.emit("repeated parameter", "(step %s :rule same :args (%s %s))" % (self.fresh("st"), way(t), way(t)))
        elif k < 0.58:
            if ty is not None:
                self.chk("typeof", "(eo::typeof %s)" % way(t), W.show_type(ty))
        elif k < 0.68:
            n = self.fresh("v")
            self.emit("hash", "(declare-const %s (Vec (eo::hash %s)))" % (n, way(t)))
            self.scopes[-1]["hashes"].append((n, t))
        elif k < 0.82:
            hs = self.allof("hashes")
            env = self.consts()
            hs = [h for h in hs if usable(h[1], env)]
            if hs:
                n, u = r.choice(hs)
                same = r.random() < 0.6
                if same or u == t:
                    self.chk("hash constant", "(eo::typeof %s)" % n, "(Vec (eo::hash %s))" % way(u))
                else:
                    self.chk("hash distinct", "(eo::is_eq (eo::typeof %s) (Vec (eo::hash %s)))" % (n, way(t)), "false")
        elif k < 0.85:
            same = r.random() < 0.5
            u = t if same else self.other(t, ty)
            self.chk("hash", "(eo::is_eq (eo::hash %s) (eo::hash %s))" % (way(t), way(u)), "true" if same else "false")
        elif k < 0.87:
            st = r.choice(['(eo::add 1 "a")', "(eo::list_nth or a 7)", "($nth x)"])
            self.chk("hash of non-value", r.choice(["(eo::is_ok (eo::hash %s))" % st, "(eo::is_ok (eo::cmp %s %s))" % (st, way(t)), "(eo::is_ok (eo::cmp %s %s))" % (way(t), st)]), "false")
        elif k < 0.89:
            self.chk("hash kind", "(eo::is_z (eo::hash %s))" % way(t), "true")
        elif k < 0.97:
            u = self.other(t, ty)
            f = r.random()
            if f < 0.2:
                self.chk("cmp irreflexive", "(eo::cmp %s %s)" % (way(t), way(t)), "false")
            elif f < 0.45:
                self.chk("cmp total", "(eo::xor (eo::cmp %s %s) (eo::cmp %s %s))" % (way(t), way(u), way(u), way(t)), "true")
            elif f < 0.75:
                self.chk("cmp and hash", "(eo::is_eq (eo::cmp %s %s) (eo::gt (eo::hash %s) (eo::hash %s)))" % (way(t), way(u), way(t), way(u)), "true")
            else:
                w = self.other(u, ty)
                c = [way(x) for x in (t, u, w)]
                self.chk("cmp transitive", "(eo::or (eo::not (eo::cmp %s %s)) (eo::not (eo::cmp %s %s)) (eo::cmp %s %s))" % (c[0], c[1], c[1], c[2], c[0], c[2]), "true")
        else:
            xs = [W.gen(r, "Bool", r.choice([0, 1, 2]), leafgen(self.consts())) for _ in range(r.randint(1, 6))]
            ys = list(xs)
            r.shuffle(ys)
            self.chk("sort", "($sort (or %s))" % " ".join(way(x) for x in xs), "($sort (or %s))" % " ".join(way(x) for x in ys))


def usable(t, env):
    if t[0] == "@":
        return usable(t[1], env) and usable(t[2], env)
    if t[0] == "s" and isinstance(t[1], Scoped):
        return t[1] in env
    return True


def near(r, t, ty):
    """A term differing in a leaf, or with two arguments swapped."""
    if t[0] == "@" and r.random() < 0.25 and t[1][0] == "@" and t[1][2] != t[2]:
        u = ("@", ("@", t[1][1], t[2]), t[1][2])
        if W.type_of(u) == ty:
            return u
    return W.mutate(r, t, ty)


def one(c, seed):
    r = random.Random(seed)
    h = Hist(r)
    for _ in range(r.choice([40, 120, 260])):
        h.step()
    for k, l in zip(h.kinds, h.lines):
        c.count(k)
        if k not in ("push", "pop", "declare", "define", "hash", "program"):
            c.seen((seed, l))
    for v in (["san", "rel"] if r.random() < 0.4 else [r.choice(["dbg", "rel"])]):
        files = {"t.eo": PRE + "\n".join(h.lines) + "\n"}
        res = c.run(files, variant=v)
        if res.kind != "correct":
            p = res.pos()
            k = p[1] - 1 - PRE.count("\n") if p else -1
            kind = h.kinds[k] if 0 <= k < len(h.kinds) else "other"
            line = h.lines[k] if 0 <= k < len(h.lines) else ""
            c.violation("history:%s:%s" % (res.kind, kind), "identity of terms: after the preceding commands, %s" % line[:500], files,
                        expected="correct", observed=res.brief())
            return
    if r.random() < 0.02:
        c.sample("\n".join(h.lines[:12]))


def table(c):
    """All notable leaf values are pairwise distinct, with distinct hashes."""
    leaves = [t for t, _ in ODD] + [x for k in LEAVES for x in LEAVES[k]]
    uniq = []
    for t in leaves:
        if t not in uniq:
            uniq.append(t)
    lines = []
    for a in uniq:
        for b in uniq:
            e = "true" if a == b else "false"
            lines.append("(step @s%d :rule chk :args ((eo::is_eq %s %s) %s)) (step @h%d :rule chk :args ((eo::is_eq (eo::hash %s) (eo::hash %s)) %s)) (step @c%d :rule chk :args ((eo::is_eq (eo::xor (eo::cmp %s %s) (eo::cmp %s %s)) %s) true))" % (
                len(lines), T.show(a), T.show(b), e, len(lines), T.show(a), T.show(b), e, len(lines), T.show(a), T.show(b), T.show(b), T.show(a), "false" if a == b else "true"))
            c.seen(lines[-1])
    for v in ("dbg", "san", "rel"):
        files = {"t.eo": PRE + "\n".join(lines) + "\n"}
        res = c.run(files, variant=v)
        c.count("pairs of leaves", len(lines))
        if res.kind != "correct":
            p = res.pos()
            k = p[1] - 1 - PRE.count("\n") if p else -1
            c.violation("table", "identity of %s" % (lines[k][:300] if 0 <= k < len(lines) else ""), files, expected="correct", observed=res.brief())


def rejected(c, seed):
    """Steps that would need two different terms to be identified."""
    r = random.Random(seed)
    h = Hist(r)
    for _ in range(r.choice([3, 10, 30])):
        h.step()
    while True:
        t, ty = h.term()
        if ty in W.SORTS:
            break
    u = h.other(t, ty)
    if ty == "Bool" and W.type_of(u, dict(W.TYPES, **h.consts())) == "Bool" and r.random() < 0.6:
        last = "(step last %s :rule cl :args (%s))" % (h.way(t), h.way(u))
    else:
        last = "(step last :rule same :args (%s %s))" % (h.way(t), h.way(u))
    files = {"t.eo": PRE + "\n".join(h.lines + [last]) + "\n"}
    res = c.run(files, variant=r.choice(["rel", "dbg", "rel", "san"]))
    c.count("must be rejected")
    c.seen((seed, last))
    if res.kind != "reject" or (not res.pos() or res.pos()[1] != files["t.eo"].count("\n")):
        c.violation("distinct", "%s must be rejected (two different terms)" % last[:400], files, expected="rejected at the last line", observed=res.brief())


def many(c, seed):
    """Many terms are hashed and most of them discarded straight afterwards:
    the hashes that were handed out stay distinct, and stay with their term."""
    import random
    r = random.Random(seed)
    n = r.choice([300, 1500, 1500, 6000])
    lines = ["(declare-const U Type)", "(declare-const a U)", "(declare-const f (-> U U))", "(declare-const g (-> U U U))"]
    lines += ["(declare-const Z Type)", "(declare-consts <numeral> Z)", "(declare-const q (-> Z U))", "(declare-const w (-> Z Z U))",
              "(declare-rule chk ((T Type) (x T) (y T)) :args (x y) :requires ((x y)) :conclusion true)"]
    shapes = ["(q %d)", "(f (q %d))", "(g (q %d) a)", "(w %d 0)", "(w 0 %d)"]
    terms = []
    for k in range(n):
        t = r.choice(shapes) % (k + 1000)
        terms.append(t)
        lines.append("(define h%d () (eo::hash %s))" % (k, t))
        if r.random() < 0.7:
            # terms that are never hashed take the place of discarded ones
            lines.append("(define n%d () (eo::is_eq %s %s))" % (k, r.choice(shapes) % (k + 50000), r.choice(shapes) % (k + 90000)))
        if k % 3 == 0 and k:
            j = r.choice([k - 1, r.randrange(k)])
            lines.append("(step s%d true :rule chk :args ((eo::is_eq h%d h%d) false))" % (k, k, j))
        elif k % 3 == 1:
            j = r.randrange(k)
            lines.append("(step s%d true :rule chk :args ((eo::is_eq h%d (eo::hash %s)) true))" % (k, j, terms[j]))
    text = "\n".join(lines) + "\n"
    res = c.run({"t.eo": text}, variant=r.choice(["rel", "rel", "dbg", "san"]))
    c.seen(("many", seed))
    c.count("hashes_of_discarded_terms", n)
    if res.kind != "correct":
        c.violation("many", "the hashes of %d terms, most of them discarded" % n, {"t.eo": text}, expected="all pairwise checks hold", observed=res.brief())


def run(c):
    c.rule = ("random histories of 40-260 commands in which the same and nearly the same terms are built in many ways, discarded and rebuilt under push/pop; "
              "each identity, hash, order and type observation is compared with structural equality of the model terms")
    c.assumptions = ["structural equality of model terms (lib/terms.py) as the meaning of identity", "g++ and its sanitizers"]
    c.need("dbg", "san", "rel")
    table(c)
    c.ppmap(lambda s: one(c, s), [c.rng.random() for _ in range(c.n(1500, 30000))])
    c.ppmap(lambda s: rejected(c, s), [c.rng.random() for _ in range(c.n(900, 15000))])
    c.ppmap(lambda s: many(c, s), [c.rng.random() for _ in range(c.n(24, 300))])
