"""C09: typing. Random signatures with simple, polymorphic, dependent,
guarded, computed, implicit, opaque and ambiguous declarations; a reference
typing function decides which applications are well typed and what their type
is."""
import random
from fractions import Fraction
import batch
import terms as T
import values as V
from batch import Item
from terms import S, A

INT, BOOL, U, TYPE, STR, REAL = S("Int"), S("Bool"), S("U"), S("Type"), S("Str"), S("Real")


def P(n):
    return ("p", n)


def E(op, *a):
    return ("e", op) + a


def arrow(*ts):
    r = ts[-1]
    for t in reversed(ts[:-1]):
        r = ("->", t, r)
    return r


def BV(n):
    return A(S("BV"), n)


def show(t, r=None):
    k = t[0]
    if k == "->":
        args = [show(t[1], r)]
        t = t[2]
        while t[0] == "->" and (r is None or r.random() < 0.8):
            args.append(show(t[1], r))
            t = t[2]
        return "(-> %s %s)" % (" ".join(args), show(t, r))
    if k == "~>":
        return "<quote %s>" % show(t[3], r)
    if k == "p":
        return t[1]
    if k == "e":
        return "(%s%s %s)" % ("" if t[1][0] == "$" else "eo::", t[1], " ".join(show(x, r) for x in t[2:]))
    if k == "as":
        return "(as %s %s)" % (t[1], show(t[2], r))
    if k == "op":
        return "(%s %s)" % (t[1], " ".join(show(x, r) for x in t[2]))
    if k == "@":
        h, args = T.spine(t)
        if h[0] == "op":
            # opaque arguments come first
            if r is not None and r.random() < 0.5:
                return "(_ %s %s)" % (show(h, r), " ".join(show(x, r) for x in args))
            return "(%s %s)" % (h[1], " ".join(show(x, r) for x in h[2] + tuple(args)))
        if r is not None and len(args) > 1 and r.random() < 0.25:
            m = r.randint(1, len(args) - 1)
            return "(_ (%s %s) %s)" % (show(h, r), " ".join(show(x, r) for x in args[:m]), " ".join(show(x, r) for x in args[m:]))
        us = "_ " if r is not None and r.random() < 0.3 else ""
        return "(%s%s %s)" % (us, show(h, r), " ".join(show(x, r) for x in args))
    return T.show(t)


def free(t):
    k = t[0]
    if k == "p":
        return {t[1]}
    if k in ("@", "->"):
        return free(t[1]) | free(t[2])
    if k == "~>":
        return (free(t[2]) | free(t[3])) - {t[1]}
    if k == "e":
        return set().union(*[free(x) for x in t[2:]])
    return set()


def subst(t, c):
    k = t[0]
    if k == "p":
        return c.get(t[1], t)
    if k in ("@", "->"):
        return (k, subst(t[1], c), subst(t[2], c))
    if k == "~>":
        return (k, t[1], subst(t[2], c), subst(t[3], c))
    if k == "e":
        return t[:2] + tuple(subst(x, c) for x in t[2:])
    return t


class Stuck(Exception):
    pass


class Unjudged(Exception):
    pass


def ev(t):
    """Evaluate a ground type; Stuck if it does not reduce."""
    k = t[0]
    if k in ("@", "->"):
        return (k, ev(t[1]), ev(t[2]))
    if k != "e":
        return t
    op = t[1]
    if op == "ite":
        c = ev(t[2])
        if c[0] != "bool":
            raise Stuck()
        return ev(t[3] if c[1] else t[4])
    a = []
    if op in ("is_eq", "is_ok"):
        for x in t[2:]:
            try:
                a.append(ev(x))
            except Stuck:
                return V.FALSE
        return V.B(op == "is_ok" or a[0] == a[1])
    a = [ev(x) for x in t[2:]]
    if op == "requires":
        if a[0] != a[1]:
            raise Stuck()
        return a[2]
    if op == "eq":
        return V.B(a[0] == a[1])
    if op == "$union":
        if a[0] == a[1] and a[0] in (INT, REAL):
            return a[0]
        if set(a) == {INT, REAL}:
            return REAL
        raise Stuck()
    if op == "$elem":
        if a[0][0] == "@" and a[0][1] == S("Set"):
            return a[0][2]
        if a[0][0] == "@" and a[0][1][0] == "@" and a[0][1][1] == S("Arr"):
            return a[0][2]
        raise Stuck()
    if op == "$iter":
        # (-> U ... U) with n arguments
        n, ty = a
        if n[0] != "num" or n[1] < 0:
            raise Stuck()
        return arrow(*([ty] * (n[1] + 1)))
    if op == "is_z":
        return V.B(a[0][0] == "num")
    if not all(V.is_lit(x) for x in a):
        raise Stuck()
    v = V.apply(op, a)
    if v is None:
        raise Stuck()
    return v


def reduce_(t):
    """Evaluate the ground parts of a type (a non-ground conditional may be
    reduced as soon as its condition is known)."""
    if not free(t) and t[0] != "~>":
        return ev(t)
    k = t[0]
    if k in ("@", "->"):
        # parts of a non-ground type that do not reduce stay as they are
        def red(x):
            try:
                return reduce_(x)
            except Stuck:
                return x
        return (k, red(t[1]), red(t[2]))
    return t


def match(p, t, c):
    k = p[0]
    if k == "p":
        if p[1] in c:
            return c[p[1]] == t
        c[p[1]] = t
        return True
    if k in ("@", "->"):
        return t[0] == k and match(p[1], t[1], c) and match(p[2], t[2], c)
    return p == t


PRE = """(declare-const Int Type) (declare-consts <numeral> Int)
(declare-const Real Type) (declare-consts <rational> Real)
(declare-const Str Type) (declare-consts <string> Str)
(declare-const U Type)
(declare-const BV (-> Int Type)) (declare-consts <binary> (BV (eo::len eo::self)))
(declare-const HV (-> Int Str Type)) (declare-consts <hexadecimal> (HV 8 "hex"))
(declare-const Set (-> Type Type)) (declare-const Arr (-> Type Type Type)) (declare-const Tag (-> U Type))
(declare-const HK (-> (-> Type Type) Type))
(declare-const x U) (declare-const y U) (declare-const i Int) (declare-const j Int) (declare-const q Real)
(declare-const a Bool) (declare-const b4 (BV 4)) (declare-const b5 (BV 5)) (declare-const bi (BV i))
(declare-const su (Set U)) (declare-const si (Set Int)) (declare-const tx (Tag x)) (declare-const ty (Tag y))
(declare-const aiu (Arr Int U)) (declare-const aib (Arr Int Bool)) (declare-const auu (Arr U U)) (declare-const hk (HK Set))
(program $union () :signature (Type Type) Type ((($union Int Int) Int) (($union Int Real) Real) (($union Real Int) Real) (($union Real Real) Real)))
(program $elem ((T Type) (V Type)) :signature (Type) Type ((($elem (Set T)) T) (($elem (Arr T V)) V)))
(program $iter ((n Int) (T Type)) :signature (Int Type) Type ((($iter 0 T) T) (($iter n T) (eo::ite (eo::is_neg n) (eo::requires 0 1 T) (-> T ($iter (eo::add n -1) T))))))
"""
LEAF = {"x": U, "y": U, "i": INT, "j": INT, "q": REAL, "a": BOOL, "b4": BV(V.num(4)), "b5": BV(V.num(5)), "bi": BV(S("i")),
        "su": A(S("Set"), U), "si": A(S("Set"), INT), "tx": A(S("Tag"), S("x")), "ty": A(S("Tag"), S("y")),
        '(eo::var "v" U)': U, '(eo::var "k" Int)': INT, '(eo::var "k" Bool)': BOOL, '(eo::var "b" (BV 4))': BV(V.num(4)),
        "aiu": A(S("Arr"), INT, U), "aib": A(S("Arr"), INT, BOOL), "auu": A(S("Arr"), U, U), "hk": A(S("HK"), S("Set"))}
TCON = {"Int": TYPE, "Real": TYPE, "Str": TYPE, "U": TYPE, "Bool": TYPE, "BV": arrow(INT, TYPE), "HV": arrow(INT, STR, TYPE),
        "Set": arrow(TYPE, TYPE), "Arr": arrow(TYPE, TYPE, TYPE), "Tag": arrow(U, TYPE), "HK": arrow(arrow(TYPE, TYPE), TYPE)}


class Sig:
    def __init__(self):
        self.env = dict(LEAF, **TCON)
        self.amb = {}       # name -> (pattern of the return type, type)
        self.opaque = {}    # name -> list of pattern types, rest
        self.decls = []
        self.guarded = []
        self.funargs = []

    def type_of(self, t):
        k = t[0]
        if k == "s":
            return self.env.get(t[1])
        if k == "num":
            return INT
        if k == "rat":
            return REAL
        if k == "str":
            return STR
        if k == "bool":
            return BOOL
        if k == "bin":
            return BV(V.num(t[1]))
        if k == "hex":
            return A(S("HV"), V.num(8), V.sstr("hex"))
        if k == "->":
            return TYPE
        if k == "as":
            if self.type_of(t[2]) is None or t[1] not in self.amb:
                return None
            pat, ty = self.amb[t[1]]
            c = {}
            return self.inst(ty, c) if match(pat, t[2], c) else None
        if k == "op":
            pats, rest = self.opaque[t[1]]
            c = {}
            for p, a in zip(pats, t[2]):
                ta = self.type_of(a)
                if ta is None or not match(p, ta, c):
                    return None
            return self.inst(rest, c)
        if k == "@":
            f, a = self.type_of(t[1]), self.type_of(t[2])
            if f is None or a is None:
                return None
            c = {}
            if f[0] == "->":
                if not match(f[1], a, c):
                    return None
                if "K" in c and self.type_of(c["K"]) != arrow(TYPE, TYPE):
                    # the kinds of implicit parameters are not judged
                    raise Unjudged()
                return self.inst(f[2], c)
            if f[0] == "~>":
                if a != f[2]:
                    return None
                return self.inst(f[3], {f[1]: t[2]})
            return None
        raise ValueError(t)

    def inst(self, ty, c):
        try:
            return reduce_(subst(ty, c))
        except Stuck:
            return None


def ground_type(r, depth=1):
    k = r.random()
    if depth <= 0 or k < 0.55:
        return r.choice([INT, U, BOOL, REAL, STR, BV(V.num(4)), BV(V.num(5)), BV(S("i")), A(S("Tag"), S("x"))])
    if k < 0.7:
        return A(S("Set"), ground_type(r, depth - 1))
    if k < 0.8:
        return A(S("Arr"), ground_type(r, depth - 1), ground_type(r, depth - 1))
    return arrow(ground_type(r, depth - 1), ground_type(r, depth - 1))


def signature(r):
    g = Sig()
    n = 0

    def name():
        nonlocal n
        n += 1
        return "c%d" % n
    for _ in range(6):
        m = name()
        ty = arrow(*[ground_type(r, 1) for _ in range(r.choice([1, 2, 2, 3, 4, 6, 8]))], ground_type(r, 1))
        g.decls.append("(declare-const %s %s)" % (m, show(ty, r)))
        g.env[m] = ty
    for _ in range(3):
        m = name()
        ty = ground_type(r, 2)
        g.decls.append("(declare-const %s %s)" % (m, show(ty, r)))
        g.env[m] = ty

    def tpat(vs, depth=1):
        """Type pattern over type parameters."""
        k = r.random()
        if depth <= 0 or k < 0.5:
            return P(r.choice(vs))
        if k < 0.65:
            return A(S("Set"), tpat(vs, depth - 1))
        if k < 0.8:
            return A(S("Arr"), tpat(vs, depth - 1), tpat(vs, depth - 1) if r.random() < 0.7 else ground_type(r, 0))
        if k < 0.9:
            return arrow(tpat(vs, depth - 1), tpat(vs, depth - 1))
        return ground_type(r, 0)

    def numexp(vs):
        k = r.random()
        x = lambda: P(r.choice(vs)) if r.random() < 0.75 else V.num(r.randint(-2, 9))
        if k < 0.5:
            return E(r.choice(["add", "mul", "add"]), x(), x())
        if k < 0.6:
            return E("zdiv", x(), V.num(r.choice([2, 3])))
        if k < 0.7:
            return E("neg", x())
        if k < 0.85:
            return E("ite", E("gt", x(), x()), x(), x())
        return x()

    def guard(vs, res, num):
        """Result guarded by a requirement or chosen by a condition."""
        k = r.random()
        x = P(r.choice(vs))
        if num:
            cond = r.choice([E("gt", x, V.num(r.choice([0, 3, 4]))), E("eq", x, V.num(4)), E("is_z", x), E("is_eq", x, P(r.choice(vs))),
                             E("not", E("is_neg", E("add", x, V.num(-5))))])
        else:
            cond = r.choice([E("eq", x, r.choice([INT, U])), E("is_eq", x, P(r.choice(vs))), E("not", E("eq", x, BOOL))])
        if k < 0.12:
            # a requirement between other values
            if num:
                a, b = r.choice([(x, V.num(4)), (x, V.num(5)), (V.num(4), x), (x, P(r.choice(vs))), (E("add", x, P(r.choice(vs))), V.num(r.choice([8, 9, 10]))),
                                 (BV(x), BV(V.num(4))), (BV(x), BV(P(r.choice(vs))))])
            else:
                a, b = r.choice([(x, INT), (x, U), (x, P(r.choice(vs))), (A(S("Set"), x), A(S("Set"), BOOL)), (arrow(x, x), arrow(P(r.choice(vs)), U))])
            return E("requires", a, b, res)
        if k < 0.36:
            return E("requires", cond, V.B(r.random() < 0.8), res)
        if k < 0.55:
            return E("ite", cond, res, ground_type(r, 0))
        return res
    # polymorphic
    for _ in range(6):
        m = name()
        vs = ["T", "V", "W", "X", "Y", "Z"][:r.choice([1, 1, 2, 2, 3, 6])]
        args = [tpat(vs, r.choice([0, 1, 1, 2])) for _ in range(r.choice([1, 2, 2, 3, 3, 5, 7]))]
        fv = sorted(set().union(*[free(t) for t in args]))
        if not fv:
            continue
        res = r.choice([BOOL, U, tpat(fv), tpat(fv)])
        if r.random() < 0.15:
            res = arrow(r.choice([U, tpat(fv)]), res)
        if r.random() < 0.45:
            res = guard(fv, res, False)
        ty = arrow(*args, res)
        ps = ["(%s Type :implicit)" % v for v in fv]
        r.shuffle(ps)
        if r.random() < 0.25:
            # one of the parameters is an explicit argument
            v = r.choice(fv)
            ps.remove("(%s Type :implicit)" % v)
            ps = ps + ["(%s Type)" % v]
            full = ("~>", v, TYPE, ty)
        else:
            full = ty
        g.decls.append("(declare-parameterized-const %s (%s) %s)" % (m, " ".join(ps), show(ty, r)))
        g.env[m] = full
    # arguments of functional type with many arguments
    for _ in range(2):
        m = name()
        vs = ["T", "V"]
        pat = arrow(*[r.choice([P("T"), P("V"), P("V"), A(S("Set"), P("T")), ground_type(r, 0)]) for _ in range(r.choice([2, 4, 5, 6, 8]))], r.choice([P("T"), P("V"), BOOL]))
        fv = sorted(free(pat))
        if not fv:
            continue
        ty = arrow(pat, r.choice([BOOL, P(fv[0])]))
        g.decls.append("(declare-parameterized-const %s (%s) %s)" % (m, " ".join("(%s Type :implicit)" % v for v in fv), show(ty, r)))
        g.env[m] = ty
        for _ in range(3):
            f = name()
            t = subst(pat, {v: r.choice([INT, U, BOOL]) for v in fv})
            for _ in range(r.choice([0, 1])):
                t = near(r, t)
            g.decls.append("(declare-const %s %s)" % (f, show(t, r)))
            g.env[f] = t
            g.funargs.append((m, f))
    # indexed by numbers
    for _ in range(7):
        m = name()
        vs = ["n", "m"][:r.choice([1, 2, 2])]
        args = []
        for v in vs + ([r.choice(vs)] if r.random() < 0.4 else []):
            args.append(BV(P(v)))
        if r.random() < 0.3:
            # an argument whose type is computed from the previous ones
            args.append(BV(E("add", P(vs[0]), P(vs[-1]))))
        if r.random() < 0.3:
            args.insert(r.randint(0, len(args)), ground_type(r, 0))
        res = r.choice([BV(numexp(vs)), BV(numexp(vs)), BOOL, A(S("Set"), BV(numexp(vs))), E("$iter", P(vs[0]), r.choice([U, INT]))])
        if r.random() < 0.15:
            res = arrow(r.choice([U, BV(P(vs[0]))]), res)
        if r.random() < 0.45:
            res = guard(vs, res, True)
        ty = arrow(*args, res)
        full = ty
        ps = ["(%s Int :implicit)" % v for v in vs]
        if r.random() < 0.45:
            v = r.choice(vs)
            ps = [p for p in ps if not p.startswith("(%s " % v)] + ["(%s Int)" % v]
            full = ("~>", v, INT, ty)
            if r.random() < 0.5:
                # the explicit argument need not occur later
                args = [t for t in args if v not in free(t)]
                ty = arrow(*args, res) if args else res
                full = ("~>", v, INT, ty)
                need = set().union(*[free(t) for t in args]) if args else set()
                if not free(res) <= need | {v}:
                    continue
                ps = [p for p in ps if p[1] in need or p[1] == v]
        elif not free(args[0]):
            pass
        g.decls.append("(declare-parameterized-const %s (%s) %s)" % (m, " ".join(ps), show(ty, r)))
        g.env[m] = full
    # requirements between values of the indices and types of the arguments
    for num in (True, False, True):
        m = name()
        vs = r.choice([["n"], ["n", "m"]]) if num else r.choice([["T"], ["T", "V"]])
        x, y = P(vs[0]), P(vs[-1])
        if num:
            a, b = r.choice([(x, V.num(4)), (V.num(5), x), (x, y), (E("add", x, y), V.num(r.choice([8, 9, 10]))), (E("mul", x, V.num(2)), E("add", y, V.num(5))),
                             (E("gt", x, y), V.TRUE), (E("is_z", x), V.TRUE), (E("to_q", x), V.rat(Fraction(4))), (BV(x), BV(V.num(4)))])
            args = [BV(P(v)) for v in vs]
        else:
            a, b = r.choice([(x, INT), (U, x), (x, y), (A(S("Set"), x), A(S("Set"), y)), (arrow(x, U), arrow(y, U)), (E("eq", x, y), V.TRUE), (E("eq", x, y), V.FALSE),
                             (E("is_eq", x, INT), V.FALSE)])
            args = [r.choice([P(v), A(S("Set"), P(v))]) for v in vs]
        res = r.choice([BOOL, U, BV(x) if num else x])
        ty = arrow(*args, E("requires", a, b, res))
        g.decls.append("(declare-parameterized-const %s (%s) %s)" % (m, " ".join("(%s %s :implicit)" % (v, "Int" if num else "Type") for v in vs), show(ty, r)))
        g.env[m] = ty
        g.guarded.append(m)
    # two explicit arguments
    m = name()
    g.decls.append("(declare-parameterized-const %s ((n Int) (T Type)) (-> (BV n) T (BV (eo::add n 1))))" % m)
    g.env[m] = ("~>", "n", INT, ("~>", "T", TYPE, arrow(BV(P("n")), P("T"), BV(E("add", P("n"), V.num(1))))))
    m = name()
    g.decls.append("(declare-parameterized-const %s ((z U)) (-> (Tag z) (Tag z)))" % m)
    g.env[m] = ("~>", "z", U, arrow(A(S("Tag"), P("z")), A(S("Tag"), P("z"))))
    # several explicit arguments
    for _ in range(4):
        m = name()
        sorts = [r.choice([("n", INT), ("z", U), ("s", STR), ("T", TYPE), ("w", A(S("Set"), INT)), ("c", BOOL)]) for _ in range(r.choice([2, 2, 3, 4, 6, 8]))]
        sorts = [(v + str(k), ty) for k, (v, ty) in enumerate(sorts)]
        dep = [BV(P(v)) for v, ty in sorts if ty == INT] + [P(v) for v, ty in sorts if ty == TYPE] + \
              [A(S("Tag"), P(v)) for v, ty in sorts if ty == U] + [E("ite", E("is_eq", P(v), V.TRUE), INT, U) for v, ty in sorts if ty == BOOL] + \
              [A(S("HV"), V.num(8), P(v)) for v, ty in sorts if ty == STR] + [ground_type(r, 0)]
        ts = [r.choice(dep) for _ in range(r.choice([0, 0, 1, 2]))] + [r.choice(dep)]
        ty = arrow(*ts)
        g.decls.append("(declare-parameterized-const %s (%s) %s)" % (m, " ".join("(%s %s)" % (v, show(t, r)) for v, t in sorts), show(ty, r)))
        for v, t in reversed(sorts):
            ty = ("~>", v, t, ty)
        g.env[m] = ty
    # computed types
    m = name()
    g.decls.append("(declare-parameterized-const %s ((T Type :implicit) (V Type :implicit)) (-> T V ($union T V)))" % m)
    g.env[m] = arrow(P("T"), P("V"), E("$union", P("T"), P("V")))
    m = name()
    g.decls.append("(declare-parameterized-const %s ((T Type :implicit)) (-> T ($elem T)))" % m)
    g.env[m] = arrow(P("T"), E("$elem", P("T")))
    m = name()
    g.decls.append("(declare-parameterized-const %s ((T Type :implicit)) (-> T ($elem T) T))" % m)
    g.env[m] = arrow(P("T"), E("$elem", P("T")), P("T"))
    # higher kinds: a parameter standing for a type constructor
    m = name()
    g.decls.append("(declare-parameterized-const %s ((K (-> Type Type) :implicit) (T Type :implicit)) (-> (_ K T) T))" % m)
    g.env[m] = arrow(("@", P("K"), P("T")), P("T"))
    # opaque
    for _ in range(3):
        m = name()
        k = r.random()
        if k < 0.25:
            pats, rest = [ground_type(r, 1) for _ in range(r.choice([2, 3, 4, 6]))], r.choice([U, arrow(INT, BOOL), arrow(U, U, U)])
            ps = ""
        elif k < 0.5:
            pats, rest = [A(S("Arr"), P("T"), P("V"))] * 2, r.choice([P("T"), arrow(P("T"), P("V")), arrow(P("V"), P("V"), BOOL)])
            ps = "(T Type :implicit) (V Type :implicit)"
        elif k < 0.7:
            pats, rest = [ground_type(r, 1)], r.choice([U, arrow(INT, BOOL), arrow(U, U, U)])
            ps = ""
        else:
            pats, rest = [BV(P("n")), INT], r.choice([BV(E("add", P("n"), V.num(1))), arrow(BV(P("n")), BOOL)])
            ps = "(n Int :implicit)"
        ops = " ".join("(o%d %s :opaque)" % (z, show(p, r)) for z, p in enumerate(pats))
        g.decls.append("(declare-parameterized-const %s (%s %s) %s)" % (m, ps, ops, show(rest, r)))
        g.opaque[m] = (pats, rest)
    # ambiguous
    for _ in range(2):
        m = name()
        k = r.random()
        if k < 0.4:
            pat = A(S("Set"), P("T"))
            ps, ty = "(T Type :implicit)", pat
        elif k < 0.7:
            pat = A(S("Arr"), P("T"), P("V"))
            ps, ty = "(T Type :implicit) (V Type :implicit)", arrow(P("V"), pat)
        else:
            pat = BV(P("n"))
            ps, ty = "(n Int :implicit)", arrow(INT, pat)
        g.decls.append("(declare-parameterized-const %s (%s) %s)" % (m, ps, show(ty, r)))
        g.amb[m] = (pat, ty)
    return g


LITS = [V.num(0), V.num(4), V.num(5), V.num(-3), V.rat(Fraction(1, 2)), V.sstr("s"), V.TRUE, V.binv(4, 6), V.binv(5, 1), V.hexv(8, 255)]


def pools(r, g, size):
    """(well typed terms with their type, ill typed terms)"""
    good = [(S(m), t) for m, t in g.env.items()] + [(t, g.type_of(t)) for t in LITS]
    good += [(t, TYPE) for t in (BV(V.num(4)), A(S("Set"), U), A(S("Arr"), INT, BOOL), arrow(INT, U), BV(S("i")), A(S("HV"), V.num(4), V.sstr("hex")))]
    args = [(t, ty) for t, ty in good if not free(ty) and ty[0] != "~>" and t[0] != "s"] + \
           [(S(m), g.env[m]) for m in LEAF]
    args += [(S(m), t) for m, t in g.env.items() if m not in LEAF and not free(t) and t[0] != "~>" and (m in TCON or r.random() < 0.4)]
    heads = [(S(m), t) for m, t in g.env.items() if t[0] in ("->", "~>") and m not in TCON] * 2 + \
            [(S(m), TCON[m]) for m in ("BV", "Set", "Arr", "Tag", "HK")]
    bad, near_, extra, faulty = [], [], [], []
    # applications whose arguments have the right types but whose computed
    # type may not exist
    todo = [(S(m), g.env[m]) for m in g.guarded]
    while todo:
        h, ty = todo.pop()
        cand = [a for a, t in args if ty[0] == "->" and match(ty[1], t, {})]
        r.shuffle(cand)
        for a in cand[:3]:
            t = ("@", h, a)
            try:
                tt = g.type_of(t)
            except Unjudged:
                continue
            if tt is None:
                near_.append(t)
            elif tt[0] == "->":
                todo.append((t, tt))
            elif free(tt):
                pass
            elif T_size(t) < 40:
                good.append((t, tt))
                args.append((t, tt))
    for m, f in g.funargs:
        t = ("@", S(m), S(f))
        ty = g.type_of(t)
        if ty is None:
            near_.insert(0, t)
        else:
            good.append((t, ty))
            extra.append((t, ty))
    good_extra = extra + [x for x in good if x[0][0] == "@" and T.spine(x[0])[0][0] == "s" and T.spine(x[0])[0][1] in g.guarded]
    out = []
    tries = 0
    while len(out) < size and tries < size * 40:
        tries += 1
        k = r.random()
        full = False
        if k < 0.08 and g.opaque:
            m = r.choice(sorted(g.opaque))
            t = ("op", m, tuple(r.choice(args)[0] for _ in g.opaque[m][0]))
            if r.random() < 0.6:
                # arguments of the right types, perhaps but for one
                xs = list(t[2])
                for z, p in enumerate(g.opaque[m][0]):
                    fit = [a for a, ta in args if ta == p]
                    if fit:
                        xs[z] = r.choice(fit)
                if r.random() < 0.25:
                    xs[r.randrange(len(xs))] = r.choice(args)[0]
                t = t[:2] + (tuple(xs),)
        elif k < 0.16 and g.amb:
            m = r.choice(sorted(g.amb))
            pat = g.amb[m][0]
            c = {"T": ground_type(r, 1), "V": ground_type(r, 1), "n": r.choice([V.num(4), V.num(7), S("i")])}
            t = ("as", m, subst(pat, c) if r.random() < 0.8 else ground_type(r, 1))
        elif k < 0.45:
            # a complete application, perhaps with a wrong argument
            h = r.choice([h for h in heads if h[0][0] == "s"])
            t, ty = h
            fault = r.randrange(8) if r.random() < 0.35 else -1
            z = 0
            while ty is not None and ty[0] in ("->", "~>") and T_size(t) <= 60:
                want = ty[1] if ty[0] == "->" else ty[2]
                fit = [a for a, ta in args if match(want, ta, {})] if z != fault else [a for a, _ in args]
                if not fit:
                    break
                t = ("@", t, r.choice(fit))
                try:
                    ty = g.type_of(t)
                except Unjudged:
                    break
                z += 1
            if t == h[0]:
                continue
            full = z > fault >= 0
        else:
            h = r.choice(heads)
            t = ("@", h[0], r.choice(args[-40:] if r.random() < 0.3 else args)[0])
        if T_size(t) > 60:
            continue
        try:
            ty = g.type_of(t)
        except Unjudged:
            continue
        if ty is None:
            if full and T_size(t) < 60:
                faulty.append(t)
            elif r.random() < 0.15 and T_size(t) < 40:
                bad.append(t)
            continue
        out.append((t, ty))
        if ty[0] in ("->", "~>"):
            heads.append((t, ty))
            if r.random() < 0.5:
                heads.append((t, ty))
        if not free(ty) and ty[0] != "~>":
            args.append((t, ty))
    r.shuffle(bad)
    # what fails only because the computed type does not exist comes first
    r.shuffle(near_)
    r.shuffle(faulty)
    bad = near_[:9] + faulty[:8] + bad
    return out + good_extra, bad


def T_size(t):
    if t[0] in ("@", "->"):
        return 1 + T_size(t[1]) + T_size(t[2])
    if t[0] == "op":
        return 1 + sum(T_size(x) for x in t[2])
    return 1


def closed(ty):
    return not free(ty) and not has_quote(ty)


def has_quote(ty):
    return ty[0] == "~>" or (ty[0] == "->" and (has_quote(ty[1]) or has_quote(ty[2])))


def one(c, seed):
    r = random.Random(seed)
    g = signature(r)
    pre = batch.CHK + PRE + "(program $ty ((T Type) (@x T)) :signature (T) Type ((($ty @x) (eo::typeof @x))))\n" + \
        "(declare-rule tr ((T Type) (@x T)) :args (@x) :conclusion (pr$ (eo::typeof @x)))\n" + \
        "(declare-rule cl ((@x Bool)) :args (@x) :conclusion @x)\n" + "\n".join(g.decls)
    good, bad = pools(r, g, 60)
    items = []
    n = 0
    for t, ty in good:
        n += 1
        txt = show(t, r)
        c.count("well typed terms")
        if not closed(ty):
            # not a ground type: there is no type to compare with, but uses of
            # the term must be accepted
            items.append(Item("(step s%d :rule chk :args ((eo::typeof (pr$ %s)) Bool))" % (n, txt), "accept:generic", "%s is well typed" % txt, "accepted"))
            c.count("context generic")
            c.seen(txt)
            continue
        tt = show(ty, r)
        kinds = ["typeof", "define", "prog", "rule", "pr", "param"]
        if ty == BOOL:
            kinds += ["assume", "step"] * 2
        if ty == TYPE:
            kinds += ["declare"] * 3
        k = r.choice(kinds)
        if k == "typeof":
            s = "(step s%d :rule chk :args ((eo::typeof %s) %s))" % (n, txt, tt)
        elif k == "define":
            s = "(define d%d () %s :type %s)" % (n, txt, tt)
        elif k == "param":
            p = show(ground_type(r, 1), r)
            s = "(define d%d ((@w %s)) %s :type (-> %s %s))" % (n, p, txt, p, tt)
        elif k == "prog":
            s = "(step s%d :rule chk :args (($ty %s) %s))" % (n, txt, tt)
        elif k == "rule":
            s = "(step s%d (pr$ %s) :rule tr :args (%s))" % (n, tt, txt)
        elif k == "pr":
            s = "(step s%d (pr$ %s) :rule ev :args (%s))" % (n, txt, txt)
        elif k == "assume":
            s = "(assume s%d %s)" % (n, txt)
        elif k == "step":
            s = "(step s%d %s :rule cl :args (%s))" % (n, txt, txt)
        else:
            s = "(declare-const e%d %s) (step s%d :rule chk :args ((eo::typeof e%d) %s))" % (n, txt, n, n, txt)
        c.count("context " + k)
        c.seen((txt, k))
        items.append(Item(s, "accept:" + k, "%s has type %s" % (txt, tt), "accepted"))
    for t in bad[:30]:
        n += 1
        txt = show(t, r)
        items.append(Item("(step s%d :rule chk :args ((eo::is_ok (eo::typeof %s)) false))" % (n, txt), "typeof:ill-typed", "%s has no type" % txt, "accepted"))
        c.count("context typeof of ill-typed term")
        c.seen((txt, "bad"))
    if r.random() < 0.05:
        c.sample("\n".join(g.decls) + "\n" + "\n".join(i.text for i in items[:6]))
    batch.run_batch(c, pre, items, r.choice(["dbg", "dbg", "san", "rel"]), fname="t.eo")
    # rejected inputs
    rej = []
    for t in r.sample(bad[:20], min(8, len(bad[:20]))):
        txt = show(t, r)
        up = txt
        if r.random() < 0.5:
            up = "(pr$ %s)" % up
        k = r.choice(["define", "assume", "ev", "step", "declare", "push", "let", "param", "macro", "rule", "as"])
        if k == "define":
            s = "(define d () %s :type %s)" % (up, "Bool" if up != txt else show(ground_type(r, 1), r))
        elif k == "assume":
            s = "(assume p (pr$ %s))" % txt
        elif k == "ev":
            s = "(step p :rule ev :args (%s))" % txt
        elif k == "step":
            s = "(step p (pr$ %s) :rule ev :args (%s))" % (txt, txt)
        elif k == "declare":
            s = "(declare-const e %s)" % txt if g.type_of(t) is None else None
        elif k == "push":
            s = "(assume-push p (pr$ %s)) (step-pop z (pr$ true) :rule sc :premises ())" % txt
        elif k == "let":
            s = "(define d () (eo::define ((@v %s)) (pr$ @v)) :type Bool)" % txt
        elif k == "param":
            s = "(define d ((@w Int)) (pr$ %s) :type (-> Int Bool))" % txt
        elif k == "macro":
            s = "(define d ((@w U)) (pr$ %s)) (assume p (d x))" % txt
        elif k == "as":
            s = "(declare-parameterized-const emp ((T Type :implicit)) (Set T)) (define d () (as emp (Set %s)) :type (Set %s))" % (txt, txt)
        else:
            s = "(step p (pr$ %s) :rule tr :args (%s))" % (show(ground_type(r, 1), r), txt)
        rej.append((k, s, "%s is ill typed" % txt))
    typed = [(t, ty) for t, ty in good if closed(ty)]
    for _ in range(6):
        if not typed:
            break
        t, ty = r.choice(typed)
        txt = show(t, r)
        other = r.choice([ground_type(r, 1), r.choice(typed)[1], near(r, ty)])
        if other == ty:
            continue
        k = r.choice(["define", "typeof", "assume", "step", "declare", "push", "param"])
        if k == "define":
            s = "(define d () %s :type %s)" % (txt, show(other, r))
        elif k == "param":
            s = "(define d ((@w U)) %s :type (-> U %s))" % (txt, show(other, r))
        elif k == "typeof":
            s = "(step p :rule chk :args ((eo::typeof %s) %s))" % (txt, show(other, r))
        elif ty == BOOL:
            continue
        elif k == "assume":
            s = "(assume p %s)" % txt
        elif k == "push":
            s = "(assume-push p %s)" % txt
        elif k == "step":
            s = "(step p %s :rule cl :args (%s))" % (txt, txt)
        elif ty != TYPE:
            s = "(declare-const e %s)" % txt
        else:
            continue
        rej.append((k + "-type", s, "%s has type %s" % (txt, show(ty))))
    for k, s, what in rej:
        if s is None:
            continue
        files = {"t.eo": pre + "\n" + s + "\n"}
        res = c.run(files, variant=r.choice(["rel", "rel", "dbg", "rel", "rel", "san"]))
        c.count("rejected " + k)
        c.seen(s)
        bad_pos = res.kind == "reject" and res.pos() and res.pos()[1] != files["t.eo"].count("\n")
        if res.kind != "reject" or (bad_pos and res.pos()[1] < files["t.eo"].count("\n")):
            c.violation("reject:" + k, "%s must be rejected: %s" % (s[:300], what), files, expected="rejected", observed=res.brief())


def near(r, ty):
    """A type that differs in one place."""
    if ty[0] in ("@", "->"):
        k = r.choice([1, 2])
        if ty[0] == "@" and k == 1 and ty[1][0] == "s":
            k = 2
        l = list(ty)
        l[k] = near(r, ty[k])
        return tuple(l)
    if ty[0] == "num":
        return V.num(ty[1] + r.choice([-1, 1]))
    if ty[0] == "s" and ty[1] in ("Int", "U", "Bool", "Real", "Str", "Type"):
        return r.choice([INT, U, BOOL, REAL, STR])
    return ty


# definitions in reference files
REFS = [("(define-fun h ((v U)) %s %s)", 1), ("(define-const h %s %s)", 0), ("(define-fun h () %s %s)", 0)]


def refs(c, seed):
    r = random.Random(seed)
    sig = "(declare-const Int Type) (declare-consts <numeral> Int) (declare-const not (-> Bool Bool))\n" \
          "(declare-parameterized-const = ((T Type :implicit)) (-> T T Bool))\n(declare-const + (-> Int Int Int) :right-assoc-nil 0)\n" \
          "(declare-const Arr (-> Type Type Type)) (declare-parameterized-const select ((T Type :implicit) (V Type :implicit)) (-> (Arr T V) T V))\n" \
          "(declare-const @L Type) (declare-const @nil @L) (declare-parameterized-const @cons ((T Type :implicit)) (-> T @L @L) :right-assoc-nil @nil)\n" \
          "(declare-parameterized-const lambda ((T Type :implicit) (V Type :implicit)) (-> @L V (-> @L V)) :binder @cons)\n"
    env = {"Int": ["i", "(+ i j)", "7", "(f i)", "(select ai j)"], "Bool": ["a", "(not a)", "(= i j)", "(= u u)", "(p u)"], "U": ["u", "(select au i)", "(g i u)"],
           "(Arr Int Int)": ["ai"], "(Arr Int U)": ["au"]}
    base = "(declare-sort U 0)\n(declare-fun i () Int)\n(declare-const j Int)\n(declare-fun a () Bool)\n(declare-fun u () U)\n(declare-fun f (Int) Int)\n(declare-fun p (U) Bool)\n" \
           "(declare-fun g (Int U) U)\n(declare-fun ai () (Arr Int Int))\n(declare-const au (Arr Int U))\n"
    for _ in range(14):
        ty = r.choice(sorted(env))
        other = r.choice(sorted(env))
        t = r.choice(env[other])
        ok = ty == other
        form, np = r.choice(REFS)
        k = r.random()
        if k < 0.5:
            cmd = form % (ty, t)
        elif k < 0.6:
            cmd, ok = "(assert %s)" % t, other == "Bool"
        elif k < 0.7:
            cmd, ok = "(assert (= %s %s))" % (r.choice(env[ty]), t), ty == other
        elif k < 0.8:
            cmd, ok = "(define-fun h ((v %s)) Bool (= v %s))" % (ty, t), ty == other
        elif k < 0.9:
            cmd, ok = "(define-fun h ((v %s)) %s v)(assert (= (h %s) %s))" % (other, ty if ok else other, t, t), True
        else:
            cmd, ok = r.choice([("(declare-fun h (Int %s) U)(assert (p (h i %s)))" % (ty, t), ty == other), ("(define-sort S () %s)(declare-fun h (S) Bool)(assert (h %s))" % (ty, t), ty == other),
                                ("(define-sort S (X) (Arr Int X))(declare-fun h () (S %s))(assert (= %s (select h i)))" % (ty, t), ty == other)])
        files = {"p.eo": "(include \"s.eo\")\n(reference \"r.smt2\")\n", "s.eo": sig, "r.smt2": base + cmd + "\n"}
        res = c.run(files, main="p.eo", variant=r.choice(["rel", "dbg", "san"]))
        c.count("reference definitions")
        c.seen(cmd)
        if (res.kind == "correct") != ok or res.kind not in ("correct", "reject"):
            c.violation("ref:%s" % ok, "%s must be %s" % (cmd, "accepted" if ok else "rejected"), files, main="p.eo", expected="accepted" if ok else "rejected", observed=res.brief())


def shared(c):
    """Large terms with shared subterms, and very deep ones."""
    for d, leaf, ok in ((60, "x", True), (90, "x", True), (90, "i", False), (4000, "x", True), (4000, "i", False)):
        lines = ["(declare-const g (-> U U U)) (declare-const h (-> U Bool))", "(define e0 () %s)" % leaf]
        if d < 1000:
            lines += ["(define e%d () (g e%d e%d))" % (k + 1, k, k) for k in range(d)]
            lines.append("(define z () e%d :type U)(assume p (h e%d))" % (d, d))
        else:
            lines.append("(assume p (h %s%s%s))" % ("(g x " * d, leaf, ")" * d))
        for v in ("dbg", "san", "rel"):
            files = {"t.eo": batch.CHK + PRE + "\n".join(lines) + "\n"}
            res = c.run(files, variant=v)
            c.seen((d, leaf, v))
            c.count("large terms")
            if (res.kind == "correct") != ok or res.kind not in ("correct", "reject"):
                c.violation("shared:%d:%s" % (d, leaf), "a large %s-typed term" % ("well" if ok else "ill"), files,
                            expected="correct" if ok else "rejected", observed=res.brief())


def run(c):
    c.rule = ("random signatures (simple, polymorphic, dependent, guarded, computed, opaque, ambiguous), random well- and ill-typed applications, "
              "typeof/definition/assumption/conclusion/declaration contexts, compared with a reference typing function")
    c.assumptions = ["reference typing function written from the user manual", "g++ and its sanitizers",
                     "argument types of -> are not themselves required to be types (not judged)"]
    c.need("dbg", "san", "rel")
    shared(c)
    c.ppmap(lambda s: one(c, s), [c.rng.random() for _ in range(c.n(500, 12000))])
    c.ppmap(lambda s: refs(c, s), [c.rng.random() for _ in range(c.n(50, 600))])
