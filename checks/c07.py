"""C07: applications of operators with attributes vs. explicit curried terms."""
import random
import batch
import terms as T
import values as V
from batch import Item
from terms import S, A

BASE = batch.CHK + """(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const U Type)
(declare-const V Type)
(declare-const L Type) (declare-const nil L) (declare-const l1 L) (declare-const l2 L)
(declare-const a Bool) (declare-const b Bool) (declare-const c Bool)
(declare-const i Int) (declare-const j Int)
(declare-const x U) (declare-const y U) (declare-const z U)
(declare-const v V) (declare-const w V)
(declare-const f (-> U U)) (declare-const g (-> U U U)) (declare-const h (-> U V)) (declare-const q (-> V V))
(declare-const not (-> Bool Bool)) (declare-const imp (-> Bool Bool Bool)) (declare-const P (-> U Bool)) (declare-const s (-> Int Int))
(declare-const BV (-> Int Type))
(declare-consts <binary> (BV (eo::len eo::self)))
(declare-const p4 (BV 4)) (declare-const q4 (BV 4)) (declare-const p1 (BV 1)) (declare-const q1 (BV 1))
(declare-const Set (-> Type Type))
(declare-parameterized-const emp ((T Type :implicit)) (Set T))
(declare-const su (Set U)) (declare-const tu (Set U)) (declare-const si (Set Int)) (declare-const ti (Set Int))
(declare-parameterized-const single ((T Type :implicit)) (-> T (Set T)))
(declare-const Arr (-> Type Type Type))
(declare-parameterized-const earr ((T Type :implicit) (V Type :implicit)) (Arr T V))
(declare-const m1 (Arr U Int)) (declare-const m2 (Arr U Int)) (declare-const k1 (Arr Int Bool)) (declare-const k2 (Arr Int Bool))
"""
BV4, BV1, SU, SI, MU, MI = "(BV 4)", "(BV 1)", "(Set U)", "(Set Int)", "(Arr U Int)", "(Arr Int Bool)"
PAR = {"BV": [BV4, BV4, BV1], "Set": [SU, SI], "Arr": [MU, MI]}
FUN2 = {t: "(-> %s %s %s)" % (t, t, t) for t in ("Bool", "U", "Int", "V")}
LEAVES = {
    "Bool": [S("a"), S("b"), S("c"), V.TRUE, V.FALSE], "Int": [S("i"), S("j"), V.num(0), V.num(1), V.num(-3), V.num(12345678901234567890)],
    "U": [S("x"), S("y"), S("z")], "V": [S("v"), S("w")], "L": [S("nil"), S("l1"), S("l2")],
    BV4: [S("p4"), S("q4"), V.binv(4, 0), V.binv(4, 15), V.binv(4, 6)], BV1: [S("p1"), S("q1"), V.binv(1, 0), V.binv(1, 1)],
    SU: [S("su"), S("tu"), S("(as emp (Set U))")], SI: [S("si"), S("ti"), S("(as emp (Set Int))")],
    MU: [S("m1"), S("m2"), S("(as earr (Arr U Int))")], MI: [S("k1"), S("k2"), S("(as earr (Arr Int Bool))")],
}
FUNS = {"f": (("U",), "U"), "g": (("U", "U"), "U"), "h": (("U",), "V"), "q": (("V",), "V"), "not": (("Bool",), "Bool"), "imp": (("Bool", "Bool"), "Bool"),
        "P": (("U",), "Bool"), "s": (("Int",), "Int")}
SIMPLE = ["Bool", "Int", "U", "V"]
ANY = SIMPLE + ["L", BV4, SU, MU]


class Op:
    """kind: ra la ran lan rann lann (assoc), chain, pair, arglist, binder.
    et: type of elements (None: any), lt: type of the list argument/result."""

    def __init__(self, name, kind, et, lt, decl, nil=None, comb=None, rt=None):
        self.name, self.kind, self.et, self.lt, self.decl, self.comb, self.rt = name, kind, et, lt, decl, comb, rt or lt
        self._nil = nil
        self.left = kind in ("la", "lan", "lann")
        self.isnil = kind in ("ran", "lan", "rann", "lann")
        self.ns = kind in ("rann", "lann")

    def nil(self, ty):
        return self._nil(ty) if callable(self._nil) else self._nil

    @property
    def sym(self):
        return S(self.name)


def bvof(bit):
    def n(ty):
        w = int(ty[4:-1])
        return V.binv(w, (1 << w) - 1 if bit else 0)
    return n


def setnil(ty):
    return S("(as emp %s)" % ty)


def arrnil(ty):
    return S("(as earr %s)" % ty)


ATTR = {"ra": ":right-assoc", "la": ":left-assoc", "ran": ":right-assoc-nil", "lan": ":left-assoc-nil",
        "rann": ":right-assoc-non-singleton-nil", "lann": ":left-assoc-non-singleton-nil"}
NAMES = ["o%d", "@o%d", "%d.o", "o+%d", "|o %d|", "o_%d-", "<=%d", "?%d!", "o@%d"]


def signature(r):
    """Random operators with attributes; list of Op in declaration order."""
    ops = []

    def name():
        k = len(ops)
        n = r.choice(NAMES) % k
        return n if not n[0].isdigit() else "$" + n
    nil_terms = {"Bool": [V.TRUE, V.FALSE, S("a"), A(S("not"), S("b"))], "Int": [V.num(0), V.num(1), S("i"), V.num(-2), A(S("s"), V.num(0))],
                 "U": [S("x"), A(S("f"), S("y")), A(S("g"), S("x"), S("z"))], "V": [S("v"), A(S("h"), S("x"))], "L": [S("nil"), S("l1")]}

    def assoc(kind, et, lt):
        n = name()
        if lt in (BV4, BV1):
            bit = r.random() < 0.4
            d = "(declare-parameterized-const %s ((m Int :implicit)) (-> (BV m) (BV m) (BV m)) %s %s)" % (
                n, ATTR[kind], "" if kind in ("ra", "la") else "(eo::not (eo::to_bin m 0))" if bit else "(eo::to_bin m 0)")
            ops.append(Op(n, kind, "=", "BV", d, bvof(bit)))
        elif lt == SU:
            d = "(declare-parameterized-const %s ((T Type :implicit)) (-> (Set T) (Set T) (Set T)) %s %s)" % (
                n, ATTR[kind], "" if kind in ("ra", "la") else "(as emp (Set T))")
            ops.append(Op(n, kind, "=", "Set", d, setnil))
        elif lt == MU:
            ps = ["(T Type :implicit)", "(V Type :implicit)"]
            r.shuffle(ps)
            d = "(declare-parameterized-const %s (%s) (-> (Arr T V) (Arr T V) (Arr T V)) %s %s)" % (
                n, " ".join(ps), ATTR[kind], "" if kind in ("ra", "la") else "(as earr (Arr T V))")
            ops.append(Op(n, kind, "=", "Arr", d, arrnil))
        else:
            nil = r.choice(nil_terms[lt])
            left = kind in ("la", "lan", "lann")
            ty = "(-> %s %s %s)" % ((lt, et or "T", lt) if left else (et or "T", lt, lt))
            head = "(declare-const %s" % n if et else "(declare-parameterized-const %s ((T Type :implicit))" % n
            d = "%s %s %s %s)" % (head, ty, ATTR[kind], "" if kind in ("ra", "la") else T.show(nil))
            ops.append(Op(n, kind, et, lt, d, nil))
        return ops[-1]
    for kind in ATTR:
        for _ in range(2):
            lt = r.choice(SIMPLE + ["L", "L", BV4, SU, MU])
            if kind in ("rann", "lann"):
                et = lt         # a singleton list is its element
            elif lt == "L":
                et = r.choice([None, None, "U", "Bool"])
            elif lt in SIMPLE and r.random() < 0.3:
                et = r.choice(SIMPLE)
            else:
                et = lt
            assoc(kind, et, lt)
    # combining operators of chainable and pairwise
    combs = []
    for t in ("Bool", r.choice(SIMPLE)):
        for kind in r.sample(sorted(ATTR), 4):
            combs.append(assoc(kind, t, t))
    for kind in ("chain", "pair"):
        for _ in range(3):
            cb = r.choice(combs)
            n = name()
            et = r.choice([None] + SIMPLE)
            d = "(declare-const %s (-> %s %s %s)" % (n, et, et, cb.lt) if et else \
                "(declare-parameterized-const %s ((T Type :implicit)) (-> T T %s)" % (n, cb.lt)
            ops.append(Op(n, kind, et, None, d + " :%s %s)" % ("chainable" if kind == "chain" else "pairwise", cb.name), comb=cb, rt=cb.lt))
    lists = [o for o in ops if o.kind in ("ran", "lan", "rann", "lann") and o.lt in ("L", "U", "Bool")]
    for _ in range(3):
        cb = r.choice(lists)
        n = name()
        rt = r.choice(SIMPLE)
        d = "(declare-parameterized-const %s ((xs %s)) %s :arg-list %s)" % (n, cb.lt, rt, cb.name) if r.random() < 0.5 else \
            "(declare-const %s (-> %s %s) :arg-list %s)" % (n, cb.lt, rt, cb.name)
        ops.append(Op(n, "arglist", cb.et, cb.lt, d, comb=cb, rt=rt))
    poly = Op(name(), "ran", None, "L", None, S("nil"))
    poly.decl = "(declare-parameterized-const %s ((T Type :implicit)) (-> T L L) :right-assoc-nil nil)" % poly.name
    ops.append(poly)
    polyl = Op(name(), "lan", None, "L", None, S("l1"))
    polyl.decl = "(declare-parameterized-const %s ((T Type :implicit)) (-> L T L) :left-assoc-nil l1)" % polyl.name
    ops.append(polyl)
    for cb in (poly, poly, polyl, r.choice([o for o in lists if o.et is None] or [poly])):
        bts = [r.choice(SIMPLE) for _ in range(r.choice([1, 1, 2]))]
        rt = r.choice(SIMPLE)
        n = name()
        ops.append(Op(n, "binder", tuple(bts), cb.lt, "(declare-const %s (-> %s %s %s) :binder %s)" % (n, cb.lt, " ".join(bts), rt, cb.name), comb=cb, rt=rt))
    return ops


def desugar(op, items, ty):
    """items: (term, islist) in written order, all values. None if stuck.
    ty: the type of the list (for parametric nil terminators)."""
    n = len(items)
    if op.kind in ("ra", "la"):
        xs = [t for t, _ in items]
        if n == 1:
            return A(op.sym, xs[0])
        if op.left:
            t = xs[0]
            for e in xs[1:]:
                t = A(op.sym, t, e)
            return t
        t = xs[-1]
        for e in reversed(xs[:-1]):
            t = A(op.sym, e, t)
        return t
    if op.isnil:
        nil = op.nil(ty)
        seq = items if op.left else items[::-1]
        if seq[0][1]:
            t, rest = seq[0][0], seq[1:]
        else:
            t, rest = nil, seq
        nonlist = sum(not l for _, l in items)
        for e, isl in rest:
            if isl:
                l1, l2 = elems(op, t, nil), elems(op, e, nil)
                if l1 is None or l2 is None:
                    return None
                for z in (l2 if op.left else reversed(l2)):
                    t = A(op.sym, t, z) if op.left else A(op.sym, z, t)
            else:
                t = A(op.sym, t, e) if op.left else A(op.sym, e, t)
        if op.ns and nonlist < 2:
            l = elems(op, t, nil)
            if l is None:
                return None
            if len(l) == 1:
                return l[0]
        return t
    xs = [t for t, _ in items]
    if op.kind == "chain":
        ps = [A(op.sym, p, q) for p, q in zip(xs, xs[1:])]
    elif op.kind == "pair":
        ps = [A(op.sym, xs[p], xs[q]) for p in range(n) for q in range(p + 1, n)]
    elif op.kind == "arglist":
        if n == 1 and items[0][1]:
            return A(op.sym, xs[0])
        l = desugar(op.comb, items, ty)
        return None if l is None else A(op.sym, l)
    if not ps:
        return op.comb.nil(op.comb.lt)
    if len(ps) == 1:
        return ps[0]
    return desugar(op.comb, [(p, False) for p in ps], op.comb.lt)


def elems(op, t, nil):
    """Written-order elements of a list value, or None."""
    out = []
    while t != nil:
        if t[0] != "@" or t[1][0] != "@" or t[1][1] != op.sym:
            return None
        out.append(t[2] if op.left else t[1][2])
        t = t[1][2] if op.left else t[2]
    return out[::-1] if op.left else out


def list_type(op, r):
    return r.choice(PAR[op.lt]) if op.lt in PAR else op.lt


def result_type(op, ty):
    return ty if op.lt in PAR else op.rt


def elem_type(op, ty, r):
    if op.et == "=":
        return ty
    return op.et or r.choice(ANY)


class G:
    """Generator of (text, value) pairs over a signature."""

    def __init__(self, r, ops):
        self.r, self.ops = r, ops

    def term(self, ty, depth):
        r = self.r
        if depth > 0 and r.random() < 0.7:
            if r.random() < 0.65:
                cands = [o for o in self.ops if ty == o.rt or ty in PAR.get(o.lt, ())]
                if cands:
                    op = r.choice(cands)
                    got = self.app(op, ty if op.lt in PAR else op.lt, depth)
                    if got is not None and got[2] == ty:
                        return got[:2]
            cands = [k for k, s in FUNS.items() if s[1] == ty]
            if cands:
                k = r.choice(cands)
                args = [self.term(t, depth - 1) for t in FUNS[k][0]]
                h = r.choice([k, k, "_ " + k])
                return "(%s %s)" % (h, " ".join(a[0] for a in args)), A(S(k), *[a[1] for a in args])
        t = r.choice(LEAVES[ty])
        return T.show(t), t

    def listval(self, op, ty, depth):
        """A value for a parameter marked :list."""
        r = self.r
        if r.random() < 0.12:
            return self.term(ty, depth)
        n = r.choice([0, 0, 1, 1, 2, 3])
        nil = op.nil(ty)
        its = [self.term(elem_type(op, ty, r), 0) for _ in range(n)]
        t = nil
        for _, e in (its if op.left else reversed(its)):
            t = A(op.sym, t, e) if op.left else A(op.sym, e, t)
        if n and not op.ns and r.random() < 0.5:
            return "(%s %s)" % (op.name, " ".join(x for x, _ in its)), t
        return T.show(t), t

    def app(self, op, ty, depth, n=None):
        """Ground application: (text, value, type), or None."""
        r = self.r
        if op.kind == "binder":
            return self.binder(op, depth)
        if n is None:
            n = r.choice([1, 2, 2, 3, 3, 4, 5, 7] if depth > 1 or r.random() < 0.3 else [1, 2, 3])
            if op.kind in ("chain", "pair"):
                n = min(n, 4)
        if op.kind in ("ra", "la") and n == 1:
            n = 2
        if op.kind in ("chain", "pair"):
            if n == 1 and not op.comb.isnil:
                n = 2
            if n > 10:
                n = 4
        et = elem_type(op, ty, r)
        if op.kind in ("chain", "pair"):
            ts = [et] * n
        else:
            ts = [elem_type(op, ty, r) for _ in range(n)]
            if op.kind == "ra":
                ts[-1] = ty
            elif op.kind == "la":
                ts[0] = ty
        args = [self.term(t, depth - 1) for t in ts]
        v = desugar(op, [(a[1], False) for a in args], ty)
        return "(%s %s)" % (op.name, " ".join(a[0] for a in args)), v, (result_type(op, ty) if op.kind != "arglist" else op.rt)

    def binder(self, op, depth):
        r = self.r
        cb = op.comb
        n = r.choice([1, 1, 2, 3])
        names = ["vv", "x", "a", "a b", "@v", "V1", "v.1", "f", "i"]
        vs = []
        for _ in range(n):
            vs.append((r.choice(names), r.choice(ANY if cb.et is None else [cb.et])))
        var = {nm: ("v", nm, ty) for nm, ty in vs}     # the last one wins
        lst = desugar(cb, [(("v", nm, ty), False) for nm, ty in vs], cb.lt)
        if lst is None:
            return None
        saved = {}
        for nm in var:
            for ty in LEAVES:
                if any(l[:2] in (("s", nm), ("q", nm)) for l in LEAVES[ty]):
                    saved.setdefault(ty, LEAVES[ty])
                    LEAVES[ty] = [l for l in LEAVES[ty] if l[:2] not in (("s", nm), ("q", nm))]
        funs = {nm: FUNS.pop(nm) for nm in var if nm in FUNS}
        for nm, v in var.items():
            saved.setdefault(v[2], LEAVES[v[2]])
            LEAVES[v[2]] = LEAVES[v[2]] + [("q", nm, v)] * 3
        opsaved = self.ops
        try:
            self.ops = [o for o in self.ops if o.name not in var]
            body = [self.term(t, min(depth - 1, 2)) for t in op.et]
        finally:
            self.ops = opsaved
            for ty, l in saved.items():
                LEAVES[ty] = l
            FUNS.update(funs)
        if r.random() < 0.3:
            # an explicit list; then the names keep their outer meaning
            body = [self.term(t, min(depth - 1, 2)) for t in op.et]
            text = "(%s %s %s)" % (op.name, T.show(lst), " ".join(b[0] for b in body))
        else:
            text = "(%s (%s) %s)" % (op.name, " ".join("(%s %s)" % (q(nm), ty) for nm, ty in vs), " ".join(b[0] for b in body))
        return text, A(op.sym, lst, *[unq(b[1]) for b in body]), op.rt


def q(nm):
    return "|%s|" % nm if " " in nm else nm


def unq(t):
    """Replace the marks of variable occurrences by the variables."""
    if t[0] == "q":
        return t[2]
    if t[0] == "@":
        return ("@", unq(t[1]), unq(t[2]))
    return t


_show = T.show


def show(t):
    if t[0] == "q":
        return q(t[1])
    if t[0] == "@":
        return "(_ %s %s)" % (show(t[1]), show(t[2]))
    return _show(t)


T.show = show


def has_marks(t):
    return t[0] == "q" or (t[0] == "@" and (has_marks(t[1]) or has_marks(t[2])))


def ground_item(r, g, k):
    op = r.choice(g.ops)
    ty = list_type(op, r)
    got = g.app(op, ty, r.choice([1, 1, 2, 3]), n=r.choice([None, None, 1, 2, 3, 10, 40] if op.kind not in ("chain", "pair") else [None, None, 1, 2, 3, 4, 6, 8, 10]))
    if got is None or got[1] is None:
        return None
    text, val, ty = got
    if has_marks(val):
        return None
    exp = T.show(val)
    if len(exp) > 20000:
        return None
    key = "%s:ground" % op.kind
    what = "%s desugars to" % text[:300]
    m = r.random()
    if m < 0.5:
        line = "(step st%d true :rule chk :args (%s %s))" % (k, text, exp)
    elif m < 0.6:
        line = "(define mm%d () %s) (step st%d true :rule chk :args (mm%d %s))" % (k, text, k, k, exp)
    elif m < 0.7:
        line = "(step st%d true :rule chk :args ((eo::define ((dd %s)) dd) %s))" % (k, text, exp)
    elif m < 0.8:
        line = "(step st%d (pr$ %s) :rule ev :args (%s))" % (k, exp, text)
    elif m < 0.9:
        line = "(step st%d (pr$ %s) :rule ev :args (%s))" % (k, text, exp)
    else:
        # something else must not be identified with it
        other = wrong(r, val)
        if other is None:
            return None
        line = "(step st%d true :rule chk :args ((eo::eq %s %s) false))" % (k, text, T.show(other))
        key, what, exp = key + ":other", "%s differs from" % text[:300], T.show(other)
    return Item(line, key, what, exp)


def wrong(r, t):
    """A similar but different explicit term of the same type."""
    if t[0] != "@" or t[1][0] != "@":
        return None
    p, q_ = t[1][2], t[2]
    o = A(t[1][1], q_, p)
    return o if o != t and not has_marks(t) else None


def param_item(r, g, k):
    """An application over parameters (some marked :list), instantiated."""
    op = r.choice([o for o in g.ops if o.isnil or (o.kind == "arglist")] * 3 + [o for o in g.ops if o.kind in ("ra", "la", "chain", "pair")])
    ty = list_type(op, r)
    lop = op.comb if op.kind == "arglist" else op
    n = r.choice([1, 1, 2, 2, 3, 3, 4, 5, 8])
    if op.kind in ("ra", "la") or (op.kind in ("chain", "pair") and not op.comb.isnil):
        n = max(n, 2)
    canlist = lop.isnil
    et0 = elem_type(op, ty, r)
    params, args, items, body = [], [], [], []
    pool = {}
    for p in range(n):
        isl = canlist and r.random() < 0.45
        if isl:
            t = ty
        elif op.kind in ("chain", "pair"):
            t = et0
        else:
            t = elem_type(op, ty, r)
            if op.kind == "ra" and p == n - 1 or op.kind == "la" and p == 0:
                t = ty
        if not isl and r.random() < 0.25:
            tx, vv = g.term(t, 1)
            if has_marks(vv):
                return None
            body.append(tx)
            items.append((vv, False))
            continue
        if r.random() < 0.15 and (isl, t) in pool:
            pn, vv = pool[(isl, t)]       # the same parameter again
            body.append(pn)
            items.append((vv, isl))
            continue
        tx, vv = g.listval(lop, ty, 1) if isl else g.term(t, 1)
        if has_marks(vv):
            return None
        pn = r.choice(["pp%d", "@p%d", "zz%d", "|p %d|"]) % p
        pool[(isl, t)] = (pn, vv)
        params.append((pn, t, isl))
        args.append((tx, vv))
        body.append(pn)
        items.append((vv, isl))
    if not params:
        return None
    val = desugar(op, items, ty)
    rt = op.rt if op.kind == "arglist" else result_type(op, ty)
    parametric = lop.lt in PAR and op.kind != "arglist"
    decl, sub = "", {}
    if parametric and r.random() < 0.6:
        # parameters of a non-ground type
        m = {"BV": "(BV nn)", "Set": "(Set TT)", "Arr": r.choice(["(Arr TT VV)", "(Arr TT VV)", ty.replace("(Arr U ", "(Arr TT ").replace("(Arr Int ", "(Arr TT ")])}[lop.lt]
        imp = r.choice(["(TT Type%s)(VV Type%s)", "(VV Type%s)(TT Type%s)"])
        decl = "(nn Int%s)" if lop.lt == "BV" else imp if "VV" in m else "(TT Type%s)"
        sub = {ty: m}
    plist = " ".join("(%s %s%s)" % (pn, sub.get(t, t), " :list" if isl else "") for pn, t, isl in params)
    text = "(%s %s)" % (op.name, " ".join(body))
    wrap = r.random()
    pre = ""
    if wrap < 0.2 and rt in SIMPLE:
        # nested below another application
        hf, hs = r.choice([(k2, s2) for k2, s2 in FUNS.items() if s2[0] == (rt,)] or [(None, None)])
        if hf:
            text = "(%s %s)" % (hf, text)
            val = None if val is None else A(S(hf), val)
            rt = hs[1]
    spell = [r.choice([tx, T.show(vv)]) for tx, vv in args]
    m = r.choice(["macro", "macro", "program", "rule", "pattern"])
    if val is None and m in ("rule", "pattern"):
        m = "macro"
    key = "%s:%s:%s" % (op.kind, m, "".join("l" if isl else "t" for _, isl in items))
    what = "%s with %s" % (text, ", ".join("%s%s:=%s" % (pn, " (list)" if isl else "", sp) for (pn, _, isl), sp in zip(params, spell)))
    what = what[:400]
    if m == "macro":
        pre = "(define mm%d (%s%s) %s)" % (k, decl.replace("%s", " :implicit"), plist, text)
        call = "(mm%d %s)" % (k, " ".join(spell))
    elif m == "program":
        pre = "(program gg%d (%s%s) :signature (%s) %s (((gg%d %s) %s)))" % (
            k, decl.replace("%s", ""), plist, " ".join(sub.get(t, t) for _, t, _ in params), sub.get(rt, rt), k, " ".join(p[0] for p in params), text)
        call = "(gg%d %s)" % (k, " ".join(spell))
    elif m == "rule":
        pre = "(declare-rule rr%d (%s%s) :args (%s) :conclusion (pr$ %s))" % (k, decl.replace("%s", ""), plist, " ".join(p[0] for p in params), text)
        return Item("%s (step st%d (pr$ %s) :rule rr%d :args (%s))" % (pre, k, T.show(val), k, " ".join(spell)), key, what, T.show(val))
    else:
        # as a pattern: must match exactly the explicit term
        lists = [i for i, (_, isl) in enumerate(items) if isl]
        ok = op.kind not in ("chain", "pair") and (not lists or lists == [0 if lop.left else n - 1]) and not (lop.ns and n - len(lists) < 2) and not parametric
        if op.kind == "arglist" and lists and n == 1:
            ok = True
        if not ok or len(params) != len({p[0] for p in params}):
            return None
        pn, t, _ = params[-1]
        vv = args[-1][1]
        pre = "(program gg%d (%s) :signature (%s) %s (((gg%d %s) %s)))" % (k, plist, rt, t, k, text, pn)
        return Item("%s (step st%d true :rule chk :args ((gg%d %s) %s))" % (pre, k, k, T.show(val), T.show(vv)), key, what, T.show(vv))
    if val is None:
        return Item("%s (step st%d true :rule chk :args ((eo::is_ok %s) false))" % (pre, k, call), key + ":stuck", what, "does not evaluate")
    return Item("%s (step st%d true :rule chk :args (%s %s))" % (pre, k, call, T.show(val)), key, what, T.show(val))


def literal_item(r, g, k):
    """Applications that are not desugared: `_`, parameters as heads."""
    op = r.choice([o for o in g.ops if o.kind in ATTR and o.lt not in PAR] + [o for o in g.ops if o.kind in ("chain", "pair")])
    if op.kind in ATTR:
        ts = [elem_type(op, op.lt, r), op.lt]
        if op.left:
            ts = ts[::-1]
    else:
        ts = [elem_type(op, None, r)] * 2
    args = [g.term(t, 1) for t in ts]
    if any(has_marks(v) for _, v in args):
        return None
    val = A(op.sym, *[v for _, v in args])
    m = r.choice(["_", "_", "partial", "param", "program", "higher"])
    key = "%s:%s" % (op.kind, m)
    a0, a1 = args[0][0], args[1][0]
    pre = ""
    if m == "_":
        call = "(_ %s %s %s)" % (op.name, a0, a1)
    elif m == "partial":
        if op.kind in ("ra", "la"):
            call = r.choice(["(_ (%s %s) %s)", "(_ (_ %s %s) %s)"]) % (op.name, a0, a1)
        else:
            call = "(_ (_ %s %s) %s)" % (op.name, a0, a1)
    else:
        fty = "(-> %s %s %s)" % (ts[0], ts[1], op.rt)
        if m == "param":
            pre = "(define mm%d ((hh %s) (p %s) (q %s)) (hh p q)) " % (k, fty, ts[0], ts[1])
        elif m == "program":
            pre = "(program mm%d ((hh %s) (p %s) (q %s)) :signature (%s %s %s) %s (((mm%d hh p q) (hh p q)))) " % (
                k, fty, ts[0], ts[1], fty, ts[0], ts[1], op.rt, k)
        else:
            pre = "(define mm%d ((hh %s) (p %s) (q %s :list)) (_ hh p q)) " % (k, fty, ts[0], ts[1])
        call = "(mm%d %s %s %s)" % (k, op.name, a0, a1)
    return Item("%s(step st%d true :rule chk :args (%s %s))" % (pre, k, call, T.show(val)), key, call[:300], T.show(val))


OPAQUE = """(declare-parameterized-const pf ((F (-> U U) :opaque)) (-> U U))
(declare-parameterized-const pk ((A U :opaque) (B Int :opaque)) (-> U U U))
(declare-parameterized-const dg ((T Type :implicit) (A T :opaque) (B T :opaque)) T)
(declare-parameterized-const pm ((A U :opaque) (B Int :opaque) (C Bool :opaque) (D U :opaque) (E V :opaque)) (-> U U U))
(program hd1 ((F (-> U U)) (X U)) :signature (U) (-> U U) (((hd1 (F X)) F)))
(program hd2 ((F (-> U U U)) (X U) (Y U)) :signature (U) (-> U U U) (((hd2 (F X Y)) F)))
(program isapp ((T Type) (S Type) (F (-> T S)) (X T)) :signature (S) Bool (((isapp (F X)) true) ((isapp X) false)))
(program isappf ((T Type) (F (-> T (-> U U))) (X T) (H (-> U U))) :signature ((-> U U)) Bool (((isappf (F X)) true) ((isappf H) false)))
"""


def opaque_item(r, g, k):
    """Opaque arguments are indices of the operator, not children."""
    m = r.randrange(12)
    u, u2 = g.term("U", 1), g.term("U", 1)
    n = g.term("Int", 1)
    if any(has_marks(t[1]) for t in (u, u2, n)):
        return None
    fs = [("f", S("f")), ("(_ g %s)" % u2[0], None), ("(_ g x)", None)]
    ft = r.choice(fs)[0]
    if m == 0:
        A_, B_ = "(hd1 (pf %s %s))" % (ft, u[0]), "(pf %s)" % ft
    elif m == 1:
        A_, B_ = "(isappf (pf %s))" % ft, "false"
    elif m == 2:
        A_, B_ = "(hd2 (pk %s %s %s %s))" % (u[0], n[0], u[0], u2[0]), "(pk %s %s)" % (u[0], n[0])
    elif m == 3:
        A_, B_ = "(isapp (dg %s %s))" % (u[0], u2[0]), "false"
    elif m == 4:
        A_, B_ = "(pf %s %s)" % (ft, u[0]), "(_ (pf %s) %s)" % (ft, u[0])
    elif m == 5:
        A_, B_ = "(pk %s %s %s %s)" % (u[0], n[0], u[0], u2[0]), "(_ (_ (pk %s %s) %s) %s)" % (u[0], n[0], u[0], u2[0])
    elif m == 6:
        A_, B_ = "(pk %s %s %s)" % (u[0], n[0], u[0]), "(_ (pk %s %s) %s)" % (u[0], n[0], u[0])
    elif m == 7:
        A_, B_ = "(isapp (f (dg %s %s)))" % (u[0], u2[0]), "true"
    else:
        idx = [u[0], n[0], g.term("Bool", 0)[0], u2[0], r.choice("vw")]
        pm = "(pm %s)" % " ".join(idx)
        if m == 8:
            A_, B_ = "(hd2 (pm %s %s %s))" % (" ".join(idx), u[0], u2[0]), pm
        elif m == 9:
            A_, B_ = "(pm %s %s)" % (" ".join(idx), u[0]), "(_ %s %s)" % (pm, u[0])
        elif m == 10:
            A_, B_ = "(isapp %s)" % pm, "false"
        else:
            j = r.randrange(5)
            oth = list(idx)
            vals = [u[1], n[1], None, u2[1], None]
            ch = r.choice([[S("x"), S("y"), A(S("f"), S("z"))], [S("i"), V.num(7)], [S("a"), S("b"), V.FALSE], [S("y"), S("z"), A(S("f"), S("x"))], [S("v"), S("w"), A(S("h"), S("z"))]][j])
            oth[j] = show(ch)
            A_, B_ = "(eo::eq %s (pm %s))" % (pm, " ".join(oth)), "true" if (vals[j] == ch if vals[j] else oth == idx) else "false"
    return Item("(step st%d true :rule chk :args (%s %s))" % (k, A_, B_), "opaque:%d" % m, A_[:300], B_[:300])


# declarations that must be rejected
BADDECL = [
    "(declare-const o (-> Bool Bool Bool) :right-assoc :left-assoc)",
    "(declare-const o (-> Bool Bool Bool) :right-assoc-nil true :right-assoc-nil false)",
    "(declare-const o (-> Bool Bool Bool) :right-assoc-nil)",
    "(declare-const o (-> Bool Bool Bool) :chainable imp :pairwise imp)",
    "(declare-const o (-> Bool Bool Bool) :right-assoc-nil true :chainable imp)",
]


def work(c, seed, nsig, nitems):
    r = random.Random(seed)
    for _ in range(nsig):
        ops = signature(r)
        g = G(r, ops)
        pre = BASE + "\n".join(o.decl for o in ops) + "\n" + OPAQUE
        items, k = [], 0
        while len(items) < nitems:
            k += 1
            m = r.random()
            it = (ground_item if m < 0.45 else param_item if m < 0.87 else literal_item if m < 0.95 else opaque_item)(r, g, k)
            if it is not None:
                items.append(it)
                c.seen(it.text)
                c.count(it.key.split(":")[0] + ":" + it.key.split(":")[1])
        variant = r.choice(["rel", "rel", "dbg", "san"])
        batch.run_batch(c, pre, items, variant)
        c.sample(items[0].text[:400])
        if len(c.pending) > 3:
            return


def run(c):
    c.rule = ("random signatures with operators of all attributes; each item compares an application (ground, or over :list and plain "
              "parameters of a definition, program, rule or pattern) with the explicit `_` term that the manual's desugaring gives; "
              "non-trivial = distinct item")
    c.need("san", "dbg", "rel")
    for t in BADDECL:
        for v in ("rel", "dbg"):
            res = c.run({"t.eo": BASE + t + "\n"}, main="t.eo", variant=v)
            c.seen((t, v))
            if res.kind != "reject":
                c.violation("decl:" + t, "a declaration with more than one attribute", {"t.eo": BASE + t + "\n"}, main="t.eo",
                            expected="rejected", observed=res.brief())
    n = c.n(400, 6000)
    c.ppmap(lambda s: work(c, s, 2, 120), ["%s-%d-%d" % (c.prop, c.seed, k) for k in range(n)])
