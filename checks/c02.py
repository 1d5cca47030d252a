"""C02: list operators vs. operations on Python sequences."""
from collections import Counter
import batch
import terms as T
import values as V
from batch import Item
from terms import S, A

PRE = batch.CHK + """(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const U Type)
(declare-consts <string> U)
(declare-const a Bool) (declare-const b Bool) (declare-const c Bool) (declare-const d Bool)
(declare-const u Int) (declare-const v Int) (declare-const w Int)
(declare-const x U) (declare-const y U) (declare-const z U)
(declare-const g (-> U U U)) (declare-const not (-> Bool Bool))
(declare-const p (-> Bool Bool Bool))
(declare-const BitVec (-> Int Type))
(declare-consts <binary> (BitVec (eo::len eo::self)))
(declare-const a4 (BitVec 4)) (declare-const b4 (BitVec 4)) (declare-const c4 (BitVec 4))
(declare-const a1 (BitVec 1)) (declare-const b1 (BitVec 1))
(declare-const or (-> Bool Bool Bool) :right-assoc-nil false)
(declare-const and (-> Bool Bool Bool) :left-assoc-nil true)
(declare-const orn (-> Bool Bool Bool) :right-assoc-non-singleton-nil false)
(declare-const andn (-> Bool Bool Bool) :left-assoc-non-singleton-nil true)
(declare-const ra (-> Bool Bool Bool) :right-assoc)
(declare-const la (-> Bool Bool Bool) :left-assoc)
(declare-const + (-> Int Int Int) :right-assoc-nil 0)
(declare-const * (-> Int Int Int) :left-assoc-nil 1)
(declare-const e (-> U U U) :right-assoc-nil x)
(declare-const str.++ (-> U U U) :right-assoc-nil "")
(declare-const L Type) (declare-const nil L)
(declare-parameterized-const cons ((T Type :implicit)) (-> T L L) :right-assoc-nil nil)
(declare-parameterized-const snoc ((T Type :implicit)) (-> L T L) :left-assoc-nil nil)
(declare-const l1 L)
(define bvzero ((m Int)) (eo::to_bin m 0))
(declare-parameterized-const bvor ((m Int :implicit)) (-> (BitVec m) (BitVec m) (BitVec m)) :right-assoc-nil (bvzero m))
(declare-parameterized-const bvand ((m Int :implicit)) (-> (BitVec m) (BitVec m) (BitVec m)) :left-assoc-nil (eo::not (bvzero m)))
(declare-const Set (-> Type Type))
(declare-parameterized-const emp ((T Type :implicit)) (Set T))
(declare-parameterized-const union ((T Type :implicit)) (-> (Set T) (Set T) (Set T)) :right-assoc-nil (as emp (Set T)))
(declare-const s1 (Set Int)) (declare-const s2 (Set Int)) (declare-const s3 (Set Int)) 
"""

BOOLS = [S("a"), S("b"), S("c"), S("d"), V.TRUE, V.FALSE, A(S("not"), S("a")), A(S("p"), S("a"), S("b"))]
INTS = [S("u"), S("v"), S("w"), V.num(0), V.num(1), V.num(2), V.num(-1)]
US = [S("x"), S("y"), S("z"), A(S("g"), S("x"), S("y")), V.sstr("x"), V.sstr("")]
BV4 = [S("a4"), S("b4"), S("c4"), V.binv(4, 0), V.binv(4, 15), V.binv(4, 5)]
BV1 = [S("a1"), S("b1"), V.binv(1, 0), V.binv(1, 1)]
SETS = [S("s1"), S("s2"), S("s3")]


class Op:
    def __init__(self, name, nil, left, pool, ty, nested=True, surface=True, niltext=None):
        self.name, self.nil, self.left, self.pool, self.ty = name, nil, left, pool, ty
        self.nested, self.surface, self.niltext = nested, surface, niltext


OPS = [
    Op("or", V.FALSE, False, BOOLS, "Bool"),
    Op("or", V.FALSE, False, BOOLS, "Bool"),
    Op("and", V.TRUE, True, BOOLS, "Bool"),
    Op("and", V.TRUE, True, BOOLS, "Bool"),
    Op("orn", V.FALSE, False, BOOLS, "Bool", surface=False),
    Op("andn", V.TRUE, True, BOOLS, "Bool", surface=False),
    Op("+", V.num(0), False, INTS, "Int"),
    Op("*", V.num(1), True, INTS, "Int"),
    Op("e", S("x"), False, US, "U"),
    Op("str.++", V.sstr(""), False, US, "U"),
    Op("cons", S("nil"), False, BOOLS + US + INTS + [S("nil")], "L"),
    Op("snoc", S("nil"), True, BOOLS + US + INTS + [S("nil")], "L"),
    Op("eo::List::cons", S("eo::List::nil"), False, BOOLS + US + INTS, "eo::List"),
    Op("bvor", V.binv(4, 0), False, BV4, "(BitVec 4)"),
    Op("bvor", V.binv(1, 0), False, BV1, "(BitVec 1)"),
    Op("bvand", V.binv(4, 15), True, BV4, "(BitVec 4)"),
    Op("bvand", V.binv(1, 1), True, BV1, "(BitVec 1)"),
    Op("union", ("s", "(as emp (Set Int))"), False, SETS, "(Set Int)"),
]


def mklist(op, xs):
    return T.fold(None, S(op.name), xs, op.nil, op.left)


def children(op, t):
    """Head-first children of an op-list, or None."""
    out = []
    while t != op.nil:
        if t[0] != "@" or t[1][0] != "@" or t[1][1] != S(op.name):
            return None
        one, two = t[1][2], t[2]
        out.append(two if op.left else one)
        t = one if op.left else two
    return out


def relem(r, op, depth=1):
    if depth and op.nested and r.random() < 0.12:
        k = r.random()
        if k < 0.5 and op.ty != "L" and op.ty != "eo::List":
            return mklist(op, [relem(r, op, depth - 1) for _ in range(r.randint(0, 3))])
        if op.ty in ("L", "eo::List"):
            return mklist(op, [relem(r, op, depth - 1) for _ in range(r.randint(0, 3))])
        if op.ty == "Bool":
            o2 = r.choice([o for o in OPS if o.ty == "Bool" and o.name != op.name])
            return mklist(o2, [relem(r, o2, depth - 1) for _ in range(r.randint(1, 3))])
    return r.choice(op.pool)


def rseq(r, op):
    n = r.choice([0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12])
    if r.random() < 0.03:
        n = r.choice([16, 20, 33, 50, 70])
    k = r.choice([1, 2, 2, 3, 3, 4, 8])
    pool = [relem(r, op) for _ in range(k)]
    return [r.choice(pool) for _ in range(n)]


def nonlist(r, op):
    """A term of the list type that is not a list of this operator."""
    k = r.random()
    if op.ty == "L":
        base = [S("l1"), A(S("cons" if op.name == "snoc" else "snoc"), *( [S("a"), S("nil")] if op.name == "snoc" else [S("nil"), S("a")]))]
    elif op.ty == "eo::List":
        base = [S("nil"), S("a"), A(S("cons"), S("a"), S("nil"))]
    else:
        base = [t for t in op.pool if t != op.nil]
    t = r.choice(base)
    if k < 0.35:
        if op.ty == "Bool" and r.random() < 0.4:
            o2 = r.choice([o for o in OPS if o.ty == "Bool" and o.name != op.name])
            t = mklist(o2, [r.choice(BOOLS) for _ in range(r.randint(1, 3))])
            if t == op.nil:
                t = S("a")
        return t
    # a proper prefix over a tail that is not nil
    if op.ty == "eo::List":
        return t
    xs = [relem(r, op) for _ in range(r.randint(1, 4))]
    return T.fold(None, S(op.name), xs, t, op.left)


def spell(r, op, t, depth=0):
    """Surface spelling of a list term, sometimes."""
    if t == op.nil or not op.surface or depth > 1 or r.random() < 0.5:
        return T.show(t)
    xs = children(op, t)
    if xs is None or not xs:
        return T.show(t)
    if op.left:
        xs = xs[::-1]
    return "(%s %s)" % (op.name, " ".join(T.show(x) for x in xs))


class E:
    __slots__ = ("text", "val", "bad", "ops")

    def __init__(self, text, val, ops=(), bad=False):
        self.text, self.val, self.ops, self.bad = text, val, ops, bad


LISTOPS = ["cons", "list_concat", "list_rev", "list_erase", "list_erase_all", "list_setof", "list_diff", "list_inter"]
NUMOPS = ["list_len", "list_find"]
BOOLOPS = ["list_minclude", "list_meq"]
ELEMOPS = ["list_nth", "list_singleton_elim"]
ALL = LISTOPS + NUMOPS + BOOLOPS + ELEMOPS


def ref(op, o, args):
    """Reference value of (eo::o op args); args are terms or None (stuck)."""
    if any(x is None for x in args):
        return None
    if o == "cons":
        l = children(op, args[1])
        return None if l is None else mklist(op, [args[0]] + l)
    l = children(op, args[0])
    if l is None:
        return None
    if o == "list_len":
        return V.num(len(l))
    if o == "list_rev":
        return mklist(op, l[::-1])
    if o == "list_setof":
        out = []
        for e in l:
            if e not in out:
                out.append(e)
        return mklist(op, out)
    if o == "list_singleton_elim":
        return l[0] if len(l) == 1 else args[0]
    if o == "list_find":
        return V.num(l.index(args[1])) if args[1] in l else V.num(-1)
    if o == "list_nth":
        i = args[1]
        if i[0] != "num" or not (0 <= i[1] < len(l)):
            return None
        return l[i[1]]
    if o == "list_erase":
        l = list(l)
        if args[1] in l:
            l.remove(args[1])
        return mklist(op, l)
    if o == "list_erase_all":
        return mklist(op, [e for e in l if e != args[1]])
    m = children(op, args[1])
    if m is None:
        return None
    if o == "list_concat":
        return mklist(op, m + l if op.left else l + m)
    c1, c2 = Counter(l), Counter(m)
    if o == "list_minclude":
        return V.B(all(c2[k] >= n for k, n in c1.items()))
    if o == "list_meq":
        return V.B(c1 == c2)
    out = []
    for e in l:
        hit = c2[e] > 0
        if hit:
            c2[e] -= 1
        if hit == (o == "list_inter"):
            out.append(e)
    return mklist(op, out)


def leaf_list(r, op):
    if r.random() < 0.08:
        t = nonlist(r, op)
        return E(spell(r, op, t), t)
    t = mklist(op, rseq(r, op))
    return E(spell(r, op, t), t)


def related(r, op, e):
    """Another list with a related content."""
    l = children(op, e.val) if e.val is not None else None
    if l is None or r.random() < 0.25:
        return leaf_list(r, op)
    m = list(l)
    k = r.random()
    if k < 0.2:
        pass
    elif k < 0.4:
        r.shuffle(m)
    elif k < 0.6:
        m = [x for x in m if r.random() < 0.6]
    else:
        for _ in range(r.randint(1, 3)):
            if m and r.random() < 0.5:
                m.insert(r.randint(0, len(m)), r.choice(m))
            elif m and r.random() < 0.6:
                m.pop(r.randrange(len(m)))
            else:
                m.insert(r.randint(0, len(m)), relem(r, op))
        if r.random() < 0.5:
            r.shuffle(m)
    t = mklist(op, m)
    return E(spell(r, op, t), t)


def list_expr(r, op, depth):
    if depth > 0 and r.random() < 0.5:
        return expr(r, op, r.choice(LISTOPS), depth - 1)
    return leaf_list(r, op)


def elem_for(r, op, lst, depth):
    l = children(op, lst.val) if lst.val is not None else None
    if depth > 0 and r.random() < 0.2:
        e = expr(r, op, "list_nth", depth - 1)
        if e.val is not None:
            return e
    if l and r.random() < 0.7:
        t = r.choice(l)
    else:
        t = relem(r, op)
    return E(T.show(t), t)


def expr(r, op, o, depth):
    if o == "cons":
        l = list_expr(r, op, depth)
        args = [elem_for(r, op, l, depth), l]
    elif o in ("list_len", "list_rev", "list_setof", "list_singleton_elim"):
        l = list_expr(r, op, depth)
        if o == "list_singleton_elim" and r.random() < 0.4:
            t = mklist(op, [relem(r, op)])
            l = E(spell(r, op, t), t)
        args = [l]
    elif o in ("list_find", "list_erase", "list_erase_all"):
        l = list_expr(r, op, depth)
        args = [l, elem_for(r, op, l, depth)]
    elif o == "list_nth":
        l = list_expr(r, op, depth)
        n = len(children(op, l.val) or []) if l.val is not None else 0
        if depth > 0 and r.random() < 0.3:
            i = expr(r, op, r.choice(NUMOPS), 0)
        else:
            t = V.num(r.choice([r.randint(0, max(0, n - 1)), r.randint(0, max(0, n - 1)), r.randint(0, max(0, n - 1)), n, n + 1,
                                n - 1, -1, 2 ** 32, 2 ** 64 + 1]))
            if r.random() < 0.03:
                t = S("u")
            i = E(T.show(t), t)
        args = [l, i]
    else:
        l = list_expr(r, op, depth)
        args = [l, related(r, op, l)]
        if r.random() < 0.3:
            args.reverse()
    val = ref(op, o, [e.val for e in args])
    bad = any(e.bad for e in args)
    # a stuck element argument is not judged
    if o == "cons" and args[0].val is None or o in ("list_find", "list_erase", "list_erase_all") and args[1].val is None:
        bad = True
    return E("(eo::%s %s %s)" % (o, op.name, " ".join(e.text for e in args)), val, sum((e.ops for e in args), (o,)), bad)


UNARY = ["list_len", "list_rev", "list_setof", "list_singleton_elim"]


def templates():
    """Per operator: rules and programs applying a list operator to their
    parameters, so that it is evaluated by instantiation."""
    out = []
    for nm in sorted({o.name for o in OPS}):
        i = safe(nm)
        for o in ALL:
            ar = 1 if o in UNARY else 2
            ps = " ".join("(T%d Type)(x%d T%d)" % (k, k, k) for k in range(ar))
            xs = " ".join("x%d" % k for k in range(ar))
            app = "(eo::%s %s %s)" % (o, nm, xs)
            out.append("(declare-rule r_%s_%s (%s (Z Type)(z Z)) :args (%s z) :requires ((%s z)) :conclusion true)"
                       % (o, i, ps, xs, app))
            out.append("(declare-rule s_%s_%s (%s) :args (%s) :requires (((eo::is_ok %s) false)) :conclusion true)"
                       % (o, i, ps, xs, app))
            out.append("(program p_%s_%s (%s (Z Type)(z Z)) :signature (%s Z) Bool (((p_%s_%s %s z) (eo::is_eq %s z))))"
                       % (o, i, ps, " ".join("T%d" % k for k in range(ar)), o, i, xs, app))
            out.append("(program q_%s_%s (%s) :signature (%s) Bool (((q_%s_%s %s) (eo::is_ok %s))))"
                       % (o, i, ps, " ".join("T%d" % k for k in range(ar)), o, i, xs, app))
    # operators given as arguments (only those with a ground type)
    for o in ALL:
        ar = 1 if o in UNARY else 2
        ps = " ".join("(T%d Type)(x%d T%d)" % (k, k, k) for k in range(ar))
        xs = " ".join("x%d" % k for k in range(ar))
        out.append("(declare-rule h_%s ((F Type)(f F) %s (Z Type)(z Z)) :args (f %s z) :requires (((eo::%s f %s) z)) :conclusion true)"
                   % (o, ps, xs, o, xs))
        out.append("(declare-rule t_%s ((F Type)(f F) %s) :args (f %s) :requires (((eo::is_ok (eo::%s f %s)) false)) :conclusion true)"
                   % (o, ps, xs, o, xs))
    return "\n".join(out) + "\n"


def safe(nm):
    return {"+": "plus", "*": "times", "eo::List::cons": "EL", "str.++": "strcat"}.get(nm, nm)


def mk_items(c, r, n):
    items = []
    k = 0
    while len(items) < n:
        k += 1
        op = r.choice(OPS)
        o = r.choice(ALL)
        nm = "st%d" % k
        mode = r.random()
        if mode < 0.04:
            # nil and not-an-operator
            if r.random() < 0.5:
                t = "(step %s true :rule chk :args ((eo::nil %s %s) %s))" % (nm, op.name, op.ty, T.show(op.nil))
                key, val, exp = "nil", 1, T.show(op.nil)
                desc = "(eo::nil %s %s)" % (op.name, op.ty)
            else:
                e = expr(r, op, o, 0)
                bad = r.choice(["p", "a", "not", "ra", "la", "x", "g", "1"])
                txt = e.text.replace(" %s " % op.name, " %s " % bad, 1)
                t = "(step %s true :rule chk :args ((eo::is_ok %s) false))" % (nm, txt)
                key, val, exp, desc = "nonop", None, "does not evaluate", txt
            items.append(Item(t, "%s:%s" % (key, op.name), "%s is wrong" % desc, exp))
            c.seen(t.split(" ", 2)[2])
            c.count("via_" + key)
            continue
        e = expr(r, op, o, r.choice([0, 0, 0, 1, 2]) if mode < 0.6 else 0)
        if e.bad or (e.val is not None and T.size(e.val) > 600):
            continue
        stuck = e.val is None
        if mode < 0.6:
            how = "eager"
            t = ("(step %s true :rule chk :args ((eo::is_ok %s) false))" % (nm, e.text) if stuck else
                 "(step %s true :rule chk :args (%s %s))" % (nm, e.text, T.show(e.val)))
        else:
            # strip "(eo::o op" and ")": arguments as given
            xs = e.text[len("(eo::%s %s " % (o, op.name)):-1]
            q = "%s_%s" % (o, safe(op.name))
            how = r.choice(["rule", "program", "harg"])
            if how == "harg" and op.name in ("bvor", "bvand", "union", "cons", "snoc", "eo::List::cons"):
                how = "rule"
            if how == "rule":
                t = ("(step %s true :rule s_%s :args (%s))" % (nm, q, xs) if stuck else
                     "(step %s true :rule r_%s :args (%s %s))" % (nm, q, xs, T.show(e.val)))
            elif how == "harg":
                t = ("(step %s true :rule t_%s :args (%s %s))" % (nm, o, op.name, xs) if stuck else
                     "(step %s true :rule h_%s :args (%s %s %s))" % (nm, o, op.name, xs, T.show(e.val)))
            else:
                t = ("(step %s true :rule chk :args ((q_%s %s) false))" % (nm, q, xs) if stuck else
                     "(step %s true :rule chk :args ((p_%s %s %s) true))" % (nm, q, xs, T.show(e.val)))
        exp = "does not evaluate" if stuck else T.show(e.val)
        items.append(Item(t, "%s:%s:%s" % (o, op.name, how), "%s over %s (%s) differs from the sequence model" % (o, op.name, how),
                          "%s = %s" % (e.text, exp)))
        c.seen(t.split(" ", 2)[2])
        c.count("op_" + o)
        c.count("over_" + op.name)
        c.count("via_" + how)
        c.count("stuck" if stuck else "valued")
        c.sample("%s [%s] expected %s" % (e.text, how, exp))
    return items


def run(c):
    c.rule = ("random (nested) applications of every list operator over 16 associative operators (right/left, "
              "non-singleton, ground and type-parametric nil, builtin list) to random lists with duplicates, nested lists "
              "and nil elements and to non-lists; evaluated while parsing, in rules, in programs, with the operator passed "
              "as argument; non-trivial = distinct obligation compared with the sequence model")
    c.assumptions = ["lists of left associative operators are judged as mirror images: the head is the last written element, "
                     "concatenation keeps the written order",
                     "list operations given an element argument that failed to evaluate are not judged"]
    c.need("san", "dbg", "rel")
    r = c.rng
    total = c.n(40000, 1000000)
    per = 250
    pre = PRE + templates()
    vs = ["dbg", "rel", "san", "rel"]
    for lo in range(0, total, 40000):
        jobs = [mk_items(c, r, per) for _ in range(min(40000, total - lo) // per)]
        c.pmap(lambda j: batch.run_batch(c, pre, j[1], vs[j[0] % 4]), list(enumerate(jobs)))

    # long lists with many repetitions
    longs = []
    for _ in range(c.n(24, 400)):
        items, k = [], 0
        while len(items) < 12:
            k += 1
            op = r.choice([o for o in OPS if o.name not in ("bvor", "bvand", "union")])
            n = r.choice([130, 255, 256, 257, 300, 400, 520])
            pool = [relem(r, op, 0) for _ in range(r.choice([1, 2, 2, 3, 8]))]
            xs = [r.choice(pool) for _ in range(n)]
            o = r.choice(ALL)
            ts = [mklist(op, xs)]
            if o == "cons":
                ts = [r.choice(pool)] + ts
            elif o in ("list_find", "list_erase", "list_erase_all"):
                ts.append(r.choice(pool + [relem(r, op, 0)]))
            elif o == "list_nth":
                ts.append(V.num(r.choice([0, n - 1, n, n // 2, 255, 256, 257, 128, 256 + r.randrange(n), 65536, 2 ** 32 + 1])))
            elif o not in UNARY:
                ys = list(xs)
                if r.random() < 0.5:
                    # the same element 256 times more
                    z = r.randint(0, len(ys))
                    ys[z:z] = [r.choice(pool)] * 256
                for _ in range(r.choice([0, 0, 1, 2])):
                    q = r.random()
                    if q < 0.5 and ys:
                        ys.pop(r.randrange(len(ys)))
                    else:
                        ys.insert(r.randint(0, len(ys)), r.choice(pool + [relem(r, op, 0)]))
                if r.random() < 0.7:
                    r.shuffle(ys)
                ts.append(mklist(op, ys))
                if r.random() < 0.5:
                    ts.reverse()
            v = ref(op, o, ts)
            app = "(eo::%s %s %s)" % (o, op.name, " ".join(T.show(t) for t in ts))
            nm = "lg%d" % k
            t = ("(step %s true :rule chk :args ((eo::is_ok %s) false))" % (nm, app) if v is None else
                 "(step %s true :rule chk :args (%s %s))" % (nm, app, T.show(v)))
            items.append(Item(t, "long:%s:%s" % (o, op.name), "%s over %s on a list of %d elements differs from the sequence model" % (o, op.name, n),
                              "does not evaluate" if v is None else T.show(v)[:2000]))
            c.seen(t.split(" ", 2)[2])
            c.count("long_lists")
        longs.append(items)
    c.pmap(lambda j: batch.run_batch(c, PRE, j[1], vs[j[0] % 4]), list(enumerate(longs)))

    # identities that must not hold: a list with a changed element, order or length
    neg = []
    for _ in range(c.n(120, 2000)):
        op = r.choice(OPS)
        xs = rseq(r, op)
        ys = list(xs)
        k = r.random()
        if k < 0.4:
            r.shuffle(ys)
        elif k < 0.7:
            ys.insert(r.randint(0, len(ys)), relem(r, op))
        elif ys:
            ys.pop(r.randrange(len(ys)))
        if xs != ys:
            neg.append((op, xs, ys))

    def one(it):
        op, xs, ys = it
        t = PRE + "(step s true :rule chk :args ((eo::list_rev %s (eo::list_rev %s %s)) %s))\n" % (
            op.name, op.name, T.show(mklist(op, xs)), T.show(mklist(op, ys)))
        res = c.run({"t.eo": t}, variant="dbg")
        c.seen(("neg", t))
        c.count("distinct_lists_kept_apart")
        if res.kind != "reject":
            c.violation("identify:" + op.name, "different lists were identified", {"t.eo": t},
                        expected="rejected", observed=res.brief())
    c.pmap(one, neg)
