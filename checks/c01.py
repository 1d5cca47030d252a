"""C01: computational operators on literals vs. the reference semantics."""
from fractions import Fraction
import batch
import values as V
from batch import Item

OPS = sorted(V.ARITY)
SYMS = [("sym", "a"), ("sym", "b"), ("sym", "cI")]
BOUND = [0, 1, 2, 3, 7, 8, 31, 32, 33, 63, 64, 65, 127, 128]


def rint(r, small=False):
    k = r.random()
    if small or k < 0.45:
        return r.randint(-6, 12)
    if k < 0.6:
        return r.choice([1, -1]) * (2 ** r.choice(BOUND) + r.randint(-1, 1))
    if k < 0.8:
        return r.randint(-10 ** 6, 10 ** 6)
    return r.randint(-2 ** 200, 2 ** 200)


def rcp(r):
    k = r.random()
    if k < 0.7:
        return r.choice([97, 98, 99, 65, 49, 32, 34, 92, 117])
    if k < 0.85:
        return r.randint(0, 255)
    return r.choice([0, 9, 10, 127, 128, 255, 256, 0xD7FF, 0xFFFF, 0x10000, 0x2FFFF, r.randint(0, 0x2FFFF)])


def rwidth(r):
    k = r.random()
    if k < 0.5:
        return r.randint(0, 9)
    if k < 0.8:
        return r.choice(BOUND)
    return r.randint(0, 300)


def rbits(r, w):
    k = r.random()
    if w == 0:
        return 0
    if k < 0.25:
        return r.choice([0, 1, (1 << w) - 1, 1 << (w - 1)])
    return r.getrandbits(w)


def lit(r, kind=None, small=False):
    kind = kind or r.choice(["bool", "num", "num", "rat", "dec", "bin", "bin", "hex", "str", "str", "sym"])
    if kind == "bool":
        return V.B(r.random() < 0.5)
    if kind == "num":
        return V.num(rint(r, small))
    if kind == "rat":
        d = abs(rint(r, small)) + 1
        return V.rat(Fraction(rint(r, small), d))
    if kind == "dec":
        return V.dec(Fraction(rint(r, small), 10 ** r.randint(0, 5)))
    if kind == "bin":
        w = rwidth(r)
        return V.binv(w, rbits(r, w))
    if kind == "hex":
        w = 4 * r.choice([1, 1, 2, 2, 3, 8, 16, 17, r.randint(1, 40)])
        return V.hexv(w, rbits(r, w))
    if kind == "str":
        n = r.choice([0, 1, 1, 2, 3, 4, 6, 9])
        if r.random() < 0.4:
            return V.strv(r.choice([97, 98]) for _ in range(n))
        return V.strv(rcp(r) for _ in range(n))
    return r.choice(SYMS)


def close(r, a):
    """A literal of the same kind that differs in one place."""
    k = a[0]
    d = r.choice([1, -1]) * 2 ** r.choice([0, 0, 1, 7, 8, 15, 16, 24, 31, 32, 48, 63, 64, 128])
    if k == "num":
        return V.num(a[1] + d)
    if k == "rat":
        q = a[1]
        return V.rat(r.choice([q + d, -q, Fraction(q.numerator + d, q.denominator), Fraction(q.numerator, q.denominator + abs(d))]))
    if k == "dec":
        return V.dec(r.choice([a[1] + d, -a[1], a[1] + Fraction(1, 10 ** r.randint(1, 6))]))
    if k in ("bin", "hex"):
        w = a[1]
        if r.random() < 0.3 or w == 0:
            z = r.choice([1, 1, 8, 32, 64]) if k == "bin" else 4
            return (k, w + z, a[2] if r.random() < 0.6 else (a[2] << z) | r.choice([0, 1]))
        return (k, w, a[2] ^ (1 << r.choice([0, w - 1, r.randrange(w)])))
    if k == "str":
        cs = list(a[1])
        m = r.random()
        if cs and m < 0.65:
            i = r.choice([0, len(cs) - 1, r.randrange(len(cs))])
            cs[i] = r.choice([(cs[i] + 0x10000) % 0x30000, cs[i] ^ 1, cs[i] ^ 0x20, (cs[i] + 0x100) % 0x30000, (cs[i] + 0x20000) % 0x30000])
        elif cs and m < 0.8:
            cs.pop(r.choice([0, -1]))
        elif cs and m < 0.9:
            cs.reverse()
        else:
            cs.insert(r.choice([0, len(cs)]), r.choice([0, 32, 97, 0x2FFFF]))
        return V.strv(cs)
    return lit(r, k)


def args_for(r, op):
    """Literal arguments, mostly of categories the operator evaluates on."""
    if r.random() < 0.12:
        n = V.ARITY[op] if op not in V.NARY else r.choice([2, 2, 2, 3, 3, 8])
        return [lit(r) for _ in range(n)]
    if op in ("and", "or", "xor"):
        n = r.choice([2, 2, 2, 3, 4, 5, 8])
        k = r.choice(["bool", "bin", "bin", "hex"])
        if k == "bool":
            return [lit(r, k) for _ in range(n)]
        a = lit(r, k)
        return [a] + [(k, a[1], rbits(r, a[1])) for _ in range(n - 1)]
    if op in ("add", "mul"):
        n = r.choice([2, 2, 2, 3, 4, 7, 10])
        k = r.choice(["num", "rat", "dec", "bin", "bin", "hex"])
        if k in V.ARITH:
            return [lit(r, k) for _ in range(n)]
        a = lit(r, k)
        return [a] + [(k, a[1], rbits(r, a[1])) for _ in range(n - 1)]
    if op in ("zdiv", "zmod"):
        k = r.choice(["num", "num", "bin", "hex"])
        if k == "num":
            a, b = lit(r, k), lit(r, k, small=r.random() < 0.6)
            if r.random() < 0.3 and b[1]:
                a = V.num(b[1] * r.randint(-5, 5) + r.choice([-1, 0, 1]))
            return [a, b]
        a = lit(r, k)
        return [a, (k, a[1], rbits(r, a[1]) if r.random() < 0.5 else (r.randint(0, 3) % (1 << a[1])))]
    if op in ("qdiv", "gt"):
        k = r.choice(["num", "rat", "dec"])
        a = lit(r, k)
        return [a, a if r.random() < 0.15 else lit(r, k, small=r.random() < 0.5)]
    if op == "neg":
        return [lit(r, r.choice(["num", "rat", "dec", "bin", "bin"]))]
    if op == "not":
        return [lit(r, r.choice(["bool", "bin", "bin", "hex"]))]
    if op == "is_neg":
        return [lit(r, r.choice(["num", "rat", "dec"]), small=r.random() < 0.5)]
    if op == "len":
        return [lit(r, r.choice(["bin", "str"]))]
    if op == "concat":
        k = r.choice(["bin", "str", "str", "hex"])
        return [lit(r, k) for _ in range(r.choice([2, 2, 2, 3, 4, 9]))]
    if op == "extract":
        a = lit(r, r.choice(["bin", "str"]))
        n = a[1] if a[0] == "bin" else len(a[1])
        def ix():
            k = r.random()
            if k < 0.7:
                return V.num(r.randint(-2, n + 2))
            if k < 0.9:
                return V.num(r.choice([0, n - 1, n, n + 1, -1]))
            return V.num(rint(r))
        return [a, ix(), ix()]
    if op == "find":
        a = lit(r, "str")
        if r.random() < 0.7 and a[1]:
            i = r.randint(0, len(a[1]))
            j = r.randint(i, len(a[1]))
            b = V.strv(a[1][i:j])
            if r.random() < 0.5:
                a = V.strv(a[1] + a[1][: r.randint(0, len(a[1]))])
            return [a, b]
        return [a, lit(r, "str")]
    if op == "to_z":
        return [lit(r, r.choice(["num", "rat", "rat", "bin", "str"]))]
    if op == "to_q":
        return [lit(r, r.choice(["num", "rat"]))]
    if op == "to_bin":
        w = V.num(r.choice([rwidth(r), rwidth(r), rwidth(r), -1, 2 ** 32, 2 ** 70]))
        return [w, V.num(abs(rint(r))) if r.random() < 0.5 else lit(r, "bin")]
    if op == "to_str":
        k = r.choice(["num", "num", "rat", "bin", "hex", "str"])
        if k == "num":
            return [V.num(r.choice([r.randint(-3, 300), 196607, 196608, 196606, r.randint(0, 200000), rint(r)]))]
        return [lit(r, k)]
    if op in ("eq", "is_eq"):
        a = lit(r)
        return [a, a if r.random() < 0.35 else close(r, a) if r.random() < 0.7 else lit(r, a[0])]
    if op == "requires":
        a = lit(r)
        return [a, a if r.random() < 0.6 else close(r, a) if r.random() < 0.7 else lit(r, a[0]), lit(r)]
    if op == "ite":
        return [lit(r, "bool") if r.random() < 0.9 else lit(r), lit(r), lit(r)]
    return [lit(r) for _ in range(V.ARITY[op])]


def ambiguous(op, args):
    """Argument combinations the manual leaves open: not judged."""
    ks = [a[0] if a is not V.STUCK else "stuck" for a in args]
    if op == "gt" and all(k in V.BITS for k in ks):
        return True
    if op == "neg" and ks[0] == "hex":
        return True
    if op in ("extract",) and ks[0] == "hex":
        return True
    if op == "to_z" and ks[0] in ("dec", "hex"):
        return True
    if op == "to_q" and ks[0] == "dec":
        return True
    if op == "to_bin" and len(ks) == 2:
        if ks[1] == "hex" or (ks[1] == "num" and args[1][1] < 0):
            return True
        if ks[0] == "num" and args[0][1] > 5000 and args[0][1] < 2 ** 32:
            return True
    if op == "to_str" and ks[0] == "dec":
        return True
    return False


class E:
    """Expression tree with its reference value."""
    __slots__ = ("text", "val", "bad", "ops")

    def __init__(self, text, val, bad=False, ops=()):
        self.text, self.val, self.bad, self.ops = text, val, bad, ops


def spell(r, v):
    """A (possibly non-canonical) spelling of a literal value."""
    if v[0] == "rat" and r.random() < 0.3:
        k = r.randint(1, 6)
        return "%d/%d" % (v[1].numerator * k, v[1].denominator * k)
    if v[0] == "dec" and r.random() < 0.3:
        return V.show(v) + "0" * r.randint(1, 3)
    if v[0] == "hex" and r.random() < 0.4:
        return "#x" + V.show(v)[2:].upper()
    if v[0] == "str" and r.random() < 0.3:
        out = []
        for c in v[1]:
            k = r.random()
            if k < 0.4 or c == 0x5C or c == 0x22 or c < 32 or c > 126:
                if c <= 0xFFFF and r.random() < 0.5:
                    out.append("\\u%04x" % c)
                else:
                    out.append("\\u{%X}" % c)
            else:
                out.append(chr(c))
        return '"' + "".join(out) + '"'
    return V.show(v)


def tree(r, depth):
    op = r.choice(OPS)
    args = args_for(r, op)
    es = []
    for a in args:
        if depth > 0 and r.random() < 0.45:
            t = tree(r, depth - 1)
            # keep category compatibility often: retry a few times
            for _ in range(6):
                if t.val is not V.STUCK and t.val[0] == a[0]:
                    break
                t = tree(r, depth - 1)
            es.append(t)
        else:
            es.append(E(spell(r, a), a))
    vals = [e.val for e in es]
    bad = any(e.bad for e in es) or ambiguous(op, vals)
    if op in V.NARY and len(vals) > 2:
        # intermediate results must be unambiguous too (they are: strict ops)
        pass
    val = V.STUCK if bad else V.apply(op, vals)
    if val is not V.STUCK and val[0] in ("bin", "hex") and val[1] > 20000:
        bad = True
    if val is not V.STUCK and val[0] == "hex" and (val[1] == 0):
        bad = True
    ops = (op,) + tuple(o for e in es for o in e.ops)
    return E("(eo::%s %s)" % (op, " ".join(e.text for e in es)), val, bad, ops)


PRE = batch.CHK + """(declare-const Int Type)
(declare-const a Bool)
(declare-const b Bool)
(declare-const cI Int)
"""


def rules_prelude():
    """Rules and programs applying each operator to their parameters, so that
    evaluation also happens by instantiation rather than while parsing."""
    out = []
    for op in OPS:
        arities = [V.ARITY[op]] + ([3, 4, 5, 7, 8, 9, 10] if op in V.NARY else [])
        for n in arities:
            ps = " ".join("(T%d Type)(x%d T%d)" % (i, i, i) for i in range(n))
            xs = " ".join("x%d" % i for i in range(n))
            out.append("(declare-rule r_%s%d (%s (Z Type)(z Z)) :args (%s z) :requires (((eo::%s %s) z)) :conclusion true)"
                       % (op, n, ps, xs, op, xs))
            out.append("(declare-rule s_%s%d (%s) :args (%s) :requires (((eo::is_ok (eo::%s %s)) false)) :conclusion true)"
                       % (op, n, ps, xs, op, xs))
            out.append("(program p_%s%d (%s (Z Type)(z Z)) :signature (%s Z) Bool (((p_%s%d %s z) (eo::is_eq (eo::%s %s) z))))"
                       % (op, n, ps, " ".join("T%d" % i for i in range(n)), op, n, xs, op, xs))
            out.append("(program q_%s%d (%s) :signature (%s) Bool (((q_%s%d %s) (eo::is_ok (eo::%s %s)))))"
                       % (op, n, ps, " ".join("T%d" % i for i in range(n)), op, n, xs, op, xs))
            out.append("(define d_%s%d (%s) (eo::%s %s))" % (op, n, ps, op, xs))
    return "\n".join(out) + "\n"


def mk_items(c, r, n):
    items = []
    k = 0
    while len(items) < n:
        k += 1
        mode = r.random()
        if mode < 0.6:
            e = tree(r, r.choice([0, 0, 0, 1, 1, 2, 3]))
            if e.bad:
                continue
            nm = "st%d" % k
            if e.val is V.STUCK:
                t = "(step %s true :rule chk :args ((eo::is_ok %s) false))" % (nm, e.text)
            else:
                t = "(step %s true :rule chk :args (%s %s))" % (nm, e.text, V.show(e.val))
            how = "eager"
            op, key = e.ops[0], e.text
            val = e.val
        else:
            op = r.choice(OPS)
            args = args_for(r, op)
            if ambiguous(op, args):
                continue
            if op in ("is_ok",) or (op not in V.NARY and len(args) != V.ARITY[op]):
                continue
            val = V.apply(op, args)
            if val is not V.STUCK and val[0] in V.BITS and (val[1] > 20000 or (val[0] == "hex" and val[1] == 0)):
                continue
            xs = " ".join(spell(r, a) for a in args)
            o = "%s%d" % (op, len(args))
            how = r.choice(["rule", "program", "define"])
            nm = "st%d" % k
            if how == "rule":
                t = ("(step %s true :rule s_%s :args (%s))" % (nm, o, xs) if val is V.STUCK else
                     "(step %s true :rule r_%s :args (%s %s))" % (nm, o, xs, V.show(val)))
            elif how == "program":
                t = ("(step %s true :rule chk :args ((q_%s %s) false))" % (nm, o, xs) if val is V.STUCK else
                     "(step %s true :rule chk :args ((p_%s %s %s) true))" % (nm, o, xs, V.show(val)))
            else:
                ts = " ".join("(eo::typeof %s) %s" % (x, x) for x in [spell(r, a) for a in args])
                # definitions take the types as explicit arguments
                t = ("(step %s true :rule chk :args ((eo::is_ok (d_%s %s)) false))" % (nm, o, ts) if val is V.STUCK else
                     "(step %s true :rule chk :args ((d_%s %s) %s))" % (nm, o, ts, V.show(val)))
            key = "%s:%s" % (o, xs)
        exp = "does not evaluate" if val is V.STUCK else V.show(val)
        items.append(Item(t, "%s:%s" % (op, how), "%s evaluated (%s) to something else than the manual says" % (op, how),
                          "%s = %s" % (key, exp), (op, how, val is V.STUCK)))
        c.seen((how, t.split(" ", 2)[2]))
        c.count("op_" + op)
        c.count("stuck" if val is V.STUCK else "valued")
        c.count("via_" + how)
        c.sample("%s  [%s] expected %s" % (key, how, exp))
    return items


def run(c):
    c.rule = ("random (nested, n-ary) applications of every builtin literal operator to random literals with boundary "
              "widths/indices/magnitudes, evaluated while parsing, in a rule requirement, in a program body and in a "
              "definition; non-trivial = distinct obligation compared with the reference value (or stuckness)")
    c.assumptions = ["integer division by a negative numeral is judged as SMT-LIB (Euclidean) division",
                     "combinations the manual leaves open (hexadecimal neg/extract, decimal to_z/to_q/to_str, negative "
                     "to_bin, bitvector gt) are not judged"]
    c.need("san", "dbg", "rel")
    r = c.rng
    total = c.n(48000, 1000000)
    pre = PRE + rules_prelude()
    per = 250
    jobs = [mk_items(c, r, per) for _ in range(total // per)]
    vs = ["dbg", "rel", "san"]
    c.pmap(lambda j: batch.run_batch(c, pre, j[1], vs[j[0] % 3]), list(enumerate(jobs)))
    # the oracle itself must be able to fail: wrong expectations are rejected
    neg = []
    for _ in range(c.n(60, 600)):
        v = lit(r)
        w = lit(r, v[0])
        if v == w:
            continue
        neg.append((v, w))

    def one(vw):
        v, w = vw
        t = PRE + "(step s true :rule chk :args (%s %s))\n" % (V.show(v), V.show(w))
        res = c.run({"t.eo": t}, variant="dbg")
        c.seen(("neg", v, w))
        c.count("distinct_values_kept_apart")
        if res.kind != "reject":
            c.violation("identify", "two different literals were identified", {"t.eo": t},
                        expected="rejected", observed=res.brief())
    c.pmap(one, neg)
