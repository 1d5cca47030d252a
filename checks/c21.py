"""C21: shared and deep terms cost what they are, not what they unfold to.

Random terms and types with up to 300 levels, each of which refers to the one
before more than once (so they unfold to more than 2^100 symbols), and chains
of tens of thousands of levels, are built in several ways, and compared,
typed, matched, rewritten, measured, used in rules and printed. Every answer
is known (sizes are computed with big integers), and has to come within
seconds, on a stack of ordinary size."""
import random

PRE = """(declare-const Int Type) (declare-consts <numeral> Int)
(declare-const U Type) (declare-const Pair (-> Type Type Type)) (declare-const Set (-> Type Type)) (declare-const Ix (-> U Type)) (declare-const u0 U) (declare-const ua U) (declare-const ub U) (declare-const ba Bool) (declare-const bb Bool)
(declare-const f (-> U U)) (declare-const g (-> U U U)) (declare-const h (-> U U U U)) (declare-const cat (-> U U U) :left-assoc-nil u0) (declare-const lst (-> U U U) :right-assoc-nil u0)
(declare-parameterized-const sk ((i U :opaque)) (-> U U))
(declare-const not (-> Bool Bool)) (declare-const imp (-> Bool Bool Bool)) (declare-const or (-> Bool Bool Bool) :right-assoc-nil false) (declare-const and (-> Bool Bool Bool) :left-assoc-nil true)
(declare-parameterized-const = ((T Type :implicit)) (-> T T Bool)) (declare-const P (-> U Bool)) (declare-const K (-> Bool Bool))
(declare-const @L Type) (declare-const @nil @L) (declare-parameterized-const @cons ((T Type :implicit)) (-> T @L @L) :right-assoc-nil @nil) (declare-const all (-> @L Bool Bool) :binder @cons)
(declare-parameterized-const fst ((A Type :implicit) (B Type :implicit)) (-> (Pair A B) A)) (declare-parameterized-const wrap ((A Type :implicit)) (-> A (Set A)))
(declare-rule chk ((T Type) (S Type) (x T) (y S)) :args (x y) :requires ((x y)) :conclusion true)
(declare-rule id ((F Bool)) :premises (F) :conclusion F)
(program $subU ((x U) (y U) (z U) (n U :list)) :signature (U) U ((($subU ua) ub) (($subU (f x)) (f ($subU x))) (($subU (g x y)) (g ($subU x) ($subU y))) (($subU (h x y z)) (h ($subU x) ($subU y) ($subU z)))
 (($subU (_ cat x y)) (_ cat ($subU x) ($subU y))) (($subU (sk x y)) (sk ($subU x) ($subU y))) (($subU x) x)))
(program $subBool ((x Bool) (y Bool) (v @L)) :signature (Bool) Bool ((($subBool ba) bb) (($subBool (not x)) (not ($subBool x))) (($subBool (imp x y)) (imp ($subBool x) ($subBool y)))
 (($subBool (_ or x y)) (_ or ($subBool x) ($subBool y))) (($subBool (_ and x y)) (_ and ($subBool x) ($subBool y))) (($subBool (= x y)) (= ($subBool x) ($subBool y))) (($subBool (all v x)) (all v ($subBool x))) (($subBool x) x)))
(program $sizeU ((x U) (y U) (z U)) :signature (U) Int ((($sizeU (f x)) (eo::add 1 ($sizeU x))) (($sizeU (g x y)) (eo::add 1 ($sizeU x) ($sizeU y))) (($sizeU (h x y z)) (eo::add 1 ($sizeU x) ($sizeU y) ($sizeU z)))
 (($sizeU (_ cat x y)) (eo::add 1 ($sizeU x) ($sizeU y))) (($sizeU (sk x y)) (eo::add 1 ($sizeU x) ($sizeU y))) (($sizeU x) 1)))
(program $sizeBool ((x Bool) (y Bool) (v @L)) :signature (Bool) Int ((($sizeBool (not x)) (eo::add 1 ($sizeBool x))) (($sizeBool (imp x y)) (eo::add 1 ($sizeBool x) ($sizeBool y)))
 (($sizeBool (_ or x y)) (eo::add 1 ($sizeBool x) ($sizeBool y))) (($sizeBool (_ and x y)) (eo::add 1 ($sizeBool x) ($sizeBool y))) (($sizeBool (= x y)) (eo::add 1 ($sizeBool x) ($sizeBool y))) (($sizeBool (all v x)) (eo::add 1 ($sizeBool x))) (($sizeBool x) 1)))
(program $gen ((T Type) (S Type) (k (-> T S)) (x T) (y S)) :signature (S) S ((($gen (k x)) (_ ($gen k) ($gen x))) (($gen y) y)))
(program $has ((T Type) (S Type) (k (-> T S)) (x T) (y S) (c T)) :signature (S T) Bool ((($has c c) true) (($has (k x) c) (eo::or ($has k c) ($has x c))) (($has y c) false)))
"""
LEAF = {"U": ("ua", "ub"), "Bool": ("ba", "bb")}
# operator -> (number of arguments, n-ary with nil)
OPS = {"U": [("f", 1), ("g", 2), ("g", 2), ("h", 3), ("cat", 2), ("cat", 4), ("sk", 2)],
       "Bool": [("not", 1), ("imp", 2), ("or", 2), ("or", 3), ("and", 2), ("and", 4), ("=", 2), ("all ((v U))", 1)]}
NARY = ("cat", "or", "and")


class Dag:
    """levels[i] = (operator, arguments), an argument is an earlier level or
    None for the leaf."""

    def __init__(self, r, sort, n, chain):
        self.r, self.sort, self.n = r, sort, n
        self.levels = []
        for i in range(n):
            while True:
                op, k = r.choice(OPS[sort])
                if k > 1 or r.random() < 0.3:
                    break
            prev = i - 1 if i else None
            args = []
            for j in range(k):
                x = r.random()
                if x < 0.75 or chain and x < 0.9 or i == 0:
                    args.append(prev)
                elif x < 0.9:
                    args.append(max(0, i - r.choice([1, 2, 3])) if i > 1 else prev)
                else:
                    args.append(None)
            if all(a is None for a in args) or prev not in args:
                args[r.randrange(k)] = prev
            if k > 1 and args.count(prev) < 2:
                # the one before is referred to twice
                for j in range(k):
                    if args[j] != prev:
                        args[j] = prev
                        break
            self.levels.append((op, args))

    def level(self, i, name, leaf):
        op, args = self.levels[i]
        return "(%s %s)" % (op, " ".join(leaf if a is None else name(a) for a in args))

    def size(self, leaf=1):
        s = []
        for op, args in self.levels:
            v = [leaf if a is None else s[a] for a in args]
            if op in NARY:
                s.append(sum(v) + len(v) + 1)
            else:
                s.append(sum(v) + 1)
        return s[-1]


class Work:
    def __init__(self, r, proof):
        self.r, self.proof, self.lines, self.k, self.what, self.ref = r, proof, [], 0, [], None

    def fresh(self, p="t"):
        self.k += 1
        return "%s%d_" % (p, self.k)

    def build(self, d, leaf, way=None):
        """Adds the commands that build d over leaf, returns its text."""
        r = self.r
        way = way or r.choice(["chain", "nested", "nested", "macros", "composed"] + (["let"] if self.proof else []))
        p = self.fresh()
        nm = lambda i: leaf if i is None else "%s%d" % (p, i)
        if way in ("macros", "composed") and not all(set(a) <= {i - 1 if i else None, None} for i, (o, a) in enumerate(d.levels)):
            way = "chain"
        self.what.append(way)
        if way == "chain":
            for i in range(d.n):
                self.lines.append("(define %s () %s)" % (nm(i), d.level(i, nm, leaf)))
            return nm(d.n - 1)
        if way in ("nested", "let"):
            kw = "let" if way == "let" else "eo::define"
            return "".join("(%s ((%s %s)) " % (kw, nm(i), d.level(i, nm, leaf)) for i in range(d.n)) + nm(d.n - 1) + ")" * d.n
        if way == "macros":
            for i in range(d.n):
                self.lines.append("(define %s ((x %s)) %s)" % (nm(i), d.sort, d.level(i, lambda j: "x", leaf) if i else d.level(0, None, "x")))
            return "".join("(%s " % nm(i) for i in reversed(range(d.n))) + leaf + ")" * d.n
        # composed: each macro is the whole term over its parameter
        for i in range(d.n):
            self.lines.append("(define %s ((x %s)) %s)" % (nm(i), d.sort, d.level(i, lambda j: "(%s x)" % nm(j), "x")))
        return "(%s %s)" % (nm(d.n - 1), leaf)

    def nested(self, d, leaf):
        return self.build(d, leaf, "nested")

    def chk(self, a, b):
        self.lines.append("(step %s true :rule chk :args (%s %s))" % (self.fresh("s"), a, b))


def q_equal(w, d):
    w.chk(w.build(d, LEAF[d.sort][0]), w.build(d, LEAF[d.sort][0]))


def q_sub(w, d):
    a, b = LEAF[d.sort]
    w.chk("($sub%s %s)" % (d.sort, w.build(d, a)), w.build(d, b))


def q_size(w, d):
    w.chk("($size%s %s)" % (d.sort, w.build(d, LEAF[d.sort][0])), str(d.size()))


def q_generic(w, d):
    t = w.build(d, LEAF[d.sort][0])
    if w.r.random() < 0.5 or any(o == "sk" for o, _ in d.levels):
        w.chk("($gen %s)" % t, t)
    else:
        w.chk("($has %s %s)" % (t, LEAF[d.sort][1]), "false")


def q_ops(w, d):
    a, b = LEAF[d.sort]
    n1, n2 = w.fresh("n"), w.fresh("n")
    t, u = w.build(d, a), w.build(d, b)
    w.lines.append("(define %s () %s :type %s)" % (n1, t, d.sort))
    w.lines.append("(define %s () %s)" % (n2, u))
    w.chk("(eo::typeof %s)" % n1, d.sort)
    w.chk("(eo::is_eq %s %s)" % (n1, n2), "false")
    w.chk("(eo::eq %s %s)" % (n1, n2), "false")
    w.chk("(eo::hash %s)" % n1, "(eo::hash %s)" % w.build(d, a))
    w.chk("(eo::xor (eo::cmp %s %s) (eo::cmp %s %s))" % (n1, n2, n2, n1), "true")
    w.chk("(eo::ite (eo::is_eq %s %s) %s %s)" % (n1, n2, n1, n2), n2)
    w.chk("(eo::requires %s %s %s)" % (n1, w.build(d, a), n2), n2)
    w.chk("(eo::is_ok (eo::requires %s %s %s))" % (n1, n2, n2), "false")
    w.chk("(eo::is_var %s)" % n1, "false")
    w.chk("(= %s %s)" % (n1, n2), "(= %s %s)" % (w.build(d, a), w.build(d, b)))


def q_lists(w, d):
    a, b = LEAF[d.sort]
    n1, n2 = w.fresh("n"), w.fresh("n")
    w.lines.append("(define %s () %s)" % (n1, w.build(d, a)))
    w.lines.append("(define %s () %s)" % (n2, w.build(d, b)))
    op, nil = {"U": ("lst", "u0"), "Bool": ("or", "false")}[d.sort]
    l = "(%s %s %s %s %s)" % (op, n1, n2, n1, n2)
    w.chk("(eo::list_len %s %s)" % (op, l), "4")
    w.chk("(eo::list_nth %s %s 1)" % (op, l), n2)
    w.chk("(eo::list_find %s %s %s)" % (op, l, n2), "1")
    w.chk("(eo::list_concat %s (%s %s %s) (%s %s %s))" % (op, op, n1, n2, op, n1, n2), l)
    w.chk("(eo::list_setof %s %s)" % (op, l), "(%s %s %s)" % (op, n1, n2))
    w.chk("(eo::list_erase_all %s %s %s)" % (op, l, n1), "(%s %s %s)" % (op, n2, n2))
    w.chk("(eo::list_rev %s (%s %s %s))" % (op, op, n1, n2), "(%s %s %s)" % (op, n2, n1))


def q_pattern(w, d):
    """The term over a parameter as a pattern, as a result."""
    a, b = LEAF[d.sort]
    p = w.fresh("$p")
    e = w.nested(d, "x")
    t = w.build(d, a)
    m = w.r.random()
    if m < 0.4:
        w.lines.append("(program %s ((x %s)) :signature (%s) %s (((%s %s) x)))" % (p, d.sort, d.sort, d.sort, p, e))
        w.chk("(%s %s)" % (p, t), a)
    elif m < 0.55:
        # all but one occurrence of the leaf are the same: it does not match
        w.lines.append("(program %s ((x %s) (y %s)) :signature (%s) Bool (((%s (= %s y)) true) ((%s y) false)))" % (p, d.sort, d.sort, "Bool", p, e, p)
                       if d.sort == "Bool" else "(program %s ((x U) (y U)) :signature (U) Bool (((%s (g %s x)) true) ((%s y) false)))" % (p, p, e, p))
        w.chk("(%s (%s %s %s))" % (p, "=" if d.sort == "Bool" else "g", t, b), "true" if d.sort == "Bool" else "false")
    else:
        w.lines.append("(program %s ((x %s)) :signature (%s) %s (((%s x) %s)))" % (p, d.sort, d.sort, d.sort, p, e))
        w.chk("(%s %s)" % (p, a), t)


def q_define(w, d):
    n = w.fresh("m")
    w.lines.append("(define %s ((x %s)) %s)" % (n, d.sort, w.nested(d, "x")))
    w.chk("(%s %s)" % (n, LEAF[d.sort][0]), w.build(d, LEAF[d.sort][0]))


def q_rule(w, d):
    a, b = LEAF[d.sort]
    k = {"U": "P", "Bool": "K"}[d.sort]
    n = w.fresh("r")
    e, t, u = w.nested(d, "x"), w.build(d, a), w.build(d, b)
    m = w.r.random()
    s = w.fresh("s")
    if m < 0.25:
        w.lines.append("(declare-rule %s ((x %s)) :args (x) :conclusion (%s %s))" % (n, d.sort, k, e))
        w.lines.append("(step %s (%s %s) :rule %s :args (%s))" % (s, k, t, n, a))
    elif m < 0.5:
        w.lines.append("(declare-rule %s ((x %s)) :premises ((%s %s)) :conclusion (%s x))" % (n, d.sort, k, e, k))
        w.lines.append("(assume %sh (%s %s))" % (s, k, t))
        w.lines.append("(step %s (%s %s) :rule %s :premises (%sh))" % (s, k, a, n, s))
    elif m < 0.75:
        w.lines.append("(declare-rule %s ((x %s) (y %s)) :args (x y) :requires ((%s y)) :conclusion (%s y))" % (n, d.sort, d.sort, e, k))
        w.lines.append("(step %s (%s %s) :rule %s :args (%s %s))" % (s, k, t, n, a, t))
    else:
        w.lines.append("(assume-push %sh (%s %s))" % (s, k, t))
        w.lines.append("(step %sg (%s %s) :rule id :premises (%sh))" % (s, k, w.build(d, a, "nested"), s))
        w.lines.append("(step %si (%s %s) :rule id :premises (%sg))" % (s, k, w.build(d, a, "nested"), s))
        w.lines.append("(step-pop %s (imp (%s %s) (%s %s)) :rule scope :premises (%si))" % (s, k, w.build(d, a, "nested"), k, w.build(d, a, "nested"), s))


def q_types(w, d):
    """Shared types."""
    r = w.r
    n = r.choice([40, 100, 250])
    p = w.fresh("T")
    tn = []
    for i in range(n):
        o = tn[-1] if tn else "U"
        w.lines.append("(define %s%d () %s)" % (p, i, r.choice(["(Pair %s %s)", "(Pair %s %s)", "(-> %s %s)", "(Pair %s (Set %s))", "(-> U %s %s)"]) % (o, o)))
        tn.append("%s%d" % (p, i))
    w.lines.append("(define %s () (Pair %s %s))" % (p, tn[-1], tn[-1]))
    c = w.fresh("c")
    w.lines.append("(declare-const %s %s)" % (c, p))
    w.lines.append("(declare-const %sf (-> %s %s U))" % (c, p, p))
    w.lines.append("(define %s1 () (%sf %s %s) :type U)" % (c, c, c, c))
    w.lines.append("(define %s2 () (= (fst %s) (fst %s)) :type Bool)" % (c, c, c))
    w.chk("(eo::typeof (fst %s))" % c, tn[-1])
    w.chk("(eo::typeof (wrap (fst %s)))" % c, "(Set %s)" % tn[-1])
    w.chk("(eo::typeof %s)" % c, "(Pair %s %s)" % (tn[-1], tn[-1]))
    w.lines.append("(program $%s ((A Type) (x A)) :signature (A) Type ((($%s x) (eo::typeof x))))" % (c, c))
    w.chk("($%s %s)" % (c, c), p)
    w.chk("(eo::var \"v\" %s)" % p, "(eo::var \"v\" (Pair %s %s))" % (tn[-1], tn[-1]))


def q_quote(w, d):
    """Types that depend on shared terms."""
    if d.sort != "U":
        d = Dag(w.r, "U", d.n, True)
    n = w.fresh("i")
    t, e = w.build(d, "ua"), w.nested(d, "x")
    w.lines.append("(define %s () %s)" % (n, t))
    w.lines.append("(declare-parameterized-const %sk ((x U)) (Ix x))" % n)
    w.lines.append("(declare-parameterized-const %su ((x U :implicit)) (-> (Ix x) (Ix x) U))" % n)
    w.lines.append("(declare-parameterized-const %sd ((x U :implicit)) (-> (Ix %s) (Ix x)))" % (n, e))
    w.lines.append("(declare-parameterized-const %sr ((x U)) (Ix %s))" % (n, e))
    w.chk("(eo::typeof (%sk %s))" % (n, n), "(Ix %s)" % w.nested(d, "ua"))
    w.lines.append("(define %s1 () (%su (%sk %s) (%sr ua)) :type U)" % (n, n, n, n, n))
    w.chk("(eo::typeof (%sd (%sk %s)))" % (n, n, n), "(Ix ua)")
    w.chk("(eo::is_ok (eo::typeof (%su (%sk %s) (%sk ub))))" % (n, n, n, n), "false")
    w.chk('(eo::var "v" (Ix %s))' % n, '(eo::var "v" (Ix %s))' % w.nested(d, "ua"))


def q_reference(w, d):
    """The formulas of a reference file are normalized and looked up."""
    if d.sort == "U":
        d = Dag(w.r, "Bool", d.n, True)
    w2 = Work(w.r, True)
    w2.k = 500
    w.ref = "(assert (K ba))\n(assert %s)\n" % w2.build(d, "ba", "let")
    nf = w.r.random() < 0.6
    w.lines[1] += '(reference "r.smt2"%s)' % (" $subBool" if nf else "")
    w.lines.append("(assume %s %s)" % (w.fresh("h"), w.build(d, w.r.choice(["ba", "bb"]) if nf else "ba")))


def q_deep(w, d):
    r = w.r
    n = r.choice([2000, 5000, 20000])
    k = r.random()
    chain = lambda leaf: "(f " * n + leaf + ")" * n
    if k < 0.2:
        w.chk("($subU %s)" % chain("ua"), chain("ub"))
    elif k < 0.4:
        w.chk("($sizeU %s)" % chain("ua"), str(n + 1))
    elif k < 0.5:
        w.lines.append("(define %s () %s :type U)" % (w.fresh(), chain("ua")))
        w.chk("($gen %s)" % chain("ua"), chain("ua"))
    elif k < 0.6:
        w.lines.append("(program $deep%d ((x U)) :signature (U) U ((($deep%d %s) x)))" % (w.k, w.k, chain("x")))
        w.chk("($deep%d %s)" % (w.k, chain("ub")), "ub")
    elif k < 0.7:
        l = "(or" + " (P ua) (P ub)" * (n // 10) + ")"
        w.chk("(eo::list_len or %s)" % l, str(n // 10 * 2))
        w.chk("(eo::list_rev or (eo::list_rev or %s))" % l, l)
        w.chk("(eo::list_setof or %s)" % l, "(or (P ua) (P ub))")
        w.chk("($subBool %s)" % l, l)
    elif k < 0.8:
        w.chk("(eo::add%s)" % (" 1" * n), str(n))
    elif k < 0.9:
        p = w.fresh()
        t = "".join("(eo::define ((%s%d (f %s))) " % (p, i, "%s%d" % (p, i - 1) if i else "ua") for i in range(n // 4)) + "%s%d" % (p, n // 4 - 1) + ")" * (n // 4)
        w.chk(t, "(f " * (n // 4) + "ua" + ")" * (n // 4))
    else:
        w.lines.append("(assume %sa (P %s))" % (w.fresh("h"), chain("ua")))
        w.lines.append("(step %ss (P %s) :rule id :premises (h%d_a))" % (w.fresh("h"), chain("ua"), w.k - 1))


def q_loop(w, d):
    """Long recursions."""
    n = w.r.choice([500, 2000, 5000])
    p = w.fresh("$l")
    w.lines.append("(program %s ((n Int) (m Int)) :signature (Int Int) Int (((%s 0 m) m) ((%s n m) (%s (eo::add n -1) (eo::add m n)))))" % (p, p, p, p))
    w.chk("(%s %d 0)" % (p, n), str(n * (n + 1) // 2))
    w.lines.append("(program %sf ((n Int)) :signature (Int) Int (((%sf 0) 0) ((%sf 1) 1) ((%sf n) (eo::add (%sf (eo::add n -1)) (%sf (eo::add n -2))))))" % (p, p, p, p, p, p))
    # the second call is the one that the first one made
    a, b = 0, 1
    for _ in range(90):
        a, b = b, a + b
    w.chk("(%sf 90)" % p, str(a))
    w.lines.append("(program %st ((n Int) (x U)) :signature (Int U) U (((%st 0 x) x) ((%st n x) (%st (eo::add n -1) (g x x)))))" % (p, p, p, p))
    w.chk("($sizeU (%st %d ua))" % (p, 60), str(2 ** 61 - 1))


def q_bad(w, d):
    """A wrong claim about shared terms, which is printed."""
    a, b = LEAF[d.sort]
    r = w.r
    m = r.random()
    t, u = w.build(d, a), w.build(d, b)
    if m < 0.5:
        return "(step st true :rule chk :args (%s %s))" % (t, u)
    k = {"U": "P", "Bool": "K"}[d.sort]
    if m < 0.7:
        return "(define bad () (f (%s %s)) :type U)" % (k, t)
    if m < 0.85:
        return "(define bad () (%s) :type Int)" % (k + " " + t)
    w.lines.append("(assume hbad (%s %s))" % (k, t))
    return "(step st (%s %s) :rule id :premises (hbad))" % (k, u)


def q_badtype(w, d):
    q_types(w, d)
    p = [l.split()[1] for l in w.lines if l.startswith("(define T")]
    return "(define bad () (f (%s)) :type U)" % ("fst " + [l.split()[1] for l in w.lines if l.startswith("(declare-const c")][0])


QS = [q_equal, q_sub, q_sub, q_size, q_size, q_generic, q_ops, q_lists, q_pattern, q_pattern, q_define, q_rule, q_rule, q_types, q_deep, q_loop, q_quote, q_reference]
SCOPE = "(declare-rule scope ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (imp F G))"


def one(c, i):
    r = random.Random("%s-c21-%d" % (c.seed, i))
    main = r.choice(["t.eo", "t.eo", "t.smt2"])
    w = Work(r, main != "t.eo")
    # (the second line is where the reference goes)
    w.lines += ['(include "pre.eo")', ""]
    for _ in range(r.choice([1, 2, 3])):
        d = Dag(r, r.choice(["U", "Bool"]), r.choice([40, 60, 100, 200, 300]), r.random() < 0.5)
        q = r.choice(QS)
        if q is q_reference and len(w.lines) > 2:
            q = q_define
        q(w, d)
        c.count(q.__name__[2:])
        if w.ref is not None:
            # anything else that is assumed would have to be in the reference
            break
    for x in w.what:
        c.count("built by " + x)
    bad = None
    if r.random() < 0.35 and w.ref is None:
        d = Dag(r, r.choice(["U", "Bool"]), r.choice([40, 100, 200]), True)
        bad = r.choice([q_bad, q_bad, q_badtype])(w, d)
        c.count("printed in a message")
    files = {"pre.eo": PRE + SCOPE}
    if main == "t.smt2":
        w.lines = [l.replace(" Type)", " TYPE)") if "Type" in l else l for l in w.lines]
        w.lines = [l.replace(") Type (", ") TYPE (") for l in w.lines]
        files["pre.eo"] = PRE + SCOPE + " (define TYPE () Type)"
    if w.ref is not None:
        files["r.smt2"] = w.ref
    lines = w.lines + ([bad] if bad else [])
    files[main] = "\n".join(lines) + "\n"
    args = r.choice([(), (), (), ("--stats",), ("--stats-all",)]) if bad is None else ()
    res = c.run(files, main=main, args=args, variant="dbg" if i % 10 == 0 else "rel", timeout=20)
    c.seen(files[main])
    c.sample("\n".join(lines[2:])[:800])
    if bad is None:
        ok = res.kind == "correct" or args and res.rc == 0 and "correct" in res.out.split("\n")
        what = "a valid file with shared or deep terms is not accepted"
    else:
        p = res.pos()
        ok = res.kind == "reject" and p and p[1] == len(lines) and len(res.err) + len(res.out) < 500000
        what = "a wrong claim about shared terms is not rejected with a message of ordinary size"
    if not ok:
        c.violation("shared:" + ("bad" if bad else "good"), what, files, main=main, args=args, expected="correct" if bad is None else "rejected at line %d" % len(lines),
                    observed=res.brief() + " (%d characters)" % (len(res.err) + len(res.out)))


def run(c):
    c.need("rel", "dbg")
    c.rule = "a case counts if its text is new; the oracle is how the term was built (sizes by big integers, substitution by building it over the other leaf); a run must end within 20 seconds (60 with the second attempt), normal ones take milliseconds"
    c.assumptions += ["printing without sharing (--no-print-dag) is meant to unfold and is not judged", "costs that are polynomial in the shared size are not judged"]
    c.ppmap(lambda i: one(c, i), range(c.n(1200, 20000)))
