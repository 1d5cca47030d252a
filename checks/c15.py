"""C15: symbols resolve to the declarations in scope. Random histories of
declarations of a few names (constants, macros, programs, sorts, datatypes,
assumptions, steps, rules, values), scopes (push/pop, assumption scopes,
parameter lists, binders, lets) and resets, against a model of the symbol
table. What a name denotes is observed through its applications, annotated
uses, unapplied uses and as a premise or rule."""
import random

NAMES = ["f", "g", "h", "x", "|a b|", "+", "p.q", "_v0"]
S = ["S0", "S1", "S2"]
PRE = """(define TYPE () Type)(declare-const S0 Type)(declare-const S1 Type)(declare-const S2 Type)
(declare-const a0 S0)(declare-const b0 S0)(declare-const a1 S1)(declare-const b1 S1)(declare-const a2 S2)(declare-const b2 S2)
(declare-const q00 (-> S0 S0))(declare-const q01 (-> S0 S1))(declare-const q02 (-> S0 S2))
(declare-const q10 (-> S1 S0))(declare-const q11 (-> S1 S1))(declare-const q12 (-> S1 S2))
(declare-const q20 (-> S2 S0))(declare-const q21 (-> S2 S1))(declare-const q22 (-> S2 S2))
(declare-const Set (-> Type Type))(declare-const e0 (Set S0))(declare-const e1 (Set S1))
(declare-const imp (-> Bool Bool Bool))(declare-const fact (-> Int Bool))(declare-const nat0 (-> Int S0))(declare-const nat1 (-> Int S1))(declare-const natS (-> Int (Set S0)))
(declare-const Lst Type)(declare-const lnil Lst)
(declare-parameterized-const lcons ((T Type :implicit)) (-> T Lst Lst) :right-assoc-nil lnil)
(declare-const all (-> Lst Bool Bool) :binder lcons)
(declare-const cj (-> Bool Bool Bool) :right-assoc-nil true)
(declare-parameterized-const emp ((T Type :implicit)) (Set T))
(declare-rule chk ((T Type)(U Type)(t T)(u U)) :args (t u) :requires ((t u)) :conclusion true)
(declare-rule id ((F Bool)) :premises (F) :conclusion F)
(declare-rule scope ((A Bool)(F Bool)) :assumption A :premises (F) :conclusion (imp A F))
"""
INT = "(declare-const Int Type)(declare-consts <numeral> Int)\n"


class B:
    """A live binding."""
    __slots__ = ("kind", "ref", "ty", "attr", "nil", "n")

    def __init__(self, kind, ref=None, ty=None, attr=None, nil=None, n=None):
        self.kind, self.ref, self.ty, self.attr, self.nil, self.n = kind, ref, ty, attr, nil, n


def show(t):
    return t if isinstance(t, str) else "(-> %s)" % " ".join(show(x) for x in t) if t[0] != "Set" else "(Set %s)" % show(t[1])


def apply_(b, args):
    """The term (explicitly written) that b applied to args [(text, type)]
    denotes, with its type; None if b does not accept them; False if not
    judged."""
    if b.kind == "proof" or b.kind == "value" or b.kind == "rule":
        return None
    ty = b.ty
    if b.kind == "macro":
        if [t for _, t in args] == list(ty[:-1]):
            return ("(%s %s)" % (b.ref, " ".join(a for a, _ in args)), ty[-1])
        if [t for _, t in args] == list(ty[:len(args)]):
            return False
        return None
    if b.kind == "program":
        if [t for _, t in args] == list(ty[:-1]):
            return (" ".join(["(q%s%s" % (ty[0][1], ty[-1][1]), args[0][0] + ")"]), ty[-1])
        return None
    if b.attr == "arg-list":
        return ("(_ %s (lcons %s))" % (b.ref, " ".join(a for a, _ in args)), ty[1])
    if b.attr and len(args) == 1 and (b.attr in ("chainable", "pairwise") or "non-singleton" in b.attr):
        # does not have the symbol in it
        return False
    if b.attr:
        s, nil = ty[0], b.nil
        if s == ("Set", "T"):
            # the terminator depends on the arguments
            s = args[0][1]
            if not (isinstance(s, tuple) and s[0] == "Set"):
                return None
            nil = "(as emp %s)" % show(s)
        if any(t != s for _, t in args):
            return None
        xs = [a for a, _ in args]
        if b.attr in ("right-assoc", "left-assoc"):
            if len(xs) == 1:
                return ("(_ %s %s)" % (b.ref, xs[0]), (s, s))
            if b.attr == "right-assoc":
                r = xs[-1]
                for x in reversed(xs[:-1]):
                    r = "(_ (_ %s %s) %s)" % (b.ref, x, r)
            else:
                r = xs[0]
                for x in xs[1:]:
                    r = "(_ (_ %s %s) %s)" % (b.ref, r, x)
            return (r, s)
        if b.attr in ("chainable", "pairwise"):
            ps = list(zip(xs, xs[1:])) if b.attr == "chainable" else [(x, y) for i, x in enumerate(xs) for y in xs[i + 1:]]
            ps = ["(_ (_ %s %s) %s)" % (b.ref, x, y) for x, y in ps]
            return (ps[0] if len(ps) == 1 else "(cj %s)" % " ".join(ps), "Bool")
        r = nil
        for x in (xs if b.attr.startswith("left") else reversed(xs)):
            r = "(_ (_ %s %s) %s)" % ((b.ref, r, x) if b.attr.startswith("left") else (b.ref, x, r))
        return (r, s)
    if not isinstance(ty, tuple) or ty[0] == "Set":
        return None
    ps, ret = ty[:-1], ty[-1]
    if len(args) > len(ps):
        return None
    env = {}
    for p, (_, t) in zip(ps, args):
        if p == "T":
            if env.setdefault("T", t) != t:
                return None
        elif p == ("Set", "T"):
            if not (isinstance(t, tuple) and t[0] == "Set") or env.setdefault("T", t[1]) != t[1]:
                return None
        elif p != t:
            return None
    r = b.ref
    for a, _ in args:
        r = "(_ %s %s)" % (r, a)
    g = lambda t: env.get("T", t) if t == "T" else ("Set", env.get("T", "T")) if t == ("Set", "T") else t
    rest, ret = tuple(g(t) for t in ty[len(args):]), g(ret)
    return (r, rest if len(rest) > 1 else ret)


class Hist:
    def __init__(self, r, main, nosep):
        self.r, self.main, self.nosep = r, main, nosep
        self.lines = []          # (text, what)
        self.scopes = [("top", [])]    # (kind, [name, ...] in order)
        self.table = {}          # name -> [B]
        self.rules = {}          # name -> B (separate table)
        self.k = 0
        self.probes = []         # (index of the line it goes before, text, what)
        self.levels = 0
        self.lit = "Int"

    # ------------------------------------------------------------ recording
    def add(self, text, what="declaration"):
        self.lines.append((text, what))

    def fresh(self, p):
        self.k += 1
        return "@%s%d" % (p, self.k)

    def bind(self, name, b):
        self.table.setdefault(name, []).append(b)
        self.scopes[-1][1].append((name, None))

    def live(self, name):
        return self.table.get(name, [])

    def close(self):
        kind, names = self.scopes.pop()
        for n, rule in reversed(names):
            if rule:
                del self.rules[n]
            else:
                self.table[n].pop()
        return kind

    # ------------------------------------------------------------- commands
    def ty(self):
        r = self.r
        return r.choice([(r.choice(S), r.choice(S)), (r.choice(S), r.choice(S)), (r.choice(S), r.choice(S), r.choice(S)), r.choice(S), ((("Set", r.choice(["S0", "S1"]))), r.choice(S)),
                         (r.choice(S), r.choice(S), r.choice(S), r.choice(S))])

    def declare(self, n, rule=False):
        r = self.r
        m = 0.999 if rule else r.random()
        if m < 0.36:
            t = self.ty()
            kw = "declare-const"
            self.add("(%s %s %s)" % (kw, n, show(("->",) + t if isinstance(t, tuple) and t[0] != "Set" else t) if not isinstance(t, tuple) or t[0] == "Set" else "(-> %s)" % " ".join(show(x) for x in t)))
            self.bind(n, self.aliased(n, B("const", None, t)))
        elif m < 0.46:
            s = r.choice(S)
            a = r.choice(["right-assoc", "left-assoc", "right-assoc-nil", "left-assoc-nil", "right-assoc-non-singleton-nil", "left-assoc-non-singleton-nil", "chainable", "pairwise", "arg-list",
                          "right-assoc-nil", "left-assoc-nil"])
            nil = r.choice("ab") + s[1] if "nil" in a else None
            if a == "arg-list":
                self.add("(declare-const %s (-> Lst %s) :arg-list lcons)" % (n, s))
                self.bind(n, self.aliased(n, B("const", None, ("Lst", s), a)))
                return
            if a in ("chainable", "pairwise"):
                self.add("(declare-const %s (-> %s %s Bool) :%s cj)" % (n, s, s, a))
                self.bind(n, self.aliased(n, B("const", None, (s, s, "Bool"), a)))
                return
            if nil and r.random() < 0.4:
                self.add("(declare-parameterized-const %s ((T TYPE :implicit)) (-> (Set T) (Set T) (Set T)) :%s (as emp (Set T)))" % (n, a))
                self.bind(n, self.aliased(n, B("const", None, (("Set", "T"),) * 3, a)))
                return
            self.add("(declare-const %s (-> %s %s %s) :%s%s)" % (n, s, s, s, a, " " + nil if nil else ""))
            self.bind(n, self.aliased(n, B("const", None, (s, s, s), a, nil)))
        elif m < 0.52:
            t = r.choice([("T", r.choice(S)), (r.choice(S), "T", "T"), (("Set", "T"), r.choice(S)), ("T", "T", r.choice(S))])
            self.add("(declare-parameterized-const %s ((T TYPE :implicit)) (-> %s))" % (n, " ".join(show(x) for x in t)))
            self.bind(n, self.aliased(n, B("const", None, t)))
        elif m < 0.6:
            # values are distinct terms: one that is overloaded under several
            # names is not judged
            self.k += 1
            v, t = r.choice([("(nat0 %d)", "S0"), ("(nat1 %d)", "S1"), ("(q01 (nat0 %d))", "S1"), ("%d", "Int"), ("(natS %d)", ("Set", "S0")), ("(q20 (q02 (nat0 %d)))", "S0")])
            v = v % (self.k + 10000)
            self.add("(define %s () %s)" % (n, v))
            self.bind(n, B("value", v, t))
        elif m < 0.68:
            i = r.choice(S)
            j = r.choice(S)
            y = r.choice(["y", "y", n, r.choice(NAMES)])     # the parameter may have the same name
            if r.random() < 0.6:
                self.add("(define %s ((%s %s)) (q%s%s %s))" % (n, y, i, i[1], j[1], y))
                self.bind(n, B("macro", "q%s%s" % (i[1], j[1]), (i, j)))
            else:
                i2 = r.choice(S)
                ref = self.fresh("m")
                self.add("(declare-const %s (-> %s %s %s))" % (ref, i, i2, j))
                z = r.choice([x for x in ["z", "w"] + NAMES if x != y])
                self.add("(define %s ((%s %s) (%s %s)) (%s %s %s))" % (n, y, i, z, i2, ref, y, z))
                self.bind(n, B("macro", ref, (i, i2, j)))
        elif m < 0.74:
            i, j = r.choice(S), r.choice(S)
            text = "(program %s ((y %s)) :signature (%s) %s (((%s y) (q%s%s y))))" % (n, i, i, j, n, i[1], j[1])
            if self.live(n):
                self.probe(text, "redeclaration as a program")
                return
            self.add(text)
            self.bind(n, B("program", None, (i, j)))
        elif m < 0.8:
            self.k += 1
            self.add("(assume %s (fact %d))" % (n, self.k))
            self.bind(n, B("proof", n=self.k))
        elif m < 0.84:
            self.k += 1
            h = self.fresh("h")
            self.add("(assume %s (fact %d))(step %s (fact %d) :rule id :premises (%s))" % (h, self.k, n, self.k, h))
            self.bind(n, B("proof", n=self.k))
        elif m < 0.88:
            if r.random() < 0.5:
                self.add("(declare-sort %s 0)" % n)
                self.bind(n, self.aliased(n, B("const", None, "Type")))
            else:
                self.add("(declare-sort %s 1)" % n)
                self.bind(n, self.aliased(n, B("const", None, ("Type", "Type"))))
        elif m < 0.94:
            names = r.sample(NAMES, 3) if r.random() < 0.5 else [n] + r.sample([x for x in NAMES if x != n], 2)
            d, cn, sn = names
            s = r.choice(S)
            self.k += 1
            kw = r.choice(["(declare-datatype %s ((%s (%s %s))))", "(declare-datatypes ((%s 0)) (((%s (%s %s)))))"])
            self.add(kw % (d, cn, sn, s))
            bs = []
            for nm, t in ((d, "Type"), (cn, None), (sn, None)):
                bs.append((nm, B("const", None, t)))
            D = self.fresh("r")
            bs[0][1].ref = D
            bs[1][1].ty = (s, D)
            bs[2][1].ty = (D, s)
            for nm, b in bs:
                self.bind(nm, b)
            self.add("(define %s () %s)" % (D, d), "alias")
            for nm, b in bs[1:]:
                b.ref = self.fresh("r")
                self.add("(define %s () %s)" % (b.ref, nm), "alias")
        else:
            self.k += 1
            text = "(declare-rule %s () :conclusion (fact %d))" % (n, self.k)
            if self.levels:
                return
            if not self.nosep:
                if n in self.rules:
                    self.probe(text, "redeclaration of a rule")
                    return
                self.add(text)
                self.rules[n] = B("rule", n=self.k)
                self.scopes[-1][1].append((n, True))
            else:
                self.add(text)
                self.bind(n, B("rule", n=self.k))

    def aliased(self, n, b):
        b.ref = self.fresh("r")
        self.add("(define %s () %s)" % (b.ref, n), "alias")
        return b

    def probe(self, text, what):
        self.probes.append((len(self.lines), text, what))

    def scope(self):
        r = self.r
        m = r.random()
        if m < 0.5:
            k = r.choice([1, 1, 1, 2, 3])
            self.add("(push %d)" % k if k > 1 or r.random() < 0.5 else "(push)")
            for _ in range(k):
                self.scopes.append(("push", []))
        elif m < 0.7:
            n = r.choice(NAMES)
            self.k += 1
            self.scopes.append(("assume", []))
            self.levels += 1
            self.add("(assume-push %s (fact %d))" % (n, self.k))
            self.bind(n, B("proof", n=self.k))
            self.scopes[-1] = ("assume", self.scopes[-1][1])
        else:
            self.unscope()

    def unscope(self):
        r = self.r
        if len(self.scopes) == 1:
            if r.random() < 0.2:
                self.probe("(pop)", "pop without push")
            return
        kind = self.scopes[-1][0]
        if kind == "push":
            k = 1
            while k < len(self.scopes) - 1 and self.scopes[-k - 1][0] == "push" and r.random() < 0.4:
                k += 1
            self.add("(pop %d)" % k if k > 1 or r.random() < 0.5 else "(pop)")
            for _ in range(k):
                self.close()
        else:
            # prove something inside, close the scope; the step may have any name
            h = self.fresh("h")
            self.k += 1
            m = self.k
            # the formula assumed is that of the first binding of the scope
            name = r.choice([self.fresh("s"), r.choice(NAMES)])
            self.add("(assume %s (fact %d))" % (h, m))
            self.add("(step-pop %s :rule scope :premises (%s))" % (name, h))
            self.close()
            self.levels -= 1
            self.bind(name, B("proof", n=None))

    def reset(self):
        if self.levels:
            return
        self.add("(reset)")
        self.scopes = [("top", [])]
        dead = [n for n in NAMES if self.live(n)]
        self.table, self.rules = {}, {}
        for n in dead[:2] + ["a0", "q01"]:
            if self.r.random() < 0.4:
                self.probe("(declare-const @d %s)" % n if n not in ("a0",) else "(define @d () a0)", "use after reset")
        if self.r.random() < 0.3:
            self.probe("(step st :rule id)", "use of a rule after reset")
        self.add('(include "pre.eo")' if self.main != "t.eo" or self.r.random() < 0.7 else INT.strip() + " " + PRE.replace("\n", " "))

    def leftovers(self, pool):
        """What was declared in a scope that a reset closed must leave nothing."""
        if self.levels:
            return
        r = self.r
        for _ in range(r.choice([1, 1, 2, 3])):
            self.add("(push)")
            self.scopes.append(("push", []))
            for n in r.sample(pool, r.randint(1, len(pool))):
                for _ in range(r.choice([1, 1, 2])):
                    self.declare(n, r.random() < 0.5)
        lc = r.random() < 0.3
        if lc:
            self.add("(define @Lc () a0) (define @Lc () eo::List::cons)")
        self.reset()
        if lc:
            self.add("(define @Lc () eo::List::cons)")
            self.eq("(@Lc true false)", "(eo::List::cons true false)", "alias of a builtin symbol")
        for n in pool:
            self.declare(n, r.random() < 0.5)
        for _ in range(r.choice([1, 2, 3])):
            self.add("(push)")
            self.scopes.append(("push", []))
            if r.random() < 0.3:
                self.declare(r.choice(pool))
        for n in pool:
            self.query(n)
        while len(self.scopes) > 1:
            self.unscope()
            for n in pool:
                self.query(n)

    # -------------------------------------------------------------- queries
    def eq(self, a, b, what):
        self.k += 1
        self.add("(step st%d true :rule chk :args (%s %s))" % (self.k, a, b), what)

    def args(self):
        r = self.r
        k = r.choice([1, 1, 1, 2, 2, 3])
        return [r.choice([("a0", "S0"), ("b0", "S0"), ("a1", "S1"), ("b1", "S1"), ("a2", "S2"), ("e0", ("Set", "S0")), ("e1", ("Set", "S1")), ("S0", "Type")]) for _ in range(k)]

    def query(self, n):
        r = self.r
        L = self.live(n)
        if not L:
            self.probe("(define @d () %s)" % n, "undeclared symbol")
            self.probe("(define @d () (%s a0))" % n, "undeclared function")
            if n not in self.rules:
                self.probe("(step st true :rule %s)" % n, "undeclared rule")
        else:
            top = L[-1]
            if top.kind == "proof":
                if top.n is not None:
                    self.k += 1
                    self.add("(step st%d (fact %d) :rule id :premises (%s))" % (self.k, top.n, n), "premise")
                    self.probe("(step st (fact %d) :rule id :premises (%s))" % (top.n + 1000, n), "wrong premise")
            elif top.kind == "rule":
                self.k += 1
                self.add("(step st%d (fact %d) :rule %s)" % (self.k, top.n, n), "rule")
            elif top.kind == "value":
                self.eq(n, top.ref, "value")
            elif top.kind == "const":
                self.eq(n, top.ref, "unapplied")
                if isinstance(top.ty, str):
                    self.eq("(eo::typeof %s)" % n, top.ty.replace("Type", "TYPE"), "type")
                for b in L[:-1]:
                    if b.kind == "const" and r.random() < 0.5:
                        self.eq("(eo::is_eq %s %s)" % (n, b.ref), "false", "different declarations")
            # applications
            for _ in range(3):
                xs = self.args()
                if r.random() < 0.7:
                    # the arguments of one of them
                    b = r.choice(L)
                    if b.kind in ("const", "macro", "program") and isinstance(b.ty, tuple) and b.ty[0] != "Set":
                        ps = list(b.ty[:-1])
                        if b.attr == "arg-list":
                            ps = [r.choice(S) for _ in range(r.choice([1, 2, 3]))]
                        elif b.attr:
                            ps = [ps[0]] * r.choice([1, 2, 3, 4])
                        elif len(ps) > 1 and r.random() < 0.3:
                            ps = ps[:-1]
                        xs = [(a, t) for a, t in (self.arg(p) for p in ps)]
                        if any(a is None for a, _ in xs):
                            continue
                ys = [apply_(b, xs) for b in L]
                if any(y is False for y in ys):
                    continue
                hits = [y for y in ys if y]
                t = "(%s %s)" % (n, " ".join(a for a, _ in xs))
                if hits:
                    self.eq(t, hits[-1][0], "application of one of %d" % min(len(L), 4) if len(hits) == 1 else "application that several accept")
                    if r.random() < 0.35:
                        self.body(n, xs, hits[-1][0])
                elif not hits and len(L) > 0 and not any(b.kind in ("program",) for b in L):
                    self.probe("(define @d () %s :type %s)" % (t, r.choice(S)), "application that no declaration accepts")
            # annotated uses: the most recent declaration whose application to
            # variables of the types has the return type
            if all(b.kind == "const" for b in L) and r.random() < 0.7:
                b = r.choice(L)
                g = lambda t: ("S0" if t == "T" else ("Set", "S0") if t == ("Set", "T") else t)
                if isinstance(b.ty, tuple) and b.ty[0] != "Set" and "Type" not in b.ty and "Lst" not in b.ty:
                    T = tuple(g(t) for t in b.ty)
                    if b.attr and "chain" not in b.attr and "pair" not in b.attr:
                        T = (T[0],) * r.choice([3, 3, 3, 4, 5])
                else:
                    T = tuple(r.choice(S) for _ in range(r.choice([2, 3])))
                ys = [apply_(x, [("a0", t) for t in T[:-1]]) for x in L]
                if all(y is not False for y in ys):
                    m = [x for x, y in zip(L, ys) if y and y[1] == T[-1]]
                    t = "(eo::as %s (-> %s))" % (n, " ".join(show(x) for x in T))
                    if m:
                        self.eq(t, m[-1].ref, "annotated")
                    else:
                        self.probe("(define @d () %s :type (-> %s))" % (t, " ".join(show(x) for x in T)), "annotation without a declaration")
        if n in self.rules:
            self.k += 1
            self.add("(step st%d (fact %d) :rule %s)" % (self.k, self.rules[n].n, n), "rule")
            self.probe("(step st (fact %d) :rule %s)" % (self.rules[n].n + 1000, n), "wrong rule")

    def body(self, n, xs, expect):
        """The application in the body of a definition, a program or a rule,
        to parameters of the types of the arguments."""
        r = self.r
        ps = ["@p%d" % i for i in range(len(xs))]
        decl = "(%s)" % " ".join("(%s %s)" % (p, show(t).replace("Type", "TYPE")) for p, (_, t) in zip(ps, xs))
        t = "(%s %s)" % (n, " ".join(ps))
        a = " ".join(x for x, _ in xs)
        k = r.randrange(3)
        if k == 2 and self.levels:
            k = 0
        d = self.fresh("b")
        if k == 0:
            self.add("(define %s %s %s)" % (d, decl, t))
            self.eq("(%s %s)" % (d, a), expect, "application in a definition")
        elif k == 1:
            self.add("(program %s %s :signature (%s) S0 (((%s %s) %s)))" % (d, decl, " ".join(show(t).replace("Type", "TYPE") for _, t in xs), d, " ".join(ps), t))
            self.eq("(%s %s)" % (d, a), expect, "application in a program")
        else:
            self.add("(declare-rule %s %s :args (%s) :requires ((%s %s)) :conclusion true)" % (d, decl, " ".join(ps), t, expect))
            self.k += 1
            self.add("(step st%d true :rule %s :args (%s))" % (self.k, d, a), "application in a rule")

    def arg(self, p):
        r = self.r
        if p == "T":
            p = "S0"
        if p == ("Set", "T"):
            p = ("Set", "S0")
        xs = {"S0": ["a0", "b0", "(q10 a1)"], "S1": ["a1", "b1"], "S2": ["a2", "(q02 a0)"], ("Set", "S0"): ["e0"], ("Set", "S1"): ["e1"], "Type": ["S0", "S1"]}.get(p)
        return (r.choice(xs), p) if xs else (None, p)

    def local(self):
        """A construct that binds names of the pool locally."""
        r = self.r
        n, m = r.sample(NAMES, 2)
        i, j = r.choice(S), r.choice(S)
        q = "q%s%s" % (i[1], j[1])
        k = r.randrange(7)
        a = "a" + i[1]
        if k == 0:
            d = self.fresh("m")
            self.add("(define %s ((%s %s) (%s %s)) (%s %s))" % (d, n, i, m, j, q, n))
            self.eq("(%s %s %s)" % (d, a, "b" + j[1]), "(%s %s)" % (q, a), "parameter of a macro")
        elif k == 1:
            d = self.fresh("p")
            self.add("(program %s ((%s %s) (%s %s)) :signature (%s %s) %s (((%s %s %s) (%s %s))))" % (d, n, i, m, j, i, j, j, d, n, m, q, n))
            self.eq("(%s %s %s)" % (d, a, "b" + j[1]), "(%s %s)" % (q, a), "parameter of a program")
        elif k == 2:
            if self.levels:
                return
            d = self.fresh("u")
            self.add("(declare-rule %s ((%s %s) (%s %s)) :args (%s %s) :requires (((%s %s) (%s %s))) :conclusion true)" % (d, n, i, m, j, n, m, q, n, q, a))
            self.k += 1
            self.add("(step st%d true :rule %s :args (%s %s))" % (self.k, d, a, "b" + j[1]), "parameter of a rule")
        elif k == 3:
            self.eq("(all ((%s %s) (%s %s)) (fact 1))" % (n, i, m, j), '(_ (_ all (lcons (eo::var "%s" %s) (eo::var "%s" %s))) (fact 1))' % (n.strip("|"), i, m.strip("|"), j), "binder")
            self.eq("(all ((%s %s)) (fact (eo::ite (eo::is_eq %s (eo::var \"%s\" %s)) 1 2)))" % (n, i, n, n.strip("|"), i), '(_ (_ all (lcons (eo::var "%s" %s))) (fact 1))' % (n.strip("|"), i), "variable in a binder")
        elif k == 4:
            let = "eo::define" if self.main == "t.eo" or r.random() < 0.5 else "let"
            self.eq("(%s ((%s %s) (%s %s)) (%s %s))" % (let, n, a, m, "b" + j[1], q, n), "(%s %s)" % (q, a), "let")
            if r.random() < 0.5:
                self.eq("(%s ((%s %s)) (%s ((%s (%s %s))) %s))" % (let, n, a, let, n, q, n, n), "(%s %s)" % (q, a), "nested let")
        elif k == 5:
            d = self.fresh("c")
            self.add("(declare-parameterized-const %s ((%s TYPE :implicit) (%s TYPE :implicit)) (-> %s %s %s))" % (d, n, m, n, m, n))
            self.eq("(eo::typeof (%s %s %s))" % (d, a, "b" + j[1]), i, "parameter of a declaration")
        else:
            d = self.fresh("m")
            self.add("(define %s ((%s %s)) (all ((%s %s)) (fact (eo::ite (eo::is_eq %s %s) 1 2))))" % (d, n, i, m, i, n, a))
            self.eq("(%s %s)" % (d, a), "(all ((%s %s)) (fact 1))" % (m, i), "binder in a macro")


MODES = [("t.eo", ()), ("t.eo", ()), ("t.smt2", ()), ("t.eo", ("--no-rule-sym-table",)), ("t.smt2", ("--no-rule-sym-table",)), ("", ())]


def one(c, k):
    r = random.Random("%s-c15-%d" % (c.seed, k))
    main, opts = r.choice(MODES)
    h = Hist(r, main, bool(opts))
    h.add('(include "pre.eo")')
    pool = r.sample(NAMES, r.choice([2, 3, 4]))
    for _ in range(r.choice([8, 15, 30, 60])):
        m = r.random()
        if m < 0.45:
            h.declare(r.choice(pool))
        elif m < 0.63:
            h.scope()
        elif m < 0.74:
            h.unscope()
        elif m < 0.87:
            h.local()
        elif m < 0.89:
            h.reset()
        elif m < 0.91:
            h.leftovers(pool)
        if r.random() < 0.5:
            h.query(r.choice(pool))
    h.probe("(declare-consts <numeral> S0)", "redeclaration of a literal category")
    for n in pool:
        h.query(n)
    while len(h.scopes) > 1:
        h.unscope()
        for n in pool:
            h.query(n)

    def run(lines, variant="rel"):
        text = "\n".join(lines) + "\n"
        files = {"pre.eo": INT + PRE}
        if main:
            files[main] = text
            return c.run(files, main=main, args=opts, variant=variant), files, None
        return c.run(files, main=None, args=opts, stdin=text, variant=variant), files, text
    lines = [t for t, _ in h.lines]
    res, files, stdin = run(lines, r.choice(["rel", "rel", "dbg", "san"]) if k % 4 == 0 else "rel")
    for _, w in h.lines:
        c.count(w)
    c.seen((main, opts, tuple(lines)))
    if res.kind != "correct":
        p = res.pos()
        what = h.lines[p[1] - 1][1] if p and 0 < p[1] <= len(lines) else res.kind
        c.violation("history:" + what, "a history of declarations is not answered as its symbols in scope require (%s)" % what, files, args=opts, main=main or None, stdin=stdin,
                    expected="correct; " + (lines[p[1] - 1] if p and 0 < p[1] <= len(lines) else ""), observed=res.brief() + "\n" + res.err[-600:])
        return
    c.sample("\n".join(lines)[:1500])
    probes = [p for p in h.probes if p[2].startswith(("redecl", "pop"))]
    probes = probes[:2] + r.sample(h.probes, min(len(h.probes), 5))
    for i, text, what in probes:
        res, files, stdin = run(lines[:i] + [text])
        c.count("must be rejected: " + what)
        c.seen((main, opts, tuple(lines[:i]), text))
        p = res.pos()
        if res.kind != "reject" or (p[1] != i + 1 if p else not text.startswith(("(pop", "(declare-consts"))):
            c.violation("probe:" + what, "must be rejected: " + what, files, args=opts, main=main or None, stdin=stdin, expected="the last line is rejected: " + text,
                        observed=res.brief() + "\n" + res.err[-600:])
            return


def run(c):
    c.need("rel", "dbg", "san")
    c.rule = "a case counts if its history is new; the oracle is a model of the symbol table (live bindings per name, scopes), what a name denotes is compared by the checker with an alias made when it was declared"
    c.assumptions += ["applications that several live declarations of a name accept are not judged", "unapplied, an overloaded name denotes its most recent declaration"]
    c.ppmap(lambda k: one(c, k), range(c.n(1800, 40000)))
