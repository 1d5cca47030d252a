"""C19: datatype declarations give exactly the declared constructors and
selectors. Random blocks of (mutually recursive, parametric) datatypes against
a model of the signature they declare."""
import random

SORTS = ["Int", "U", "V"]
PRE = """(define TYPE () Type)(declare-const Int Type)(declare-consts <numeral> Int)(declare-const U Type)(declare-const V Type)(declare-const Arr (-> Type Type Type))(declare-const Seq (-> Type Type))
(declare-const fact (-> Int Bool))(declare-const plain (-> Int U))
(declare-parameterized-const pr ((T Type :implicit)) (-> T Bool))
(declare-parameterized-const opq ((A U :opaque) (B Int)) (-> A B V))
(declare-parameterized-const poly ((T Type :implicit)) (-> T (Seq T)))
(declare-rule chk ((T Type)(W Type)(t T)(u W)) :args (t u) :requires ((t u)) :conclusion true)
(declare-rule constructors ((D Type)(x D)(l eo::List)) :args (x l) :requires (((eo::dt_constructors (eo::typeof x)) l)) :conclusion true)
(declare-rule selectors ((C Type)(c C)(l eo::List)) :args (c l) :requires (((eo::dt_selectors c) l)) :conclusion true)
(program nth ((T Type) (x T) (l eo::List :list) (n Int)) :signature (eo::List Int) T (((nth (eo::List::cons x l) 0) x) ((nth (eo::List::cons x l) n) (nth l (eo::add n -1)))))
"""
# types are strings (sorts, parameters) or tuples (constructor, argument, ...)


def show(t):
    return t if isinstance(t, str) else "(%s %s)" % (t[0], " ".join(show(x) for x in t[1:]))


def subst(t, env):
    return env.get(t, t) if isinstance(t, str) else (t[0],) + tuple(subst(x, env) for x in t[1:])


def params(t):
    return {t} if isinstance(t, str) else set().union(*[params(x) for x in t[1:]], set())


class Cons:
    def __init__(self, name, fields):
        self.name, self.fields = name, fields      # fields: [(selector, type)]
        self.ref = name


class DT:
    def __init__(self, name, ps, cons):
        self.name, self.ps, self.cons = name, ps, cons
        self.ref = name

    def type(self):
        return (self.name,) + tuple(self.ps) if self.ps else self.name

    def amb(self, c):
        have = set().union(*[params(t) for _, t in c.fields], set())
        return any(p not in have for p in self.ps)


class Gen:
    def __init__(self, r, ref):
        self.r = r
        self.k = 0
        self.dts = []
        self.names = set()
        self.lines = []       # (text, what)
        self.probes = []      # (line index, text, what)
        self.overloaded = set()
        self.consts = {}
        self.ref = ref

    def fresh(self, p):
        self.k += 1
        return "%s%d" % (p, self.k)

    def name(self, p):
        m = self.r.random()
        n = self.fresh(p)
        if m < 0.06:
            return "|%s x|" % n
        if m < 0.12:
            return n + self.r.choice(["+", ".", "-", "'"][:3])
        return n

    def ground(self, depth=2):
        """A ground type."""
        r = self.r
        m = r.random()
        if depth == 0 or m < 0.45:
            return r.choice(SORTS)
        if m < 0.6:
            return ("Arr", self.ground(depth - 1), self.ground(depth - 1))
        if m < 0.7:
            return ("Seq", self.ground(depth - 1))
        if not self.dts:
            return r.choice(SORTS)
        d = r.choice(self.dts)
        return (d.name,) + tuple(self.ground(depth - 1) for _ in d.ps) if d.ps else d.name

    def field(self, block, ps, depth=2):
        """The type of a field of a datatype of the block."""
        r = self.r
        m = r.random()
        if ps and m < 0.35:
            return r.choice(ps)
        if m < 0.6 and depth:
            n, k = r.choice(block)
            if k == 0:
                return n
            # often the datatype itself, with its parameters
            if len(ps) == k and r.random() < 0.6:
                return (n,) + tuple(ps)
            return (n,) + tuple(self.field(block, ps, depth - 1) for _ in range(k))
        if m < 0.72 and depth:
            return ("Arr", self.field(block, ps, depth - 1), self.field(block, ps, depth - 1))
        if m < 0.8:
            t = self.ground(depth)
            # parameters may shadow sorts
            return t if not params(t) & set(ps) else "Int"
        return r.choice([s for s in SORTS if s not in ps])

    def block(self):
        r = self.r
        k = r.choice([1, 1, 1, 2, 2, 2, 3, 4, 6])
        heads = [(self.name("D"), r.choice([0, 0, 0, 1, 1, 2, 3])) for _ in range(k)]
        out = []
        for n, a in heads:
            # (the names of the other datatypes are not hidden)
            ps = r.sample(["X", "Y", "Z", "U", "V", "|q r|"], a)
            cons = []
            for _ in range(r.choice([1, 2, 2, 3, 3, 5, 8])):
                fields = [(self.name("s"), self.field(heads, ps)) for _ in range(r.choice([0, 0, 1, 1, 2, 3, 4, 7]))]
                cons.append(Cons(self.name("c"), fields))
            out.append(DT(n, ps, cons))
        if r.random() < 0.12 and self.dts and not self.ref:
            # a constructor or a selector of an earlier datatype has the same name
            d, e = r.choice(self.dts), r.choice(out)
            c, f = r.choice(d.cons), r.choice(e.cons)
            if d.type() != e.type() and c.name not in self.overloaded and c.alias.startswith("@r"):
                f.name = c.name
                f.ref = self.fresh("@c")
                self.overloaded.add(c.name)
                c.ref = c.alias
        self.lines.append((self.text(out, r), "datatype block of %d" % k))
        for d in out:
            for c in d.cons:
                if not self.ref:
                    # a name for the symbol, in case it is overloaded later
                    c.alias = self.fresh("@r")
                    self.lines.append(("(define %s () %s)" % (c.alias, c.name), "constructor"))
                    if c.ref.startswith("@c"):
                        c.ref = c.alias
        self.dts += out

    def text(self, block, r):
        def body(d):
            cs = " ".join("(%s)" % " ".join([c.name] + ["(%s %s)" % (s, show(t)) for s, t in c.fields]) for c in d.cons)
            return "(par (%s) (%s))" % (" ".join(d.ps), cs) if d.ps else "(%s)" % cs
        if len(block) == 1 and r.random() < 0.5:
            return "(declare-datatype %s %s)" % (block[0].name, body(block[0]))
        return "(declare-datatypes (%s) (%s))" % (" ".join("(%s %d)" % (d.name, len(d.ps)) for d in block), " ".join(body(d) for d in block))

    def const(self, t):
        """A constant of the type."""
        if t not in self.consts:
            self.consts[t] = self.fresh("k")
            self.lines.append(("(declare-const %s %s)" % (self.consts[t], show(t)), "constant"))
        return self.consts[t]

    def value(self, t, depth):
        """A term of the ground type."""
        r = self.r
        d = next((d for d in self.dts if d.name == (t if isinstance(t, str) else t[0])), None)
        if d is None or depth == 0 or r.random() < 0.4:
            return "5" if t == "Int" and r.random() < 0.5 else self.const(t)
        c = r.choice(d.cons)
        env = dict(zip(d.ps, t[1:])) if d.ps else {}
        return self.apply(d, c, t, [self.value(subst(x, env), depth - 1) for _, x in c.fields])

    def head(self, d, c, t):
        return "(as %s %s)" % (c.ref, show(t)) if d.amb(c) else c.ref

    def apply(self, d, c, t, args):
        h = self.head(d, c, t)
        return "(%s %s)" % (h, " ".join(args)) if args else h

    def eq(self, a, b, what):
        self.k += 1
        self.lines.append(("(step @s%d true :rule chk :args (%s %s))" % (self.k, a, b), what))

    def lst(self, xs):
        return "(eo::List::cons %s)" % " ".join(xs) if xs else "eo::List::nil"

    def instance(self, d):
        return (d.name,) + tuple(self.ground() for _ in d.ps) if d.ps else d.name

    def query(self):
        r = self.r
        d = r.choice(self.dts)
        t = self.instance(d)
        env = dict(zip(d.ps, t[1:])) if d.ps else {}
        c = r.choice(d.cons)
        m = r.randrange(14)
        sels = self.lst([s for s, _ in c.fields])
        if m == 0:
            self.eq("(eo::dt_constructors %s)" % d.name, self.lst([x.ref for x in d.cons]), "constructors of a name")
        elif m == 1:
            xs = self.lst([self.head(d, x, t) for x in d.cons])
            self.eq("(eo::dt_constructors %s)" % show(t), xs, "constructors of an instance")
            self.k += 1
            self.lines.append(("(step @s%d true :rule constructors :args (%s %s))" % (self.k, self.value(t, 2), xs), "constructors of the type of a term"))
        elif m == 2:
            self.eq("(eo::dt_selectors %s)" % c.ref, sels, "selectors")
        elif m == 3:
            self.eq("(eo::dt_selectors %s)" % self.head(d, c, t), sels, "selectors of an annotated constructor" if d.amb(c) else "selectors")
            if not d.amb(c) or True:
                self.k += 1
                if not (d.amb(c)):
                    if not d.ps:
                        self.lines.append(("(step @s%d true :rule selectors :args (%s %s))" % (self.k, c.ref, sels), "selectors in a rule"))
                elif r.random() < 0.5:
                    self.lines.append(("(step @s%d true :rule selectors :args (%s %s))" % (self.k, self.head(d, c, t), sels), "selectors in a rule"))
        elif m == 4:
            # through the list
            i = r.randrange(len(d.cons))
            x = d.cons[i]
            if d.amb(x) or not d.ps:
                self.eq("(eo::dt_selectors (nth (eo::dt_constructors %s) %d))" % (show(t), i), self.lst([s for s, _ in x.fields]), "selectors of a constructor of the list")
        elif m in (5, 6):
            args = [self.value(subst(x, env), 2) for _, x in c.fields]
            self.eq("(eo::typeof %s)" % self.apply(d, c, t, args), show(t), "type of a constructor application")
            if args:
                n = r.randrange(len(args))
                h = self.head(d, c, t)
                rest = "(-> %s %s)" % (" ".join(show(subst(x, env)) for _, x in c.fields[n:]), show(t))
                if n and (d.amb(c) or not d.ps):
                    self.eq("(eo::typeof (%s %s))" % (h, " ".join(args[:n])), rest, "type of a partial constructor application")
                elif d.amb(c) or not d.ps:
                    self.eq("(eo::typeof %s)" % h, rest, "type of a constructor")
                # one argument of another type
                i = r.randrange(len(args))
                bad = list(args)
                o = self.ground()
                if c.name not in self.overloaded and self.clash(d, c, env, i, o):
                    bad[i] = self.const(o)
                    self.probe("(define @d () %s :type %s)" % (self.apply(d, c, t, bad), show(t)), "constructor applied to an argument of another type")
                if c.name not in self.overloaded:
                    self.probe("(define @d () %s :type %s)" % (self.apply(d, c, t, args + [args[0]]), show(t)), "constructor applied to too many arguments")
        elif m == 7 and c.fields:
            s, x = r.choice(c.fields)
            self.eq("(eo::typeof (%s %s))" % (s, self.value(t, 2)), show(subst(x, env)), "type of a selector application")
            o = self.ground()
            if (o if isinstance(o, str) else o[0]) != d.name:
                self.probe("(define @d () (%s %s) :type %s)" % (s, self.const(o), show(subst(x, env))), "selector applied to a term of another type")
        elif m == 8:
            n = c.name
            n = "|is-" + n[1:] if n[0] == "|" else "is-" + n
            if c.name not in self.overloaded:
                self.eq("(eo::typeof (%s %s))" % (n, self.value(t, 2)), "Bool", "type of a tester application")
        elif m == 9 and c.fields:
            s, x = r.choice(c.fields)
            n = "|update-" + s[1:] if s[0] == "|" else "update-" + s
            self.eq("(eo::typeof (%s %s %s))" % (n, self.value(t, 2), self.value(subst(x, env), 1)), show(t), "type of an updater application")
        elif m == 10:
            # nothing else is a datatype or a constructor
            fs = [s for x in self.dts for y in x.cons for s, _ in y.fields]
            g = self.value(t, 1)
            xs = ["Int", "U", "Arr", "(Arr Int U)", "(Seq U)", "Seq", "(-> U V)", "5", "plain", "(plain 5)", "(opq %s 5)" % self.const("U"), "opq", "eo::List", "(pr 5)", "TYPE", "Bool", "true", "eo::List::nil", "eo::List::cons", "(-> %s %s)" % (show(t), show(t)),
                  self.const(t), "(Seq %s)" % show(t), "(poly 5)"]
            if c.fields:
                xs.append(self.apply(d, c, t, [self.value(subst(x, env), 1) for _, x in c.fields]))
            if fs:
                xs.append(r.choice(fs))
            x = r.choice(xs)
            y = r.choice([c.ref, self.head(d, c, t), g] + xs)
            self.eq("(eo::is_ok (eo::dt_constructors %s))" % y, "false", "not a datatype")
            self.eq("(eo::is_ok (eo::dt_selectors %s))" % r.choice([x, d.name, show(t)]), "false", "not a constructor")
        elif m == 11 and d.ps:
            if len(d.ps) > 1:
                n = r.randrange(1, len(d.ps))
                self.eq("(eo::is_ok (eo::dt_constructors (%s %s)))" % (d.name, " ".join(show(self.ground()) for _ in range(n))), "false", "partially applied datatype")
            self.probe("(declare-const @d (%s %s))" % (d.name, " ".join(show(self.ground()) for _ in range(len(d.ps) + 1))), "datatype with too many parameters")
            self.probe("(define @d () %s :type TYPE)" % d.name, "datatype without its parameters")
            self.eq("(eo::typeof %s)" % d.name, "(-> %s TYPE)" % " ".join(["TYPE"] * len(d.ps)), "type of a datatype name")
        elif m == 12:
            if d.amb(c) and c.name not in self.overloaded:
                o = self.ground()
                if (o if isinstance(o, str) else o[0]) != d.name:
                    self.probe("(define @d () %s :type %s)" % ("(as %s %s)" % (c.ref, show(o)) if not c.fields else "((as %s %s) %s)" % (c.ref, show(o), " ".join(self.const(subst(x, env)) for _, x in c.fields)), show(o)), "constructor annotated with another type")
                self.probe("(define @d () %s :type %s)" % (c.ref if not c.fields else "(%s %s)" % (c.ref, " ".join(self.const(subst(x, env)) for _, x in c.fields)), show(t)), "ambiguous constructor without annotation")
                t2 = self.instance(d)
                if t2 != t:
                    self.eq("(eo::is_eq (as %s %s) (as %s %s))" % (c.ref, show(t), c.ref, show(t2)), "false", "annotations distinguish constructors")
            elif not d.ps:
                self.eq("(eo::typeof %s)" % c.ref, "(-> %s %s)" % (" ".join(show(x) for _, x in c.fields), d.name) if c.fields else d.name, "type of a constructor")
                if c.fields:
                    s, x = r.choice(c.fields)
                    self.eq("(eo::typeof %s)" % s, "(-> %s %s)" % (d.name, show(x)), "type of a selector")
                    self.eq("(eo::typeof %s)" % ("|update-" + s[1:] if s[0] == "|" else "update-" + s), "(-> %s %s %s)" % (d.name, show(x), d.name), "type of an updater")
                if c.name not in self.overloaded:
                    self.eq("(eo::typeof %s)" % ("|is-" + c.name[1:] if c.name[0] == "|" else "is-" + c.name), "(-> %s Bool)" % d.name, "type of a tester")
        elif m == 13:
            p = [p for p in d.ps if p not in ("U", "V")]
            if p:
                self.probe("(declare-const @d %s)" % r.choice(p), "parameter used outside of its datatype")
            a, b = r.sample(d.cons, 2) if len(d.cons) > 1 else (c, c)
            if a is not b:
                self.eq("(eo::is_eq %s %s)" % (a.ref, b.ref), "false", "constructors differ")

    def clash(self, d, c, env, i, o):
        """Giving the constructor an argument of type o for field i cannot be
        right for any parameters."""
        if d.amb(c) or not d.ps:
            return subst(c.fields[i][1], env) != o
        # the parameters are inferred from the arguments
        return not unifiable(c.fields, i, o, env, d.ps)

    def probe(self, text, what):
        self.probes.append((len(self.lines), text, what))


def match(p, t, env, ps):
    if isinstance(p, str):
        if p in ps:
            return env.setdefault(p, t) == t
        return p == t
    return not isinstance(t, str) and p[0] == t[0] and len(p) == len(t) and all(match(x, y, env, ps) for x, y in zip(p[1:], t[1:]))


def unifiable(fields, i, o, env, ps):
    e = {}
    return all(match(x, o if j == i else subst(x, env), e, ps) for j, (_, x) in enumerate(fields))


MALFORMED = [
    ("(declare-datatypes ((A 0) (B 0)) (((a))))", "fewer bodies"), ("(declare-datatypes ((A 0)) (((a)) ((b))))", "more bodies"), ("(declare-datatypes ((A 1)) (((a))))", "missing parameters"),
    ("(declare-datatypes ((A 0)) ((par (X) ((a)))))", "unexpected parameters"), ("(declare-datatypes ((A 2)) ((par (X) ((a (s X))))))", "too few parameters"), ("(declare-datatypes () ())", "empty block"),
    ("(declare-datatype A ((a (s Q))))", "undeclared type"), ("(declare-datatype A ((a (s 5))))", "not a type"), ("(declare-datatype A ((a (s A U))))", "selector with two types"),
    ("(declare-datatype A ((a (s))))", "selector without type"), ("(declare-datatype A (a))", "constructor without parentheses"), ("(declare-datatype A (par () ((a))))", "empty parameter list"),
    ("(declare-datatype A (par (X) ((a (s A)))))", "unapplied datatype as field"), ("(declare-datatype A ((a (s (A Int)))))", "applied datatype as field"), ("(declare-datatypes ((A -1)) (((a))))", "negative arity"),
    ("(declare-datatypes ((A 0) (B 1)) (((a (s B))) (par (X) ((b)))))", "unapplied datatype as field"), ("(declare-datatype A)", "no body"), ("(declare-datatypes ((A 0)))", "no bodies"),
    ("(declare-datatype A ((a)) ((b)))", "two bodies"), ("(declare-datatypes ((A)) (((a))))", "no arity"), ("(declare-datatypes ((A 0)) (((a (s X)))))", "undeclared parameter"),
    ("(declare-datatypes ((A 1) (B 0)) ((par (X) ((a (s X)))) ((b (t X)))))", "parameter of another datatype"), ("(declare-datatype A ((a (s TYPE) (t plain))))", "not a type"),
    ("(declare-datatypes ((A 0) (B 0) (C 1)) (((a)) ((b))))", "fewer bodies"), ("(declare-datatypes ((A 0)) ())", "no bodies")]


def one(c, i):
    r = random.Random("%s-c19-%d" % (c.seed, i))
    mode = r.choice(["t.eo", "t.eo", "t.smt2", "", "inc", "ref"])
    g = Gen(r, mode == "ref")
    if mode == "ref":
        # the datatypes are declared in a reference file
        for _ in range(r.choice([1, 2])):
            g.block()
        blocks, g.lines = g.lines, []
        g.ref = False
        for d in g.dts:
            for x in d.cons:
                x.alias = x.name
        head = [('(include "pre.eo")', "include"), ('(reference "r.smt2")', "reference")]
        g.lines = head
        files = {"r.smt2": "\n".join(t for t, _ in blocks) + "\n"}
        main = r.choice(["t.eo", "t.smt2"])
        for _, w in blocks:
            c.count(w)
        nb = 0
    else:
        files = {}
        main = "t.eo" if mode == "inc" else mode
        g.lines.append(('(include "pre.eo")', "include"))
        nb = r.choice([1, 2, 3])
        if mode == "inc":
            g.lines.append(('(include "inc.eo")', "include"))
            h = Gen(r, True)
            h.k = 5000
            h.block()
            files["inc.eo"] = "\n".join(t for t, _ in h.lines) + "\n"
            for d in h.dts:
                for x in d.cons:
                    x.alias = x.name
            g.dts += h.dts
    n = r.choice([4, 10, 25])
    for j in range(n):
        if nb and (not g.dts or r.random() < 0.3):
            g.block()
            nb -= 1
        g.query()
    files["pre.eo"] = PRE

    def run(lines, variant):
        text = "\n".join(lines) + "\n"
        if main:
            fs = dict(files)
            fs[main] = text
            return c.run(fs, main=main, variant=variant), fs, None
        return c.run(files, main=None, stdin=text, variant=variant), files, text
    lines = [t for t, _ in g.lines]
    res, fs, stdin = run(lines, r.choice(["rel", "dbg", "san"]) if i % 6 == 0 else "rel")
    for _, w in g.lines:
        c.count(w)
    c.seen((mode, tuple(lines)))
    c.sample("\n".join(lines)[:1500])
    if res.kind != "correct":
        p = res.pos()
        w = g.lines[p[1] - 1][1] if p and p[0] == (main or "stream") and 0 < p[1] <= len(lines) else res.kind
        c.violation("datatype:" + w, "a datatype declaration does not give the declared symbols (%s)" % w, fs, main=main or None, stdin=stdin, expected="correct; " + (lines[p[1] - 1] if p and 0 < p[1] <= len(lines) else ""),
                    observed=res.brief() + "\n" + res.err[-500:])
        return
    probes = r.sample(g.probes, min(5, len(g.probes)))
    if r.random() < 0.3:
        t, w = r.choice(MALFORMED)
        probes.append((len(lines), t, "malformed block: " + w))
    for at, text, what in probes:
        res, fs, stdin = run(lines[:at] + [text], "rel")
        c.count("must be rejected: " + what)
        c.seen((mode, tuple(lines[:at]), text))
        p = res.pos()
        if res.kind != "reject" or not p or p[1] < at + 1:
            c.violation("probe:" + what, "must be rejected: " + what, fs, main=main or None, stdin=stdin, expected="rejected: " + text, observed=res.brief())
            return


def run(c):
    c.need("rel", "dbg", "san")
    c.rule = "a case counts if its datatypes and queries are new; the oracle is the signature the blocks declare, as the manual and SMT-LIB describe it"
    c.assumptions += ["datatypes without constructors, annotations of unambiguous constructors, and several symbols of one block with the same name are not judged"]
    c.ppmap(lambda i: one(c, i), range(c.n(9000, 100000)))
