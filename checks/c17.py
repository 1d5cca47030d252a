"""C17: what is printed can be read back. Terms of random worlds (odd symbols,
every attribute, literals of all kinds, variables, partial applications, shared
subterms) are provoked into every kind of error report, the printed texts are
parsed again in the same context and compared by the checker with the term that
was written."""
import random
import re

NAMES = ["f", "g0", "x", "c!1", "a.b", "+", "-", "--", "-x", "-a/b", "--1", "<=", "=", "@p", "$q", "^", "&&", "%", "~", "?", "_a", "__", "_v", "_v0", "_v1", "_v2", "_v3", "_v4", "_v5", "_v00",
         "_v10", "as0", "let2", "par1", "Type0", "Bool0", "!!", "!x", "true0", "eo", "eo.", "eo::x0", "eo::my-op", "e", "eo::define0",
         "|5|", "|-5|", "|-0|", "|1.5|", "|-1.5|", "|1/2|", "|-1/2|", "|-1x|", "|-1.|", "|-1..2|", "|-1/2/3|", "|2x|", "|#b1|", "|#xF|", "|#|", "|\"s\"|", "|a\"b|", "|a b|", "| a|", "|a |", "||", "| |", "|;c|", "|:k|", "|a:b|", "|(|",
         "|)|", "|a)(b|", "|a\nb|", "|a\tb|", "|a\\b|", "|\\|", "|a\\u{41}|", "|eo::a b|", "|eo::(|", "|eo::define|", "|eo::|", "|par|", "|let|", "|Bool|", "|Type|", "|!|", "|a,b|", "|[a]|", "|{a}|", "|a'b|", "|`|", "|é|", "|\u00ff\u0100|", "|_v0 |", "|a;b|",
         "|a long name with several spaces in it|", "|nospacesbutquotesaresureneeded(|", "averyveryverylongsimplesymbolname0", "averyveryverylongsimplesymbolname1", "|1234567890123456789012345|", "|" + 70 * "(" + "|",
         "|" + 260 * "x" + " y|", "|averyveryverylongsimplesymbolname0 |", "|-12345678901234567890|", "|123456789012345678.5|",
         "|Proves|", "|->x|", "|eo:x|", "|eo::x:y|", "|::|", "|:|"]
VARS = ["x", "x", "y", "_v0", "_v1", "x y", "x\"y", "\"", "", "|", "(", "a)b", "-1", "1", "let", "#b1", ";", "eo::x", "x\"\"", "Bool"]


def names(r, k):
    return r.sample(NAMES, k)


def stext(s):
    return '"' + s.replace('"', '""') + '"'


class World:
    def __init__(self, r, hexes, norm=False):
        self.r, self.hexes = r, hexes   # hexes: hexadecimals are not converted
        ns = names(r, 46)
        nm = iter(ns)
        D = self.decls = []
        self.U, self.W = next(nm), next(nm)
        self.arr, self.set, self.bv = next(nm), next(nm), next(nm)
        D.append("(declare-const %s Type)(declare-const %s Type)" % (self.U, self.W))
        D.append("(declare-const Int Type)(declare-const Real Type)(declare-const Str Type)(declare-const Hex Type)")
        D.append("(declare-consts <numeral> Int)(declare-consts <rational> Real)(declare-consts <string> Str)")
        D.append("(declare-const %s (-> Type Type Type))" % self.arr)
        D.append("(declare-const %s (-> Type Type))" % self.set)
        D.append("(declare-const %s (-> Int Type))" % self.bv)
        D.append("(declare-consts <binary> (%s (eo::len eo::self)))(declare-consts <hexadecimal> Hex)" % self.bv)
        self.ground = ["Bool", self.U, self.W, "Int", "Real", "Str", "Hex", ("%s" % self.arr, self.U, self.W), (self.bv, "4"), (self.bv, "8"), (self.set, self.U), (self.set, (self.set, self.W))]
        if norm:
            # numerals of the input are rationals, the widths are not
            self.ground = [t for t in self.ground if t not in ("Real", (self.bv, "4"), (self.bv, "8"))]
        self.consts = []   # (name, type)
        for _ in range(8):
            self.consts.append((next(nm), r.choice(self.ground)))
        for _ in range(8):
            self.consts.append((next(nm), ("->",) + tuple(self.ty(2) for _ in range(r.choice([2, 2, 3, 4])))))
        for n, t in self.consts:
            D.append("(declare-const %s %s)" % (n, self.t(t)))
        self.consts += [("true", "Bool"), ("false", "Bool")]
        self.eq = next(nm)
        self.land = next(nm)
        D.append("(declare-const %s (-> Bool Bool Bool) :right-assoc-nil true)" % self.land)
        D.append("(declare-parameterized-const %s ((T Type :implicit)) (-> T T Bool)%s)" % (self.eq, r.choice(["", " :chainable %s" % self.land, " :pairwise %s" % self.land])))
        self.nary = [(self.land, "Bool", "nil")]
        for a in r.sample(["left-assoc-nil", "right-assoc", "left-assoc", "right-assoc-non-singleton-nil", "left-assoc-non-singleton-nil", "right-assoc-nil"], 4):
            n, t = next(nm), r.choice(["Bool", self.U, self.W])
            z = ""
            if "nil" in a:
                z = " " + self.atom(t)
                if z == " ":
                    continue
            D.append("(declare-const %s (-> %s %s %s) :%s%s)" % (n, t, t, t, a, z))
            self.nary.append((n, t, a))
            self.consts.append((n, ("->", t, t, t)))
        # lists of variables and a binder
        self.cons, self.forall = next(nm), next(nm)
        D.append("(declare-const @L Type)(declare-const @nil @L)")
        D.append("(declare-parameterized-const %s ((T Type :implicit)) (-> T @L @L) :right-assoc-nil @nil)" % self.cons)
        D.append("(declare-const %s (-> @L Bool Bool) :binder %s)" % (self.forall, self.cons))
        self.consts.append((self.forall, ("->", "@L", "Bool", "Bool")))
        self.argl = next(nm)
        D.append("(declare-const %s (-> @L %s) :arg-list %s)" % (self.argl, self.U, self.cons))
        # opaque, ambiguous
        self.op, self.op2, self.amb, self.ambf = next(nm), next(nm), next(nm), next(nm)
        D.append("(declare-parameterized-const %s ((F (-> %s Bool) :opaque)) (-> %s %s))" % (self.op, self.U, self.W, self.W))
        D.append("(declare-parameterized-const %s ((A %s :opaque) (B Int :opaque)) (-> %s %s))" % (self.op2, self.U, self.U, self.U))
        D.append("(declare-parameterized-const %s ((T Type :implicit)) (%s T))" % (self.amb, self.set))
        # a parametric and a plain datatype
        self.dl, self.dn, self.dc, self.dh, self.dt = (next(nm) for _ in range(5))
        D.append("(declare-datatypes ((%s 1)) ((par (X) ((%s) (%s (%s X) (%s (%s X)))))))" % (self.dl, self.dn, self.dc, self.dh, self.dt, self.dl))
        self.ground += [(self.dl, self.U), (self.dl, (self.dl, "Int"))]
        if r.random() < 0.6:
            # definitions named like the names used for sharing
            n = next(nm)
            D.append("(define %s () %s)" % (n, r.choice([self.atom(self.U) or "true", "true", "5"])))
        self.pr = "pr$"
        D.append("(declare-parameterized-const pr$ ((T Type :implicit)) (-> T Bool))")
        D.append("(declare-parameterized-const tri$ ((T Type :implicit) (S Type :implicit)) (-> T S Bool Bool))")
        D.append("(declare-rule ev$ ((T Type)(x T)) :args (x) :conclusion (pr$ x))")
        D.append("(declare-rule chk$ ((T Type)(S Type)(x T)(y S)) :args (x y) :requires ((x y)) :conclusion true)")
        D.append("(declare-rule no$ ((T Type)(x T)) :args ((pr$ (pr$ (pr$ x)))) :conclusion true)")
        D.append("(declare-const w$ Type)(declare-const f$ (-> w$ Bool))(declare-const lhs$ (-> Bool Bool Bool))")
        self.pool = {}

    def atom(self, ty):
        xs = [n for n, t in self.consts if t == ty]
        return self.r.choice(xs) if xs else "true" if ty == "Bool" else ""

    def t(self, ty):
        return ty if isinstance(ty, str) else "(" + " ".join(self.t(x) for x in ty) + ")"

    def ty(self, d):
        r = self.r
        if d > 0 and r.random() < 0.2:
            return ("->",) + tuple(self.ty(d - 1) for _ in range(r.choice([2, 2, 3])))
        return r.choice(self.ground)

    def lit(self, ty):
        r = self.r
        if ty == "Int":
            return r.choice(["0", "1", "-1", "7", "-0", "007", str(r.randrange(-10**20, 10**20)), str(r.randrange(-99, 99))])
        if ty == "Real":
            return r.choice(["1/2", "-1/2", "4/2", "0/3", "-0/1", "3/9", "%d/%d" % (r.randrange(-10**12, 10**12), r.randrange(1, 10**12))])
        if ty == "Str":
            return stext("".join(r.choice(["a", "b", '"', " ", "\\", "\\u{41}", "\\u{e9}", "\\u0041", "\\u{5c}", "\\u{5c}u{41}", "\\u{22}", "\\u{2ffff}", "\\u{0}", "\\u{a}", "\\u{7c}", "|", "(", ";", "\\x", "\\u", "\\u{", "\\u{}", "\\u{110000}", "\\u{7f}", "\\u{5c}u{"])
                                 for _ in range(r.randrange(5))))
        w = 4 * r.choice([1, 2, 2, 5]) if ty == "Hex" else int(ty[1])
        v = r.choice([0, 1, 2 ** w - 1, r.randrange(2 ** w)])
        hexa = "#x" + r.choice([format(v, "0%dx" % (w // 4)), format(v, "0%dX" % (w // 4))])
        if ty == "Hex":
            return hexa
        return "#b" + format(v, "0%db" % w) if self.hexes or r.random() < 0.5 else hexa

    def var(self, d):
        r = self.r
        return r.choice(VARS), self.ty(d)

    def gen(self, ty, d):
        r = self.r
        key = self.t(ty)
        if self.pool.get(key) and r.random() < 0.22:
            return r.choice(self.pool[key])
        s = self.gen1(ty, d)
        if s is not None and len(s) < 900:
            self.pool.setdefault(key, []).append(s)
        return s

    def gen1(self, ty, d):
        r = self.r
        ch = []
        at = [n for n, t in self.consts if t == ty]
        if at:
            ch += [lambda: r.choice(at)] * 2
        ch += [lambda: "(eo::var %s %s)" % (stext(r.choice(VARS)), self.t(ty))]
        lit = ty in ("Int", "Real", "Str", "Hex" if self.hexes else "") or (isinstance(ty, tuple) and ty[0] == self.bv)
        if lit:
            ch += [lambda: self.lit(ty)] * 3
        if isinstance(ty, tuple) and ty[0] == self.set:
            ch += [lambda: "(as %s %s)" % (self.amb, self.t(ty))] * 2
        if isinstance(ty, tuple) and ty[0] == self.dl:
            ch += [lambda: "(as %s %s)" % (self.dn, self.t(ty))] * 2
        if ty == "@L":
            ch = [lambda: "@nil"]
        if d <= 0:
            return r.choice(ch)()
        k = len(ch)
        # an application of a constant whose type ends in ty
        for n, t in self.consts:
            if isinstance(t, tuple) and t[0] == "->":
                for i in range(2, len(t)):
                    rest = t[i] if i == len(t) - 1 else ("->",) + t[i:]
                    if rest == ty:
                        ch.append(lambda n=n, t=t, i=i: self.app(n, t[1:i], d, n in [x[0] for x in self.nary]))
        for n, t, a in self.nary:
            if t == ty:
                m = r.choice([2, 2, 3, 4] if a in ("left-assoc", "right-assoc") else [1, 2, 2, 3, 4])
                ch.append(lambda n=n, t=t, m=m: "(%s %s)" % (n, " ".join(self.gen(t, d - 1) for _ in range(m))))
        if ty == "Bool":
            e = self.ty(1)
            ch.append(lambda: "(%s %s %s)" % (self.eq, self.gen(e, d - 1), self.gen(e, d - 1)))
            ch.append(lambda: "(_ (_ %s %s) %s)" % (self.eq, self.gen(e, d - 1), self.gen(e, d - 1)))
            ch.append(lambda: "(%s %s %s)" % (self.forall, self.gen("@L", d - 1), self.gen("Bool", d - 1)))

            def binder():
                vs = [r.choice(["x", "y", "_v0", "_v1", "|a b|", "|-1|", "|a\"b|", "||"]) for _ in range(r.choice([1, 2]))]
                tys = [self.ty(1) for _ in vs]
                return "(%s (%s) %s)" % (self.forall, " ".join("(%s %s)" % (v, self.t(t)) for v, t in zip(vs, tys)),
                                         "(%s %s %s)" % (self.eq, vs[-1], vs[-1]) if r.random() < 0.5 else "true")
            ch += [binder] * 2
        if ty == "@L":
            ch.append(lambda: "(%s %s)" % (self.cons, " ".join(self.gen(self.ty(1), d - 1) for _ in range(r.choice([1, 2, 3])))))
            ch.append(lambda: "(_ (_ %s %s) %s)" % (self.cons, self.gen(self.ty(1), d - 1), self.gen("@L", d - 1)))
        if ty == self.U:
            ch.append(lambda: "(%s %s)" % (self.argl, " ".join(self.gen(self.ty(1), d - 1) for _ in range(r.choice([1, 2, 3])))))
            ch.append(lambda: "(%s %s %s %s)" % (self.op2, self.gen(self.U, d - 1), self.gen("Int", 0), self.gen(self.U, d - 1)))
        if ty == ("->", self.U, self.U):
            ch.append(lambda: "(%s %s %s)" % (self.op2, self.gen(self.U, d - 1), self.gen("Int", 0)))
        if ty == self.W:
            ch.append(lambda: "(%s %s %s)" % (self.op, self.gen(("->", self.U, "Bool"), d - 1), self.gen(self.W, d - 1)))
        if isinstance(ty, tuple) and ty[0] == self.dl:
            ch.append(lambda: "(%s %s %s)" % (self.dc, self.gen(ty[1], d - 1), self.gen(ty, d - 1)))
            ch.append(lambda: "(%s %s)" % (self.dt, self.gen(ty, d - 1)))
        if ty == self.U or ty == ("%s" % self.dl, "Int"):
            ch.append(lambda: "(%s %s)" % (self.dh, self.gen((self.dl, ty), d - 1)))
        if r.random() < 0.15 and ty != "@L":
            # the head is itself a compound term
            a = [self.ty(0) for _ in range(r.choice([1, 1, 2]))]
            ft = ("->",) + tuple(a) + ((ty,) if not (isinstance(ty, tuple) and ty[0] == "->") else ty[1:])
            return "(_ %s %s)" % (self.gen(ft, d - 1), " ".join(self.gen(x, d - 1) for x in a))
        return r.choice(ch[k:] * 2 + ch[:k])()

    def app(self, n, tys, d, explicit):
        r = self.r
        xs = [self.gen(t, d - 1) for t in tys]
        if explicit or r.random() < 0.2:
            if r.random() < 0.5:
                return "(_ %s %s)" % (n, " ".join(xs))
            s = n
            for x in xs:
                s = "(_ %s %s)" % (s, x)
            return s
        if n == self.forall:
            return "(_ %s %s)" % (n, " ".join(xs))
        return "(%s %s)" % (n, " ".join(xs))


def err(res):
    # the harness decodes bytes as Latin-1
    return res.err.encode("latin-1").decode("utf-8", "replace")


def sites(r, w, ty, t):
    """Commands whose error prints t: (command, [(pattern of the report, the
    term that must be read from the text)])."""
    T = w.t(ty)
    fn = isinstance(ty, tuple) and ty[0] == "->"
    yield "(step s$ (pr$ w$) :rule ev$ :args (%s))" % t, r"    Proves: (.*?)\n  Expected: (.*)\n\n", ["(pr$ %s)" % t, "(pr$ w$)"], "conclusion"
    yield "(step s$ (lhs$ (pr$ %s) true) :rule ev$ :args (%s))" % (t, t), r"    Proves: (.*?)\n  Expected: (.*)\n\n", ["(pr$ %s)" % t, "(lhs$ (pr$ %s) true)" % t], "expected conclusion"
    yield "(step s$ true :rule no$ :args (%s))" % t, r"\nProvided args: \[(.*)\]\n\n\n", [t], "arguments"
    yield "(step s$ true :rule chk$ :args (%s (pr$ %s)))" % (t, t), r"\nEvaluation failed: (.*)\n\n\n", ["(tri$ %s (pr$ %s) true)" % (t, t)], "requirement"
    yield "(define d$ () %s :type w$)" % t, r"unexpected type:\nExpression: (.*?)\n      Type: (.*?)\n  Expected: (.*)\n\n", [t, T, "w$"], "type annotation"
    if ty != "Bool":
        yield "(assume a$ %s)" % t, r"unexpected type:\nExpression: (.*?)\n      Type: (.*?)\n  Expected: (.*)\n\n", [t, T, "Bool"], "formula"
    yield "(define d$ () (f$ %s) :type Bool)" % t, r"failed:\nExpression: (.*?)\nMessage: .*?\n  Term: (.*?)\n  Has type: (.*?)\n  Expected type: (.*?)\n  Context ", ["(f$ %s)" % t, t, T, "w$"], "ill-typed application"


MODES = [("t.eo", ()), ("t.smt2", ()), ("t.smt2", ("--normalize-num",)), ("t.smt2", ("--no-normalize-hex",)), ("t.smt2", ("--no-parse-let",)), ("t.eo", ("--no-rule-sym-table",))]


def one(c, k):
    r = random.Random("%s-c17-%d" % (c.seed, k))
    mode, opts = r.choice(MODES)
    w = World(r, mode == "t.eo" or "--no-normalize-hex" in opts, "--normalize-num" in opts)
    pre = "\n".join(w.decls) + "\n"
    if "--normalize-num" in opts:
        # numerals are rationals there: nothing takes an Int
        pre = pre.replace("(declare-consts <rational> Real)", "(declare-consts <rational> Int)")

    def files(body):
        return {"pre.eo": pre, mode: '(include "pre.eo")\n' + body}
    base = c.run(files(""), main=mode, args=opts, variant="rel")
    if base.kind != "correct":
        if base.kind == "crash":
            c.violation("world", "crash on declarations", files(""), args=opts, main=mode, observed=base.brief())
        elif not re.search("Failed to bind|attribute", base.error() or ""):
            c.inconclusive("world rejected: " + base.brief()[:300])
        c.count("worlds given up")
        return
    for _ in range(12):
        ty = w.ty(2) if r.random() < 0.6 else "Bool"
        t = w.gen(ty, r.choice([0, 1, 2, 3, 4]))
        if ty == "Bool" and r.random() < 0.3:
            # many shared subterms
            xs = sorted({w.gen("Bool", r.choice([1, 1, 2])) for _ in range(r.choice([4, 8, 14, 24]))}, key=len)[:r.choice([8, 12, 24])] * 2
            r.shuffle(xs)
            t = "(%s %s)" % (w.land, " ".join(xs))
        if len(t) > 6000:
            continue
        # is it a term at all?
        ok = c.run(files("(step s$ true :rule chk$ :args (%s %s))" % (t, t)), main=mode, args=opts, variant="rel")
        if ok.kind != "correct":
            c.count("terms given up")
            if ok.kind == "crash":
                c.violation("term", "crash on a term", files("(step s$ true :rule chk$ :args (%s %s))" % (t, t)), args=opts, main=mode, observed=ok.brief())
            continue
        texts = []
        for cmd, pat, want, site in list(sites(r, w, ty, t)):
            if (site not in ("conclusion",) and r.random() < 0.6):
                continue
            for dag in ((), ("--no-print-dag",)):
                a = tuple(opts) + dag
                res = c.run(files(cmd), main=mode, args=a, variant=r.choice(["rel", "rel", "rel", "dbg"]))
                m = re.search(pat, err(res), re.S)
                if res.kind != "reject" or not m:
                    c.violation("report:" + site, "the error does not report the term (%s)" % site, files(cmd), args=a, main=mode, expected=pat, observed=res.brief() + "\n" + res.err[-500:])
                    return
                got = list(m.groups())
                if site == "requirement":
                    if got[0].count("(eo::requires ") != 1:
                        continue
                    got[0] = got[0].replace("(eo::requires ", "(tri$ ")
                if dag and any("(eo::define " in g for g in got):
                    c.violation("dag:" + site, "subterms are shared in spite of --no-print-dag", files(cmd), args=a, main=mode, observed="\n".join(got))
                    return
                c.seen((pre, cmd, a, mode))
                c.count("texts read back", len(got))
                c.count("site: " + site)
                if any("(eo::define " in g for g in got):
                    c.count("texts with sharing")
                texts.append((want, got, site, dag, cmd))

        def back(some):
            pairs = [p for want, got, _, _, _ in some for p in zip(want, got)]
            return c.run(files("".join("(step s%d$ true :rule chk$ :args (%s %s))\n" % (i, x, g) for i, (x, g) in enumerate(pairs))), main=mode, args=opts, variant="rel")
        if back(texts).kind == "correct":
            c.sample(t[:300])
            continue
        for x in texts:
            want, got, site, dag, cmd = x
            res = back([x])
            if res.kind != "correct":
                c.violation("readback:%s:%s" % (site, "dag" if not dag else "nodag"), "a printed term is not read back as the same term (%s)" % site,
                            dict(files(cmd)), args=tuple(opts) + dag, main=mode, expected="the text printed for\n  %s\nis read as the same term" % "\n  ".join(want),
                            observed="\n".join(got) + "\n" + res.brief() + "\n" + res.err[-600:])
                return
        c.violation("readback:together", "printed terms are not read back as the same terms only together", files(""), args=opts, main=mode, observed=str(texts)[:5000])
        return


STUCK = ["(eo::add {a} {b})", "(eo::add {a})", "(eo::requires {a} {b} {a})", "(eo::ite {p} {a} {b})", "(eo::list_concat %s {a} {b})", "(eo::nil %s {a})", "(eo::list_len %s {a})", "(eo::to_z {a})",
         "(eo::len {a})", "(eo::extract {a} 1 2)", "(eo::extract {a} 1)", "(eo::find {a} {b})", "(eo::and {a} {p})", "(eo::not {p})", "(eo::xor {p} {a})", "(eo::concat {a} {b} {a})", "(eo::qdiv {a} {b})", "(eo::zmod {a} {b})",
         "(eo::is_neg {a})", "(eo::gt {a} {b})", "(eo::to_str {a})", "(eo::to_bin 4 {a})", "(eo::to_q {a})", "(eo::hash {p} {a})", "(eo::dt_constructors {a})", "(eo::dt_selectors {a})", "(eo::cons %s {a} {b})",
         "(eo::list_nth %s {a} 0)", "(eo::list_find %s {a} {b})", "(eo::list_rev %s {a})", "(eo::list_setof %s {a})", "(eo::list_minclude %s {a} {b})", "(eo::list_diff %s {a} {b})", "(eo::list_inter %s {a} {b})", "(eo::list_erase %s {a} {b})",
         "(eo::list_erase_all %s {a} {b})", "(eo::list_repeat %s {a} {a})", "(eo::list_meq %s {a} {b})", "(eo::list_singleton_elim %s {a})", "(eo::ite (eo::gt {a} {b}) {p} {q})", "(p$ {a})", "(p2$ {a} {p} {b})", "(_ p2$ {a})", "(pr$ (eo::neg {a}))"]

OPS = set(re.findall(r"eo::[a-z_]+", " ".join(STUCK)))
IMPLICIT = {"eo::nil", "eo::typeof", "eo::list_concat", "eo::list_singleton_elim"}


def ops(t):
    return set(re.findall(r"\((eo::[a-z_]+) ", re.sub(r'"[^"]*"|\|[^|]*\|', '""', t))) & OPS


def stuck(c, k):
    """Terms that do not evaluate: the two printed forms of what is read back
    are those of the term."""
    r = random.Random("%s-c17s-%d" % (c.seed, k))
    w = World(r, True)
    pre = "\n".join(w.decls) + "\n(program p$ ((x Int)) :signature (Int) Int (((p$ 0) 1)))(program p2$ ((x Int)(y Bool)) :signature (Int Bool Int) Int (((p2$ 0 y x) 1)))\n(declare-const z$ Int)(declare-const y$ Int)\n"
    for _ in range(12):
        op = r.choice(w.nary)[0]
        at = lambda: r.choice([w.gen("Int", r.choice([0, 1])), "z$", "y$", w.gen("Bool", 2)])
        v = dict(a=at(), b=at(), p=w.gen("Bool", 1), q=w.gen("Bool", 2))

        def fill(s):
            s = s.replace("%s", "\0o")
            for x in "abpq":
                s = s.replace("{%s}" % x, "\0" + x)
            return re.sub("\0(.)", lambda m: op if m.group(1) == "o" else v[m.group(1)], s)
        t = fill(r.choice(STUCK))
        if r.random() < 0.5:
            v["a"] = t
            t = fill(r.choice(STUCK))
        out = {}
        for dag in ((), ("--no-print-dag",)):
            for i in range(2):
                txt = t if i == 0 else out.get(dag, t)
                f = {"t.eo": pre + "(step s$ true :rule no$ :args (%s))" % txt}
                res = c.run(f, main="t.eo", args=dag, variant="rel")
                m = re.search(r"\nProvided args: \[(.*)\]\n\n\n", err(res), re.S)
                if not m:
                    if res.kind == "crash":
                        c.violation("stuck:crash", "crash on a term", f, args=dag, main="t.eo", observed=res.brief())
                    elif i == 1:
                        c.violation("stuck:read", "a printed term is not read back", f, args=dag, main="t.eo", expected="read as " + t, observed=res.brief() + res.err[-500:])
                    else:
                        c.count("stuck terms given up")
                    break
                if i == 0:
                    out[dag] = m.group(1)
                    had, has = ops(t), ops(m.group(1))
                    # what is not evaluated is printed with its own operator
                    if not has <= had | IMPLICIT or (len(had) == 1 and has - IMPLICIT and not had <= has):
                        c.violation("stuck:operator", "an operator is printed as another one", f, args=dag, main="t.eo", expected=str(sorted(had)), observed=m.group(1))
                        return
                    continue
                c.count("stuck terms read back")
                c.seen((pre, t, dag))
                if m.group(1) != out[dag]:
                    c.violation("stuck:again", "a printed term that is read back is printed differently", f, args=dag, main="t.eo", expected=out[dag], observed=m.group(1))
                    return
            else:
                continue
            break
        if len(out) == 2:
            f = {"t.eo": pre + "(step s$ true :rule no$ :args (%s))" % out[()]}
            res = c.run(f, main="t.eo", args=["--no-print-dag"], variant="rel")
            m = re.search(r"\nProvided args: \[(.*)\]\n\n\n", err(res), re.S)
            if not m or m.group(1) != out[("--no-print-dag",)]:
                c.violation("stuck:sharing", "the text with sharing is not the text without", f, args=["--no-print-dag"], main="t.eo", expected=out[("--no-print-dag",)], observed=m.group(1) if m else res.brief())
                return


def run(c):
    c.need("rel", "dbg")
    c.rule = "a case counts if its world, command and options are new; the checker itself compares what it reads from the printed text with the term as written (rule with a requirement)"
    c.assumptions += ["the checker's comparison of two written terms (decided by C02) is used as the oracle for identity"]
    jobs = [(one, k) for k in range(c.n(110, 6000))] + [(stuck, k) for k in range(c.n(60, 2000))]
    random.Random(c.seed).shuffle(jobs)
    c.ppmap(lambda j: j[0](c, j[1]), jobs)
