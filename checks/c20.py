"""C20: programs, rules and declarations are accepted exactly when well formed.

Random well formed programs (possibly declared ahead), proof rules and
constants are generated together with what their patterns bind. Each must be
accepted; then single faults (a parameter that is not bound, an operator in a
pattern, a case of another symbol or arity, a second definition, ...) are put
at random places of random ones of them, and each must be rejected at the
command that has it."""
import random
import re

PRE = """(declare-const Int Type) (declare-consts <numeral> Int) (declare-const Str Type) (declare-consts <string> Str)
(declare-const U Type) (declare-const Vec (-> Int Type)) (declare-const Pair (-> Type Type Type)) (declare-const Set (-> Type Type))
(declare-const u0 U) (declare-const u1 U) (declare-const b0 Bool) (declare-const b1 Bool) (declare-const v3 (Vec 3))
(declare-const f (-> U U)) (declare-const g (-> U U U)) (declare-const P (-> U Bool)) (declare-const Q (-> U U Bool)) (declare-const not (-> Bool Bool))
(declare-const or (-> Bool Bool Bool) :right-assoc-nil false) (declare-const and (-> Bool Bool Bool) :left-assoc-nil true)
(declare-const xor (-> Bool Bool Bool) :right-assoc) (declare-const cat (-> U U U) :right-assoc-nil u0)
(declare-const + (-> Int Int Int) :right-assoc-nil 0) (declare-const h (-> Int U))
(declare-parameterized-const = ((T Type :implicit)) (-> T T Bool))
(declare-parameterized-const emp ((T Type :implicit)) (Set T)) (declare-parameterized-const sk ((x U :opaque)) (-> U U))
(define TYPE () Type) (declare-const @L Type) (declare-const @nil @L) (declare-parameterized-const @cons ((T Type :implicit)) (-> T @L @L) :right-assoc-nil @nil)
(declare-const forall (-> @L Bool Bool) :binder @cons)
(program $up ((x U)) :signature (U) U ((($up (f x)) x)))
(program $bp ((x Bool) (y Bool)) :signature (Bool Bool) Bool ((($bp (or x y) y) x)))
(program $ip ((n Int)) :signature (Int) Int ((($ip 0) 1)))
"""
SORTS = ["U", "Bool", "Int", "U", "Bool", "Int", "(-> U U)", "Type", "any"]
LIST = {"Bool": ["or", "and"], "U": ["cat"], "Int": ["+"]}
NAMES = ["x", "y", "z", "n", "m", "F", "G", "xs", "tt", "a1", "b_2", "|q r|", "@v", "t$", "X", "Y"]


class Env:
    """Parameters of one command."""

    def __init__(self, r):
        self.r, self.ps, self.free = r, [], list(NAMES)
        r.shuffle(self.free)

    def new(self, ty, lst=False):
        n = self.free.pop() if self.free else "p%d" % len(self.ps)
        self.ps.append((n, ty, lst))
        return n

    def text(self):
        out = []
        for n, ty, lst in self.ps:
            if ty == "any":
                # its type is a parameter of its own
                out.append("(%s Type) (%s %s)" % (tyname(n), n, tyname(n)))
            else:
                out.append("(%s %s%s)" % (n, ty, " :list" if lst else ""))
        return "(%s)" % " ".join(out)


def tyname(n):
    return "|%s T|" % n.strip("|")


class Pat:
    """Builds patterns; bound collects the parameters they bind."""

    def __init__(self, r, env):
        self.r, self.env, self.bound, self.holes = r, env, [], []

    def param(self, ty):
        r = self.r
        c = [n for n, t, l in self.env.ps if t == ty and not l]
        n = r.choice(c) if c and r.random() < 0.5 else self.env.new(ty)
        if n not in self.bound:
            self.bound.append(n)
        return n

    def ground(self, ty):
        r = self.r
        return r.choice({"U": ["u0", "u1", "(f u0)", "(g u0 u1)", "(sk u0 u1)"], "Bool": ["true", "false", "b0", "(P u0)", "(or b0 b1)", "(forall ((x U)) (P x))"],
                         "Int": ["0", "1", "-5", "(+ 1 2)"], "(-> U U)": ["f", "(g u0)", "(sk u0)"], "Type": ["U", "Bool", "Int", "(Vec 3)", "(Pair U Int)", "(-> U Bool)"],
                         "any": ["u0", "true", "7", "f", "\"s\"", "(as emp (Set Int))", "v3"]}[ty])

    def gen(self, ty, d, hole=False):
        """hole: leave a mark @@ where a subterm of type ty may be replaced."""
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.2:
            return self.param(ty) if r.random() < 0.7 else self.ground(ty)
        s = self.gen
        if ty == "U":
            q = r.randint(0, 6)
            if q == 0:
                return "(%s %s)" % (r.choice(["f", "_ f", "sk u0", "g u1"]), s("U", d - 1))
            if q == 1:
                return "(g %s %s)" % (s("U", d - 1), s("U", d - 1))
            if q == 2:
                return "(sk %s %s)" % (s("U", d - 1), s("U", d - 1))
            if q == 3:
                return "(cat %s)" % " ".join(s("U", d - 1) for _ in range(r.randint(1, 4)))
            if q == 4:
                return "(h %s)" % s("Int", d - 1)
            if q == 5:
                return "(_ %s %s)" % (s("(-> U U)", d - 1), s("U", d - 1))
            return "(cat %s%s)" % ("".join(s("U", d - 1) + " " for _ in range(r.randint(1, 3))), self.lst("U"))
        if ty == "Bool":
            q = r.randint(0, 8)
            if q == 0:
                return "(P %s)" % s("U", d - 1)
            if q == 1:
                return "(Q %s %s)" % (s("U", d - 1), s("U", d - 1))
            if q == 2:
                return "(not %s)" % s("Bool", d - 1)
            if q == 3:
                return "(%s %s)" % (r.choice(["or", "and"]), " ".join(s("Bool", d - 1) for _ in range(r.randint(1, 5))))
            if q == 4:
                return "(xor %s)" % " ".join(s("Bool", d - 1) for _ in range(r.randint(2, 4)))
            if q == 5:
                t = r.choice(["U", "Bool", "Int"])
                return "(= %s %s)" % (s(t, d - 1), s(t, d - 1))
            if q == 6:
                return "(forall ((%s U)) %s)" % (r.choice(["w", "w1"]), s("Bool", d - 1))
            if q == 7:
                return "(or %s%s)" % ("".join(s("Bool", d - 1) + " " for _ in range(r.randint(1, 3))), self.lst("Bool"))
            return "(and %s%s)" % (self.lst("Bool"), "".join(" " + s("Bool", d - 1) for _ in range(r.randint(1, 3))))
        if ty == "Int":
            q = r.randint(0, 1)
            if q:
                return "(+ %s)" % " ".join(s("Int", d - 1) for _ in range(r.randint(1, 3)))
            return "(+ %s%s)" % ("".join(s("Int", d - 1) + " " for _ in range(r.randint(1, 2))), self.lst("Int"))
        if ty == "(-> U U)":
            return "(%s %s)" % (r.choice(["g", "sk"]), s("U", d - 1))
        if ty == "Type":
            q = r.randint(0, 3)
            if q == 0:
                return "(Vec %s)" % s("Int", 0)
            if q == 1:
                return "(Pair %s %s)" % (s("Type", d - 1), s("Type", d - 1))
            if q == 2:
                return "(-> %s %s)" % (s("Type", d - 1), s("Type", d - 1))
            return "(Set %s)" % s("Type", d - 1)
        return s(r.choice(["U", "Bool", "Int", "(-> U U)", "Type"]), d)

    def lst(self, ty):
        n = self.env.new(ty, True)
        self.bound.append(n)
        return n


def rhs(r, env, names, ty, d, progs=True):
    """A right hand side over the parameters in names."""
    tys = {n: t for n, t, l in env.ps}
    if not names and d > 1:
        d = 1

    def leaf(ty):
        c = [n for n in names if tys[n] == ty or ty == "any"]
        if c and r.random() < 0.8:
            return r.choice(c)
        return {"U": "u0", "Bool": "b0", "Int": "3", "any": "u1"}[ty]

    def go(ty, d):
        k = r.random()
        if d <= 0:
            return leaf(ty)
        if k < 0.1:
            t = r.choice(["Bool", "U", "Int"])
            return "(eo::ite (eo::eq %s %s) %s %s)" % (go(t, d - 1), go(t, d - 1), go(ty, d - 1), go(ty, d - 1))
        if k < 0.2:
            t = r.choice(["Bool", "U", "Int"])
            return "(eo::requires %s %s %s)" % (go(t, d - 1), go(t, d - 1), go(ty, d - 1))
        if k < 0.28:
            t = r.choice(["Bool", "U", "Int"])
            b = go(ty, d - 1)
            return "(eo::define ((dd %s)) %s)" % (go(t, d - 1), "(eo::requires dd dd %s)" % b if r.random() < 0.5 else b)
        if ty == "U":
            return r.choice([lambda: "(f %s)" % go("U", d - 1), lambda: "(g %s %s)" % (go("U", d - 1), go("U", d - 1)), lambda: "($up %s)" % go("U", d - 1) if progs else leaf("U"),
                             lambda: "(cat %s %s)" % (go("U", d - 1), go("U", d - 1)), lambda: "(eo::list_nth cat %s %s)" % (go("U", d - 1), go("Int", 0)), lambda: "(sk %s %s)" % (go("U", d - 1), go("U", 0)),
                             lambda: "(h %s)" % go("Int", d - 1)])()
        if ty == "Bool":
            return r.choice([lambda: "(P %s)" % go("U", d - 1), lambda: "(or %s %s %s)" % (go("Bool", d - 1), go("Bool", d - 1), go("Bool", 0)), lambda: "($bp %s %s)" % (go("Bool", d - 1), go("Bool", d - 1)) if progs else leaf("Bool"),
                             lambda: "(eo::not %s)" % go("Bool", d - 1), lambda: "(eo::is_ok %s)" % go("any", 0), lambda: "(= %s %s)" % (go("Int", d - 1), go("Int", d - 1)),
                             lambda: "(eo::list_concat or %s %s)" % (go("Bool", d - 1), go("Bool", d - 1)), lambda: "(forall ((w U)) (Q w %s))" % go("U", d - 1), lambda: "(not %s)" % go("Bool", d - 1)])()
        if ty == "Int":
            return r.choice([lambda: "(eo::add %s %s)" % (go("Int", d - 1), go("Int", d - 1)), lambda: "(+ %s %s)" % (go("Int", d - 1), go("Int", d - 1)), lambda: "($ip %s)" % go("Int", d - 1) if progs else leaf("Int"),
                             lambda: "(eo::list_len or %s)" % go("Bool", d - 1)])()
        return leaf(ty)
    return go(ty, d)


# an operator application that does not evaluate when it is read
def stuck(r, ty, n):
    """n: a parameter (of any type), or None."""
    x = n or "(eo::add 1 \"s\")"
    gen = ["(eo::ite %s %s %s)", "(eo::requires %s %s %s)"]
    g = {"U": "u1", "Bool": "b1", "Int": "2"}.get(ty, "u0")
    out = [gen[0] % ("(eo::is_eq %s u1)" % x, g, g) if n else gen[0] % (x, g, g), gen[1] % (x, "u1", g)]
    if ty == "U":
        out += ["($up %s)" % (n or "u0"), "(eo::list_rev cat %s)" % x, "(f ($up %s))" % (n or "u0"), "(g u0 (eo::cons cat u1 %s))" % x]
    if ty == "Bool":
        out += ["(eo::not %s)" % x, "($bp %s b0)" % x, "(not (eo::and %s true))" % x, "(eo::list_concat or %s b0)" % x, "(or b0 (eo::eq %s b0) b1)" % x]
    if ty == "Int":
        out += ["(eo::add %s 1)" % x, "(eo::len %s)" % x, "($ip %s)" % x, "(eo::neg %s)" % x, "(+ 1 (eo::mul %s 2))" % x]
    return r.choice(out)


class Prog:
    def __init__(self, r, name):
        self.r, self.name = r, name
        self.env = Env(r)
        self.args = [r.choice(SORTS) for _ in range(r.choice([1, 1, 2, 2, 3, 4, 6]))]
        self.ret = r.choice(["U", "Bool", "Int"])
        self.sig = [("S%d" % i if t == "any" else t) for i, t in enumerate(self.args)]
        self.cases = []
        for _ in range(r.choice([1, 1, 2, 3, 4, 7])):
            p = Pat(r, self.env)
            pats = [p.gen(t, r.choice([0, 1, 2, 3])) for t in self.args]
            self.cases.append([name, pats, None, p.bound])
        for c in self.cases:
            c[2] = rhs(r, self.env, c[3], self.ret, r.choice([0, 1, 2, 3])) if r.random() < 0.85 else self.call(c)

    def call(self, c):
        return "(%s %s)" % (self.name, " ".join(rhs(self.r, self.env, c[3], t, 1) if t in ("U", "Bool", "Int", "any") else self.ground(t) for t in self.args))

    def ground(self, t):
        return {"(-> U U)": "f", "Type": "U"}[t]

    def decl(self, sig=None, ret=None):
        ps = "".join("(S%d Type)" % i for i, t in enumerate(self.args) if t == "any")
        return "(program %s (%s) :signature (%s) %s)" % (self.name, ps, " ".join(sig or self.sig), ret or self.ret)

    def text(self, cases=None, sig=None, ret=None):
        ps = self.env.text()[1:]
        ps = "(" + "".join("(S%d Type) " % i for i, t in enumerate(self.args) if t == "any") + ps
        cs = " ".join("((%s%s) %s)" % (h, "".join(" " + p for p in pats), t) for h, pats, t, _ in (self.cases if cases is None else cases))
        return "(program %s %s :signature (%s) %s (%s))" % (self.name, ps, " ".join(self.sig if sig is None else sig), self.ret if ret is None else ret, cs)

    def faults(self):
        """(text, what) of this program with one fault."""
        r = self.r
        out = []
        k = r.randrange(len(self.cases))

        def put(case, **kw):
            return self.text(self.cases[:k] + [case] + self.cases[k + 1:], **kw)
        h, pats, t, bound = self.cases[k]
        # a parameter that this case does not bind (but perhaps another does)
        others = [(n, ty, l) for n, ty, l in self.env.ps if n not in bound]
        ty = r.choice(["U", "Bool", "Int"])
        if others and r.random() < 0.7:
            n, ty, l = r.choice(others)
            w = "a parameter bound by another case only"
        else:
            n = self.env.new(ty)
            w = "a parameter bound by no case"
        anyb = [m for m, t2, l in self.env.ps if m in bound and t2 == "any"]
        if anyb and r.random() < 0.3:
            n, ty, w = tyname(r.choice(anyb)), "Type", "a parameter of the type of a bound one only"
        out.append((put((h, pats, under(r, self.env, bound, self.ret, n, ty), bound)), w + " in a right hand side"))
        # an operator in a pattern
        j = r.randrange(len(pats))
        a = self.args[j]
        if a in ("U", "Bool", "Int", "any"):
            b = r.choice(["U", "Bool", "Int"]) if a == "any" else a
            m = r.choice(bound) if bound and r.random() < 0.8 else None
            if m is None or not any(x == m and l for x, _, l in self.env.ps):
                s = deep(r, self.env, b, stuck(r, b, m), r.choice([0, 0, 1, 2]))
                out.append((put((h, pats[:j] + [s] + pats[j + 1:], t, bound)), "an operator in a pattern"))
        if a in ("Bool", "U", "Int"):
            op = r.choice(LIST[a])
            p1, p2 = self.env.new(a, True), self.env.new(a)
            s = r.choice(["(%s %s %s)" % ((op, p1, p2) if op != "and" else (op, p2, p1)), "(%s %s %s)" % (op, p1, p1)])
            out.append((put((h, pats[:j] + [deep(r, self.env, a, s, r.choice([0, 0, 1]))] + pats[j + 1:], t, bound)), "a list parameter that is not last in a pattern"))
        # heads and arities
        o = {"U": "$up", "Int": "$ip"}.get(self.args[0], "$bp")
        out.append((put((r.choice([o, "f", "P", "g", "$bp", "or", "not"]), pats, t, bound)), "a case of another symbol"))
        if r.random() < 0.5 and len(pats) > 1:
            out.append((put((h, pats[:j] + pats[j + 1:], t, [])), "a case with an argument less"))
        else:
            out.append((put((h, pats[:j] + [r.choice(["u0", "b0", "0", pats[j]])] + pats[j:], t, bound)), "a case with an argument more"))
        out.append(("(program %s %s :signature (%s) %s (%s))" % (self.name, "(" + "".join("(S%d Type) " % i for i, t2 in enumerate(self.args) if t2 == "any") + self.env.text()[1:], " ".join(self.sig), self.ret, r.choice(["", "(%s u0)" % r.choice(["u0", "b0", self.name, "(f u0)"])])),
                    "no application of the program as case"))
        out.append((self.text(sig=[], cases=[(self.name, [], "u0", [])]), "no arguments"))
        bad = r.choice(["u0", "(f u0)", "Vec", "(Vec u0)", "3", "f", "Pair", "(Pair U)", "nope", "(eo::add 1 \"s\")"])
        s2 = list(self.sig)
        s2[j] = bad
        if r.random() < 0.6:
            out.append((self.text(sig=s2), "an argument that is not a type"))
        else:
            out.append((self.text(ret=bad), "a return type that is not a type"))
        q, T = self.env.new("U"), self.env.new("Type")
        out.append((self.text(sig=[("(eo::quote %s)" % r.choice(["U", "u0", "0", "(f u0)", "f", "(f %s)" % q, "(-> %s %s)" % (T, T), "(eo::len %s)" % q, "(Set %s)" % T])) if i == j else x for i, x in enumerate(self.sig)]), "eo::quote of something that is no parameter"))
        return out


def deep(r, env, ty, s, d):
    for _ in range(d):
        if ty == "U":
            s = r.choice(["(f %s)", "(g u0 %s)", "(g %s u1)", "(cat u1 %s u0)", "(sk u0 %s)", "(_ f %s)"]) % s
        elif ty == "Bool":
            s = r.choice(["(not %s)", "(or b0 %s b1)", "(and %s b1)", "(xor b0 %s)", "(= %s b1)", "(forall ((w U)) %s)"]) % s
        else:
            s = r.choice(["(+ %s 1)", "(+ 1 2 %s)"]) % s
    return s


def under(r, env, bound, ret, n, ty):
    """A right hand side (of type ret, roughly) that has the parameter n."""
    k = r.random()
    oth = lambda t: rhs(r, env, bound, t, r.choice([0, 1]))
    core = n
    if ty == ret and k < 0.25:
        return n
    if k < 0.4:
        w = "(eo::ite (eo::is_eq %s %s) %s %s)" % (core, oth("any"), oth(ret), oth(ret))
    elif k < 0.5:
        w = "(eo::requires %s %s %s)" % (oth("Bool"), core, oth(ret))
    elif k < 0.6:
        w = "(eo::requires %s %s %s)" % (core, core, oth(ret))
    elif k < 0.7:
        w = "(eo::ite (eo::eq %s %s) %s %s)" % (oth("U"), oth("U"), core, core)
    elif k < 0.8:
        w = "(eo::define ((dd %s)) (eo::requires dd dd %s))" % (core, oth(ret))
    elif k < 0.9:
        w = {"U": "(g %s (_ f %s))", "Bool": "(Q %s (f %s))", "Int": "(eo::add %s (+ 1 %s))"}[ret] % (oth({"Int": "Int"}.get(ret, "U")), core)
    else:
        w = {"U": "(sk %s %s)", "Bool": "(= %s %s)", "Int": "(+ %s (eo::len %s))"}[ret] % ((core, oth("U")) if ret == "U" else (oth("Bool") if ret == "Bool" else oth("Int"), core))
    return deep(r, env, ret, w, r.choice([0, 0, 1]))


class Rule:
    def __init__(self, r, name):
        self.r, self.name = r, name
        self.env = Env(r)
        p = Pat(r, self.env)
        self.assumption = p.gen("Bool", r.choice([0, 1, 2])) if r.random() < 0.2 else None
        self.premises = self.plist = None
        k = r.random()
        if k < 0.5:
            self.premises = [p.gen("Bool", r.choice([0, 1, 2])) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
        elif k < 0.62:
            self.plist = (p.gen("Bool", r.choice([0, 1, 2])), r.choice(["or", "and"]))
        self.args = [p.gen(r.choice(SORTS), r.choice([0, 1, 2])) for _ in range(r.choice([0, 1, 2, 4]))] if r.random() < 0.75 else None
        self.explicit = r.random() < 0.2
        self.conc = p.gen("Bool", r.choice([0, 1, 2])) if self.explicit else None
        self.bound = p.bound
        if not any([self.assumption, self.premises, self.plist, self.args, self.explicit]):
            self.args = [p.param("Bool")]
        self.reqs = [(rhs(r, self.env, self.bound, t, r.choice([0, 1, 2])), rhs(r, self.env, self.bound, t, r.choice([0, 1])))
                     for t in (r.choice(["U", "Bool", "Int"]) for _ in range(r.choice([0, 1, 2, 3])))] if r.random() < 0.5 else None
        if not self.explicit:
            self.conc = rhs(r, self.env, self.bound, "Bool", r.choice([0, 1, 2, 3]))
        self.attr = r.choice(["", "", " :sorry"])

    def text(self, **kw):
        g = lambda n: kw[n] if n in kw else getattr(self, n)
        s = "(declare-rule %s %s" % (self.name, self.env.text())
        if g("assumption"):
            s += " :assumption " + g("assumption")
        if g("plist"):
            s += " :premise-list %s %s" % g("plist")
        elif g("premises") is not None:
            s += " :premises (%s)" % " ".join(g("premises"))
        if g("args") is not None:
            s += " :args (%s)" % " ".join(g("args"))
        if g("reqs") is not None:
            s += " :requires (%s)" % " ".join("(%s %s)" % p for p in g("reqs"))
        return s + " :conclusion%s %s%s)" % ("-explicit" if self.explicit else "", g("conc"), self.attr)

    def faults(self):
        r, env, out = self.r, self.env, []
        ty = r.choice(["U", "Bool", "Int"])
        n = env.new(ty)
        w = "a parameter bound by no pattern"
        anyb = [m for m, t2, l in env.ps if m in self.bound and t2 == "any"]
        if anyb and r.random() < 0.3:
            n, ty, w = tyname(r.choice(anyb)), "Type", "a parameter of the type of a bound one only"
        if not self.explicit:
            out.append((self.text(conc=under(r, env, self.bound, "Bool", n, ty)), w + " in a conclusion"))
        rq = list(self.reqs or [])
        k = r.randint(0, len(rq))
        t = r.choice(["U", "Bool", "Int"])
        bad = (under(r, env, self.bound, t, n, ty), rhs(r, env, self.bound, t, 1))
        rq.insert(k, bad if r.random() < 0.5 else bad[::-1])
        out.append((self.text(reqs=rq), w + " in a requirement"))
        m = r.choice(self.bound) if self.bound and r.random() < 0.8 else None
        if m is not None and any(x == m and l for x, _, l in env.ps):
            m = None
        if r.random() < 0.4:
            p1, p2 = env.new("Bool", True), env.new("Bool")
            s = deep(r, env, "Bool", r.choice(["(or %s %s)" % (p1, p2), "(and %s %s)" % (p2, p1), "(or %s %s)" % (p1, p1)]), r.choice([0, 0, 1]))
            w = "a list parameter that is not last"
        else:
            s = deep(r, env, "Bool", stuck(r, "Bool", m), r.choice([0, 0, 1, 2]))
            w = "an operator"
        if self.args:
            j = r.randrange(len(self.args))
            out.append((self.text(args=self.args[:j] + [s] + self.args[j:]), w + " in an argument pattern"))
        if self.premises:
            j = r.randrange(len(self.premises))
            out.append((self.text(premises=self.premises[:j] + [s] + self.premises[j:]), w + " in a premise pattern"))
        if self.plist:
            out.append((self.text(plist=(s, self.plist[1])), w + " in a premise list pattern"))
        if self.assumption:
            out.append((self.text(assumption=s), w + " in an assumption pattern"))
        if self.explicit:
            out.append((self.text(conc=s), w + " in an explicit conclusion"))
        return out


ATTRS = [":right-assoc", ":left-assoc", ":right-assoc-nil true", ":left-assoc-nil b0", ":right-assoc-non-singleton-nil false", ":left-assoc-non-singleton-nil true",
         ":chainable and", ":pairwise and", ":arg-list @cons"]


def const(r, name):
    """A constant with attributes and its faults: (text, [(bad text, what)])."""
    k = r.random()
    if k < 0.35:
        a, b = r.sample(ATTRS, 2)
        ok = "(declare-const %s (-> Bool Bool Bool) %s)" % (name, a)
        return ok, [("(declare-const %s (-> Bool Bool Bool) %s %s)" % (name, a, r.choice([a, b])), "two attributes of one constant"),
                    ("(declare-const %s %s %s)" % (name, r.choice(["u0", "(f u0)", "Vec", "(Vec U)", "or", "1"]), a), "a type that is not a type")]
    n = r.randint(1, 4)
    ps = [("y%d" % i, r.choice(["U", "Int", "Bool", "(Set U)", "Type", "(Vec 2)"])) for i in range(n)]
    cut = r.randint(1, n)
    ret = r.choice(["U", "Bool", "(-> U Bool)"])
    pt = lambda marks: " ".join("(%s %s%s)" % (p, t, " :opaque" if i in marks else "") for i, (p, t) in enumerate(ps))
    ok = "(declare-parameterized-const %s (%s) %s)" % (name, pt(range(cut)), ret)
    out = []
    if n > 1:
        bad = set(range(r.randint(1, n - 1), n)) - ({n - 1} if r.random() < 0.3 and n > 2 else set())
        if bad and 0 not in bad:
            # an ordinary argument precedes an opaque one
            out.append(("(declare-parameterized-const %s (%s) %s)" % (name, pt(bad), ret), "an opaque argument after an ordinary one"))
    out.append(("(declare-parameterized-const %s (%s) (-> U U U) %s)" % (name, pt(range(cut)), r.choice([":right-assoc", ":left-assoc-nil u0", ":chainable and"])), "an attribute of a constant with opaque arguments"))
    out.append(("(declare-parameterized-const %s (%s) %s)" % (name, pt(()), r.choice(["u0", "(f u0)", "Vec", "(Vec U)", "y9"])), "a type that is not a type"))
    return ok, out


def body(r, name):
    """Definitions."""
    n = r.choice(["x", "n", "F"])
    ok = "(define %s ((T Type :implicit) (%s T) (k U)) %s)" % (name, n, r.choice(["(= %s %s)" % (n, n), n, "(@cons %s k)" % n, "(f k)"]))
    t = r.choice(["T", "(Set T)", "(= T T)", "(eo::is_eq T U)", "(as emp (Set T))", "(forall ((w T)) b0)", "(eo::ite (eo::eq k u0) k T)"])
    return ok, [("(define %s ((T Type :implicit) (%s T) (k U)) %s)" % (name, n, t), "an implicit parameter in the body of a definition")]


def one(c, i):
    r = random.Random("%s-c20-%d" % (c.seed, i))
    mode = r.choice(["t.eo", "t.eo", "t.smt2", "", "inc"])
    lines, probes, names = ['(include "pre.eo")'], [], []
    ahead = []
    for j in range(r.choice([2, 3, 5, 8])):
        k = r.random()
        nm = r.choice(["$p%d", "$prog.%d", "|a b%d|", "q%d"]) % j
        if k < 0.45:
            p = Prog(r, nm)
            if r.random() < 0.35:
                # declared ahead, with the type parameters spelled by the definition
                if not any(t == "any" for t in p.args):
                    lines.append(p.decl())
                    ahead.append(p)
                    c.count("declared ahead")
                    s2 = list(p.sig)
                    q = r.randrange(len(s2))
                    s2[q] = r.choice([x for x in ["U", "Bool", "Int", "(-> U U)", "Type", "(Vec 3)"] if x != s2[q]])
                    if r.random() < 0.5:
                        probes.append((len(lines), p.text(sig=s2), "a definition with other argument types than declared"))
                    else:
                        probes.append((len(lines), p.text(ret=r.choice([x for x in ["U", "Bool", "Int"] if x != p.ret])), "a definition with another return type than declared"))
            at = len(lines)
            # (the faults add parameters that nothing uses to the text)
            fs = p.faults()
            lines.append(p.text())
            for t, w in fs:
                probes.append((at, t, w))
            probes.append((len(lines), p.text(), "a second definition"))
            probes.append((len(lines), "(declare-const zz%d U) (program zz%d ((x U)) :signature (U) U (((zz%d x) x)))" % (j, j, j), "a program named as a constant"))
            c.count("programs")
        elif k < 0.8:
            p = Rule(r, nm)
            at = len(lines)
            fs = p.faults()
            lines.append(p.text())
            for t, w in fs:
                probes.append((at, t, w))
            c.count("rules")
        else:
            t, fs = (const if r.random() < 0.7 else body)(r, nm)
            at = len(lines)
            lines.append(t)
            for t, w in fs:
                probes.append((at, t, w))
            c.count("constants and definitions")

    def run(lines, variant):
        text = "\n".join(lines) + "\n"
        files = {"pre.eo": PRE}
        main = mode
        if mode == "inc":
            files["i.eo"] = text
            files["t.eo"], main = '(include "i.eo")\n', "t.eo"
        if main:
            if mode != "inc":
                files[main] = text
            return c.run(files, main=main, variant=variant), files, None
        return c.run(files, main=None, stdin=text, variant=variant), files, text
    if mode in ("", "t.smt2"):
        # Type is only read in signature files
        lines = lines[:1] + [ty(x) for x in lines[1:]]
        probes = [(a, ty(t), w) for a, t, w in probes]
    fname = {"": "stream", "inc": "i.eo"}.get(mode, mode)
    res, fs, stdin = run(lines, r.choice(["rel", "dbg", "san"]) if i % 6 == 0 else "rel")
    c.seen((mode, tuple(lines)))
    c.sample("\n".join(lines)[:1500])
    if res.kind != "correct":
        c.violation("wellformed", "a well formed declaration is rejected", fs, main="t.eo" if mode == "inc" else mode or None, stdin=stdin, expected="correct", observed=res.brief() + "\n" + res.err[-500:])
        return
    for at, text, what in r.sample(probes, min(len(probes), c.n(12, 25))):
        res, fs, stdin = run(lines[:at] + [text], "rel")
        c.count("must be rejected: " + what)
        c.seen((mode, tuple(lines[:at]), text))
        p = res.pos()
        if res.kind != "reject" or not p or p[1] < at + 1:
            c.violation("malformed:" + what, "must be rejected: " + what, fs, main="t.eo" if mode == "inc" else mode or None, stdin=stdin, expected="rejected: " + text, observed=res.brief())
            return


def ty(s):
    return re.sub(r"(?<![\w|])Type(?![\w|])", "TYPE", s)


def run(c):
    c.need("rel", "dbg", "san")
    c.rule = "a case counts if its commands are new; the oracle is the list of well formedness conditions of the manual, applied to what the generated patterns bind"
    c.assumptions += ["operators that evaluate when the pattern is read, and parameters that occur only in dropped parts of evaluated terms are not judged"]
    c.ppmap(lambda i: one(c, i), range(c.n(2500, 60000)))
