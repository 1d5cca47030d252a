"""C18: define, let and eo::define against their expansion, and the variables
of binders. Random typed terms are written with definitions, bindings and
binders that reuse and shadow a few names; the model keeps, for every name in
scope, what it stands for, and writes the expansion with names that are never
shadowed."""
import arity
import random

PRE = """(define TYPE () Type)(declare-const Int Type)(declare-consts <numeral> Int)(declare-const U Type)(declare-const Seq (-> Type Type))
(declare-const x Int)(declare-const y Int)(declare-const z Int)(declare-const u U)(declare-const v U)(declare-const b Bool)(declare-const c Bool)
(declare-const f (-> Int Int Int))(declare-const g (-> Int Int))(declare-const h (-> U Int Int))(declare-const k (-> Int U))(declare-const p (-> Int Bool))(declare-const q (-> U U Bool))
(declare-const or (-> Bool Bool Bool) :right-assoc-nil false)
(declare-const forall (-> eo::List Bool Bool) :binder eo::List::cons)(declare-const exists (-> eo::List Bool Bool) :binder eo::List::cons)(declare-const eps (-> eo::List Bool Int) :binder eo::List::cons)
(declare-parameterized-const eqq ((T Type :implicit)) (-> T T Bool))(declare-parameterized-const wrap ((T Type :implicit)) (-> T (Seq T)))(declare-parameterized-const unw ((T Type :implicit)) (-> (Seq T) T))
(declare-parameterized-const = ((A Type :implicit) (B Type :implicit)) (-> A B Bool))(declare-parameterized-const lambda ((T Type :implicit)) (-> eo::List T T) :binder eo::List::cons)
(declare-parameterized-const emp ((T Type :implicit)) (Seq T))
(declare-rule chk ((T Type)(W Type)(t T)(u W)) :args (t u) :requires ((t u)) :conclusion true)
(declare-rule triv ((t Bool)) :args (t) :conclusion t)
"""
CONSTS = {"x": "Int", "y": "Int", "z": "Int", "u": "U", "v": "U", "b": "Bool", "c": "Bool",
          "f": ("->", ("Int", "Int"), "Int"), "g": ("->", ("Int",), "Int"), "h": ("->", ("U", "Int"), "Int"), "k": ("->", ("Int",), "U"), "p": ("->", ("Int",), "Bool"), "q": ("->", ("U", "U"), "Bool")}
BINDERS = {"forall": "Bool", "exists": "Bool", "eps": "Int"}
T = ("tv", 0)
POLY = {"eqq": ((T, T), "Bool"), "wrap": ((T,), ("Seq", T)), "unw": ((("Seq", T),), T)}
ALIASES = "".join("(define K_%s () %s)" % (n, n) for n in list(CONSTS) + list(BINDERS) + list(POLY) + ["or", "emp", "Int", "U", "Seq", "=", "lambda"]) + "\n"
POOL = ["x", "y", "z", "u", "v", "b", "c", "f", "g", "h", "k", "p", "q", "or", "forall", "exists", "eps", "eqq", "wrap", "Int", "U", "Seq", "w", "w2", "emp", "unw", "|a b|", "d1", "d2", "d3", "variable_1", "variable_2", "a_rather_long_variable_name_1", "a_rather_long_variable_name_2"]
LIKELY = ["x", "y", "z", "u", "b", "w", "f", "p", "d1", "variable_1", "variable_2"]


class Fail(Exception):
    pass


# --- types: "Int", "U", "Bool", ("Seq", t), ("->", (ts), t), ("tv", i)

def fn(ts, r):
    ts = tuple(ts)
    if not ts:
        return r
    return ("->", ts + r[1], r[2]) if r[0] == "->" else ("->", ts, r)


def tsubst(t, s):
    if isinstance(t, str):
        return t
    if t[0] == "tv":
        return s.get(t, t)
    if t[0] == "Seq":
        return ("Seq", tsubst(t[1], s))
    return fn([tsubst(a, s) for a in t[1]], tsubst(t[2], s))


def tmatch(p, t, s):
    if isinstance(p, str):
        return p == t
    if p[0] == "tv":
        return s.setdefault(p, t) == t
    if isinstance(t, str) or p[0] != t[0]:
        return False
    if p[0] == "Seq":
        return tmatch(p[1], t[1], s)
    return len(p[1]) == len(t[1]) and all(tmatch(a, c, s) for a, c in zip(p[1], t[1])) and tmatch(p[2], t[2], s)


def tpure(t):
    if isinstance(t, str):
        return "Bool" if t == "Bool" else "K_" + t
    if t[0] == "tv":
        raise Fail
    if t[0] == "Seq":
        return "(K_Seq %s)" % tpure(t[1])
    return "(-> %s %s)" % (" ".join(tpure(a) for a in t[1]), tpure(t[2]))


# --- terms: ("c", name), ("n", k), ("true",), ("v", name, type), ("a", f, args),
# ("or", a, b), ("q", binder, vars, body), ("emp", type), ("h", i), ("ite", a, b, s, t), ("add", a, k)

def holes(a):
    if isinstance(a, tuple):
        return a[:1] in (("h",), ("tv",)) or any(holes(x) for x in a)
    return False


def adds(a):
    return isinstance(a, tuple) and (a[:1] == ("add",) or any(adds(x) for x in a))


def mk(a):
    """Evaluate the node."""
    if a[0] == "ite" and not holes(a[1]) and not holes(a[2]):
        return a[3] if a[1] == a[2] else a[4]
    if a[0] == "add" and not holes(a[1]):
        if a[1][0] != "n":
            raise Fail
        return ("n", a[1][1] + a[2])
    if a[0] == "a" and a[1][0] == "a":
        return ("a", a[1][1], a[1][2] + a[2])
    return a


def subst(a, s, ts):
    k = a[0]
    if k == "h":
        return s.get(a, a)
    if k in ("c", "n", "true", "false"):
        return a
    if k == "v":
        return ("v", a[1], tsubst(a[2], ts))
    if k == "emp":
        return ("emp", tsubst(a[1], ts))
    if k == "q":
        return ("q", a[1], tuple(subst(x, s, ts) for x in a[2]), subst(a[3], s, ts))
    if k == "a":
        return mk(("a", subst(a[1], s, ts), tuple(subst(x, s, ts) for x in a[2])))
    if k == "add":
        return mk(("add", subst(a[1], s, ts), a[2]))
    return mk((k,) + tuple(subst(x, s, ts) for x in a[1:]))


def pure(a):
    k = a[0]
    if k == "c":
        return "K_" + a[1] if a[1] in CONSTS or a[1] in POLY else a[1]
    if k == "n":
        return str(a[1])
    if k in ("true", "false"):
        return k
    if k == "v":
        return '(eo::var "%s" %s)' % (a[1], tpure(a[2]))
    if k == "a":
        return "(_ %s %s)" % (pure(a[1]), " ".join(pure(x) for x in a[2]))
    if k == "or":
        return "(_ K_or %s %s)" % (pure(a[1]), pure(a[2]))
    if k == "q":
        return "(_ K_%s (eo::List::cons %s) %s)" % (a[1], " ".join(pure(x) for x in a[2]), pure(a[3]))
    if k == "emp":
        return "(as K_emp (K_Seq %s))" % tpure(a[1])
    raise Fail


def mutate(a, r):
    """A different term."""
    paths = []

    def walk(n, path):
        if n[0] in ("c", "v", "n", "true", "false", "emp"):
            paths.append((path, n))
        elif n[0] == "a":
            walk(n[1], path + ((1,),))
            for i, x in enumerate(n[2]):
                walk(x, path + ((2, i),))
        elif n[0] == "or":
            walk(n[1], path + ((1,),))
            walk(n[2], path + ((2,),))
        elif n[0] == "q":
            paths.append((path, n))
            for i, x in enumerate(n[2]):
                walk(x, path + ((2, i),))
            walk(n[3], path + ((3,),))

    def put(n, path, new):
        if not path:
            return new
        p, n = path[0], list(n)
        if len(p) == 1:
            n[p[0]] = put(n[p[0]], path[1:], new)
        else:
            xs = list(n[p[0]])
            xs[p[1]] = put(xs[p[1]], path[1:], new)
            n[p[0]] = tuple(xs)
        return tuple(n)
    walk(a, ())
    # variables and constants that are easily confused first
    near = [(p, n) for p, n in paths if n[0] == "v" or n[0] == "c" and n[1] in CONSTS]
    path, n = r.choice(near if near and r.random() < 0.8 else paths)
    if n[0] == "v":
        m = r.random()
        if m < 0.6 and CONSTS.get(n[1]) == n[2]:
            new = ("c", n[1])
        elif m < 0.8:
            new = ("v", n[1] + "'", n[2])
        else:
            new = ("v", n[1], "U" if n[2] != "U" else "Int")
    elif n[0] == "c" and n[1] in CONSTS:
        others = [m for m in CONSTS if CONSTS[m] == CONSTS[n[1]] and m != n[1]]
        new = ("v", n[1], CONSTS[n[1]]) if not others or r.random() < 0.5 else ("c", r.choice(others))
    elif n[0] == "n":
        new = ("n", n[1] + 1)
    elif n[0] == "q":
        new = ("q", r.choice([q for q in BINDERS if q != n[1]]), n[2], n[3]) if r.random() < 0.5 else ("q", n[1], n[2] + n[2][:1], n[3])
    elif n[0] in ("true", "false"):
        new = ("false",) if n[0] == "true" else ("true",)
    else:
        new = ("c", "x")
    return put(a, path, new)


def plain(n):
    return n.strip("|")


class Gen:
    def __init__(self, r):
        self.r = r
        self.nh = 0
        self.let = ["eo::define"]
        self.k = 0
        self.inner = 0       # in a place whose value may be dropped
        self.feat = set()

    def word(self, n):
        """A spelling of the symbol."""
        return "|%s|" % n if n[0] != "|" and self.r.random() < 0.05 else n

    def fresh(self):
        self.nh += 1
        return self.nh

    def names(self, env, want):
        return [n for n, e in env.items() if want(e)]

    # --- types
    def rtype(self, env, depth=2):
        """A random type that can be written in the environment."""
        r = self.r
        m = r.random()
        known = [e[1] for e in env.values() if e[0] == "type"] + ["Bool"]
        if depth == 0 or m < 0.6:
            return r.choice(known)
        if m < 0.75 and "Seq" in env and env["Seq"][0] == "Seq":
            return ("Seq", self.rtype(env, depth - 1))
        if m < 0.9:
            return fn([self.rtype(env, 0) for _ in range(r.choice([1, 1, 2]))], self.rtype(env, 0))
        ms = [e for e in env.values() if e[0] == "tmacro"]
        if ms:
            e = r.choice(ms)
            return tsubst(e[2], {v: self.rtype(env, depth - 1) for v in e[1]})
        return r.choice(known)

    def type(self, t, env):
        """Write the type."""
        r = self.r
        ns = self.names(env, lambda e: e[0] == "type" and e[1] == t)
        if t == "Bool":
            ns = ns + ["Bool"]
        if ns and r.random() < 0.9:
            n = r.choice(ns)
            return n if n == "Bool" else self.word(n)
        if r.random() < 0.5:
            for n in r.sample(list(env), len(env)):
                e = env[n]
                if e[0] == "tmacro":
                    s = {}
                    if tmatch(e[2], t, s) and len(s) == len(e[1]):
                        self.feat.add("type macro")
                        return "(%s %s)" % (n, " ".join(self.type(s[x], env) for x in e[1]))
        if r.random() < 0.1:
            # a binding in a type
            n = r.choice(POOL)
            e2 = dict(env)
            t2 = self.rtype(env, 1)
            e2[n] = ("type", t2)
            self.feat.add("let in a type")
            return "(%s ((%s %s)) %s)" % (r.choice(self.let), n, self.type(t2, env), self.type(t, e2))
        if ns:
            return ns[0]
        if isinstance(t, str) or t[0] == "tv":
            raise Fail
        if t[0] == "Seq":
            ns = self.names(env, lambda e: e[0] == "Seq")
            if not ns:
                raise Fail
            return "(%s %s)" % (r.choice(ns), self.type(t[1], env))
        xs = [self.type(a, env) for a in t[1]]
        res = self.type(t[2], env)
        if len(xs) > 1 and r.random() < 0.2:
            return "(-> %s (-> %s %s))" % (xs[0], " ".join(xs[1:]), res)
        return "(-> %s %s)" % (" ".join(xs), res)

    # --- terms
    def term(self, t, env, d):
        r = self.r
        cands = []
        for n, e in env.items():
            if e[0] == "term":
                if e[1] == t:
                    # names that were bound again, more often
                    cands += [("name", n)] * (9 if e != BASE.get(n) else 3)
                if d and not isinstance(e[1], str) and e[1][0] == "->":
                    for i in range(1, len(e[1][1]) + 1):
                        if fn(e[1][1][i:], e[1][2]) == t:
                            cands += [("app", n, e[1][1][:i])] * (6 if e != BASE.get(n) else 2)
            elif d and e[0] == "macro":
                if tmatch(e[3], t, {}):
                    cands += [("macro", n)] * 4
            elif d and e[0] == "poly":
                if tmatch(POLY[e[1]][1], t, {}):
                    cands.append(("poly", n))
            elif d and e[0] == "binder":
                if BINDERS[e[1]] == t:
                    cands += [("binder", n)] * 2
            elif d and e[0] == "or" and t == "Bool":
                cands += [("or", n)] * 2
            elif e[0] == "emp" and t[0] == "Seq":
                cands.append(("emp", n))
        if t == "Int":
            cands.append(("num",))
        if t == "Bool":
            cands.append(("bool",))
        if d:
            cands += [("let",)] * max(2, len(cands) // 5)
            cands.append(("ite",))
            if r.random() < 0.3:
                cands.append(("var",))
            if t == "Int":
                cands.append(("add",))
        if not cands:
            raise Fail
        c = r.choice(cands)
        m = c[0]
        if m in ("let", "ite", "macro"):
            self.inner += 1
            try:
                return self.term2(c, t, env, d)
            finally:
                self.inner -= 1
        return self.term2(c, t, env, d)

    def term2(self, c, t, env, d):
        r = self.r
        m = c[0]
        if m == "name":
            return self.word(c[1]), env[c[1]][2]
        if m == "num":
            n = r.randrange(6)
            return str(n), ("n", n)
        if m == "bool":
            n = r.choice(["true", "false"])
            return n, (n,)
        if m == "app":
            args = [self.term(a, env, d - 1) for a in c[2]]
            ts = [a[0] for a in args]
            ast = mk(("a", env[c[1]][2], tuple(a[1] for a in args)))
            x = r.random()
            if x < 0.06:
                return "(_ %s %s)" % (c[1], " ".join(ts)), ast
            if x < 0.1 and len(ts) > 1:
                return "((_ %s %s) %s)" % (c[1], ts[0], " ".join(ts[1:])), ast
            return "(%s %s)" % (self.word(c[1]), " ".join(ts)), ast
        if m == "macro":
            w, a = self.call(c[1], env, d, t)
            if self.inner > 1 and adds(a):
                raise Fail
            return w, a
        if m == "poly":
            ps, res = POLY[env[c[1]][1]]
            s = {}
            tmatch(res, t, s)
            if T not in s:
                s[T] = self.rtype(env, 1)
            args = [self.term(tsubst(a, s), env, d - 1) for a in ps]
            return "(%s %s)" % (c[1], " ".join(a[0] for a in args)), ("a", ("c", env[c[1]][1]), tuple(a[1] for a in args))
        if m == "emp":
            return "(as %s %s)" % (c[1], self.type(t, env)), ("emp", t[1])
        if m == "or":
            n = r.choice([2, 2, 3, 4])
            lists = self.names(env, lambda e: e[0] == "list")
            tail = ("false",)
            ts = []
            if lists and r.random() < 0.7:
                n = r.choice([1, 2])
                l = r.choice(lists)
                tail = env[l][2]
                self.feat.add("list parameter")
                ts = [l]
            args = [self.term("Bool", env, d - 1) for _ in range(n)]
            ast = tail
            for a in reversed(args):
                ast = ("or", a[1], ast)
            return "(%s %s)" % (c[1], " ".join([a[0] for a in args] + ts)), ast
        if m == "binder":
            n = r.choice([1, 1, 1, 2, 2, 3, 3, 7])
            vs, e2, asts = [], dict(env), []
            for _ in range(n):
                x = self.pick()
                vt = self.rtype(env, 1)
                if any(y == x for y, _ in vs):
                    self.feat.add("repeated variable")
                vs.append((x, vt))
            # (a type may not mention a variable of the list)
            names = {x for x, _ in vs}
            e3 = {a: e for a, e in env.items() if a not in names}
            ws = ["(%s %s)" % (self.word(x), self.type(vt, e3)) for x, vt in vs]
            for x, vt in vs:
                asts.append(("v", plain(x), vt))
                e2[x] = ("term", vt, asts[-1])
                if x in env:
                    self.feat.add("variable hides a name")
            body = self.term("Bool", e2, d - 1)
            q = env[c[1]][1]
            ast = ("q", q, tuple(asts), body[1])
            if r.random() < 0.1 and "eo::var" not in body[0]:
                # the list written out
                self.feat.add("variable list")
                e2 = dict(env)
                # the body is written in the same scope, without the binder
                bs = ["(%s (eo::var \"%s\" %s))" % (x, plain(x), self.type(vt, e3)) for x, vt in vs]
                if len({x for x, _ in vs}) == len(vs) and c[1] not in names:
                    return "(%s (%s) (%s (eo::List::cons %s) %s))" % (r.choice(self.let), " ".join(bs), c[1], " ".join(x for x, _ in vs), body[0]), ast
            return "(%s (%s) %s)" % (c[1], " ".join(ws), body[0]), ast
        if m == "let":
            n = r.choice([1, 1, 1, 2, 2, 2, 3, 3, 7])
            names = r.sample(POOL, n) if r.random() < 0.3 else list(dict.fromkeys(self.pick() for _ in range(n)))
            bs, new = [], {}
            for x in names:
                w, e = self.bound(env, d - 1)
                bs.append("(%s %s)" % (self.word(x), w))
                new[x] = e
            e2 = dict(env)
            e2.update(new)
            if any(x in env for x in names):
                self.feat.add("binding hides a name")
            body = self.term(t, e2, d - 1)
            return "(%s (%s) %s)" % (r.choice(self.let), " ".join(bs), body[0]), body[1]
        if m == "ite":
            a = self.term("Int", env, d - 1)
            b = self.term("Int", env, d - 1) if r.random() < 0.5 else self.again(a, env)
            s, t2 = self.term(t, env, d - 1), self.term(t, env, d - 1)
            return "(eo::ite (eo::is_eq %s %s) %s %s)" % (a[0], b[0], s[0], t2[0]), mk(("ite", a[1], b[1], s[1], t2[1]))
        if m == "add":
            a = self.term("Int", env, min(d - 1, 1))
            n = r.randrange(4)
            if self.inner and holes(a[1]):
                raise Fail
            return "(eo::add %s %d)" % (a[0], n), mk(("add", a[1], n))
        if m == "var":
            x = self.pick()
            return '(eo::var "%s" %s)' % (plain(x), self.type(t, env)), ("v", plain(x), t)

    def again(self, a, env):
        ns = self.names(env, lambda e: e[0] == "term" and e[2] == a[1])
        return (self.r.choice(ns), a[1]) if ns else a

    def pick(self):
        return self.r.choice(LIKELY if self.r.random() < 0.7 else POOL)

    def bound(self, env, d):
        """What a binding can stand for: a term, or another name."""
        r = self.r
        m = r.random()
        if m < 0.25:
            # any name but a literal
            n = r.choice([x for x, e in env.items() if e[0] != "list"])
            if env[n][0] != "term":
                self.feat.add("alias of a " + env[n][0])
            return n, env[n]
        if m < 0.35:
            t = self.rtype(env, 2)
            return self.type(t, env), ("type", t)
        t = self.rtype(env, 1)
        w, a = self.term(t, env, d)
        return w, ("term", t, a)

    def call(self, n, env, d, t):
        _, tvs, params, res, body = env[n][:5]
        s = {}
        tmatch(res, t, s)
        for kind, v in tvs:
            if v not in s:
                s[v] = self.rtype(env, 1)
        args, hs = [], {}
        for p in params:
            if p[0] == "type":
                args.append(self.type(s[p[1]], env))
            else:
                w, a = self.term(tsubst(p[1], s), env, d - 1)
                args.append(w)
                hs[p[2]] = a
        if not args:
            raise Fail
        return "(%s %s)" % (self.word(n), " ".join(args)), subst(body, hs, s)

    def define(self, env, name, cmd="define"):
        """(text, entry) of a definition."""
        r = self.r
        m = r.random()
        if m < 0.12 and cmd == "define":
            # a type, perhaps with parameters
            k = r.choice([0, 1, 2])
            names = r.sample(["X", "Y", "x", "Int", "U", "f"], k)
            e2, vs = dict(env), []
            for x in names:
                v = ("tv", self.fresh())
                vs.append(v)
                e2[x] = ("type", v)
            t = self.rtype(e2, 3)
            w = self.type(t, e2)
            text = "(define %s (%s) %s)" % (name, " ".join("(%s TYPE)" % x for x in names), w)
            return text, (("tmacro", vs, t) if k else ("type", t))
        if m < 0.4 and cmd == "define" or cmd == "define0":
            w, e = self.bound(env, 3)
            extra = ""
            if e[0] == "term" and r.random() < 0.3:
                extra = " :type " + self.type(e[1], env)
            return "(define %s () %s%s)" % (name, w, extra), e
        generic = r.random() < 0.4 and cmd == "define"
        tvs, params, decl = [], [], []
        e2, e3 = dict(env), dict(env)        # of the body, of the parameter list
        if generic:
            v = ("tv", self.fresh())
            if r.random() < 0.5:
                tvs.append(("implicit", v))
                decl.append("(@T TYPE :implicit)")
                e3["@T"] = ("type", v)
            else:
                x = r.choice(["X", "Int", "U", "x", "w"])
                tvs.append(("explicit", v))
                decl.append("(%s TYPE)" % x)
                e2[x] = e3[x] = ("type", v)
                params.append(("type", v))
        used = {d[1:].split()[0] for d in decl} | {name}
        for i in range(r.choice([1, 2, 2, 2, 3, 3, 8])):
            x = self.pick()
            if x in used:
                continue
            used.add(x)
            pt = ("tv", self.nh) if generic and (not params or r.random() < 0.6) else self.rtype(e3, 1)
            h = ("h", self.fresh()) if not generic else ("h", "%s" % self.fresh())
            # earlier parameters are in scope in the types of later ones
            w = self.type(pt, {a: e for a, e in e3.items()})
            if pt == "Bool" and r.random() < 0.4 and cmd != "rule":
                decl.append("(%s %s :list)" % (x, w))
                e2[x] = ("list", pt, h)
            else:
                decl.append("(%s %s)" % (x, w))
                e2[x] = ("term", pt, h)
            e3[x] = e2[x]
            params.append(("term", pt, h))
        if not params:
            raise Fail
        res = self.rtype(e2, 1) if not generic or r.random() < 0.5 else ("tv", self.nh0(tvs))
        w, a = self.term(res, e2, 3)
        if generic and any(v not in self.tvs_of([p[1] for p in params] + [res]) for k, v in tvs if k == "implicit"):
            raise Fail
        if cmd == "define":
            return "(define %s (%s) %s)" % (name, " ".join(decl), w), ("macro", tvs, params, res, a)
        if cmd == "program":
            sig = [self.type(p[1], e2) for p in params]
            return "(program %s (%s) :signature (%s) %s (((%s %s) %s)))" % (name, " ".join(decl), " ".join(sig), self.type(res, e2), name, " ".join(x[1:].split(")")[0].rsplit(" ", 0)[0].split(" ")[0] if x[1] != "|" else "|a b|" for x in decl), w), ("macro", tvs, params, res, a)
        if cmd == "rule":
            if res != "Bool":
                raise Fail
            return "(declare-rule %s (%s) :args (%s) :conclusion %s)" % (name, " ".join(decl), " ".join(x[1:].split(" ")[0] if x[1] != "|" else "|a b|" for x in decl), w), ("rule", tvs, params, res, a)

    def nh0(self, tvs):
        return tvs[0][1][1]

    def tvs_of(self, ts):
        out = set()
        for t in ts:
            if not isinstance(t, str):
                out |= {t} if t[0] == "tv" else self.tvs_of([t[1]] if t[0] == "Seq" else list(t[1]) + [t[2]])
        return out


def base():
    env = {n: ("term", t, ("c", n)) for n, t in CONSTS.items()}
    env.update({n: ("binder", n) for n in BINDERS})
    env.update({n: ("poly", n) for n in POLY})
    env.update({"or": ("or",), "emp": ("emp",), "Int": ("type", "Int"), "U": ("type", "U"), "Seq": ("Seq",)})
    return env


BASE = base()
LEAKS = [
    "(define @q ((zz Int)) zz)(define @r () zz)", "(define @r () (f (eo::define ((zz 5)) zz) zz))", "(define @r () (eo::define ((zz 5) (zz2 zz)) zz2))",
    "(define @r () (or (forall ((zz Int)) (p zz)) (p zz)))", "(define @r () (forall ((zz Int) (zz2 zz)) true))(define @s () zz)", "(define @r () (eo::define ((w (eo::define ((zz 5)) zz))) zz))",
    "(program @P ((zz Int)) :signature (Int) Int (((@P zz) zz)))(define @r () zz)", "(declare-rule @R ((zz Int)) :args (zz) :conclusion (p zz))(define @r () zz)", "(define @q ((zz TYPE) (zz2 zz)) zz2)(define @r () zz2)",
    "(declare-parameterized-const @k ((zz TYPE :implicit)) (-> zz zz))(declare-const @l zz)", "(define @r () (forall ((w (eo::define ((zz Int)) zz))) (eqq w zz)))", "(define @r () (f (eps ((zz Int)) (p zz)) zz))",
    "(define @r () (eo::define ((w zz)) (eo::define ((zz 5)) w)))", "(define @q () zz)(declare-const zz Int)"]


def one(c, i):
    r = random.Random("%s-c18-%d" % (c.seed, i))
    g = Gen(r)
    mode = r.choice(["t.eo", "t.smt2", "t.txt", "", "inc", "ref"])
    if mode not in ("t.eo", "inc"):
        g.let = ["eo::define", "let", "let"]
    env = base()
    lines, probes = [], []
    depth = r.choice([2, 3, 4])

    def emit(text, what):
        lines.append((text, what))
        for f in g.feat:
            c.count("with " + f)
        g.feat = set()

    def attempt(fn_):
        for _ in range(8):
            try:
                x = fn_()
                if len(str(x)) < 4000:
                    return x
            except Fail:
                pass
            g.feat = set()
        return None

    def name():
        g.k += 1
        return "d%d" % g.k

    def definition(cmd):
        n = name()
        if r.random() < 0.1:
            n = "|%s a|" % n
        x = attempt(lambda: g.define(env, n, cmd))
        if x is None:
            return
        emit(x[0], cmd if cmd != "define" else "define " + x[1][0])
        if cmd != "rule":
            env[n] = x[1]
            return

        def use():
            _, tvs, params, res, body = x[1]
            args, hs = [], {}
            for p in params:
                w, a = g.term(p[1], env, 2)
                args.append(w)
                hs[p[2]] = a
            return "(step @s%d %s :rule %s :args (%s))" % (g.k, pure(subst(body, hs, {})), n, " ".join(args))
        g.k += 1
        y = attempt(use)
        if y:
            emit(y, "conclusion of a rule")

    def query():
        g.k += 1
        m = r.random()
        ty = r.choice(["Int", "Bool", "U", ("Seq", "Int"), "Bool", "Int"])
        if m < 0.1:
            # whether a name in scope is a variable
            x = g.pick()
            vt = r.choice(["Int", "U", "Bool"])
            if x in ("forall", "eqq") or any(env.get(n) != BASE[n] for n in ("forall", "eqq", "Int", "U")):
                return
            emit("(step @s%d true :rule chk :args ((forall ((%s %s)) (eqq (eo::is_var %s) (eo::is_var K_x))) (_ K_forall (eo::List::cons (eo::var \"%s\" %s)) (_ K_eqq true false))))" % (g.k, x, vt, x, plain(x), tpure(vt)), "is_var of a bound name")
            return
        x = attempt(lambda: (lambda w: (w[0], w[1], pure(w[1])))(g.term(ty, env, depth)))
        if x is None:
            return
        w, a, pr = x
        if m < 0.6:
            emit("(step @s%d true :rule chk :args (%s %s))" % (g.k, w, pr), "argument of a step")
        elif m < 0.85:
            b = mutate(a, r)
            if b != a:
                emit("(step @s%d true :rule chk :args ((eo::is_eq %s %s) false))" % (g.k, w, pure(b)), "differs from another term")
        elif ty == "Bool":
            emit("(step @s%d %s :rule triv :args (%s))" % (g.k, w, pr), "conclusion of a step")
        else:
            b = attempt(lambda: g.term(ty, env, 2))
            if b and b[1] != a:
                emit("(step @s%d true :rule chk :args ((eo::is_eq %s %s) false))" % (g.k, w, b[0]), "terms with different expansions")
    files = {"pre.eo": PRE + ALIASES}
    if mode == "ref":
        ref = []
        asserts = []
        for _ in range(r.choice([1, 3, 6])):
            m = r.random()
            if m < 0.5:
                x = attempt(lambda: (lambda w: (w[0], pure(w[1])))(g.term("Bool", env, depth)))
                if x:
                    ref.append("(assert %s)" % x[0])
                    asserts.append((x[1], "assertion"))
            elif m < 0.7:
                n = name()
                ty = r.choice(["Int", "Bool", "U"])
                x = attempt(lambda: (lambda w: (w[0], w[1], g.type(ty, env)))(g.term(ty, env, depth)))
                if x:
                    ref.append("(define-const %s %s %s)" % (n, x[2], x[0]))
                    env[n] = ("term", ty, x[1])
            elif m < 0.85:
                n = name()

                def sort():
                    k = r.choice([0, 1, 2])
                    ns = r.sample(["X", "Y", "x", "Int", "f"], k)
                    e2, vs = dict(env), []
                    for a in ns:
                        v = ("tv", g.fresh())
                        vs.append(v)
                        e2[a] = ("type", v)
                    t = g.rtype(e2, 3)
                    return "(define-sort %s (%s) %s)" % (n, " ".join(ns), g.type(t, e2)), ("tmacro", vs, t) if k else ("type", t)
                x = attempt(sort)
                if x:
                    ref.append(x[0])
                    env[n] = x[1]
            else:
                n = name()

                def fun():
                    ns = list(dict.fromkeys(g.pick() for _ in range(r.choice([0, 1, 2, 2, 3, 8]))))
                    ts = [g.rtype(env, 1) for _ in ns]
                    e2 = dict(env)
                    e3 = {a: e for a, e in env.items() if a not in ns}
                    ws = ["(%s %s)" % (a, g.type(t, e3)) for a, t in zip(ns, ts)]
                    for a, t in zip(ns, ts):
                        e2[a] = ("term", t, ("v", plain(a), t))
                    ty = g.rtype(env, 1)
                    # the symbols = and lambda are looked up among the names in scope: not hidden
                    body = g.term(ty, e2, depth)
                    b = pure(body[1])
                    if ns:
                        b = "(_ K_lambda (eo::List::cons %s) %s)" % (" ".join(pure(("v", plain(a), t)) for a, t in zip(ns, ts)), b)
                    return "(define-fun %s (%s) %s %s)" % (n, " ".join(ws), g.type(ty, e2), body[0]), fn(ts, ty), "(_ K_= %s %s)" % (n, b)
                x = attempt(fun)
                if x:
                    ref.append(x[0])
                    env[n] = ("term", x[1], ("c", n))
                    asserts.append((x[2], "definition of a function"))
        files["r.smt2"] = "\n".join(ref) + "\n"
        emit('(include "pre.eo")', "include")
        emit('(reference "r.smt2")', "reference: " + "; ".join(ref)[:200])
        for k, (a, w) in enumerate(asserts):
            emit("(assume @p%d %s)" % (k, a), "reference " + w)
        main = r.choice(["t.eo", "t.smt2"])
        g.let = ["eo::define"] if main == "t.eo" else ["eo::define", "let"]
    else:
        main = "t.eo" if mode == "inc" else mode
        if mode == "inc":
            # the definitions are in an included file
            for _ in range(r.choice([2, 4, 8])):
                definition(r.choice(["define", "define", "define", "program"]))
            files["inc.eo"] = '(include "pre.eo")\n' + "\n".join(t for t, _ in lines) + "\n"
            for _, w in lines:
                c.count(w)
            lines = []
            emit('(include "inc.eo")', "include")
        else:
            emit('(include "pre.eo")', "include")
    level = []
    for _ in range(r.choice([4, 8, 16])):
        m = r.random()
        if m < 0.3:
            definition(r.choice(["define", "define", "define", "define0", "program", "rule"]))
        elif m < 0.36 and len(level) < 2:
            # names declared again in a scope, by a definition
            level.append(dict(env))
            emit("(push)", "push")
            n = r.choice(["x", "y", "z", "u", "b"])
            x = attempt(lambda: g.term(r.choice(["Int", "U", "Bool"]), env, 2))
            if x:
                ty = None
            t = r.choice(["Int", "U", "Bool"])
            x = attempt(lambda: g.term(t, env, 2))
            if x:
                emit("(define %s () %s)" % (n, x[0]), "define a name again")
                env[n] = ("term", t, x[1])
        elif m < 0.45 and level:
            env = level.pop()
            emit("(pop)", "pop")
        else:
            query()
            if r.random() < 0.12:
                probes.append((len(lines), r.choice(LEAKS), "name used outside of its scope"))

    def run(ls, variant):
        text = "\n".join(ls) + "\n"
        if main:
            fs = dict(files)
            fs[main] = text
            return c.run(fs, main=main, variant=variant), fs, None
        return c.run(files, main=None, stdin=text, variant=variant), files, text
    ls = [t for t, _ in lines]
    res, fs, stdin = run(ls, r.choice(["dbg", "san"]) if i % 8 == 0 else "rel")
    for _, w in lines:
        c.count(w.split(":")[0])
    c.seen((mode, tuple(ls)))
    c.sample("\n".join(ls)[:1500])
    if res.kind != "correct":
        p = res.pos()
        here = p and p[0].endswith(main or "stream") and 0 < p[1] <= len(ls)
        w = lines[p[1] - 1][1].split(":")[0] if here else res.kind
        c.violation("expansion:" + w, "a term is not its expansion (%s)" % w, fs, main=main or None, stdin=stdin, expected="correct; " + (ls[p[1] - 1] if here else ""), observed=res.brief() + "\n" + res.err[-600:])
        return
    for at, text, what in probes[:2]:
        res, fs, stdin = run(ls[:at] + [text], "rel")
        c.count(what)
        c.seen((mode, tuple(ls[:at]), text))
        p = res.pos()
        if res.kind != "reject" or not p or p[1] < at + 1:
            c.violation("scope:" + text, "a name is known outside of its scope", fs, main=main or None, stdin=stdin, expected="rejected: " + text, observed=res.brief())
            return


VPRE = """(declare-const Int Type)(declare-consts <numeral> Int)(declare-const U Type)(declare-const V Type)(declare-const Pair (-> Type Type Type))(declare-const Seq (-> Type Type))(declare-const Vec (-> Int Type))
(declare-const Mat (-> Int Int Type))(declare-const b Bool)(declare-const forall (-> eo::List Bool Bool) :binder eo::List::cons)
(declare-rule chk ((T Type)(W Type)(t T)(u W)) :args (t u) :requires ((t u)) :conclusion true)
"""


def variables(c, i):
    """Variables are the same if and only if their names and types are."""
    r = random.Random("%s-c18v-%d" % (c.seed, i))
    names = r.sample(["x", "y", "a b", "xx", "X", "", "Int", "x1", "U"], 3)

    def ty(d):
        if d == 0 or r.random() < 0.2:
            return r.choice([["U"], ["V"], ["Int"], ["Bool"], ["Vec", str(r.randrange(3))], ["Mat", str(r.randrange(3)), str(r.randrange(3))]])
        k = r.choice(["Pair", "Pair", "Seq", "->", "->"])
        return [k] + [ty(d - 1) for _ in range({"Pair": 2, "Seq": 1, "->": r.choice([2, 2, 3])}[k])]

    def show(t):
        return t if isinstance(t, str) else t[0] if len(t) == 1 else "(%s %s)" % (t[0], " ".join(show(x) for x in t[1:]))

    def flat(t):
        # (-> A (-> B C)) is (-> A B C)
        if isinstance(t, str):
            return t
        t = [t[0]] + [flat(x) for x in t[1:]]
        if t[0] == "->" and isinstance(t[-1], list) and t[-1][0] == "->":
            t = t[:-1] + t[-1][1:]
        return t

    def other(t):
        """The type with one leaf changed."""
        if isinstance(t, str):
            return str(int(t) + 1)
        if len(t) == 1:
            return [r.choice([x for x in ["U", "V", "Int", "Bool"] if x != t[0]])]
        k = r.randrange(1, len(t))
        return t[:k] + [other(t[k])] + t[k + 1:]
    lines, n = [VPRE.replace("\n", " ")], 0

    def chk(a, b):
        lines.append("(step s%d true :rule chk :args (%s %s))" % (len(lines), a, b))
    pool = []
    for _ in range(r.choice([3, 6, 12])):
        t = ty(r.choice([1, 2, 3]))
        pool += [t, other(t)] + ([other(t)] if r.random() < 0.5 else [])
    pool = [(m, t) for t in pool for m in r.sample(names, r.choice([1, 2]))]
    w = lambda m, t: r.choice(['(eo::var "%s" %s)', '(eo::ite (eo::eq b b) (eo::var "%s" %s) b)']) % (m, show(t))
    q = lambda m: "|%s|" % m if m in ("a b", "") else m
    for _ in range(r.choice([10, 30])):
        (m1, t1), (m2, t2) = r.choice(pool), r.choice(pool)
        if r.random() < 0.5:
            m2 = m1
            j = [t for m, t in pool if t != t1]
            t2 = r.choice([other(t1), t1] + j)
        same = "true" if m1 == m2 and flat(t1) == flat(t2) else "false"
        k = r.random()
        if k < 0.4:
            chk("(eo::is_eq %s %s)" % (w(m1, t1), w(m2, t2)), same)
        elif k < 0.55:
            chk("(eo::is_eq (forall ((%s %s)) b) (forall ((%s %s)) b))" % (q(m1), show(t1), q(m2), show(t2)), same)
        elif k < 0.65:
            chk("(eo::is_eq (forall ((%s %s)) b) (_ forall (eo::List::cons %s) b))" % (q(m1), show(t1), w(m2, t2)), same)
        elif k < 0.85:
            chk("(eo::typeof %s)" % w(m1, t1), show(t1))
        elif k < 0.92:
            chk("(eo::nameof %s)" % w(m1, t1), '"%s"' % m1)
        else:
            chk("(eo::is_eq (eo::hash %s) (eo::hash %s))" % (w(m1, t1), w(m2, t2)), same)
    files = {"t.eo": "\n".join(lines) + "\n"}
    res = c.run(files, main="t.eo", variant=r.choice(["dbg", "san"]) if i % 8 == 0 else "rel")
    c.count("variables by name and type")
    c.seen(tuple(lines))
    if res.kind != "correct":
        c.violation("variables", "two variables are the same or not as their names and types are", files, main="t.eo", expected="correct", observed=res.brief() + "\n" + res.err[-600:])


def run(c):
    c.need("rel", "dbg", "san")
    c.rule = "a case counts if its definitions and queries are new; the oracle is the expansion computed by the model of the scopes, written with names that are never hidden"
    c.assumptions += ["definitions applied to terms that do not evaluate, bindings that repeat a name in one let, and applications of a hidden name to arguments of another type are not judged",
                      "names of variables are plain symbols"]
    c.ppmap(lambda i: variables(c, i) if i % 10 == 3 else one(c, i), range(c.n(6000, 100000)))
    c.ppmap(lambda s: arity.family(c, s, "macro", 25), ["%s-ar-%d-%d" % (c.prop, c.seed, k) for k in range(c.n(16, 200))])
