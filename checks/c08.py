"""C08: programs as ordered first-match rewriting."""
import arity
import random
import re
import batch
import rewrite as RW
import terms as T
import values as V
import world as W
from batch import Item
from terms import S, A

PRE = batch.CHK + W.DECLS + """(declare-const Vec (-> Int Type)) (declare-const Pair (-> Type Type Type))
(declare-parameterized-const pk ((A1 Type :implicit) (B1 Type :implicit)) (-> A1 B1 Bool))
(declare-const u0 U) (declare-const u1 U) (declare-const i0 Int) (declare-const b0 Bool)
(declare-rule mp ((F Bool)) :premises (F) :conclusion F)
"""
ENV = dict(W.TYPES, Int="Type", U="Type", Str="Type", Bool="Type", Vec=W.fn("Int", "Type"), Pair=W.fn("Type", "Type", "Type"))
FU, FB, GU = W.fn("U", "U"), W.fn("Bool", "Bool"), W.fn("U", "U", "U")
SORTS = ["Bool", "Bool", "U", "U", "Int", "Int", FU, FB, "Type", "any", "op"]
RETS = ["Bool", "U", "Int"]


def gen(r, ty, depth, leaf=None):
    if ty == "Type":
        if leaf:
            t = leaf(r, ty)
            if t is not None:
                return t
        k = r.random()
        if depth <= 0 or k < 0.55:
            return S(r.choice(["Int", "U", "Bool", "Str"]))
        if k < 0.8:
            return A(S("Vec"), gen(r, "Int", 0, leaf))
        return A(S("Pair"), gen(r, "Type", depth - 1, leaf), gen(r, "Type", depth - 1, leaf))
    if ty == "any":
        return gen(r, r.choice(["Bool", "U", "Int", "Str"]), depth, leaf)
    if ty == "op":
        return S(r.choice(["or", "and"]))
    return W.gen(r, ty, depth, leaf)


class Prog:
    """One program: signature, cases (patterns, rhs) and parameters."""

    def __init__(self, name, args, ret, idx):
        self.name, self.args, self.ret, self.idx = name, args, ret, idx
        self.params = {}      # name -> (type, list?)
        self.cases = []
        self.forward = False

    def header(self, r):
        ts = " ".join("S%d" % k if t == "any" else W.show_type(FB2 if t == "op" else t) for k, t in enumerate(self.args))
        return ts

    def text(self, r, forward=False):
        ps, tys = [], []
        for k, t in enumerate(self.args):
            if t == "any":
                ps.append("(S%d Type)" % k)
        for n, (t, l) in self.params.items():
            if t == "any":
                ps.append("(%s_T Type) (%s %s_T)" % (n, n, n))
            else:
                ps.append("(%s %s%s)" % (n, W.show_type(FB2 if t == "op" else t), " :list" if l else ""))
        sig = ":signature (%s) %s" % (self.header(r), W.show_type(self.ret))
        if forward:
            return "(program %s (%s) %s)" % (self.name, " ".join(p for p in ps if p.startswith("(S")), sig)
        cs = []
        for pats, rhs in self.cases:
            cs.append("((%s %s) %s)" % (self.name, " ".join(W.spell(p, r) for p in pats), rhs_text(r, rhs)))
        return "(program %s (%s) %s\n  (\n   %s\n  ))" % (self.name, " ".join(ps), sig, "\n   ".join(cs))


FB2 = W.fn("Bool", "Bool", "Bool")


def subterms(t, acc):
    acc.append(t)
    if t[0] == "@":
        subterms(t[2], acc)
        if t[1][0] == "@":
            subterms(t[1], acc)
    elif t[0] == "e":
        for x in t[2:]:
            subterms(x, acc)
    return acc


def replace(t, s, v):
    if t == s:
        return v
    if t[0] == "@":
        return ("@", replace(t[1], s, v), replace(t[2], s, v))
    if t[0] == "e":
        return t[:2] + tuple(replace(x, s, v) for x in t[2:])
    return t


def rhs_text(r, rhs):
    """Source of a right-hand side, possibly with eo::define."""
    if r.random() < 0.25:
        c = [t for t in subterms(rhs, []) if t[0] in "@e" and RW.params(t)]
        if c:
            s = r.choice(c)
            return "(eo::define ((vv %s)) %s)" % (W.spell(s, r), W.spell(replace(rhs, s, S("vv")), r))
    return W.spell(rhs, r)


def rand_progs(r):
    n = r.randint(2, 5)
    progs = []
    for k in range(n):
        wide = r.random() < 0.1
        args = [r.choice(SORTS) for _ in range(r.randint(5, 9) if wide else r.choice([1, 1, 2, 2, 3, 4]))]
        progs.append(Prog("$p%d" % k, args, r.choice(RETS), k))
    for p in progs:
        # (a polymorphic program cannot be declared ahead)
        p.forward = r.random() < 0.4 and "any" not in p.args
    for k, p in enumerate(progs):
        for _ in range(r.randint(6, 14) if r.random() < 0.1 else r.choice([1, 2, 3, 3, 4, 5])):
            add_case(r, p, progs)
        if r.random() < 0.15:
            # a default case
            pats = []
            for q, t in enumerate(p.args):
                p.params.setdefault("q%d" % q, (t, False))
                pats.append(("p", "q%d" % q))
            p.cases.append((pats, rhs(r, p, pats, progs)))
    return progs


def add_case(r, p, progs):
    used = []

    def leaf(r, ty):
        if r.random() < 0.3:
            return None
        if ty not in RETS + [FU, FB, GU, "Type", "any"]:
            return None
        c = [n for n in used if p.params[n] == (ty, False)]
        if c and r.random() < 0.3:
            return ("p", r.choice(c))
        n = "%s%d" % ({"Bool": "B", "U": "X", "Int": "N", FU: "F", FB: "G", GU: "H", "Type": "TT", "any": "Z"}[ty], r.randint(0, 3))
        p.params.setdefault(n, (ty, False))
        if n not in used:
            used.append(n)
        return ("p", n)

    def lists(ty, op):
        n = {"Bool": "Ls", "U": "Us", "Int": "Ns"}[ty] + str(r.randint(0, 1))
        p.params.setdefault(n, (ty, True))
        if n not in used:
            used.append(n)
        t = ("p", n, "list")
        for _ in range(r.choice([1, 1, 1, 2])):
            e = W.gen(r, ty, r.choice([0, 0, 1]), leaf)
            t = A(S(op), e, t) if op in W.RIGHT else A(S(op), t, e)
        return t

    def pat(ty, depth):
        k = r.random()
        if ty == "op":
            if k < 0.5:
                p.params.setdefault("O", ("op", False))
                used.append("O")
                return ("p", "O")
            return S(r.choice(["or", "and"]))
        if ty == "any":
            k2 = r.random()
            if k2 < 0.5:
                return leaf(r, "any") or pat("any", depth)
            return pat(r.choice(["Bool", "U", "Int"]), depth)
        if ty == "Type":
            return gen(r, "Type", depth, leaf)
        if depth > 0 and ty in RETS and k < 0.3:
            op = r.choice({"Bool": ["or", "and", "xor"], "U": ["cat"], "Int": ["+"]}[ty])
            return lists(ty, op)
        if depth > 0 and ty == "Bool" and k < 0.42:
            # an operator given by a parameter: (_ O x y)
            p.params.setdefault("O", ("op", False))
            used.append("O")
            return A(("p", "O"), pat("Bool", depth - 1), pat("Bool", depth - 1))
        if depth > 0 and ty == "U" and k < 0.42:
            return A(leaf(r, FU) or S("f"), pat("U", depth - 1))
        if depth > 0 and ty == "Bool" and k < 0.5:
            a = leaf(r, "any") or S("x")
            return A(S("="), a, r.choice([a, leaf(r, "any") or S("y")]))
        if depth > 0 and k < 0.8:
            return W.gen(r, ty, depth, leaf)
        return leaf(r, ty) or W.gen(r, ty, depth, leaf)
    pats = [pat(t, r.choice([0, 1, 1, 2, 2, 3])) for t in p.args]
    p.cases.append((pats, rhs(r, p, pats, progs)))


def rhs(r, p, pats, progs):
    """A right-hand side over the parameters of pats. Calls that could come
    back to this program are made on strict subterms only."""
    ps = []
    for t in pats:
        RW.params(t, ps)
    top = [t[1] for t in pats if t[0] == "p"]
    strict = [x for x in ps if x not in top]
    par = lambda n: ("p", n) + (("list",) if p.params[n][1] else ())

    def ofty(ty, names):
        return [n for n in names if p.params[n][0] == ty]

    def leaf(r, ty):
        c = ofty(ty, ps)
        if c and r.random() < 0.75:
            return par(r.choice(c))
        return None

    def call(ty, depth):
        cands = [q for q in progs if q.ret == ty]
        r.shuffle(cands)
        for q in cands:
            down = q.idx < p.idx
            if not down and q.idx > p.idx and not q.forward:
                continue
            args = []
            if q.idx > p.idx and r.random() < 0.3:
                # a ground application of a program that is not yet defined
                return ("e", q.name) + tuple(gen(r, t, r.choice([0, 0, 1])) for t in q.args)
            for t in q.args:
                if down:
                    args.append(expr(t, depth - 1))
                else:
                    c = ofty(t, strict) if t != "any" else strict
                    if c:
                        args.append(par(r.choice(c)))
                    elif t in ("Type", "op") or not strict:
                        args.append(gen(r, t, 0))
                    else:
                        args = None
                        break
            if args is None:
                continue
            if not any(RW.params(a) for a in args):
                continue
            if not down and not any(a[0] == "p" for a in args):
                continue
            return ("e", q.name) + tuple(args)
        return None

    def expr(ty, depth):
        k = r.random()
        if ty in ("any",):
            c = [n for n in ps]
            return par(r.choice(c)) if c and k < 0.7 else gen(r, "any", 1, leaf)
        if ty == "op":
            c = ofty("op", ps)
            return par(c[0]) if c and k < 0.5 else S(r.choice(["or", "and"]))
        if ty == "Type":
            return gen(r, ty, 1, leaf)
        if depth <= 0 or ty not in RETS or not ps:
            return leaf(r, ty) or gen(r, ty, 1, leaf)
        e = None
        if k < 0.3:
            e = call(ty, depth)
        elif k < 0.42:
            c = expr("Bool", depth - 1) if r.random() < 0.2 else cond(depth - 1)
            e = ("e", "ite", c, expr(ty, depth - 1), expr(ty, depth - 1))
        elif k < 0.5:
            a = expr(ty, depth - 1) if r.random() < 0.5 else cond(depth - 1)
            e = ("e", "requires", a, r.choice([a, V.TRUE, expr(ty, 0)]), expr(ty, depth - 1))
        elif k < 0.66:
            if ty == "Bool":
                e = cond(depth)
            elif ty == "Int":
                o = r.choice(["add", "mul", "neg", "list_len", "list_find", "add"])
                if o == "neg":
                    e = ("e", o, expr("Int", depth - 1))
                elif o == "list_len":
                    e = ("e", o, S(r.choice(["or", "and"])), expr("Bool", 0))
                elif o == "list_find":
                    e = ("e", o, S("or"), expr("Bool", 0), expr("Bool", 0))
                else:
                    e = ("e", o, expr("Int", depth - 1), expr("Int", depth - 1))
            else:
                o = r.choice(["list_concat", "list_nth", "list_rev"])
                e = ("e", o, S("cat"), expr("U", depth - 1)) + \
                    {"list_concat": (expr("U", 0),), "list_nth": (V.num(r.randint(0, 2)),), "list_rev": ()}[o]
        elif k < 0.72 and ty == "Bool":
            op = r.choice(["or", "and"])
            o = r.choice(["list_concat", "list_rev", "cons", "list_erase", "list_setof", "list_diff"])
            e = ("e", o, S(op), expr("Bool", 0)) + (() if o in ("list_rev", "list_setof") else (expr("Bool", 0),))
        if e is None or not (RW.params(e) or e[1] in later):
            # an ordinary term whose leaves may be evaluated
            def leaf2(r, t):
                if t in RETS and r.random() < 0.3:
                    return expr(t, depth - 1)
                return leaf(r, t)
            e = gen(r, ty, 2, leaf2)
        return e

    def cond(depth):
        k = r.random()
        if k < 0.35:
            t = r.choice(RETS)
            return ("e", "eq", expr(t, depth - 1), expr(t, depth - 1))
        if k < 0.5:
            t = r.choice(RETS)
            return ("e", "is_eq", expr(t, depth - 1), expr(t, depth - 1))
        if k < 0.65:
            return ("e", "is_ok", expr(r.choice(RETS), depth - 1))
        if k < 0.8:
            return ("e", r.choice(["gt", "gt"]), expr("Int", depth - 1), expr("Int", depth - 1))
        if k < 0.9:
            return ("e", r.choice(["and", "or"]), cond(depth - 1), cond(depth - 1))
        return ("e", "is_z", expr("Int", depth - 1))

    later = [q.name for q in progs if q.idx > p.idx and q.forward]

    def ok(e, top=True):
        # no ground evaluation: it would be evaluated when the program is read
        if e[0] == "e":
            # (nor a requirement that is met when the program is read, which
            # would then be its body, possibly a list parameter)
            if e[1] == "requires" and not (RW.params(e[2]) or RW.params(e[3])):
                return False
            return (bool(RW.params(e)) or e[1] in later) and all(ok(x) for x in e[2:])
        if e[0] == "@":
            return ok(e[1]) and ok(e[2])
        return True
    for _ in range(30):
        e = expr(p.ret, r.choice([0, 1, 2, 2, 3]))
        if ok(e) and T.size(e) < 80:
            return e
    return gen(r, p.ret, 1, leaf)


def subst_pat(r, t, ctx, p):
    """Random ground instance of a pattern."""
    if t[0] == "p":
        if t[1] not in ctx:
            ty, lst = p.params[t[1]]
            if lst:
                op = {"Bool": r.choice(["or", "and"]), "U": "cat", "Int": "+"}[ty]
                ctx[t[1]] = W.nary(op, [W.gen(r, ty, 1) for _ in range(r.choice([0, 1, 2, 3]))])
            else:
                ctx[t[1]] = gen(r, ty, r.choice([0, 0, 1, 2]))
        return ctx[t[1]]
    if t[0] == "@":
        if t[1][0] == "@" and t[1][1][0] == "s" and t[1][1][1] in W.NIL:
            # keep list tails of the right operator
            op = t[1][1][1]
            tl = t[2] if op in W.RIGHT else t[1][2]
            if tl[0] == "p" and len(tl) == 3 and tl[1] not in ctx:
                ty = p.params[tl[1]][0]
                ctx[tl[1]] = W.nary(op, [W.gen(r, ty, r.choice([0, 1])) for _ in range(r.choice([0, 1, 2, 3]))])
        return ("@", subst_pat(r, t[1], ctx, p), subst_pat(r, t[2], ctx, p))
    return t


def rand_args(r, p):
    k = r.random()
    if k < 0.8:
        pats, _ = r.choice(p.cases)
        ctx = {}
        args = [subst_pat(r, t, ctx, p) for t in pats]
        if k > 0.6:
            q = r.randrange(len(args))
            if p.args[q] in W.SORTS:
                args[q] = W.mutate(r, args[q], p.args[q])
            else:
                args[q] = gen(r, p.args[q], 1)
        return args
    return [gen(r, t, r.choice([0, 1, 2, 3])) for t in p.args]


def dress(r, t, ty):
    """An expression evaluating to the ground term t."""
    k = r.random()
    if k < 0.75:
        return t
    if t[0] == "num" and k < 0.85:
        d = r.randint(-9, 9)
        return ("e", "add", V.num(t[1] - d), V.num(d))
    if ty == "Bool" and k < 0.82 and W.flat(t, "or"):
        return ("e", "list_concat", S("or"), t, V.FALSE)
    if k < 0.95:
        return ("e", "ite", V.TRUE, t, gen(r, ty if isinstance(ty, str) and ty in RETS else "Bool", 1))
    if k < 0.97:
        return ("e", "add", V.num(1), V.sstr("stuck"))
    return ("e", "requires", V.TRUE, ("e", "is_ok", t), t)


def vtype(t):
    ty = W.type_of(t, ENV)
    return None if ty is None else W.show_type(ty)


class Ctr:
    def __init__(self):
        self.n = 0

    def __call__(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)


def obligation(r, p, args, val, nm):
    """One line that is accepted iff ($p args) evaluates to val (None: does
    not evaluate), in a random context."""
    call = "(%s %s)" % (p.name, " ".join(W.spell(a, r) for a in args))
    ground = all(a[0] != "e" for a in args)
    s = nm("st")
    ctxs = ["arg", "arg", "macro", "concl", "requires", "wrap", "nested"]
    if p.ret == "Bool" and ground and val is not None and len(p.args) == 1 and p.args[0] == "Bool":
        ctxs += ["premise"] * 4
    if p.ret == "Int" and val is not None:
        ctxs += ["type"] * 4
    kind = r.choice(ctxs)
    if any(RW.Machine().ev(a, {}) is None for a in args):
        # arguments that do not evaluate cannot be handed on by rules
        kind = "arg"
    elif val is not None and kind in ("concl", "type", "premise") and vtype(val) != p.ret:
        # programs are not type checked; proved terms and types are
        kind = "arg"
    elif kind == "premise" and vtype(args[0]) != "Bool":
        kind = "arg"
    ps = ["@a%d" % k for k in range(len(args))]
    decl = " ".join("(%s_T Type) (%s %s_T)" % (a, a, a) for a in ps)
    pcall = "(%s %s)" % (p.name, " ".join(ps))
    texts = [W.spell(a, r) for a in args]
    v = W.spell(val, r) if val is not None else None
    if kind == "arg":
        if val is None:
            return kind, "(step %s :rule chk :args ((eo::is_ok %s) false))" % (s, call)
        return kind, "(step %s :rule chk :args (%s %s))" % (s, call, v)
    if kind == "macro":
        m = nm("m")
        body = pcall if val is not None else "(eo::is_ok %s)" % pcall
        return kind, "(define %s (%s) %s) (step %s :rule chk :args ((%s %s) %s))" % (
            m, decl.replace(" Type)", " Type :implicit)"), body, s, m, " ".join(texts), v or "false")
    if kind == "concl":
        m = nm("rl")
        body = pcall if val is not None else "(eo::is_ok %s)" % pcall
        return kind, "(declare-rule %s (%s) :args (%s) :conclusion (pr$ %s)) (step %s (pr$ %s) :rule %s :args (%s))" % (
            m, decl, " ".join(ps), body, s, v or "false", m, " ".join(texts))
    if kind == "requires":
        m = nm("rl")
        body = pcall if val is not None else "(eo::is_ok %s)" % pcall
        return kind, "(declare-rule %s (%s (@e_T Type) (@e @e_T)) :args (%s @e) :requires ((%s @e)) :conclusion true) (step %s :rule %s :args (%s %s))" % (
            m, decl, " ".join(ps), body, s, m, " ".join(texts), v or "false")
    if kind in ("wrap", "nested"):
        m = nm("$w")
        body = pcall if val is not None else "(eo::is_ok %s)" % pcall
        ret = "Bool" if val is None else p.ret
        if kind == "nested":
            body = "(eo::requires true (eo::is_eq %s %s) %s)" % (body, body, body)
        w = "(program %s (%s %s) :signature (%s) %s (((%s %s) %s)))" % (
            m, " ".join("(T%d Type)" % k for k in range(len(args))), decl, " ".join("T%d" % k for k in range(len(args))), ret, m, " ".join(ps), body)
        return kind, "%s (step %s :rule chk :args ((%s %s) %s))" % (w, s, m, " ".join(texts), v or "false")
    if kind == "premise":
        m, q = nm("rl"), nm("pm")
        return kind, "(declare-rule %s ((F Bool)) :premises (F) :conclusion (pr$ (%s F))) (assume %s %s) (step %s (pr$ %s) :rule %s :premises (%s))" % (
            m, p.name, q, texts[0], s, v, m, q)
    # type
    q = nm("cv")
    return kind, "(declare-const %s (Vec %s)) (step %s :rule chk :args ((eo::typeof %s) (Vec %s)))" % (q, call, s, q, v)


def one(c, seed):
    r = random.Random(seed)
    progs = rand_progs(r)
    decl = []
    table = {p.name: p.cases for p in progs}
    for p in progs:
        if p.forward:
            decl.append(p.text(r, True))
    for p in progs:
        decl.append(p.text(r))
    nm = Ctr()
    items = []
    for _ in range(90):
        p = r.choice(progs)
        vals = rand_args(r, p)
        args = [dress(r, t, ty) for t, ty in zip(vals, p.args)]
        m = RW.Machine(table)
        try:
            ev = [m.ev(a, {}) for a in args]
            val = m.call(p.name, ev, 0)
        except RW.Fuel:
            c.count("skipped: too long")
            continue
        if val is not None and T.size(val) > 300:
            continue
        kind, text = obligation(r, p, args, val, nm)
        c.count("context " + kind)
        c.count("value" if val is not None else "stuck")
        c.count("rewrite steps", m.steps)
        c.seen((tuple(decl), text))
        items.append(Item(text, "eval:%s" % kind, "%s should %s" % (text[:300], "evaluate to %s" % W.spell(val) if val is not None else "not evaluate"),
                          "accepted", None))
    # many calls in one evaluation (results are shared between equal calls)
    for _ in range(6):
        calls = []
        pool = []
        for _ in range(60):
            p = r.choice(progs)
            vals = r.choice(pool)[1] if pool and r.random() < 0.1 else rand_args(r, p)
            if len(vals) != len(p.args):
                continue
            try:
                val = RW.Machine(table).call(p.name, vals, 0)
            except RW.Fuel:
                continue
            if val is not None and T.size(val) < 100 and vtype(val) == p.ret:
                pool.append((p, vals, val))
        pool = pool[:12]
        r.shuffle(pool)
        if len(pool) < 2:
            continue
        m = nm("$w")
        names, decls, texts, body, val = [], [], [], "true", "true"
        for k, (p, vals, v) in enumerate(pool):
            ns = []
            for a in vals:
                ns.append("@b%d" % len(names))
                names.append(ns[-1])
                texts.append(W.spell(a, r))
            body = "(pk (%s %s) %s)" % (p.name, " ".join(ns), body)
            val = "(pk %s %s)" % (W.spell(v, r), val)
        decl2 = " ".join("(%s_T Type) (%s %s_T)" % (a, a, a) for a in names)
        text = "(program %s (%s %s) :signature (%s) Bool (((%s %s) %s))) (step %s :rule chk :args ((%s %s) %s))" % (
            m, " ".join("(T%d Type)" % k for k in range(len(names))), decl2, " ".join("T%d" % k for k in range(len(names))), m, " ".join(names), body,
            nm("st"), m, " ".join(texts), val)
        c.count("context bundle")
        c.count("value", len(pool))
        c.seen((tuple(decl), text))
        items.append(Item(text, "eval:bundle", "%s should be accepted" % text[:300], "accepted", None))
    if r.random() < 0.05:
        c.sample("\n".join(decl) + "\n" + "\n".join(i.text for i in items[:4]))
    batch.run_batch(c, PRE + "\n".join(decl), items, r.choice(["dbg", "dbg", "san", "rel"]), fname="t.eo")


def lazy(c, seed):
    """Only the selected branch of a conditional is evaluated."""
    r = random.Random(seed)
    n = r.randint(1, 40)
    pre = PRE + """
(program $never ((T Type) (x T)) :signature (T) T ((($never x) x)))
(program $id ((T Type) (x T)) :signature (T) T ((($id x) x)))
(program $used ((T Type) (x T)) :signature (T) T ((($used x) x)))
(program $cnt ((n Int)) :signature (Int) Int ((($cnt n) (eo::ite (eo::eq n 0) 0 (eo::add 1 ($cnt (eo::add n -1)))))))
(program $cnt2 ((n Int)) :signature (Int) Int ((($cnt2 n) (eo::ite (eo::gt n 0) ($cnt2 (eo::add n -1)) n))))
(program $even ((n Int)) :signature (Int) Bool)
(program $odd ((n Int)) :signature (Int) Bool ((($odd 0) false) (($odd n) ($even (eo::add n -1)))))
(program $even ((n Int)) :signature (Int) Bool ((($even n) (eo::ite (eo::is_eq n 0) true ($odd (eo::add n -1))))))
(program $grow ((n Int) (t U)) :signature (Int U) U ((($grow n t) (eo::ite (eo::eq n 0) t ($grow (eo::add n -1) (f t))))))
(program $coll ((n Int)) :signature (Int) Int ((($coll n) (eo::ite (eo::is_eq n 1) 0 (eo::add 1 ($coll (eo::ite (eo::is_eq (eo::zmod n 2) 0) (eo::zdiv n 2) (eo::add 1 (eo::mul 3 n)))))))))
"""
    # nested conditionals in every evaluation context, $never in the branches
    # that are not selected

    def cond(depth, val):
        x = r.choice(["x", "y"])
        k = r.random()
        base = {True: ["(eo::eq @p @p)", "(eo::is_ok @p)", "(eo::is_eq @p @p)", "(eo::not (eo::is_eq @p (f @p)))", "($id (eo::eq @p @p))"],
                False: ["(eo::is_eq @p (f @p))", "(eo::not (eo::is_ok @p))", "(eo::eq (f @p) (f (f @p)))", "($id (eo::is_z @p))"]}[val]
        if depth > 0 and k < 0.3:
            w = r.random() < 0.5
            a, b = (cond(depth - 1, val), never("Bool")) if w else (never("Bool"), cond(depth - 1, val))
            return "(eo::ite %s %s %s)" % (cond(depth - 1, w), a, b)
        return r.choice(base)

    def never(ty):
        return {"U": "($never @p)", "Bool": "(eo::is_ok ($never @p))", "V": "(f ($never (f @p)))"}[ty]

    def tree(depth):
        """(text, value text with @p)"""
        k = r.random()
        if depth <= 0 or k < 0.2:
            return r.choice([("@p", "@p"), ("($used @p)", "@p"), ("(f @p)", "(f @p)")])
        if k < 0.35:
            a, b = tree(depth - 1)
            return "(g %s @p)" % a, "(g %s @p)" % b
        w = r.random() < 0.5
        a, b = tree(depth - 1)
        nv = r.choice([never("U"), never("V"), "(g @p ($never @p))", "(eo::ite %s %s ($never @p))" % (cond(0, True), "($never (f @p))")])
        return ("(eo::ite %s %s %s)" % (cond(depth - 1, w), a, nv) if w else "(eo::ite %s %s %s)" % (cond(depth - 1, w), nv, a)), b
    lines = []
    for k in range(6):
        t, v = tree(r.randint(1, 4))
        arg = r.choice(["x", "y", "(f z)"])
        va = v.replace("@p", arg)
        kind = r.choice(["prog", "concl", "requires", "macro"])
        if kind == "prog":
            lines.append("(program $t%d ((@p U)) :signature (U) U ((($t%d @p) %s))) (step s%d :rule chk :args (($t%d %s) %s))" % (k, k, t, k, k, arg, va))
        elif kind == "concl":
            lines.append("(declare-rule r%d ((@p U)) :args (@p) :conclusion (pr$ %s)) (step s%d (pr$ %s) :rule r%d :args (%s))" % (k, t, k, va, k, arg))
        elif kind == "requires":
            lines.append("(declare-rule r%d ((@p U) (@q U)) :args (@p @q) :requires ((%s @q)) :conclusion true) (step s%d :rule r%d :args (%s %s))" % (k, t, k, k, arg, va))
        else:
            lines.append("(define m%d ((@p U)) %s) (program $t%d ((@p U)) :signature (U) U ((($t%d @p) (m%d @p)))) (step s%d :rule chk :args (($t%d %s) %s))" % (k, t, k, k, k, k, k, arg, va))
        c.seen(lines[-1])
    coll = 0
    m = r.randint(1, 27)
    q = m
    while q != 1:
        q = q // 2 if q % 2 == 0 else 3 * q + 1
        coll += 1
    tower = "x"
    for _ in range(n):
        tower = "(f %s)" % tower
    for t, v in (("($cnt %d)" % n, n), ("($cnt2 %d)" % n, 0), ("($even %d)" % n, "true" if n % 2 == 0 else "false"),
                 ("($odd %d)" % n, "false" if n % 2 == 0 else "true"), ("($grow %d x)" % n, tower), ("($coll %d)" % m, coll)):
        lines.append("(step s%d :rule chk :args (%s %s))" % (len(lines), t, v))
        c.seen(lines[-1])
    files = {"t.eo": pre + "\n".join(lines) + "\n"}
    res = c.run(files, variant=r.choice(["dbg", "rel", "san"]), args=["--stats", "--stats-all"])
    if res.rc != 0 or "correct" not in res.out.splitlines():
        c.violation("lazy:verdict", "conditionals evaluate to the selected branch", files, args=["--stats", "--stats-all"],
                    expected="correct", observed=res.brief())
        return
    if "$id" in res.out or "$used" in res.out:
        c.count("runs with program counts")
    if re.search(r"\$never", res.out + res.err):
        c.violation("lazy:evaluated", "a branch that is not selected was evaluated", files, args=["--stats", "--stats-all"],
                    expected="program $never is not called", observed=res.out[-800:])
    # terms with much sharing
    dag = [PRE + FIX, "(define e0 () x)", "(define h0 () y)"]
    d = r.randint(30, 120)
    for k in range(d):
        t = r.choice(["(g @ @)", "(g (f @) @)", "(cat @ (f @) @)", "(app f (g @ @))"])
        dag += ["(define e%d () %s)" % (k + 1, t.replace("@", "e%d" % k)), "(define h%d () %s)" % (k + 1, t.replace("@", "h%d" % k))]
    # the nil terminator of cat is x: it is replaced as well
    dag = [x.replace("(cat @ (f @) @)", "(g @ (f @))") for x in dag]
    dag = [re.sub(r"\(cat (\S+) \(f (\S+)\) (\S+)\)", r"(g \1 (f \3))", x) if x.startswith("(define") else x for x in dag]
    dag += ["(step d1 :rule chk :args (($sub x y e%d) h%d))" % (d, d), "(step d2 :rule chk :args (($sub y x e%d) e%d))" % (d, d),
            "(step d3 :rule chk :args ((eo::is_eq ($sub x z e%d) h%d) false))" % (d, d)]
    c.seen(("dag", seed))
    files = {"t.eo": "\n".join(dag) + "\n"}
    res = c.run(files, variant=r.choice(["dbg", "rel", "san"]))
    if res.kind != "correct":
        c.violation("dag", "programs evaluate correctly on terms with shared subterms", files, expected="correct", observed=res.brief())
    # divergence in the branch not selected
    div = pre + """
(program $loop ((x U)) :signature (U) U ((($loop x) ($loop (f x)))))
(program $d ((x U) (b Bool)) :signature (U Bool) U ((($d x b) (eo::ite b x ($loop x)))))
(declare-rule dr ((x U)) :args (x) :conclusion (pr$ (eo::ite (eo::eq x x) x ($loop x))))
(declare-rule dq ((x U)) :args (x) :requires (((eo::ite (eo::is_z x) ($loop x) x) x)) :conclusion true)
(define dm ((x U)) (eo::ite (eo::is_ok x) x ($loop x)))
(program $e ((x U)) :signature (U) U ((($e x) (dm x))))
(step d1 :rule chk :args (($d (f x) true) (f x)))
(step d2 (pr$ x) :rule dr :args (x))
(step d3 :rule dq :args (y))
(step d4 :rule chk :args (($e z) z))
"""
    c.seen(("div", seed))
    res = c.run({"t.eo": div}, variant="rel")
    if res.kind != "correct":
        c.violation("lazy:divergence", "only the selected branch of a conditional is evaluated", {"t.eo": div}, expected="correct", observed=res.brief())


FIX = """(program $h ((l Bool) (x Bool) (xs Bool :list)) :signature (Bool Bool) Bool ((($h false l) false) (($h (or l xs) l) true) (($h (or x xs) l) ($h xs l))))
(program $sub ((T Type) (U1 Type) (S1 Type) (p S1) (q S1) (h (-> T U1)) (o T) (w U1)) :signature (S1 S1 U1) U1 ((($sub p q p) q) (($sub p q (h o)) (_ ($sub p q h) ($sub p q o))) (($sub p q w) w)))
(program $ap ((h (-> U U)) (t U)) :signature ((-> U U) U) U ((($ap h t) (h (h t)))))
(program $rep ((n Int) (t U)) :signature ((eo::quote n) U) (Vec n) ((($rep 0 t) t)))
(program $nf ((n Int)) :signature ((eo::quote n)) (Vec n) ((($nf n) n)))
(program $none ((n Int)) :signature (Int) Int ((($none 0) 1)))
(program $ord ((n Int) (m Int)) :signature (Int Int) Int ((($ord n n) 1) (($ord 0 m) 2) (($ord n 0) 3) (($ord -1 m) 4) (($ord n m) 5)))
(program $lit ((s Str)) :signature (Str) Int ((($lit "") 0) (($lit "a") 1) (($lit "A") 2) (($lit " a") 3) (($lit s) 4)))
"""


def fixed(c):
    """Notable single cases: documented examples and boundary behaviour."""
    r = c.rng
    rows = [
        ("($h (or a b c) a)", "true"), ("($h (or a b c) c)", "true"), ("($h (or a b c) d)", "false"), ("($h a b)", None), ("($h false a)", "false"),
        ("($h (or false) false)", "true"), ("($h (_ or a b) c)", None), ("($h (_ or a b) a)", "true"),
        ("($sub a b (or a (not a) c))", "(or b (not b) c)"), ("($sub or and (or a b))", "(_ and a (_ and b false))"),
        ("($sub x y (g x (f x)))", "(g y (f y))"), ("($sub (f x) y (g x (f x)))", "(g x y)"), ("($sub f k x)", "x"),
        ("($sub (_ g x) f (g x y))", "(f y)"),
        ("($ap f x)", "(f (f x))"), ("($ap (_ g y) x)", "(g y (g y x))"), ("($ap f (eo::list_nth or a 5))", None),
        ("($none 0)", "1"), ("($none 1)", None), ("($none (eo::add -1 1))", "1"), ("($none (eo::add 1 \"a\"))", None), ("(eo::add ($none 1) 1)", None),
        ("(eo::is_eq ($none 1) ($none 1))", "false"), ("(eo::is_ok (f ($none 1)))", "false"), ("(eo::ite ($none 1) 0 0)", None),
        ("(eo::ite (eo::is_eq ($none 0) 1) 5 ($none 1))", "5"), ("(eo::requires ($none 1) ($none 1) 0)", None),
        ("(eo::requires ($none 0) 1 0)", "0"), ("(eo::requires ($none 0) 2 0)", None), ("(eo::requires 1 1 ($none 2))", None),
        ("($ord 0 0)", "1"), ("($ord 5 5)", "1"), ("($ord 0 5)", "2"), ("($ord 5 0)", "3"), ("($ord -1 0)", "3"), ("($ord -1 7)", "4"), ("($ord 1 7)", "5"),
        ("($ord 0 (eo::neg 0))", "1"), ("($ord 18446744073709551616 0)", "3"), ("($ord 18446744073709551616 (eo::mul 4294967296 4294967296))", "1"),
        ("($ord i i)", "1"), ("($ord i j)", "5"), ("($ord (+ i j) (+ i j))", "1"), ("($ord (+ i j) (+ j i))", "5"),
        ('($lit "")', "0"), ('($lit "a")', "1"), ('($lit "A")', "2"), ('($lit " a")', "3"), ('($lit "a ")', "4"), ('($lit (eo::concat "" "a"))', "1"), ('($lit (eo::extract "ba" 1 1))', "1"),
        ("(eo::typeof ($nf 3))", None),
    ]
    items = []
    for k, (t, v) in enumerate(rows[:-1]):
        for rep in range(2):
            txt = "(step f%d_%d :rule chk :args (%s %s))" % (k, rep, t, v) if v is not None else "(step f%d_%d :rule chk :args ((eo::is_ok %s) false))" % (k, rep, t)
            if rep == 1:
                # a value known only when the rule is applied
                body = t if v is not None else "(eo::is_ok %s)" % t
                if not re.search(r"(?<![\w$:])%s(?![\w])" % "a", body) or '"' in body:
                    continue
                body = re.sub(r"(?<![\w$:])a(?![\w])", "@z", body)
                val = re.sub(r"(?<![\w$:])a(?![\w])", "@z", v) if v is not None else "false"
                txt = "(declare-rule fr%d ((@z Bool)) :args (@z) :requires ((%s %s)) :conclusion true) (step f%d_%d :rule fr%d :args (a))" % (k, body, val, k, rep, k)
            c.seen(txt)
            items.append(Item(txt, "fixed:%s" % t, "%s should %s" % (t, "be %s" % v if v is not None else "not evaluate"), "accepted"))
    for v in ("dbg", "san", "rel"):
        batch.run_batch(c, PRE + FIX, items, v, fname="t.eo")
    # definitions that are errors
    bad = [
        "(program $b ((n Int) (m Int)) :signature (Int) Int ((($b n) m)))",
        "(program $b ((n Int) (m Int)) :signature (Int) Int ((($b 0) n)))",
        "(program $b ((n Int)) :signature (Int) Int (((k n) n)))",
        "(program $b ((n Int)) :signature (Int) Int ((($b (eo::add n 1)) n)))",
        "(program $b ((xs Bool :list) (ys Bool :list)) :signature (Bool) Bool ((($b (or xs ys)) xs)))",
        "(program $b ((n Int)) :signature (Int) Int ((n n)))",
        "(program $b ((n Int)) :signature (Int) Int ((($b n n) n)))",
        "(program $b ((n Int)) :signature (Int Int) Int ((($b n) n)))",
        "(program $b ((n Int)) :signature (Int) Int ((($none n) n)))",
        "(program $b ((n Int)) :signature (Int) Int ((($b ($none n)) n)))",
        "(program $b ((n Int)) :signature (Int) Int ((($b n) (eo::ite (eo::eq n 0) 1 (eo::add @m n)))))",
    ]
    for k, b in enumerate(bad):
        files = {"t.eo": PRE + FIX + b + "\n"}
        res = c.run(files, variant=["dbg", "san", "rel"][k % 3])
        c.seen(("bad", b))
        c.count("definitions that must be rejected")
        if res.kind != "reject":
            c.violation("bad:%d" % k, "%s must be rejected" % b, files, expected="rejected", observed=res.brief())


def run(c):
    c.rule = ("random sets of 2-5 programs (overlapping, repeated-parameter, list, higher-order, operator and type patterns; recursion, mutual recursion) "
              "applied to random arguments in 8 contexts, compared to a first-match rewriting model")
    c.assumptions = ["reference rewriting model in lib/rewrite.py written from the user manual", "g++ and its sanitizers"]
    c.need("dbg", "san", "rel")
    fixed(c)
    n = c.n(2500, 40000)
    seeds = [c.rng.random() for _ in range(n)]
    c.ppmap(lambda s: one(c, s), seeds)
    c.ppmap(lambda s: lazy(c, s), [c.rng.random() for _ in range(c.n(12, 200))])
    c.ppmap(lambda s: arity.family(c, s, "program", 25), ["%s-ar-%d-%d" % (c.prop, c.seed, k) for k in range(c.n(16, 200))])
