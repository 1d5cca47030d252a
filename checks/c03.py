"""C03: steps are accepted exactly when an independent checker accepts them."""
import rewrite as RW
import terms as T
import values as V
import world as W
from terms import S, A

FU, FB = W.fn("U", "U"), W.fn("Bool", "Bool")
PTYPES = ["Bool", "Bool", "Bool", "U", "U", "Int", FU, FB, "gen"]


class Unjudged(Exception):
    pass


class Rule:
    def __init__(self):
        self.name = None
        self.params = []       # (name, type, list?)
        self.assumption = None
        self.premises = []
        self.plist = None      # operator of :premise-list
        self.args = []
        self.reqs = []
        self.concl = None
        self.explicit = False

    def text(self, r):
        ps = []
        for n, ty, lst in self.params:
            if ty == "gen":
                ps.append("(%s_T Type) (%s %s_T)" % (n, n, n))
            else:
                ps.append("(%s %s%s)" % (n, W.show_type(ty), " :list" if lst else ""))
        sp = lambda t: W.spell(t, r)
        s = "(declare-rule %s (%s)" % (self.name, " ".join(ps))
        if self.assumption is not None:
            s += " :assumption " + sp(self.assumption)
        if self.plist:
            s += " :premise-list %s %s" % (sp(self.premises[0]), self.plist)
        elif self.premises or r.random() < 0.2:
            s += " :premises (%s)" % " ".join(sp(p) for p in self.premises)
        if self.args or r.random() < 0.2:
            s += " :args (%s)" % " ".join(sp(p) for p in self.args)
        if self.reqs:
            s += " :requires (%s)" % " ".join("(%s %s)" % (sp(p), sp(q)) for p, q in self.reqs)
        s += " :conclusion%s %s)" % ("-explicit" if self.explicit else "", sp(self.concl))
        return s

    def apply(self, premises, args, stated, assumption=None, is_pop=False):
        """Conclusion derived, or None when the step must be rejected.
        premises: formulas, or ('notproof',)."""
        if (self.assumption is not None) != is_pop:
            return None
        if self.explicit and stated is None:
            return None
        ctx = {}
        if len(args) != len(self.args):
            if not self.plist and len(args) + len(premises) == len(self.args) + len(self.premises):
                # premises given in the place of arguments: existing tests of
                # the project rely on this being accepted, so it is not judged
                raise Unjudged()
            return None
        if any(p == ("notproof",) for p in premises):
            return None
        if self.plist:
            premises = [W.nary(self.plist, premises)]
        if len(premises) != len(self.premises):
            return None
        todo = list(zip(self.args, args)) + list(zip(self.premises, premises))
        if self.explicit:
            todo.append((self.concl, stated))
        if is_pop:
            todo.append((self.assumption, assumption))
        for p, t in todo:
            if not RW.match(p, t, ctx):
                return None
        m = RW.Machine()
        for p, q in self.reqs:
            x, y = m.ev(p, ctx), m.ev(q, ctx)
            if x is None or x != y:
                return None
        c = m.ev(self.concl, ctx)
        if c is None or W.type_of(c) != "Bool":
            return None
        if stated is not None and stated != c:
            return None
        return c


def leaf_of(params):
    def leaf(r, ty):
        c = [("p", n) + (("list",) if lst else ()) for n, t, lst in params
             if (t == ty or (t == "gen" and False)) and not lst]
        return r.choice(c) if c and r.random() < 0.8 else None
    return leaf


def pattern(r, params, ty, depth):
    lists = [p for p in params if p[2]]
    gens = [p for p in params if p[1] == "gen"]
    if ty == "Bool" and lists and r.random() < 0.35:
        op = r.choice(["or", "and"])
        t = ("p", r.choice(lists)[0], "list")
        for _ in range(r.randint(0 if r.random() < 0.2 else 1, 2)):
            t = A(S(op), pattern(r, params, "Bool", depth - 1), t)
        return t
    if ty == "Bool" and gens and r.random() < 0.35:
        g1 = r.choice(gens)
        same = [g1] if r.random() < 0.4 else gens
        return A(S("="), ("p", g1[0]), ("p", r.choice(same)[0]))
    fs = [p for p in params if isinstance(p[1], tuple) and p[1][2] == ty]
    if fs and r.random() < 0.3:
        p = r.choice(fs)
        return A(("p", p[0]), pattern(r, params, p[1][1], depth - 1))
    return W.gen(r, ty, depth, leaf_of(params))


FORBID = {"Bool": [S("a"), S("b"), V.TRUE], "U": [S("x"), S("y")], "Int": [S("i"), V.num(3)], FU: [S("f")], FB: [S("not")]}


def rand_rule(r, name):
    R = Rule()
    R.name = name
    if r.random() < 0.04:
        R.concl = W.gen(r, "Bool", 2)
        return R
    wide = r.random() < 0.2      # many arguments, premises and requirements
    n = r.randint(4, 9) if wide else r.randint(1, 4)
    for k in range(n):
        ty = r.choice(PTYPES)
        R.params.append(("p%d" % k, ty, False))
    if r.random() < 0.3:
        R.params.append(("ps", "Bool", True))
    ps = R.params
    if r.random() < 0.12:
        R.plist = r.choice(["and", "or", "xor"])
        R.premises = [("p", r.choice([p[0] for p in ps if p[1] == "Bool"] or ["p0"])) if r.random() < 0.5
                      else pattern(r, ps, "Bool", 2)]
        if R.premises[0] == ("p", "p0") and not any(p[0] == "p0" for p in ps):
            return rand_rule(r, name)
        if R.premises[0][0] == "p" and R.premises[0][1] == "ps":
            return rand_rule(r, name)
    else:
        R.premises = [pattern(r, ps, "Bool", r.choice([0, 1, 2, 2])) for _ in range(r.choice([3, 4, 5, 7] if wide else [0, 1, 1, 2, 2, 3]))]
    R.args = []
    for _ in range(r.choice([0, 4, 6, 8, 9] if wide else [0, 0, 1, 1, 2, 3])):
        if r.random() < (0.85 if wide else 0.5):
            p = r.choice(ps)
            R.args.append(("p", p[0]) + (("list",) if p[2] else ()))
        else:
            R.args.append(pattern(r, ps, r.choice(["Bool", "Bool", "U", "Int", FU]), r.choice([1, 1, 2])))
    if r.random() < 0.12:
        R.assumption = pattern(r, ps, "Bool", r.choice([0, 1, 2]))
    if r.random() < 0.15:
        R.explicit = True
        R.concl = pattern(r, ps, "Bool", r.choice([0, 1, 2, 2]))
    bound = []
    for p in R.args + R.premises + ([R.assumption] if R.assumption else []) + ([R.concl] if R.explicit else []):
        RW.params(p, bound)
    bp = [p for p in ps if p[0] in bound]
    if not (R.args or R.premises or R.assumption or R.explicit):
        return rand_rule(r, name)
    # patterns that are a bare list parameter under an operator etc. are fine;
    # only parameters that occur may be used below
    if not R.explicit:
        c = pattern(r, bp, "Bool", r.choice([0, 1, 2, 2, 3]))
        bools = [p for p in bp if p[1] == "Bool" and not p[2]]
        if r.random() < 0.3:
            c = conc_eval(r, bp, c)
        R.concl = c
    many = r.choice([3, 4, 5, 6]) if r.random() < (0.4 if wide else 0.08) else 0
    while len(R.reqs) < many or r.random() < 0.3 and len(R.reqs) < 3:
        q = requirement(r, bp)
        if not bp:
            break
        if many and r.random() < 0.6:
            # requirements that mostly hold
            x, y = [("p", z[0]) + (("list",) if z[2] else ()) for z in (r.choice(bp), r.choice(bp))]
            q = r.choice([(E("eq", x, x), V.TRUE), (E("is_eq", x, S("d")), V.FALSE), (E("eq", x, r.choice([S("a"), S("x"), V.num(7)])), V.FALSE), (x, x),
                          (E("is_eq", x, y), V.B(x == y))])
        if q:
            R.reqs.append(q)
    only = [p for p in R.args if p[0] == "p" and len(p) == 2 and R.args.count(p) == 1 and dict((a, b) for a, b, _ in bp).get(p[1]) in FORBID]
    if many and only:
        # requirements that fail for one value of an argument
        for _ in range(r.choice([1, 2])):
            x = r.choice(only)
            R.reqs.insert(len(R.reqs) if r.random() < 0.6 else r.randint(0, len(R.reqs)), (E("is_eq", x, r.choice(FORBID[dict((a, b) for a, b, _ in bp)[x[1]]])), V.FALSE))
    used = []
    for p in R.args + R.premises + ([R.assumption] if R.assumption else []) + [R.concl] + [x for q in R.reqs for x in q]:
        RW.params(p, used)
    R.params = [p for p in ps if p[0] in used]
    # extra, unused parameters are allowed
    return R


def E(op, *xs):
    return ("e", op) + xs


def conc_eval(r, bp, c):
    lists = [("p", p[0], "list") for p in bp if p[2]]
    bools = [("p", p[0]) for p in bp if p[1] == "Bool" and not p[2]]
    k = r.random()
    if k < 0.35 and lists:
        return E("list_concat", S("or"), r.choice(lists), r.choice(lists + [W.nary("or", [c])]))
    if k < 0.5 and lists:
        return E(r.choice(["list_rev", "list_setof", "list_singleton_elim"]), S(r.choice(["or", "and"])), r.choice(lists))
    if k < 0.7 and len(bools) > 0:
        return E("ite", E("eq", r.choice(bools), r.choice(bools + [S("a"), V.TRUE])), c, A(S("not"), c))
    if k < 0.85 and bools:
        return E("requires", r.choice(bools), r.choice(bools + [S("a")]), c)
    if bools:
        return A(S("not"), E("ite", E("is_bool", r.choice(bools)), c, r.choice(bools)))
    return c


def requirement(r, bp):
    if not bp:
        return None
    p = r.choice(bp)
    x = ("p", p[0]) + (("list",) if p[2] else ())
    others = [("p", q[0]) + (("list",) if q[2] else ()) for q in bp if q[1] == p[1]]
    k = r.random()
    if p[2] and k < 0.7:
        return r.choice([
            (E("list_len", S("or"), x), V.num(r.randint(0, 3))),
            (E("list_find", S("or"), x, S("a")), V.num(r.choice([-1, 0, 1]))),
            (E("is_ok", E("list_len", S("and"), x)), V.B(r.random() < 0.5)),
        ])
    if p[1] == "Int" and k < 0.7:
        return r.choice([
            (E("is_neg", x), V.B(r.random() < 0.3)),
            (E("add", x, V.num(1)), E("add", V.num(1), x)),
            (E("is_z", x), V.TRUE),
            (E("gt", x, V.num(3)), V.B(r.random() < 0.5)),
        ])
    if k < 0.35:
        return (E("eq", x, r.choice(others)), V.B(r.random() < 0.5))
    if k < 0.5:
        return (x, r.choice(others))
    if k < 0.6 and p[1] in W.SORTS:
        return (x, W.gen(r, p[1], 1, leaf_of(bp)))
    if k < 0.8:
        return (E("is_eq", x, r.choice(others)), V.FALSE)
    return (E("eq", x, x), V.TRUE)


def rand_inst(r, p):
    n, ty, lst = p
    if lst:
        if r.random() < 0.9:
            return W.nary(r.choice(["or", "or", "and"]), [W.gen(r, "Bool", r.choice([0, 0, 1])) for _ in range(r.randint(0, 3))])
        return W.gen(r, "Bool", 1)
    if ty == "gen":
        ty = r.choice(W.SORTS)
    return W.gen(r, ty, r.choice([0, 0, 1, 1, 2]))


class Cmd:
    """kind: assume | push | step | pop | term (undeclared / non-proof use)"""
    __slots__ = ("kind", "name", "formula", "rule", "premises", "args", "stated")

    def __init__(self, kind, name, formula=None, rule=None, premises=(), args=(), stated=None):
        self.kind, self.name, self.formula, self.rule = kind, name, formula, rule
        self.premises, self.args, self.stated = list(premises), list(args), stated

    def copy(self):
        return Cmd(self.kind, self.name, self.formula, self.rule, self.premises, self.args, self.stated)

    def text(self, r):
        sp = lambda t: W.spell(t, r)
        if self.kind in ("assume", "push"):
            return "(%s %s %s)" % ("assume" if self.kind == "assume" else "assume-push", self.name, sp(self.formula))
        s = "(%s %s" % ("step" if self.kind == "step" else "step-pop", self.name)
        if self.stated is not None:
            s += " " + sp(self.stated)
        s += " :rule " + self.rule.name
        if self.premises:
            s += " :premises (%s)" % " ".join(self.premises)
        if self.args:
            s += " :args (%s)" % " ".join(sp(x) for x in self.args)
        return s + ")"


def simulate(cmds):
    """Index of the first command that must be rejected, or None; with facts."""
    facts = {}
    scopes = []
    for n, cmd in enumerate(cmds):
        if cmd.kind == "assume":
            facts[cmd.name] = cmd.formula
        elif cmd.kind == "push":
            scopes.append((dict(facts), cmd.formula))
            facts[cmd.name] = cmd.formula
        else:
            pr = []
            for p in cmd.premises:
                if p in facts:
                    pr.append(facts[p])
                elif p in W.TYPES:
                    pr.append(("notproof",))
                else:
                    return n, facts
            if cmd.kind == "pop":
                if not scopes:
                    return n, facts
                c = cmd.rule.apply(pr, cmd.args, cmd.stated, scopes[-1][1], True)
            else:
                c = cmd.rule.apply(pr, cmd.args, cmd.stated)
            if c is None:
                return n, facts
            if cmd.kind == "pop":
                facts = scopes.pop()[0]
            facts[cmd.name] = c
    if scopes:
        return len(cmds), facts
    return None, facts


def build_proof(r, rules, nsteps):
    cmds = []
    facts = {}
    cnt = [0]

    def fresh():
        cnt[0] += 1
        return "@p%d" % cnt[0]
    for _ in range(r.randint(0, 3)):
        n = fresh()
        cmds.append(Cmd("assume", n, W.gen(r, "Bool", r.choice([0, 1, 2]))))
        facts[n] = cmds[-1].formula
    tries = 0
    done = 0
    while done < nsteps and tries < nsteps * 12:
        tries += 1
        R = r.choice(rules)
        ctx = {}
        prem = [None] * len(R.premises)
        names = list(facts)
        if not R.plist:
            for q, p in enumerate(R.premises):
                if names and r.random() < 0.5:
                    for n in r.sample(names, min(4, len(names))):
                        c2 = dict(ctx)
                        if RW.match(p, facts[n], c2):
                            ctx, prem[q] = c2, n
                            break
        by = {p[0]: p for p in R.params}
        for p in R.params:
            if p[0] not in ctx:
                if r.random() < 0.3 and ctx:
                    same = [v for k, v in ctx.items() if by[k][1] == p[1] and by[k][2] == p[2]]
                    if same:
                        ctx[p[0]] = r.choice(same)
                        continue
                ctx[p[0]] = rand_inst(r, p)
        m = RW.Machine()
        pre = []
        plist_terms = None
        if R.plist:
            full = m.ev(R.premises[0], ctx)
            xs = None
            if R.premises[0][0] == "p":
                xs = [r.choice(list(facts.values())) if facts and r.random() < 0.6 else W.gen(r, "Bool", 1)
                      for _ in range(r.choice([0, 1, 2, 3, 4]))]
                ctx[R.premises[0][1]] = W.nary(R.plist, xs)
            elif full is not None:
                xs = W.flat(full, R.plist)
            if xs is None:
                continue
            need = xs
        else:
            need = []
            for q, p in enumerate(R.premises):
                need.append(facts[prem[q]] if prem[q] else m.ev(p, ctx))
        if any(W.type_of(t) != "Bool" for t in need):
            continue
        args = [m.ev(p, ctx) for p in R.args]
        if any(W.type_of(t) is None for t in args if T.spine(t)[0] != S("=")):
            continue
        asm = m.ev(R.assumption, ctx) if R.assumption is not None else None
        if asm is not None and W.type_of(asm) != "Bool":
            continue
        if R.explicit:
            stated = m.ev(R.concl, ctx)
            if W.type_of(stated) != "Bool":
                continue
        else:
            stated = None
        c = R.apply(need, args, stated, asm, asm is not None)
        if c is None or T.size(c) > 200 or any(T.size(t) > 300 for t in need + args):
            continue
        if not R.explicit and r.random() < 0.75:
            stated = c
        inv = {}
        for n, t in facts.items():
            inv.setdefault(t, []).append(n)
        nm = []
        new = []
        for t in need:
            if t in inv and r.random() < 0.9:
                nm.append(r.choice(inv[t]))
            else:
                n = fresh()
                new.append(Cmd("assume", n, t))
                inv.setdefault(t, []).append(n)
                facts[n] = t
                nm.append(n)
        cmds += new
        if asm is not None:
            n = fresh()
            cmds.append(Cmd("push", n, asm))
            if r.random() < 0.4 and rules:
                # use the local assumption itself as a premise where it fits
                for q, t in enumerate(need):
                    if t == asm:
                        nm[q] = n
        n = fresh()
        cmds.append(Cmd("pop" if asm is not None else "step", n, None, R, nm, args, stated))
        facts[n] = c
        done += 1
    return cmds


def mutate(r, cmds, rules):
    cmds = [x.copy() for x in cmds]
    ix = [k for k, x in enumerate(cmds) if x.kind in ("step", "pop")]
    if not ix:
        return None, None
    k = r.choice(ix)
    s = cmds[k]
    prev = [x.name for x in cmds[:k]]
    kinds = ["concl", "concl", "rule", "arg", "arg+", "arg-", "argswap", "prem", "prem", "prem+", "prem-", "premswap",
             "premdup", "req", "req", "notproof", "undeclared", "later", "kind", "assumed", "omit", "argnear", "concnear"]
    kind = r.choice(kinds)
    if kind in ("concl", "concnear"):
        if s.stated is None:
            # compute and misstate it
            n, facts = simulate(cmds[:k + 1])
            base = facts.get(s.name)
            if base is None:
                return None, None
            s.stated = base
        s.stated = W.mutate(r, s.stated) if kind == "concnear" else W.gen(r, "Bool", r.choice([0, 1, 2]))
    elif kind == "omit":
        if s.stated is None:
            return None, None
        s.stated = None
    elif kind == "rule":
        s.rule = r.choice(rules)
    elif kind in ("arg", "argnear"):
        if not s.args:
            return None, None
        q = r.randrange(len(s.args))
        ty = W.type_of(s.args[q])
        if ty is None:
            return None, None
        if kind == "argnear" and ty in W.SORTS:
            s.args[q] = W.mutate(r, s.args[q])
        else:
            s.args[q] = W.gen(r, ty, 1) if ty in W.SORTS or ty in (FU, FB) else S("a")
    elif kind == "req":
        has = [z for z in ix if any(v == V.FALSE and t[:2] == ("e", "is_eq") and t[2] in cmds[z].rule.args for t, v in cmds[z].rule.reqs)]
        if has:
            s = cmds[r.choice(has)]
        c = [(x, t[3]) for t, v in s.rule.reqs if v == V.FALSE and t[:2] == ("e", "is_eq") for x in [t[2]] if x in s.rule.args and t[3][0] != "p"]
        if not c or len(s.args) != len(s.rule.args):
            return None, None
        x, v = r.choice(c)
        s.args[s.rule.args.index(x)] = v
        if r.random() < 0.7:
            s.stated = None if not s.rule.explicit else s.stated
    elif kind == "arg+":
        s.args.insert(r.randint(0, len(s.args)), W.gen(r, r.choice(W.SORTS), 1))
    elif kind == "arg-":
        if not s.args:
            return None, None
        s.args.pop(r.randrange(len(s.args)))
    elif kind == "argswap":
        if len(s.args) < 2:
            return None, None
        r.shuffle(s.args)
    elif kind == "prem":
        if not s.premises or not prev:
            return None, None
        s.premises[r.randrange(len(s.premises))] = r.choice(prev)
    elif kind == "prem+":
        if not prev:
            return None, None
        s.premises.insert(r.randint(0, len(s.premises)), r.choice(prev))
    elif kind == "prem-":
        if not s.premises:
            return None, None
        s.premises.pop(r.randrange(len(s.premises)))
    elif kind == "premswap":
        if len(s.premises) < 2:
            return None, None
        r.shuffle(s.premises)
    elif kind == "premdup":
        if not s.premises:
            return None, None
        s.premises.append(s.premises[0])
    elif kind == "notproof":
        if not s.premises:
            return None, None
        s.premises[r.randrange(len(s.premises))] = r.choice(["a", "b", "x"])
    elif kind == "undeclared":
        if not s.premises:
            return None, None
        s.premises[r.randrange(len(s.premises))] = "@none"
    elif kind == "later":
        if not s.premises:
            return None, None
        s.premises[r.randrange(len(s.premises))] = s.name
    elif kind == "kind":
        s.kind = "pop" if s.kind == "step" else "step"
    elif kind == "assumed":
        q = [x for x in cmds[:k] if x.kind in ("assume", "push")]
        if not q:
            return None, None
        x = r.choice(q)
        x.formula = W.mutate(r, x.formula)
    return kind, cmds


def judge(c, prelude, cmds, r, variant, label):
    try:
        bad, facts = simulate(cmds)
    except Unjudged:
        c.count("unjudged")
        return
    lines = [x.text(r) for x in cmds]
    text = prelude + "\n".join(lines) + "\n"
    res = c.run({"t.eo": text}, variant=variant)
    base = prelude.count("\n")
    c.seen(tuple(lines[max(0, (bad or 0) - 3):(bad or 0) + 1]) if bad is not None else tuple(lines))
    c.count("must_accept" if bad is None else "must_reject")
    if bad is None:
        if res.kind != "correct":
            if res.kind == "timeout":
                c.inconclusive += 1
                return
            c.violation("rejected:" + label, "a proof whose every step follows was not accepted (%s)" % label,
                        {"t.eo": text}, expected="correct", observed=res.brief())
        return
    if res.kind == "timeout":
        c.inconclusive += 1
        return
    if res.kind != "reject":
        c.violation("accepted:" + label, "a proof with a step that does not follow was not rejected (%s)" % label,
                    {"t.eo": text}, expected="rejected at line %d: %s" % (base + bad + 1, lines[bad] if bad < len(lines) else "end"),
                    observed=res.brief())
        return
    p = res.pos()
    if bad < len(lines) and (p is None or p[1] != base + bad + 1):
        c.violation("position:" + label, "the wrong step was rejected (%s)" % label, {"t.eo": text},
                    expected="error at line %d: %s" % (base + bad + 1, lines[bad]), observed=res.brief())


def batch_run(c, seed, nrules, nproofs, nmut):
    import random
    r = random.Random(seed)
    rules = []
    texts = []
    for k in range(nrules):
        R = rand_rule(r, "r%d" % k)
        rules.append(R)
        texts.append(R.text(r))
    prelude = W.DECLS + "\n".join(texts) + "\n"
    vs = ["dbg", "rel", "rel", "san"]
    for q in range(nproofs):
        cmds = build_proof(r, rules, r.choice([4, 10, 20]))
        nst = sum(1 for x in cmds if x.kind in ("step", "pop"))
        c.count("valid_steps", nst)
        for x in cmds:
            if x.rule is not None:
                R = x.rule
                c.count("steps_" + ("assumption" if R.assumption is not None else "explicit" if R.explicit else
                                    "premise_list" if R.plist else "requires" if R.reqs else "plain"))
        judge(c, prelude, cmds, r, r.choice(vs), "valid")
        short = [cmds] + [build_proof(r, rules, r.choice([1, 2, 3])) for _ in range(3)]
        for _ in range(nmut):
            kind, mc = mutate(r, r.choice(short), rules)
            if kind is None:
                continue
            c.count("mut_" + kind)
            judge(c, prelude, mc, r, r.choice(vs), kind)
            if len(c.pending) > 3:
                return
    c.sample(texts[0])


def bad_rules(c, r, n):
    """Rule declarations that are not well defined must be rejected."""
    for q in range(n):
        k = r.randrange(7)
        ps = "((F Bool) (G Bool) (u U))"
        bound = r.choice(["F", "(not F)", "(imp F a)", "(or F b)"])
        if k == 0:
            t = "(declare-rule r %s :premises (%s) :conclusion %s)" % (ps, bound, r.choice(["G", "(not G)", "(or F G)", "(P u)"]))
        elif k == 1:
            t = "(declare-rule r %s :premises (%s) :requires ((%s true)) :conclusion F)" % (ps, bound, r.choice(["G", "(eo::eq G F)", "(P u)"]))
        elif k == 2:
            t = "(declare-rule r %s :premises (%s) :conclusion true)" % (ps, r.choice(["(eo::ite F G a)", "(eo::requires F G a)", "(not (eo::eq F G))"]))
        elif k == 3:
            t = "(declare-rule r %s :args (%s) :conclusion true)" % (ps, r.choice(["(eo::not F)", "(eo::typeof u)", "(f (eo::as u U) (eo::eq F G))"]))
        elif k == 4:
            t = "(declare-rule r %s :premises (%s))" % (ps, bound)
        elif k == 5:
            t = "(declare-rule r () :conclusion %s)" % r.choice(["F", "(eo::neg a)", "(eo::requires a b true)"])
        else:
            t = "(assume-push h a)\n(declare-rule r %s :premises (%s) :conclusion F)" % (ps, bound)
        text = W.DECLS + t + "\n"
        res = c.run({"t.eo": text}, variant=r.choice(["dbg", "rel"]))
        c.seen(t)
        c.count("bad_rule_declarations")
        p = res.pos()
        if res.kind != "reject" or not p or p[1] != text.count("\n"):
            c.violation("badrule:%d" % k, "an ill-defined rule declaration was not rejected: " + t, {"t.eo": text},
                        expected="rejected", observed=res.brief())


PLOPS = [(":right-assoc-nil nl", "right", "nil"), (":left-assoc-nil nl", "left", "nil"),
         (":right-assoc-non-singleton-nil nl", "right", "nsn"), (":left-assoc-non-singleton-nil nl", "left", "nsn"),
         (":right-assoc", "right", None), (":left-assoc", "left", None),
         (":chainable con", "chain", None), (":pairwise con", "pair", None)]


def curry(f, *xs):
    for x in xs:
        f = "(_ %s %s)" % (f, x)
    return f


def gathered(shape, nil, xs):
    """The formula a premise list is gathered into, fully parenthesised; None
    when the step must be rejected, "?" when it is not judged."""
    if not xs:
        return "nl" if nil else None
    if len(xs) == 1:
        if shape in ("chain", "pair"):
            return "?"
        if nil != "nil":
            return xs[0]
    if shape in ("right", "left"):
        xs = list(xs)
        if shape == "right":
            e = "nl" if nil else xs.pop()
            for q in reversed(xs):
                e = curry("op", q, e)
        else:
            e = "nl" if nil else xs.pop(0)
            for q in xs:
                e = curry("op", e, q)
        return e
    ps = [(k, k + 1) for k in range(len(xs) - 1)] if shape == "chain" else \
         [(k, l) for k in range(len(xs)) for l in range(k + 1, len(xs))]
    ps = [curry("op", xs[k], xs[l]) for k, l in ps]
    if len(ps) == 1:
        return ps[0]
    e = "nl"
    for q in reversed(ps):
        e = curry("con", q, e)
    return e


def premise_lists(c, seed, n):
    """Rules with a premise list for operators of every attribute."""
    import random
    r = random.Random(seed)
    for q in range(n):
        att, shape, nil = r.choice(PLOPS)
        decl = ["(declare-const nl Bool)", "(declare-const not (-> Bool Bool))",
                "(declare-const con (-> Bool Bool Bool) :right-assoc-nil nl)",
                "(declare-const op (-> Bool Bool Bool) %s)" % att] + ["(declare-const %s Bool)" % a for a in "abcd"]
        # what the rule does with the gathered formula
        wrap = r.random() < 0.3
        arg = r.random() < 0.3
        rule = "(declare-rule r ((F Bool)%s) :premise-list F op %s:conclusion %s)" % (
            " (G Bool)" if arg else "", ":args (G) " if arg else "",
            ("(not F)" if wrap else "F") if not arg else "(con (not F) G)" if wrap else "(con F G)")

        def concl(e):
            e = "(_ not %s)" % e if wrap else e
            return "(_ (_ con %s) (_ (_ con c) nl))" % e if arg else e

        forms = r.sample(["a", "b", "c", "d", "(_ not a)", "(_ not b)", "(_ (_ op a) b)", "(_ (_ op b) nl)", "(_ (_ con a) nl)", "nl"], 6)
        asm = ["(assume p%d %s)" % (k, f) for k, f in enumerate(forms)]
        ks = [r.randrange(6) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 7]))]
        good = gathered(shape, nil, [forms[k] for k in ks])
        if good == "?":
            continue
        # the stated conclusion: right, that of a changed list, or the one left out
        how = r.choice(["right", "right", "omitted", "changed", "changed"])
        stated = good
        if how == "changed" or good is None:
            ks2 = list(ks)
            m = r.choice(["drop", "add", "swap", "other"])
            if m == "drop" and ks2:
                ks2.pop(r.randrange(len(ks2)))
            elif m == "swap" and len(ks2) > 1:
                k = r.randrange(len(ks2) - 1)
                ks2[k], ks2[k + 1] = ks2[k + 1], ks2[k]
            elif m == "other" and ks2:
                ks2[r.randrange(len(ks2))] = r.randrange(6)
            else:
                ks2.insert(r.randint(0, len(ks2)), r.randrange(6))
            stated = gathered(shape, nil, [forms[k] for k in ks2])
            if stated in (None, "?"):
                stated = "a"
        want = good is not None and stated == good
        step = "(step s %s:rule r :premises (%s)%s)" % (
            "" if how == "omitted" and want else concl(stated) + " ", " ".join("p%d" % k for k in ks), " :args (c)" if arg else "")
        lines = decl + [rule] + asm + [step]
        if how == "omitted" and want:
            # what was derived shows when a second rule takes it as its premise
            lines += ["(declare-rule keep ((F Bool)) :premises (%s) :conclusion true)" % concl(good),
                      "(step t true :rule keep :premises (s))"]
        text = "\n".join(lines) + "\n"
        res = c.run({"t.eo": text}, variant=r.choice(["dbg", "rel", "rel", "san"]))
        c.seen((att, tuple(forms), tuple(ks), step))
        c.count("premise_list_steps")
        c.count("plist_" + att.split()[0][1:] + ("_valid" if want else "_wrong"))
        if (res.kind == "correct") != want or (not want and res.kind != "reject"):
            c.violation("plist:" + att + ":%d" % len(ks), "a step with the premise list (%s) of %s" % (" ".join(forms[k] for k in ks), att),
                        {"t.eo": text}, expected="correct" if want else "rejected", observed=res.brief())
            if len(c.pending) > 3:
                return


def run(c):
    c.rule = ("random rules (argument/premise patterns, premise lists, requirements with evaluation, explicit conclusions, "
              "assumptions, list and higher-order parameters), random multi-step proofs valid by construction and single-fault "
              "mutations of them, each judged by an independent Python checker incl. the line of the first wrong step; "
              "non-trivial = distinct proof judged")
    c.assumptions = ["arguments and premises are well typed (typing is C09's subject)",
                     "parameters match terms of any type, as documented for programs; conclusions must be Bool"]
    c.need("san", "dbg", "rel")
    n = c.n(200, 3000)
    seeds = ["%s-%d-%d" % (c.prop, c.seed, k) for k in range(n)]
    c.ppmap(lambda s: batch_run(c, s, 10, 4, 22), seeds)
    bad_rules(c, c.rng, c.n(60, 400))
    c.ppmap(lambda s: premise_lists(c, s, 40), ["%s-pl-%d-%d" % (c.prop, c.seed, k) for k in range(c.n(24, 400))])
