"""C04: histories of scope commands against a model of assumption scopes."""
import random

SIG = """(declare-const not (-> Bool Bool))
(declare-const imp (-> Bool Bool Bool))
(declare-const or (-> Bool Bool Bool) :right-assoc-nil false)
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-const p0 Bool) (declare-const p1 Bool) (declare-const p2 Bool) (declare-const p3 Bool)
(declare-rule id ((F Bool)) :premises (F) :conclusion F)
(declare-rule two ((F Bool) (G Bool)) :premises (F G) :conclusion (imp F G))
(declare-rule wk ((F Bool) (G Bool)) :premises (F) :args (G) :conclusion (imp G F))
(declare-rule ax ((F Bool)) :args (F) :conclusion (imp F F))
(declare-rule conj ((F Bool)) :premise-list F and :conclusion F)
(declare-rule dis ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (imp F G))
(declare-rule dis0 ((F Bool)) :assumption F :conclusion (imp F F))
(declare-rule disa ((F Bool) (G Bool)) :assumption F :args (G) :conclusion (imp F (imp G F)))
(declare-rule disn ((F Bool) (G Bool)) :assumption (not F) :premises (G) :conclusion (imp (not F) G))
(declare-rule dise ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion-explicit (imp F G))
(declare-rule disl ((F Bool) (G Bool)) :assumption F :premise-list G and :conclusion (imp F G))
(declare-rule disr ((F Bool) (G Bool)) :assumption F :premises (G) :requires (((eo::eq F G) true)) :conclusion (imp F G))
"""
TRUE = ("true",)


class Rejected(Exception):
    pass


def conj(xs):
    t = TRUE
    for x in reversed(xs):
        t = ("and", x, t)
    return t


def apply_rule(name, prem, args, asm, stated):
    """Conclusion or None. prem: list of formulas; asm: formula or None."""
    n = len(prem)
    if name in ("id", "two", "wk", "ax", "conj"):
        if asm is not None:
            return None
    elif asm is None:
        return None
    if name == "id" and n == 1 and not args:
        return prem[0]
    if name == "two" and n == 2 and not args:
        return ("imp", prem[0], prem[1])
    if name == "wk" and n == 1 and len(args) == 1:
        return ("imp", args[0], prem[0])
    if name == "ax" and n == 0 and len(args) == 1:
        return ("imp", args[0], args[0])
    if name == "conj" and not args:
        return conj(prem)
    if name == "dis" and n == 1 and not args:
        return ("imp", asm, prem[0])
    if name == "dis0" and n == 0 and not args:
        return ("imp", asm, asm)
    if name == "disa" and n == 0 and len(args) == 1:
        return ("imp", asm, ("imp", args[0], asm))
    if name == "disn" and n == 1 and not args and asm[0] == "not":
        return ("imp", asm, prem[0])
    if name == "dise" and n == 1 and not args and stated is not None and stated == ("imp", asm, prem[0]):
        return stated
    if name == "disl" and not args:
        return ("imp", asm, conj(prem))
    if name == "disr" and n == 1 and not args and asm == prem[0]:
        return ("imp", asm, asm)
    return None


class Model:
    def __init__(self):
        self.uid = 0
        self.scopes = [["base", [], None]]    # kind, bound names, assumption
        self.names = {}                        # name -> list of values
        for q in range(4):
            self.bind("p%d" % q, ("c", "p%d" % q))
        self.dead = []                         # names bound once
        self.closed = []                       # (name) bound in a closed scope

    def bind(self, name, v):
        self.names.setdefault(name, []).append(v)
        self.scopes[-1][1].append(name)

    def get(self, name):
        l = self.names.get(name)
        return l[-1] if l else None

    def close(self):
        k, names, a = self.scopes.pop()
        for n in reversed(names):
            self.names[n].pop()
            self.closed.append(n)

    def level(self):
        return sum(1 for s in self.scopes if s[0] == "asm")

    def open_asm(self):
        for s in reversed(self.scopes):
            if s[0] == "asm":
                return s[2]
        return None

    def step_pop(self):
        while self.scopes[-1][0] != "asm":
            self.close()
        self.close()

    def visible(self, kind):
        return [n for n, l in self.names.items() if l and l[-1][0] == kind]

    # formulas: ('c', id), ('not', F), ('imp', F, G), ('and', F, G), ('true',); a symbol bound to ('c', id) or ('t', F)
    def formula(self, r, depth=2):
        """(text, term)"""
        q = r.random()
        if depth == 0 or q < 0.5:
            ns = self.visible("c") + self.visible("t")
            n = r.choice(ns)
            v = self.get(n)
            return n, (v if v[0] == "c" else v[1])
        if q < 0.65:
            t, f = self.formula(r, depth - 1)
            return "(not %s)" % t, ("not", f)
        if q < 0.72:
            return "true", TRUE
        t, f = self.formula(r, depth - 1)
        u, g = self.formula(r, depth - 1)
        return "(imp %s %s)" % (t, u), ("imp", f, g)

    def spell(self, f):
        """Text denoting f here, or None."""
        if f[0] == "c":
            for n in self.visible("c"):
                if self.get(n) == f:
                    return n
            return None
        if f == TRUE:
            return "true"
        xs = [self.spell(x) for x in f[1:]]
        if None in xs:
            return None
        return "(%s %s)" % ("_ " + f[0] if f[0] == "and" else f[0], " ".join(xs))


NAMES = ["h", "s", "t", "a1", "a2", "@p1", "st", "u"]


def fresh(r, m):
    return r.choice(NAMES) if r.random() < 0.55 else "n%d" % r.randint(0, 60)


def step_line(r, m, name, is_pop, good):
    """A step or step-pop; returns (text, conclusion or None)."""
    pfs = m.visible("pf")
    asm = m.open_asm() if is_pop else None
    rules = ["dis", "dis", "dis", "dis0", "disa", "disn", "dise", "disl", "disr"] if is_pop else ["id", "id", "two", "wk", "ax", "conj"]
    if not good and r.random() < 0.15:
        rules = ["id", "ax", "wk"] if is_pop else ["dis", "dis0", "disa"]
    for _ in range(30):
        rule = r.choice(rules)
        n = {"id": 1, "two": 2, "wk": 1, "ax": 0, "conj": r.randint(0, 4), "dis": 1, "dis0": 0, "disa": 0, "disn": 1,
             "dise": 1, "disl": r.randint(0, 3), "disr": 1}[rule]
        if n and not pfs:
            continue
        prem = [r.choice(pfs) for _ in range(n)]
        # prefer recently bound names
        if r.random() < 0.5:
            prem = [r.choice(pfs[-4:]) for _ in range(n)]
        if rule == "disr" and r.random() < 0.8:
            c = [q for q in pfs if m.get(q)[1] == asm]
            if c:
                prem = [r.choice(c)]
        args = [m.formula(r)] if rule in ("wk", "ax", "disa") else []
        bad = None
        if not good:
            k = r.randrange(6)
            if k == 0 and prem and m.closed:
                q = r.choice(m.closed)
                prem[r.randrange(len(prem))] = q
            elif k == 1 and prem:
                q = r.choice(["zz", name, "nope"])
                prem[r.randrange(len(prem))] = q
            elif k == 2 and prem:
                q = r.choice(m.visible("c") + m.visible("t"))
                prem[r.randrange(len(prem))] = q
            elif k == 3:
                bad = "stated"
        fs = []
        unbound = False
        notpf = False
        for q in prem:
            v = m.get(q)
            if v is None:
                unbound = True
            elif v[0] != "pf":
                notpf = True
            else:
                fs.append(v[1])
        conc = None
        stated = None
        if not unbound and not notpf:
            if rule == "dise":
                stated = ("imp", asm, fs[0])
            conc = apply_rule(rule, fs, [a[1] for a in args], asm, stated)
        st = None
        if conc is not None:
            sp = m.spell(conc)
            if bad == "stated":
                # the conclusion for another assumption, or another premise
                cands = [m.get(q)[1] for q in pfs] or [TRUE]
                alt = r.choice([("imp", r.choice(cands), conc[-1] if conc[0] == "imp" else conc), r.choice(cands), ("not", conc)])
                st, stated = m.spell(alt), alt
                if st is None:
                    continue
                if rule == "dise" or alt != conc:
                    if alt != conc:
                        conc = None
            elif rule == "dise":
                if sp is None:
                    continue
                st = sp
            elif sp is not None and r.random() < 0.7:
                st = sp
        if conc is None and good:
            continue
        if rule == "dise" and st is None:
            st = "p0"
        text = "(%s %s%s :rule %s" % ("step-pop" if is_pop else "step", name, " " + st if st else "", rule)
        if prem or r.random() < 0.2:
            text += " :premises (%s)" % " ".join(prem)
        if args or (prem and r.random() < 0.1):
            text += " :args (%s)" % " ".join(a[0] for a in args)
        return text + ")", conc
    return None, None


def history(r, length, pbad, isfile):
    """Returns (lines, index of the rejected line | None | 'end', stats)."""
    m = Model()
    lines = []
    stats = {}

    def inc(k):
        stats[k] = stats.get(k, 0) + 1
    closing = length
    k = 0
    while k < length * 2 + 40:
        k += 1
        good = r.random() >= pbad
        name = fresh(r, m)
        if len(lines) >= closing and m.level() == 0:
            break
        q = r.random()
        nest = m.level()
        if len(lines) >= closing and good:
            if r.random() < 0.06 and k > length + 10:
                break                       # leave scopes open
            q = 0.8 if r.random() < 0.8 else q
        if q < 0.1:
            t, f = m.formula(r)
            if not good and m.closed:
                c = r.choice(m.closed)
                if m.get(c) is None and r.random() < 0.5:
                    lines.append("(assume %s (not %s))" % (name, c))
                    inc("bad_formula")
                    return lines, len(lines) - 1, stats
            lines.append("(assume %s %s)" % (name, t))
            m.bind(name, ("pf", f))
            inc("assume_nested" if nest else "assume")
        elif q < 0.28:
            t, f = m.formula(r)
            lines.append("(assume-push %s %s)" % (name, t))
            m.scopes.append(["asm", [], f])
            m.bind(name, ("pf", f))
            inc("assume_push")
        elif q < 0.52:
            text, conc = step_line(r, m, name, False, good)
            if text is None:
                continue
            lines.append(text)
            if conc is None:
                inc("bad_step")
                return lines, len(lines) - 1, stats
            m.bind(name, ("pf", conc))
            inc("step")
        elif q < 0.58:
            n = r.choice([1, 1, 1, 2, 3])
            lines.append("(push %d)" % n if n > 1 or r.random() < 0.5 else "(push)")
            for _ in range(n):
                m.scopes.append(["push", [], None])
            inc("push")
        elif q < 0.64:
            n = r.choice([1, 1, 1, 2])
            top = m.scopes[-n:] if len(m.scopes) > n else []
            okk = len(m.scopes) > n and all(s[0] == "push" for s in top)
            if okk != good and not (not good and not okk):
                continue
            lines.append("(pop %d)" % n if n > 1 or r.random() < 0.5 else "(pop)")
            if not okk:
                inc("bad_pop")
                return lines, len(lines) - 1, stats
            for _ in range(n):
                m.close()
            inc("pop")
        elif q < 0.70:
            n = r.choice(["c1", "c2", "h", "st", "q%d" % r.randint(0, 9)])
            if r.random() < 0.6:
                m.uid += 1
                lines.append("(declare-const %s Bool)" % n)
                m.bind(n, ("c", m.uid))
            else:
                t, f = m.formula(r)
                lines.append("(define %s () %s)" % (n, t))
                # a definition is the term it abbreviates
                m.bind(n, f if f[0] == "c" else ("t", f))
            inc("declare")
        elif q < 0.73:
            if nest and not good:
                lines.append(r.choice(['(include "sig2.eo")', "(declare-rule rr ((F Bool)) :premises (F) :conclusion F)"]))
                inc("bad_in_scope")
                return lines, len(lines) - 1, stats
            lines.append('(echo "%d")' % k)
        elif q < 0.74 and good and length > 6 and r.random() < 0.3:
            lines.append("(reset)")
            inc("reset")
            m2 = Model()
            m2.uid = m.uid + 1
            m = m2
            m.names = {}
            m.scopes = [["base", [], None]]
            lines.append("@SIG@")
            for z in range(4):
                m.bind("p%d" % z, ("c", "p%d" % z))
        else:
            if nest == 0:
                if not good:
                    lines.append("(step-pop %s :rule dis0)" % name)
                    inc("bad_steppop_level0")
                    return lines, len(lines) - 1, stats
                continue
            text, conc = step_line(r, m, name, True, good)
            if text is None:
                continue
            lines.append(text)
            if conc is None:
                inc("bad_step_pop")
                return lines, len(lines) - 1, stats
            m.step_pop()
            m.bind(name, ("pf", conc))
            inc("step_pop")
    if m.level():
        inc("open_at_end")
        return lines, "end", stats
    inc("accepted")
    return lines, None, stats


def judge(c, r, lines, bad, variant, mode):
    sig = SIG.replace("\n", " ").strip()
    lines = [(sig if l == "@SIG@" else l) for l in lines]
    files = {}
    stdin = None
    args = []
    main = None
    where = None
    if mode == "eo":
        files["t.eo"] = SIG + "\n".join(lines) + "\n"
        off = SIG.count("\n")
        where = "t.eo"
    elif mode == "proof":
        files["t.smt3"] = '(include "sig.eo")\n' + "\n".join(lines) + "\n"
        files["sig.eo"] = SIG
        main, off, where = "t.smt3", 1, "t.smt3"
    elif mode == "cmdline":
        files["t.smt3"] = "\n".join(lines) + "\n"
        files["sig.eo"] = SIG
        args, main, off, where = ["--include=sig.eo"], "t.smt3", 0, "t.smt3"
    elif mode == "included":
        files["m.eo"] = '(include "t.eo")\n(declare-const after Bool)\n'
        files["t.eo"] = SIG + "\n".join(lines) + "\n"
        main, off, where = "m.eo", SIG.count("\n"), "t.eo"
    elif mode == "cmdinclude":
        # the history is in a file included on the command line
        files["t.eo"] = SIG + "\n".join(lines) + "\n"
        files["m.eo"] = "(declare-const after Bool)\n"
        args, main, off, where = ["--include=t.eo"], "m.eo", SIG.count("\n"), "t.eo"
    else:
        stdin = SIG + "\n".join(lines) + "\n"
        off = SIG.count("\n")
    if "sig.eo" in files or mode in ("included", "eo", "stdin", "cmdinclude"):
        files["sig2.eo"] = "(declare-const late Bool)\n"
    res = c.run(files, main=main if main else ("t.eo" if stdin is None else None), args=args, variant=variant, stdin=stdin)
    c.count("mode_" + mode)
    if res.kind == "timeout":
        c.inconclusive += 1
        return
    label = mode
    mainf = main if main else "t.eo"
    if bad is None:
        if res.kind != "correct":
            c.violation("rejected:" + label, "a history whose assumptions are used properly was not accepted", files, args=args,
                        main=mainf, stdin=stdin, expected="correct", observed=res.brief())
        return
    if res.kind != "reject":
        what = "an input that ends with an open assumption scope was not rejected" if bad == "end" else \
            "a command that misuses assumption scopes was not rejected: " + lines[bad]
        c.violation("accepted:" + label, what, files, args=args, main=mainf, stdin=stdin, expected="rejected", observed=res.brief())
        return
    p = res.pos()
    # errors of pop give no position
    if bad != "end" and (not lines[bad].startswith("(pop") if p is None else p[1] != off + bad + 1):
        c.violation("position:" + label, "another command was rejected than the wrong one", files, args=args, main=mainf,
                    stdin=stdin, expected="error at line %d: %s" % (off + bad + 1, lines[bad]), observed=res.brief())
    if bad == "end" and p is not None and p[1] <= off + len(lines):
        c.violation("position:" + label, "a valid command was rejected", files, args=args, main=mainf,
                    stdin=stdin, expected="an error about the scope left open at the end", observed=res.brief())


MODES = ["eo", "eo", "proof", "stdin", "stdin", "cmdline", "included", "cmdinclude"]


def work(c, seed, n):
    r = random.Random(seed)
    for q in range(n):
        length = r.choice([2, 4, 6, 10, 16, 30, 60])
        lines, bad, stats = history(r, length, r.choice([0.0, 0.05, 0.15, 0.4]), True)
        for k, v in stats.items():
            c.count(k, v)
        mode = r.choice(MODES)
        if mode in ("included", "proof", "cmdline", "cmdinclude") and "@SIG@" in lines:
            mode = "eo"
        c.seen((mode, tuple(lines)))
        judge(c, r, lines, bad, r.choice(["rel", "rel", "dbg", "san"]), mode)
        if bad is None and len(lines) > 3:
            # the same history cut short (or ended by exit), perhaps with scopes open
            k = r.randrange(1, len(lines))
            cut = lines[:k] + (["(exit)"] + lines[k:][:2] if r.random() < 0.3 else [])
            end = "end" if level(lines[:k]) else None
            c.count("cut_open" if end else "cut_closed")
            c.seen((mode, tuple(cut)))
            # exit in an included file ends that file only, so not there
            if "(exit)" not in cut or mode in ("eo", "stdin", "proof", "cmdline"):
                judge(c, r, cut, end, r.choice(["rel", "dbg"]), mode)
        if len(c.pending) > 3:
            return
    c.sample("\n".join(lines[:20]))


def level(lines):
    n = 0
    for l in lines:
        n = n + 1 if l.startswith("(assume-push") else n - 1 if l.startswith("(step-pop") else 0 if l == "(reset)" else n
    return n


def deep(c):
    """Deep nesting, all closed in order, and with one scope left open."""
    for depth in (3, 60, 600):
        ls = []
        for k in range(depth):
            ls.append("(assume-push h%d (imp p%d %s))" % (k, k % 4, "true" if k % 3 else "p1"))
            if k % 5 == 0:
                ls.append("(push)")
        n = depth
        for k in reversed(range(depth)):
            # the premise is the previous conclusion, or the innermost assumption
            prem = "h%d" % k if k == depth - 1 else "c%d" % (k + 1)
            ls.append("(step-pop c%d :rule dis :premises (%s))" % (k, prem))
        r = random.Random(depth)
        for mode in ("eo", "stdin"):
            c.seen(("deep", depth, mode))
            judge(c, r, ls, None, "dbg", mode)
            judge(c, r, ls[:-1], "end", "dbg", mode)
            judge(c, r, ls + ["(step z :rule id :premises (c0))"], None, "rel", mode)
            judge(c, r, ls + ["(step z :rule id :premises (c1))"], len(ls), "rel", mode)
            judge(c, r, ls + ["(step z :rule id :premises (h0))"], len(ls), "rel", mode)


def run(c):
    c.rule = ("random histories of assume, assume-push, step, step-pop, push, pop, declarations, definitions, reset with heavy "
              "name reuse, delivered as file, proof file, standard input and included file; the model tracks scopes and says "
              "which command must be rejected; non-trivial = distinct history judged")
    c.assumptions = ["a name bound several times in reach denotes its most recent binding"]
    c.need("san", "dbg", "rel")
    deep(c)
    n = c.n(96, 4000)
    c.ppmap(lambda s: work(c, s, 60), ["%s-%d-%d" % (c.prop, c.seed, k) for k in range(n)])
