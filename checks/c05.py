"""C05: with a reference file, every later assume is one of its assertions."""
import random
from fractions import Fraction
import rewrite as RW
import terms as T
import values as V
import world as W
from terms import S, A

EXTRA = """(declare-const Real Type)
(declare-consts <rational> Real)
(declare-consts <decimal> Real)
(declare-const BV Type)
(declare-consts <binary> BV)
(declare-consts <hexadecimal> BV)
(declare-const inR (-> Real Bool)) (declare-const inB (-> BV Bool))
(declare-const @L Type)
(declare-const @nil @L)
(declare-parameterized-const @cons ((T Type :implicit)) (-> T @L @L) :right-assoc-nil @nil)
(declare-const forall (-> @L Bool Bool) :binder @cons)
(declare-parameterized-const lambda ((T Type :implicit)) (-> @L T (-> U T)) :binder @cons)
(define mac ((X Bool) (Y Bool)) (imp X (not Y)))
(define mac0 () (or a b))
(declare-rule id ((F Bool)) :premises (F) :conclusion F)
(declare-rule dis0 ((F Bool)) :assumption F :conclusion (imp F F))
"""
NFS = {
    None: None,
    "nf1": ("(program nf1 ((F Bool)) :signature (Bool) Bool (((nf1 (not (not F))) (nf1 F)) ((nf1 F) F)))",
            [([A(S("not"), A(S("not"), ("p", "F")))], ("e", "$nf1", ("p", "F"))), ([("p", "F")], ("p", "F"))]),
    "nf2": ("(program nf2 ((F Bool) (G Bool)) :signature (Bool) Bool (((nf2 (imp F G)) (or (not (nf2 F)) (nf2 G))) ((nf2 (not F)) (not (nf2 F))) ((nf2 F) F)))",
            [([A(S("imp"), ("p", "F"), ("p", "G"))],
              W.nary("or", [A(S("not"), ("e", "$nf2", ("p", "F"))), ("e", "$nf2", ("p", "G"))])),
             ([A(S("not"), ("p", "F"))], A(S("not"), ("e", "$nf2", ("p", "F")))), ([("p", "F")], ("p", "F"))]),
    # not idempotent
    "nf3": ("(program nf3 ((F Bool)) :signature (Bool) Bool (((nf3 (not (not F))) F) ((nf3 F) F)))",
            [([A(S("not"), A(S("not"), ("p", "F")))], ("p", "F")), ([("p", "F")], ("p", "F"))]),
    "nf4": ("(program nf4 ((F Bool) (G Bool)) :signature (Bool) Bool (((nf4 (imp F G)) (imp G F)) ((nf4 (not F)) F) ((nf4 F) (not F))))",
            [([A(S("imp"), ("p", "F"), ("p", "G"))], A(S("imp"), ("p", "G"), ("p", "F"))), ([A(S("not"), ("p", "F"))], ("p", "F")),
             ([("p", "F")], A(S("not"), ("p", "F")))]),
}
# quantified formulas: spellings of the same formula
QUANT = {
    "$q0": ["(forall ((vx U)) (P vx))", '(forall (@cons (eo::var "vx" U)) (P (eo::var "vx" U)))', '(_ forall (_ @cons (eo::var "vx" U) @nil) (P (eo::var "vx" U)))'],
    "$q1": ["(forall ((vy U)) (P vy))"],
    "$q2": ["(forall ((x U)) (P x))", '(forall ((x U)) (_ P (eo::var "x" U)))'],
    "$q3": ["(forall ((vx U) (vy U)) (R vx vy))", '(forall (@cons (eo::var "vx" U) (eo::var "vy" U)) (R (eo::var "vx" U) (eo::var "vy" U)))'],
    "$q4": ["(forall ((vy U) (vx U)) (R vx vy))"],
    "$q5": ["(forall ((vx U)) (P x))"],
    "$q6": ["(forall ((vx U)) (forall ((vy U)) (R vx vy)))"],
    "$q7": ["(forall ((vi Int)) (lt vi 3))"],
}
REFCONSTS = [("rp", "Bool", "(declare-fun rp () Bool)"), ("rq", "Bool", "(declare-const rq Bool)"),
             ("ru", "U", "(declare-fun ru () U)"), ("ri", "Int", "(declare-const ri Int)")]
# define-fun adds the equation as an assertion
DEFUN = [("(define-fun rd () Bool (or a b))", A(S("="), S("rd"), W.nary("or", [S("a"), S("b")]))),
         ("(define-fun re ((vz U)) Bool (P vz))", S("$re"))]
QUANT["$re"] = ["(= re (lambda ((vz U)) (P vz)))"]


class Opts:
    def __init__(self, nodec, nohex):
        self.nodec, self.nohex = nodec, nohex

    def args(self):
        return (["--no-normalize-dec"] if self.nodec else []) + (["--no-normalize-hex"] if self.nohex else [])

    def kinds(self, sig):
        """Literal kinds that can be written in a file."""
        return ["rat", "bin"] + (["dec"] if sig or self.nodec else []) + (["hex"] if sig or self.nohex else [])


def finite(q):
    d = q.denominator
    while d % 2 == 0:
        d //= 2
    while d % 5 == 0:
        d //= 5
    return d == 1


def lit_text(r, v, opts, sig):
    if v[0] == "rat" and not sig and not opts.nodec and finite(v[1]) and r.random() < 0.6:
        return V.dec_text(v[1]) + "0" * r.choice([0, 0, 1])
    if v[0] == "rat" and r.random() < 0.3:
        k = r.randint(2, 4)
        return "%d/%d" % (v[1].numerator * k, v[1].denominator * k)
    if v[0] == "bin" and not sig and not opts.nohex and v[1] % 4 == 0 and r.random() < 0.6:
        return "#x" + format(v[2], "0%dx" % (v[1] // 4))
    if v[0] == "dec":
        return V.dec_text(v[1]) + "0" * r.choice([0, 0, 1])
    return V.show(v)


def rand_lit(r, kinds):
    k = r.choice(kinds)
    if k in ("rat", "dec"):
        q = Fraction(r.choice([0, 1, 3, 5, -1, -7, 15, 10]), r.choice([1, 2, 4, 5, 10] + ([3, 7] if k == "rat" else [])))
        return (k, q)
    w = r.choice([4, 8, 8, 12])
    return (k, w, r.randrange(1 << w))


def leaf(consts, kinds):
    def f(r, ty):
        c = [S(n) for n, t, _ in consts if t == ty]
        if ty == "Bool":
            q = r.random()
            if q < 0.25:
                v = rand_lit(r, kinds)
                return A(S("inR" if v[0] in ("rat", "dec") else "inB"), v)
            if q < 0.4:
                return S(r.choice([k for k in QUANT if k != "$re"]))
        return r.choice(c) if c and r.random() < 0.5 else None
    return f


def subst_lits(r, t, opts, sig):
    if t[0] in ("rat", "dec", "bin", "hex"):
        return S(lit_text(r, t, opts, sig))
    if t[0] == "s" and t[1] in QUANT:
        return S(r.choice(QUANT[t[1]]))
    if t[0] == "@":
        return ("@", subst_lits(r, t[1], opts, sig), subst_lits(r, t[2], opts, sig))
    return t


def subterms(t, acc):
    acc.append(t)
    if t[0] == "@":
        subterms(t[1], acc)
        subterms(t[2], acc)
    return acc


def replace(t, s, n):
    if t == s:
        return n
    if t[0] == "@":
        return ("@", replace(t[1], s, n), replace(t[2], s, n))
    return t


def spell(r, t, opts, sig, macros=True):
    """Text of formula t in a file of the given kind."""
    u = subst_lits(r, t, opts, sig)
    if macros and r.random() < 0.2:
        u2 = replace(u, W.nary("or", [S("a"), S("b")]), S("mac0"))
        if u2 != S("mac0") or True:
            u = u2
    if r.random() < 0.3:
        cands = [s for s in subterms(u, []) if s[0] == "@" and W.type_of(s) in W.SORTS and s != u]
        if cands:
            s = r.choice(cands)
            body = replace(u, s, S("w0"))
            kw = "let" if not sig and r.random() < 0.5 else "eo::define"
            return "(%s ((w0 %s)) %s)" % (kw, W.spell(s, r), W.spell(body, r))
    if macros and u[0] == "@" and u[1][0] == "@" and u[1][1] == S("imp") and u[2][0] == "@" and u[2][1] == S("not") \
            and r.random() < 0.6:
        return "(mac %s %s)" % (W.spell(u[1][2], r), W.spell(u[2][2], r))
    return W.spell(u, r)


def near(r, t, kinds):
    """A slightly different formula."""
    q = r.random()
    lits = [s for s in subterms(t, []) if s[0] in ("rat", "dec", "bin", "hex")]
    if lits and q < 0.4:
        s = r.choice(lits)
        if s[0] in ("rat", "dec"):
            o = "dec" if s[0] == "rat" else "rat"
            n = (o, s[1]) if o in kinds and finite(s[1]) and r.random() < 0.6 else (s[0], s[1] + Fraction(1, 2))
        else:
            o = "hex" if s[0] == "bin" else "bin"
            n = (o,) + s[1:] if o in kinds and r.random() < 0.6 else (s[0], s[1], s[2] ^ 1) if r.random() < 0.6 else (s[0], s[1] + 4, s[2])
        return replace(t, s, n)
    qs = [s for s in subterms(t, []) if s[0] == "s" and s[1] in QUANT]
    if qs and q < 0.7:
        return replace(t, r.choice(qs), S(r.choice(sorted(k for k in QUANT if k != "$re"))))
    if q < 0.75:
        return A(S("not"), t)
    if q < 0.8:
        return W.nary(r.choice(["or", "and"]), [t])
    return W.mutate(r, t)


def related(r, f):
    """A formula whose normal form may be related to that of f."""
    q = r.random()
    if q < 0.4:
        return A(S("not"), A(S("not"), f))
    if q < 0.55:
        return A(S("not"), A(S("not"), A(S("not"), f)))
    if q < 0.7:
        return A(S("not"), f)
    h, args = T.spine(f)
    if h in (S("imp"), S("not")) and q < 0.9:
        return A(h, *args[::-1]) if h == S("imp") else args[0]
    return f


def scenario(r):
    opts = Opts(r.random() < 0.25, r.random() < 0.25)
    nf = r.choice([None, None, None, None, "nf1", "nf2", "nf3", "nf4"])
    mode = r.choice(["cmd", "cmd", "cmd", "hdr", "cmdline", "none"])
    if mode == "cmdline":
        nf = None
    mainkind = r.choice(["smt3", "smt3", "eo", "stdin"])
    sigfile = W.DECLS + EXTRA + "".join(v[0] + "\n" for v in NFS.values() if v)
    refkinds = opts.kinds(False)
    ref = ["(set-logic ALL)", "(set-info :status unsat)"]
    consts = REFCONSTS if mode != "none" else []
    ref += [d for _, _, d in REFCONSTS]
    asserts = []
    nass = r.choice([0, 1, 2, 4, 8, 30])
    for k in range(nass):
        f = W.gen(r, "Bool", r.choice([0, 1, 2, 3]), leaf(REFCONSTS, refkinds))
        if nf and r.random() < 0.3:
            f = related(r, f)
        if r.random() < 0.15 and asserts:
            f = near(r, r.choice(asserts), refkinds)
        asserts.append(f)
        ref.append("(assert %s)" % spell(r, f, opts, False))
        if r.random() < 0.1:
            ref.append(r.choice(["(check-sat)", "(set-option :produce-proofs true)", "(set-option :normalize-num true)",
                                 "(set-info :source |a b|)", "(declare-fun ff%d (U Int) Bool)" % k, "(define-sort ST%d () U)" % k]))
    if mode != "none" and r.random() < 0.4:
        for d, f in DEFUN:
            ref.append(d)
            asserts.append(f)
    ref.append("(check-sat)")
    if r.random() < 0.3:
        ref.append("(exit)")
    machine = RW.Machine({"$" + n: v[1] for n, v in NFS.items() if v})

    def norm(f):
        return f if nf is None else machine.call("$" + nf, [f], 0)
    allowed = {norm(f) for f in asserts}
    files = {"sig.eo": sigfile, "ref.smt2": "\n".join(ref) + "\n"}
    args = opts.args()
    bad = []                # (file, line)
    counts = {}

    def inc(k):
        counts[k] = counts.get(k, 0) + 1
    refcmd = '(reference "ref.smt2"%s)' % (" " + nf if nf else "")
    main = []
    state = {"ref": False, "names": 0}

    def assume_line(fname, sig, scoped):
        """One assume; returns text. Records whether it must be rejected."""
        kinds = opts.kinds(sig)
        q = r.random()
        if asserts and q < 0.75:
            f = r.choice(asserts)
        elif asserts and nf and q < 0.75 + pbad:
            f = related(r, r.choice(asserts))
            if r.random() < 0.4:
                f = norm(f)
        elif asserts and q < 0.75 + pbad:
            f = near(r, r.choice(asserts), kinds)
        elif r.random() < pbad:
            f = W.gen(r, "Bool", r.choice([0, 1, 2]), leaf(consts if state["ref"] else [], kinds))
        elif asserts:
            f = r.choice(asserts)
            if nf in ("nf3", "nf4"):
                # another formula with the same normal form
                g = related(r, f)
                f = g if norm(g) in allowed else f
            if nf == "nf1":
                f = A(S("not"), A(S("not"), f))
            elif nf == "nf2" and r.random() < 0.5 and f[0] == "@":
                f = replace(f, f, f)
        else:
            f = W.gen(r, "Bool", 1, leaf(consts if state["ref"] else [], kinds))
        for s in subterms(f, []):
            if s[0] in ("dec", "hex", "rat", "bin") and s[0] not in kinds:
                return None
            if not state["ref"] and s[0] == "s" and s[1] in ("rp", "rq", "ru", "ri", "rd", "$re"):
                return None
        okk = not state["ref"] or norm(f) in allowed
        state["names"] += 1
        inc("assume_ok" if okk else "assume_bad")
        if scoped:
            inc("assume_in_scope")
        return "(assume h%d %s)" % (state["names"], spell(r, f, opts, sig)), okk

    pbad = r.choice([0.0, 0.02, 0.1])
    if nf and r.random() < 0.3:
        pbad = 0.25
    elif r.random() < 0.4:
        pbad = 0.0

    nest = r.choice([0, 0, 0, 2, 3, 5])
    if nest and r.random() < 0.5:
        pbad = 0.4

    def body(fname, lines, sig, n, allow_files):
        depth = 0
        for j in range(n):
            q = r.random()
            if depth == 0 and nest and j >= 1 and r.random() < 0.5:
                # several local assumptions are open at once
                for _ in range(nest):
                    state["names"] += 1
                    lines.append("(assume-push g%d %s)" % (state["names"], spell(r, W.gen(r, "Bool", 1, leaf(consts if state["ref"] else [], opts.kinds(sig))), opts, sig)))
                    inc("assume_push")
                depth = nest
                inc("nested_scopes")
            elif q < 0.6:
                x = assume_line(fname, sig, depth > 0)
                if x is None:
                    continue
                lines.append(x[0])
                if not x[1]:
                    bad.append((fname, len(lines)))
                    # nothing but this assumption is wrong with the file
                    while depth:
                        state["names"] += 1
                        lines.append("(step-pop s%d :rule dis0)" % state["names"])
                        depth -= 1
                    return False
            elif q < 0.7:
                # local assumptions are exempt
                state["names"] += 1
                f = W.gen(r, "Bool", 1, leaf(consts if state["ref"] else [], opts.kinds(sig)))
                lines.append("(assume-push g%d %s)" % (state["names"], spell(r, f, opts, sig)))
                inc("assume_push")
                depth += 1
            elif q < 0.78 and depth:
                state["names"] += 1
                lines.append("(step-pop s%d :rule dis0)" % state["names"])
                depth -= 1
            elif q < 0.84:
                lines.append(r.choice(["(push)", "(declare-const e%d U)" % r.randint(0, 99), '(echo "e")', "(define zz () (or a b))"]))
            elif q < 0.95 and depth == 0 and allow_files:
                # another file, perhaps with assumptions of its own
                k = len(files)
                name = "inc%d.eo" % k
                sub = ["(declare-const j%d Int)" % k]
                files[name] = ""
                lines.append('(include "%s")' % name)
                inc("include_after_reference")
                okk = body(name, sub, True, r.choice([0, 0, 1, 3]), allow_files - 1)
                files[name] = "\n".join(sub) + "\n"
                if not okk:
                    return False
            elif q < 0.96 and depth == 0 and state["ref"]:
                lines.append(r.choice(['(reference "ref.smt2")', '(reference "sig.eo")', '(reference "ref2.smt2")']))
                files["ref2.smt2"] = "(assert a)\n"
                bad.append((fname, len(lines)))
                inc("second_reference")
                return False
        while depth:
            state["names"] += 1
            lines.append("(step-pop s%d :rule dis0)" % state["names"])
            depth -= 1
        return True

    mainname = {"smt3": "t.smt3", "eo": "t.eo", "stdin": None}[mainkind]
    sig = mainkind == "eo"
    go = True
    if mode == "cmdline":
        args += ["--include=sig.eo"]
        if r.random() < 0.3:
            files["before.eo"] = "(declare-const jb U)\n"
            args.append("--include=before.eo")
        args.append("--reference=ref.smt2")
        state["ref"] = True
        if r.random() < 0.4:
            lines = ["(declare-const jc U)"]
            go = body("after.eo", lines, True, r.choice([0, 1, 3]), 0)
            files["after.eo"] = "\n".join(lines) + "\n"
            args.append("--include=after.eo")
        if r.random() < 0.06 and go:
            args.append(r.choice(["--reference=ref.smt2", "--reference=ref2.smt2"]))
            files["ref2.smt2"] = "(assert a)\n"
            bad.append(None)
            inc("second_reference")
            go = False
    elif mode == "hdr":
        hdr = ['(include "sig.eo")', refcmd]
        main.append('(include "hdr.eo")')
        state["ref"] = True
        go = body("hdr.eo", hdr, True, r.choice([0, 0, 2]), 0)
        files["hdr.eo"] = "\n".join(hdr) + "\n"
    else:
        main.append('(include "sig.eo")')
        if mode == "cmd":
            if r.random() < 0.1:
                # assumptions made before a reference was read are not checked
                go = body(mainname, main, sig, r.choice([1, 2]), 0)
            main.append(refcmd)
            state["ref"] = True
    if go:
        body(mainname, main, sig, r.choice([1, 3, 6, 12]), 2)
    text = "\n".join(main) + "\n"
    stdin = None
    if mainname is None:
        stdin = text
    else:
        files[mainname] = text
    return files, args, mainname, stdin, (bad[0] if bad else False), counts, mode, len(asserts)


def work(c, seed, n):
    r = random.Random(seed)
    for q in range(n):
        files, args, main, stdin, bad, counts, mode, nass = scenario(r)
        for k, v in counts.items():
            c.count(k, v)
        c.count("mode_" + mode)
        c.count("assertions", nass)
        c.seen((tuple(sorted(files.items())), tuple(args), stdin))
        res = c.run(files, main=main, args=args, stdin=stdin, variant=r.choice(["rel", "rel", "dbg", "san"]))
        if res.kind == "timeout":
            c.inconclusive += 1
            continue
        if bad is False:
            if res.kind != "correct":
                c.violation("rejected:" + mode, "an input whose assumptions are all reference assertions was not accepted", files,
                            args=args, main=main, stdin=stdin, expected="correct", observed=res.brief())
        elif res.kind != "reject":
            c.violation("accepted:" + mode, "an assumption that is no reference assertion (or a second reference) was not rejected",
                        files, args=args, main=main, stdin=stdin, expected="rejected at %s" % (bad,), observed=res.brief())
        elif bad is not None:
            p = res.pos()
            if not p or (p[1] != bad[1] or (bad[0] and not p[0].endswith(bad[0]))):
                c.violation("position:" + mode, "another command was rejected than the wrong assumption", files, args=args, main=main,
                            stdin=stdin, expected="error at %s" % (bad,), observed=res.brief())
        if len(c.pending) > 3:
            return
    c.sample(str(args) + "\n" + files.get("ref.smt2", "")[:500] + "---\n" + (stdin or files.get(main or "", ""))[:800])


def run(c):
    c.rule = ("random reference files (assertions, declarations, definitions, literals under the normalization options, binders, "
              "optional normalization program) with proofs that respell the assertions, change them slightly or assume something "
              "else, at top level, in local scopes and in included files; non-trivial = distinct scenario judged")
    c.assumptions = ["an assume command before the reference command is not checked, as the manual says (`if ethos has read a reference file`)"]
    c.need("san", "dbg", "rel")
    n = c.n(128, 6000)
    c.ppmap(lambda s: work(c, s, 40), ["%s-%d-%d" % (c.prop, c.seed, k) for k in range(n)])
