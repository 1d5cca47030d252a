"""C11: no input makes the checker crash. Hostile inputs of many kinds are run
under the sanitizers, the project's own assertions and the library's, in random
configurations; whatever is not an answer or an ordinary error is a crash."""
import os
import random
import re
import shutil
import subprocess
import harness

VERIF = harness.VERIF
COMMANDS = ("assume assume-push declare-const declare-consts declare-datatype declare-datatypes declare-parameterized-const declare-rule "
            "define echo exit include pop program push reference reset set-option step step-pop").split()
REFCMDS = "assert declare-fun define-const define-fun define-sort check-sat check-sat-assuming set-logic set-info declare-sort".split()
OPS = {  # operator -> number of arguments it is documented with
    "add": 2, "mul": 2, "neg": 1, "zdiv": 2, "zmod": 2, "qdiv": 2, "to_z": 1, "to_q": 1, "to_bin": 2, "to_str": 1, "is_neg": 1, "gt": 2,
    "len": 1, "concat": 2, "extract": 3, "find": 2, "and": 2, "or": 2, "xor": 2, "not": 1, "eq": 2, "is_eq": 2, "is_ok": 1, "ite": 3,
    "requires": 3, "hash": 1, "cmp": 2, "typeof": 1, "nameof": 1, "var": 2, "is_z": 1, "is_q": 1, "is_bin": 1, "is_str": 1, "is_bool": 1,
    "is_var": 1, "nil": 2, "cons": 3, "list_len": 2, "list_concat": 3, "list_nth": 3, "list_find": 3, "list_rev": 2, "list_erase": 3,
    "list_erase_all": 3, "list_setof": 2, "list_minclude": 3, "list_meq": 3, "list_diff": 3, "list_inter": 3, "list_singleton_elim": 2,
    "dt_constructors": 1, "dt_selectors": 1, "as": 2, "pf": 1, "quote": 1, "arrow": 2, "tuple": 2, "_": 2, "?": 1, "define": 2, "List": 0,
    "List::cons": 2, "List::nil": 0, "self": 0, "conclusion": 0, "Proof": 1, "nosuch": 1}
ATTRS = ("arg-list args assumption binder chainable conclusion conclusion-explicit implicit left-assoc left-assoc-nil "
         "left-assoc-non-singleton-nil let-binder list opaque pairwise premise-list premises requires restrict right-assoc right-assoc-nil "
         "right-assoc-non-singleton-nil rule signature sorry syntax type decimal nosuch").split()
BOUND = ["0", "1", "2", "3", "4", "7", "8", "9", "15", "16", "31", "32", "33", "63", "64", "65", "-1", "-2", "-64", "100", "255", "256", "1000",
         "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808",
         "18446744073709551615", "18446744073709551616", "-18446744073709551616", "340282366920938463463374607431768211456", "00", "01", "-0",
         "1" + "0" * 60]

PRE = """(declare-const Int Type) (declare-consts <numeral> Int) (declare-const Real Type) (declare-consts <rational> Real)
(declare-const Str Type) (declare-consts <string> Str) (declare-const BV (-> Int Type)) (declare-consts <binary> (BV (eo::len eo::self)))
(declare-const U Type) (declare-const Set (-> Type Type)) (declare-const Arr (-> Type Type Type))
(declare-const x U) (declare-const y U) (declare-const a Bool) (declare-const b Bool) (declare-const i Int) (declare-const b4 (BV 4))
(declare-const f (-> U U)) (declare-const g (-> U U U)) (declare-const P (-> U Bool)) (declare-const h (-> (-> U U) U Bool))
(declare-const not (-> Bool Bool)) (declare-const or (-> Bool Bool Bool) :right-assoc-nil false) (declare-const and (-> Bool Bool Bool) :left-assoc-nil true)
(declare-const imp (-> Bool Bool Bool) :right-assoc) (declare-const xor (-> Bool Bool Bool) :left-assoc)
(declare-const orn (-> Bool Bool Bool) :right-assoc-non-singleton-nil false) (declare-const andn (-> Bool Bool Bool) :left-assoc-non-singleton-nil true)
(declare-const < (-> Int Int Bool) :chainable and) (declare-const distinct (-> U U Bool) :pairwise or)
(declare-parameterized-const = ((T Type :implicit)) (-> T T Bool))
(declare-const @L Type) (declare-const @nil @L) (declare-parameterized-const @cons ((T Type :implicit)) (-> T @L @L) :right-assoc-nil @nil)
(declare-const forall (-> @L Bool Bool) :binder @cons) (declare-const many (-> @L Bool) :arg-list @cons)
(declare-parameterized-const bvor ((n Int :implicit)) (-> (BV n) (BV n) (BV n)) :right-assoc-nil (eo::to_bin n 0))
(declare-parameterized-const concat ((n Int :implicit) (m Int :implicit)) (-> (BV n) (BV m) (BV (eo::add n m))) :right-assoc-nil #b1)
(declare-parameterized-const ext ((n Int :implicit) (hi Int) (lo Int)) (-> (BV n) (BV (eo::add hi (eo::neg lo) 1))))
(declare-parameterized-const emp ((T Type :implicit)) (Set T)) (declare-parameterized-const uni ((T Type :implicit)) (-> (Set T) (Set T) (Set T)) :right-assoc-nil (as emp (Set T)))
(declare-parameterized-const sk ((T Type :implicit) (s (Set T) :opaque) (t T :opaque)) (-> T T))
(declare-const o (-> Int Int)) (declare-const o (-> U U)) (declare-const o (-> Bool Bool Bool)) (declare-const o Int)
(declare-datatype D ((mk (h1 U) (h2 D)) (nl)))
(declare-datatypes ((Tr 1) (Fo 1)) ((par (T) ((node (tv T) (tf (Fo T))) (leaf))) (par (T) ((fnil) (fcons (fh (Tr T)) (ft (Fo T)))))))
(program pr ((z U) (w U)) :signature (U U) U (((pr z z) z) ((pr z w) (f w))))
(program lst ((u Bool) (v Bool :list)) :signature (Bool) Int (((lst (or u v)) (eo::add 1 (lst v))) ((lst false) 0)))
(program fw () :signature (U) U)
(define dd () (g x y)) (define mm ((q U) (r U)) (g r q)) (define pm ((T Type :implicit) (s T)) (= s s)) (define al () or)
(declare-rule r0 () :conclusion true) (declare-rule r1 ((F Bool)) :premises (F) :conclusion F) (declare-rule r2 ((F Bool) (z U)) :premises (F) :args (z) :conclusion (or F (P z)))
(declare-rule r3 ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (imp F G)) (declare-rule r4 ((F Bool)) :premise-list F and :conclusion F)
(declare-rule r5 ((F Bool)) :premises () :args (F) :requires (((eo::eq F F) true)) :conclusion-explicit F) (declare-rule r6 ((F Bool)) :args (F) :conclusion F :sorry)
(assume p0 a) (assume p1 (or a b)) (step s0 a :rule r1 :premises (p0))
"""
ATOMS = ["x", "y", "a", "b", "i", "b4", "f", "g", "P", "h", "not", "or", "and", "imp", "xor", "orn", "andn", "<", "distinct", "=", "@nil", "@cons", "forall",
         "many", "bvor", "concat", "ext", "emp", "uni", "sk", "o", "mk", "nl", "h1", "is-mk", "is", "update-h1", "update", "node", "leaf", "fnil", "fcons", "tv", "pr", "lst",
         "fw", "dd", "mm", "pm", "al", "r0", "r1", "r6", "p0", "p1", "s0", "Int", "Bool", "Type", "U", "Set", "Arr", "BV", "D", "Tr", "true", "false",
         "eo::self", "eo::List", "eo::List::nil", "eo::List::cons", "eo::conclusion", "eo::Proof", "eo::add", "eo::define", "->", "_", "as", "!", "let", "eo::match", "nope",
         "eo::typeof", "lambda", "|x|", "|a b|", "||", "u", "T"]
LITS = ["0", "1", "2", "-1", "5", "1/2", "-3/4", "0/1", "2/4", "1.5", "0.0", "-0.25", "#b0", "#b1", "#b0101", "#x0", "#xfF", '""', '"abc"', '"a""b"', '"\\u{1F600}"',
        '"\\u0041x"', "(eo::to_bin 0 0)", "(eo::to_bin 64 -1)"]


def ri(r, xs):
    return xs[r.randrange(len(xs))]


def lit(r):
    q = r.random()
    if q < 0.75:
        return ri(r, LITS)
    n = ri(r, BOUND)
    if q < 0.9:
        return n
    if q < 0.93:
        return "%s/%s" % (n, ri(r, BOUND[:30]).replace("-", ""))
    if q < 0.96:
        return "%s.%s" % (n, ri(r, BOUND[:20]).replace("-", ""))
    return "#b" + "".join(r.choice("01") for _ in range(r.choice([1, 31, 32, 33, 64, 65, 130])))


def typ(r, d=2):
    q = r.random()
    if d <= 0 or q < 0.5:
        return ri(r, ["Int", "Bool", "U", "Real", "Str", "(BV 4)", "(Set U)", "Type", "D", "(Tr U)", "@L", "(BV i)", "T", "(Arr U Int)"])
    if q < 0.75:
        return "(-> %s)" % " ".join(typ(r, d - 1) for _ in range(r.choice([1, 2, 2, 3])))
    if q < 0.85:
        return "(%s %s)" % (ri(r, ["Set", "Arr", "BV", "Tr", "D", "eo::quote", "Set Int"]), typ(r, d - 1))
    return term(r, d - 1)


def wt(r, sort, d):
    """A well typed term."""
    if sort == "Bool":
        if d <= 0:
            return r.choice("a b a b true false".split())
        q = r.randrange(12)
        B = lambda: wt(r, "Bool", d - 1)
        U_ = lambda: wt(r, "U", d - 1)
        if q < 3:
            return "(%s %s)" % (r.choice(["or", "and", "imp", "xor", "orn", "andn", "al"]), " ".join(B() for _ in range(r.choice([2, 2, 3, 4]))))
        if q == 3:
            return "(not %s)" % B()
        if q == 4:
            return "(P %s)" % U_()
        if q == 5:
            return "(= %s %s)" % (U_(), U_())
        if q == 6:
            v = r.choice("xyzuv")
            return "(forall ((%s U) (w Bool)) %s)" % (v, r.choice([B(), "(or w (P %s))" % v]))
        if q == 7:
            return "(distinct %s)" % " ".join(U_() for _ in range(r.choice([2, 3, 4])))
        if q == 8:
            return "(< %s)" % " ".join(wt(r, "Int", d - 1) for _ in range(r.choice([2, 3])))
        if q == 9:
            return "(eo::%s %s)" % (r.choice(["eq", "is_eq", "and", "or", "xor"]), " ".join([B(), B()]))
        if q == 10:
            return "(eo::define ((k %s)) (or k %s))" % (B(), B())
        return "(many %s)" % " ".join(U_() for _ in range(r.choice([1, 2, 3])))
    if sort == "U":
        if d <= 0:
            return r.choice(["x", "y"])
        q = r.randrange(9)
        U_ = lambda: wt(r, "U", d - 1)
        if q < 2:
            return "(f %s)" % U_()
        if q < 4:
            return "(%s %s %s)" % (r.choice(["g", "mm", "pr"]), U_(), U_())
        if q == 4:
            return "(o %s)" % U_()
        if q == 5:
            return "(h1 (mk %s nl))" % U_()
        if q == 6:
            return "(_ (g %s) %s)" % (U_(), U_())
        if q == 7:
            return "(eo::ite %s %s %s)" % (wt(r, "Bool", d - 1), U_(), U_())
        return "(sk (uni (as emp (Set U)) (as emp (Set U))) %s %s)" % (U_(), U_())
    if d <= 0:
        return r.choice(["i", "0", "3", "-7"])
    return r.choice(["(o %s)", "(eo::add %s 1)", "(eo::mul %s 2 %s)", "(eo::neg %s)", "(lst (or a %s))"]).replace("%s", wt(r, r.choice(["Int"]), d - 1))


def term(r, d=2):
    """Any term, more or less sensible."""
    q = r.random()
    if q < 0.25:
        return wt(r, r.choice(["Bool", "U", "Int"]), d)
    if d <= 0 or q < 0.42:
        return ri(r, ATOMS) if r.random() < 0.6 else lit(r)
    if q < 0.62:
        op = ri(r, OPLIST)
        n = OPS[op]
        if r.random() < 0.15:
            n = r.choice([0, 1, 2, 3, 4, 5])
        return "(eo::%s%s)" % (op, "".join(" " + term(r, d - 1) for _ in range(n)))
    if q < 0.66:
        # list operators on lists
        op = ri(r, [o for o in OPLIST if o.startswith("list_")])
        f = ri(r, ["or", "and", "uni", "bvor", "@cons", "orn", "eo::List::cons", "concat"])
        xs = ["(%s%s)" % (f, "".join(" " + term(r, 0) for _ in range(r.choice([0, 1, 2, 3])))) if r.random() < 0.5 else wt(r, "Bool", 1) for _ in range(OPS[op] - 1)]
        return "(eo::%s %s %s)" % (op, f, " ".join(xs))
    if q < 0.82:
        h = ri(r, ATOMS)
        return "(%s%s)" % (h, "".join(" " + term(r, d - 1) for _ in range(r.choice([0, 1, 1, 2, 2, 2, 3, 3, 4, 6]))))
    if q < 0.86:
        return "(_ %s)" % " ".join(term(r, d - 1) for _ in range(r.choice([1, 2, 2, 3, 4])))
    if q < 0.89:
        return "(as %s %s)" % (ri(r, ["emp", "leaf", "fnil", "node", "o", "x", "mk", "or", "nope", "fcons", "sk", term(r, d - 1)]), typ(r))
    if q < 0.92:
        return "(eo::define (%s) %s)" % (" ".join("(%s %s)" % (r.choice("uvwx"), term(r, d - 1)) for _ in range(r.choice([0, 1, 1, 2, 3]))), term(r, d - 1))
    if q < 0.95:
        return "(%s (%s) %s)" % (ri(r, ["forall", "lambda", "many", "let", "@cons", "or"]), " ".join("(%s %s)" % (r.choice("uvwx"), typ(r, 1)) for _ in range(r.choice([0, 1, 1, 2]))), term(r, d - 1))
    if q < 0.97:
        return "(! %s :%s%s)" % (term(r, d - 1), ri(r, ATTRS), r.choice(["", " x", " (a b)", " 3"]))
    if q < 0.98:
        return "((%s) %s)" % (term(r, d - 1), term(r, d - 1))
    return "(-> %s)" % " ".join(term(r, d - 1) for _ in range(r.choice([0, 1, 2, 3])))


OPLIST = sorted(OPS)


def params(r, names=None):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
        at = ""
        if r.random() < 0.35:
            at = " :" + ri(r, ["implicit", "opaque", "list", "implicit", "list", ri(r, ATTRS)])
            if r.random() < 0.1:
                at += " " + ri(r, ["or", "x", "3"])
        out.append("(%s %s%s)" % (r.choice(["T", "u", "v", "w", "n"]), typ(r, 1), at))
    return "(%s)" % " ".join(out)


def attrs(r, k=None):
    out = []
    for _ in range(r.choice([0, 0, 1, 1, 1, 2]) if k is None else k):
        n = ri(r, ATTRS)
        out.append(":" + n + r.choice(["", " " + term(r, 0), " " + ri(r, ["or", "and", "@cons", "false", "true", "x", "(eo::to_bin n 0)", "(as emp T)"]), " " + term(r, 1), " (%s)" % term(r, 0)]))
    return " ".join(out)


def rule(r, n):
    ps = r.choice(["((F Bool))", "((F Bool) (G Bool))", "((F Bool) (z U))", "((F Bool) (L Bool :list))", "((T Type) (t T))", "()", params(r)])
    pt = lambda: r.choice(["F", "G", "z", "t", "(or F G)", "(not F)", "(or F L)", "(P z)", "(= t t)", "F", "F", term(r, 1)])
    parts = []
    if r.random() < 0.2:
        parts.append(":assumption " + pt())
    if r.random() < 0.5:
        parts.append(":premises (%s)" % " ".join(pt() for _ in range(r.choice([0, 1, 1, 2]))))
    elif r.random() < 0.3:
        parts.append(":premise-list %s %s" % (pt(), ri(r, ["and", "or", "imp", "@cons", "x", "f", "uni", "nope", "eo::List::cons"])))
    if r.random() < 0.5:
        parts.append(":args (%s)" % " ".join(pt() for _ in range(r.choice([0, 1, 1, 2]))))
    if r.random() < 0.3:
        parts.append(":requires (%s)" % " ".join("(%s %s)" % (pt(), pt()) for _ in range(r.choice([0, 1, 1, 2]))))
    parts.append(r.choice([":conclusion ", ":conclusion ", ":conclusion-explicit "]) + pt())
    if r.random() < 0.25:
        parts.append(":sorry")
    if r.random() < 0.12:
        r.shuffle(parts)
    if r.random() < 0.1:
        parts.insert(r.randint(0, len(parts)), attrs(r, 1))
    nm = r.choice(["q%d" % n, "q%d" % n, "r1", "r2"])
    txt = "(declare-rule %s %s %s)" % (nm, ps, " ".join(parts))
    if r.random() < 0.6:
        txt += " (step uq%d :rule %s" % (n, nm)
        for what, mk in ((":premises (", lambda: r.choice(["p0", "p1", "s0"])), (":premise-list ", lambda: r.choice(["p0", "p1", "s0"])), (":args (", lambda: wt(r, r.choice(["Bool", "U"]), 1))):
            if what in txt:
                txt += " %s (%s)" % (":args" if "args" in what else ":premises", " ".join(mk() for _ in range(r.choice([1, 1, 2, 2, 3]))))
        txt += ")"
    return txt


def dtdecl(r):
    cs = []
    for _ in range(r.choice([0, 1, 2, 3])):
        cs.append("(%s%s)" % (r.choice(["c1", "c2", "c3", "mk", "x", "|c d|"]), "".join(" (%s %s)" % (r.choice(["e1", "e2", "e3", "h1"]), r.choice([typ(r, 1), "DD", "(DD T)"])) for _ in range(r.choice([0, 1, 2])))))
    return "(%s)" % " ".join(cs)


def program(r, n):
    """A program without recursion (what it evaluates terminates)."""
    nm = "g%d" % n
    ps = r.choice(["((u U) (v U))", "((u Bool) (v Bool :list))", "((T Type) (u T))", "((n Int) (m Int))", params(r)])
    ty = r.choice(["(U)", "(U U)", "(Bool)", "(Bool Bool)", "(T)", "(Int)", "(Type)", "()", "(%s)" % typ(r)])
    pat = lambda: r.choice(["u", "v", "n", "(f u)", "(g u v)", "(or u v)", "T", "x", "0", "(_ f u)", "(eo::add n 1)", term(r, 1)])
    cases = " ".join("((%s %s) %s)" % (nm if r.random() < 0.95 else "pr", " ".join(pat() for _ in range(ty.count(" ") + 1 if r.random() < 0.9 else r.choice([0, 1, 3]))),
                                       r.choice(["u", "v", "n", "x", "(f u)", "true", term(r, 2)])) for _ in range(r.choice([1, 1, 2, 3])))
    if r.random() < 0.1:
        return "(program %s %s :signature %s %s)" % (nm, ps, ty, typ(r, 1))
    use = " (define u%s () (%s%s))" % (nm, nm, "".join(" " + (term(r, 1) if r.random() < 0.5 else wt(r, r.choice(["Bool", "U"]), 1)) for _ in range(ty.count(" ") + 1)))
    return "(program %s %s :signature %s %s (%s))" % (nm, ps, ty, typ(r, 1), cases) + (use if r.random() < 0.8 else "")


def command(r, n):
    k = r.randrange(22)
    nm = r.choice(["n%d" % n, "n%d" % n, "n%d" % n, ri(r, ATOMS)])
    if k == 0:
        return "(assume %s %s)" % (nm, term(r, 2) if r.random() < 0.4 else wt(r, "Bool", 2))
    if k == 1:
        return "(assume-push %s %s)" % (nm, term(r, 1) if r.random() < 0.3 else wt(r, "Bool", 2))
    if k == 2:
        return "(declare-const %s %s %s)" % (nm, typ(r), attrs(r))
    if k == 3:
        return "(declare-consts %s %s)" % (ri(r, ["<numeral>", "<decimal>", "<rational>", "<binary>", "<hexadecimal>", "<string>", "<boolean>", "<foo>", "x"]),
                                           r.choice(["Int", "Real", "Str", "(BV (eo::len eo::self))", "(Set (eo::typeof eo::self))", "eo::self", typ(r), term(r, 1)]))
    if k == 4:
        return "(declare-datatype %s %s)" % (r.choice(["DD", nm]), r.choice([dtdecl(r), "(par (T) %s)" % dtdecl(r), term(r, 1)]))
    if k == 5:
        m = r.choice([0, 1, 2])
        return "(declare-datatypes (%s) (%s))" % (" ".join("(%s %s)" % (r.choice(["DD", "EE", "D", "U"]), r.choice(["0", "1", "2", "x"])) for _ in range(m)),
                                                  " ".join(r.choice([dtdecl(r), "(par (T) %s)" % dtdecl(r), "(par (T V) %s)" % dtdecl(r), "(par () %s)" % dtdecl(r)]) for _ in range(m if r.random() < 0.8 else r.choice([0, 1, 3]))))
    if k in (6, 7):
        return "(declare-parameterized-const %s %s %s %s)" % (nm, params(r), typ(r), attrs(r))
    if k in (8, 9):
        return rule(r, n)
    if k in (10, 11):
        t = term(r, 3)
        return r.choice(["(define n%d %s %s)", "(define n%d %s %s :type " + typ(r) + ")"]) % (n, params(r) if r.random() < 0.4 else "()", t)
    if k == 12:
        return r.choice(['(echo "x")', "(echo)", "(push)", "(pop)", "(pop)", "(pop 1)", "(push 2)", "(push 0)", "(pop 0)", "(pop 3)", "(reset)" if r.random() < 0.1 else "(push)"])
    if k in (13, 14):
        return program(r, n)
    if k == 15:
        return "(set-option :%s %s)" % (ri(r, ["normalize-num", "normalize-dec", "normalize-hex", "parse-let", "print-dag", "stats", "stats-all", "rule-sym-table", "foo"]), ri(r, ["true", "false", "3", "x", ""]))
    if k in (16, 17, 18):
        parts = [":rule " + ri(r, ["r0", "r1", "r2", "r3", "r4", "r5", "r6", "q%d" % (n - 1), "q%d" % (n - 2), "f", "nope", "eo::add"])]
        if r.random() < 0.5:
            parts.append(":premises (%s)" % " ".join(ri(r, ["p0", "p1", "s0", "a", "n%d" % (n - 1), "n%d" % (n - 2), "(or p0 p1)", "3"]) for _ in range(r.choice([0, 1, 1, 2, 3]))))
        if r.random() < 0.5:
            parts.append(":args (%s)" % " ".join(term(r, 1) if r.random() < 0.4 else wt(r, r.choice(["U", "Bool"]), 1) for _ in range(r.choice([0, 1, 1, 2, 3]))))
        if r.random() < 0.08:
            parts.append(attrs(r, 1))
        return "(%s n%d %s %s)" % (r.choice(["step", "step", "step", "step-pop"]), n, r.choice(["", "a", "(or a (P x))", wt(r, "Bool", 1), term(r, 1)]), " ".join(parts))
    if k == 19:
        return '(%s "%s" %s)' % (ri(r, ["include", "reference"]), ri(r, ["missing.eo", "e.eo", "c.eo", ".", "", "/", "r.smt2", "../t.eo", "sub/../e.eo", "a\\b"]), r.choice(["", "", "f", "(f)", term(r, 1)]))
    if k == 20:
        # something that relies on evaluation in a type
        return "(declare-const n%d (BV %s))" % (n, term(r, 2))
    return r.choice(["(%s)" % r.choice(COMMANDS + REFCMDS), "(%s %s)" % (r.choice(COMMANDS), term(r, 1)), "(assert a)", "(check-sat)", "(foo)", "(exit)" if r.random() < 0.2 else "()"])


REF = """(declare-const Int Type) (declare-sort U 0) (declare-fun f (U) U) (declare-fun P (U) Bool) (declare-const x U) (declare-const a Bool)
"""


def refcommand(r, n):
    k = r.randrange(9)
    t = lambda: r.choice(["a", "(P x)", "(P (f x))", "(= x x)", "(lambda ((z U)) a)", lit(r), "(let ((k a)) k)", "(let ((k a) (l (P x))) (or k l))", term(r, 1)])
    if k < 3:
        return "(assert %s)" % t()
    if k == 3:
        return "(define-fun n%d (%s) %s %s)" % (n, r.choice(["", "(z U)", "(z U) (w Bool)"]), r.choice(["Bool", "U", "Int"]), r.choice(["a", "x", "(P z)", "z", t()]))
    if k == 4:
        return "(define-const n%d %s %s)" % (n, r.choice(["Bool", "U"]), t())
    if k == 5:
        return "(declare-fun n%d (%s) %s)" % (n, " ".join(typ(r, 1) for _ in range(r.choice([0, 1, 2]))), typ(r, 1))
    if k == 6:
        return r.choice(["(declare-sort S%d %s)" % (n, r.choice(["0", "1", "2", "-1", "x", "99999999999"])), "(define-sort S%d (%s) %s)" % (n, r.choice(["", "T", "T V"]), r.choice(["U", "T", typ(r)]))])
    if k == 7:
        return r.choice(["(check-sat)", "(check-sat-assuming (a))", "(check-sat-assuming (a (not a)))", "(set-logic ALL)", "(set-info :status unsat)", "(set-info :source |a b|)", "(set-option :foo bar)",
                         "(set-option :produce-proofs true)", "(push)", "(pop)", "(exit)", "(set-info)", "(set-logic)"])
    return "(declare-datatype DD %s)" % dtdecl(r)


# ------------------------------------------------------------ observation
RESOURCE = re.compile(r"gmp: overflow|GNU MP: Cannot|out-of-memory|allocation-size-too-big|bad_alloc|rss limit|length_error|cannot create std::vector|requested allocation size")
TRACES = ["expr_parser", "state", "step", "type_checker", "gc", "overload", "param-dt", "ambiguous", "options", "opaque", "datatype", "arg-list", "compile", "tmp", "nosuch"]


def options(r, variant):
    a = []
    for o, p in (("--no-print-dag", 0.15), ("--no-rule-sym-table", 0.12), ("--stats", 0.15), ("--stats-all", 0.1), ("--stats-compact", 0.1),
                 ("--normalize-num", 0.06), ("--no-normalize-dec", 0.06), ("--no-normalize-hex", 0.06), ("--no-parse-let", 0.05)):
        if r.random() < p:
            a.append(o)
    if variant == "dbg" and r.random() < 0.15:
        a += ["-t", ri(r, TRACES)] if r.random() < 0.7 else ["-v"]
    return a


def judge(c, family, res, files, args, main, stdin=None):
    """Record a violation if the run crashed; returns whether it ended well."""
    c.count("outcome " + res.kind)
    if res.kind in ("correct", "incomplete", "reject"):
        return True
    txt = res.err + res.out
    allin = b"".join(f if isinstance(f, bytes) else f.encode("utf-8", "surrogateescape") for f in files.values()) + (stdin if isinstance(stdin, bytes) else (stdin or "").encode("utf-8"))
    if res.kind == "silent0":
        # statistics come after the answer; otherwise only help and the like
        if "correct" in res.out.splitlines() or "incomplete" in res.out.splitlines() or "--help" in args or "--show-config" in args:
            return True
        c.violation("silent:" + family, "the checker ended with status 0 but without an answer", files, args=args, main=main, stdin=stdin,
                    expected="an answer or an error", observed=res.brief())
        return False
    progs = b"program" in allin
    big = re.search(rb"\d{5}", allin)
    if res.kind == "timeout" or "stack-overflow" in txt or (res.rc in (-11, -9) and "Sanitizer" not in txt):
        if progs:
            # evaluation need not terminate
            c.inconclusive += 1
            return False
    if RESOURCE.search(txt) and (big or progs):
        c.inconclusive += 1
        return False
    if res.kind == "timeout" and big:
        c.inconclusive += 1
        return False
    m = re.search(r"AddressSanitizer: (\S+)|runtime error: (.*)|Check failure\s+(\S.*)|(Unreachable code)|what\(\):\s*(\S*)", txt)
    what = next((g for g in m.groups() if g), "?") if m else ("hang" if res.kind == "timeout" else "signal %s" % res.rc)
    fr = re.findall(r"#\d+ \S+ in (ethos::[\w:]+)", txt)
    fn = re.search(r"Fatal failure within (?:.*?)(ethos::[\w:]+)\(", txt)
    key = re.sub(r"[^\w:]+", "_", "%s:%s" % (what[:40], fr[0] if fr else (fn.group(1) if fn else "")))
    c.violation("crash:" + key, "the checker crashed (%s)" % what[:200], files, args=args, main=main, stdin=stdin,
                expected="an answer or an error message", observed=res.brief() + " " + " < ".join(fr[:5]))
    return False


slow = []     # runs of this worker, and whether they ended


def go(c, family, files, main="t.eo", args=(), variant="san", stdin=None, timeout=None):
    d = c.workdir()
    try:
        for name, text in files.items():
            p = os.path.join(d, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(text if isinstance(text, bytes) else text.encode("utf-8", "surrogateescape"))
        a = list(args)
        if stdin is None:
            a.append(main)
        elif isinstance(stdin, str):
            stdin = stdin.encode("utf-8", "surrogateescape")
        if timeout is None:
            timeout = 8 if any(b"program" in (t if isinstance(t, bytes) else t.encode("utf-8", "surrogateescape")) for t in list(files.values()) + [stdin or b""]) else 40
        res = c.exec(variant, a, d, stdin=stdin, timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.count("family " + family)
    c.count("runs " + variant)
    slow.append(1 if res.kind == "timeout" else 0)
    c.seen((family, tuple(sorted((k, v) for k, v in files.items())), tuple(args), stdin))
    ok = judge(c, family, res, files, args, main, stdin)
    if res.kind == "timeout" and (c.pending or sum(slow) > 5):
        # this worker is done, further ones would take minutes
        raise harness.Hang()
    return res, ok


def drive(c, family, pre, lines, r, variant, args=(), extra=None, main="t.eo", keep=False, limit=25):
    """Run commands one per line; when one is rejected, carry on with those
    after it (keep: with all others)."""
    off = pre.count("\n") + (0 if pre.endswith("\n") or not pre else 1)
    lines = list(lines)
    if pre and not pre.endswith("\n"):
        pre += "\n"
    tries = 0
    while lines and tries < limit:
        tries += 1
        files = {main: pre + "\n".join(lines) + "\n"}
        if extra:
            files.update(extra)
        res, ok = go(c, family, files, main=main, args=args, variant=variant)
        if not ok:
            return
        if res.kind != "reject":
            c.count("lines accepted", len(lines))
            return
        p = res.pos()
        k = p[1] - 1 - off if p and p[0].endswith(main) else None
        if k is None or k < 0 or k >= len(lines):
            c.count("lines not attributed", len(lines))
            # an error without a position (mostly a pop too many)
            if "popScope" in res.err:
                depth = 0
                for k, l in enumerate(lines):
                    m = re.match(r"\((push|pop)(?: (\d+))?\)", l)
                    if m:
                        depth += int(m.group(2) or 1) * (1 if m.group(1) == "push" else -1)
                        if depth < 0:
                            break
                if depth < 0:
                    lines = lines[:k] + lines[k + 1:]
                    continue
            lines = lines[(len(lines) + 1) // 2:]
            continue
        c.count("lines accepted", k)
        c.count("lines rejected")
        lines = lines[:k] + lines[k + 1:] if keep else lines[k + 1:]


# ---------------------------------------------------------------- mutation
TOKEN = re.compile(rb'"(?:[^"]|"")*"|\|[^|]*\||;[^\n]*|[()]|[^\s()";|]+|\s+|.', re.S)


def tokens(b):
    return TOKEN.findall(b)


def sexprs(toks):
    """Index ranges of the s-expressions."""
    st, out = [], []
    for k, t in enumerate(toks):
        if t == b"(":
            st.append(k)
        elif t == b")" and st:
            out.append((st.pop(), k + 1))
    return out


def mutate(r, toks, pool, donors):
    toks = list(toks)
    for _ in range(r.choice([1, 1, 1, 2, 3, 5])):
        if not toks:
            break
        q = r.randrange(16)
        k = r.randrange(len(toks))
        while toks[k].isspace() and r.random() < 0.9:
            k = r.randrange(len(toks))
        if q == 0:
            del toks[k]
        elif q == 1:
            toks.insert(k, toks[k] + b" ")
        elif q in (2, 3, 4):
            toks[k] = ri(r, pool)
        elif q == 5:
            toks[k] = r.choice([term(r, 1), lit(r), ri(r, ATOMS), ri(r, BOUND)]).encode()
        elif q == 6:
            toks.insert(k, b" " + ri(r, pool) + b" ")
        elif q == 7:
            j = r.randrange(len(toks))
            toks[k], toks[j] = toks[j], toks[k]
        elif q in (8, 9, 10, 11):
            se = sexprs(toks)
            if not se:
                continue
            i, j = ri(r, se)
            z = r.randrange(6)
            if z == 0:
                del toks[i:j]
            elif z == 1:
                toks[i:i] = toks[i:j] + [b" "]
            elif z == 2:
                i2, j2 = ri(r, se)
                toks[i:j] = toks[i2:j2]
            elif z == 3:
                d = ri(r, donors)
                ds = sexprs(d)
                if ds:
                    i2, j2 = ri(r, ds)
                    toks[i:j] = d[i2:j2]
            elif z == 4:
                d = ri(r, donors)
                ds = sexprs(d)
                if ds:
                    i2, j2 = ri(r, ds)
                    toks[i:i] = d[i2:j2] + [b"\n"]
            else:
                toks[i:j] = [("(eo::%s " % ri(r, OPLIST)).encode()] + toks[i:j] + [r.choice([b")", (" " + term(r, 1) + ")").encode()])]
        elif q == 12:
            # between commands
            lvl = 0
            cut = []
            for n, t in enumerate(toks):
                lvl += (t == b"(") - (t == b")")
                if lvl == 0 and t == b")":
                    cut.append(n + 1)
            if cut:
                n = ri(r, cut)
                toks[n:n] = [b"\n" + r.choice([b"(push)", b"(pop)", b"(reset)", b"(push)\n(push)", b"(pop 1)", command(r, n).encode(), b"(exit)", b'(echo "x")']) + b"\n"]
        elif q == 13:
            del toks[r.randint(0, len(toks)):]
        elif q == 14:
            t = bytearray(toks[k])
            if t:
                j = r.randrange(len(t))
                t[j] = r.choice([r.randrange(256), ord(r.choice('()"|;:#\\ \n'))])
            toks[k] = bytes(t)
        else:
            n = r.randint(1, 12)
            toks.insert(k, bytes(r.choice([r.randrange(256), ord(r.choice('()"|;:#.-/0a'))]) for _ in range(n)))
    return toks


def corpus():
    """(relative name, bytes, directory) of the repository's examples and of
    the committed corpus."""
    out = []
    t = os.path.join(harness.REPO, "tests")
    for root, dirs, fs in os.walk(t):
        dirs.sort()
        for f in sorted(fs):
            p = os.path.join(root, f)
            if f.endswith((".eo", ".smt2")) and os.path.getsize(p) < 20000:
                out.append((os.path.relpath(p, t), open(p, "rb").read()))
    return out


def small_corpus():
    out = []
    d = os.path.join(VERIF, "corpus")
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        out.append((f, open(os.path.join(d, f), "rb").read()))
    return out


def bundle(name, all_):
    """The files a corpus file may include."""
    return {n: b for n, b in all_.items()}


INC = re.compile(rb'\((?:include|reference)\s+"([^"]*)"')


def needed(name, all_, seen=None):
    seen = {} if seen is None else seen
    if name in seen or name not in all_:
        return seen
    seen[name] = all_[name]
    for m in INC.findall(all_[name]):
        needed(os.path.normpath(os.path.join(os.path.dirname(name), m.decode("latin-1"))), all_, seen)
    return seen


class Work:
    def __init__(self):
        self.rep = dict(corpus())
        self.names = sorted(self.rep)
        self.small = small_corpus()
        self.toks = {n: tokens(b) for n, b in self.rep.items()}
        self.stoks = [tokens(b) for _, b in self.small]
        self.donors = list(self.toks.values()) + self.stoks
        pool = set()
        for d in self.donors:
            pool |= {t for t in d if not t.isspace() and len(t) < 40}
        self.pool = sorted(pool) + [s.encode() for s in LITS + BOUND + ["(", ")", "(", ")"] + ["eo::" + o for o in OPLIST] + [":" + a for a in ATTRS]]


def f_corpus(c, w, r, k):
    """The corpus itself, in random configurations."""
    variant = ["san", "dbg"][k % 2] if k < 4 * len(w.names) else "san"
    n = w.names[k % len(w.names)]
    go(c, "corpus", needed(n, w.rep), main=n, args=options(r, variant), variant=variant)


def f_small(c, w, r, k):
    n, b = w.small[k % len(w.small)]
    go(c, "coverage corpus", {"t.eo": b}, args=options(r, "san"), variant="san")


def f_mutant(c, w, r, k):
    variant = "san" if r.random() < 0.6 else "dbg"
    if w.small and r.random() < 0.5:
        toks = ri(r, w.stoks)
        files = {}
        n = "t.eo"
    else:
        n = ri(r, w.names)
        toks = w.toks[n]
        files = dict(needed(n, w.rep))
    b = b"".join(mutate(r, toks, w.pool, w.donors))
    q = r.random()
    if q < 0.12:
        # as a proof on standard input, with the original's declarations
        go(c, "mutant on stdin", dict(files, **{n: b"".join(toks)}), args=options(r, variant) + ["--include=" + n], variant=variant, stdin=b)
        return
    files[n] = b
    go(c, "mutant", files, main=n, args=options(r, variant), variant=variant)


def f_ops(c, w, r, k):
    """Operators on all kinds of arguments, in places where nothing is
    rejected for its type."""
    op = OPLIST[k % len(OPLIST)]
    lines = []
    for j in range(40):
        n = OPS[op] if r.random() < 0.85 else r.choice([0, 1, 2, 3, 4, 5, 6])
        kind = r.random()
        mk = (lambda: ri(r, ATOMS[:60] + LITS)) if kind < 0.35 else (lambda: lit(r)) if kind < 0.5 else (lambda: term(r, 1)) if kind < 0.8 else (lambda: wt(r, r.choice(["Bool", "U", "Int"]), 1))
        a = [mk() for _ in range(n)]
        if n and op.startswith(("list_", "cons", "nil")) and r.random() < 0.8:
            a[0] = ri(r, ["or", "and", "uni", "bvor", "@cons", "orn", "andn", "eo::List::cons", "concat", "imp", "f"])
            if r.random() < 0.6:
                f = a[0]
                a[1:] = [r.choice(["(%s %s)" % (f, " ".join(mk() for _ in range(r.choice([1, 2, 3])))), mk(), "(eo::nil %s Bool)" % f]) for _ in a[1:]]
        t = "(eo::%s%s)" % (op, "".join(" " + x for x in a))
        if r.random() < 0.2:
            t = "(eo::%s %s)" % (r.choice(["typeof", "is_ok", "hash", "not", "to_str"]), t)
        q = r.random()
        if q < 0.7:
            s = "(define m%d () %s)" % (j, t)
        elif q < 0.8:
            s = "(define m%d ((u U) (v Bool)) %s)" % (j, t.replace("x", "u", 1))
        elif q < 0.85:
            s = "(step m%d :rule r6 :args (%s))" % (j, t)
        elif q < 0.9:
            # its body is evaluated with a value for the parameter
            t = re.sub(r"\b[xyabi]\b", lambda m: "u" if r.random() < 0.6 else m.group(0), t)
            s = "(program h%d ((u U)) :signature (U) U (((h%d u) %s))) (define m () (h%d %s))" % (j, j, t, j, r.choice(["x", "a", "or", "(or a b)", "#b0101", "3", '"s"', "1/2", "(f x)", term(r, 1)]))
        elif q < 0.95:
            s = "(declare-const k%d %s)" % (j, t)
        else:
            t = re.sub(r"\b[xyabi]\b", lambda m: "F" if r.random() < 0.6 else m.group(0), t)
            s = "(declare-rule z%d ((F Bool)) :premises (F) :requires ((%s true)) :conclusion F)" % (j, t) if r.random() < 0.5 else "(declare-rule z%d ((F Bool)) :premises (F) :conclusion (or F %s))" % (j, t)
            s += " (step m :rule z%d :premises (%s))" % (j, r.choice(["p0", "p1", "s0"]))
        lines.append(s)
    drive(c, "operators", PRE, lines, r, "san" if k % 2 else "dbg", args=options(r, "san"))


def f_terms(c, w, r, k):
    lines = ["(define m%d () %s%s)" % (j, term(r, r.choice([1, 2, 3])), r.choice(["", "", " :type " + typ(r)])) for j in range(30)]
    if k % 3 == 0:
        # as a proof file
        drive(c, "terms", "", lines, r, "san", args=["--include=e.eo"] + options(r, "san"), extra={"e.eo": PRE}, main="t.proof")
    else:
        drive(c, "terms", PRE, lines, r, "san" if k % 4 else "dbg", args=options(r, "san"))


def f_commands(c, w, r, k):
    n0 = r.randrange(1000)
    lines = [command(r, n0 + j) for j in range(30)]
    extra = {"e.eo": "(declare-const ex U)\n" + command(r, 1) + "\n", "c.eo": '(include "t.eo")\n(include "c.eo")\n(declare-const cx Bool)\n',
             "r.smt2": REF + refcommand(r, 3) + "\n", "sub/e.eo": ""}
    drive(c, "commands", PRE, lines, r, "san" if k % 2 else "dbg", args=options(r, "san"), extra=extra, keep=k % 2 == 0, limit=16)


def f_declare(c, w, r, k):
    """A declaration with attributes, used in many ways."""
    lines = []
    for j in range(8):
        n = "w%d" % j
        if r.random() < 0.5:
            ty = r.choice(["(-> Bool Bool Bool)", "(-> U U Bool)", "(-> @L Bool Bool)", "(-> U @L @L)", "Bool", "(-> Bool Bool)", "(-> U U U)", typ(r)])
            lines.append("(declare-const %s %s %s)" % (n, ty, attrs(r, 1)))
        else:
            lines.append("(declare-parameterized-const %s %s %s %s)" % (n, r.choice(["((T Type :implicit))", "((n Int :implicit))", "((T Type))", "((u U :opaque))", "((T Type :implicit) (u T :opaque))", params(r)]),
                                                                        r.choice(["(-> T T Bool)", "(-> T T T)", "(-> (BV n) (BV n) (BV n))", "(Set T)", "(-> U U)", typ(r)]), attrs(r)))
        for _ in range(6):
            a = " ".join(term(r, 0) if r.random() < 0.5 else wt(r, r.choice(["Bool", "U"]), 1) for _ in range(r.choice([0, 1, 2, 2, 3, 4])))
            u = r.choice(["(%s %s)" % (n, a), n, "(_ %s %s)" % (n, a), "(as %s %s)" % (n, typ(r)), "(%s ((u U) (v Bool)) %s)" % (n, a), "(eo::nil %s %s)" % (n, typ(r)),
                          "(eo::list_len %s (%s %s))" % (n, n, a), "(eo::cons %s %s)" % (n, a), "(%s (%s %s) %s)" % (n, n, a, a), "((%s) %s)" % (n, a)])
            lines.append(r.choice(["(define m () %s)" % u, "(define m () (eo::typeof %s))" % u, "(step m :rule r6 :args (%s))" % u, "(define m ((l Bool :list) (u U :list)) (%s u l))" % n,
                                   "(declare-rule z ((F Bool) (l Bool :list)) :premises (F (%s F l)) :conclusion %s)" % (n, u), "(define m () (eo::hash %s))" % u]))
    drive(c, "declarations", PRE, lines, r, "san" if k % 2 else "dbg", args=options(r, "san"))


def f_reference(c, w, r, k):
    ref = REF + "\n".join(refcommand(r, j) for j in range(r.choice([1, 3, 6]))) + "\n"
    pre = PRE.replace("(declare-const U Type)", "").replace("(declare-const x U)", "") if r.random() < 0.3 else "(declare-const = (-> Bool Bool Bool))\n"
    body = "".join(r.choice(["(assume q%d a)" % j, "(assume q%d (P x))" % j, command(r, j)]) + "\n" for j in range(r.choice([0, 1, 4])))
    q = r.random()
    if q < 0.5:
        go(c, "reference", {"r.smt2": ref, "t.eo": pre + '(reference "r.smt2"%s)\n' % r.choice(["", "", " f", " eo::add", " nope", " (f)", " lst"]) + body}, args=options(r, "san"))
    elif q < 0.8:
        go(c, "reference", {"r.smt2": ref, "e.eo": pre, "t.proof": body}, main="t.proof", args=options(r, "san") + ["--include=e.eo", "--reference=r.smt2"])
    else:
        go(c, "reference", {"r.smt2": ref, "e.eo": pre}, args=options(r, "san") + ["--include=e.eo", "--reference=r.smt2"], stdin=body)


def f_prefix(c, w, r, k):
    """Every input may end at any byte."""
    if w.small and k % 2:
        b, files, n = ri(r, w.small)[1], {}, "t.eo"
    else:
        n = ri(r, w.names)
        b, files = w.rep[n], dict(needed(n, w.rep))
    if k % 10 == 0:
        b, files, n = PRE.encode() + ("\n".join(command(r, j) for j in range(4))).encode(), {}, "t.eo"
    cut = r.randint(0, len(b))
    t = r.choice([b"", b"", b"", b'"', b"|", b"(", b")", b";", b"#", b"#b", b"#x", b":", b"\\", b"-", b"1.", b"1/", b"\x00", b"\xff", b'"\\u{', b'"\\u12'])
    if r.random() < 0.3:
        go(c, "prefixes", dict(files, **{n: b}), args=options(r, "san"), stdin=b[:cut] + t)
    else:
        files[n] = b[:cut] + t
        go(c, "prefixes", files, main=n, args=options(r, "san"))


SOUP = [b"(", b")", b" ", b"\n", b'"', b"|", b";", b"#", b":", b"\\", b"-", b"/", b".", b"0", b"1", b"a", b"x", b"eo::", b"declare-const", b"assume", b"step", b"define", b"\x00", b"\xff", b"\t", b"\r", b"\xc3\xa9"]


def f_soup(c, w, r, k):
    q = r.random()
    if q < 0.3:
        b = bytes(r.randrange(256) for _ in range(r.choice([1, 2, 5, 20, 300, 5000])))
    elif q < 0.6:
        b = b"".join(ri(r, SOUP) for _ in range(r.choice([1, 3, 10, 40, 400])))
    elif q < 0.8:
        b = b" ".join(ri(r, w.pool) for _ in range(r.choice([3, 10, 40, 400])))
    elif q < 0.9:
        # long tokens and long runs
        n = r.choice([1022, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 70000, 200000])
        b = r.choice([b"(declare-const " + b"a" * n + b" Bool)\n(assume p " + b"a" * n + b")", b"; " + b"c" * n + b"\n(echo \"" + b"s" * n + b"\")", b" " * n + b"(push)\n" * 3, b"\n" * n + b")",
                      b"(declare-const |" + b"q" * n + b"| Bool)", b"(assume p " + b"7" * n + b")", b"(assume p #b" + b"10" * (n // 2) + b")", b"(define m () #x" + b"f" * (n // 4) + b")", b":" + b"k" * n,
                      b"(define m () 0." + b"3" * (n // 16) + b")"])
    else:
        # deep nesting
        n = r.choice([100, 500, 2000])
        o, cl = r.choice([(b"(not ", b")"), (b"(or a ", b")"), (b"(eo::not ", b")"), (b"(", b")"), (b"(eo::define ((u a)) ", b")"), (b"(-> Bool ", b")"), (b"(! ", b" :a)"), (b"(forall ((u U)) ", b")"),
                          (b"(_ not ", b")"), (b"(eo::ite true ", b" a)"), (b"(Set ", b")"), (b"(f ", b")")])
        b = PRE.encode() + b"(define m () " + o * n + b"a" + (cl * n if r.random() < 0.8 else b"") + b")\n(define k () (eo::typeof m))\n(step z :rule r6 :args (m))\n"
        go(c, "soup", {"t.eo": b}, args=options(r, "san"), variant=r.choice(["san", "dbg"]), timeout=40)
        return
    if r.random() < 0.4:
        go(c, "soup", {"e.eo": PRE}, args=options(r, "san") + (["--include=e.eo"] if r.random() < 0.5 else []), stdin=b)
    else:
        go(c, "soup", {"t.eo": (PRE.encode() if r.random() < 0.5 else b"") + b}, args=options(r, "san"))


def f_history(c, w, r, k):
    """Long histories of scopes, overloads, deleted and rebuilt terms."""
    lines = []
    depth, alvl = 0, []
    names = ["o", "n1", "n2", "n3", "or", "x"]
    for j in range(r.choice([20, 60, 120])):
        q = r.randrange(14)
        if q < 3:
            lines.append("(push)")
            depth += 1
        elif q < 6 and depth > (alvl[-1] if alvl else 0):
            lines.append("(pop)")
            depth -= 1
        elif q == 6:
            lines.append("(declare-const %s %s%s)" % (r.choice(names), typ(r, 1) if r.random() < 0.3 else r.choice(["U", "(-> U U)", "(-> Bool Bool Bool)", "Bool", "(-> Int Int)"]), r.choice(["", "", " :right-assoc-nil false", " :left-assoc-nil true", " :chainable and"])))
        elif q == 7:
            lines.append("(define %s () %s)" % (r.choice(names), term(r, 2)))
        elif q == 8:
            lines.append("(declare-rule q%d ((F Bool)) :args (F) :conclusion F%s)" % (j % 5, r.choice(["", " :sorry"])))
        elif q == 9:
            lines.append("(step t%d :rule %s :args (%s))" % (j, r.choice(["q%d" % (j % 5), "q%d" % ((j + 1) % 5), "r6"]), wt(r, "Bool", 2)))
        elif q == 10:
            lines.append("(program g%d ((u U)) :signature (U) U (((g%d u) %s)))" % (j, j, wt(r, "U", 1)))
        elif q == 11:
            lines.append("(assume-push t%d %s)" % (j, wt(r, "Bool", 1)))
            alvl.append(depth)
        elif q == 12 and alvl:
            lines.append("(step-pop t%d :rule r3 :premises (%s))" % (j, r.choice(["p0", "p1", "t%d" % (j - 1)])))
            if alvl:
                depth = alvl.pop()
        elif q == 13 and r.random() < 0.15:
            lines.append("(reset)")
            lines += PRE.strip().split("\n")
            depth, alvl = 0, []
        else:
            lines.append("(define m%d () (eo::%s %s %s))" % (j, r.choice(["eq", "cmp", "is_eq"]), wt(r, "U", 2), wt(r, "U", 2)))
    drive(c, "histories", PRE, lines, r, "san" if k % 2 else "dbg", keep=True, limit=12, args=options(r, "san") + (["--stats", "--stats-all"] if r.random() < 0.3 else []))


def f_cli(c, w, r, k):
    """Command lines."""
    pool = ["--include=e.eo", "--include=missing.eo", "--include=", "--include", "--reference=r.smt2", "--reference=", "--include=t.eo", "--include=.", "--help", "--show-config", "--nosuch", "--no-nosuch",
            "--", "-", "-t", "-v", "-x", "", "--stats", "--stats-all", "--stats-compact", "--no-stats", "--no-print-dag", "--print-dag", "--normalize-num", "--no-normalize-num", "--no-rule-sym-table",
            "--no-parse-let", "--no-", "t.eo", "sub", "e.eo", "missing", "/", "--reference=e.eo", "--include=sub/../e.eo"]
    args = [ri(r, pool) for _ in range(r.choice([0, 1, 2, 3, 4]))]
    variant = r.choice(["san", "san", "dbg", "rel"])
    files = {"t.eo": PRE, "e.eo": "(declare-const ee Bool)\n", "r.smt2": REF + "(assert a)\n", "sub/z.eo": ""}
    if r.random() < 0.5:
        go(c, "command lines", files, main=r.choice(["t.eo", "sub", "missing.eo", "", "e.eo", "./t.eo", "r.smt2"]), args=args, variant=variant)
    else:
        go(c, "command lines", files, args=args, variant=variant, stdin=r.choice([b"", b"(echo \"x\")", b"(", b"(declare-const q Bool)", b"\x00", PRE.encode()]))


def f_valgrind(c, w, r, k):
    """Uninitialised values, which the compiler sanitizers do not see."""
    q = k % 4
    files, main = {}, "t.eo"
    if q == 0:
        main = ri(r, w.names)
        files = dict(needed(main, w.rep))
    elif q == 1 and w.small:
        files = {"t.eo": ri(r, w.small)[1]}
    elif q == 2:
        files = {"t.eo": PRE + "\n".join("(define m%d () %s)" % (j, wt(r, r.choice(["Bool", "U", "Int"]), 3)) for j in range(40)) + "\n" + command(r, 3) + "\n"}
    else:
        n = ri(r, w.names)
        files = dict(needed(n, w.rep))
        files[n] = b"".join(mutate(r, w.toks[n], w.pool, w.donors))
        main = n
    d = c.workdir()
    try:
        for name, text in files.items():
            p = os.path.join(d, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(text if isinstance(text, bytes) else text.encode())
        args = options(r, "rel")
        try:
            p = subprocess.run(["valgrind", "-q", "--error-exitcode=77", "--track-origins=no", "--trace-children=no", c.exes["dbg"] + ".dyn"] + args + [main],
                               cwd=d, stdin=subprocess.DEVNULL, capture_output=True, timeout=100)
        except subprocess.TimeoutExpired:
            c.inconclusive += 1
            return
        err = p.stderr.decode("latin-1")
        c.count("family valgrind")
        c.seen(("valgrind", tuple(sorted(files.items()))))
        m = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid (?:read|write|free)|Syscall param|Mismatched|Source and dest|Invalid free)", err)
        if m and "Mismatched" not in m.group(1):
            fr = re.findall(r"==\d+==\s+(?:at|by) \S+: (ethos::[\w:]+)", err)
            c.violation("valgrind:%s:%s" % (m.group(1).replace(" ", "_"), fr[0] if fr else ""), "valgrind: " + m.group(1), files, args=args, main=main,
                        expected="no use of uninitialised or invalid memory", observed=err[:1500])
    finally:
        shutil.rmtree(d, ignore_errors=True)


CNUM = ["0", "1", "-1", "2", "3", "4", "5", "8", "31", "32", "33", "63", "64", "65", "-64", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "9223372036854775807",
        "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "(eo::to_z \"\")"]
CRAT = ["0/1", "1/1", "-1/1", "1/2", "-1/2", "7/3", "-7/3", "18446744073709551616/3", "1/18446744073709551616", "1.5", "0.0"]
CBV = ["(eo::to_bin 0 0)", "#b0", "#b1", "#b0101", "#xff", "(eo::to_bin 31 -1)", "(eo::to_bin 32 -1)", "(eo::to_bin 33 -1)", "(eo::to_bin 64 -1)", "(eo::to_bin 64 0)", "(eo::to_bin 65 -1)", "(eo::to_bin 130 1)"]
CSTR = ['""', '"a"', '"abc"', '"aa"', '"\\u{2FFFF}"', '"\\u{1F600}b"', '"7"', '"-7"', '"007"', '"99999999999999999999"']
CBOOL = ["true", "false"]
_corners = []


def corners():
    """Literal operators on the corner cases of every kind of literal, in all
    combinations that concern the operator, and a sample of the others."""
    if _corners:
        return _corners
    out = []
    pools = [CNUM, CRAT, CBV, CSTR, CBOOL]
    every = [x for p in pools for x in p]
    for op in "neg to_z to_q to_str is_neg len not is_z is_q is_bin is_str is_bool is_var is_ok hash typeof nameof dt_constructors dt_selectors".split():
        out += ["(eo::%s %s)" % (op, x) for x in every]
    for op in "add mul zdiv zmod qdiv gt concat find and or xor eq is_eq cmp".split():
        for p in pools:
            out += ["(eo::%s %s %s)" % (op, x, y) for x in p for y in p]
    out += ["(eo::to_bin %s %s)" % (x, y) for x in CNUM if len(x) < 8 for y in CNUM + CBV]
    idx = ["0", "1", "2", "3", "4", "8", "31", "32", "63", "64", "65", "-1", "2147483648", "4294967295", "4294967296", "18446744073709551616", "-18446744073709551616"]
    out += ["(eo::extract %s %s %s)" % (x, i, j) for x in CBV + CSTR for i in idx for j in idx]
    out += ["(eo::extract %s %s)" % (x, i) for x in CBV + CSTR for i in idx]
    rr = random.Random(5)
    for op in "add mul zdiv zmod qdiv gt concat find and or xor eq cmp to_bin extract ite requires".split():
        for _ in range(60):
            a = [ri(rr, every) for _ in range(OPS[op] if rr.random() < 0.8 else rr.choice([1, 2, 3, 4]))]
            if op == "to_bin" and len(a[0]) > 5:
                continue
            out.append("(eo::%s %s)" % (op, " ".join(a)))
    _corners.extend(out)
    return out


def f_corners(c, w, r, k):
    n = 32
    xs = corners()[k // 2 % n::n]
    q = k // (2 * n)
    if q:
        # later rounds: operators on the results of operators
        xs = [x if r.random() < 0.3 else "(eo::%s%s)" % (r.choice("add mul concat and or xor extract eq len to_z to_str neg not to_q find to_bin".split()),
                                                          "".join(" " + y for y in [x] + [r.choice([ri(r, corners()), ri(r, CNUM[:14]), ri(r, CBV), ri(r, CSTR)]) for _ in range(r.choice([0, 1, 1, 2]))])) for x in xs]
        xs = [x for x in xs if not re.search(r"to_bin \S*\d{5}|to_bin \(", x)]
    lines = ["(define m%d () %s)" % (j, x) for j, x in enumerate(xs)]
    c.count("corner terms", len(lines))
    drive(c, "corner literals", PRE, lines, r, "san" if k % 2 else "dbg")


FAMILIES = [(f_corpus, 360, 3000), (f_small, 1600, 3000), (f_mutant, 2000, 120000), (f_ops, 120, 6000), (f_corners, 96, 3000), (f_terms, 60, 4000), (f_commands, 90, 8000), (f_declare, 45, 6000), (f_reference, 300, 8000),
            (f_prefix, 500, 15000), (f_soup, 300, 8000), (f_history, 90, 6000), (f_cli, 120, 3000), (f_valgrind, 24, 1500)]


def run(c):
    c.need("san", "dbg", "rel")
    c.rule = ("a run counts if its command line and inputs are new; every run is observed by AddressSanitizer, UndefinedBehaviorSanitizer, "
              "the project's assertions and libstdc++'s (or valgrind)")
    c.assumptions += ["evaluation of recursive programs need not terminate, so exhaustion of time or stack is judged only for inputs without programs",
                      "exhaustion of memory by literals of thousands of digits is not judged", "leaks and new/free pairing are not judged"]
    w = Work()
    jobs = []
    for fi, (f, q, t) in enumerate(FAMILIES):
        n = c.n(q, t)
        if f is f_small:
            n = min(n, len(w.small)) if c.quick else len(w.small) * 2
        jobs += [(fi, k) for k in range(n)]
    random.Random(c.seed).shuffle(jobs)

    def one(j):
        fi, k = j
        r = random.Random("%s-%d-%d" % (c.seed, fi, k))
        FAMILIES[fi][0](c, w, r, k)
    c.ppmap(one, jobs)
