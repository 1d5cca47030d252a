"""C06: the response, exit status and echo output of inputs with and without an error."""
import random
import re
import grammar

PRE = """(declare-const U Type)
(declare-const a Bool) (declare-const b Bool)
(declare-const x U) (declare-const y U)
(declare-const P (-> U Bool)) (declare-const f (-> U U))
(declare-const not (-> Bool Bool)) (declare-const imp (-> Bool Bool Bool))
(declare-const or (-> Bool Bool Bool) :right-assoc-nil false)
(declare-rule id ((F Bool)) :premises (F) :conclusion F)
(declare-rule ax ((F Bool)) :args (F) :conclusion (imp F F))
(declare-rule dis ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (imp F G))
(declare-rule sid ((F Bool)) :premises (F) :conclusion F :sorry)
(declare-rule sax ((F Bool)) :args (F) :conclusion F :sorry)
(declare-rule snul () :conclusion false :sorry)
(declare-rule sdis ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (imp F G) :sorry)
(program prog ((F Bool)) :signature (Bool) Bool (((prog (not F)) F) ((prog F) F)))
(assume hA a)
"""

# (text, local): an error that must be reported in the line itself, or from it on
ERRORS = [
    ("(assume x0 nope)", 1), ("(assume x0 (P a))", 1), ("(assume x0 (f x))", 1), ("(assume x0 (nope a))", 1), ("(assume x0 (P x y))", 1),
    ("(step x0 b :rule id :premises (hA))", 1), ("(step x0 :rule norule)", 1), ("(step x0 a :rule id)", 1),
    ("(step x0 a :rule id :premises (hB))", 1), ("(step x0 a :rule id :premises (a))", 1), ("(step x0 (imp a b) :rule ax :args (a))", 1),
    ("(step x0 a :rule ax)", 1), ("(step x0 a :premises (hA))", 1), ("(step x0 :rule dis :premises (hA))", 1), ("(step x0 b :rule sid :premises (hA))", 1),
    ("(step-pop x0 :rule id)", 1), ("(step-pop x0 a :rule ax :args (a))", 1), ("(pop 100000)", 1), ("(frob)", 1), ("frob", 1), (")", 1), ("()", 1),
    ("(declare-const)", 1), ("(declare-const q)", 1), ("(declare-const q Bool))", 1), ("(declare-const q Bool extra)", 1), ("(declare-const q Foo)", 1),
    ("(declare-const q x)", 1), ('(include "missing.eo")', 1), ("(include foo)", 1), ("(include)", 1), ("(program)", 1), ("(program q () U)", 1),
    ("(program q ((v U)) :signature (U) U (((q v) v v)))", 1), ("(program q ((v U)) :signature (U) U (((q v) w)))", 1),
    ("(program q ((v U) (w U)) :signature (U) U (((q v) w)))", 1), ("(program q ((v U)) :signature (U) U (((prog v) v)))", 1),
    ("(declare-rule id ((F Bool)) :premises (F) :conclusion F)", 1), ("(declare-rule q ((F Bool)) :premises (F))", 1),
    ("(declare-rule q ((F Bool)) :conclusion F :premises (F))", 1), ("(define q () (P a) :type Bool)", 1), ("(define q () x :type Bool)", 1), ("(define q)", 1),
    ("(assume q #b)", 1), ("(assume q #xG)", 1), ("(assume q #)", 1), ("(assume q 1.2.3)", 1), ("(assume q \x01)", 1), ("(assume q \x00)", 1), ("\x7f", 1), ("\xff", 1),
    ("(declare-datatype D ((c)) extra)", 1), ("(declare-datatype D)", 1), ("(declare-consts <foo> U)", 1), ("(declare-consts <numeral>)", 1), ("(eo::eq a b)", 1),
    ("(set-option)", 1), ('(echo "a" "b")', 1), ("(echo a)", 1), ("(push foo)", 1), ("(assert a)", 1), ("(check-sat)", 1), ('(reference "missing.smt2")', 1),
    ("(declare-const :foo Bool)", 1), ("(declare-const 5 Bool)", 1), ('(declare-const "a" Bool)', 1), ("(assume q ())", 1), ("(assume q)", 1), ("(assume a)", 1),
    ("(assume q a b)", 1), ("(assume q a", 0), ("(reset", 0), ("(exit", 0), ("(push", 0), ("(echo", 0), ("(", 0), ("(declare-const q Bool", 0), ('(echo "abc)', 0),
    ("(assume q |abc)", 0), ("(step q (imp a a) :rule ax :args (a)", 0), ("(step x0 :rule snul :args (a))", 1), ("(step x0 (P x) :rule snul)", 1),
    ("'a'", 1), ("(assume q (eo::list_nth or a))", 1), ("(assume q (eo::add a))", 1), ("true", 1), ("12", 1), ('"s"', 1), (":k", 1), ("|frob|", 1),
]


class Unit:
    """One file: list of [text, echo text|None, include name|None, sorry]."""

    def __init__(self):
        self.cmds = []


def commands(r, n, names, files, depth, fname):
    """Random valid commands of a file; may create included files."""
    out = []

    def add(text, echo=None, inc=None, sorry=False):
        out.append([text, echo, inc, sorry])
    lvl = 0
    push = 0
    k = 0
    while k < n or lvl:
        k += 1
        names[0] += 1
        u = names[0]
        q = r.random()
        if lvl and (k >= n or q < 0.15):
            s = r.random() < 0.15
            add("(step-pop z%d (imp (P x) a) :rule %s :premises (hA))" % (u, "sdis" if s else "dis"), sorry=s)
            lvl -= 1
        elif q < 0.3:
            add('(echo "e%d%s")' % (u, r.choice(["", " spaces  in", " (x) ; no comment", ' ""q""', " %s%n \\n \\u{41} | \\", " " + "long text " * r.choice([3, 20, 80]), " " * 70])), echo=True)
            t = out[-1][0]
            out[-1][1] = t[7:-2].replace('""', '"')
        elif q < 0.33:
            add("(echo)", echo="")
        elif q < 0.45:
            s = r.random() < 0.12
            add("(step s%d a :rule %s :premises (hA))" % (u, "sid" if s else "id"), sorry=s)
        elif q < 0.5:
            s = r.random() < 0.12
            add("(step s%d :rule %s :args ((or a b)))" % (u, "sax" if s else "ax"), sorry=s)
        elif q < 0.52:
            s = r.random() < 0.2
            if s:
                add("(step s%d :rule snul)" % u, sorry=True)
        elif q < 0.58:
            add("(assume-push w%d (P x))" % u)
            lvl += 1
        elif q < 0.63:
            add("(push)")
            push += 1
            add("(declare-const c%d U)" % u)
            if lvl == 0 and r.random() < 0.6:
                # a rule of this scope only
                s = r.random() < 0.4
                add("(declare-rule v%d ((F Bool)) :args (F) :conclusion F%s)" % (u, " :sorry" if s else ""))
                if r.random() < 0.6:
                    add("(step s%d :rule v%d :args ((or a b)))" % (u, u), sorry=s)
            add("(pop)")
        elif q < 0.7 and lvl == 0 and depth < 2:
            name = "i%d.eo" % u
            files[name] = None
            sub = commands(r, r.choice([0, 1, 3, 6]), names, files, depth + 1, name)
            files[name] = sub
            add('(include "%s")' % name, inc=name)
            if r.random() < 0.3:
                add('(include "%s")' % name, inc=name)
        elif q < 0.76:
            add("(declare-const d%d (-> U U Bool))" % u)
        elif q < 0.8:
            add("(define m%d ((v U)) (or (P v) a))" % u)
        elif q < 0.83:
            add("(program g%d ((F Bool)) :signature (Bool) Bool (((g%d F) (not F))))" % (u, u))
        elif q < 0.86:
            add("(declare-datatype D%d ((k%d) (l%d (m%d U))))" % (u, u, u, u))
        elif q < 0.9 and lvl == 0:
            # declared but not (necessarily) used
            add("(declare-rule r%d ((F Bool)) :args (F) :conclusion (or F a) :sorry)" % u)
        elif q < 0.93:
            add("(set-option :foo%d true)" % u)
        elif q < 0.97:
            add("(assume t%d\n   ; a comment ( \" |\n   (or a\n (P x)))" % u)
        else:
            add("(assume |q %d| (P (f x))) ; trailing (" % u)
    return out


def flatten(cmds, files, done):
    """Echo lines and sorry flag of processing cmds to the end."""
    echoes, sorry = [], False
    for text, echo, inc, s in cmds:
        if echo is not None:
            echoes.append(echo)
        sorry |= s
        if inc is not None and inc not in done:
            done.add(inc)
            e, s2 = flatten(files[inc], files, done)
            echoes += e
            sorry |= s2
    return echoes, sorry


def render(r, cmds):
    """Text and the offsets (start, end, first line) of each command."""
    t, pos = "", []
    for text, _, _, _ in cmds:
        if r.random() < 0.1:
            t += r.choice(["\n", "; c (\n", "   ", "\t\r\n", "; " + "x" * r.choice([5, 300, 1500]) + "\n"])
        line = t.count("\n") + 1
        core = text.split(" ; trailing")[0]
        pos.append((len(t), len(t) + len(core), line))
        t += text + "\n"
    return t, pos


def judge(c, files, args, main, stdin, variant, want, echoes, where, label, what, echoerr=False):
    """want: correct|incomplete|reject."""
    res = c.run(files, main=main, args=args, stdin=stdin, variant=variant)
    if res.kind == "timeout":
        c.inconclusive += 1
        return
    c.count("judged_" + want)
    lines = res.out.split("\n")
    problem = None
    if want in ("correct", "incomplete"):
        exp = "".join(e + "\n" for e in echoes) + want + "\n"
        if res.kind != want or res.rc != 0:
            problem = "expected verdict %s with status 0" % want
        elif res.out != exp:
            problem = "the output is not the echo output followed by the response"
    else:
        exp = "".join(e + "\n" for e in echoes) if echoes is not None else None
        if res.kind != "reject" or res.rc == 0:
            problem = "an input with an error was not rejected with an error message and a non-zero status"
        elif "correct" in lines or "incomplete" in lines:
            problem = "a response was printed for an input with an error"
        elif exp is not None and res.out != exp and not (echoerr and res.out.startswith(exp) and (echoerr is True or res.out.count("\n") == exp.count("\n") + echoerr)):
            problem = "the echo output before the error is not complete, in order and exactly once"
        elif where is not None:
            p = res.pos()
            if p is None:
                problem = "the error message gives no position"
            elif (where[0] and not p[0].endswith(where[0])) or (where[2] and p[1] != where[1]) or (not where[2] and p[1] < where[1]):
                problem = "the error message gives another position than %s:%d" % where[:2]
        exp = "%s; error%s" % (repr(exp), " at %s:%d" % where[:2] if where else "")
    if problem:
        c.violation(label, what + ": " + problem, files, args=args, main=main, stdin=stdin, expected=exp, observed=res.brief())


def scenario(r):
    files = {}
    cmds = commands(r, r.choice([2, 5, 10, 25, 50]), [0], files, 0, "main")
    return cmds, files


def work(c, seed, n):
    r = random.Random(seed)
    for q in range(n):
        cmds, files = scenario(r)
        mode = r.choice(["eo", "eo", "stdin", "cmdinclude", "included"])
        # types are not part of the syntax of proofs on standard input
        pre = ['(include "pre.eo")'] if mode == "stdin" else PRE.strip().split("\n")
        cmds = [[l, None, None, False] for l in pre] + cmds
        npre = len(pre)
        wrap = {"eo": "t.eo", "stdin": None, "cmdinclude": "ci.eo", "included": "sub.eo"}[mode]
        rs = r.randrange(1 << 30)

        def build(cm, fs, text=None):
            """files, args, main, stdin"""
            out = {}
            for k, v in fs.items():
                out[k] = v if isinstance(v, str) else render(random.Random(rs + len(out)), v)[0]
            t = text if text is not None else render(random.Random(rs), cm)[0]
            args, main, stdin = [], None, None
            if mode == "stdin":
                out["pre.eo"] = PRE
                stdin = t
            else:
                out[wrap] = t
                main = wrap
                if mode == "cmdinclude":
                    args, main = ["--include=ci.eo"], "last.eo"
                    out["last.eo"] = '(echo "last")\n'
                elif mode == "included":
                    main = "top.eo"
                    out["top.eo"] = '(echo "first")\n(include "sub.eo")\n(echo "last")\n'
            return out, args, main, stdin

        def full(e, ended):
            e = list(e)
            if mode == "included":
                e = ["first"] + e
            if mode in ("included", "cmdinclude") and ended:
                e = e + ["last"]
            return e
        variant = r.choice(["rel", "rel", "dbg", "san"])
        # 1. the valid input
        echoes, sorry = flatten(cmds, files, set())
        c.seen((mode, rs, tuple(x[0] for x in cmds)))
        fl, args, main, stdin = build(cmds, files)
        judge(c, fl, args, main, stdin, variant, "incomplete" if sorry else "correct", full(echoes, True), None, "valid:" + mode, "a valid input")
        text, pos = render(random.Random(rs), cmds)
        # 2. one error, in one of the files
        for _ in range(6):
            err, local = r.choice(ERRORS)
            target = r.choice([None, None, r.choice(sorted(files))]) if files else None
            lst = files[target] if target else cmds
            k = r.randint(npre if target is None else 0, len(lst))
            if r.random() < 0.2:
                k = len(lst)
            mark = [err, None, None, False]
            lst2 = lst[:k] + [mark] + lst[k:]
            fs2 = dict(files)
            cm2 = cmds
            if target:
                fs2[target] = lst2
            else:
                cm2 = lst2
            # echoes before the error
            ech = []

            def walk(l, done):
                for x in l:
                    if x is mark:
                        return False
                    if x[1] is not None:
                        ech.append(x[1])
                    if x[2] is not None and x[2] not in done:
                        done.add(x[2])
                        if not walk(fs2[x[2]], done):
                            return False
                return True
            if walk(cm2, set()):
                continue
            fl, args, main, stdin = build(cm2, fs2)
            fname = target or wrap
            t2 = fl[fname] if fname else stdin
            # the line of the marker in its file
            cnt = render(random.Random(rs + list(fs2).index(target)) if target else random.Random(rs), lst2)[1][k]
            where = (fname, cnt[2], local)
            c.seen((mode, rs, k, err, target))
            c.count("injected_in_" + ("included" if target else mode))
            judge(c, {k2: v.encode("latin-1") for k2, v in fl.items()}, args, main, stdin.encode("latin-1") if stdin else stdin, variant, "reject",
                  full(ech, False), None if err.startswith("(pop") or "missing." in err else where, "error:" + mode + ":" + err[:24].replace(" ", "_"), "the error %r" % err, echoerr=err == '(echo "abc)' or int(err.startswith("(echo")))
        # 3. cut off at an arbitrary byte
        for _ in range(6):
            k = r.randrange(npre, len(pos)) if len(pos) > npre else 0
            o = r.choice([r.randint(pos[k][0], pos[k][1]), r.randint(pos[k][0], pos[k][0] + 2), pos[k][1] - 1, pos[k][1], r.randint(pos[npre - 1][1], len(text))])
            o = min(o, len(text))
            fullc = [x for x, p in zip(cmds, pos) if p[1] <= o]
            partial = any(p[0] < o < p[1] for p in pos)
            lv = sum((x[0].startswith("(assume-push")) - (x[0].startswith("(step-pop")) for x in fullc)
            ech, sry = flatten(fullc, files, set())
            want = "reject" if partial or lv else "incomplete" if sry else "correct"
            fl, args, main, stdin = build(cmds, files, text=text[:o])
            c.seen((mode, rs, "cut", o))
            # an echo or include whose closing parenthesis is missing may already be processed
            pe = 0
            for x, p in zip(cmds, pos):
                if p[0] < o < p[1]:
                    pe = 1 if x[1] is not None else x[2] is not None
            judge(c, fl, args, main, stdin, variant, want, full(ech, want != "reject"), None, "cut:" + mode, "an input cut off at byte %d" % o, echoerr=pe)
        # 4. what follows exit is not read
        if mode in ("eo", "stdin") and len(cmds) > npre:  # exit in other files only ends those
            k = r.randint(npre, len(cmds))
            lv = sum((x[0].startswith("(assume-push")) - (x[0].startswith("(step-pop")) for x in cmds[:k])
            if lv == 0:
                ech, sry = flatten(cmds[:k], files, set())
                t = render(random.Random(rs), cmds[:k])[0] + "(exit)" + r.choice(["", " ", "\n"]) + \
                    r.choice([render(random.Random(rs), cmds[k:])[0], "(frob)", ")", "\x00\x01", "(", '"', '(step z :rule snul)\n(echo "after")'])
                fl, args, main, stdin = build(cmds, files, text=t)
                c.seen((mode, rs, "exit", k))
                judge(c, fl, args, main, stdin, variant, "incomplete" if sry else "correct", full(ech, True), None, "exit:" + mode, "an input ended by exit")
        if len(c.pending) > 3:
            return
    c.sample(text[:1200])


def sorry_cases(c):
    """Uses of sorry rules that leave no trace in the final state."""
    D = PRE.split("(assume hA")[0]
    cases = [
        ("unused", "", "correct"),
        ("nested", "(assume-push w b)\n(step t a :rule sid :premises (hA))\n(step-pop z :rule dis :premises (hA))", "incomplete"),
        ("pushed", "(push)\n(step t a :rule sid :premises (hA))\n(pop)", "incomplete"),
        ("steppop", "(assume-push w b)\n(step-pop z :rule sdis :premises (hA))", "incomplete"),
        ("reset", "(step t a :rule sid :premises (hA))\n(reset)\n(declare-const zz Bool)", "incomplete"),
        ("reset2", "(reset)\n" + D + "(assume hA a)\n(step t a :rule id :premises (hA))", "correct"),
        ("reset3", "(step t a :rule sid :premises (hA))\n(reset)\n" + D + "(assume hA a)\n(step t a :rule id :premises (hA))", "incomplete"),
        ("redeclared", "(reset)\n" + D.replace("sid", "xid").replace("(declare-rule id", "(declare-rule sid") + "(assume hA a)\n(step t a :rule sid :premises (hA))", "correct"),
        ("redeclared2", "(reset)\n" + D.replace("(declare-rule id", "(declare-rule oid").replace("sid", "id") + "(assume hA a)\n(step t a :rule id :premises (hA))", "incomplete"),
        ("many", "\n".join("(step t%d a :rule id :premises (hA))" % k for k in range(300)) + "\n(step t a :rule sid :premises (hA))\n"
         + "\n".join("(step u%d a :rule id :premises (hA))" % k for k in range(300)), "incomplete"),
        ("rulescope", "(push)\n(declare-rule loc ((F Bool)) :premises (F) :conclusion F :sorry)\n(step t a :rule loc :premises (hA))\n(pop)\n"
         + "\n".join("(declare-rule l%d ((F Bool)) :premises (F) :conclusion F)" % k for k in range(5)), "incomplete"),
        ("rulescope2", "(push)\n(declare-rule loc ((F Bool)) :premises (F) :conclusion F :sorry)\n(pop)\n"
         + "\n".join("(declare-rule l%d ((F Bool)) :premises (F) :conclusion F)\n(step k%d a :rule l%d :premises (hA))" % (k, k, k) for k in range(40)), "correct"),
        ("twice", "(step t a :rule sid :premises (hA))\n" * 2, "incomplete"),
        ("exit", "(step t a :rule sid :premises (hA))\n(exit)\n", "incomplete"),
        ("afterexit", "(exit)\n(step t a :rule sid :premises (hA))\n", "correct"),
        ("last", "(step t :rule snul)", "incomplete"),
    ]
    for name, t, want in cases:
        for opts in ([], ["--no-rule-sym-table"], ["--stats"], ["--stats", "--stats-all", "--stats-compact"], ["--no-print-dag"]):
            for variant in ("rel", "san", "dbg"):
                for where in ("eo", "stdin", "inc"):
                    text = PRE + t + "\n"
                    if where == "eo":
                        a = dict(files={"t.eo": text}, main="t.eo")
                    elif where == "stdin":
                        if "declare-datatype" in t or "U Type" in t:
                            continue
                        a = dict(files={"pre.eo": PRE}, main=None, stdin='(include "pre.eo")\n' + t + "\n")
                    else:
                        if "exit" in name:
                            continue
                        a = dict(files={"t.eo": text, "m.eo": '(include "t.eo")\n(declare-const last Bool)\n'}, main="m.eo")
                    yield name, opts, variant, where, a, want


def run_sorry(c, case):
    name, opts, variant, where, a, want = case
    res = c.run(a["files"], main=a["main"], args=opts, stdin=a.get("stdin"), variant=variant)
    c.seen((name, tuple(opts), variant, where))
    c.count("sorry_cases")
    got = "?" if res.rc != 0 else "incomplete" if "incomplete\n" in res.out else "correct" if "correct\n" in res.out else "?"
    if got != want or res.out.split("\n", 1)[0] != want:
        c.violation("sorry:" + name, "sorry tracking (%s, %s, %s)" % (name, " ".join(opts) or "no options", where), a["files"], args=opts,
                    main=a["main"], stdin=a.get("stdin"), expected=want, observed=res.brief())


def cmdline(c):
    """Errors on the command line, and files that cannot be read."""
    ok = {"t.eo": '(echo "x")\n', "u.eo": '(echo "y")\n'}
    for args in (["--bogus", "t.eo"], ["t.eo", "u.eo"], ["--include=zz.eo", "t.eo"], ["--reference=zz.eo", "t.eo"], ["zz.eo"], ["-x", "t.eo"], ["t.eo", "--bogus"],
                 ["--bogus"], ["dir"], ["--include=", "t.eo"], ["t.eo", "-t"], ["--no-bogus", "t.eo"], ["--include=u.eo", "--include=zz.eo", "t.eo"]):
        for v in ("rel", "dbg"):
            d = dict(ok)
            d["dir/in.eo"] = ""
            res = c.run(d, main="", args=args, variant=v)
            c.seen(("cmdline", tuple(args), v))
            c.count("cmdline")
            lines = res.out.split("\n")
            if res.rc in (0, None) or "correct" in lines or "incomplete" in lines or res.kind == "crash" or not res.err.strip():
                c.violation("cmdline:" + "_".join(args), "wrong command line %s" % args, d, args=args, main="", expected="an error message, non-zero status and no response",
                            observed=res.brief())


# commands of every syntactic form, valid after PRE + DECLS
DECLS = """(declare-const @L Type) (declare-const @nil @L) (declare-parameterized-const @cons ((T Type :implicit)) (-> T @L @L) :right-assoc-nil @nil)
(declare-const Set (-> Type Type)) (declare-const all (-> @L Bool Bool) :binder @cons) (declare-const Int Type) (declare-consts <numeral> Int)
(declare-const and (-> Bool Bool Bool) :left-assoc-nil true) (declare-parameterized-const = ((T Type :implicit)) (-> T T Bool))
(declare-parameterized-const lambda ((T Type :implicit)) (-> @L T T) :binder @cons) (declare-rule pl ((F Bool)) :premise-list F and :conclusion F)
(program fwd ((F Bool)) :signature (Bool) Bool)
"""
COMMANDS = """(assume n1 (or a b))
(assume n1 (! a :named foo))
(declare-consts <string> U)
(declare-consts <decimal> Int)
(declare-const n1 (-> U U Bool))
(declare-const n1 (-> Bool Bool Bool) :right-assoc-nil false)
(declare-const n1 (-> U U Bool) :chainable and)
(declare-const n1 (-> U U U) :left-assoc)
(declare-parameterized-const n1 ((T Type :implicit) (u T)) (-> T Bool))
(declare-parameterized-const n1 () U)
(declare-parameterized-const n1 ((S Type) (u S)) Bool)
(declare-datatype n1 ((n2 (n3 U) (n4 n1)) (n5)))
(declare-datatype n1 (par (T) ((n2 (n3 T)))))
(declare-datatypes ((n1 0) (n2 1)) (((n3) (n4 (n5 n1))) (par (T) ((n6 (n7 T) (n8 U))))))
(declare-sort n1 2)
(declare-rule n1 ((F Bool) (G Bool)) :premises (F (not G)) :args (G) :requires (((prog F) G)) :conclusion (imp F G))
(declare-rule n1 ((F Bool)) :premises () :args (F) :conclusion F :sorry)
(declare-rule n1 ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (imp F G))
(declare-rule n1 ((F Bool)) :premise-list F and :conclusion F)
(declare-rule n1 ((F Bool)) :premises (F) :conclusion-explicit (or F F))
(declare-rule n1 () :conclusion true)
(define n1 () (f x))
(define n1 ((u U) (v U)) (f v) :type (-> U U U))
(define n1 ((T Type :implicit) (u T)) (P x))
(include "inc.eo")
(reference "ref.smt2")
(reference "ref.smt2" prog)
(program n1 ((F Bool)) :signature (Bool) Bool (((n1 (not F)) F) ((n1 F) (eo::ite (eo::eq F a) true F))))
(program n1 ((F Bool) (G Bool :list)) :signature (Bool Bool) Bool (((n1 (or F G) F) (n1 G F)) ((n1 G F) F)))
(program n1 ((F Bool)) :signature (Bool) Bool)
(program fwd ((F Bool)) :signature (Bool) Bool (((fwd F) F)))
(step n1 :rule snul)
(step n1 a :rule id :premises (hA))
(step n1 (imp b b) :rule ax :args (b))
(step n1 :rule ax :premises () :args (b))
(step n1 :rule id :premises (hA) :args ())
(step n1 (and a a) :rule pl :premises (hA hA))
(assume-push n1 b) (step-pop n2 (imp b a) :rule dis :premises (hA))
(assume-push n1 b) (step-pop n2 :rule dis :premises (n1) :args ())
(echo "text")
(echo)
(reset)
(push)
(push 2) (pop 2)
(push) (pop)
(set-option :normalize-num true)
(set-option :foo bar)
(assume n1 (all ((x U) (u Bool)) (or u (P x))))
(assume n1 (eo::define ((u (f x)) (v (f y))) (P v)))
(assume n1 (_ (_ or a) b))
(exit)""".split("\n")
REFCOMMANDS = """(assert (or a b))
(assert (! a :named foo))
(check-sat)
(check-sat-assuming (a (not b)))
(declare-fun n1 (U U) Bool)
(declare-fun n1 () U)
(define-const n1 U (f x))
(define-fun n1 () Bool (P x))
(define-fun n1 ((u U) (v U)) Bool (P (f v)))
(define-sort n1 (S T) (-> S T))
(define-sort n1 () U)
(set-logic ALL)
(set-info :status sat)
(set-info :foo "a b")
(set-info :foo (a (b "c")))
(set-option :foo 3)
(declare-const n1 (-> U U))
(declare-datatypes ((n1 0) (n2 1)) (((n3) (n4 (n5 n1))) (par (T) ((n6 (n7 T) (n8 U))))))
(declare-datatype n1 ((n2 (n3 U) (n4 n1)) (n5)))
(declare-sort n1 0)
(push) (assert b) (pop)
(echo "text")
(exit)""".split("\n")
JUNK = [("(", "("), (")", ")"), ("sym", "a"), ("sym", "zz"), ("sym", "|q r|"), ("num", "3"), ("str", '"s"'), ("lit", "#b01"), ("lit", "1/2"), ("key", ":rule"), ("key", ":args"),
        ("key", ":premises"), ("key", ":zz"), ("key", ":conclusion"), ("key", ":type"), ("sym", "assume"), ("sym", "!"), ("sym", "par"), ("sym", "step")]


def tokenize(text):
    out = []
    for t in re.findall(r'"[^"]*"|\|[^|]*\||[()]|[^\s()|"]+', text):
        k = t if t in "()" else "str" if t[0] == '"' else "key" if t[0] == ":" else "num" if t.isdigit() else "lit" if t[0] == "#" or t[0].isdigit() else "sym"
        out.append((k, t))
    return out


def syntax(c, seed, n):
    """Token sequences outside of the documented grammar are not accepted."""
    r = random.Random(seed)
    files = {"pre.eo": PRE + DECLS, "inc.eo": "(declare-const incl U)\n", "ref.smt2": "(assert a)\n(assert (or a b))\n"}
    for _ in range(n):
        ref = r.random() < 0.25
        toks = tokenize(r.choice((REFCOMMANDS if ref else COMMANDS)[:-1]))
        for _ in range(r.choice([1, 1, 1, 2])):
            if not toks:
                break
            i = r.randrange(len(toks))
            m = r.randrange(7)
            if m == 0:
                del toks[i]
            elif m == 1:
                toks.insert(i, toks[i])
            elif m in (2, 3):
                toks.insert(r.choice([i, i + 1, len(toks) - 1, max(0, len(toks) - 2)]), r.choice(JUNK))
            elif m == 4:
                toks[i] = r.choice(JUNK)
            elif m == 5 and i:
                toks[i - 1], toks[i] = toks[i], toks[i - 1]
            elif m == 6:
                j = r.randrange(len(toks) + 1)
                i, j = min(i, j), max(i, j)
                if j - i > 4:
                    continue
                if r.random() < 0.5:
                    del toks[i:j]
                else:
                    toks[j:j] = toks[i:j]
        why = grammar.outside(toks, ref)
        if why is None:
            c.count("syntax_inside")
            continue
        text = r.choice([" ", "\n"]).join(t for _, t in toks)
        after = r.choice(["\n", "\n(echo)\n", "\n(declare-const last U)\n(%s (P last))\n" % ("assert" if ref else "assume last2")])
        if grammar.outside(toks + tokenize(after), ref) is None:
            c.count("syntax_inside")
            continue
        main = '(include "pre.eo")\n%s%s' % (text, after)
        how = r.choice(["t.eo", "t.smt2", None])
        fs = dict(files)
        if ref:
            fs["ref.smt2"] = text + after
            main = '(include "pre.eo")\n(reference "ref.smt2")\n'
        if how:
            fs[how] = main
        res = c.run(fs, main=how, stdin=None if how else main, variant="dbg" if r.random() < 0.1 else "rel")
        c.seen(("syntax", text, how, ref))
        c.count("syntax_outside")
        lines = res.out.split("\n")
        if res.rc in (0, None) or "correct" in lines or "incomplete" in lines or not res.err.strip():
            c.violation("syntax:" + re.sub("[^a-z]", "", text)[:30], "input outside of the grammar (%s): %s" % (why, text), fs, main=how, stdin=None if how else main,
                        expected="an error message, non-zero status and no response", observed=res.brief())


def syntax_valid(c):
    """The commands that are changed are in the grammar, and accepted."""
    for cmd in COMMANDS + REFCOMMANDS:
        ref = cmd in REFCOMMANDS
        assert grammar.outside(tokenize(cmd), ref) is None, cmd
        files = {"pre.eo": PRE + DECLS, "inc.eo": "(declare-const incl U)\n", "ref.smt2": cmd if ref else "(assert a)\n(assert (or a b))\n",
                 "t.eo": '(include "pre.eo")\n%s\n' % ('(reference "ref.smt2")' if ref else cmd)}
        res = c.run(files, main="t.eo", variant="rel")
        c.count("syntax_valid")
        if res.rc != 0:
            c.violation("syntaxok:" + re.sub("[^a-z]", "", cmd)[:30], "valid command rejected: " + cmd, files, main="t.eo", expected="accepted", observed=res.brief())


def run(c):
    c.rule = ("random valid multi-file inputs of all command kinds (echo everywhere), the same with one of %d errors inserted at a "
              "random command of a random file, cut off at random bytes, or ended by exit; stdout is compared byte for byte with the "
              "expected echo lines and response, and the error position with the inserted error; non-trivial = distinct input judged" % len(ERRORS))
    c.need("san", "dbg", "rel")
    cmdline(c)
    c.ppmap(lambda s: run_sorry(c, s), list(sorry_cases(c)))
    syntax_valid(c)
    c.ppmap(lambda s: syntax(c, s, 100), ["%s-s-%d-%d" % (c.prop, c.seed, k) for k in range(c.n(80, 4000))])
    n = c.n(64, 3000)
    c.ppmap(lambda s: work(c, s, 14), ["%s-%d-%d" % (c.prop, c.seed, k) for k in range(n)])
