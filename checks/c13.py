"""C13: the answer does not depend on the build, the environment, diagnostics,
the names of symbols or irrelevant context (metamorphic: each input, taken from
the repository and from the generators of the other checks, is answered again
in many ways)."""
import os
import random
import re
import gather
from checks import c11, c12

CATEGORIES = {b"<numeral>", b"<rational>", b"<decimal>", b"<binary>", b"<hexadecimal>", b"<string>", b"<boolean>"}
KEEP = c12.RESERVED | CATEGORIES | {b"true", b"false", b"lambda", b"eo"}
TRACES = ["define", "foo", "gc", "opaque", "options", "overload", "param-dt", "parser", "state", "state-debug", "step", "type_checker", "type_checker_debug"]
DIAG = ["--stats", "--stats-all", "--stats-compact", "--no-print-dag"]
NAMEOPS = (b"eo::nameof", b"eo::hash", b"eo::cmp")


def plain(s):
    """Text without what the options and builds are entitled to change."""
    return re.sub(r"(?m)^Fatal failure within.*\n", "", s)


def warnings(res):
    return sorted(l for l in plain(res.err).split("\n") if not l.startswith("Error:") and l.strip())


def same(a, b):
    return a.kind == b.kind and a.out == b.out and plain(a.err) == plain(b.err) and (a.rc == 0) == (b.rc == 0)


def f_runs(c, case, r):
    """Again, in other builds, environments and with diagnostics."""
    ways = [("dbg", (), {}), ("pat", (), {})]
    for _ in range(2):
        env = {"MALLOC_PERTURB_": str(r.randrange(1, 256)), "FILL": "x" * r.randrange(5000)}
        if r.random() < 0.5:
            env["GLIBC_TUNABLES"] = r.choice(["glibc.malloc.tcache_count=0", "glibc.malloc.mmap_threshold=100", "glibc.malloc.top_pad=1", "glibc.malloc.mxfast=0"])
        ways.append((r.choice(["rel", "dbg", "pat"]), (), env))
    for _ in range(2):
        ways.append((r.choice(["rel", "pat", "dbg"]), tuple(r.sample(DIAG, r.choice([1, 1, 2, 4]))), {}))
    ways.append(("dbg", ("-t", r.choice(TRACES)) if r.random() < 0.7 else ("-v",), {}))
    if r.random() < 0.12:
        ways.append(("san", (), {}))
    for variant, opts, env in ways:
        if case.res.kind == "silent0" and "--stats" in case.args:
            return
        res = again(c, case, variant, opts, env)
        if "-t" in opts or "-v" in opts:
            if sum(map(len, case.files.values())) > 20000:
                continue
            ok = res.kind == case.res.kind and res.error() == case.res.error()
            # what is echoed is still there
            i = 0
            for l in case.res.out.split("\n"):
                i = res.out.find(l, i)
                ok = ok and i >= 0
                i = max(i, 0) + len(l)
            c.count("traced")
        elif [o for o in opts if o.startswith("--stats")]:
            done = case.res.kind in ("correct", "incomplete")
            ok = (res.out.startswith(case.res.out) if done or case.res.kind == "reject" else True) and plain(res.err) == plain(case.res.err) and (res.rc == 0) == (case.res.rc == 0) \
                if "--no-print-dag" not in opts else res.out.startswith(case.res.out) and res.pos() == case.res.pos() and (res.rc == 0) == (case.res.rc == 0)
            if done:
                ok = ok and res.rc == 0 and not re.search(r"(?m)^(correct|incomplete)$", res.out[len(case.res.out):])
            c.count("with statistics")
        elif "--no-print-dag" in opts:
            ok = res.kind == case.res.kind and res.out == case.res.out and res.pos() == case.res.pos()
            c.count("without sharing in messages")
        else:
            ok = same(res, case.res)
            c.count("build " + variant if not env else "environment")
        c.seen((case.main, variant, opts, str(env), case.stdin, tuple(sorted(case.files.items()))))
        if not ok:
            c.violation("runs:%s:%s" % (variant, "+".join(o.lstrip("-") for o in opts) or ("environment" if env else "build")),
                        "another answer in %s with %s %s" % (variant, list(opts), env), case.files, args=list(opts) + case.args, main=case.main, stdin=case.stdin,
                        expected=case.res.brief() + "\n" + plain(case.res.err), observed=res.brief() + "\n" + plain(res.err))
            return


def again(c, case, variant, opts=(), env=None, files=None, main=None, stdin=None, args=None):
    files = case.files if files is None else files
    if not env:
        return c.run(files, main=main or case.main, args=list(opts) + (case.args if args is None else args), variant=variant, stdin=case.stdin if stdin is None else stdin)
    import shutil
    d = c.workdir()
    try:
        for n, b in files.items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(b)
        a = list(opts) + case.args
        if case.stdin is None:
            a.append(case.main)
        return c.exec(variant, a, d, stdin=case.stdin, env=env)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------- renaming
def texts(case):
    """All texts by name, standard input included."""
    t = dict(case.files)
    if case.stdin is not None:
        t["\0"] = case.stdin
    return t


def broken(b):
    """Whether the text is not made of complete tokens."""
    return any(t[:1] in b'"|' and (len(t) < 2 or t[-1:] != t[:1] or t[:1] == b'"' and (t.count(b'"') % 2 or any(x < 32 or x > 126 for x in t))) or not t.isspace() and t[:1] not in b'"|;'
               and any(x < 33 or x > 126 for x in t) or t[:1] not in b'"|;' and re.search(rb"[^A-Za-z0-9]:\Z|[#'{}`,\[\]\\].*[A-Za-z]", t) and not re.match(rb"#[bx][0-9a-fA-F]+\Z", t) for t in c11.tokens(b))


def unquote(t):
    return t[1:-1] if t[:1] == b"|" and len(t) > 1 and t[-1:] == b"|" else t


def symbol(t):
    """Whether the token is a symbol a user may have chosen."""
    if t[:1] == b"|":
        return len(t) >= 2 and t[-1:] == b"|"
    return bool(c12.SIMPLE.match(t)) and not c12.NUMBER.match(t) and t not in KEEP and not t.startswith(b"eo::")


def quoted(s):
    return s if c12.SIMPLE.match(s) and not c12.NUMBER.match(s) and s not in KEEP and not s.startswith(b"eo::") and not s.startswith(b":") else b"|" + s + b"|"


ODD = [b"x y", b"(", b")", b'"', b";", b"", b"a(b)c", b"1", b"#b1", b":kw", b"let", b"as", b"_", b"!", b"->", b"Bool", b"\xc3\xa9", b"\x01\x02", b"q\tq", b"assume", b"declare-const",
       b"eo", b"nil", b"@", b"and", b"Int", b"step", b"par", b"match", b"lambda", b"--", b"0.5", b"-3", b"@p1", b"_v1", b"_v2", b"args", b"self",
       # nearly reserved
       b"letx", b"let1", b"lets", b"le", b"lett", b"parx", b"pars", b"pa", b"as1", b"asx", b"a", b"Typex", b"Types", b"Typ", b"Boolx", b"Boo", b"_x", b"__", b"!x", b"!!", b"->x", b"->>", b"-", b"-->", b"eox", b"e",
       b"eo:", b"eo:x", b"meo::x", b"$eo_x", b"x:y", b"truex", b"tru", b"false1", b"falsee", b"lambdax", b"matchx", b"Prooff", b"@list", b"<num>", b"is", b"update", b"numeral", b"-x", b"+1", b".5", b"0x"]
# names that have a meaning unquoted but not quoted do not exist: |let| is let
MEANING = {b"let", b"as", b"_", b"!", b"->", b"Bool", b"eo", b"lambda", b"match", b"par", b"", b"Type", b"true", b"false",
           # the body of define-fun is turned into an application of the user's =
           b"="}


def f_rename(c, case, r):
    ts = texts(case)
    if any(o in b for b in ts.values() for o in NAMEOPS) or any(b"\x00" in b for b in ts.values()):
        return
    if "finding token" in case.res.error():
        return      # not tokens of the language
    toks = {n: c11.tokens(b) for n, b in ts.items()}
    strings = {t[1:-1] for tk in toks.values() for t in tk if t[:1] == b'"'}
    names = set()
    fixed = set()
    for tk in toks.values():
        prev = [t for t in tk if not t.isspace() and t[:1] != b";"]
        for k, t in enumerate(prev):
            head = k and prev[k - 1] == b"("
            if head and t in (b"set-option", b"set-info", b"set-logic"):
                fixed |= {unquote(x) for x in prev[k + 1:k + 3]}
            if symbol(t) and not (head and t.decode("latin-1") in CMDS):
                names.add(unquote(t))
    names = sorted(n for n in names if n not in KEEP and n not in strings and n not in fixed and not n.startswith(b"eo::") and b"\n" not in n and not n.startswith(b"is-")
                   and not n.startswith(b"update-") and n.decode("latin-1") not in CMDS and n not in MEANING and b"\\" not in n and not any(n in s for s in strings if len(n) > 2))
    if not names:
        return
    style = r.choice(["fresh", "fresh", "permute", "odd", "long", "short"])
    if style == "fresh":
        ids = list(range(len(names)))
        r.shuffle(ids)
        new = {n: b"Zq%dx" % i for n, i in zip(names, ids)}
    elif style == "permute":
        q = list(names)
        r.shuffle(q)
        new = dict(zip(names, q))
    elif style == "odd":
        odd = [o for o in ODD if o not in MEANING and o not in fixed and o not in strings]
        r.shuffle(odd)
        new = {n: (odd[i] if i < len(odd) else b"o %d" % i) for i, n in enumerate(names)}
    elif style == "long":
        new = {n: n[:5].replace(b" ", b"") + b"L" * r.choice([50, 300]) + b"%d" % i for i, n in enumerate(names)}
    else:
        al = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ~^&<>="
        xs = [bytes([x]) for x in al] + [bytes([x, y]) for x in al for y in al]
        xs = [x for x in xs if x not in KEEP][:max(len(names), 40)]
        r.shuffle(xs)
        new = dict(zip(names, xs))
    others = {unquote(t) for tk in toks.values() for t in tk if symbol(t)} - set(names)
    if len(set(new.values())) != len(names) or set(new.values()) & others or set(new.values()) & fixed:
        return
    hard = any(v.startswith((b"is-", b"update-")) for v in new.values())
    if hard:
        return

    def conv(t):
        if not symbol(t):
            return t
        u = unquote(t)
        if u in new:
            return quoted(new[u])
        for p in (b"is-", b"update-"):
            if u.startswith(p) and u[len(p):] in new:
                return quoted(p + new[u[len(p):]])
        return t
    out = {}
    for n, tk in toks.items():
        res, last = [], b" "
        prev = b""
        for t in tk:
            solid = not t.isspace() and t[:1] != b";"
            u = t if prev == b"(" and t.decode("latin-1") in CMDS else conv(t)
            if u is not t and (last[-1:] not in b" \n\t\r()" or last == b""):
                res.append(b" ")
            if last is not None and prev and res and res[-1] is last and solid and u is t and last[-1:] == b"|" and t not in (b"(", b")"):
                res.append(b" ")
            res.append(u)
            last = u
            if solid:
                prev = t
        out[n] = b"".join(res)
    stdin = out.pop("\0", None)
    variant = r.choice(["rel", "rel", "dbg"])
    res = again(c, case, variant, files=out, stdin=stdin)
    c.count("renamed " + style)
    c.count("symbols renamed", len(names))
    c.seen((style, case.main, stdin, tuple(sorted(out.items()))))
    p0, p1 = case.res.pos(), res.pos()
    ok = outcome(res) == outcome(case.res) and (p0 and p0[:2]) == (p1 and p1[:2])
    why = ""
    if ok and style == "fresh" and case.res.kind == "reject":
        back = {b"Zq%dx" % i: n for n, i in zip(names, ids)}
        msg = re.sub(r"Zq\d+x", lambda m: quoted(back[m.group(0).encode()]).decode("latin-1"), re.sub(r"\|(Zq\d+x)\|", r"\1", message(res)))
        ref = message(case.res)
        if squash(msg) != squash(ref):
            ok = False
            why = "\n(names put back) " + msg
        c.count("messages compared")
    if not ok:
        c.violation("rename:" + style, "renaming the symbols consistently (%s) changes the answer" % style, out, args=case.args, main=case.main, stdin=stdin,
                    expected=case.res.brief(), observed=res.brief() + why)


def outcome(res):
    # warnings about attributes have positions, and are repeated with the command
    return (res.kind, re.sub(r"(?m)^\S*:\d+\.\d+: Un(?:handled|processed) attribute.*\n\n?", "", res.out))


def squash(s):
    return s.replace("|", "").replace("(QUOTED_SYMBOL)", "(SYMBOL)")


def message(res):
    return c12.message(res)


CMDS = set(c11.COMMANDS + c11.REFCMDS)


# ------------------------------------------------------ irrelevant context
def toplevel(toks):
    """Index ranges of the top-level commands, or None."""
    out, lvl, start = [], 0, None
    for k, t in enumerate(toks):
        if t == b"(":
            if lvl == 0:
                start = k
            lvl += 1
        elif t == b")":
            lvl -= 1
            if lvl < 0:
                return out
            if lvl == 0:
                out.append((start, k + 1))
        elif lvl == 0 and not t.isspace() and t[:1] != b";":
            return out
    return out


def words(toks):
    return [t for t in toks if not t.isspace() and t[:1] != b";"]


def f_unused(c, case, r):
    name = case.main if case.stdin is None else "\0"
    ts = texts(case)
    if any(o in b for b in ts.values() for o in NAMEOPS[1:]) or b"\x00" in ts[name]:
        return
    # some file that is read as a signature or a proof (not a reference)
    cands = [n for n in ts if n == name or (n.endswith(".eo") and not any(b"reference" in b for b in ts.values()))]
    name = r.choice(cands)
    sig = name.endswith(".eo")
    toks = c11.tokens(ts[name])
    top = toplevel(toks)
    if not top:
        return
    everything = b"\n".join(ts.values())
    sig = sig and (b"reference" not in everything or name == case.main)
    if b"Unused" in everything or b"<boolean>" in everything:
        return
    n = [0]

    def fresh():
        n[0] += 1
        return b"Unused%d" % n[0]
    progs = {}
    for i, j in top:
        w = words(toks[i:j])
        if len(w) > 3 and w[1] == b"program":
            progs[w[2]] = progs.get(w[2], 0) + 1
    ins = {}
    lvl = 0        # open assumptions
    used = set()
    marks = []
    for i, j in top:
        w = words(toks[i:j])
        cmd = w[1] if len(w) > 1 else b""
        if cmd == b"exit" or cmd == b"reset":
            used = None if cmd == b"exit" else used
            if used is None:
                break
        if cmd == b"assume-push":
            lvl += 1
        elif cmd == b"step-pop":
            lvl -= 1
        new = []
        if r.random() < (0.35 if len(top) < 60 else 8.0 / len(top)):
            k = r.random()
            u = fresh()
            if k < 0.6 and len(w) > 4 and w[2] not in (b"(", b")") and symbol(w[2]) and cmd in (b"declare-const", b"define", b"step", b"program", b"declare-rule", b"declare-parameterized-const", b"assume") \
                    and not (cmd == b"declare-rule" and lvl) and (progs.get(w[2]) == 1 if cmd == b"program" else w.count(w[2]) == 1):
                # the same again under another name
                seg, first = [], True
                cnt = 0
                for t in toks[i:j]:
                    if t[:1] == b";":
                        seg.append(b" ")
                        continue
                    if not t.isspace():
                        cnt += 1
                    # the name, and the recursive calls of a program
                    if not t.isspace() and (cnt == 3 or (cmd == b"program" and t == w[2])):
                        seg.append(u)
                    elif t.isspace():
                        seg.append(b" ")
                    else:
                        seg.append(t)
                new.append(b"".join(seg))
                if b"\n" in new[-1]:
                    new.pop()
                else:
                    c.count("repeated " + cmd.decode("latin-1"))
            else:
                ty = r.choice([b"Bool", b"(-> Bool Bool)", b"(-> Bool Bool Bool)"])
                opts = [b"(declare-const %s %s)" % (u, ty), b"(define %s ((p Bool)) p)" % u, b"(define %s () true)" % u, b"(push)(declare-const %s Bool)(pop)" % u, b"(push)(pop)",
                        b"(program %s ((p Bool)) :signature (Bool) Bool (((%s p) p)))" % (u, u), b"(assume %s true)" % u if b"reference" not in everything and not any("reference" in a for a in case.args) else b"",
                        b"(declare-const %s (-> Bool Bool Bool) :right-assoc-nil true)" % u, b"(declare-const %s (-> Bool Bool Bool) :chainable %sc)" % (u, u),
                        b"(define %s () (eo::add 1 2))" % u, b"(define %s () (eo::list_concat eo::List::cons eo::List::nil eo::List::nil))" % u]
                if opts[8]:
                    opts[8] = b"(declare-const %sc (-> Bool Bool Bool) :left-assoc-nil true)" % u + opts[8]
                if lvl == 0:
                    opts += [b"(declare-rule %s ((p Bool)) :args (p) :conclusion p :sorry)" % u, b"(declare-rule %s ((p Bool)) :premises (p) :conclusion p)" % u]
                if sig:
                    opts += [b"(declare-const %s Type)" % u, b"(declare-datatype %s ((%sc (%ss %s)) (%sn)))" % (u, u, u, u, u), b"(declare-parameterized-const %s ((p Type :implicit)) (-> p p))" % u,
                             b"(define %s ((p Type) (q p)) q)" % u, b"(declare-sort %s 1)" % u, b"(push)(declare-datatype %s ((%sc)))(pop)" % (u, u)]
                new.append(r.choice(opts))
                c.count("unused declarations")
        if new:
            ins[j] = b" " + b" ".join(new)
    if not ins:
        return
    out = []
    for k, t in enumerate(toks):
        if k in ins:
            out.append(ins[k])
        out.append(t)
    if len(toks) in ins:
        out.append(ins[len(toks)])
    ts[name] = b"".join(out)
    stdin = ts.pop("\0", None)
    res = again(c, case, r.choice(["rel", "rel", "dbg", "pat"] + (["san"] if r.random() < 0.3 else [])), files=ts, stdin=stdin)
    c.count("inputs with irrelevant commands")
    c.seen((case.main, stdin, tuple(sorted(ts.items()))))
    p0, p1 = case.res.pos(), res.pos()
    ok = outcome(res) == outcome(case.res) and (p0 and p0[:2]) == (p1 and p1[:2])
    if ok and case.res.kind == "reject":
        ok = message(res) == message(case.res) or "EOF" in message(res)
    if not ok:
        c.violation("unused", "adding unused declarations changes the answer", ts, args=case.args, main=case.main, stdin=stdin, expected=case.res.brief(), observed=res.brief())


def f_move(c, case, r):
    """Move a stretch of commands to an included file."""
    if case.stdin is not None:
        return
    ts = dict(case.files)
    name = case.main
    if not name.endswith(".eo") or b"\x00" in ts[name]:
        return
    toks = c11.tokens(ts[name])
    top = toplevel(toks)
    if len(top) < 2:
        return
    # levels before each command
    lv, pu = [0], [0]
    for i, j in top:
        w = words(toks[i:j])
        cmd = w[1] if len(w) > 1 else b""
        lv.append(lv[-1] + (cmd == b"assume-push") - (cmd == b"step-pop"))
        pu.append(pu[-1])
    heads = [words(toks[i:j])[1] if j - i > 2 else b"" for i, j in top]
    stop = next((k for k, h in enumerate(heads) if h in (b"exit", b"reset")), len(top))
    if stop < 1:
        return
    a = 0 if r.random() < 0.4 else r.randrange(stop)
    b = r.randint(a + 1, stop)
    if lv[a] != 0 or lv[b] != 0 or min(lv[a:b + 1]) < 0:
        return
    lo, hi = top[a][0], top[b - 1][1]
    moved = toks[lo:hi]
    d = os.path.dirname(name)
    sub = [x for x in moved if x in (b"include", b"reference")]
    fn = r.choice(["moved.eo", "moved.proof", "m-1.smt3", "moved"] if sub else ["moved.eo", "sub-dir/moved.eo", "./moved.eo", "s1/s2/moved.eo"])
    real = os.path.normpath(os.path.join(d, fn))
    if real in ts:
        return
    before = b"".join(toks[:lo])
    text = b"".join(moved)
    cli = a == 0 and r.random() < 0.4 and not any(x.startswith("--reference") for x in case.args)
    nl = before.count(b"\n")
    args = list(case.args)
    if cli:
        ts[name] = b"\n" * before.count(b"\n") + b" " + b"\n" * text.count(b"\n") + b"".join(toks[hi:])
        args = args + ["--include=" + real]
        if any(t[:1] in b"()" for t in toks[:lo]):
            return
    else:
        ts[name] = before + b'(include "%s")' % fn.encode() + b"\n" * text.count(b"\n") + b"".join(toks[hi:])
    # keep the line numbers
    ts[real] = b"\n" * nl + text + r.choice([b"", b"\n", b" ; end"])
    res = again(c, case, r.choice(["rel", "rel", "dbg", "pat"]), files=ts, args=args)
    c.count("moved to a command line include" if cli else "moved to an included file")
    c.seen((case.main, tuple(sorted(ts.items())), cli))
    p0, p1 = case.res.pos(), res.pos()
    ok = outcome(res) == outcome(case.res) and (p0 and p0[1]) == (p1 and p1[1])
    if ok and case.res.kind == "reject":
        ok = message(res) == message(case.res) or "EOF" in message(case.res) or "rame" in message(case.res)
    if not ok:
        c.violation("move" + (":cli" if cli else ""), "moving commands to an included file changes the answer", ts, args=args, main=case.main,
                    expected=case.res.brief(), observed=res.brief())


def repository(c, w, r, k):
    n = w.names[k % len(w.names)]
    files = dict(c11.needed(n, w.rep))
    if r.random() < 0.3:
        m = b"".join(c11.mutate(r, w.toks[n], w.pool, w.donors))
        if m and b"program" not in m and b"\x00" not in m and len(m) < 60000:
            files[n] = m
    res = c.run(files, main=n, variant="rel")
    if res.kind not in ("correct", "incomplete", "reject", "silent0"):
        return []
    return [gather.Case(files, n, [], None, res, "repository")]


def run(c):
    c.need("san", "dbg", "rel", "pat")
    c.rule = "a case counts if the varied input, its options and environment are new; the oracle is the answer to the unvaried input"
    c.assumptions += ["renaming and adding declarations are not judged for inputs that observe names or hashes (eo::nameof, eo::hash, eo::cmp)",
                      "messages may differ in how terms are shared with --no-print-dag; statistics and traces are extra output"]
    w = c11.Work()
    jobs = [(None, k) for k in range(c.n(700, 12000))]
    for f in gather.FAMILIES:
        m = {"anything": 30, "types": 40, "lists": 16, "literals": 16}.get(f.__name__, 70)
        jobs += [(f, k) for k in range(c.n(m, m * 25))]

    def one(j):
        f, k = j
        r = random.Random("%s-%s-%s" % (c.seed, f and f.__name__, k))
        cases = repository(c, w, r, k) if f is None else gather.gather(c, f, "%s-%d" % (c.seed, k), 3)
        for case in cases:
            c.count("inputs " + case.src)
            c.count("answer " + case.res.kind)
            f_runs(c, case, r)
            if any(broken(b) for b in texts(case).values()):
                c.count("inputs that are not made of tokens")
                continue
            for _ in range(2):
                f_rename(c, case, r)
                f_unused(c, case, r)
                f_move(c, case, r)
            if len(c.pending) > 3:
                return
    random.Random(c.seed).shuffle(jobs)
    c.ppmap(one, jobs)
