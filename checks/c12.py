"""C12: layout, comments, quoting and input channel. The same tokens in another
layout must give the same answer, the same message and an error position at the
same token; the same bytes over another channel must give the same everything;
tokens must be read exactly whatever their length and offset."""
import os
import random
import re
import shutil
import signal
import subprocess
import tempfile
import time
import batch
import harness
from checks import c06, c11

RESERVED = {b"as", b"_", b"!", b"par", b"let", b"Bool", b"Type", b"->", b"match", b"lambda"} | {x.encode() for x in c11.COMMANDS + c11.REFCMDS}
SIMPLE = re.compile(rb"[A-Za-z+\-/*=%?!.$_~&^<>@][A-Za-z0-9+\-/*=%?!.$_~&^<>@:]*\Z")
NUMBER = re.compile(rb"-?\d+([./]\d+)?\Z")
NAMING = {x.encode() for x in ("assume assume-push declare-const declare-datatype declare-parameterized-const declare-rule define program step step-pop "
                               "declare-fun define-const define-fun define-sort declare-sort").split()}


def split(b):
    """Tokens and whether something must separate each from the next."""
    raw = c11.tokens(b)
    toks, glue = [], []
    for t in raw:
        if t.isspace() or t.startswith(b";"):
            if glue:
                glue[-1] = False
            continue
        toks.append(t)
        glue.append(True)       # adjacent to the next one, so far
    return toks, glue


def comment(r):
    k = r.random()
    if k < 0.3:
        return b"; plain text\n"
    if k < 0.6:
        return b";" + r.choice([b'"', b"|", b"(", b")", b'")', b"((((", b"))))", b'\\"', b";;", b"(exit)", b"(reset)", b"#", b"'", b'"" "']) + b"\n"
    n = r.choice([0, 1, 2, 5, 30])
    return b";" + bytes(x for x in (r.randrange(256) for _ in range(n)) if x != 10) + b"\n"


def sep(r, need, style):
    """A separator; at least one whitespace character if needed."""
    if style == "compact":
        return b" " if need else b""
    if style == "lines":
        return b"\n"
    if style == "crlf":
        return r.choice([b"\r\n", b" ", b"\t", b"\r\n\r\n"])
    if style == "cr":
        return r.choice([b"\r", b" ", b"\r\r"])
    out = b""
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        out += r.choice([b" ", b"  ", b"\n", b"\t", b"\r\n", b"\r", b"\n\n", comment(r), b" " * 40, comment(r)])
    if style == "big" and r.random() < 0.02:
        n = r.choice([32766, 32767, 32768, 32769, 40000, 65536, 100000])
        out += r.choice([b" " * n, b"\n" * n, b";" + b"x" * n + b"\n", (b"; (\n" * (n // 4)), b"\t" * n])
    if need and not out:
        return b" "
    if out.startswith(b";"):
        return out
    return out


def layout(r, toks, glue, style, quote=()):
    """(bytes, position of each token)."""
    out = []
    line, col = 1, 0
    pos = []

    def put(b):
        nonlocal line, col
        n = b.count(b"\n")
        if n:
            line += n
            col = len(b) - b.rfind(b"\n") - 1
        else:
            col += len(b)
        out.append(b)
    lvl = 0
    if style not in ("compact", "lines"):
        put(sep(r, False, style))
    for k, t in enumerate(toks):
        head = lvl == 1 and k and toks[k - 1] == b"("
        if t in quote and not head and r.random() < 0.7:
            t = b"|" + t + b"|"
        pos.append((line, col + 1))
        put(t)
        lvl += (t == b"(") - (t == b")")
        if k + 1 < len(toks):
            n = toks[k + 1]
            paren = t in (b"(", b")") or n in (b"(", b")")
            if glue[k] and not paren:
                continue        # whatever the two make up together stays
            put(sep(r, not paren, style))
    if style == "compact":
        pass
    elif style == "random":
        put(r.choice([b"", b"\n", b" ", b"; end", b"; end\n", b";", b"\n;\n\n", b"\r"]))
    else:
        put(b"\n")
    return b"".join(out), pos


def positions(b):
    """Token positions in the original text."""
    raw = c11.tokens(b)
    line, col, pos = 1, 0, []
    for t in raw:
        if not (t.isspace() or t.startswith(b";")):
            pos.append((line, col + 1))
        n = t.count(b"\n")
        if n:
            line += n
            col = len(t) - t.rfind(b"\n") - 1
        else:
            col += len(t)
    return pos


def message(res):
    """Error message without the position of the error."""
    return re.sub(r"Fatal failure within.*\n|(file: )\S*/", r"\1", re.sub(r"^\S*?:\d+\.\d+: ", "", res.error()))


def outcome(res):
    # warnings about attributes have a position
    return (res.kind, re.sub(r"(?m)^\S*:\d+\.\d+: (?=Un(handled|processed) attribute)", "", res.out))


def names(toks):
    """Symbols the input declares."""
    out = set()
    lvl = 0
    for k, t in enumerate(toks):
        lvl += (t == b"(") - (t == b")")
        if lvl == 1 and k >= 2 and toks[k - 1] in NAMING and toks[k - 2] == b"(" and SIMPLE.match(t) and not NUMBER.match(t) \
                and t not in RESERVED and not t.startswith(b"eo::"):
            out.add(t)
    return out


def f_layout(c, w, r, k):
    n = w.names[k % len(w.names)]
    files = dict(c11.needed(n, w.rep))
    if r.random() < 0.4:
        files[n] = b"".join(c11.mutate(r, w.toks[n], w.pool, w.donors))
        if b"\x00" in files[n] or len(files[n]) > 60000 or files[n] == b"":
            return
    if any(b"program" in b for b in files.values()) and files[n] != w.rep[n]:
        # a mutated program may not terminate; its layout is judged elsewhere
        files[n] = w.rep[n]
    main = n
    variant = "rel" if r.random() < 0.8 else "dbg"
    base = c.run(files, main=main, variant=variant)
    if base.kind not in ("correct", "incomplete", "reject", "silent0"):
        return      # judged by C11
    c.count("base " + base.kind)
    parsed = {m: split(b) for m, b in files.items()}
    # whether the lexer of the check agrees with the text (e.g. unterminated
    # strings are left alone)
    for style in r.sample(["random", "compact", "lines", "crlf", "cr", "big", "quoted", "random", "quoted"], 3):
        q = set()
        if style == "quoted":
            for toks, _ in parsed.values():
                q |= names(toks)
            if not q:
                continue
        new, newpos = {}, {}
        for m, (toks, glue) in parsed.items():
            bad = any(t[:1] in b'"|' and (len(t) < 2 or t[-1:] != t[:1]) for t in toks) or any(t[:1] in b'"' and t.count(b'"') % 2 for t in toks)
            if bad:
                new[m], newpos[m] = files[m], positions(files[m])
                continue
            new[m], newpos[m] = layout(r, toks, glue, "random" if style == "quoted" else style, q)
        res = c.run(new, main=main, variant=variant)
        c.count("layout " + style)
        c.seen((n, style, new[main]))
        ok = outcome(res) == outcome(base)
        if ok and style != "quoted" and base.kind == "reject":
            ok = message(res) == message(base)
        if not ok:
            c.violation("layout:%s" % style, "the same tokens of %s in another layout (%s) are answered differently" % (n, style), new, main=main,
                        expected=base.brief(), observed=res.brief())
            return
        p0, p1 = base.pos(), res.pos()
        if base.kind == "reject" and p0 and "EOF" not in base.error():
            m = os.path.normpath(p0[0])
            if m not in files:
                continue
            old = positions(files[m])
            if p0[1:] not in old:
                c.count("error position not at a token")
                continue
            i = old.index(p0[1:])
            if not p1 or os.path.normpath(p1[0]) != m or p1[1:] != newpos[m][i]:
                c.violation("position:%s" % style, "the error is at another token of %s in another layout" % m, new, main=main,
                            expected="%s:%d.%d (the token at %d.%d in the original layout)" % ((m,) + newpos[m][i] + p0[1:]), observed=res.brief())
                return
            c.count("error positions compared")


# ------------------------------------------------------------- channels
def feed(c, variant, args, cwd, data, r, how):
    """Run with data written to a pipe in chunks."""
    env = dict(os.environ, LC_ALL="C", **harness.SAN_ENV)
    with tempfile.TemporaryFile(dir=c.tmp) as fo, tempfile.TemporaryFile(dir=c.tmp) as fe:
        p = subprocess.Popen(c.command(variant) + args, cwd=cwd, stdin=subprocess.PIPE, stdout=fo, stderr=fe, env=env)
        k = 0
        n = 0
        try:
            while k < len(data):
                if how == "bytes":
                    m = 1
                elif how == "small":
                    m = r.choice([1, 2, 3, 7, 20])
                else:
                    m = r.choice([1, 100, 1000, 4096, 32767, 32768, 65536])
                os.write(p.stdin.fileno(), data[k:k + m])
                k += m
                n += 1
                if n < 60 and r.random() < 0.3:
                    time.sleep(0.0005)
        except BrokenPipeError:
            pass
        try:
            p.stdin.close()
        except OSError:
            pass
        try:
            p.wait(timeout=60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            return harness.Result(None, "", "timeout", variant, args)
        fo.seek(0)
        fe.seek(0)
        return harness.Result(p.returncode, fo.read().decode("latin-1"), fe.read().decode("latin-1"), variant, list(args))


def stdin_file(c, variant, args, cwd, data):
    path = os.path.join(cwd, "STDIN.txt")
    with open(path, "wb") as f:
        f.write(data)
    env = dict(os.environ, LC_ALL="C", **harness.SAN_ENV)
    with open(path, "rb") as f:
        p = subprocess.run(c.command(variant) + args, cwd=cwd, stdin=f, capture_output=True, env=env, timeout=60)
    return harness.Result(p.returncode, p.stdout.decode("latin-1"), p.stderr.decode("latin-1"), variant, list(args))


def f_channel(c, w, r, k):
    files, cnt = {}, [0]
    cmds = [x for x in c06.commands(r, r.choice([3, 8, 20]), cnt, files, 2, "m")]
    lines = [x[0] for x in cmds]
    if r.random() < 0.5:
        lines.insert(r.randint(0, len(lines)), r.choice(c06.ERRORS)[0])
    # what is proven
    if r.random() < 0.6:
        lines.append("(step wrong false :rule ax :args (%s))" % r.choice(["a", "(or a b)", "(P (f x))", "(not (imp a b))"]))
    text = "\n".join(lines).encode("latin-1") + r.choice([b"", b"\n", b"\n; end", b" "])
    if r.random() < 0.5:
        toks, glue = split(text)
        if not any(t[:1] in b'"|' and (len(t) < 2 or t[-1:] != t[:1]) for t in toks):
            text, _ = layout(r, toks, glue, r.choice(["random", "lines", "crlf"]))
    if r.random() < 0.25:
        n = r.choice([32750, 32768, 40000, 70000]) + r.randint(-40, 40)
        text = r.choice([b" " * n, b";" + b"z" * n + b"\n", b"\n" * n]) + text
    d = c.workdir()
    try:
        for name, t in (("pre.eo", c06.PRE.encode()), ("t.proof", text)):
            with open(os.path.join(d, name), "wb") as f:
                f.write(t)
        variant = r.choice(["rel", "rel", "dbg", "san"])
        args = ["--include=pre.eo"]
        base = c.exec(variant, args + ["t.proof"], d)
        if base.kind not in ("correct", "incomplete", "reject", "silent0"):
            return
        runs = []
        for how in r.sample(["all", "bytes", "small", "blocks", "file", "include", "cwd"], 3):
            if how == "bytes" and len(text) > 4000:
                how = "blocks"
            if how == "all":
                res = c.exec(variant, args, d, stdin=text)
            elif how == "file":
                res = stdin_file(c, variant, args, d, text)
            elif how == "include":
                # included in place, from another directory
                with open(os.path.join(d, "m.proof"), "wb") as f:
                    f.write(b'(include "t.proof")\n')
                if "exit" in text.decode("latin-1"):
                    continue
                res = c.exec(variant, args + ["m.proof"], d)
            elif how == "cwd":
                res = c.exec(variant, ["--include=" + os.path.join(d, "pre.eo"), os.path.join(d, "t.proof")], c.tmp)
            else:
                res = feed(c, variant, args, d, text, r, how)
            c.count("channel " + how)
            c.seen((text, how))
            p0, p1 = base.pos(), res.pos()
            same = outcome(res) == outcome(base) and message(res) == message(base) and (p0 and p0[1:]) == (p1 and p1[1:])
            if how == "include" and base.kind == "reject" and "6/5" in base.error():
                # an included file is a signature file, whose decimals stay decimals
                same = res.kind == "reject" and p0[1:] == p1[1:]
            if how == "include" and base.kind == "reject" and "assumption scope" in base.error():
                same = res.kind == "reject"
            if how == "include" and base.kind in ("correct", "incomplete"):
                same = res.kind == base.kind and res.out == base.out
            if p0 and how in ("all", "bytes", "small", "blocks", "file") and "assumption scope" in base.error():
                same = res.kind == "reject"
            if base.kind == "reject" and "assumption scope" in base.error():
                same = res.kind == "reject"
            if not same:
                c.violation("channel:" + how, "the same input is answered differently over another channel (%s)" % how,
                            {"t.proof": text, "pre.eo": c06.PRE}, args=args, main="t.proof", expected=base.brief(), observed=res.brief())
                return
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------- exact reading
ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
SYMCH = ALPHA + "+-/*=%?!.$_~&^<>@"


def pad(r, target, cur):
    """Filler so that the next token starts at `target`."""
    n = target - cur
    if n <= 0:
        return ""
    if n == 1:
        return " "
    k = r.random()
    if k < 0.3:
        return " " * n
    if k < 0.6:
        return "\n" * n
    if k < 0.8:
        return ";" + "c" * (n - 2) + "\n"
    out = ""
    while len(out) < n:
        m = min(n - len(out), r.choice([1, 2, 3, 50, 79]))
        out += " " if m == 1 else ";" + "".join(r.choice('()"|;x \t') for _ in range(m - 2)) + "\n"
    return out


def pieces(r, s):
    k, out = 0, []
    while k < len(s):
        m = r.choice([1, 7, 50, 400])
        out.append(s[k:k + m])
        k += m
    return out


def concat(ps, q):
    """Nested eo::concat of quoted pieces, of bounded nesting."""
    t = [q(p) for p in ps]
    while len(t) > 1:
        t = ["(eo::concat %s)" % " ".join(t[i:i + 8]) if len(t[i:i + 8]) > 1 else t[i] for i in range(0, len(t), 8)]
    return t[0]


B = 32768


def f_exact(c, w, r, k):
    """Tokens of any length at any offset, compared with a value put together
    from pieces."""
    pre = batch.CHK
    text = pre
    n = 0
    goal = r.choice([0, B, 2 * B, 3 * B])
    offs = []
    for _ in range(r.choice([1, 2, 4])):
        n += 1
        ln = r.choice([1, 2, 3, 17, 200, 1023, 1024, 1025, 5000, 32766, 32767, 32768, 32769, 33000, 70000])
        kind = r.choice(["str", "str", "sym", "qsym", "num", "bin", "hex", "kw", "cmd"])
        if r.random() < 0.8:
            # let the token cross or touch a multiple of the block size
            cur = len(text.encode())
            b = (cur // 4096 + r.choice([1, 1, 2])) * 4096 if r.random() < 0.3 else (cur // B + 1) * B
            want = b - r.randint(0, min(ln + 3, 300)) - r.choice([0, 0, 40])
        else:
            want = None
        if kind == "str":
            s = "".join(r.choice(ALPHA + " ();|#") for _ in range(ln))
            lead = "(step s%d :rule chk :args ((eo::eq %s" % (n, " ")
            tok = '"%s"' % s
            rest = " %s) %s))" % (concat(pieces(r, s), lambda p: '"%s"' % p), "true")
            flip = r.randrange(ln)
            tail = "\n(step t%d :rule chk :args ((eo::len %s) %d))" % (n, tok, ln)
            tail += '\n(step u%d :rule chk :args ((eo::eq %s "%s") false))' % (n, tok, s[:flip] + chr(ord("a") + (ord(s[flip]) + 1) % 26) + s[flip + 1:])
        elif kind in ("sym", "qsym"):
            s = "y" + "".join(r.choice(SYMCH if kind == "sym" else ALPHA + " ();\"#\n,'") for _ in range(ln))
            q = s if kind == "sym" else "|" + s + "|"
            s2 = s.replace('"', '""')
            twin = s[:-1] + ("z" if s[-1] != "z" else "q")
            twin2 = s + "x"
            lead = "(declare-const %s Bool)\n(declare-const %s Bool)\n(declare-const |%s| Bool)\n(step s%d :rule chk :args ((eo::nameof " % (q, "|" + twin + "|", twin2, n)
            tok = q
            rest = ") %s))" % concat([p for p in pieces(r, s)], lambda p: '"%s"' % p.replace('"', '""')) if True else ""
            tail = "\n(step t%d :rule chk :args ((eo::is_eq %s |%s|) false))\n(step u%d :rule chk :args ((eo::is_eq %s |%s|) true))\n(step v%d :rule chk :args ((eo::is_eq %s |%s|) false))" % (n, q, twin, n, q, s, n, q, twin2)
            if "\n" in s:
                rest = ") (eo::nameof |%s|)))" % s
        elif kind == "num":
            ln = min(ln, 4000)
            v = r.choice("123456789") + "".join(r.choice("0123456789") for _ in range(ln - 1))
            h = len(v) // 2
            lead = "(step s%d :rule chk :args ((eo::add " % n
            tok = r.choice(["", "-"]) + v
            other = str(-int(tok)) if len(v) < 3 else None
            rest = " 0) (eo::mul %s1 (eo::add (eo::mul %s 1%s) %s))))" % ("-" if tok[0] == "-" else "", v[:h] or "0", "0" * (len(v) - h), v[h:].lstrip("0") or "0")
            tail = ""
        elif kind in ("bin", "hex"):
            ln = min(ln, 4000)
            pr = "#b" if kind == "bin" else "#x"
            s = "".join(r.choice("01" if kind == "bin" else "0123456789abcdef") for _ in range(ln))
            lead = "(step s%d :rule chk :args ((eo::concat " % n
            tok = pr + s
            rest = " (eo::to_bin 0 0)) %s))" % concat(pieces(r, s), lambda p: pr + p) if kind == "bin" else ") %s))" % concat(pieces(r, s), lambda p: pr + p)
            if kind == "bin":
                tail = "\n(step t%d :rule chk :args ((eo::len %s) %d))" % (n, tok, ln)
            else:
                lead = "(step s%d :rule chk :args (" % n
                rest = " %s))" % concat(pieces(r, s), lambda p: pr + p)
                tail = ""
        elif kind == "kw":
            lead = "(declare-const k%d Bool " % n
            tok = ":" + "".join(r.choice(ALPHA) for _ in range(ln)).lstrip("0123456789") + "x"
            rest = ")"
            tail = "\n(step s%d :rule chk :args (k%d k%d))" % (n, n, n)
        else:
            lead = ""
            tok = r.choice(["(", "(step", "(step ", "(step q%d" % n, "(step q%d :rule" % n, "(step q%d :rule chk" % n, "(step q%d :rule chk :args" % n])
            full = "(step q%d :rule chk :args ((eo::add 12 34) 46))" % n
            rest, tail = full[len(tok):], ""
        if want is not None:
            text += pad(r, want - len(lead), len(text))
        offs.append((kind, len(text) + len(lead), len(tok)))
        text += lead + tok + rest + tail + "\n"
    # the last obligation must not hold, to see that all were read
    if r.random() < 0.5:
        bad = r.choice(["(step z false :rule chk :args (1 1))", "(step z :rule chk :args (1 2))", "(step z :rule nope)", "(declare-const q Nope)"])
        cur = len(text)
        if r.random() < 0.7:
            text += pad(r, (cur // B + 1) * B - r.randint(0, len(bad) + 2), cur)
        line = text.count("\n") + 1
        text += bad + r.choice(["", "\n"])
    else:
        bad = None
    if r.random() < 0.3:
        res = c.run({"t.eo": "", "pre.eo": pre}, variant=r.choice(["rel", "dbg"]), args=["--include=pre.eo"], stdin=text[len(pre):])
        line = line - pre.count("\n") if bad else None
    else:
        res = c.run({"t.eo": text}, variant=r.choice(["rel", "rel", "dbg", "san"]))
    for kind, off, ln in offs:
        c.count("token " + kind)
        if off // B != (off + ln) // B:
            c.count("tokens crossing a block boundary")
    c.seen(text)
    if bad is None:
        good = res.kind == "correct"
    else:
        p = res.pos()
        good = res.kind == "reject" and p and p[1] == line
    if not good:
        c.violation("exact:" + "+".join(sorted({o[0] for o in offs})), "long tokens are not read exactly (kind, offset, length: %s)" % offs, {"t.eo": text},
                    expected="correct" if bad is None else "rejected at line %d" % line, observed=res.brief())


# ----------------------------------------------------- absolute positions
# (text before the offending token, the token, text after it)
FAULTS = [("(assume q ", "nope", ")"), ("(assume q (P ", "nope", "))"), ("(assume q (", "nope", " a))"), ("(", "frob", " a)"), ("", ")", ""), ("(declare-const ", "5", " Bool)"),
          ("(declare-const ", '"s"', " Bool)"), ("(declare-const q Bool ", "extra", ")"), ("(declare-const q ", "Foo", ")"), ("(define q () (or a ", "|no such|", "))"),
          ("(step q a :rule ", "norule", ")"), ("(step q a :rule id :premises (", "nope", "))"), ("(echo ", "a", ")"), ("(assume ", "(", "or a b) a)"), ("(include ", "foo", ")"),
          ("(assume q ", ":k", ")"), ("(push ", "foo", ")"), ("(step q (or a ", "zz", ") :rule id :premises (hA))"), ("(define q ((v ", "Nope", ")) v)"), ("(program q ((v U)) :signature (U) ", "Nope", " (((q v) v)))"),
          ("(declare-rule q ((F ", "Nope", ")) :premises (F) :conclusion F)"), ("(assume q (eo::define ((v a)) (or v ", "w", ")))"), ("(assume q (or a ", '"bad\x80char"', "))"), ("", "stray", ""), ("", "12", ""), ("", '"x"', ""),
          ("(declare-datatype D ((c (s ", "Nope", "))))"), ("(assume q (as ", "nope", " U))"), ("(define q () (eo::", "", "nope a))")]


def f_position(c, w, r, k):
    a, t, z = FAULTS[k % len(FAULTS)]
    if not t:
        a, t, z = "(define q () (", "eo::nope", " a))"
    good = [x[0] for x in c06.commands(r, r.choice([0, 2, 6]), [0], {}, 2, "m")]
    toks, glue = split("\n".join(good).encode("latin-1"))
    style = r.choice(["random", "compact", "lines", "crlf", "big", "cr"])
    text, _ = layout(r, toks, glue, style)
    if r.random() < 0.15:
        text += b"\n" * r.choice([255, 256, 65535, 65536, 70000])
    text += b"\n" if r.random() < 0.7 or b";" in text.rsplit(b"\n", 1)[-1] else b" "
    at, ag = split(a.encode("latin-1"))
    mid, _ = layout(r, at, ag, r.choice(["random", "random", "compact"])) if at else (b"", None)
    text += mid
    if b";" in text.rsplit(b"\n", 1)[-1] and re.search(rb";[^\n]*\Z", mid):
        text += b"\n"
    text += r.choice([b" ", b"\n", b"\t ", b"\r\n", b" " * 300, b"; c (\n"])
    line = text.count(b"\n") + 1
    col = len(text) - text.rfind(b"\n")
    text += t.encode("latin-1") + z.encode("latin-1") + r.choice([b"\n", b"", b"\n(assume later (or a nope2))\n", b" ; c"])
    files = {"pre.eo": c06.PRE, "t.proof": text}
    how = r.choice(["file", "stdin", "include"])
    variant = r.choice(["rel", "rel", "dbg"])
    args = ["--include=pre.eo"]
    if how == "stdin":
        res = c.run(files, args=args, stdin=text, variant=variant)
    elif how == "file":
        res = c.run(files, main="t.proof", args=args, variant=variant)
    else:
        files["m.eo"] = '(include "pre.eo")\n\n(include "t.proof")\n'
        res = c.run(files, main="m.eo", variant=variant)
        args = []
    c.count("position " + how)
    c.seen(text)
    p = res.pos()
    name = "stream" if how == "stdin" else "t.proof"
    if res.kind != "reject" or not p or p[1:] != (line, col) or (how != "stdin" and os.path.basename(p[0]) != name):
        c.violation("offending:" + a + t, "the error message must give the position of the offending token %s" % t, files, args=args, main="m.eo" if how == "include" else "t.proof",
                    stdin=text if how == "stdin" else None, expected="%s:%d.%d" % (name, line, col), observed=res.brief())


def run(c):
    c.need("san", "dbg", "rel")
    c.rule = "a case counts if its text and the way it is presented are new; the oracle is the answer to the same tokens (bytes) in the original layout (over the original channel), or a known value or position"
    c.assumptions += ["columns count bytes", "positions of errors at the end of the input are not judged"]
    w = c11.Work()
    jobs = [(f_layout, k) for k in range(c.n(1400, 40000))] + [(f_channel, k) for k in range(c.n(500, 12000))] + \
           [(f_exact, k) for k in range(c.n(700, 20000))] + [(f_position, k) for k in range(c.n(900, 20000))]

    def one(j):
        f, k = j
        f(c, w, random.Random("%s-%s-%d" % (c.seed, f.__name__, k)), k)
    random.Random(c.seed).shuffle(jobs)
    c.ppmap(one, jobs)
