"""C16: literals denote their standard values under every normalization
setting. Random spellings of literals of every category in every kind of file
under random options and set-option commands; what a spelling denotes is
compared with its canonical spelling in a signature, and decomposed with
operators (which C01 judges); malformed literals must be rejected."""
import random
import re
from fractions import Fraction

TYPES = {"num": "Num", "dec": "Dec", "rat": "Rat", "bin": "Bin", "hex": "Hex", "str": "Str"}
PRE = """(declare-const Num Type)(declare-consts <numeral> Num)(declare-const Dec Type)(declare-consts <decimal> Dec)(declare-const Rat Type)(declare-consts <rational> Rat)
(declare-const BV (-> Num Type))(declare-consts <binary> (BV (eo::len eo::self)))(declare-const Hex Type)(declare-consts <hexadecimal> Hex)(declare-const Str Type)(declare-consts <string> Str)
(declare-parameterized-const g ((T Type :implicit)) (-> T T))
(declare-parameterized-const P ((T Type :implicit)) (-> Num T Bool))
(declare-parameterized-const P2 ((T Type :implicit)) (-> T Bool))
(define BV8 () (BV 8))
(declare-rule chk ((T Type)(U Type)(t T)(u U)) :args (t u) :requires ((t u)) :conclusion true)
"""
OPTS = ("num", "dec", "hex")


def digits(r, zeros=True):
    n = r.choice([1, 1, 1, 2, 3, 5, 9, 10, 18, 19, 20, 21, 40, 100, r.randrange(1, 400)])
    s = "".join(r.choice("0123456789") for _ in range(n))
    m = r.random()
    if m < 0.1:
        s = r.choice(["0", "1", "9" * n, "1" + "0" * n, str(2 ** r.choice([31, 32, 63, 64, 128]) - r.choice([0, 1]))])
    elif m < 0.2 and zeros:
        s = "0" * r.randrange(1, 4) + s
    return s


ESC = re.compile(r"\\u(?:([0-9a-fA-F]{4})|\{([0-9a-fA-F]{1,5})\})")


def codes(body):
    """The characters that the text between the quotes denotes."""
    s = body.replace('""', '"')
    out, i = [], 0
    while i < len(s):
        m = ESC.match(s, i)
        if m and int(m.group(1) or m.group(2), 16) < 0x30000:
            out.append(int(m.group(1) or m.group(2), 16))
            i = m.end()
        else:
            out.append(ord(s[i]))
            i += 1
    return out


def string(r):
    out = []
    for _ in range(r.choice([0, 1, 2, 4, 8])):
        m = r.random()
        h = "%x" % r.choice([0, 9, 0x22, 0x41, 0x5c, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x1ffff, 0x20000, 0x2ffff, 0x30000, 0xfffff, r.randrange(0x30000)])
        if r.random() < 0.4:
            h = h.upper()
        if m < 0.3:
            out.append("".join(r.choice("abcdefu{}019\\ ';()|,") for _ in range(r.choice([1, 2, 5]))))
        elif m < 0.4:
            out.append('""')
        elif m < 0.6:
            out.append("\\u" + h.zfill(4)[:4])
        elif m < 0.8:
            out.append("\\u{" + (h if r.random() < 0.6 else h.zfill(r.choice([2, 4, 5, 6]))) + "}")
        else:
            out.append(r.choice(["\\", "\\\\", "\\u", "\\u{", "\\u{}", "\\u{ }", "\\U0041", "\\x41", "\\u12", "\\u{12", "\\u12}", "\\u{g}", "\\n", "\\u 0041", "\\u{0041", "\\u004", "\\u{00041}", "\\u{000041}", "\\u+041", "\\u{-1}", "\\u{0x1}",
                                 "\t", "\n", "\\u\\u0041", "\\\\u0041", "\\u{\\u{41}}", "\\u0041\\u0042", "\\u00411", "\\u{41}}", "u0041", '\\""u0041', '\\u00""41']))
    return "".join(out)


def literal(r, cat=None):
    """(category, spelling, value)"""
    cat = cat or r.choice(["num", "num", "dec", "dec", "rat", "bin", "hex", "hex", "str"])
    neg = r.choice(["", "", "-"])
    if cat == "num":
        d = neg + digits(r)
        return cat, d, int(d)
    if cat == "dec":
        a, b = digits(r), digits(r)
        if r.random() < 0.3:
            b += "0" * r.randrange(1, 5)
        if r.random() < 0.2:
            b = "0" * r.randrange(1, 5) + b
        v = Fraction(int(a + b), 10 ** len(b))
        return cat, neg + a + "." + b, -v if neg else v
    if cat == "rat":
        a, b = digits(r), digits(r)
        if not int(b):
            b += "7"
        if r.random() < 0.4:
            k = r.choice([2, 3, 10, 2 ** 40, 6])
            a, b = str(int(a) * k), str(int(b) * k)
        v = Fraction(int(a), int(b))
        return cat, neg + a + "/" + b, -v if neg else v
    if cat == "bin":
        n = r.choice([1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 128, 200])
        s = "".join(r.choice("01") for _ in range(n)) if r.random() < 0.8 else r.choice("01") * n
        return cat, "#b" + s, s
    if cat == "hex":
        n = r.choice([1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 50])
        s = "".join(r.choice("0123456789abcdefABCDEF") for _ in range(n)) if r.random() < 0.8 else r.choice("0fF1") * n
        return cat, "#x" + s, s.lower()
    b = string(r)
    return cat, '"%s"' % b, tuple(codes(b))


def canonical(kind, v):
    if kind == "num":
        return str(v)
    if kind == "rat":
        return "%d/%d" % (v.numerator, v.denominator)
    if kind == "dec":
        n, d = abs(v.numerator), v.denominator
        k = 0
        while 10 ** k % d:
            k += 1
        s = str(n * (10 ** k // d)).zfill(k + 1)
        return ("-" if v < 0 else "") + (s[:-k] + "." + s[-k:] if k else s + ".0")
    if kind == "bin":
        return "#b" + v
    if kind == "hex":
        return "#x" + v
    return '"%s"' % "".join("\\u{%x}" % x for x in v)


def normal(cat, v, opt):
    """The kind and value after normalization with these options on."""
    if cat == "num" and opt["num"]:
        return "rat", Fraction(v)
    if cat == "dec" and opt["dec"]:
        return "rat", v
    if cat == "hex" and opt["hex"]:
        return "bin", "".join(format(int(x, 16), "04b") for x in v)
    return cat, v


def other(r, kind, v):
    """A different value of the kind."""
    if kind == "num":
        return r.choice([v + 1, -v if v else 5, v * 10 if v else 1, v + 2 ** 64, v - 2 ** 32])
    if kind == "rat" or kind == "dec":
        return r.choice([v + 1, -v if v else Fraction(5), v * 10 if v else Fraction(1), v / 10 if v else Fraction(1, 2), v + Fraction(1, 10 ** 30)])
    if kind == "bin":
        i = r.randrange(len(v))
        return r.choice(["0" + v, v + "0", v[:i] + ("1" if v[i] == "0" else "0") + v[i + 1:]])
    if kind == "hex":
        i = r.randrange(len(v))
        return r.choice(["0" + v, v + "0", v[:i] + ("1" if v[i] == "0" else "0") + v[i + 1:]])
    return r.choice([v + (0x41,), v[:-1] if v else (0,), tuple(x ^ 1 for x in v) if v else (1,)])


def chunks(n):
    """A numeral as a sum of products of small numerals."""
    s = str(abs(n))
    t = "0"
    for i in range(0, len(s), 6):
        c = s[i:i + 6]
        t = "(eo::add (eo::mul %s %d) %d)" % (t, 10 ** len(c), int(c))
    return "(eo::neg %s)" % t if n < 0 else t


class Case:
    def __init__(self, r):
        self.r = r
        self.pre = [PRE.replace("\n", " ")]
        self.k = 0

    def name(self, text):
        """A name for a term that is read in a signature."""
        self.k += 1
        self.pre.append("(define @v%d () %s)" % (self.k, text))
        return "@v%d" % self.k

    def value(self, kind, v):
        """A term for the value which does not have it as a literal."""
        if kind == "num":
            return self.name(chunks(v))
        if kind == "rat":
            return self.name("(eo::qdiv %s %s)" % (chunks(v.numerator), chunks(v.denominator)))
        if kind == "dec":
            return None
        if kind == "bin":
            return self.name("(eo::to_bin %d %s)" % (len(v), chunks(int(v, 2))))
        if kind == "hex":
            t = "#x" + v[-1]
            for x in reversed(v[:-1]):
                t = "(eo::concat #x%s %s)" % (x, t)
            return self.name(t)
        t = '""'
        for x in v:
            t = "(eo::concat %s (eo::to_str %s))" % (t, chunks(x))
        return self.name(t)

    def lines(self, cat, text, v, opt):
        """Obligations on a spelling, with the options on in a file that they
        apply to."""
        r = self.r
        kind, w = normal(cat, v, opt)
        c = self.name(canonical(kind, w))
        out = []
        lit = text
        m = r.random()
        if m < 0.2:
            self.k += 1
            out.append(("(define @d%d () %s)" % (self.k, text), "definition"))
            lit = "@d%d" % self.k
        eq = lambda a, b, what: out.append(("(step s true :rule chk :args (%s %s))" % (a, b), what))
        if m > 0.85:
            self.k += 1
            T = "(BV %s)" % self.name(str(len(w))) if kind == "bin" else TYPES[kind]
            out.append(("(program @p%d ((x Num)) :signature (Num) %s (((@p%d x) %s)))" % (self.k, T, self.k, text), "program"))
            lit = "(@p%d %s)" % (self.k, self.name("1"))
        eq(lit, c, "%s is its canonical spelling as %s" % (cat, kind))
        eq("(g %s)" % lit, "(g %s)" % c, "inside an application")
        if kind == "bin":
            eq("(eo::typeof %s)" % lit, "(BV %s)" % self.name(str(len(w))), "type")
        else:
            eq("(eo::typeof %s)" % lit, TYPES[kind], "type")
        x = self.value(kind, w)
        if x:
            eq(lit, x, "value of %s" % kind)
        elif kind == "dec":
            eq("(eo::to_q %s)" % lit, self.name(canonical("rat", w)), "value of dec")
        if kind == "bin":
            eq("(eo::to_z %s)" % lit, self.name(str(int(w, 2))), "value of bin")
        for _ in range(2):
            o = other(r, kind, w)
            if o != w:
                eq("(eo::is_eq %s %s)" % (lit, self.name(canonical(kind, o))), "false", "another value")
        # the value it would have with other options
        for cc in ("num", "rat", "dec"):
            if kind in ("num", "rat", "dec") and cc != kind and (cc != "num" or w == int(w)) and (cc != "dec" or 10 ** 450 % Fraction(w).denominator == 0):
                eq("(eo::is_eq %s %s)" % (lit, self.name(canonical(cc, Fraction(w) if cc != "num" else int(w)))), "false", "the value in another category")
        if cat == "hex":
            k2, w2 = normal(cat, v, dict(opt, hex=not opt["hex"]))
            eq("(eo::is_eq %s %s)" % (lit, self.name(canonical(k2, w2))), "false", "the value in another category")
        return out


def settings(r, opt):
    """Command line options, applied to opt."""
    args = []
    for _ in range(r.choice([0, 0, 1, 2, 3, 4])):
        k, on = r.choice(OPTS), r.random() < 0.5
        args.append("--%snormalize-%s" % ("" if on else "no-", k))
        opt[k] = on
    return args


def command(r, opt, apply):
    k, on = r.choice(OPTS), r.random() < 0.5
    if r.random() < 0.1:
        return r.choice(["(set-option :produce-proofs true)", "(set-option :normalize-%s 1)" % k, "(set-option :no-normalize-%s true)" % k, "(set-option :normalize true)", "(set-option :normalize-%s maybe)" % k])
    if apply:
        opt[k] = on
    return "(set-option :normalize-%s %s)" % (k, "true" if on else "false")


OFF = dict(num=False, dec=False, hex=False)


def one(c, i):
    r = random.Random("%s-c16-%d" % (c.seed, i))
    mode = r.choice(["eo", "smt2", "smt2", "smt2", "txt", "stdin", "include", "reference"])
    opt = dict(num=False, dec=True, hex=True)
    args = settings(r, opt)
    case = Case(r)
    files, stdin, main = {}, None, None
    c.count("mode " + mode)
    if mode == "reference":
        ref, out = [], [('(include "pre.eo")', "include")]
        if r.random() < 0.3:
            out.append((command(r, opt, True), "option"))
        out.append(('(reference "ref.smt2")', "reference"))
        bad = []
        for j in range(r.choice([2, 4, 8])):
            cat, text, v = literal(r)
            if r.random() < 0.3:
                ref.append(command(r, opt, False))
            kind, w = normal(cat, v, opt)
            ref.append("(assert (P %s %s))" % ("k%d" % j, text))
            ref.insert(0, "(declare-const k%d Num)" % j)
            out.append(("(assume @a%d (P k%d %s))" % (j, j, case.name(canonical(kind, w))), "assertion with %s" % cat))
            bad.append("(assume @b (P k%d %s))" % (j, case.name(canonical(kind, other(r, kind, w)))))
            alt = dict(opt)
            alt = {k: not x for k, x in opt.items()}
            k2, w2 = normal(cat, v, alt)
            if k2 != kind:
                bad.append("(assume @b (P k%d %s))" % (j, case.name(canonical(k2, w2))))
        files["ref.smt2"] = "\n".join(ref) + "\n"
        main = r.choice(["m.eo", "m.smt2"])
        probe = r.choice(bad)
    else:
        out = []
        apply = mode not in ("eo", "include")
        if mode != "include":
            out.append(('(include "pre.eo")', "include"))
        for _ in range(r.choice([1, 2, 4, 8])):
            if r.random() < 0.4:
                out.append((command(r, opt, True), "option"))
            out += case.lines(*literal(r), opt=opt if apply else OFF)
        main = {"eo": "m.eo", "smt2": "m.smt2", "txt": r.choice(["m", "eo", "m.eo.smt2", "x.EO"]), "include": "m.smt2", "stdin": None}[mode]
        probe = None
    files["pre.eo"] = None
    if mode == "include":
        # the literals are in a file that is included, which is a signature
        # whatever it is called; its options apply to the file that includes it
        sig = r.choice(["s.eo", "s.smt2", "s"])
        inner = out
        lead = [('(include "pre.eo")', "include")] + [(command(r, opt, False), "option") for _ in range(r.choice([0, 1, 2]))]
        out = lead + [('(include "%s")' % sig, "include")] + case.lines(*literal(r), opt=opt)
        files[sig] = "\n".join(t for t, _ in inner) + "\n"
        # options set before the file do not matter for it, but later ones count
        final = dict(num=False, dec=True, hex=True)
        for a in args:
            m = re.match(r"--(no-)?normalize-(\w+)", a)
            final[m.group(2)] = not m.group(1)
        for t, w in lead + inner:
            m = re.match(r"\(set-option :normalize-(num|dec|hex) (true|false)\)", t)
            if m:
                final[m.group(1)] = m.group(2) == "true"
        out = lead + [('(include "%s")' % sig, "include")] + case.lines(*literal(r), opt=final)
    files["pre.eo"] = "\n".join(case.pre) + "\n"
    lines = [t for t, _ in out]
    # the position of the line that starts each obligation
    start, n = {}, 1
    for t, w in out:
        start[n] = (t, w)
        n += t.count("\n") + 1

    def go(lines, variant):
        text = "\n".join(lines) + "\n"
        if main is None:
            return c.run(files, main=None, args=args, stdin=text, variant=variant)
        files[main] = text
        return c.run(files, main=main, args=args, variant=variant)
    res = go(lines, r.choice(["rel", "dbg", "san"]) if i % 10 == 0 else "rel")
    for _, w in out:
        c.count(w)
    c.seen((mode, tuple(args), tuple(lines), files.get("ref.smt2"), files["pre.eo"]))
    c.sample("%s %s\n%s" % (mode, args, "\n".join(lines)[:900]))
    if res.kind != "correct":
        p = res.pos()
        t, w = "", res.kind
        if p:
            if p[0] == (main or "stream"):
                for k in sorted(start):
                    if k <= p[1]:
                        t, w = start[k]
            else:
                w = "in " + p[0]
        c.violation("literal:" + w, "a literal does not denote the value it spells (%s)" % w, files, args=args, main=main, stdin=None if main else "\n".join(lines) + "\n",
                    expected="correct; " + t[:300], observed=res.brief() + "\n" + res.err[-300:])
        return
    if probe:
        res = go(lines + [probe], "rel")
        c.count("an assumption with another literal must be rejected")
        c.seen((mode, tuple(args), tuple(lines), probe))
        if res.kind != "reject":
            c.violation("reference", "an assumption with another literal than the reference file was accepted", files, args=args, main=main, expected="rejected: " + probe, observed=res.brief())


BAD = ["#b", "#x", "#", "#B1", "#X1", "#b2", "#xg", "#d5", "#b012", "#xabg", "#b1#b1x", "1.", "1/", "1/0", "-1/0", "0/00", "1/-2", "1.a", "1.-5", "1..2", "1//2", "--1", "-.5", "-1.", "-1/", "-1.5.2", "-1/2/3", "+1", "1.5.2", "1.5/2", "1/2/3", "1/2.5",
       "-a", "-1a", "-#b1", "-\"a\"", "0x10", "0b1", "#o7", "#b-1", "#x-a", "1.5e3", "1e3", "1_000", ".5", "/2", "#b 1", "#x ", "12/000", "-0/0", "1/ 2", "1. 5", "- 1"]
UNTERMINATED = ['"abc', '"', '"a""', '"a"""b', "\"\\u{41}"]


def malformed(c, i):
    r = random.Random("%s-c16m-%d" % (c.seed, i))
    if r.random() < 0.85:
        t = r.choice(BAD)
        if "0/0" not in t and r.random() < 0.3:
            # the same with other digits
            t = re.sub(r"\d", lambda m: r.choice("123456789") if m.group() in "3456789" else m.group(), t)
        use = r.choice(["(define u () (P2 %s) :type Bool)", "(assume a (P2 %s))", "(define u ((z Num)) (P2 %s) :type Bool)"]) % t
        what = "malformed literal"
    else:
        t = r.choice(UNTERMINATED)
        use = "(define u () (P2 %s) :type Bool)" % t
        what = "unterminated string"
    mode = r.choice(["m.eo", "m.smt2", None])
    args = settings(r, {})
    files = {"pre.eo": PRE}
    text = '(include "pre.eo")\n(echo "read")\n' + use + "\n"
    if mode:
        files[mode] = text
    res = c.run(files, main=mode, args=args, stdin=None if mode else text, variant="rel" if i % 8 else "san")
    c.count("must be rejected: " + what)
    c.seen((mode, tuple(args), use))
    p = res.pos()
    if res.kind != "reject" or not res.out.startswith("read\n") or not p or p[0] != (mode or "stream") or p[1] < 3:
        c.violation("malformed:" + t, "a malformed literal is not rejected", files, args=args, main=mode, stdin=None if mode else text, expected="rejected: " + use, observed=res.brief())


def run(c):
    c.need("rel", "dbg", "san")
    c.rule = "a case counts if its spellings and settings are new; the oracle is the SMT-LIB reading of literals in Python"
    c.assumptions += ["control characters other than tab and newline in strings, and bytes above 127, are not judged", "the operators used to decompose values are judged by C01"]
    c.ppmap(lambda i: one(c, i), range(c.n(7000, 120000)))
    c.ppmap(lambda i: malformed(c, i), range(c.n(2000, 20000)))
