"""Programs and macros applied to a wrong number of arguments: such an
application is none of the ones with as many arguments as there are
parameters."""

PRE = """(declare-const U Type)
(declare-const a U) (declare-const b U) (declare-const c U) (declare-const d U) (declare-const e U)
(declare-const f1 (-> U U)) (declare-const f2 (-> U U U)) (declare-const f3 (-> U U U U)) (declare-const f4 (-> U U U U U)) (declare-const f5 (-> U U U U U U))
(declare-rule chk ((T Type) (S Type) (x T) (y S)) :args (x y) :requires ((x y)) :conclusion true)
"""


def wrong(r, kind):
    """(text, what): the last line has to be rejected."""
    n = r.randint(1, 4)
    ps = ["x%d" % k for k in range(n)]
    more = r.randint(0, 5 - n)           # arguments that the result still takes
    k = r.choice([j for j in range(1, 6) if j != n])
    res = "U" if not more else "(-> %s U)" % " ".join(["U"] * more)
    use = [r.choice(ps) for _ in ps] if r.random() < 0.4 else ps
    body = "(f%d %s)" % (n + more, " ".join(use))
    params = " ".join("(%s U)" % p for p in ps)
    lines = []
    if kind == "macro":
        lines.append("(define h (%s) %s)" % (params, body))
    else:
        extra = r.choice(["", "((h %s) %s) " % (" ".join(["a"] * n), "(f%d %s)" % (n + more, " ".join(["b"] * n)))])
        lines.append("(program h (%s) :signature (%s) %s (%s((h %s) %s)))" % (params, " ".join(["U"] * n), res, extra, " ".join(ps), body))
    args = [r.choice("abcde") for _ in range(k)]
    app = "(h %s)" % " ".join(args)

    def plain(xs):
        t = "(f%d %s)" % (n + more, " ".join(xs[ps.index(u)] for u in use))
        return t

    how = r.randrange(4)
    if k > n:
        other = [args[:n], args[-n:], args[:n]][how % 3]
        o = plain(other)
        if how == 3 or r.random() < 0.3:
            o = "(h %s)" % " ".join(other)
    else:
        other = args + [r.choice("abcde") for _ in range(n - k)]
        o = plain(other)
    if kind == "program" and how == 0:
        lines.append("(define z () %s :type %s)" % (app, "U" if r.random() < 0.5 else res))
        return PRE + "\n".join(lines) + "\n", "%d arguments of a program of %d" % (k, n)
    pair = (app, o) if r.random() < 0.5 else (o, app)
    lines.append("(step s true :rule chk :args (%s %s))" % pair)
    return PRE + "\n".join(lines) + "\n", "%d arguments of a %s of %d" % (k, kind, n)


def family(c, seed, kind, n):
    import random
    r = random.Random(seed)
    for _ in range(n):
        text, what = wrong(r, kind)
        res = c.run({"t.eo": text}, variant=r.choice(["rel", "rel", "dbg", "san"]))
        c.seen(text)
        c.count("wrong number of arguments")
        p = res.pos()
        if res.kind != "reject" or not p or p[1] != text.count("\n"):
            c.violation("arity:" + kind, what + " must be rejected: " + text.split("\n")[-2], {"t.eo": text}, expected="the last line is rejected", observed=res.brief())
            return
