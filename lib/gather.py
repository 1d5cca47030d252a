"""Inputs of the other checks, as material for the metamorphic ones."""
import random


class Case:
    __slots__ = ("files", "main", "args", "stdin", "res", "src")

    def __init__(self, files, main, args, stdin, res, src):
        self.files = {n: (b if isinstance(b, bytes) else b.encode("utf-8")) for n, b in files.items()}
        self.main, self.args, self.stdin, self.res, self.src = main, list(args), stdin, res, src
        if isinstance(stdin, str):
            self.stdin = stdin.encode("utf-8")


class Tap:
    """Stands in for a Check: runs everything with the release build, records
    the inputs and judges nothing."""

    def __init__(self, c, seed, src):
        self.c, self.src = c, src
        self.rng = random.Random(seed)
        self.seed, self.prop, self.tier, self.quick = seed, c.prop, c.tier, True
        self.tmp, self.exes = c.tmp, c.exes
        self.cases, self.pending, self.inconclusive, self.known = [], [], 0, []

    def run(self, files, main=None, args=(), variant="dbg", stdin=None, timeout=40, keep=False):
        res = self.c.run(files, main=main, args=args, variant="rel", stdin=stdin, timeout=timeout)
        if stdin is None and main is None:
            main = next(iter(files))
        self.cases.append(Case(files, main, args, stdin, res, self.src))
        return res

    def exec(self, variant, args, cwd, stdin=None, timeout=40, env=None):
        return self.c.exec("rel", args, cwd, stdin=stdin, timeout=timeout, env=env)

    def workdir(self):
        return self.c.workdir()

    def n(self, quick, thorough):
        return quick

    def violation(self, *a, **kw):
        pass

    def need(self, *a):
        pass

    def count(self, *a, **kw):
        pass

    seen = sample = count

    def pmap(self, fn, items, workers=None):
        return [fn(x) for x in items]

    ppmap = pmap


def literals(t, r):
    import batch
    from checks import c01
    _, items = 0, c01.mk_items(t, r, 25)
    batch.run_batch(t, c01.PRE + c01.rules_prelude(), items)


def lists(t, r):
    import batch
    from checks import c02
    batch.run_batch(t, c02.PRE + c02.templates(), c02.mk_items(t, r, 25))


def steps(t, r):
    from checks import c03
    c03.batch_run(t, r.random(), 6, 1, 3)


def scopes(t, r):
    from checks import c04
    c04.work(t, r.random(), 2)


def references(t, r):
    from checks import c05
    c05.work(t, r.random(), 2)


def responses(t, r):
    from checks import c06
    files, cnt = {}, [0]
    cmds = c06.commands(r, r.choice([4, 12, 30]), cnt, files, 0, "t.eo")
    lines = [x[0] for x in cmds]
    if r.random() < 0.4:
        lines.insert(r.randint(0, len(lines)), r.choice(c06.ERRORS)[0])
    out = {"t.eo": (c06.PRE + "\n".join(lines) + "\n").encode("latin-1")}
    for n, sub in files.items():
        out[n] = ("\n".join(x[0] for x in sub) + "\n").encode("latin-1")
    t.run(out, main="t.eo")


def syntax(t, r):
    from checks import c07
    c07.work(t, r.random(), 1, 25)


def programs(t, r):
    from checks import c08
    c08.one(t, r.random())


def types(t, r):
    from checks import c09
    c09.one(t, r.random())


def identity(t, r):
    from checks import c10
    c10.one(t, r.random())


def anything(t, r):
    """Commands of the language, many of them erroneous."""
    from checks import c11
    files = {"e.eo": "(declare-const ex U)\n"}
    lines = []
    k = r.randrange(1000)
    for j in range(r.choice([10, 40])):
        l = c11.command(r, k + j)
        if "program" in l or "fw" in l or "eo::hash" in l or "eo::cmp" in l:
            continue
        files["t.eo"] = c11.PRE + "\n".join(lines + [l]) + "\n"
        res = t.c.run(files, main="t.eo", variant="rel")
        if res.kind in ("correct", "incomplete") or r.random() < 0.02:
            lines.append(l)
    files["t.eo"] = c11.PRE + "\n".join(lines) + "\n"
    t.run(files, main="t.eo")


FAMILIES = [literals, lists, steps, scopes, references, responses, syntax, programs, types, identity, anything]


def gather(c, family, seed, limit):
    """Up to `limit` inputs of one family; only those with a proper answer."""
    r = random.Random("%s-%s" % (family.__name__, seed))
    t = Tap(c, seed, family.__name__)
    family(t, r)
    cs = [x for x in t.cases if x.res.kind in ("correct", "incomplete", "reject", "silent0")]
    if len(cs) > limit:
        # the first of a batch, and a choice of the others
        cs = [cs[0]] + r.sample(cs[1:], limit - 1)
    return cs
