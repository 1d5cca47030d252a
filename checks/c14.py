"""C14: including files composes as if each file were read once, in place.
Random trees of directories with (symbolic) links and files that include each
other through random spellings of their paths, run from a random working
directory with random command line includes. Every file echoes what it
executes: the trace on standard output must be that of the model, which is
also the model of what is declared where."""
import os
import random
import shutil

DIRS = ["", "a", "a/b", "a/b/c", "d", "d d", "d_e", "a.eo"]
NAMES = ["f", "g", "x.eo", "sig", "Sig.eo", "p q.eo", "th.smt2", "x", ".h.eo", "..eo"]
BASE = """(declare-const Int Type)(declare-consts <numeral> Int)(declare-const fact (-> Int Bool))(declare-const imp (-> Bool Bool Bool))
(declare-rule chk ((T Type)(U Type)(t T)(u U)) :args (t u) :requires ((t u)) :conclusion true)
(declare-rule scope ((A Bool)(F Bool)) :assumption A :premises (F) :conclusion (imp A F))
(declare-rule id ((F Bool)) :premises (F) :conclusion F)
"""


class Sim:
    """Builds the files of a run while executing them."""

    def __init__(self, r):
        self.r = r
        self.dirs = [""] + r.sample(DIRS[1:], r.choice([1, 2, 3, 4, 7]))
        for d in list(self.dirs):
            while d:
                d = os.path.dirname(d)
                if d not in self.dirs:
                    self.dirs.append(d)
        self.dirs = sorted(set(self.dirs))
        self.files = {}          # real path -> [line]
        self.links = {}          # link -> target (both relative to the top)
        self.k = 0
        self.stack, self.seen = [], set()
        self.trace, self.points = [], []     # points: (file, line, trace length, live names, ref kind, level)
        self.scopes = [[]]       # names declared: [(class, name)]
        self.rules = []
        self.dead = []
        self.incomplete = False
        self.hasref, self.asserts = False, set()
        self.nincl = 0
        self.noref = False
        self.budget = r.choice([3, 6, 12, 25])
        for i in range(r.choice([0, 0, 1, 2])):
            t = r.choice(self.dirs)
            p = r.choice(self.dirs)
            self.links[os.path.join(p, "lnk%d" % i)] = t

    # ---------------------------------------------------------------- paths
    def newfile(self):
        r = self.r
        while True:
            p = os.path.join(r.choice(self.dirs), r.choice(NAMES) if r.random() < 0.7 else "f%d.eo" % self.fresh())
            if p not in self.files and p not in self.dirs and p not in self.links:
                return p

    def fresh(self):
        self.k += 1
        return self.k

    def spell(self, target, frm, plain):
        """A spelling of the path of the file target, as seen from the directory
        frm. Not plain: frm was reached through a link, so that .. may not be
        used. Returns (spelling, through a link?)."""
        r = self.r
        via = False
        m = r.random()
        d, n = os.path.split(target)
        if m < 0.12:
            # a link to the directory
            ls = [l for l, t in self.links.items() if t == d]
            if ls:
                d, via = r.choice(ls), True
        elif m < 0.2:
            # a link to the file
            ls = [l for l, t in self.links.items() if t == target]
            if ls and r.random() < 0.5:
                l = r.choice(ls)
            else:
                l = os.path.join(r.choice(self.dirs), "ln%d" % self.fresh())
                self.links[l] = target
            d, n = os.path.split(l)
            via = True
        target = os.path.join(d, n)
        if r.random() < 0.15 or not plain:
            s = "TOP/" + target
            if r.random() < 0.3:
                s = "TOP/" + os.path.join(r.choice(self.dirs), ".", target) if False else "TOP/./" + target
        else:
            s = os.path.relpath("/T/" + target, "/T/" + frm)
            m = r.random()
            if m < 0.15:
                s = "./" + s
            elif m < 0.25:
                s = ".//././" + s
            elif m < 0.4:
                # down into a directory and back
                subs = [x for x in self.dirs if x and os.path.dirname(x) == frm]
                if subs:
                    x = os.path.basename(r.choice(subs))
                    s = "%s/../%s" % (x, s)
            elif m < 0.5:
                # out of the tree and back
                s = "../" * (len(frm.split("/")) if frm else 0) + "../TOPNAME/" + target
            elif m < 0.6:
                s = s.replace("/", "//")
        return s, via

    # ------------------------------------------------------------- commands
    def live(self, cls):
        return [n for sc in self.scopes for c, n in sc if c == cls]

    def run(self, path, kind, via, depth):
        """Execute the file (create it if it is new)."""
        self.stack.append(path)
        self.seen.add(path)
        if path in self.files:
            # read again, after a reset; only files without commands that
            # depend on the state are
            raise AssertionError
        out = self.files[path] = []
        r = self.r
        here = os.path.dirname(path)

        def put(text):
            out.append(text)

        def point(level=0):
            self.points.append((path, len(out), len(self.trace), frozenset(n for sc in self.scopes for _, n in sc), kind, via))

        fid = self.fresh()
        pushes = 0
        for j in range(r.choice([1, 2, 4, 6, 9]) if path != "base.eo" else 0):
            point()
            m = r.random()
            k = self.fresh()
            if m < 0.2:
                put('(echo "%d.%d")' % (fid, j))
                self.trace.append("%d.%d" % (fid, j))
            elif m < 0.38:
                ss = self.live("sort")
                if not ss or r.random() < 0.3:
                    put("(declare-sort s%d 0)" % k)
                    self.scopes[-1].append(("sort", "s%d" % k))
                else:
                    s = r.choice(ss)
                    put("(declare-const c%d %s)" % (k, s) if r.random() < 0.6 else "(declare-const c%d (-> Int %s))(declare-const c%dx %s)" % (k, s, k, s))
                    self.scopes[-1].append(("const", "c%d" % k))
                    if kind != "ref":
                        put("(define r%d () c%d)" % (k, k))
                        self.scopes[-1].append(("alias", "r%d" % k))
            elif m < 0.5:
                if kind == "ref":
                    put("(assert (fact %d))" % k)
                    self.asserts.add(k)
                else:
                    al = self.live("alias")
                    if al:
                        a = r.choice(al)
                        put("(step st%d true :rule chk :args (%s %s))" % (k, "c" + a[1:], a))
            elif m < 0.57 and kind != "ref":
                sorry = r.random() < 0.1
                put("(declare-rule rl%d () :conclusion (fact %d)%s)" % (k, k, " :sorry" if sorry else ""))
                self.scopes[-1].append(("rule", "rl%d%s" % (k, "!" if sorry else "")))
            elif m < 0.65 and kind != "ref":
                rs = self.live("rule")
                if rs:
                    x = r.choice(rs)
                    n = x.strip("rl!")
                    put("(step st%d (fact %s) :rule rl%s)" % (k, n, n))
                    self.incomplete |= x.endswith("!")
            elif m < 0.7 and kind != "ref":
                n = k
                if self.hasref:
                    if not self.asserts:
                        continue
                    n = r.choice(sorted(self.asserts))
                put("(assume a%d (fact %d))" % (k, n))
                self.scopes[-1].append(("proof", "a%d %d" % (k, n)))
            elif m < 0.75 and kind != "ref":
                ps = self.live("proof")
                if ps:
                    p, n = r.choice(ps).split()
                    put("(step st%d (fact %s) :rule id :premises (%s))" % (k, n, p))
            elif m < 0.79:
                put("(push)")
                self.scopes.append([])
                pushes += 1
            elif m < 0.83:
                if pushes:
                    put("(pop)")
                    self.dead += [n.split()[0].strip("!") for _, n in self.scopes.pop()]
                    pushes -= 1
            elif kind != "ref" and depth < 8:
                self.include(put, here, via, depth)
        if path == "base.eo":
            out += BASE.strip().split("\n")
        if r.random() < 0.7:
            for _ in range(pushes):
                put("(pop)")
                self.dead += [n.split()[0].strip("!") for _, n in self.scopes.pop()]
        point()
        put('(echo "end %d")' % fid)
        self.trace.append("end %d" % fid)
        self.stack.pop()

    def include(self, put, here, via, depth):
        r = self.r
        m = r.random()
        kind = "sig"
        if m < 0.5 and self.nincl < self.budget:
            t = self.newfile()
        elif m < 0.6 and not self.hasref and not self.noref:
            t, kind = (self.newfile() if r.random() < 0.8 else r.choice(sorted(self.seen))), "ref"
        elif self.seen:
            # again: one that was read, or is being read (a cycle)
            t = r.choice(sorted(self.seen) if r.random() < 0.7 or not self.stack else self.stack)
        else:
            return
        s, v = self.spell(t, here, not via)
        new = t not in self.seen
        self.nincl += new
        if kind == "ref":
            self.hasref = True
        if put is not None:
            put('(%s "%s")' % ("reference" if kind == "ref" else "include", s.replace('"', '""')))
        if new:
            self.run(t, kind, via or v, depth + 1)
        return s, kind


def build(r):
    """A run: (sim, cwd, args, main, stdin file)"""
    s = Sim(r)
    cwd = r.choice(s.dirs + [""])
    args = []
    # the basic declarations come first
    p, _ = s.spell("base.eo", cwd, True)
    mode = r.choice(["eo", "eo", "smt2", "stdin"])
    basecli = r.random() < 0.4
    mainfile = {"eo": "main.eo", "smt2": "main.smt2", "stdin": None}[mode]
    if mainfile:
        mainfile = os.path.join(r.choice(s.dirs), r.choice(["", "", "x.y."]) + mainfile)
    if basecli:
        args.append("--include=" + p)
        s.run("base.eo", "sig", False, 0)
        while r.random() < 0.4:
            x = s.include(None, cwd, False, 0)
            if x:
                args.append("--%s=%s" % ({"ref": "reference"}.get(x[1], "include"), x[0]))
    # the main file
    name = mainfile or "STDIN"
    here = os.path.dirname(mainfile) if mainfile else cwd
    spelled, v = s.spell(mainfile, cwd, True) if mainfile else (None, False)
    if mainfile and mainfile not in s.seen and v:
        spelled = os.path.relpath("/T/" + mainfile, "/T/" + cwd)
        v = False
    out = []
    kind = "sig" if mode == "eo" else "proof"
    # as in Sim.run, with the inclusion of the base file first
    if not mainfile:
        s.seen.add("STDIN")
    lead = []
    if not basecli:
        q, _ = s.spell("base.eo", here, True)
        lead.append('(include "%s")' % q)
        if mainfile:
            s.seen.add(mainfile)
        s.run("base.eo", "sig", False, 1)
    s.stack.append(name)
    if not mainfile:
        s.seen.discard("STDIN")
        s.files["STDIN"] = None
        del s.files["STDIN"]
        runmain(s, "STDIN", kind, here, lead)
        s.seen.discard("STDIN")
    else:
        runmain(s, mainfile, kind, here, lead)
    return s, cwd, args, spelled, mainfile


def runmain(s, path, kind, here, lead):
    """The main file: several stretches of commands and includes."""
    r = s.r
    out = s.files[path] = list(lead)
    s.seen.add(path)
    if path == "STDIN":
        s.seen.discard(path)
    s.stack = [path] if path != "STDIN" else []
    fid = s.fresh()
    for j in range(r.choice([2, 4, 8, 12])):
        s.points.append((path, len(out), len(s.trace), frozenset(n for sc in s.scopes for _, n in sc), kind, False))
        m = r.random()
        k = s.fresh()
        if m < 0.15:
            out.append('(echo "%d.%d")' % (fid, j))
            s.trace.append("%d.%d" % (fid, j))
        elif m < 0.25:
            out.append("(declare-sort s%d 0)" % k)
            s.scopes[-1].append(("sort", "s%d" % k))
        elif m < 0.35:
            al = s.live("alias")
            if al:
                a = r.choice(al)
                out.append("(step st%d true :rule chk :args (%s %s))" % (k, "c" + a[1:], a))
        elif m < 0.42:
            ss = s.live("const")
            if ss:
                out.append("(define r%d () %s)" % (k, r.choice(ss)))
        elif m < 0.5:
            rs = s.live("rule")
            if rs:
                x = r.choice(rs)
                n = x.strip("rl!")
                out.append("(step st%d (fact %s) :rule rl%s)" % (k, n, n))
                s.incomplete |= x.endswith("!")
        elif m < 0.56:
            ps = s.live("proof")
            if ps:
                p, n = r.choice(ps).split()
                out.append("(step st%d (fact %s) :rule id :premises (%s))" % (k, n, p))
        elif m < 0.6:
            out.append("(push)")
            s.scopes.append([])
        elif m < 0.64 and len(s.scopes) > 1:
            # scopes may have been opened in included files
            out.append("(pop)")
            s.dead += [n.split()[0].strip("!") for _, n in s.scopes.pop()]
        elif m < 0.67 and not s.hasref and not s.incomplete:
            # a reset forgets what was included
            out.append("(reset)")
            s.dead += [n.split()[0].strip("!") for sc in s.scopes for _, n in sc]
            s.scopes = [[]]
            s.seen, s.stack, s.noref = {"base.eo"}, [], True
            out.append('(include "%s")' % s.spell("base.eo", here, True)[0])
            s.trace.append("end %s" % [l for l in s.files["base.eo"] if "echo" in l][0].split()[-1].strip('")'))
        else:
            s.include(out.append, here, False, 0)
    s.points.append((path, len(out), len(s.trace), frozenset(n for sc in s.scopes for _, n in sc), kind, False))
    out.append('(echo "end %d")' % fid)
    s.trace.append("end %d" % fid)


def execute(c, s, cwd, args, spelled, files, variant):
    """Lay out the tree and run; returns (result, top, listing)."""
    w = c.workdir()
    top = os.path.join(w, "top")
    fill = lambda t: t.replace("TOPNAME", "top").replace("TOP/", top + "/")
    try:
        for d in s.dirs:
            os.makedirs(os.path.join(top, d), exist_ok=True)
        for p, lines in files.items():
            if p != "STDIN":
                with open(os.path.join(top, p), "w", encoding="utf-8") as f:
                    f.write(fill("\n".join(lines) + "\n"))
        for l, t in s.links.items():
            # relative and absolute links
            p = os.path.join(top, l)
            t = os.path.join(top, t)
            os.symlink(t if len(l) % 2 else os.path.relpath(t, os.path.dirname(p)), p)
        stdin = fill("\n".join(files["STDIN"]) + "\n").encode() if spelled is None else None
        a = [fill(x) for x in args] + ([fill(spelled)] if spelled is not None else [])
        res = c.exec(variant, a, os.path.join(top, cwd), stdin=stdin)
        real = {}
        for p in files:
            real[p] = os.path.realpath(os.path.join(top, p)) if p != "STDIN" else "stream"
        pos = res.pos()
        named = None
        if pos:
            named = pos[0] if pos[0] == "stream" else os.path.realpath(os.path.join(top, cwd, pos[0].encode("latin-1").decode("utf-8", "replace")))
        return res, real, named
    finally:
        shutil.rmtree(w, ignore_errors=True)


def listing(s, cwd, files):
    fs = {"tree/" + p: "\n".join(l) + "\n" for p, l in files.items()}
    fs["LINKS"] = "working directory: %r\n" % cwd + "".join("%s -> %s\n" % x for x in s.links.items())
    return fs


BAD = [("(define u () nowhere)", "undeclared symbol"), ("(step stx false :rule chk :args (1 1))", "wrong conclusion"), ("(step stx true :rule chk :args (1 2))", "failing requirement"),
       ("(foo)", "unknown command"), ("(pop 999)", "pop without push"), ('(include "missing.eo")', "missing file"), ('(include "DIR")', "a directory"),
       ('(include missing)', "not a string"), ("(declare-const y Q)", "undeclared type"), (")", "unbalanced parenthesis"),
       ("(assume-push zz (fact 1))(include \"EXISTING\")(step-pop zw :rule scope :premises (zz))", "include in an assumption scope"),
       ("(assume-push zz (fact 1))", "open assumption scope"), ("(define u () dead)", "name out of scope")]


def one(c, i):
    r = random.Random("%s-c14-%d" % (c.seed, i))
    s, cwd, args, spelled, mainfile = build(r)
    files = s.files
    variant = r.choice(["rel", "rel", "dbg", "san"]) if i % 6 == 0 else "rel"
    res, real, _ = execute(c, s, cwd, args, spelled, files, variant)
    exp = "incomplete" if s.incomplete else "correct"
    got = [l for l in res.out.encode("latin-1").decode("utf-8", "replace").split("\n") if l]
    c.count("inclusion trees")
    c.count("files read", len(files))
    c.count("include commands and options", sum(l.startswith(("(include", "(reference")) for ls in files.values() for l in ls) + len(args))
    c.count("echo events compared", len(s.trace))
    c.seen((cwd, tuple(args), spelled, tuple((p, tuple(l)) for p, l in sorted(files.items()))))
    c.sample("cwd=%s args=%s main=%s links=%s\n" % (cwd, args, spelled, s.links) + "\n".join("%s: %s" % (p, " ".join(l)) for p, l in files.items()))
    full = list(args) + ([spelled] if spelled is not None else [])
    if res.kind != exp or got != s.trace + [exp]:
        c.violation("tree", "what is executed differs from reading each included file once, in place", listing(s, cwd, files), args=full, main="", expected="%s, trace %s" % (exp, s.trace),
                    observed=res.brief() + "\n" + " ".join(got) + "\n" + res.err[-500:])
        return
    # an error at one point of one file
    for _ in range(2):
        path, line, n, live, kind, via = r.choice(s.points)
        text, what = r.choice(BAD)
        if what != "name out of scope" and kind == "ref" and ("step" in text or "assume" in text or "include" in text or "define" in text):
            text, what = "(declare-const y Q)", "undeclared type"
        if what == "name out of scope" and kind == "ref":
            continue
        here = os.path.dirname(path) if path != "STDIN" else cwd
        if what == "name out of scope":
            here_live = {x.split()[0].strip("!") for x in live}
            gone = [x for x in set(s.dead) | {x.split()[0].strip("!") for sc in s.scopes for _, x in sc} if x not in here_live]
            if not gone:
                continue
            x = r.choice(sorted(gone))
            if x.startswith("rl"):
                text = "(step stx (fact %s) :rule %s)" % (x[2:], x)
            else:
                text = text.replace("dead", x)
        if (s.hasref or s.noref) and "(assume" in text:
            continue
        if what == "a directory":
            d, _ = s.spell(r.choice([x for x in s.dirs if x] or [""]) or ".", here, not via)
            text = text.replace("DIR", "TOP/" + r.choice(s.dirs))
        if "EXISTING" in text:
            text = text.replace("EXISTING", "TOP/base.eo")
        bad = dict(files)
        bad[path] = files[path][:line] + [text] + files[path][line:]
        open_scope = what == "open assumption scope"
        res, real, named = execute(c, s, cwd, args, spelled, bad, "rel")
        got = [l for l in res.out.encode("latin-1").decode("utf-8", "replace").split("\n") if l]
        c.count("must be rejected: " + what)
        c.count("error in the main file" if path in (mainfile, "STDIN") else "error in an included file")
        c.seen((cwd, tuple(args), spelled, path, line, text, tuple(sorted((p, tuple(l)) for p, l in bad.items()))))
        trace = s.trace[:n]
        ok = res.kind == "reject" and (got == trace or open_scope and got[:n] == trace)
        if ok and named is not None and not open_scope:
            ok = named == real[path] and res.pos()[1] in (line + 1, line + 2 if what == "unbalanced parenthesis" else line + 1)
        if not ok:
            c.violation("error:" + what, "an error in an included file must reject the whole input, when it is reached", listing(s, cwd, bad), args=full, main="",
                        expected="rejected at %s:%d, trace %s" % (path, line + 1, trace), observed=res.brief() + "\n" + " ".join(got) + "\n" + res.err[-400:])
            return


def run(c):
    c.need("rel", "dbg", "san")
    c.rule = "a case counts if its tree, options and injected error are new; the oracle is the trace of echo commands predicted by a model that reads each file once, in place"
    c.assumptions += ["paths that lead out of a linked directory with .. are not judged", "names of files with surrounding blanks are not judged"]
    c.ppmap(lambda i: one(c, i), range(c.n(7000, 150000)))
