"""Batches of independent one-line obligations run in one execution. The error
position of a rejected run tells which obligation failed, so each obligation
is judged separately."""

CHK = """(declare-rule chk ((T Type)(U Type)(x T)(y U)) :args (x y) :requires ((x y)) :conclusion true)
(declare-parameterized-const pr$ ((T Type :implicit)) (-> T Bool))
(declare-rule ev ((T Type)(x T)) :args (x) :conclusion (pr$ x))
"""


class Item:
    """One obligation: `text` is a single line (no newline)."""
    __slots__ = ("text", "key", "what", "expected", "meta")

    def __init__(self, text, key, what, expected="", meta=None):
        self.text, self.key, self.what, self.expected, self.meta = text, key, what, expected, meta


def run_batch(c, prelude, items, variant="dbg", fname="t.eo", args=(), extra=None, key_prefix="", timeout=40,
              suffix=""):
    """All items must be accepted. Each failing item becomes a violation."""
    items = list(items)
    nfail = 0
    while items:
        text = prelude + "\n" + "\n".join(i.text for i in items) + "\n" + suffix
        off = (prelude + "\n").count("\n")
        files = {fname: text}
        if extra:
            files.update(extra)
        r = c.run(files, main=fname, args=args, variant=variant, timeout=timeout)
        if r.kind == "correct":
            return
        p = r.pos()
        idx = None
        if r.kind == "reject" and p and p[0].endswith(fname):
            k = p[1] - 1 - off
            if 0 <= k < len(items):
                idx = k
        if idx is None:
            # crash or an error elsewhere: bisect
            if len(items) == 1:
                report(c, prelude, items[0], r, fname, args, extra, key_prefix, suffix)
                return
            h = len(items) // 2
            run_batch(c, prelude, items[:h], variant, fname, args, extra, key_prefix, timeout, suffix)
            run_batch(c, prelude, items[h:], variant, fname, args, extra, key_prefix, timeout, suffix)
            return
        it = items.pop(idx)
        files[fname] = prelude + "\n" + it.text + "\n" + suffix
        r1 = c.run(files, main=fname, args=args, variant=variant, timeout=timeout)
        if r1.kind == "correct":
            # fails only in company of the others: report the whole batch
            full = dict(files)
            full[fname] = text
            c.violation(key_prefix + it.key + ":in-context", it.what + " (only after the preceding commands)", full,
                        args=args, main=fname, expected=it.expected, observed=r.brief())
        else:
            report(c, prelude, it, r1, fname, args, extra, key_prefix, suffix)
        nfail += 1
        # keep judging the obligations after the failing one
        items = items[idx:] if nfail < 6 else []


def report(c, prelude, it, r, fname, args, extra, key_prefix, suffix=""):
    files = {fname: prelude + "\n" + it.text + "\n" + suffix}
    if extra:
        files.update(extra)
    c.violation(key_prefix + it.key, it.what, files, args=args, main=fname, expected=it.expected, observed=r.brief())


def chunks(xs, n):
    xs = list(xs)
    return [xs[i:i + n] for i in range(0, len(xs), n)]
