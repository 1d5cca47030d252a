"""Reference model of matching and evaluation.

Patterns/expressions are terms with parameters ('p', name[, 'list']) and
evaluations ('e', op, arg...) (op without the `eo::` prefix, or ('e', '$name',
...) for a program call, see `programs`)."""
import values as V
import terms as T
import world as W
from terms import S, A

STUCK = None


def match(p, t, ctx):
    """Extend ctx so that p[ctx] = t; returns False when impossible."""
    if p[0] == "p":
        if p[1] in ctx:
            return ctx[p[1]] == t
        ctx[p[1]] = t
        return True
    if p[0] == "@":
        return t[0] == "@" and match(p[1], t[1], ctx) and match(p[2], t[2], ctx)
    return p == t


def params(t, acc=None):
    acc = [] if acc is None else acc
    if t[0] == "p":
        if t[1] not in acc:
            acc.append(t[1])
    elif t[0] == "@":
        params(t[1], acc)
        params(t[2], acc)
    elif t[0] == "e":
        for x in t[2:]:
            params(x, acc)
    return acc


class Fuel(Exception):
    pass


LISTOPS = None


def listops():
    global LISTOPS
    if LISTOPS is None:
        import checks.c02 as c02
        LISTOPS = {n: c02.Op(n, W.NIL[n], n in W.LEFT, [], None) for n in W.NIL}
        LISTOPS["ref"] = c02.ref
    return LISTOPS


class Machine:
    """Evaluates expressions; programs: name -> list of (patterns, rhs)."""

    def __init__(self, programs=None, fuel=4000, maxsize=4000):
        self.programs = programs or {}
        self.fuel = fuel
        self.maxsize = maxsize
        self.steps = 0

    def ev(self, t, ctx, depth=0):
        """Value of t under ctx, or None if it does not evaluate."""
        k = t[0]
        if k == "p":
            return ctx[t[1]]
        if k == "@":
            f = self.ev(t[1], ctx, depth)
            x = self.ev(t[2], ctx, depth)
            return None if f is None or x is None else ("@", f, x)
        if k != "e":
            return t
        op = t[1]
        if op == "ite":
            c = self.ev(t[2], ctx, depth)
            if c is None or c[0] != "bool":
                # the checker then evaluates both branches; the result is
                # stuck in any case, but that may not terminate
                self.ev(t[3], ctx, depth)
                self.ev(t[4], ctx, depth)
                return None
            return self.ev(t[3] if c[1] else t[4], ctx, depth)
        if op == "requires":
            # (the checker evaluates the body in any case, which may not
            # terminate)
            a, b, c = [self.ev(x, ctx, depth) for x in t[2:]]
            return None if a is None or a != b else c
        if op.startswith("$"):
            args = [self.ev(x, ctx, depth) for x in t[2:]]
            return self.call(op, args, depth)
        if op in ("nil",) or op.startswith("list_") or op == "cons":
            f = self.ev(t[2], ctx, depth)
            args = [self.ev(x, ctx, depth) for x in t[3:]]
            if f is None or any(x is None for x in args):
                return None
            if f[0] != "s" or f[1] not in W.NIL:
                return None
            if op == "nil":
                return W.NIL[f[1]]
            return listops()["ref"](listops()[f[1]], op, args)
        args = [self.ev(x, ctx, depth) for x in t[2:]]
        if op == "is_ok":
            return V.B(args[0] is not None)
        if op == "is_eq":
            return V.B(args[0] is not None and args[0] == args[1])
        if op in ("is_z", "is_q", "is_bin", "is_str", "is_bool", "is_var"):
            return V.B(args[0] is not None and
                       args[0][0] == {"is_z": "num", "is_q": "rat", "is_bin": "bin", "is_str": "str",
                                      "is_bool": "bool", "is_var": "v"}[op])
        if any(x is None for x in args):
            return None
        if op == "eq":
            return V.B(args[0] == args[1])
        if op == "typeof":
            ty = W.type_of(args[0])
            return None if ty is None or not isinstance(ty, str) else S(ty)
        if not all(V.is_lit(x) for x in args):
            return None
        return V.apply(op, args)

    def call(self, name, args, depth):
        if any(x is None for x in args):
            return None
        self.steps += 1
        if self.steps > self.fuel or depth > 200:
            raise Fuel()
        if any(T.size(x) > self.maxsize for x in args):
            raise Fuel()
        for pats, rhs in self.programs[name]:
            ctx = {}
            if all(match(p, a, ctx) for p, a in zip(pats, args)):
                return self.ev(rhs, ctx, depth + 1)
        return None
