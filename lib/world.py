"""A fixed many-sorted signature with random well-typed terms, a reference
typing function and surface spelling. Types are text or ('->', A, B)."""
import values as V
import terms as T
from terms import S, A

DECLS = """(declare-const U Type)
(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const Str Type)
(declare-consts <string> Str)
(declare-const a Bool) (declare-const b Bool) (declare-const c Bool) (declare-const d Bool)
(declare-const x U) (declare-const y U) (declare-const z U)
(declare-const i Int) (declare-const j Int)
(declare-const f (-> U U)) (declare-const g (-> U U U)) (declare-const k (-> Int U))
(declare-const P (-> U Bool)) (declare-const R (-> U U Bool)) (declare-const Q (-> Bool U Bool))
(declare-const not (-> Bool Bool)) (declare-const imp (-> Bool Bool Bool))
(declare-const app (-> (-> U U) U U))
(declare-const lt (-> Int Int Bool))
(declare-const or (-> Bool Bool Bool) :right-assoc-nil false)
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-const xor (-> Bool Bool Bool) :left-assoc-nil false)
(declare-const + (-> Int Int Int) :right-assoc-nil 0)
(declare-const cat (-> U U U) :left-assoc-nil x)
(declare-parameterized-const = ((T Type :implicit)) (-> T T Bool))
"""


def fn(*ts):
    r = ts[-1]
    for t in reversed(ts[:-1]):
        r = ("->", t, r)
    return r


TYPES = {
    "a": "Bool", "b": "Bool", "c": "Bool", "d": "Bool", "x": "U", "y": "U", "z": "U", "i": "Int", "j": "Int",
    "f": fn("U", "U"), "g": fn("U", "U", "U"), "k": fn("Int", "U"), "P": fn("U", "Bool"),
    "R": fn("U", "U", "Bool"), "Q": fn("Bool", "U", "Bool"), "not": fn("Bool", "Bool"),
    "imp": fn("Bool", "Bool", "Bool"), "app": fn(fn("U", "U"), "U", "U"), "lt": fn("Int", "Int", "Bool"),
    "or": fn("Bool", "Bool", "Bool"), "and": fn("Bool", "Bool", "Bool"), "xor": fn("Bool", "Bool", "Bool"),
    "+": fn("Int", "Int", "Int"), "cat": fn("U", "U", "U"),
}
RIGHT = {"or": V.FALSE, "and": V.TRUE, "+": V.num(0)}
LEFT = {"xor": V.FALSE, "cat": S("x")}
NIL = dict(RIGHT, **LEFT)
LITT = {"bool": "Bool", "num": "Int", "str": "Str"}
SORTS = ["Bool", "U", "Int"]


def type_of(t, env=TYPES):
    """Type of a term, or None if ill-typed."""
    k = t[0]
    if k == "s":
        return env.get(t[1])
    if k == "@":
        if t[1][0] == "@" and t[1][1] == S("="):
            p, q = type_of(t[1][2], env), type_of(t[2], env)
            return "Bool" if p is not None and p == q else None
        if t[1] == S("="):
            p = type_of(t[2], env)
            return None if p is None else ("->", p, "Bool")
        p, q = type_of(t[1], env), type_of(t[2], env)
        if p is None or q is None or not isinstance(p, tuple) or p[1] != q:
            return None
        return p[2]
    return LITT.get(k)


def show_type(t):
    if isinstance(t, str):
        return t
    args = []
    while isinstance(t, tuple):
        args.append(show_type(t[1]))
        t = t[2]
    return "(-> %s %s)" % (" ".join(args), t)


def flat(t, op):
    """Written-order children of an op-list ending in its nil, or None."""
    nil = NIL[op]
    out = []
    if op in RIGHT:
        while t != nil:
            if t[0] != "@" or t[1][0] != "@" or t[1][1] != S(op):
                return None
            out.append(t[1][2])
            t = t[2]
        return out
    while t != nil:
        if t[0] != "@" or t[1][0] != "@" or t[1][1] != S(op):
            return None
        out.append(t[2])
        t = t[1][2]
    return out[::-1]


def is_list_param(t):
    return t[0] == "p" and len(t) == 3


def list_tail(t, op):
    """Written-order children of an op-application whose tail is a parameter
    marked :list, or None."""
    out = []
    while t[0] == "@":
        if t[1][0] != "@" or t[1][1] != S(op):
            return None
        out.append(t[1][2] if op in RIGHT else t[2])
        t = t[2] if op in RIGHT else t[1][2]
    if not is_list_param(t):
        return None
    out.append(t)
    return out if op in RIGHT else out[::-1]


def nary(op, xs):
    """Desugaring of (op x1 ... xn)."""
    nil = NIL[op]
    if op in RIGHT:
        t = nil
        for e in reversed(xs):
            t = A(S(op), e, t)
        return t
    t = nil
    for e in xs:
        t = A(S(op), t, e)
    return t


def spell(t, r=None, p=0.6):
    """Source text of a term: surface syntax with probability p, else `_`."""
    if t[0] == "e":
        return "(%s%s %s)" % ("" if t[1][0] == "$" else "eo::", t[1], " ".join(spell(x, r, p) for x in t[2:]))
    if t[0] != "@":
        return T.show(t)
    head, args = T.spine(t)
    surface = r is None or r.random() < p
    if head[0] == "s" and head[1] in NIL:
        if surface and len(args) == 2:
            xs = flat(t, head[1])
            if xs is None:
                xs = list_tail(t, head[1])
            if xs and not any(is_list_param(e) for e in (xs[:-1] if head[1] in RIGHT else xs[1:])) and \
                    (flat(t, head[1]) is None or not is_list_param(xs[-1 if head[1] in RIGHT else 0])):
                return "(%s %s)" % (head[1], " ".join(spell(e, r, p) for e in xs))
        return "(_ %s %s)" % (T.show(head), " ".join(spell(e, r, p) for e in args))
    if surface and head[0] == "s":
        return "(%s %s)" % (head[1], " ".join(spell(e, r, p) for e in args))
    if r is not None and r.random() < 0.5 and len(args) > 1:
        return "(_ (_ %s) %s)".replace("(_ %s)", "(_ %s %s)", 1) % (
            T.show(head), spell(args[0], r, p), " ".join(spell(e, r, p) for e in args[1:]))
    return "(_ %s %s)" % (T.show(head), " ".join(spell(e, r, p) for e in args))


def gen(r, ty, depth, leaf=None):
    """Random well-typed term. leaf(r, ty) may supply leaves (or None)."""
    if leaf is not None and (depth <= 0 or r.random() < 0.25):
        t = leaf(r, ty)
        if t is not None:
            return t
    if ty == "Bool":
        if depth <= 0 or r.random() < 0.2:
            return r.choice([S("a"), S("b"), S("c"), S("d"), V.TRUE, V.FALSE] if r.random() < 0.5 else [S("a"), S("b")])
        k = r.choice(["not", "imp", "or", "and", "or", "xor", "P", "R", "Q", "=", "=", "lt"])
        if k in ("or", "and", "xor"):
            return nary(k, [gen(r, "Bool", depth - 1, leaf) for _ in range(r.choice([1, 2, 2, 3, 4]))])
        if k == "=":
            s = r.choice(SORTS)
            return A(S("="), gen(r, s, depth - 1, leaf), gen(r, s, depth - 1, leaf))
        ts = TYPES[k]
    elif ty == "U":
        if depth <= 0 or r.random() < 0.3:
            return r.choice([S("x"), S("y"), S("z")])
        k = r.choice(["f", "g", "k", "app", "cat"])
        if k == "cat":
            return nary(k, [gen(r, "U", depth - 1, leaf) for _ in range(r.choice([1, 2, 3]))])
        ts = TYPES[k]
    elif ty == "Int":
        if depth <= 0 or r.random() < 0.5:
            return r.choice([S("i"), S("j"), V.num(0), V.num(1), V.num(-1), V.num(r.randint(-20, 200))])
        return nary("+", [gen(r, "Int", depth - 1, leaf) for _ in range(r.choice([1, 2, 3]))])
    elif ty == "Str":
        return V.sstr(r.choice(["", "a", "ab", "x y", "b"]))
    elif ty == fn("U", "U"):
        return S("f") if depth <= 0 or r.random() < 0.5 else A(S("g"), gen(r, "U", depth - 1, leaf))
    elif ty == fn("Bool", "Bool"):
        return S("not") if r.random() < 0.4 else A(S(r.choice(["imp", "or", "and"])), gen(r, "Bool", depth - 1, leaf))
    elif ty == fn("U", "Bool"):
        return S("P") if r.random() < 0.5 else A(S("R"), gen(r, "U", depth - 1, leaf))
    elif ty == fn("Bool", "Bool", "Bool"):
        return S(r.choice(["imp", "or", "and", "xor"]))
    elif ty == fn("U", "U", "U"):
        return S(r.choice(["g", "cat"]))
    else:
        raise ValueError(ty)
    args = []
    while ts != ty:
        args.append(gen(r, ts[1], depth - 1, leaf))
        ts = ts[2]
    return A(S(k), *args)


def mutate(r, t, ty="Bool"):
    """A different term of the same type (one subterm replaced)."""
    for _ in range(20):
        paths = []

        def walk(u, p):
            tu = type_of(u)
            if tu in SORTS:
                paths.append((p, tu))
            if u[0] == "@":
                walk(u[1], p + (1,))
                walk(u[2], p + (2,))
        walk(t, ())
        if not paths:
            return t
        p, tu = r.choice(paths)
        new = put(t, p, gen(r, tu, r.choice([0, 0, 1, 2])))
        if new != t:
            return new
    return t


def put(t, p, s):
    if not p:
        return s
    l = list(t)
    l[p[0]] = put(t[p[0]], p[1:], s)
    return tuple(l)
