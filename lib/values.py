"""Reference semantics of the builtin operators on literals, written from the
user manual. Values are tuples; STUCK means `does not evaluate`."""
from fractions import Fraction
import math

STUCK = None
TRUE, FALSE = ("bool", True), ("bool", False)


def B(x):
    return TRUE if x else FALSE


def num(n):
    return ("num", n)


def rat(q):
    return ("rat", Fraction(q))


def dec(q):
    return ("dec", Fraction(q))


def binv(w, v):
    return ("bin", w, v % (1 << w))


def hexv(w, v):
    return ("hex", w, v % (1 << w))


def strv(cps):
    return ("str", tuple(cps))


def sstr(s):
    return ("str", tuple(ord(c) for c in s))


def is_lit(v):
    return v is not STUCK and v[0] in ("bool", "num", "rat", "dec", "bin", "hex", "str")


def str_body(cps):
    """Source text (between the double quotes) of a string value."""
    out = []
    for c in cps:
        if c == 0x22:
            out.append('""')
        elif 32 <= c < 127 and c != 0x5C:
            out.append(chr(c))
        else:
            out.append("\\u{%x}" % c)
    return "".join(out)


def dec_text(q):
    n, d = q.numerator, q.denominator
    k = 1
    while (10 ** k) % d != 0:
        k += 1
        if k > 2000:
            raise ValueError("not a finite decimal")
    s = "%0*d" % (k + 1, abs(n) * (10 ** k // d))
    return ("-" if n < 0 else "") + s[:-k] + "." + s[-k:]


def show(v):
    """A canonical spelling of the value in signature files."""
    k = v[0]
    if k == "bool":
        return "true" if v[1] else "false"
    if k == "num":
        return str(v[1])
    if k == "rat":
        return "%d/%d" % (v[1].numerator, v[1].denominator)
    if k == "dec":
        return dec_text(v[1])
    if k == "bin":
        # the empty binary value has no literal syntax of its own
        return "#b" + format(v[2], "0%db" % v[1]) if v[1] else "(eo::to_bin 0 0)"
    if k == "hex":
        return "#x" + (format(v[2], "0%dx" % (v[1] // 4)) if v[1] else "")
    if k == "str":
        return '"' + str_body(v[1]) + '"'
    if k == "sym":
        return v[1]
    raise ValueError(v)


ARITH = ("num", "dec", "rat")
BITS = ("bin", "hex")


def same_bits(a, b):
    return a[0] == b[0] and a[0] in BITS and a[1] == b[1]


def bits(like, v):
    return (like[0], like[1], v % (1 << like[1]))


def op_and(a, b):
    if a[0] == b[0] == "bool":
        return B(a[1] and b[1])
    if same_bits(a, b):
        return bits(a, a[2] & b[2])
    return STUCK


def op_or(a, b):
    if a[0] == b[0] == "bool":
        return B(a[1] or b[1])
    if same_bits(a, b):
        return bits(a, a[2] | b[2])
    return STUCK


def op_xor(a, b):
    if a[0] == b[0] == "bool":
        return B(a[1] != b[1])
    if same_bits(a, b):
        return bits(a, a[2] ^ b[2])
    return STUCK


def op_not(a):
    if a[0] == "bool":
        return B(not a[1])
    if a[0] in BITS:
        return bits(a, ~a[2])
    return STUCK


def op_add(a, b):
    if a[0] == b[0] and a[0] in ARITH:
        return (a[0], a[1] + b[1])
    if same_bits(a, b):
        return bits(a, a[2] + b[2])
    return STUCK


def op_mul(a, b):
    if a[0] == b[0] and a[0] in ARITH:
        return (a[0], a[1] * b[1])
    if same_bits(a, b):
        return bits(a, a[2] * b[2])
    return STUCK


def op_neg(a):
    if a[0] in ARITH:
        return (a[0], -a[1])
    if a[0] in BITS:
        return bits(a, -a[2])
    return STUCK


def op_qdiv(a, b):
    if a[0] == b[0] and a[0] in ARITH and b[1] != 0:
        return rat(Fraction(a[1]) / Fraction(b[1]))
    return STUCK


def op_zdiv(a, b):
    if a[0] == b[0] == "num" and b[1] != 0:
        # SMT-LIB integer division: floor for positive divisors
        q = a[1] // b[1] if b[1] > 0 else -(a[1] // -b[1])
        return num(q)
    if same_bits(a, b):
        return bits(a, -1) if b[2] == 0 else bits(a, a[2] // b[2])
    return STUCK


def op_zmod(a, b):
    if a[0] == b[0] == "num" and b[1] != 0:
        return num(a[1] % abs(b[1]))
    if same_bits(a, b):
        return a if b[2] == 0 else bits(a, a[2] % b[2])
    return STUCK


def op_is_neg(a):
    if a[0] in ARITH:
        return B(a[1] < 0)
    return STUCK


def op_gt(a, b):
    if a[0] == b[0] and a[0] in ARITH:
        return B(a[1] > b[1])
    return STUCK


def op_len(a):
    if a[0] == "bin":
        return num(a[1])
    if a[0] == "str":
        return num(len(a[1]))
    return STUCK


def op_concat(a, b):
    if a[0] == b[0] == "str":
        return strv(a[1] + b[1])
    if a[0] == b[0] and a[0] in BITS:
        return (a[0], a[1] + b[1], (a[2] << b[1]) | b[2])
    return STUCK


def op_extract(a, i, j):
    if i[0] != "num" or j[0] != "num":
        return STUCK
    lo, hi = i[1], j[1]
    if a[0] == "str":
        if lo < 0 or hi < lo:
            return strv(())
        return strv(a[1][lo:hi + 1])
    if a[0] == "bin":
        hi = min(hi, a[1] - 1)
        if lo < 0 or hi < lo:
            return binv(0, 0)
        return binv(hi - lo + 1, a[2] >> lo)
    return STUCK


def op_find(a, b):
    if a[0] == b[0] == "str":
        s, t = a[1], b[1]
        for k in range(0, len(s) - len(t) + 1):
            if s[k:k + len(t)] == t:
                return num(k)
        return num(-1)
    return STUCK


def op_to_z(a):
    if a[0] == "num":
        return a
    if a[0] == "rat":
        return num(math.floor(a[1]))
    if a[0] == "bin":
        return num(a[2])
    if a[0] == "str" and len(a[1]) == 1:
        return num(a[1][0])
    return STUCK


def op_to_q(a):
    if a[0] == "rat":
        return a
    if a[0] == "num":
        return rat(a[1])
    return STUCK


def op_to_bin(w, a):
    if w[0] != "num" or not (0 <= w[1] < 2 ** 32):
        return STUCK
    if a[0] == "bin" or (a[0] == "num" and a[1] >= 0):
        return binv(w[1], a[2] if a[0] == "bin" else a[1])
    return STUCK


def op_to_str(a):
    if a[0] == "str":
        return a
    if a[0] == "num":
        return strv((a[1],)) if 0 <= a[1] <= 196607 else STUCK
    if a[0] == "rat":
        return sstr("%d/%d" % (a[1].numerator, a[1].denominator))
    if a[0] in BITS:
        return sstr(show(a).lower() if a[1] else "#b")
    return STUCK


def rank(kind):
    def f(a):
        return B(a is not STUCK and a[0] == kind)
    return f


# name -> (arity, function, strict)
STRICT = {
    "and": (2, op_and), "or": (2, op_or), "xor": (2, op_xor), "not": (1, op_not),
    "add": (2, op_add), "mul": (2, op_mul), "neg": (1, op_neg), "qdiv": (2, op_qdiv),
    "zdiv": (2, op_zdiv), "zmod": (2, op_zmod), "is_neg": (1, op_is_neg), "gt": (2, op_gt),
    "len": (1, op_len), "concat": (2, op_concat), "extract": (3, op_extract), "find": (2, op_find),
    "to_z": (1, op_to_z), "to_q": (1, op_to_q), "to_bin": (2, op_to_bin), "to_str": (1, op_to_str),
    "eq": (2, lambda a, b: B(a == b)),
}
LAZY = {
    "is_ok": (1, lambda a: B(a is not STUCK)),
    "is_eq": (2, lambda a, b: B(a is not STUCK and a == b)),
    "is_z": (1, rank("num")), "is_q": (1, rank("rat")), "is_bin": (1, rank("bin")),
    "is_str": (1, rank("str")), "is_bool": (1, rank("bool")),
    "is_var": (1, lambda a: FALSE),
    "requires": (3, lambda a, b, c: c if a is not STUCK and a == b else STUCK),
    "ite": (3, lambda a, b, c: (b if a[1] else c) if a is not STUCK and a[0] == "bool" else STUCK),
}
NARY = ("and", "or", "xor", "add", "mul", "concat")


def apply(op, args):
    """Value of (eo::op args...) or STUCK. n-ary forms associate left."""
    if op in NARY and len(args) > 2:
        r = apply(op, args[:2])
        for a in args[2:]:
            r = apply(op, [r, a])
        return r
    if op in LAZY:
        return LAZY[op][1](*args)
    if any(a is STUCK for a in args):
        return STUCK
    return STRICT[op][1](*args)


ARITY = {k: v[0] for k, v in list(STRICT.items()) + list(LAZY.items())}
