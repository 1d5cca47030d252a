"""Terms of the reference models.

  ('s', name)            symbol
  ('num'|'rat'|'dec'|'bin'|'hex'|'str'|'bool', ...)   literal (see values.py)
  ('@', f, x)            (curried) application
  ('v', name, typetext)  bound variable
"""
import values as V


def S(name):
    return ("s", name)


def A(f, *xs):
    for x in xs:
        f = ("@", f, x)
    return f


def fold(r, f, xs, nil, left=False):
    """The f-list with head-first children xs (for left associative operators
    the head is the outermost, i.e. last written, argument)."""
    t = nil
    for x in reversed(xs):
        t = A(f, t, x) if left else A(f, x, t)
    return t


def show(t):
    k = t[0]
    if k == "s":
        return t[1]
    if k == "@":
        return "(_ %s %s)" % (show(t[1]), show(t[2]))
    if k == "p":
        return t[1]
    if k == "e":
        return "(%s%s %s)" % ("" if t[1][0] == "$" else "eo::", t[1], " ".join(show(x) for x in t[2:]))
    if k == "v":
        return '(eo::var "%s" %s)' % (t[1], t[2])
    return V.show(t)


def size(t):
    return 1 + size(t[1]) + size(t[2]) if t[0] == "@" else 1


def spine(t):
    xs = []
    while t[0] == "@":
        xs.append(t[2])
        t = t[1]
    return t, xs[::-1]
