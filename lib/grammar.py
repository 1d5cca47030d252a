"""A recogniser for the syntax of Eunoia files, after the appendix `Full syntax
for Eunoia commands` of the user manual. It only says which token sequences are
outside of the grammar: everything the grammar leaves open (the values of
attributes, the meaning of terms) is accepted here."""

KEY, SYM, NUM, STR, LIT = "key", "sym", "num", "str", "lit"


class Bad(Exception):
    pass


def tree(tokens):
    """[(kind, text)] with '(' and ')' to nested lists; Bad when unbalanced."""
    stack = [[]]
    for k, t in tokens:
        if k == "(":
            stack.append([])
        elif k == ")":
            if len(stack) == 1:
                raise Bad("unexpected )")
            x = stack.pop()
            stack[-1].append(x)
        else:
            stack[-1].append((k, t))
    if len(stack) != 1:
        raise Bad("unclosed (")
    return stack[0]


def is_atom(x, k):
    return isinstance(x, tuple) and x[0] == k


def sym(x):
    if not is_atom(x, SYM):
        raise Bad("symbol expected")


def num(x):
    if not is_atom(x, NUM):
        raise Bad("numeral expected")


def lst(x, f, least=0):
    if not isinstance(x, list) or len(x) < least:
        raise Bad("list expected")
    for y in x:
        f(y)


def term(x, arg=False):
    """Arguments may be variable lists, whose elements are not terms."""
    if isinstance(x, tuple):
        if x[0] == KEY:
            raise Bad("term expected")
        return
    if not x:
        if arg:
            return
        raise Bad("term expected")
    if is_atom(x[0], SYM) and x[0][1] == "!":
        if len(x) < 3:
            raise Bad("attribute expected")
        term(x[1])
        attrs(x[2:])
        return
    if isinstance(x[0], tuple) and x[0][0] != SYM:
        raise Bad("literal as head")
    for y in x:
        term(y, True)


def sexpr(x):
    pass


def attrs(xs):
    i = 0
    while i < len(xs):
        if not is_atom(xs[i], KEY):
            raise Bad("keyword expected")
        i += 1
        if i < len(xs) and not is_atom(xs[i], KEY):
            i += 1


def typed_param(x):
    if not isinstance(x, list) or len(x) < 2:
        raise Bad("parameter expected")
    sym(x[0])
    term(x[1])
    attrs(x[2:])


def pair(x):
    if not isinstance(x, list) or len(x) != 2:
        raise Bad("pair expected")
    term(x[0])
    term(x[1])


def sort_dec(x):
    if not isinstance(x, list) or len(x) != 2:
        raise Bad("sort declaration expected")
    sym(x[0])
    num(x[1])


def sel_dec(x):
    if not isinstance(x, list) or len(x) != 2:
        raise Bad("selector expected")
    sym(x[0])
    term(x[1])


def cons_dec(x):
    if not isinstance(x, list) or not x:
        raise Bad("constructor expected")
    sym(x[0])
    for y in x[1:]:
        sel_dec(y)


def dt_dec(x):
    if isinstance(x, list) and x and is_atom(x[0], SYM) and x[0][1] == "par":
        if len(x) != 3:
            raise Bad("datatype expected")
        lst(x[1], sym)
        x = x[2]
    lst(x, cons_dec, 1)


def fixed(xs, fs):
    if len(xs) != len(fs):
        raise Bad("wrong number of arguments")
    for x, f in zip(xs, fs):
        f(x)


def string(x):
    if not is_atom(x, STR):
        raise Bad("string expected")


def after(xs, i, f=None, n=1):
    """The n values that follow a keyword at i."""
    if i + n > len(xs):
        raise Bad("value expected")
    for x in xs[i:i + n]:
        f(x)
    return i + n


def command(x):
    if not isinstance(x, list) or not x or not is_atom(x[0], SYM):
        raise Bad("command expected")
    c, a = x[0][1], x[1:]
    opt = lambda f: [f] if a else []
    if c in ("assume", "assume-push"):
        fixed(a, [sym, term])
    elif c == "declare-consts":
        fixed(a, [sym, term])
    elif c == "declare-const":
        if len(a) < 2:
            raise Bad("arguments")
        fixed(a[:2], [sym, term])
        attrs(a[2:])
    elif c == "declare-parameterized-const":
        if len(a) < 3:
            raise Bad("arguments")
        fixed(a[:3], [sym, lambda y: lst(y, typed_param), term])
        attrs(a[3:])
    elif c == "declare-datatype":
        fixed(a, [sym, dt_dec])
    elif c == "declare-datatypes":
        fixed(a, [lambda y: lst(y, sort_dec, 1), lambda y: lst(y, dt_dec, 1)])
        if len(a[0]) != len(a[1]):
            raise Bad("number of datatypes")
    elif c == "declare-sort":
        fixed(a, [sym, num])
    elif c == "declare-rule":
        if len(a) < 2:
            raise Bad("arguments")
        fixed(a[:2], [sym, lambda y: lst(y, typed_param)])
        i = 2
        key = lambda *ks: i < len(a) and is_atom(a[i], KEY) and a[i][1] in ks
        terms = lambda y: lst(y, term)
        if key(":assumption"):
            i = after(a, i + 1, term)
        if key(":premises"):
            i = after(a, i + 1, terms)
        elif key(":premise-list"):
            i = after(a, i + 1, term, 2)
        if key(":args"):
            i = after(a, i + 1, terms)
        if key(":requires"):
            i = after(a, i + 1, lambda y: lst(y, pair))
        if not key(":conclusion", ":conclusion-explicit"):
            raise Bad("conclusion expected")
        i = after(a, i + 1, term)
        attrs(a[i:])
    elif c == "define":
        if len(a) < 3:
            raise Bad("arguments")
        fixed(a[:3], [sym, lambda y: lst(y, typed_param), term])
        attrs(a[3:])
    elif c == "include":
        fixed(a, [string])
    elif c == "reference":
        fixed(a, [string, term][:max(1, len(a))])
    elif c == "program":
        # without cases it is a forward declaration
        if len(a) not in (5, 6):
            raise Bad("arguments")
        fixed(a[:2], [sym, lambda y: lst(y, typed_param)])
        if a[2] != (KEY, ":signature"):
            raise Bad("signature expected")
        lst(a[3], term, 1)
        term(a[4])
        if len(a) == 6:
            lst(a[5], pair, 1)
    elif c in ("step", "step-pop"):
        if not a:
            raise Bad("arguments")
        sym(a[0])
        i = 1
        if i < len(a) and not is_atom(a[i], KEY):
            term(a[i])
            i += 1
        if a[i:i + 1] != [(KEY, ":rule")]:
            raise Bad("rule expected")
        i = after(a, i + 1, sym)
        terms = lambda y: lst(y, term)
        if a[i:i + 1] == [(KEY, ":premises")]:
            i = after(a, i + 1, terms)
        if a[i:i + 1] == [(KEY, ":args")]:
            i = after(a, i + 1, terms)
        if i != len(a):
            raise Bad("end of step expected")
    elif c == "echo":
        fixed(a, [string] if a else [])
    elif c in ("exit", "reset"):
        fixed(a, [])
    elif c in ("push", "pop"):
        fixed(a, [num] if a else [])
    elif c == "set-option":
        if len(a) not in (1, 2) or not is_atom(a[0], KEY):
            raise Bad("attribute expected")
    else:
        raise Bad("no such command")
    return c


COMMON = ("declare-const", "declare-datatype", "declare-datatypes", "declare-sort", "echo", "exit", "reset", "set-option", "push", "pop")


def refcommand(x):
    """A command of a reference file."""
    if not isinstance(x, list) or not x or not is_atom(x[0], SYM):
        raise Bad("command expected")
    c, a = x[0][1], x[1:]
    if c in COMMON:
        return command(x)
    if c == "assert":
        fixed(a, [term])
    elif c == "check-sat":
        fixed(a, [])
    elif c == "check-sat-assuming":
        fixed(a, [lambda y: lst(y, term)])
    elif c == "declare-fun":
        fixed(a, [sym, lambda y: lst(y, term), term])
    elif c == "define-const":
        fixed(a, [sym, term, term])
    elif c == "define-fun":
        fixed(a, [sym, lambda y: lst(y, typed_param), term, term])
    elif c == "define-sort":
        fixed(a, [sym, lambda y: lst(y, sym), term])
    elif c == "set-logic":
        fixed(a, [sym])
    elif c == "set-info":
        if len(a) not in (1, 2) or not is_atom(a[0], KEY):
            raise Bad("attribute expected")
    else:
        raise Bad("no such command")
    return c


def check(tokens, command=command):
    """Is the token sequence outside of the grammar?  What follows an exit
    command is not read."""
    depth, start = 0, 0
    for i, (k, t) in enumerate(tokens):
        if k == "(":
            if depth == 0:
                start = i
            depth += 1
        elif k == ")":
            depth -= 1
            if depth < 0:
                raise Bad("unexpected )")
            if depth == 0 and command(tree(tokens[start:i + 1])[0]) == "exit":
                return
        elif depth == 0:
            raise Bad("command expected")
    if depth:
        raise Bad("unclosed (")


def outside(tokens, ref=False):
    try:
        check(tokens, refcommand if ref else command)
        return None
    except Bad as e:
        return str(e)
