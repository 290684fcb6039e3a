"""Linear normal forms of terms."""
from fractions import Fraction

from .terms import *  # noqa


def num(v):
    return is_c(v) and isinstance(v[2], (int, float)) and \
        not isinstance(v[2], bool)


class Lin(object):
    __slots__ = ('t', 'k')

    def __init__(self, t=None, k=0):
        self.t = dict((a, c) for a, c in (t or {}).items() if c)
        self.k = Fraction(k)

    def __add__(self, o):
        t = dict(self.t)
        for a, c in o.t.items():
            t[a] = t.get(a, 0) + c
        return Lin(t, self.k + o.k)

    def scale(self, f):
        return Lin(dict((a, c * f) for a, c in self.t.items()), self.k * f)

    def __sub__(self, o):
        return self + o.scale(-1)

    def __eq__(self, o):
        return self.t == o.t and self.k == o.k

    def __hash__(self):
        return hash((frozenset(self.t.items()), self.k))

    def const(self):
        return not self.t

    def show(self):
        s = ' '.join('%+g*%s' % (float(c), show(a))
                     for a, c in sorted(self.t.items(), key=repr))
        return (s + ' %+g' % float(self.k)) if self.k or not s else s


def lin(v):
    """The linear form of a term; what is not linear is an atom."""
    if num(v):
        return Lin({}, Fraction(v[2]))
    if v[0] == 'op' and len(v) == 4:
        op = v[1]
        if op in '+-':
            a, b = lin(v[2]), lin(v[3])
            return a + b if op == '+' else a - b
        if op == '*':
            a, b = lin(v[2]), lin(v[3])
            if a.const():
                return b.scale(a.k)
            if b.const():
                return a.scale(b.k)
        if op == '/':
            a, b = lin(v[2]), lin(v[3])
            if b.const() and b.k:
                return a.scale(1 / b.k)
    if v[0] == 'op' and len(v) == 3 and v[1] == 'neg':
        return lin(v[2]).scale(-1)
    if v[0] == 'call' and v[1] in ('builtins.float', 'builtins.sum') and \
            len(v[3]) == 1 and v[1] == 'builtins.float':
        return lin(v[3][0])
    if v[0] == 'sum' and all(p[0] == 'one' for p in v[2]):
        out = lin(v[1])
        for p in v[2]:
            out = out + lin(p[1])
        return out
    return Lin({v: Fraction(1)})


def facts_lin(st):
    """Linear forms which are known: [(form, '<' | '<=' | '==')] meaning
    form < 0, form <= 0, form == 0."""
    out = []
    for k, val in st.facts.items():
        if k[0] != 'cmp' or k[1] not in ('<', '>', '=='):
            continue
        d = lin(k[2]) - lin(k[3])
        if k[1] == '<':
            out.append((d, '<') if val else (d.scale(-1), '<='))
        elif k[1] == '>':
            out.append((d.scale(-1), '<') if val else (d, '<='))
        elif val:
            out.append((d, '=='))
    return out


def nonpos(st, form):
    """Whether form <= 0 is known on the path."""
    if form.const():
        return form.k <= 0
    for d, op in facts_lin(st):
        if d == form or (op == '==' and d == form.scale(-1)):
            return True
    return False


def nonneg(st, form):
    return nonpos(st, form.scale(-1))
