"""How numbers are rendered: C43."""
import math
import string
from fractions import Fraction

from ..core import *  # noqa
from ..core import Undecided
from ..lin import Lin
from ..value import Unknown, feasible, value
from .helpers import func_site
from .view import Views, deep

#: kind -> unit -> what it stands for.
UNITS = {
    'time': {'ns': Fraction(1, 10 ** 9), 'us': Fraction(1, 10 ** 6),
             'ms': Fraction(1, 1000), 'msec': Fraction(1, 1000),
             'usec': Fraction(1, 10 ** 6), 'sec': Fraction(1),
             's': Fraction(1), 'm': Fraction(60), 'min': Fraction(60),
             'h': Fraction(3600), 'hour': Fraction(3600)},
    'int': dict([('', Fraction(1)), ('K', Fraction(1000))] + [
        (u, Fraction(1000 ** (i + 1))) for i, u in enumerate('kMGTPEZY')]),
    'percent': {'': Fraction(1, 100), '%': Fraction(1, 100)},
}

INF = float('inf')
TINY = Fraction(1, 10 ** 9)

#: Numbers to look for a wrong text with.
SAMPLE = sorted(set(
    [Fraction(0)] + [Fraction(m) * Fraction(10) ** k for k in range(-7, 27)
                     for m in ('1', '1.5', '2', '5', '9.4', '9.96', '9.996',
                               '9.9996', '9.99996')] +
    [Fraction(x) for x in ('59.94', '59.97', '60', '61', '75', '119', '599',
                           '600', '601', '3599', '3600', '5000', '86400',
                           '0.0949', '0.0951', '0.9949', '0.9951')]))


# -- texts

def pieces(v):
    """The literal texts and (number, precision) of a text; None: unknown."""
    out = []

    def lit(x):
        if out and isinstance(out[-1], str):
            out[-1] += x
        elif x:
            out.append(x)

    def number(x, spec, printf=False):
        if is_c(x) and isinstance(x[2], str):
            if spec not in ('', 's'):
                raise Undecided('format')
            return lit(x[2])
        if spec in ('d', 'i') and printf:
            return out.append((('call', 'builtins.int', None, (x,), ()), 0))
        if spec in ('d', '.0f'):
            return out.append((x, 0))
        if spec in ('', 's') and x[0] == 'call' and \
                x[1] == 'builtins.round' and len(x[3]) == 2 and \
                is_c(x[3][1]) and x[3][1][2] == 1:
            return out.append((x, 1))
        if len(spec) == 3 and spec[0] == '.' and spec[1].isdigit() and \
                spec[2] == 'f':
            return out.append((x, int(spec[1])))
        if spec in ('', 's') and x[0] == 'call' and x[1] in (
                'builtins.int', 'math.floor') or (
                spec == '' and x[0] == 'call' and x[1] == 'builtins.round' and
                len(x[3]) == 1):
            return out.append((x, 0))
        raise Undecided('format %r' % spec)

    def whole(x):
        if not is_c(x) or not isinstance(x[2], int):
            raise Undecided('format')
        return x[2]

    def put(v):
        if is_c(v) and isinstance(v[2], str):
            lit(v[2])
        elif v[0] == 'op' and v[1] == '+' and len(v) == 4:
            put(v[2])
            put(v[3])
        elif v[0] == 'op' and v[1] == '%' and is_c(v[2]) and \
                isinstance(v[2][2], str) or v[0] == 'call' and \
                v[1] == '.%' and is_c(v[2]) and isinstance(v[2][2], str):
            args = v[3][1] if v[3][0] == 't' else v[3] \
                if v[0] == 'call' else [v[3]]
            if len(args) == 1 and args[0][0] == 't':
                args = args[0][1]
            args = list(args)
            text = v[2][2]
            while text:
                a, mark, rest = text.partition('%')
                lit(a)
                if not mark:
                    break
                if rest[:1] == '%':
                    lit('%')
                    text = rest[1:]
                    continue
                n = 0
                while n < len(rest) and rest[n] in '.0123456789*':
                    n += 1
                spec = rest[:n + 1]
                while '*' in spec:
                    spec = spec.replace('*', str(whole(args.pop(0))), 1)
                number(args.pop(0), spec, True)
                text = rest[n + 1:]
        elif v[0] == 'call' and v[1] == '.format' and v[2] is not None and \
                is_c(v[2]):
            n, kw = 0, dict(v[4])
            for a, field, spec, conv in string.Formatter().parse(v[2][2]):
                lit(a)
                if field is None:
                    continue
                if conv:
                    raise Undecided('format')
                full, found = '', []
                for b, f, sp, c in [('', field, None, None)] + list(
                        string.Formatter().parse(spec)):
                    full += b
                    if f is None:
                        continue
                    if c or sp:
                        raise Undecided('format')
                    if f == '':
                        found.append(v[3][n])
                        n += 1
                    elif f.isdigit():
                        found.append(v[3][int(f)])
                    else:
                        found.append(kw[f])
                    if len(found) > 1:
                        full += str(whole(found[-1]))
                number(found[0], full)
        elif v[0] == 'call' and v[1] == 'builtins.format' and \
                len(v[3]) == 2 and is_c(v[3][1]):
            number(v[3][0], v[3][1][2])
        elif v[0] == 'call' and v[1] == 'builtins.str' and len(v[3]) == 1:
            number(v[3][0], '')
        elif v[0] == 'call' and v[1] == '.join' and v[2] is not None and \
                is_c(v[2]) and v[2][2] == '' and v[3] and \
                v[3][0][0] == 't':
            for x in v[3][0][1]:
                put(x)
        else:
            raise Undecided('text')
    try:
        put(v)
    except (Undecided, LookupError, ValueError, TypeError):
        return None
    return out


def amounts(kind, text):
    """[(number, precision, unit)] of the pieces of a text; None: unknown."""
    out = []
    i = 0
    while i < len(text):
        if isinstance(text[i], str):
            return None
        unit = ''
        if i + 1 < len(text) and isinstance(text[i + 1], str):
            unit = text[i + 1].strip()
        x, p = text[i]
        out.append((x, p, unit))
        i += 2 if unit or i + 1 < len(text) and isinstance(
            text[i + 1], str) else 1
    if any(u not in UNITS[kind] for x, p, u in out):
        return None
    return out


# -- terms

def plain(v):
    """Without conversions to float."""
    while v[0] == 'call' and v[1] == 'builtins.float' and len(v[3]) == 1:
        v = v[3][0]
    if v[0] == 'op':
        v = v[:2] + tuple(plain(x) for x in v[2:])
    elif v[0] == 'call' and v[3]:
        v = v[:3] + (tuple(plain(x) for x in v[3]),) + v[4:]
    return v


def decimal(v):
    """The number which a constant is meant to be."""
    return Fraction(repr(v[2])) if isinstance(v[2], float) else Fraction(
        v[2])


def about(v, base):
    """(linear form in the number, error); whole quotients are atoms."""
    if v == base:
        return Lin({base: Fraction(1)}), Fraction(0)
    if is_c(v) and isinstance(v[2], (int, float)):
        return Lin({}, decimal(v)), Fraction(0)
    if v[0] == 'op' and len(v) == 3 and v[1] in ('neg', 'pos'):
        a, e = about(v[2], base)
        return a.scale(-1 if v[1] == 'neg' else 1), e
    if v[0] == 'op' and len(v) == 4:
        a, e = about(v[2], base)
        b, f = about(v[3], base)
        if v[1] == '+':
            return a + b, e + f
        if v[1] == '-':
            return a - b, e + f
        if v[1] == '*' and b.const() and not f:
            return a.scale(b.k), e * abs(b.k)
        if v[1] == '*' and a.const() and not e:
            return b.scale(a.k), f * abs(a.k)
        if b.const() and b.k > 0 and not f:
            if v[1] == '/':
                return a.scale(1 / b.k), e / b.k
            if not e and v[1] in ('//', '%'):
                q = ('quotient', a, b.k)
                if v[1] == '//':
                    return Lin({q: Fraction(1)}), Fraction(0)
                return a - Lin({q: b.k}), Fraction(0)
    if v[0] == 'i' and is_c(v[2]) and v[1][0] == 'call' and \
            v[1][1] == 'builtins.divmod' and len(v[1][3]) == 2:
        op = {0: '//', 1: '%'}[v[2][2]]
        return about(('op', op) + tuple(v[1][3]), base)
    if v[0] == 'call' and v[1] in ('builtins.int', 'math.floor',
                                   'math.trunc', 'math.ceil') and \
            len(v[3]) == 1:
        a, e = about(v[3][0], base)
        if not e and len(a.t) == 1 and list(a.t.items())[0][1] == 1 and \
                list(a.t)[0][0] == 'quotient' and not a.k:
            return a, e         # whole already
        r = v[3][0]
        if r[0] == 'call' and r[1] == 'builtins.round' and (
                len(r[3]) == 1 or r[3][1] in (C(0), C(None))):
            return a, e
        return a, e + 1
    if v[0] == 'call' and v[1] == 'builtins.round' and v[3]:
        n = v[3][1][2] if len(v[3]) > 1 and is_c(v[3][1]) else 0
        a, e = about(v[3][0], base)
        return a, e + Fraction(1, 2) / Fraction(10) ** n
    raise Undecided(show(v))


def off(rest, base):
    """How far a form may be from zero; None: any."""
    t = dict((a, c) for a, c in rest.t.items() if abs(c) > Fraction(
        1, 10 ** 20))
    if not t and abs(rest.k) < Fraction(1, 10 ** 20):
        return Fraction(0)
    q = [a for a in t if a[0] == 'quotient']
    if len(q) == 1 and not rest.k:
        # k * (a - b * (a // b))
        __, a, b = q[0]
        k = -t[q[0]] / b
        other = Lin(dict((x, c) for x, c in t.items() if x != q[0]))
        if other == a.scale(k):
            return abs(k) * b
    return None


def bounds(s, base):
    """What is known of the size of the number: at least, at most."""
    lo, hi = Fraction(0), INF
    signed = sign(s, base) != 1
    for (atom, val) in list(s.facts.items()):
        if atom[0] != 'cmp' or atom[1] not in ('<', '>', '<=', '>=', '=='):
            continue
        op, a, b = atom[1:4]
        a, b = plain(a), plain(b)
        if is_c(a):
            a, b = b, a
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '=='}[op]
        if not is_c(b) or isinstance(b[2], (str, bytes, bool)) or \
                b[2] is None:
            continue
        if op == '==':
            if val and a == base:
                lo = hi = abs(decimal(b))
            continue
        if not val:
            op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<'}[op]
        c = decimal(b)
        both = False
        while a != base:
            if a[0] == 'call' and a[1] == 'builtins.abs' and a[3]:
                a = a[3][0]
                both = True
                if c < 0:
                    break
            elif a[0] == 'call' and a[1] == 'builtins.round' and a[3]:
                n = a[3][1][2] if len(a[3]) > 1 and is_c(a[3][1]) else 0
                step = Fraction(1) / Fraction(10) ** n
                if op in ('<', '>'):
                    # the next which it is rounded to.
                    k = c / step
                    k = math.ceil(k) - 1 if op == '<' else math.floor(k) + 1
                else:
                    k = c / step
                    k = math.floor(k) if op == '<=' else math.ceil(k)
                c = k * step + (step / 2 if op[0] == '<' else -step / 2)
                op = op[0] + '='
                a = a[3][0]
            elif a[0] == 'op' and len(a) == 4 and a[1] in '*/' and \
                    is_c(a[3]) and decimal(a[3]) > 0:
                k = decimal(a[3])
                c = c * k if a[1] == '/' else c / k
                a = a[2]
            elif a[0] == 'op' and len(a) == 4 and a[1] == '*' and \
                    is_c(a[2]) and decimal(a[2]) > 0:
                c = c / decimal(a[2])
                a = a[3]
            else:
                break
        if a != base:
            continue
        if op[0] == '<':
            if both or not signed or c < 0:
                hi = min(hi, c)
        else:
            lo = max(lo, c)
    return lo, hi


def sign(s, base):
    """1: not negative; -1: not positive; None: unknown."""
    if base[0] == 'op' and base[1] == '/' and not is_c(base[3]):
        a, b = sign(s, base[2]), sign(s, base[3])
        return a and b and a * b
    for (a, val) in s.facts.items():
        if a[0] != 'cmp' or a[1] not in ('<', '>', '<=', '>='):
            continue
        op, x, c = a[1:4]
        x, c = plain(x), plain(c)
        if is_c(x):
            x, c = c, x
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
        if not is_c(c) or c[2] != 0:
            continue
        while x[0] == 'op' and len(x) == 4 and x[1] in '*/' and \
                is_c(x[3]) and x[3][2] > 0:
            x = x[2]
        if x == base:
            return 1 if (op[0] == '>') == val else -1
    return None


def rounded(x, p):
    return Fraction(round(x * 10 ** p)) / 10 ** p if p else Fraction(
        round(x))


class Judge(object):

    def __init__(self, cx, kind, name, base, envs, loc):
        self.cx, self.kind, self.name = cx, kind, name
        self.base, self.envs, self.loc = base, envs, loc
        self.of = lambda env: value(base, env)

    def samples(self, s):
        """[(environment, the number)] of this path."""
        for env in self.envs:
            try:
                if feasible(s.facts, env) and feasible(s.facts, dict(
                        (k, float(v)) for k, v in env.items())):
                    yield env, self.of(env)
            except (Unknown, ZeroDivisionError):
                continue

    def ob(self, what, sure, wrong, s, msg):
        """sure: proved; wrong(env, number): shown to be wrong."""
        what = '%s: %s' % (self.name, what)
        if sure:
            self.cx.ob(what, True)
            return
        for env, x in self.samples(s):
            try:
                bad = wrong(env, x)
            except (Unknown, ZeroDivisionError, OverflowError):
                continue
            if bad:
                self.cx.ob(what, False, '%s for %s' % (
                    msg if bad is True else bad, float(x)), self.loc)
                return
        self.cx.ob(what, None, msg, self.loc)

    def path(self, s, v):
        lo, hi = bounds(s, self.base)
        if lo > hi:
            return None
        text = pieces(v)
        if text is None:
            self.cx.ob('%s: text' % self.name, None, 'is %s' % show(v)[:100],
                       self.loc)
            return None
        if all(isinstance(x, str) for x in text):
            self.constant(s, ''.join(text), lo, hi)
            return None
        parts = amounts(self.kind, [plain_piece(x) for x in text])
        if parts is None:
            self.cx.ob('%s: unit' % self.name, None, 'of %s' % show(v)[:100],
                       self.loc)
            return None
        self.amount(s, parts, lo, hi)
        return parts

    def nothing(self, s):
        """Whether it is a share of nothing on this path."""
        b = self.base
        return b[0] == 'op' and b[1] == '/' and (
            s.facts.get(('truth', b[3], 0)) is False or
            self.cx_eq(s, b[3]))

    @staticmethod
    def cx_eq(s, d):
        return any(val and a[0] == 'cmp' and a[1] == '==' and
                   plain(a[2]) == d and is_c(a[3]) and a[3][2] == 0
                   for a, val in s.facts.items() if len(a) > 3)

    def constant(self, s, text, lo, hi):
        number = text.rstrip('%')
        what = 'text %s' % text
        if text in ('o/f', 'u/f'):
            top = max(UNITS['int'].values())
            self.ob(what, lo >= Fraction('999.9') * top and sign(
                s, self.base) == (1 if text == 'o/f' else -1),
                    lambda env, x: abs(x) < Fraction('999.9') * top or
                    (x < 0) == (text == 'o/f'), s, 'is shown')
            return
        try:
            zero = float(number) == 0
        except ValueError:
            zero = text == 'n/a'
        if zero:
            self.ob(what, hi == 0 or self.nothing(s),
                    lambda env, x: x != 0, s, 'is shown')
        else:
            self.cx.ob('%s: %s' % (self.name, what),
                       False if self.nothing(s) else None,
                       'is shown for a share of nothing', self.loc)

    def amount(self, s, parts, lo, hi):
        units = UNITS[self.kind]
        what = ' '.join('.%df%s' % (p, u) for x, p, u in parts)
        scale = [units[u] for x, p, u in parts]
        p = parts[-1][1]
        digit = scale[-1] / 10 ** p

        def shown(env):
            return [value(x, dict(env, **{})) for x, pp, u in parts]
        try:
            total, err = Lin(), Fraction(0)
            forms = []
            for (x, pp, u), k in zip(parts, scale):
                a, e = about(x, self.base)
                forms.append(a)
                total, err = total + a.scale(k), err + e * k
            far = off(Lin({self.base: Fraction(1)}) - total, self.base)
            sure = far is not None and far + err <= digit
        except (Undecided, LookupError, TypeError):
            sure, forms = False, None

        def wrong(env, x):
            got = sum(a * k for a, k in zip(shown(env), scale))
            if abs(got - x) > digit * Fraction('0.999999'):
                return 'shows %s' % ' '.join(
                    '%s%s' % (float(rounded(a, pp)), u)
                    for a, (y, pp, u) in zip(shown(env), parts))
        self.ob(what + ': the number', sure, wrong, s,
                'another number is shown')
        # the unit.
        first, p0 = scale[0], parts[0][1]
        used = self.used
        above = [k for k in used if k > first]
        most = min(above) / first if above else None
        least = any(k < first for k in used)
        if self.kind == 'percent':
            most, least = None, False
        self.ob(what + ': not more than one of the next unit',
                sure and (most is None or hi <= most * first),
                lambda env, x: most is not None and rounded(
                    abs(shown(env)[0]), p0) > most, s,
                'more than one of the next unit is shown')
        self.ob(what + ': at least one',
                sure and (not least or lo / first >= 1 - Fraction(
                    1, 2) / 10 ** p0),
                lambda env, x: least and x and rounded(
                    abs(shown(env)[0]), p0) < 1, s,
                'less than one of the unit is shown')
        for i in range(1, len(parts)):
            top = scale[i - 1] / scale[i]
            self.ob(what + ': %s below the next unit' % parts[i][2],
                    sure and isinstance(forms, list) and
                    below(forms[i], top),
                    lambda env, x: rounded(abs(shown(env)[i]), parts[i][1])
                    > top, s, 'more than one of the next unit is shown')
        if self.kind == 'time' and first == 60:
            self.ob(what + ': seconds below ten minutes only',
                    hi <= 600 if len(parts) > 1 else lo >= 600,
                    lambda env, x: (x < 600) == (len(parts) == 1), s,
                    'are%s shown' % ('' if len(parts) > 1 else ' not'))
        # a tenth where the documentation shows one.
        tenth = self.kind == 'time' and parts[0][2] in ('sec', 's') or \
            self.kind == 'int' and first > 1
        if tenth:
            self.ob(what + ': a tenth', p0 >= 1, lambda env, x: p0 < 1, s,
                    'tenths are not shown')
        width = {'percent': 4, 'int': 6}.get(self.kind)
        if width:
            top = min(hi, 99) if self.kind == 'percent' else hi
            more = len(parts[0][2].rstrip('%'))

            def chars(a):
                return len('%.*f' % (p0, abs(a))) + more
            self.ob(what + ': width', sure and top != INF and chars(
                float(rounded(top / first - TINY, p0))) <= width,
                lambda env, x: 0 <= x <= 99 * (
                    1 if self.kind == 'percent' else 10 ** 30) and chars(
                    float(shown(env)[0])) > width, s,
                'more than %d characters are shown' % width)


def below(form, top):
    """Whether it is a remainder of at most that."""
    q = [a for a in form.t if a[0] == 'quotient']
    if len(q) == 1:
        __, a, b = q[0]
        k = -form.t[q[0]] / b
        other = Lin(dict((x, c) for x, c in form.t.items() if x != q[0]))
        return not form.k and other == a.scale(k) and abs(k) * b <= top
    return False


def plain_piece(x):
    return x if isinstance(x, str) else (plain(x[0]), x[1])


FORMS = (('format_time', 'time'), ('format_int', 'int'),
         ('format_int_or_na', 'int'), ('format_percent', 'percent'))


@rule('C43', 'every path of each formatter for any number: the text is read '
      'as numbers with units; their sum is the number up to the last digit '
      '(a linear identity), the conditions of the path bound what is shown '
      'between one of its unit and one of the next, and the width')
def rendering(cx):
    w = Views(cx, opaque=False)
    I = w.I
    I.unroll_symbolic = True
    fmt = cx.cls(I, 'viewer.Formatter')
    x, d = S('x'), S('d')
    for name, kind in FORMS:
        loc = func_site(I, 'viewer.Formatter.' + name)
        calls = [('%s(x)' % name, x, [{x: v} for v in SAMPLE] + (
            [{x: -v} for v in SAMPLE] if kind == 'int' else []))]
        if kind == 'percent':
            calls.append(('%s(x, unit=True)' % name, x, calls[0][2]))
            calls.append(('%s(x, d)' % name, ('op', '/', x, d),
                          [{x: v, d: Fraction(k)} for v in SAMPLE[1:]
                           if v < 100 for k in (1, 2, 4, 50)]))
            calls.append(('%s(x, denom=d, unit=True)' % name,) +
                         calls[-1][1:])
        for src, base, envs in calls:
            st = w.st.fork()
            if kind != 'int':
                I.assume(st, I.mkcmp('<', x, C(0)), False)
                I.assume(st, I.mkcmp('<', d, C(0)), False)
            outs = w.run(st, 'r = F_.%s' % src, F_=fmt, x=x, d=d)
            judge = Judge(cx, kind, src, base, envs, loc)
            judge.used = set()
            todo = []
            for s, v, exc in outs:
                if exc is not None:
                    lo, hi = bounds(s, base)
                    if lo <= hi:
                        cx.ob(src, None if exc[0] == 'uexc' else False,
                              'raises %s' % show(exc[1]), loc)
                    continue
                if v['r'] == NONE:
                    lo, hi = bounds(s, base)
                    if lo <= hi:
                        cx.ob(src, False, 'gives no text', loc)
                    continue
                todo.append((s, v['r']))
                t = pieces(v['r'])
                a = t and amounts(kind, [plain_piece(y) for y in t]) \
                    if t and not all(isinstance(y, str) for y in t) else None
                for y, p, u in a or ():
                    judge.used.add(UNITS[kind][u])
            if not todo:
                cx.ob(src, None, 'no path', loc)
            for s, v in todo:
                judge.path(s, v)
            if 'unit=True' in src:
                for s, v in todo:
                    t = pieces(v)
                    if t is not None:
                        cx.ob(src + ': %', isinstance(t[-1], str) and
                              t[-1].strip().endswith('%'), 'no % is shown',
                              loc)


@rule('C43', 'a number and its display attribute together, for any number: '
      'one attribute per unit of time, and that of zero only for zero')
def attributes(cx):
    w = Views(cx, opaque=False)
    I = w.I
    I.unroll_symbolic = True
    fmt = cx.cls(I, 'viewer.Formatter')
    x = S('x')
    for name, kind in (('markup_time', 'time'), ('markup_int', 'int'),
                       ('markup_int_or_na', 'int'),
                       ('markup_percent', 'percent')):
        loc = func_site(I, 'viewer.Formatter.' + {
            'time': 'attr_time', 'int': 'attr_int',
            'percent': 'attr_ratio'}[kind])
        st = w.st.fork()
        I.assume(st, I.mkcmp('<', x, C(0)), False)
        seen = {}
        judge = Judge(cx, kind, name, x, [{x: v} for v in SAMPLE], loc)
        for s, v, exc in w.run(st, 'r = F_.%s(x)' % name, F_=fmt, x=x):
            lo, hi = bounds(s, x)
            if lo > hi:
                continue
            if exc is not None:
                cx.ob(name, None if exc[0] == 'uexc' else False,
                      'raises %s' % show(exc[1]), loc)
                continue
            m = v['r']
            if m[0] != 't' or len(m[1]) != 2:
                cx.ob(name, None, 'is %s' % show(m)[:80], loc)
                continue
            attr = deep(s, m[1][0])
            if attr == 'zero':
                judge.ob('attribute of zero', hi == 0 or s.facts.get(
                    ('truth', x, 0)) is False or kind == 'percent' and
                    hi <= 0, lambda env, n: n != 0, s, 'is given')
            elif kind != 'percent':
                judge.ob('attribute of others', lo > 0 or s.facts.get(
                    ('truth', x, 0)) is True or s.facts.get(
                    I.mkcmp('==', x, C(0))) is False,
                    lambda env, n: n == 0, s, 'zero has no attribute')
            t = pieces(m[1][1])
            if kind != 'time' or t is None or all(isinstance(y, str)
                                                  for y in t):
                continue
            a = amounts(kind, [plain_piece(y) for y in t])
            if a and [1 for env, n in judge.samples(s)]:
                seen.setdefault(UNITS[kind][a[0][2]], {}).setdefault(
                    attr, None)
        if kind != 'time':
            continue
        for unit, attrs in sorted(seen.items()):
            cx.ob('%s: attribute of the unit %s s' % (name, float(unit)),
                  len(attrs) == 1, 'it is one of %s' % ', '.join(
                      map(str, attrs)), loc)
        for a in sorted(set(str(b) for v in seen.values() for b in v)):
            us = [u for u, v in seen.items() if a in map(str, v)]
            cx.ob('%s: unit of the attribute %s' % (name, a), len(us) == 1,
                  'it stands for %d units' % len(us), loc)


@rule('C43', 'the columns of the tables hold what is formatted for them')
def fit(cx):
    for table in ('tracing', 'sampling'):
        w = Views(cx)
        st, v = w.one(w.st, '''
cols = [(c[0], c[2]) for c in cls.table_class.columns]
''', cls=w.env[table])
        loc = func_site(w.I, 'viewer.StatisticsTable.make_columns')
        last = None
        for name, width in deep(st, v['cols']):
            need = 4 if name == '%' else 6 if name == 'CALLS' or \
                table == 'sampling' and name in ('OWN', 'DEEP') else 0
            if not need:
                continue
            if isinstance(width, list):
                width = tuple(width)
            n = width[-1] if isinstance(width, tuple) and width and \
                isinstance(width[-1], int) else width \
                if isinstance(width, int) else None
            if isinstance(width, tuple) and width[:1] == ('weight',):
                n = None
            cx.ob('%s: %s' % (table, name), n >= need if n is not None
                  else None, 'the column is %s wide' % (width,), loc)
