"""What a term says for given numbers: used to find a witness against a form
that is not recognised."""
from fractions import Fraction
import posixpath

from .terms import *  # noqa


def _path(f):
    def g(p):
        if not isinstance(p, str):
            raise TypeError(p)
        return f(p)
    return g


def _abs(p):
    return posixpath.normpath(posixpath.join('/some/where', p))


STRINGS = {'os.path.abspath': _path(_abs), 'os.path.realpath': _path(_abs),
           'os.path.normpath': _path(posixpath.normpath),
           'os.path.basename': _path(posixpath.basename),
           'os.path.dirname': _path(posixpath.dirname),
           'os.path.splitext': _path(posixpath.splitext),
           'builtins.str': _path(str)}


def _whole(f):
    def g(*a):
        if not all(isinstance(x, int) for x in a):
            raise TypeError(a)
        return f(*a)
    return g


#: What the status of a process says (0x7f: stopped).
STATUS = {
    'os.WIFEXITED': lambda n: n & 0x7f == 0,
    'os.WIFSIGNALED': lambda n: 0 < n & 0x7f < 0x7f,
    'os.WIFSTOPPED': lambda n: n & 0xff == 0x7f,
    'os.WCOREDUMP': lambda n: bool(n & 0x80),
    'os.WEXITSTATUS': lambda n: n >> 8 & 0xff,
    'os.WSTOPSIG': lambda n: n >> 8 & 0xff,
    'os.WTERMSIG': lambda n: n & 0x7f,
    'os.waitstatus_to_exitcode':
        lambda n: n >> 8 if n & 0x7f == 0 else -(n & 0x7f)}
STRINGS.update((k, _whole(f)) for k, f in STATUS.items())
METHODS = ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title',
           'capitalize', 'swapcase')

CLASSES = {'builtins.int': int, 'builtins.bool': bool, 'builtins.str': str,
           'builtins.float': Fraction, 'builtins.tuple': tuple,
           'builtins.list': list, 'builtins.dict': dict,
           'builtins.NoneType': type(None)}

#: Texts, whole numbers and numbers to look for a difference with.
TEXTS = ('a/b/../C.txt', ' x ', 'Dir/Name.py', '--flag', '')
WHOLE = (0, 1, 2, 3, 4, 5, 7, 100, 1000)
NUMBERS = (Fraction(1, 1000), Fraction(1, 100), Fraction(1, 3), Fraction(1),
           Fraction(5), Fraction(47, 2), Fraction(100), Fraction(5000))


def differs(want, got, sample, facts=()):
    """A value for which the two terms are shown to differ: (value, what is
    got); None if there is no such in the sample."""
    for x in sample:
        env = {want: x}
        try:
            if facts and not feasible(facts, env):
                continue
            y = value(got, env)
        except Unknown:
            continue
        if y != x:
            return x, y
    return None


class Unknown(Exception):
    """The term holds something that is not given."""


def value(v, env):
    """The number (or truth) a term stands for."""
    if v in env:
        return env[v]
    t = v[0]
    if t == 'c':
        if isinstance(v[2], float):
            return Fraction(v[2])
        return v[2]
    if t == 't':
        return tuple(value(x, env) for x in v[1])
    if t == 'op':
        if len(v) == 3:
            a = value(v[2], env)
            if v[1] == 'neg':
                return -a
            if v[1] == 'pos':
                return a
            raise Unknown(v[1])
        if len(v) == 4:
            a, b = value(v[2], env), value(v[3], env)
            try:
                if v[1] == '+':
                    return a + b
                if v[1] == '-':
                    return a - b
                if v[1] == '*':
                    return a * b
                if v[1] == '/':
                    return Fraction(a) / b
                if v[1] == '//':
                    return a // b
                if v[1] == '%':
                    return a % b
                if v[1] == '**' and isinstance(b, int):
                    return a ** b
                if isinstance(a, int) and isinstance(b, int):
                    if v[1] == '&':
                        return a & b
                    if v[1] == '|':
                        return a | b
                    if v[1] == '^':
                        return a ^ b
                    if v[1] == '>>' and b >= 0:
                        return a >> b
                    if v[1] == '<<' and 0 <= b < 100:
                        return a << b
            except (TypeError, ZeroDivisionError) as e:
                raise Unknown(str(e))
        raise Unknown(v[1])
    if t == 'call' and not v[4]:
        args = [value(x, env) for x in v[3]]
        f = {'builtins.max': max, 'builtins.min': min, 'builtins.abs': abs,
             'builtins.int': int, 'builtins.round': round,
             'builtins.float': lambda *a: Fraction(*a),
             'builtins.bool': bool}.get(v[1])
        if f is not None and args:
            try:
                return f(*args)
            except (TypeError, ValueError, OverflowError) as e:
                raise Unknown(str(e))
        f = STRINGS.get(v[1])
        if f is None and v[1][:1] == '.' and v[1][1:] in METHODS and \
                v[2] is not None:
            x = value(v[2], env)
            if isinstance(x, str):
                f = getattr(x, v[1][1:])
        if f is not None:
            try:
                return f(*args)
            except TypeError as e:
                raise Unknown(str(e))
    if t in ('truth', 'not', 'cmp'):
        return truth(v, env)
    raise Unknown(show(v))


def truth(atom, env):
    if atom[0] == 'not':
        return not truth(atom[1], env)
    if atom[0] == 'truth':
        return bool(value(atom[1], env))
    if atom[0] == 'isinst' and atom[2][0] == 'x' and \
            atom[2][1] in CLASSES:
        return isinstance(value(atom[1], env), CLASSES[atom[2][1]])
    if atom[0] == 'cmp':
        op = atom[1]
        a = value(atom[2], env)
        if op == 'is':
            b = value(atom[3], env)
            if any(x is None or isinstance(x, bool) for x in (a, b)):
                return a is b
            if a != b or type(a) is not type(b):
                return False
            raise Unknown('identity')
        b = value(atom[3], env)
        try:
            return {'==': lambda: a == b, '<': lambda: a < b,
                    '>': lambda: a > b, '<=': lambda: a <= b,
                    '>=': lambda: a >= b, '!=': lambda: a != b}[op]()
        except (KeyError, TypeError):
            raise Unknown(op)
    raise Unknown(str(atom[0]))


def feasible(facts, env):
    """Whether the facts of a path hold; facts about other things are taken
    to hold."""
    for atom, val in facts.items():
        try:
            if atom[0] == 'ord':
                a, b = value(atom[1], env), value(atom[2], env)
                try:
                    if ('<' if a < b else '>' if a > b else '=') not in val:
                        return False
                except TypeError:
                    if isinstance(a, str) == isinstance(b, str):
                        raise Unknown('order')
            elif truth(atom, env) != val:
                return False
        except Unknown:
            if any(mentions(atom, a) for a in env):
                raise
    return True
