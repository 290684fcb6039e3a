"""timeit-profile: C45."""
import ast
import collections

from ..core import *  # noqa
from .cli import Cli, argument_faults, calls, execs, exc_text, source_of, \
    starts, stops
from .net import func_site

#: Statements.
STATEMENTS = (
    'f()', 'f(); g()', 'f()\ng()', 'x = f()\ng(x)\nx += 1', 'x += 1',
    'for x in y:\n    f(x)', 'for x in y: f(x)',
    'for x in y:\n    for z in x:\n        f(z)\ng()',
    'if a:\n  f()\nelse:\n  g()', 'if a: f()', 'if a:\n\tf()\ng()',
    'with a: f()', 'with a as b:\n f(b)', 'while f():\n    g()',
    'try:\n    f()\nexcept E:\n    g()\nfinally:\n    h()',
    'def h():\n    return f()\nh()', '@d\ndef h():\n    pass',
    'class K(object):\n    x = f()', 'f()\n', '\nf()', 'f()  # a comment',
    '# a comment\nf()', 'f()\n# a comment', 'x = [f(),\n1]\ng(x)',
    'f("100%")', 'f("%d" % x)', 'f("%(a)s {0}".format(x))', 'f(_)',
    'x = _\ng(x)', 'f(number, stmt)', 'pass', 'import a\na.f()', 'del x',
    'f("\\n")', "f('''a''')", 'raise E', 'f(\ng())', 'f(\\\ng())', u'f("\u00e9")')


def dumps(stmts):
    return [ast.dump(x) for x in stmts]


class Count(object):
    """How often the parts of a statement are executed by a text."""

    def __init__(self, want):
        self.want = want
        self.parts = set(want)
        self.count = collections.Counter()
        self.targets = set()
        self.sequence = []
        self.unknown = False

    def add(self, stmts, times):
        seq = []
        for x in stmts:
            d = ast.dump(x)
            if d in self.parts:
                self.count[d] += times
                seq.append(d)
            elif isinstance(x, ast.For) and not x.orelse and \
                    self.times(x.iter) is not None:
                k = self.times(x.iter)
                self.targets |= set(
                    n.id for n in ast.walk(x.target)
                    if isinstance(n, ast.Name))
                sub = self.add(x.body, times * k)
                seq.extend(sub * k if k <= 3 else sub)
            elif not isinstance(x, ast.Pass):
                if [y for y in ast.walk(x) if isinstance(y, ast.stmt) and
                        ast.dump(y) in self.parts]:
                    self.unknown = True
        return seq

    def times(self, it):
        if isinstance(it, ast.Call) and isinstance(it.func, (
                ast.Name, ast.Attribute)) and not it.keywords:
            f = it.func.id if isinstance(it.func, ast.Name) else it.func.attr
            vals = [a.value if isinstance(a, ast.Constant) else None
                    for a in it.args]
            if f in ('range', 'xrange') and vals and all(
                    isinstance(v, int) for v in vals):
                return len(range(*vals))
            if f == 'repeat' and len(vals) == 2 and isinstance(vals[1], int):
                return max(0, vals[1])
        return None


def judge(cx, what, stmt, n, xs, loc):
    want = dumps(ast.parse(stmt).body)
    if want == dumps(ast.parse('pass').body):
        want = []
    texts = [source_of(e.args[0]) for e in xs]
    if None in texts:
        cx.ob(what, None, 'what is executed is not known', loc)
        return
    c = Count(want)
    for t in texts:
        try:
            tree = ast.parse(t)
        except SyntaxError as e:
            cx.ob(what, False, 'what is made of it is no program: %s' % e.msg,
                  loc)
            return
        seq = c.add(tree.body, 1)
        c.sequence.extend(seq)
    if c.unknown:
        cx.ob(what, None, 'is executed by something else than a loop', loc)
        return
    wrong = [(d, k) for d, k in ((d, c.count[d]) for d in want)
             if k != n * want.count(d)]
    cx.ob(what, not wrong, 'runs %s times' % (
        wrong and wrong[0][1] if len(set(want)) == len(want) == 1 else
        ' and '.join(str(c.count[d]) for d in want)), loc)
    if not wrong and n <= 3:
        cx.ob(what + ', in order', c.sequence == want * n,
              'its parts are not executed in the order they have', loc)
    names = set(x.id for x in ast.walk(ast.parse(stmt))
                if isinstance(x, ast.Name))
    hidden = sorted(c.targets & names & set(('_', 'f', 'g', 'x')))
    cx.ob(what + ': names', not hidden, 'the name %s of the statement is '
          'taken for the loop' % hidden, loc)


def measured(evs):
    """(start of the profiler, executions it sees, those before)."""
    begin = starts(evs)
    if not begin:
        return None, [], execs(evs)
    pos = dict((id(e), i) for i, e in enumerate(evs))
    last = begin[-1]
    end = [pos[id(e)] for e in stops(evs) if e.recv == last.recv and
           pos[id(e)] > pos[id(last)]]
    end = end[0] if end else len(evs)
    xs = execs(evs)
    return last, [e for e in xs if pos[id(last)] < pos[id(e)] < end], \
        [e for e in xs if pos[id(e)] < pos[id(last)]]


def faulty(cx, what, w, s, evs):
    fs = argument_faults(w, s, evs)
    for e in fs:
        cx.ob('%s: %s' % (what, e.fn), False,
              'is called with arguments it does not take', e.loc)
    return fs


@rule('C45', 'what timeit-profile makes of a statement executes all of it, '
      'in order, just the given number of times')
def statements(cx):
    w = Cli(cx)
    loc = func_site(w.I, '__main__.timeit_profile')
    for stmt in STATEMENTS:
        for n in (1, 3) if stmt != 'f()' else (0, 1, 2, 3, 7, 1000):
            what = 'timeit-profile -n %d %r' % (n, stmt)
            for s, exc, evs in w.run(['timeit-profile', ('-n', str(n)),
                                      ('--dump', S('path')), stmt]):
                if faulty(cx, what, w, s, evs):
                    continue
                begin, xs, before = measured(evs)
                if begin is None:
                    cx.ob(what, None if exc is None or exc[0] == 'uexc' else
                          False, 'ends with ' + exc_text(s, exc), loc)
                    continue
                judge(cx, what, stmt, n, xs, loc)


@rule('C45', 'the set-up is executed once, first, outside of the profile and '
      'in the same name space')
def setup(cx):
    w = Cli(cx)
    loc = func_site(w.I, '__main__.timeit_profile')
    for text in ('set_up()', 'a = b\nc(a)', 'for x in y:\n  f(x)', None):
        for n in ('3', None):
            for opts in ([], ['-S']):
                Timed(w, 30000)
                what = 'timeit-profile%s%s' % (
                    ' -n 3' if n else '', ' -s %r' % text if text else '')
                argv = ['timeit-profile'] + opts
                if n:
                    argv.append(('-n', n))
                if text:
                    argv.append(('-s', text))
                for s, exc, evs in w.run(argv + ['statement()']):
                    if faulty(cx, what, w, s, evs):
                        continue
                    begin, xs, before = measured(evs)
                    if begin is None:
                        cx.ob(what, False if exc is not None and exc[0] ==
                              'exc' else None, 'ends with ' +
                              exc_text(s, exc), loc)
                        continue
                    texts = [source_of(e.args[0]) for e in execs(evs)]
                    if None in texts:
                        cx.ob(what, None, 'what is executed is not known',
                              loc)
                        continue
                    want = dumps(ast.parse(text or 'pass').body)
                    if text:
                        at = [i for i, t in enumerate(texts)
                              if same(t, want)]
                        cx.ob(what + ': once', at == [0], 'the set-up is '
                              'executed %d times%s' % (len(at), (
                                  ', after the statement' if at else '')),
                              loc)
                        first = starts(evs)[0]
                        ran = [e for e in execs(evs[:evs.index(first)])
                               if same(source_of(e.args[0]), want)]
                        cx.ob(what + ': outside', bool(ran), 'the set-up is '
                              'part of the profile', loc)
                    spaces = set(e.args[1] if len(e.args) > 1 else NONE
                                 for e in execs(evs))
                    cx.ob(what + ': name space', len(spaces) == 1,
                          'the statement does not see what the set-up '
                          'defined', loc)


def same(text, want):
    try:
        return dumps(ast.parse(text).body) == want
    except SyntaxError:
        return False


class Timed(object):
    """Clocks which count what an execution costs."""

    CLOCKS = ('time.time', 'time.perf_counter', 'time.monotonic',
              'timeit.default_timer', 'time.clock', 'time.process_time')

    def __init__(self, w, micros):
        self.micros = micros
        for name in self.CLOCKS:
            w.I.ext_over[name] = self.read

    def read(self, I, st, args, kw, node, fr):
        n = len([e for e in st.events() if e.k == 'exec'])
        return [(st, C(1000.0 + n * self.micros / 1e6), None)]


@rule('C45', 'without -n: the least power of ten whose run takes 0.2 seconds; '
      'what was tried is not in the result')
def calibration(cx):
    w = Cli(cx)
    loc = func_site(w.I, '__main__.timeit_profile')
    for micros, n in ((300000, 10), (25000, 10), (15000, 100), (5000, 100),
                      (1500, 1000), (500, 1000)):
        Timed(w, micros)
        w.I.ROUNDS = 1000
        known = set(w.I.loops)
        what = 'timeit-profile, a statement of %g seconds' % (micros / 1e6)
        for s, exc, evs in w.run(['timeit-profile', ('--dump', S('path')),
                                  'f()']):
            if faulty(cx, what, w, s, evs):
                continue
            begin, xs, before = measured(evs)
            if begin is None:
                cx.ob(what, None, 'ends with ' + exc_text(s, exc), loc)
                continue
            if [i for L, i in w.I.loops.items() if L not in known and
                    'timeit_profile' in str(i.func)]:
                cx.ob(what, None, 'a loop is not followed to its end', loc)
                continue
            judge(cx, what, 'f()', n, xs, loc)
