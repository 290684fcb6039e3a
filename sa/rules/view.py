"""The viewer: C28 - C32, C41."""
import itertools
import re

from ..core import *  # noqa
from ..core import Undecided
from .helpers import func_site

RENDER = '''
def texts_of(w, maps, out):
    """The texts and trees below a widget, in order."""
    if w is None:
        return out
    if isinstance(w, AttrMap):
        texts_of(w.original_widget, maps + (w.attr_map,), out)
    elif isinstance(w, WidgetDecoration):
        texts_of(w.original_widget, maps, out)
    elif isinstance(w, WidgetWrap):
        texts_of(w._w, maps, out)
    elif isinstance(w, Frame):
        texts_of(w.header, maps, out)
        texts_of(w.body, maps, out)
        texts_of(w.footer, maps, out)
    elif isinstance(w, (Columns, Pile)):
        for c in w.contents:
            texts_of(c[0], maps, out)
    elif isinstance(w, ListBox):
        out.append(('tree', maps, w))
    elif isinstance(w, Text):
        out.append(('text', maps, w.markup))
    return out
def tree_of(w):
    for kind, maps, x in texts_of(w, (), []):
        if kind == 'tree':
            return x
def root_of(w):
    return tree_of(w).body.focus.get_root().get_value()
def head_of(w):
    return [(maps, x) for kind, maps, x in texts_of(w, (), [])
            if kind == 'text']
def rows_of(w):
    """Every visible row: node, depth, expanded, texts."""
    out = []
    root = tree_of(w).body.focus.get_root()
    widget = root.get_widget()
    while widget is not None:
        node = widget.get_node()
        if node.get_depth() > 0:
            out.append((node.get_value(), node.get_depth(), widget.expanded,
                        [x for k, m, x in texts_of(widget, (), [])]))
        widget = widget.next_inorder()
    return out
'''

WIDGETS = ('AttrMap', 'WidgetDecoration', 'WidgetWrap', 'Frame', 'Columns',
           'Pile', 'ListBox', 'Text')

TABLES = (('tracing', 'tracing.TracingProfiler'),
          ('sampling', 'sampling.SamplingProfiler'),
          ('plain', 'profiler.Profiler'))


#: Errors which no incomplete model raises.
CERTAIN = [X('builtins.' + n) for n in (
    'NameError', 'UnboundLocalError', 'KeyError', 'IndexError', 'ValueError',
    'ZeroDivisionError')]


class Views(object):
    """A viewer on the abstract heap, over a model of urwid."""

    def __init__(self, cx, opaque=True):
        self.cx = cx
        self.I = I = interp(stubs=('urwid',))
        I.concrete_ok = True
        I.policy = lambda ev, st, fr: []
        if opaque:
            # how a number is formatted is not looked at.
            I.opaque = set(
                q for q in I.functions if '.Formatter.' in q and
                q.split('.')[-1].split('_')[0] in ('format', 'attr'))
        self.env = {'StatisticsViewer': cx.cls(I, 'viewer.StatisticsViewer'),
                    'F': cx.cls(I, 'stats.FrozenStatistics'),
                    'NESTED': cx.modvar(I, 'profiling.viewer', 'NESTED'),
                    'FLAT': cx.modvar(I, 'profiling.viewer', 'FLAT')}
        for n in WIDGETS:
            self.env[n] = cx.cls(I, 'urwid.' + n)
        for n, q in TABLES:
            self.env[n] = cx.cls(I, q)
        self.st = I.start_state()
        outs = self.run(self.st, RENDER)
        self.st = outs[0][0]
        for n in ('texts_of', 'tree_of', 'root_of', 'head_of', 'rows_of'):
            self.env[n] = outs[0][1][n]

    def run(self, st, src, **env):
        self.I.steps = 0
        return snippet(self.cx, self.I, st.fork(), src, dict(self.env, **env))

    def one(self, st, src, **env):
        """The only way to run it, without an exception."""
        outs = self.run(st, src, **env)
        if len(outs) == 1 and outs[0][2] is not None and \
                outs[0][2][0] == 'exc' and outs[0][2][1] in CERTAIN:
            self.cx.ob('the viewer is made and shows a result', False,
                       'raises %s' % show(outs[0][2][1]), func_site(
                           self.I, 'viewer.StatisticsViewer.__init__'))
        if len(outs) != 1 or outs[0][2] is not None:
            raise Undecided('the scenario runs in %d ways%s' % (
                len(outs), ''.join(', raises %s' % show(o[2][1]) for o in outs
                                   if o[2] is not None)[:200]))
        return outs[0][:2]

    def result(self, st, k):
        """The k-th result: symbolic stats, cpu, wall, title, at."""
        I = self.I
        vs = [S('%s %d' % (n, k)) for n in ('stats', 'cpu', 'wall', 'title',
                                            'at')]
        for v in vs:
            I.assume(st, I.mkcmp('is', v, NONE), False)
            I.assume(st, ('truth', v, 0), True)
        return vs


def deep(s, v):
    """A value with the lists and tuples below it as Python ones."""
    o = s.get(v)
    if o is not None and o.kind == 'list' and o.parts is not None and all(
            p[0] == 'one' for p in o.parts):
        return [deep(s, p[1]) for p in o.parts]
    if o is not None and o.kind in ('dict', 'set') and o.base is None:
        return dict((k, deep(s, x)) for k, x in o.known.items()
                    if x is not ABSENT)
    if v[0] == 't':
        return tuple(deep(s, x) for x in v[1])
    if is_c(v):
        return v[2]
    return v


def leaves(x):
    """The terms and texts of a deep markup, in order."""
    if isinstance(x, list):
        return [y for e in x for y in leaves(e)]
    if isinstance(x, tuple) and len(x) == 2 and (
            x[0] is None or isinstance(x[0], str) and not is_term(x) or
            isinstance(x[0], tuple)):
        return leaves(x[1])
    return [x]


def is_term(x):
    return isinstance(x, tuple) and len(x) > 1 and isinstance(
        x[0], str) and x[0] in (
        'c', 't', 'r', 'x', 's', 'fld', 'a', 'i', 'call', 'op', 'elem', 'phi',
        'truth', 'cmp', 'in', 'isinst', 'not', 'sum')


def says(x, v):
    """Whether a deep value mentions a term."""
    if isinstance(x, list):
        return any(says(e, v) for e in x)
    if isinstance(x, dict):
        return any(says(e, v) for e in x.values())
    if isinstance(x, tuple) and not is_term(x):
        return any(says(e, v) for e in x)
    return isinstance(x, tuple) and mentions(x, v)


# -- C28

OPS = ('result', 'pause', 'resume', 'update_result', 'activate',
       'inactivate')


@rule('C28', 'every sequence of up to five of: a new result, pause, resume, '
      'update, and up to four with activate and inactivate: what the table '
      'shows is the result at the time of the pause while paused, the most '
      'recent one otherwise; nothing raises')
def paused_shows(cx):
    w = Views(cx)
    loc = func_site(w.I, 'viewer.StatisticsViewer.update_result')
    st, v = w.one(w.st, 'v = StatisticsViewer()')
    viewer = v['v']
    bad = {}
    count = {}

    def shown(s):
        s2, vs = w.one(s, 'x = root_of(v.widget)\nh = head_of(v.widget)',
                       v=viewer)
        return vs['x'], deep(s2, vs['h'])

    def judge(seq, s, last, held, paused, skip):
        try:
            x, head = shown(s)
        except Undecided as e:
            bad.setdefault('what is shown', (None, str(e)))
            return
        if skip:
            return
        if paused:
            want = held
        else:
            want = last
        what = 'while paused' if paused else 'after a resume' if \
            'resume' in seq else 'before any pause'
        n = count.get(what, [0, 0])
        count[what] = n
        n[0] += 1
        if x == (want[0] if want else NONE) and (
                not want or paused or says(head, want[1])):
            n[1] += 1
            return
        if is_c(x) or x[0] == 's':
            bad.setdefault(what, (False, 'after %s it shows %s instead of %s'
                                  % (', '.join(seq), show(x) if x != NONE
                                     else 'nothing', show(want[0])
                                     if want else 'nothing')))
        else:
            bad.setdefault(what, (None, 'it shows %s' % show(x)))

    def go(seq, s, k, last, held, paused, skip):
        plain = all(o not in ('activate', 'inactivate') for o in seq)
        if len(seq) >= (5 if plain else 4):
            return
        for op in OPS:
            if op in OPS[4:] and (len(seq) >= 4 or not plain):
                continue
            s2 = s.fork()
            w.I.steps = 0
            if op == 'result':
                vals = w.result(s2, k + 1)
                outs = cx.method(w.I, s2, viewer, 'set_result', vals)
            else:
                outs = cx.method(w.I, s2, viewer, op)
            for s3, __, exc in outs:
                seq2 = seq + (op,)
                if exc is not None:
                    bad.setdefault('raises', (
                        None if exc[0] == 'uexc' else False,
                        '%s raises %s' % (', '.join(seq2), show(exc[1]))))
                    continue
                k2, last2, held2, p2, sk2 = k, last, held, paused, skip
                if op == 'result':
                    k2, last2 = k + 1, vals
                elif op == 'pause':
                    if paused:
                        # what a second pause shows is not laid down.
                        sk2 = True
                    held2, p2 = last, True
                elif op == 'resume':
                    held2, p2, sk2 = None, False, False
                judge(seq2, s3, last2, held2, p2, sk2 and p2)
                go(seq2, s3, k2, last2, held2, p2, sk2)
    go((), st, 0, None, None, False, False)
    for what in ('while paused', 'after a resume', 'before any pause',
                 'raises', 'what is shown'):
        ok, msg = bad.get(what, (True, '%d of %d histories' % tuple(
            reversed(count[what])) if what in count else ''))
        cx.ob(what, ok, msg, loc)


# -- C32

@rule('C32', 'what the viewer shows after set_result, for any values: the '
      'statistics, and in its header the CPU time, the wall time, their '
      'ratio, the title and the time, each in its place')
def displayed(cx):
    for via in ('viewer', 'keywords', 'make_viewer', 'run_viewer'):
        for title in (True, False):
            for at in (True, False):
                display(cx, via, title, at)


def display(cx, via, title, at):
    w = Views(cx)
    I = w.I
    st = w.st.fork()
    stats, cpu, wall, tt, aa = w.result(st, 1)
    tt, aa = tt if title else NONE, aa if at else NONE
    what = '%s%s%s' % (via, ', with a title' if title else '',
                       ', with a time' if at else '')
    env = dict(stats=stats, cpu=cpu, wall=wall, title=tt, at=aa)
    src = 'v = StatisticsViewer()\n'
    loc = func_site(I, 'viewer.StatisticsViewer.set_result')
    if via == 'viewer':
        src += 'v.set_result(stats, cpu, wall, title, at)\n'
    elif via == 'keywords':
        src += 'v.set_result(stats=stats, cpu_time=cpu, wall_time=wall, ' \
            'title=title, at=at)\n'
    else:
        src = '''
class P(plain):
    def result(self):
        return stats, cpu, wall
p = P()
'''
        if via == 'make_viewer':
            src += 'v = p.make_viewer(title, at=at)\n'
            loc = func_site(I, 'profiler.Profiler.make_viewer')
        else:
            src += 'p.run_viewer(title, at, False, screen, '\
                'handle_mouse=mouse)\nv = seen[0]\n'
            env.update(screen=S('screen'), mouse=S('mouse'))
            loc = func_site(I, 'profiler.Profiler.run_viewer')
            src = 'seen = []\n' + src
            cref = cx.cls(I, 'urwid.MainLoop')
    src2 = 'x = root_of(v.widget)\nh = head_of(v.widget)\n' \
        'act = v.active\n'
    if via == 'run_viewer':
        src = src.replace('v = seen[0]\n', '')
        src2 = 'w = loops[0].widget\nx = root_of(w)\nh = head_of(w)\n' \
            'pal = loops[0].palette\nact = True\n' \
            'given = (loops[0].given_screen, loops[0].handle_mouse)\n'
        src = '''
loops = []
class Loop(MainLoop):
    def run(self):
        loops.append(self)
urwid.MainLoop = Loop
''' + src
        env['MainLoop'] = cx.cls(I, 'urwid.MainLoop')
        env['urwid'] = I.modrefs['urwid']
    outs = w.run(st, src + src2, **env)
    if not outs:
        cx.ob(what, None, 'no path', loc)
    for s, v, exc in outs:
        if exc is not None:
            cx.ob(what + ': no exception', None if exc[0] == 'uexc' or
                  via == 'run_viewer' else False,
                  'raises %s' % show(exc[1]), loc)
            continue
        cx.ob(what + ': statistics', v['x'] == stats if is_c(v['x']) or
              v['x'][0] in ('s', 'c') else None,
              'shows %s' % show(v['x']), loc)
        head = deep(s, v['h'])
        head = [m for maps, m in head if not (
            isinstance(m, tuple) and isinstance(m[0], str) and
            m[0].startswith('thead'))]
        for name, val in (('CPU time', cpu), ('wall time', wall),
                          ('title', tt), ('time', aa)):
            if val != NONE:
                cx.ob('%s: %s' % (what, name), says(head, val),
                      'the header does not tell the ' + name, loc)
        if aa != NONE and says(head, aa):
            told = clock(head, aa)
            cx.ob(what + ': hour and minute', None if told is None else
                  told >= set('hm'), 'the time is told without the %s' %
                  ' and the '.join({'h': 'hour of the day', 'm': 'minute'}[x]
                                   for x in sorted(set('hm') - (told or
                                                                set()))),
                  loc)
        times = formatted(head)
        if says(head, cpu) and says(head, wall):
            n = [i for i, x in enumerate(times) if x == cpu]
            m = [i for i, x in enumerate(times) if x == wall]
            if n and m:
                cx.ob(what + ': CPU time before wall time', n[0] < m[0],
                      'CPU time and wall time are swapped', loc)
            else:
                cx.ob(what + ': CPU time before wall time', None,
                      'times are %s' % [show(t) for t in times], loc)
            pct = percents(head)
            if len(pct) == 1:
                ok = pct[0] in (('op', '/', cpu, wall), C(0.0), C(0))
                zero = s.facts.get(('truth', wall, 0)) is False
                if not ok and pct[0] != ('op', '/', wall, cpu) and \
                        pct[0] not in (cpu, wall):
                    ok = None
                elif is_c(pct[0]) and not zero:
                    ok = None
                cx.ob(what + ': usage', ok, 'the usage is %s' % show(
                    pct[0]), loc)
                signed = unit_told(head)
                cx.ob(what + ': usage in percent', signed, 'the usage has '
                      'no unit', loc)
            else:
                cx.ob(what + ': usage', False if not pct and not any(
                    says(head, ('op', '/', cpu, wall)) for __ in '1') else
                    None, 'no usage is told', loc)
        if via == 'run_viewer':
            got = deep(s, v['given'])
            for name, x in zip(('screen', 'mouse'), got):
                cx.ob('%s: %s' % (what, name), x == env[name],
                      'the main loop gets %s as %s' % (
                          show(x) if is_term(x) else x, name), loc)
        if via in ('make_viewer', 'viewer') and via == 'make_viewer':
            cx.ob(what + ': active', v['act'] == TRUE if is_c(v['act'])
                  else None, 'the viewer is left inactive', loc)


@rule('C32', 'the usage of results of known times, below, at and above all '
      'of the wall time and of no time at all: the header tells it')
def usage(cx):
    w = Views(cx, opaque=False)
    loc = func_site(w.I, 'viewer.StatisticsTable.update_frame')
    st, v = w.one(w.st, 'v = StatisticsViewer()\nf = F(name="a")\n')
    for cpu, wall, want in ((1.0, 4.0, 25), (4.0, 4.0, 100), (6.0, 4.0, 150),
                            (0.0, 4.0, 0), (0.0, 0.0, 0), (30.0, 4.0, 750)):
        what = 'usage of %s s in %s s' % (cpu, wall)
        for s, vs, exc in w.run(st, 'v.set_result(f, %r, %r)\n'
                                'h = head_of(v.widget)\n' % (cpu, wall),
                                v=v['v'], f=v['f']):
            if exc is not None:
                cx.ob(what, None if exc[0] == 'uexc' else False,
                      'raises %s' % show(exc[1]), loc)
                continue
            told = re.findall(r'(-?[0-9]+(?:\.[0-9]+)?)\s*%', ' '.join(
                x for x in leaves([m for maps, m in deep(s, vs['h'])])
                if isinstance(x, str)))
            cx.ob(what, abs(float(told[0]) - want) <= 1 if len(told) == 1
                  else None, 'the header tells %s%%' % ', '.join(told), loc)


@rule('C29', 'of each table with each of its orders, before and after a '
      'pause, a resume, the end and the return of the connection: the head of '
      'the column sorted by, and of no other, is marked')
def sorted_heads(cx):
    for table in ('tracing', 'sampling'):
        w = Views(cx)
        loc = func_site(w.I, 'viewer.StatisticsTable.update_frame')
        st, v = w.one(w.st, '''
v = StatisticsViewer()
v.set_profiler_class(cls)
t = v.table
o = [c[3] for c in t.columns]
n = [c[0] for c in t.columns]
''', cls=w.env[table])
        orders = deep(st, v['o'])
        names = deep(st, v['n'])
        env = dict(v=v['v'], t=v['t'], o=v['o'], cls=w.env[table])
        for i, order in enumerate(orders):
            if order is None:
                continue
            for how in ('', 'v.activate()\n', 'v.activate()\nv.pause()\n',
                        'v.pause()\n', 'v.pause()\nv.resume()\n',
                        'v.activate()\nv.inactivate()\n'):
                for first in ((True, False) if how else (True,)):
                    sort = 't.sort_stats(o[%d])\n' % i
                    what = '%s sorted by %s%s%s' % (
                        table, names[i], '' if not how else
                        ', then ' if first else ', after ', ', '.join(
                            x[2:-2] for x in how.splitlines()))
                    src = 'v.set_result(F(children=[F(name="a", filename' \
                        '="f", lineno=1)]), 1.0, 2.0)\n' + (
                            sort + how if first else how + sort)
                    for s, vs, exc in w.run(st, src + 'h = head_of(t)\n',
                                            **env):
                        if exc is not None:
                            cx.ob(what, None if exc[0] == 'uexc' else False,
                                  'raises %s' % show(exc[1]), loc)
                            continue
                        heads = []
                        for maps, m in deep(s, vs['h']):
                            text = ''.join(x for x in leaves(m)
                                           if isinstance(x, str))
                            if text in names:
                                heads.append((text, bool(m[0]) if isinstance(
                                    m, tuple) and len(m) == 2 else False))
                        if [n for n, x in heads] != names:
                            continue
                        on = [n for n, x in heads if x]
                        cx.ob(what, [x for n, x in heads] == [
                            j == i for j in range(len(names))], '%s marked' % (
                            ', '.join(on) + ' is' if on else 'no head is'),
                            loc)


#: What a directive for times tells: the hour, half of it, the minute.
DIRECTIVES = {'H': 'h', 'k': 'h', 'I': '1', 'l': '1', 'p': '2', 'P': '2',
              'M': 'm', 'X': 'hm', 'c': 'hm', 'T': 'hm', 'R': 'hm',
              's': 'hm', 'r': 'hm'}


def clock(head, at):
    """What is told of a time of the day, or None."""
    specs = []

    def see(x):
        if x == at:
            specs.append(None)
            return
        if isinstance(x, tuple) and x and x[0] == 'call' and mentions(x, at):
            if x[1] == '.format' and is_c(x[2]):
                for e, spec in zip(by_format(x), specs_of(x)):
                    if e == at:
                        specs.append(spec)
                        return
            elif x[1].split('.')[-1] == 'strftime' and len(x[3]) in (1, 2) \
                    and is_c(x[3][-1]):
                specs.append(x[3][-1][2])
                return
            elif x[1] in ('builtins.format',) and len(x[3]) == 2 and \
                    x[3][0] == at and is_c(x[3][1]):
                specs.append(x[3][1][2])
                return
        if isinstance(x, (list, tuple)):
            for e in x:
                see(e)
    see(head)
    if not specs or None in specs:
        return None
    told = set()
    for spec in specs:
        if not spec:
            return set('hm')
        for a, b in zip(spec, spec[1:]):
            if a == '%':
                told |= set(DIRECTIVES.get(b.lstrip('-'), ''))
    if told >= set('12'):
        told.add('h')
    return told


def specs_of(x):
    """The specifications beside by_format()."""
    import string
    try:
        return [spec for lit, field, spec, conv in string.Formatter().parse(
            x[2][2]) if field is not None]
    except ValueError:
        return []


def calls_in(x):
    if isinstance(x, list):
        return [y for e in x for y in calls_in(e)]
    out = []
    if isinstance(x, tuple):
        if x and x[0] == 'call' and isinstance(x[1], str):
            out.append(x)
        if x and x[0] == 'c':
            return out
        if x and x[0] == 'call' and x[1] == '.format' and is_c(x[2]):
            return out + [y for e in by_format(x) for y in calls_in(e)]
        for e in x:
            if isinstance(e, (tuple, list)):
                out += calls_in(e)
    return out


def by_format(x):
    """The arguments of a format in the order in which they are written."""
    import string
    out, n = [], 0
    kw = dict(x[4])
    try:
        for lit, field, spec, conv in string.Formatter().parse(x[2][2]):
            if field is None:
                continue
            key = field.split('.')[0].split('[')[0]
            if key == '':
                out.append(x[3][n])
                n += 1
            elif key.isdigit():
                out.append(x[3][int(key)])
            else:
                out.append(kw[key])
    except (ValueError, LookupError):
        return list(x[3]) + list(kw.values())
    return out


def arg_of(c):
    return c[3][0] if c[3] else c[2] if c[2] is not None else None


def formatted(head):
    return [arg_of(c) for c in calls_in(head)
            if c[1].endswith('format_time')]


def percents(head):
    out = []
    for c in calls_in(head):
        if c[1].endswith('format_percent'):
            v = arg_of(c)
            d = c[3][1] if len(c[3]) > 1 else dict(c[4]).get('denom', C(1))
            if d != C(1):
                v = ('op', '/', v, d)
            out.append(v)
    return out


def unit_told(head):
    """Whether a number is told to be of percent."""
    got = [None]
    for c in calls_in(head):
        if c[1].endswith('format_percent'):
            u = c[3][2] if len(c[3]) > 2 else dict(c[4]).get('unit', FALSE)
            got = [bool(u[2]) if is_c(u) else None]
    return got[0] or '%' in repr(head).replace("%s", '') or got[0]


STATES = ('pause', 'resume', 'activate', 'inactivate', 'result', 'class')


@rule('C32', 'after every sequence of up to four of pause, resume, activate, '
      'inactivate, a result and a change of the profiler: the display '
      'attribute of the column heads tells paused from inactive from active')
def header_state(cx):
    w = Views(cx)
    loc = func_site(w.I, 'viewer.StatisticsTable.update_frame')
    st, v = w.one(w.st, 'v = StatisticsViewer()')
    viewer = v['v']
    seen = {}
    trouble = {}

    def attr(s):
        s2, vs = w.one(s, 'h = head_of(v.widget)', v=viewer)
        out = set()
        for maps, m in deep(s2, vs['h']):
            for d in maps:
                if isinstance(d, dict) and NONE in d:
                    out.add(d[NONE])
                elif d is not None and not isinstance(d, dict):
                    out.add(d)
        if len(out) != 1 or not isinstance(min(out), str):
            raise Undecided('heads have the attributes %s' % (out,))
        return out.pop()

    def note(seq, s, state):
        try:
            seen.setdefault(state, {}).setdefault(attr(s), seq)
        except Undecided as e:
            trouble.setdefault('which attribute', (None, str(e)))

    def go(seq, s, paused, active):
        note(seq, s, 'paused' if paused else 'active' if active else
             'inactive')
        if len(seq) >= 4:
            return
        for op in STATES:
            if seq and op == seq[-1]:
                continue
            s2 = s.fork()
            w.I.steps = 0
            if op == 'result':
                outs = cx.method(w.I, s2, viewer, 'set_result',
                                 w.result(s2, 1))
            elif op == 'class':
                outs = cx.method(w.I, s2, viewer, 'set_profiler_class',
                                 [w.env['tracing']])
            else:
                outs = cx.method(w.I, s2, viewer, op)
            for s3, __, exc in outs:
                if exc is not None:
                    trouble.setdefault('raises', (
                        None if exc[0] == 'uexc' else False,
                        '%s raises %s' % (', '.join(seq + (op,)),
                                          show(exc[1]))))
                    continue
                go(seq + (op,), s3,
                   {'pause': True, 'resume': False}.get(op, paused),
                   {'activate': True, 'inactivate': False}.get(op, active))
    go((), st, False, False)
    for what, (ok, msg) in trouble.items():
        cx.ob(what, ok, msg, loc)
    for state in ('active', 'inactive', 'paused'):
        got = seen.get(state, {})
        cx.ob('one attribute when ' + state, len(got) == 1 if got else None,
              'it is %s' % ' but '.join('%s after %s' % (
                  a, ', '.join(q) or 'nothing') for a, q in got.items()),
              loc)
        # a style which is named after another state.
        wrong = [(a, q) for a, q in got.items() for other in (
            'inactive', 'paused') if other != state and
            other in a.split('.')]
        cx.ob('the attribute when ' + state, not wrong, 'it is %s' %
              ' and '.join('%s after %s' % (a, ', '.join(q) or 'nothing')
                           for a, q in wrong), loc)
    for a, b in itertools.combinations(('active', 'inactive', 'paused'), 2):
        both = set(seen.get(a, ())) & set(seen.get(b, ()))
        cx.ob('%s and %s differ' % (a, b), not both,
              'both are shown as %s' % ', '.join(both), loc)


# -- C29

TRACING = {'FUNCTION': 'function', 'CALLS': 'own_hits', 'OWN': 'own_time',
           'DEEP': 'deep_time'}
SAMPLING = {'FUNCTION': 'function', 'OWN': 'own_hits', 'DEEP': 'deep_hits'}

METRICS = ('own_hits', 'deep_hits', 'own_time', 'deep_time',
           'own_time_per_call', 'deep_time_per_call')

PARTS = {'own_time_per_call': ('own_time', 'own_hits'),
         'deep_time_per_call': ('deep_time', 'own_hits')}


def meanings(table, names):
    """What the documentation says about the columns: (kind, metric)."""
    known = TRACING if table == 'tracing' else SAMPLING
    out, last = [], None
    for n in names:
        if n in known:
            last = n
            out.append((known[n],))
        elif n == '%' and last in known:
            out.append((known[last], 'total'))
        elif n == '/CALL' and last in known:
            out.append((known[last] + '_per_call',))
        else:
            out.append(None)
    return out


def uses(v, stats):
    """The metrics of the statistics which a value is made of."""
    return set(x[2] for x in walk(v) if isinstance(x, tuple) and
               len(x) == 3 and x[0] == 'a' and x[1] == stats)


def is_metric(v, stats, name):
    """True, False, or None when that is not clear."""
    while v[0] == 'op' and v[1] == 'neg':
        v = v[2]
    if v == ('a', stats, name):
        return True
    if name in PARTS:
        a, b = PARTS[name]
        if v == ('op', '/', ('a', stats, a), ('a', stats, b)):
            return True
    if v[0] == 'a' and v[1] == stats:
        return False
    if is_c(v):
        return False
    if uses(v, stats) and name not in uses(v, stats) and not (
            name in PARTS and set(PARTS[name]) <= uses(v, stats)):
        return False
    return None


@rule('C29', 'for any statistics: the cells which make_cells of each table '
      'yields are, column by column, formatted from the documented metric of '
      'the head above, percentages with the total of the profile below the '
      'line; the sort key of a column is made of the same metric, descending')
def cells(cx):
    for table in ('tracing', 'sampling', 'plain'):
        w = Views(cx)
        I = w.I
        I.opaque = set(I.opaque) | set(
            q for q in I.functions if q.endswith('Formatter.markup_stats'))
        st = w.st.fork()
        stats, root, rootnode, node, cpu = (
            S('stats'), S('root stats'), S('root node'), S('node'),
            S('total CPU time'))
        for x in (stats, root, rootnode, node):
            I.assume(st, I.mkcmp('is', x, NONE), False)
            I.assume(st, ('truth', x, 0), True)
        distinct(I, st, stats, root, rootnode, node)
        I.rets['.get_root'] = lambda I, st, ev: rootnode
        I.rets['.get_value'] = lambda I, st, ev: \
            root if ev.recv == rootnode else stats
        st, v = w.one(st, '''
v = StatisticsViewer()
v.set_profiler_class(cls)
t = v.table
heads = [m for maps, m in head_of(v.widget)]
names = [c[0] for c in t.columns]
keys = [c[3] for c in t.columns]
order = t.order
t.cpu_time = cpu
''', cls=w.env[table], cpu=cpu)
        t = v['t']
        loc = func_site(I, {
            'tracing': 'TracingStatisticsTable.make_cells',
            'sampling': 'SamplingStatisticsTable.make_cells',
            'plain': 'viewer.StatisticsTable.make_cells'}[table])
        names, keys = deep(st, v['names']), deep(st, v['keys'])
        heads = [m[1] if isinstance(m, tuple) else m
                 for m in deep(st, v['heads'])]
        cx.ob('%s: heads' % table, [h for h in heads if h in names] == names,
              'the heads are %s, the columns %s' % (heads, names), loc)
        if table != 'plain':
            cx.ob('%s: documented columns' % table, set(names) >= set(
                TRACING if table == 'tracing' else SAMPLING),
                'the columns are %s' % names, loc)
        mean = meanings(table, names)
        outs = w.run(st, 'cells = [c.markup for c in t.make_cells(n, s)]',
                     t=t, n=node, s=stats)
        for s, vs, exc in outs:
            if exc is not None:
                cx.ob('%s: cells' % table, None if exc[0] == 'uexc' else
                      False, 'raises %s' % show(exc[1]), loc)
                continue
            got = [vs['cells']] if vs['cells'][0] != 'r' else [
                p[1] for p in s.get(vs['cells']).parts]
            if vs['cells'][0] != 'r' or any(
                    p[0] != 'one' for p in s.get(vs['cells']).parts):
                cx.ob('%s: cells' % table, None, 'they are not known', loc)
                continue
            cx.ob('%s: as many cells as columns' % table,
                  len(got) == len(names), '%d cells for %d columns' % (
                      len(got), len(names)), loc)
            for i, (n, m, c) in enumerate(zip(names, mean, got)):
                if m is not None:
                    cell(cx, '%s: column %d %s' % (table, i, n), s, stats,
                         root, cpu, table, m, c, loc)
        order_keys(cx, w, table, st, names, mean, keys, v['order'], stats,
                   t)


KIND = {'own_hits': 'int', 'deep_hits': 'int', 'own_time': 'time',
        'deep_time': 'time', 'own_time_per_call': 'time',
        'deep_time_per_call': 'time'}


def cell(cx, what, s, stats, root, cpu, table, m, c, loc):
    cs = [x for x in calls_in(deep(s, c)) if '.Formatter.' in x[1]]
    text = [x for x in cs if x[1].split('.')[-1].split('_')[0] in (
        'format', 'markup')]
    if m[0] == 'function':
        v = [x for x in text if x[1].endswith('markup_stats')]
        cx.ob(what, arg_of(v[0]) == stats if v else None,
              'the cell shows %s' % show(c)[:100], loc)
        return
    if len(text) != 1:
        cx.ob(what, None, 'the cell shows %s' % show(c)[:100], loc)
        return
    for x in cs:
        v = arg_of(x)
        d = x[3][1] if len(x[3]) > 1 and x in text + [
            y for y in cs if 'ratio' in y[1]] else dict(x[4]).get('denom')
        if d in (None, C(1)) and v[0] == 'op' and v[1] == '/' and \
                len(m) == 2:
            v, d = v[2], v[3]
        while v[0] == 'call' and v[1] == 'builtins.float' and v[3]:
            v = v[3][0]
        if d is not None and d[0] == 'call' and d[1] == 'builtins.float':
            d = d[3][0]
        part = 'text' if x in text else 'attribute'
        cx.ob('%s: %s' % (what, part), is_metric(v, stats, m[0]),
              'the %s is made from %s' % (part, show(v)), loc)
        if len(m) == 2:
            want = [cpu] if table == 'tracing' else [
                ('a', root, 'deep_hits')]
            ok = d in want
            if not ok and d is not None and not is_c(d) and not uses(
                    d, stats) and d[0] != 's' and not uses(d, root):
                ok = None
            cx.ob('%s: %s relates to the total' % (what, part), ok,
                  'relates to %s' % (show(d) if d else 'nothing'), loc)
        if x in text:
            kind = 'percent' if len(m) == 2 else KIND[m[0]]
            name = x[1].split('.')[-1]
            fam = [k for k in ('percent', 'int', 'time') if k in
                   name.split('_')]
            cx.ob(what + ': unit', fam == [kind] if fam else None,
                  'it is formatted by ' + name, loc)


def order_keys(cx, w, table, st, names, mean, keys, order, stats, t):
    I = w.I
    loc = func_site(I, 'viewer.StatisticsTable.shift_order')
    orders = [k for k in keys if k is not None]
    cx.ob('%s: the initial order is a column' % table, order in orders,
          'it is none of the columns', loc)
    cx.ob('%s: orders differ' % table, len(set(orders)) == len(orders),
          'two columns have one order', loc)
    for n, m, k in zip(names, mean, keys):
        if k is None or m is None or len(m) == 2:
            continue
        what = '%s: order of %s' % (table, n)
        I.steps = 0
        for s, v, exc in cx.call(I, st.fork(), k, [stats]):
            if exc is not None:
                cx.ob(what, None if exc[0] == 'uexc' else False,
                      'raises %s' % show(exc[1]), loc)
                continue
            if m[0] == 'function':
                if s.facts.get(('truth', ('a', stats, 'name'), 0)):
                    cx.ob(what, ('name' in uses(v, stats)) or None,
                          'it is %s' % show(v), loc)
                continue
            first = v[1][0] if v[0] == 't' else v
            ok = is_metric(first, stats, m[0])
            if ok is False and m[0] in PARTS and any(s.facts.get((
                    'truth', ('a', stats, h), 0)) is False
                    for h in ('own_hits', 'deep_hits')):
                # nothing was called: the whole time.
                ok = is_metric(first, stats, PARTS[m[0]][0])
            cx.ob(what, ok, 'it is by %s' % show(first), loc)
            if ok:
                cx.ob(what + ': descending', negative(first),
                      'it is ascending', loc)
    # every order is reached.
    for delta in (1, -1):
        s, cur, seen = st.fork(), order, [order]
        for i in range(len(orders)):
            I.steps = 0
            outs = cx.method(I, s, t, 'shift_order', [C(delta)])
            if len(outs) != 1 or outs[0][2] is not None:
                cx.ob('%s: shift by %d' % (table, delta), False if
                      len(outs) == 1 and outs[0][2][0] == 'exc' else None,
                      'cannot be followed', loc)
                return
            s = outs[0][0]
            s, vs = w.one(s, 'o = t.order', t=t)
            seen.append(vs['o'])
        cx.ob('%s: shifting by %d reaches every order' % (table, delta),
              set(seen) == set(orders), 'reaches %d of %d' % (
                  len(set(seen)), len(orders)), loc)
        cx.ob('%s: shifting by %d goes round' % (table, delta),
              seen[-1] == order, 'does not come back', loc)
        i = orders.index(order) if order in orders else 0
        cx.ob('%s: shifting by %d goes to the neighbour' % (table, delta),
              seen[1] == orders[(i + delta) % len(orders)],
              'goes elsewhere', loc)


def negative(v):
    return v[0] == 'op' and v[1] == 'neg' or (
        v[0] == 'op' and v[1] == '/' and negative(v[2])) or None


# name: (own hits, deep time, parent).
PROFILE = [('', 0, 100.0, None), ('ant', 1, 70.0, ''), ('bee', 32, 20.0, ''),
           ('cow', 2, 41.0, 'ant'), ('dog', 16, 12.0, 'ant'),
           ('eel', 4, 30.0, 'cow'), ('fox', 8, 1.0, 'bee'),
           ('gnu', 64, 6.0, ''), ('bee', 128, 5.0, 'cow'),
           ('hen', 0, 0.01, 'gnu')]


def profile_source():
    out, names = [], {}
    for i, (n, hits, time, parent) in enumerate(PROFILE):
        out.append("n%d = F(name=%r, filename='f', lineno=%d, module=%r, "
                   "own_hits=%d, deep_time=%r)" % (
                       i, n or None, 7 if n else 0, 'm' + n[::-1], hits,
                       time))
        names.setdefault(n, i)
        if parent is not None:
            out.append('n%d.children.append(n%d)' % (names[parent], i))
    return '\n'.join(out) + '\n'


def expected_rows(layout):
    """name -> metrics, and the tree of names."""
    kids, first = {}, {}
    for i, (n, hits, time, parent) in enumerate(PROFILE):
        first.setdefault(n, i)
        if parent is not None:
            kids.setdefault(first[parent], []).append(i)

    def deep_hits(i):
        return PROFILE[i][1] + sum(deep_hits(k) for k in kids.get(i, ()))
    ms = {}
    for i, (n, hits, time, parent) in enumerate(PROFILE):
        ms[i] = {'own_hits': hits, 'deep_hits': deep_hits(i),
                 'deep_time': time, 'own_time': time - sum(
                     PROFILE[k][2] for k in kids.get(i, ()))}
    if layout == 'FLAT':
        # one row per function; of nested ones the outer counts.
        flat = {}
        for i in range(1, len(PROFILE)):
            m = flat.setdefault(PROFILE[i][0], dict.fromkeys(ms[i], 0))
            for k in m:
                m[k] += ms[i][k]
        names = [PROFILE[i][0] for i in range(1, len(PROFILE))]
        ms2 = dict((first[n], flat[n]) for n in names)
        kids = {0: sorted(set(first[n] for n in names))}
        ms2[0] = ms[0]
        ms = ms2
    for m in ms.values():
        for k in ('own', 'deep'):
            # a call is an own hit.
            h, t = m['own_hits'], m[k + '_time']
            m[k + '_time_per_call'] = t / float(h) if h else 0.0
    return ms, kids


@rule('C29', 'a profile of ten nodes in both layouts under every order: '
      'the rows are those of the profile, siblings in descending order of '
      'the metric of the chosen column, each cell made from the metric of '
      'its head')
def rendered(cx):
    for table in ('tracing', 'sampling'):
        w = Views(cx)
        I = w.I
        I.opaque = set(I.opaque) | set(
            q for q in I.functions if q.endswith('Formatter.markup_stats'))
        loc = func_site(I, 'viewer.StatisticsTable.refresh')
        st, v = w.one(w.st, profile_source() + """
v = StatisticsViewer()
v.set_profiler_class(cls)
v.set_result(n0, 99.0, 120.0)
t = v.table
cols = list(t.columns)
names = [c[0] for c in cols]
keys = [c[3] for c in cols]
""", cls=w.env[table])
        names, keys = deep(st, v['names']), deep(st, v['keys'])
        refs = [v['n%d' % i] for i in range(len(PROFILE))]
        mean = meanings(table, names)
        for layout in ('NESTED', 'FLAT'):
            for n, m, k in zip(names, mean, keys):
                if k is None or m is None:
                    continue
                what = '%s, %s by %s%s' % (table, layout, n, '' if
                                           names.count(n) < 2 else
                                           ' (%s)' % m[0])
                try:
                    s, vs = w.one(st, """
t.set_layout(layout)
t.sort_stats(key)
root = tree_of(t).body.focus.get_root()
todo = [root]
while todo:
    node = todo.pop()
    node.get_widget().expand()
    if isinstance(node, ParentNode):
        for k in node.get_child_keys():
            todo.append(node.get_child_node(k))
rows = rows_of(t)
ids = [(r[0].name, r[1]) for r in rows]
cells = [r[3][-len(cols):] for r in rows]
""", t=v['t'], cols=v['cols'], key=k, layout=w.env[layout],
                        ParentNode=cx.cls(I, 'urwid.ParentNode'))
                except Undecided as e:
                    cx.ob(what, None, str(e), loc)
                    continue
                ids = deep(s, vs['ids'])
                ms, kids = expected_rows(layout)

                def sort_of(i):
                    if m[0] == 'function':
                        return ('m' + PROFILE[i][0][::-1], PROFILE[i][0])
                    return -ms[i][m[0]]
                want = []

                def visit(i, d):
                    for j in sorted(kids.get(i, ()), key=sort_of):
                        want.append((PROFILE[j][0], d, j))
                        visit(j, d + 1)
                visit(0, 1)
                clear = all(len(set(sort_of(j) for j in ks)) == len(ks)
                            for ks in kids.values())
                if clear:
                    cx.ob(what + ': rows', ids == [x[:2] for x in want],
                          'the rows are %s instead of %s' % (
                              ' '.join('%s%s' % (d, x) for x, d in ids),
                              ' '.join('%s%s' % (d, x) for x, d, j in want)),
                          loc)
                if ids != [x[:2] for x in want]:
                    continue
                total = 99.0 if table == 'tracing' else ms[0]['deep_hits']
                for (name, d, j), cs in zip(want, deep(s, vs['cells'])):
                    for col, cm, c in zip(names, mean, cs):
                        if cm is None or cm[0] == 'function':
                            continue
                        row_cell(cx, '%s: %s of %s%s' % (
                            what, ' '.join(cm), name, d), table, layout,
                            c, ms[j][cm[0]],
                            total if len(cm) == 2 else None, loc)


def row_cell(cx, what, table, layout, c, want, total, loc):
    cs = [x for x in calls_in(c) if x[1].split('.')[-1].startswith('format')]
    if len(cs) != 1:
        cx.ob(what, None, 'shows %s' % (c,), loc)
        return
    v = arg_of(cs[0])
    d = cs[0][3][1] if len(cs[0][3]) > 1 else dict(cs[0][4]).get('denom')
    if not is_c(v) or d is not None and not is_c(d):
        cx.ob(what, None, 'is made from %s' % show(v), loc)
        return
    if total is not None:
        want = want / float(total)
        v = C(v[2] / (float(d[2]) if d else 1.0)) if d is None or d[2] else v
    cx.ob(what, abs(v[2] - want) < 1e-6, 'is made from %r, not %r' % (
        v[2], want), loc)


# -- C30

def attrs_of(x, out):
    """The display attributes in a deep markup."""
    if isinstance(x, list):
        for e in x:
            attrs_of(e, out)
    elif isinstance(x, tuple) and len(x) == 2 and not (
            is_term(x) and x[0] != 'c'):
        out.add(x[0])
        attrs_of(x[1], out)
    return out


@rule('C30', 'every attribute which a formatter can give, for any number; '
      'which the heads have in any state and under any order; and which '
      'rows, marks and the empty table have, is in the palette; those of '
      'rows also in the map for the focused row')
def palette(cx):
    w = Views(cx)
    I = w.I
    I.opaque = set(q for q in I.opaque
                   if q.split('.')[-1].startswith('format'))
    loc = func_site(I, 'viewer.StatisticsViewer.loop')
    st, v = w.one(w.st, '''
v = StatisticsViewer()
pal = [e[0] for e in v.loop().palette]
pal2 = [e[2:3] and e for e in v.loop().palette]
''')
    known = set(deep(st, v['pal']))
    for e in deep(st, v['pal2']):
        cx.ob('palette: form of %s' % e[0], 3 <= len(e) <= 6 and all(
            x is None or isinstance(x, str) for x in e) if isinstance(
                e, tuple) else None, 'is %s' % (e,), loc)
    used = {}            # attribute -> (where, in rows?, loc)

    def use(attrs, where, rows, loc):
        for a in attrs:
            if a is None:
                continue
            if isinstance(a, str):
                used.setdefault((a, rows), (where, loc))
            else:
                cx.ob('attribute in ' + where, None, 'is %s' % (a,), loc)

    # what formatters give.
    fmt = cx.cls(I, 'viewer.Formatter')
    num, den, node = S('number'), S('total'), S('stats')
    n = 0
    for name in sorted(I.world.get(fmt).attrs):
        kind = name.split('_')[0]
        if kind not in ('attr', 'markup'):
            continue
        n += 1
        loc2 = func_site(I, 'viewer.Formatter.' + name) or loc
        for s0, f, exc in I.ga(w.st.fork(), fmt, name, None, top()):
            calls = [[node]] if name == 'markup_stats' else [[num]]
            if name in ('attr_ratio', 'markup_percent'):
                calls.append([num, den])
            for args in calls:
                I.steps = 0
                for s, x, exc in cx.call(I, s0.fork(), f, args):
                    if exc is not None:
                        continue
                    x = deep(s, x)
                    use([x] if kind == 'attr' else attrs_of(x, set()),
                        'Formatter.' + name, True, loc2)
    cx.ob('formatters', n >= 4 or None, 'only %d are known' % n, loc)
    # what heads, rows and the empty table have.
    for q in ('plain', 'tracing', 'sampling'):
        st, v = w.one(w.st, profile_source() + '''
v = StatisticsViewer()
v.set_profiler_class(cls)
t = v.table
''', cls=w.env[q])
        loc2 = func_site(I, 'viewer.StatisticsTable.update_frame')
        orders = deep(*w_pair(w.one(st, 'o = [c[3] for c in t.columns '
                                    'if c[3]]', t=v['t']), 'o'))
        for ops in itertools.product(('pass', 'v.activate()', 'v.pause()'),
                                     repeat=2):
            for k in orders:
                s, vs = w.one(st, '%s\nt.sort_stats(key)\n%s\n'
                              't.update_frame()\nh = head_of(v.widget)'
                              % ops, v=v['v'], t=v['t'], key=k)
                for maps, m in deep(s, vs['h']):
                    use(attrs_of(m, set()), 'the head', False, loc2)
                    for d in maps:
                        use(d.values() if isinstance(d, dict) else [d],
                            'the head', False, loc2)
        outs = w.run(st, '''
w = t.tbody.get_focus()[0]
ms = [(m, x) for k, m, x in texts_of(w, (), []) if k == 'text']
''', t=v['t'])
        for s, vs, exc in outs:
            if exc is None:
                for maps, m in deep(s, vs['ms']):
                    use(attrs_of(m, set()), 'the empty table', True, loc2)
        # rows: marks in each state, the frame of a row.
        I2 = set(I.opaque)
        I.opaque = I2 | set(n for n in I.functions if '.Formatter.' in n and
                            n.split('.')[-1].split('_')[0] in (
                                'attr', 'markup'))
        outs = w.run(st, '''
v.set_result(n0, 99.0, 120.0)
root = tree_of(t).body.focus.get_root()
out = []
for k in root.get_child_keys():
    node = root.get_child_node(k)
    wd = node.get_widget()
    for i in range(3):
        if i == 1:
            wd.expand()
        elif i == 2:
            wd.collapse()
        for kind, m, x in texts_of(wd, (), []):
            out.append((m, x))
''', t=v['t'], v=v['v'], n0=v['n0'])
        I.opaque = I2
        loc3 = func_site(I, 'viewer.StatisticsWidget.get_mark')
        for s, vs, exc in outs:
            if exc is not None:
                cx.ob(q + ': rows', None, 'raises %s' % show(exc[1]), loc3)
                continue
            for maps, m in deep(s, vs['out']):
                use([a for a in attrs_of(m, set()) if a is None or isinstance(
                    a, str)], 'a row', True, loc3)
                for d in maps:
                    use(d.values() if isinstance(d, dict) else [d], 'a row',
                        True, loc3)
    s, vs = w.one(w.st, '''
maps = []
def find(w):
    if isinstance(w, AttrMap):
        maps.append(w.focus_map)
    if isinstance(w, WidgetWrap):
        find(w._w)
    elif isinstance(w, WidgetDecoration):
        find(w.original_widget)
v = StatisticsViewer()
v.set_result(F(children=[F(name='a')]))
root = tree_of(v.widget).body.focus.get_root()
find(root.get_child_node(root.get_child_keys()[0]).get_widget())
''')
    maps = [m for m in deep(s, vs['maps']) if isinstance(m, dict)]
    cx.ob('focused rows', len(maps) == 1 or None,
          '%d maps for the focus' % len(maps), loc)
    focus = {}
    for m in maps:
        focus.update((C(k) if not isinstance(k, tuple) else k, x)
                     for k, x in m.items())
    for x in set(focus.values()):
        cx.ob('focused: %s' % x, x in known if isinstance(x, str) else None,
              'the palette has no %s' % x, loc)
    cx.ob('focused: plain text', not maps or NONE in focus,
          'plain text of a focused row is not marked', loc)
    for (a, rows), (where, loc2) in sorted(used.items()):
        cx.ob('%s of %s' % (a, where), a in known,
              'the palette has no %s' % a, loc2)
        if rows and maps:
            cx.ob('%s of %s, focused' % (a, where), C(a) in focus,
                  'a focused row has no form of %s' % a, loc2)


def w_pair(pair, name):
    return pair[0], pair[1][name]


# -- C31

#: Trees by paths of one-letter functions: what a result consists of.
TREE = {'a': {'b': {'c': {}, 'd': {}}, 'e': {}}, 'f': {'b': {'c': {}}},
        'g': {'l': {'m': {'n': {'o': {'p': {}}}}}}}
#: The results which may follow it.
AFTER = {
    'the same': TREE,
    'a grown one': {'a': {'b': {'c': {'h': {}}, 'd': {}, 'i': {}}, 'e': {}},
                    'f': {'b': {'c': {}}}, 'g': {'j': {}}, 'k': {}},
    'one without c': {'a': {'b': {'d': {}}, 'e': {}}, 'f': {'b': {}},
                      'g': {}},
    'one without b': {'a': {'c': {}, 'e': {}}, 'f': {'c': {}}, 'g': {}},
    'one without a': {'f': {'b': {'c': {}}}, 'b': {'c': {}}, 'g': {}},
    'an empty one': {},
}


def tree_source(tree, var, reverse=False):
    out = ["%s = F(name=None, filename=None, lineno=None, module='m')" % var]
    n = [0]

    def add(parent, t):
        names = sorted(t, reverse=reverse)
        for i, k in enumerate(names):
            n[0] += 1
            v = '%s_%d' % (var, n[0])
            out.append("%s = F(name=%r, filename='f', lineno=%d, module=%r, "
                       "own_hits=%d, deep_time=%r)" % (
                           v, k, sum(ord(c) * 131 ** j for j, c in
                               enumerate(k)), 'm' + k, n[0],
                           float(100 - n[0] if not reverse else n[0])))
            out.append('%s.children.append(%s)' % (parent, v))
            add(v, t[k])
    add(var, tree)
    return '\n'.join(out) + '\n'


def paths_of(tree):
    out = [()]
    for k in sorted(tree):
        out += [(k,) + p for p in paths_of(tree[k])]
    return out


def nearest(tree, path):
    out = ()
    for k in path:
        if k not in tree:
            break
        out += (k,)
        tree = tree[k]
    return out


def flat_of(tree):
    out = {}
    for k, sub in tree.items():
        out[k] = {}
        out.update(flat_of(sub))
    return out


FOCUS = '''
def find(t, path):
    node = tree_of(t).body.focus.get_root()
    for name in path:
        for k in node.get_child_keys():
            if k.name == name:
                node = node.get_child_node(k)
                break
    return node
def path_of(t):
    out = []
    node = tree_of(t).body.focus
    while not node.is_root():
        out.insert(0, node.get_value().name)
        node = node.get_parent()
    return out
def expanded_of(t):
    """name -> expanded, of every row that has something below it."""
    out = []
    todo = [(tree_of(t).body.focus.get_root(), ())]
    while todo:
        node, path = todo.pop()
        if isinstance(node, ParentNode):
            for k in node.get_child_keys():
                child = node.get_child_node(k)
                todo.append((child, path + (k.name,)))
                if isinstance(child, ParentNode):
                    out.append((path + (k.name,),
                                child.get_widget().expanded))
    return out
'''

CHANGES = [('shows ' + k, 'v.set_result(%s)' % 'r%d' % i, AFTER[k])
           for i, k in enumerate(sorted(AFTER))] + [
    ('shows the same with other numbers', 'v.set_result(rev)', TREE),
    ('sorts', 't.shift_order(2)', TREE),
    ('shows it flat', 't.set_layout(FLAT)', flat_of(TREE)),
    ('shows it flat and nested again',
     't.set_layout(FLAT)\nt.set_layout(NESTED)', None),
    ('shows it again', 't.refresh()', TREE),
    ('shows another while paused, then resumes',
     'v.pause()\nv.set_result(rev)\nv.resume()', TREE),
]


@rule('C31', 'every node of a profile focused, with several sets of '
      'functions expanded and folded again, followed by a result (the same, '
      'grown, shrunk, with other numbers, empty), another order or another '
      'layout: the focus is where it was or at the nearest ancestor, and '
      'exactly the functions left expanded are')
def survives(cx):
    for table in ('tracing', 'sampling'):
        w = Views(cx)
        I = w.I
        loc = func_site(I, 'viewer.StatisticsTable.refresh')
        locx = func_site(I, 'viewer.StatisticsNodeBase.setup_widget') or loc
        src = FOCUS + tree_source(TREE, 'base') + tree_source(
            TREE, 'rev', True)
        for i, k in enumerate(sorted(AFTER)):
            src += tree_source(AFTER[k], 'r%d' % i)
        st, v = w.one(w.st, src + '''
v = StatisticsViewer()
v.set_profiler_class(cls)
v.set_result(base)
t = v.table
''', cls=w.env[table], ParentNode=cx.cls(I, 'urwid.ParentNode'))
        env = dict((k, x) for k, x in v.items() if not k.startswith('__'))
        env.update(FLAT=w.env['FLAT'], NESTED=w.env['NESTED'])
        if table == 'tracing':
            for path in paths_of(TREE):
                for what, change, after in CHANGES:
                    focus(cx, w, st, env, path, what, change, after, loc)
        for what, change, after in CHANGES:
            for ups, downs in ((('a',), ()), (('a', 'ab'), ()),
                               (('a', 'ab', 'f'), ('a',)),
                               (('a', 'ab', 'f'), ('f', 'ab')),
                               (('f', 'a', 'ab'), ('a', 'ab', 'f')),
                               ((), ())):
                expansion(cx, w, st, env, table, ups, downs, what, change,
                          after, locx)


#: A tree with many functions beside and below each other.
WIDE = dict(('w%02d' % i, {}) for i in range(40))
WIDE['w37'] = dict(('x%02d' % i, {}) for i in range(30))
WIDE['w39'] = {'y': {}}
for _i in range(25):
    WIDE['w39'] = {'z%02d' % _i: WIDE['w39']}


@rule('C31', 'of a profile with 40 functions beside and 26 below each other, '
      'the last ones focused and expanded: what follows a refresh, other '
      'numbers and another order')
def many(cx):
    w = Views(cx)
    I = w.I
    I.while_rounds, I.deepest, I.MAXDEPTH = 200, 64, 128
    loc = func_site(I, 'viewer.StatisticsTable.refresh')
    st, v = w.one(w.st, FOCUS + tree_source(WIDE, 'base') + tree_source(
        WIDE, 'rev', True) + '''
v = StatisticsViewer()
v.set_profiler_class(cls)
v.set_result(base)
t = v.table
''', cls=w.env['tracing'], ParentNode=cx.cls(I, 'urwid.ParentNode'))
    env = dict((k, x) for k, x in v.items() if not k.startswith('__'))
    env.update(FLAT=w.env['FLAT'], NESTED=w.env['NESTED'])
    last = max(paths_of(WIDE), key=len)
    on = [last[:i] for i in range(1, len(last))] + [('w37',)]
    src = ''.join('find(t, %r).get_widget().expand()\n' % (p,) for p in on)
    for what, change in (('is shown again', 'v.set_result(base)'),
                         ('has other numbers', 'v.set_result(rev)'),
                         ('is sorted', 't.shift_order(2)')):
        for path in (('w00',), ('w36',), ('w37', 'x00'), ('w37', 'x29'), last,
                     last[:20]):
            m = 'the focus on %s of many, then it %s' % ('.'.join(path)[:9],
                                                         what)
            r = attempt(cx, w, st, m, loc, src + 't.set_focus(find(t, %r))\n'
                        '%s\np = path_of(t)\nx = expanded_of(t)\n' % (
                            path, change), env)
            if r is None:
                continue
            got = tuple(deep(r[0], r[1]['p']))
            cx.ob(m, got == path, 'the focus is on %s' % '.'.join(got), loc)
            off = [p for p, x in deep(r[0], r[1]['x']) if not x]
            cx.ob(m + ': expanded', not off, '%s is folded' % '.'.join(
                off[0]) if off else '', loc)


def attempt(cx, w, st, what, loc, src, env):
    outs = w.run(st, src, **env)
    if len(outs) == 1 and outs[0][2] is None:
        return outs[0][:2]
    excs = [e for s, v, e in outs if e is not None]
    if excs and len(outs) == 1 and excs[0][0] == 'exc':
        cx.ob(what, False, 'raises %s' % show(excs[0][1]), loc)
    else:
        cx.ob(what, None, 'runs in %d ways' % len(outs), loc)
    return None


def focus(cx, w, st, env, path, what, change, after, loc):
    what = 'focus on %s, then the viewer %s' % ('.'.join(path) or 'the root',
                                                what)
    r = attempt(cx, w, st, what, loc, 't.set_focus(find(t, %r))\n%s\n'
                'p = path_of(t)\n' % (path, change), env)
    if r is None:
        return
    got = tuple(deep(r[0], r[1]['p']))
    want = nearest(after, path) if after is not None else \
        nearest(TREE, nearest(flat_of(TREE), path))
    cx.ob(what, got == want, 'the focus is on %s instead of %s' % (
        '.'.join(got) or 'the root', '.'.join(want) or 'the root'), loc)


def expansion(cx, w, st, env, table, ups, downs, what, change, after, loc):
    what = '%s: %s expanded%s, then the viewer %s' % (
        table, ', '.join(ups) or 'nothing', ', %s folded' % ', '.join(downs)
        if downs else '', what)
    src = ''
    for p, how in [(u, 'expand') for u in ups] + [(d, 'collapse')
                                                  for d in downs]:
        src += 'find(t, %r).get_widget().%s()\n' % (tuple(p), how)
    r = attempt(cx, w, st, what, loc, src + change + '\nx = expanded_of(t)\n',
                env)
    if r is None:
        return
    on = set(u[-1] for u in ups) - set(d[-1] for d in downs)
    got = deep(r[0], r[1]['x'])
    for p, x in got:
        if not isinstance(x, bool):
            cx.ob('%s: %s' % (what, '.'.join(p)), None, 'not known', loc)
            continue
        cx.ob('%s: %s' % (what, '.'.join(p)), x == (p[-1] in on),
              '%s is %s' % (p[-1], 'expanded' if x else 'folded'), loc)


@rule('C31', 'the hash of statistics, of every kind, before and after '
      'freezing, is made of name, file name and line, and of nothing else')
def identity(cx):
    I = interp()
    I.concrete_ok = True
    I.policy = lambda ev, st, fr: []
    loc = func_site(I, 'stats.Statistics.__hash__')
    st0 = I.start_state()
    code, frame = S('code'), S('frame')
    for x in (code,):
        I.assume(st0, I.mkcmp('is', x, NONE), False)
        I.assume(st0, ('truth', x, 0), True)
    three = ('name', 'filename', 'lineno')
    for kind, q in (('frozen', 'stats.FrozenStatistics'),
                    ('flat', 'stats.FlatFrozenStatistics'),
                    ('plain', 'stats.Statistics')):
        c = cx.cls(I, q)
        fields = three + ('module', 'own_hits', 'deep_time')
        env = dict((f, S(f)) for f in fields)
        env.update(('other_' + f, S('other ' + f)) for f in fields)
        env['K'] = c
        for f in fields:
            kw = ', '.join('%s=%s%s' % (g, 'other_' if g == f else '', g)
                           for g in fields)
            kw0 = ', '.join('%s=%s' % (g, g) for g in fields)
            for s, v, exc in snippet(
                    cx, I, st0.fork(), 'a = hash(K(%s))\nb = hash(K(%s))'
                    % (kw0, kw), env):
                what = '%s statistics with another %s' % (kind, f)
                if exc is not None:
                    cx.ob(what, None if exc[0] == 'uexc' else False,
                          'raises %s' % show(exc[1]), loc)
                elif f in three:
                    cx.ob(what, v['a'] != v['b'],
                          'cannot be told apart', loc)
                else:
                    cx.ob(what, v['a'] == v['b'],
                          'has another identity: %s' % show(v['b'])[:100],
                          loc)
    # a recording one and what it is frozen to.
    env = {'R': cx.cls(I, 'stats.RecordingStatistics'),
           'V': cx.cls(I, 'stats.VoidRecordingStatistics'), 'code': code}
    I.assume(st0, I.mkcmp('==', ('a', code, 'co_name'), C('<module>')),
             False)

    def getmodule(I, st, args, kw, node, fr):
        m = ('a', args[0], '__module__')
        I.assume(st, ('truth', m, 0), True)
        I.assume(st, I.mkcmp('is', m, NONE), False)
        return [(st, m, None)]
    I.ext_over['inspect.getmodule'] = getmodule
    for kind in ('R', 'V'):
        for hits in ('', 'x.own_hits = hits\nx.deep_time = hits\n'
                     if kind == 'R' else ''):
            src = 'x = %s(code)\n%sa = hash(x)\nr = x.__reduce__()\n' \
                'y = r[0](*r[1])\nb = hash(y)\nz = y.__reduce__()\n' \
                'c = hash(z[0](*z[1]))' % (kind, hits)
            for s, v, exc in snippet(cx, I, st0.fork(), src, dict(
                    env, hits=S('hits'))):
                what = {'R': 'recording', 'V': 'placeholder'}[kind] + (
                    ' with hits' if hits else '')
                if exc is not None:
                    cx.ob(what, None if exc[0] == 'uexc' else False,
                          'raises %s' % show(exc[1]), loc)
                    continue
                cx.ob(what + ': frozen', v['a'] == v['b'],
                      '%s becomes %s' % (show(v['a'])[:100],
                                         show(v['b'])[:100]), loc)
                cx.ob(what + ': frozen twice', v['b'] == v['c'],
                      '%s becomes %s' % (show(v['b'])[:100],
                                         show(v['c'])[:100]), loc)


# -- C41

PRESS = '''
def press(loop, key):
    k = loop.widget.keypress((80, 24), key)
    if k:
        loop.unhandled_input(k)
'''


class Keys(object):

    def __init__(self, cx, table='tracing', result=True):
        self.w = w = Views(cx)
        I = w.I
        st, v = w.one(w.st, FOCUS + PRESS + tree_source(TREE, 'base') + '''
v = StatisticsViewer()
v.set_profiler_class(cls)
loop = v.loop()
v.activate()
t = v.table
''' + ('v.set_result(base)\n' if result else ''), cls=w.env[table],
            ParentNode=cx.cls(I, 'urwid.ParentNode'))
        self.st = st
        self.env = dict((k, x) for k, x in v.items()
                        if not k.startswith('__'))
        self.env.update(FLAT=w.env['FLAT'], NESTED=w.env['NESTED'],
                        urwid=I.modrefs['urwid'])

    def press(self, src, key):
        return self.w.run(self.st, src + '''
before = (v.paused, t.layout, t.order, path_of(t), expanded_of(t))
%spress(loop, %r)
after = (v.paused, t.layout, t.order, path_of(t), expanded_of(t))
''' % ('', key), **self.env)


@rule('C41', 'each documented key, pressed at every node of a profile and '
      'before there is one, as the main loop hands it on: it does what the '
      'manual says and nothing else of it')
def keys(cx):
    k = Keys(cx)
    I = k.w.I
    loc = func_site(I, 'viewer.StatisticsTable.keypress')
    locq = func_site(I, 'viewer.StatisticsViewer.unhandled_input')
    exit_loop = cx.cls(I, 'urwid.ExitMainLoop')
    nested = deep(k.st, k.env['NESTED'])
    flat = deep(k.st, k.env['FLAT'])
    s, v = k.w.one(k.st, 'o = [c[3] for c in t.columns if c[3]]', **k.env)
    orders = deep(s, v['o'])

    def pressed(what, kk, src, key, loc=loc):
        """[(before, after)] of the ways it goes without exception."""
        out = []
        for s, v, exc in kk.press(src, key):
            if exc is not None:
                cx.ob(what, None if exc[0] == 'uexc' else False,
                      'raises %s' % show(exc[1]), loc)
            else:
                out.append((deep(s, v['before']), deep(s, v['after'])))
        if len(out) > 1:
            cx.ob(what, None, 'goes %d ways' % len(out), loc)
            return []
        return out

    # quitting.
    for none in (True, False):
        kk = Keys(cx, result=not none)
        for key in ('q', 'Q', 'x', 'f5'):
            what = 'key %s%s' % (key, ' without a result' if none else '')
            for s, v, exc in kk.press('', key):
                o = s.get(exc) if exc is not None else None
                quits = exc is not None and exit_loop in (
                    exc[1], o.cls if o is not None else None)
                if exc is not None and not quits:
                    cx.ob(what, None if exc[0] == 'uexc' else False,
                          'raises %s' % show(exc[1]), locq)
                else:
                    cx.ob(what, quits == (key in 'qQ'), 'quits' if quits
                          else 'does not quit', locq)

    def same(what, b, a, *but):
        for name, i in (('paused', 0), ('layout', 1), ('order', 2),
                        ('focus', 3), ('expanded', 4)):
            if name not in but:
                x, y = b[i], a[i]
                if name == 'expanded':
                    x, y = sorted(x, key=str), sorted(y, key=str)
                cx.ob('%s: %s' % (what, name), x == y,
                      'the %s changes' % name, loc)

    # pausing, whether a result is there or not.
    for kk, name in ((k, ''), (Keys(cx, result=False), ' without a result')):
        for key in (' ', 'enter'):
            for src, was in (('', False), ('v.pause()\n', True)):
                what = 'key %r%s%s' % (key, name, ' while paused' if was
                                       else '')
                for b, a in pressed(what, kk, src, key):
                    cx.ob(what, a[0] == (not was), 'paused is %s' % a[0],
                          loc)
                    same(what, b, a, 'paused')
        for key in ('>', 'esc', '[', ']', '\\', 'right', 'left', 'up',
                    'down'):
            pressed('key %s%s' % (key, name), kk, '', key)
            if key in '[]':
                pressed('key %s%s twice' % (key, name), kk,
                        'press(loop, %r)\n' % key, key)
    # order and layout.
    for i, o in enumerate(orders):
        for key, d in ((']', 1), ('[', -1)):
            what = 'key %s at column %d' % (key, i)
            kk = k
            s, v = k.w.one(k.st, 't.sort_stats([c[3] for c in t.columns '
                           'if c[3]][%d])' % i, **k.env)
            for b, a in pressed(what, k, 't.sort_stats([c[3] for c in '
                                't.columns if c[3]][%d])\n' % i, key):
                want = orders[(i + d) % len(orders)]
                cx.ob(what, a[2] == want, 'the order is that of column %s' % (
                    orders.index(a[2]) if a[2] in orders else '?'), loc)
                same(what, b, a, 'order')
    for src, want in (('', flat), ('t.set_layout(FLAT)\n', nested)):
        what = 'key \\ %s' % ('once' if not src else 'twice')
        for b, a in pressed(what, k, src, '\\'):
            cx.ob(what, a[1] == want, 'the layout is %s' % (a[1],), loc)
            same(what, b, a, 'layout', 'expanded')
    # movement and expansion.
    tree = dict_order(k, TREE)
    for path in paths_of(TREE):
        src = ''.join('find(t, %r).get_widget().expand()\n' % (path[:i],)
                      for i in range(1, len(path)))
        at = 't.set_focus(find(t, %r))\n' % (path,)
        here = '.'.join(path) or 'the root'
        sub = tree
        for p in path:
            sub = dict(sub)[p]
        for b, a in pressed('key esc at ' + here, k, src + at, 'esc'):
            cx.ob('key esc at ' + here, a[3] == [], 'the focus is on %s' %
                  '.'.join(a[3]), loc)
            same('key esc at ' + here, b, a, 'focus')
        # the hotspot.
        hot, s2 = list(path), sub
        while s2:
            hot.append(s2[0][0])
            s2 = s2[0][1]
        for b, a in pressed('key > at ' + here, k, src + at, '>'):
            what = 'key > at ' + here
            cx.ob(what, a[3] == hot, 'the focus is on %s instead of %s' % (
                '.'.join(a[3]), '.'.join(hot)), loc)
            exp = dict((p, x) for p, x in a[4])
            for i in range(1, len(hot)):
                cx.ob('%s: %s' % (what, '.'.join(hot[:i])), exp.get(
                    tuple(hot[:i])), 'is not expanded', loc)
            same(what, b, a, 'focus', 'expanded')
        if not path:
            continue
        for was, mode in itertools.product((True, False), (
                '', ', paused', ', inactive')):
            if not sub or mode and path[0] != 'a':
                continue
            src2 = src + ('find(t, %r).get_widget().expand()\n' % (path,)
                          if was else '') + {
                '': '', ', paused': 'v.pause()\n',
                ', inactive': 'v.inactivate()\n'}[mode]
            # the same function elsewhere is looked at on its own.
            for key in ('right', 'left'):
                what = 'key %s at %s %s%s' % (
                    key, 'an expanded' if was else 'a folded', here, mode)
                for b, a in pressed(what, k, src2 + at, key):
                    now = dict(a[4]).get(path)
                    foc = list(path)
                    if key == 'right' and was:
                        foc.append(sub[0][0])
                    if key == 'left' and not was and len(path) > 1:
                        foc.pop()
                    cx.ob(what + ': focus', a[3] == foc,
                          'is on %s instead of %s' % ('.'.join(a[3]),
                                                      '.'.join(foc)), loc)
                    cx.ob(what + ': expanded', now == (
                        key == 'right' or False), 'is %s' % now, loc)
                    same(what, b, a, 'focus', 'expanded')
        for key in ('right', 'left'):
            if len(path) == 1:
                what = 'key %s at %s, flat' % (key, here)
                for b, a in pressed(what, k, 't.set_layout(FLAT)\n' + at,
                                    key):
                    same(what, b, a)
    # in the flat layout, and while paused.
    names = sorted(set(p[-1] for p in paths_of(TREE) if p))
    for mode, pre, where in (
            ('flat', 't.set_layout(FLAT)\n', [(n,) for n in names]),
            ('paused', 'v.pause()\n', [p for p in paths_of(TREE) if p]),
            ('inactive', 'v.inactivate()\n', [(names[0],)])):
        for path in where:
            here = 'key %%s at %s, %s' % ('.'.join(path), mode)
            src = pre + ''.join(
                'find(t, %r).get_widget().expand()\n' % (path[:i],)
                for i in range(1, len(path)))
            at = src + 't.set_focus(find(t, %r))\n' % (path,)
            for b, a in pressed(here % 'esc', k, at, 'esc'):
                cx.ob(here % 'esc', a[3] == [], 'the focus is on %s' %
                      '.'.join(a[3]), loc)
                same(here % 'esc', b, a, 'focus')
            if mode == 'flat':
                for b, a in pressed(here % '>', k, at, '>'):
                    same(here % '>', b, a, 'expanded')
            else:
                hot, sub = list(path), tree
                for p in path:
                    sub = dict(sub)[p]
                while sub:
                    hot.append(sub[0][0])
                    sub = sub[0][1]
                for b, a in pressed(here % '>', k, at, '>'):
                    cx.ob(here % '>', a[3] == hot, 'the focus is on %s '
                          'instead of %s' % ('.'.join(a[3]),
                                             '.'.join(hot)), loc)
                    same(here % '>', b, a, 'focus', 'expanded')
            if path != where[0]:
                continue
            for key in ('enter', ' '):
                for b, a in pressed(here % repr(key), k, at, key):
                    cx.ob(here % repr(key), a[0] == (not b[0]),
                          'paused is %s' % a[0], loc)
                    same(here % repr(key), b, a, 'paused')
            for key, d in ((']', 1), ('[', -1)):
                for b, a in pressed(here % key, k, at, key):
                    now = orders.index(b[2]) if b[2] in orders else 0
                    cx.ob(here % key, a[2] == orders[(now + d) % len(orders)],
                          'the order is another one', loc)
                    same(here % key, b, a, 'order')
            for b, a in pressed(here % '\\', k, at, '\\'):
                cx.ob(here % '\\', a[1] == (nested if b[1] == flat else flat),
                      'the layout is %s' % (a[1],), loc)
                same(here % '\\', b, a, 'layout', 'expanded', 'focus')
    # up and down.
    rows = [p for p in visible(tree, ())]
    src = ''.join('find(t, %r).get_widget().expand()\n' % (p,)
                  for p in rows)
    for i, path in enumerate(rows):
        at = 't.set_focus(find(t, %r))\n' % (path,)
        for key, d in (('down', 1), ('up', -1)):
            if not 0 <= i + d < len(rows):
                continue
            what = 'key %s at %s' % (key, '.'.join(path))
            for b, a in pressed(what, k, src + at, key):
                cx.ob(what, tuple(a[3]) == rows[i + d],
                      'the focus is on %s' % '.'.join(a[3]), loc)
                same(what, b, a, 'focus')


def visible(tree, path):
    for n, sub in tree:
        yield path + (n,)
        for p in visible(sub, path + (n,)):
            yield p


def dict_order(k, tree):
    """The tree as the table orders it: heaviest first."""
    # tree_source gives what comes first the longer time.
    return [(n, dict_order(k, tree[n])) for n in sorted(tree)]


@rule('C41', 'the keys bound for vim and for games mean what the arrow of '
      'the matching direction means, on the default library and on one that '
      'is given')
def bindings(cx):
    for name, keys in (('bind_vim_keys', 'hjkl'),
                       ('bind_game_keys', 'aswd')):
        for given in (False, True):
            k = Keys(cx)
            I = k.w.I
            loc = func_site(I, 'viewer.' + name)
            f = cx.func(I, 'viewer.' + name)
            src = '''
class Lib(object):
    command_map = {'left': 'L', 'right': 'R', 'up': 'U', 'down': 'D'}
bind(%s)
m = %s
left, down, up, right = [m[x] for x in ('left', 'down', 'up', 'right')]
got = [m[x] for x in %r]
''' % ('Lib' if given else '', 'Lib.command_map' if given else
                'urwid.command_map', keys)
            for s, v, exc in k.w.run(k.st, src, bind=f, **k.env):
                what = name + (', given a library' if given else '')
                if exc is not None:
                    cx.ob(what, None if exc[0] == 'uexc' else False,
                          'raises %s' % show(exc[1]), loc)
                    continue
                got = deep(s, v['got'])
                for key, way, x in zip(keys, ('left', 'down', 'up', 'right'),
                                       got):
                    cx.ob('%s: %s is %s' % (what, key, way),
                          x == deep(s, v[way]), 'it is %s' % (x,), loc)
            if not given:
                # and they act so.
                for key, way in zip(keys, ('left', 'down', 'up', 'right')):
                    src = '''
bind()
find(t, ('a',)).get_widget().expand()
t.set_focus(find(t, ('a', 'b')))
'''
                    res = []
                    for x in (key, way):
                        for s, v, exc in k.w.run(k.st, src + '''
press(loop, %r)
after = (path_of(t), expanded_of(t))
''' % x, bind=f, **k.env):
                            res.append(None if exc is not None else
                                       deep(s, v['after']))
                    cx.ob('%s: %s acts as %s' % (name, key, way),
                          res[0] == res[1] if len(res) == 2 and None not in
                          res else None, 'it does not', loc)


# -- the table of the profiler

SWITCH = '''
class DerivedTable(tracing.table_class):
    pass
class Derived(tracing):
    table_class = DerivedTable
v = StatisticsViewer()
'''


def switches(cx):
    """(what, state, variables): the viewer was told a second profiler."""
    w = Views(cx)
    st, v = w.one(w.st, SWITCH)
    names = [n for n, __ in TABLES] + ['derived']
    classes = dict((n, v['Derived'] if n == 'derived' else w.env[n])
                   for n in names)
    for a in names:
        for b in names:
            for how in ('at once', 'after a result', 'while paused'):
                what = '%s, %s then %s' % (a, how, b)
                s = st.fork()
                src = ['v.set_profiler_class(a)']
                r1, r2 = w.result(s, 1), w.result(s, 2)
                if how != 'at once':
                    src.append('v.set_result(*r1)')
                if how == 'while paused':
                    src += ['v.pause()', 'v.set_profiler_class(b)',
                            'v.set_result(*r2)', 'v.resume()']
                else:
                    src += ['v.set_profiler_class(b)', 'v.set_result(*r2)']
                src += ['kind = type(v.table)', 'want = b.table_class',
                        'order = v.table.order', 'first = want.order',
                        'x = root_of(v.widget)', 'n = len(want.columns)',
                        'heads = head_of(v.widget)']
                try:
                    s, vs = w.one(s, '\n'.join(src), v=v['v'], a=classes[a],
                                  b=classes[b], r1=T(*r1), r2=T(*r2))
                except Undecided as e:
                    yield w, what, None, str(e)
                    continue
                yield w, what, s, (vs, r2)


@rule('C24', 'every profiler class told to the viewer after every other one, '
      'before and after results and while paused: the table is exactly that '
      'of the class and shows the result')
def selects(cx):
    for w, what, s, x in switches(cx):
        loc = func_site(w.I, 'viewer.StatisticsViewer.set_profiler_class')
        if s is None:
            cx.ob(what, None, x, loc)
            continue
        vs, r = x
        cx.ob(what + ': the table', vs['kind'] == vs['want'],
              'the table is a %s' % show(vs['kind']), loc)
        cx.ob(what + ': the result', vs['x'] == r[0],
              'it shows %s' % show(vs['x']), loc)


@rule('C28', 'every profiler class told to the paused viewer after every '
      'other one, with and without further results: what it paused at is '
      'still shown, the most recent result after resuming')
def paused_and_told(cx):
    w = Views(cx)
    loc = func_site(w.I, 'viewer.StatisticsViewer.set_profiler_class')
    st, v = w.one(w.st, SWITCH)
    names = [n for n, __ in TABLES] + ['derived']
    classes = dict((n, v['Derived'] if n == 'derived' else w.env[n])
                   for n in names)
    for a in names:
        for b in names:
            for steps in (('class',), ('class', 'result'),
                          ('result', 'class'), ('class', 'resume'),
                          ('class', 'result', 'resume'),
                          ('result', 'class', 'resume'),
                          ('class', 'back'), ('class', 'update')):
                what = '%s, paused, %s' % (a, ', '.join(
                    '%s: %s' % (x, b) if x == 'class' else x for x in steps))
                s = st.fork()
                w.I.steps = 0
                r1, r2 = w.result(s, 1), w.result(s, 2)
                src = ['v.set_profiler_class(a)', 'v.set_result(*r1)',
                       'v.pause()']
                src += [{'class': 'v.set_profiler_class(b)',
                         'back': 'v.set_profiler_class(a)',
                         'result': 'v.set_result(*r2)',
                         'update': 'v.update_result()',
                         'resume': 'v.resume()'}[x] for x in steps]
                src += ['x = root_of(v.widget)', 'h = head_of(v.widget)']
                want = r2 if 'resume' in steps and 'result' in steps else r1
                try:
                    s, vs = w.one(s, '\n'.join(src), v=v['v'], a=classes[a],
                                  b=classes[b], r1=T(*r1), r2=T(*r2))
                except Undecided as e:
                    cx.ob(what, None, str(e), loc)
                    continue
                x = vs['x']
                cx.ob(what, x == want[0] if x == NONE or x[0] == 's' else
                      None, 'it shows %s instead of %s' % (
                          'nothing' if x == NONE else show(x),
                          show(want[0])), loc)
                cx.ob(what + ': header', says(deep(s, vs['h']), want[1]),
                      'does not tell its CPU time', loc)


@rule('C29', 'every profiler class told to the viewer after every other one: '
      'the table starts with the order its class declares')
def starts_with(cx):
    for w, what, s, x in switches(cx):
        loc = func_site(w.I, 'viewer.StatisticsViewer.set_profiler_class')
        if s is None:
            cx.ob(what, None, x, loc)
            continue
        vs, r = x
        if vs['kind'] == vs['want']:
            cx.ob(what + ': initial order', vs['order'] == vs['first'],
                  'is not that of the table', loc)


# -- C49

SHAPE = '''
def indent_of(w):
    while True:
        if isinstance(w, AttrMap):
            w = w.original_widget
        elif isinstance(w, Padding):
            return w.left
        elif isinstance(w, WidgetDecoration):
            w = w.original_widget
        elif isinstance(w, WidgetWrap):
            w = w._w
        else:
            return None
def shape_of(t):
    """Every row as it is drawn: name, indentation, texts."""
    out = []
    widget = tree_of(t).body.focus.get_root().get_widget()
    while widget is not None:
        out.append((widget.get_node().value_name(), indent_of(widget),
                    [x for k, m, x in texts_of(widget, (), [])]))
        widget = widget.next_inorder()
    return out
'''.replace('widget.get_node().value_name()',
            'widget.get_node().get_value().name')

#: Each way to open and close rows: source, paths that are open then.
OPENED = (
    ('nothing opened', '', ()),
    ('a', "find(t, 'a').get_widget().expand()", ('a',)),
    ('a, a.b', "find(t, 'a').get_widget().expand()\n"
     "find(t, 'ab').get_widget().expand()", ('a', 'ab')),
    ('a, a.b, a.e', "find(t, 'a').get_widget().expand()\n"
     "find(t, 'ab').get_widget().expand()\n", ('a', 'ab')),
    ('a and closed', "find(t, 'a').get_widget().expand()\n"
     "find(t, 'a').get_widget().collapse()", ()),
    ('a.b below the closed a', "find(t, 'a').get_widget().expand()\n"
     "find(t, 'ab').get_widget().expand()\n"
     "find(t, 'a').get_widget().collapse()", ('ab',)),
    ('a twice', "find(t, 'a').get_widget().expand()\n"
     "find(t, 'a').get_widget().expand()", ('a',)),
    ('a by +', "t.set_focus(find(t, 'a'))\npress(loop, '+')", ('a',)),
    ('a by right', "t.set_focus(find(t, 'a'))\npress(loop, 'right')",
     ('a',)),
    ('a by right, closed by left', "t.set_focus(find(t, 'a'))\n"
     "press(loop, 'right')\npress(loop, 'left')", ()),
    ('a by right, closed by -', "t.set_focus(find(t, 'a'))\n"
     "press(loop, 'right')\npress(loop, '-')", ()),
    ('f, f.b and all of g', "find(t, 'f').get_widget().expand()\n"
     "find(t, 'fb').get_widget().expand()\n" + ''.join(
         "find(t, %r).get_widget().expand()\n" % 'glmnop'[:i]
         for i in range(1, 6)),
     ('f', 'fb', 'g', 'gl', 'glm', 'glmn', 'glmno')),
)

AFTERWARDS = (('', ''), ('refreshed', 't.refresh()'),
              ('sorted', 't.shift_order(1)'),
              ('with the same result again', 'v.set_result(base)'),
              ('with other numbers', 'v.set_result(rev)'),
              ('flat', 't.set_layout(FLAT)'))


def drawn(rows):
    """Paths by the indentation, or the place where it cannot be."""
    out, path = [], ()
    for name, indent, texts in rows:
        if indent is None or indent < 0 or indent > len(path):
            return None
        path = path[:indent] + (name,)
        out.append((path, texts))
    return out


def mark_of(texts):
    x = texts[0] if texts else None
    while isinstance(x, (tuple, list)) and x:
        x = x[-1]
    return x if isinstance(x, str) else None


@rule('C49', 'the rows as they are drawn, of a profile whose nodes are '
      'opened and closed by calls and by keys, then refreshed, sorted, '
      'renewed or flattened: nothing for the root, one row per visible '
      'node below its caller, indented by its depth, with the mark of '
      'its state and a cell per column')
def row_shapes(cx):
    for table in ('tracing', 'sampling', 'plain'):
        w = Views(cx)
        I = w.I
        w.env['Padding'] = cx.cls(I, 'urwid.Padding')
        loc = func_site(I, 'viewer.StatisticsWidget.get_indented_widget') \
            or func_site(I, 'viewer.StatisticsTable.refresh')
        st, v = w.one(w.st, FOCUS + PRESS + SHAPE + tree_source(
            TREE, 'base') + tree_source(TREE, 'rev', True) + '''
v = StatisticsViewer()
v.set_profiler_class(cls)
loop = v.loop()
v.activate()
v.set_result(base)
t = v.table
n = len(list(t.columns))
''', cls=w.env[table], ParentNode=cx.cls(I, 'urwid.ParentNode'))
        env = dict((k, x) for k, x in v.items() if not k.startswith('__'))
        env.update(FLAT=w.env['FLAT'], NESTED=w.env['NESTED'],
                   urwid=I.modrefs['urwid'])
        n = deep(st, v['n'])
        for opened, src, paths in OPENED:
            for later, src2 in AFTERWARDS:
                if later == 'sorted' and table == 'plain':
                    continue
                what = '%s: %s%s' % (table, opened, ', ' + later if later
                                     else '')
                r = attempt(cx, w, st, what, loc, '%s\n%s\nx = shape_of(t)\n'
                            % (src, src2), env)
                if r is None:
                    continue
                rows = deep(r[0], r[1]['x'])
                shape(cx, what, rows, n, flat_of(TREE) if later == 'flat'
                      else TREE, set(map(tuple, paths)), loc)


def shape(cx, what, rows, n, tree, on, loc):
    root, rows = rows[0], rows[1:]
    cx.ob(what + ': root', root[0] is None and not root[2],
          'a row is drawn for the root' if root[0] is None else
          'the first row is of %s' % root[0], loc)
    want = {}

    def visit(sub, path):
        for k in sub:
            p = path + (k,)
            want[p] = '' if not sub[k] else ('-' if p in on else '+')
            if p in on:
                visit(sub[k], p)
    visit(tree, ())
    got = drawn(rows)
    if got is None:
        cx.ob(what + ': rows', None if any(not isinstance(i, int) for x, i, y
                                           in rows) else False,
              'the rows are indented by %s' % ', '.join(
                  str(i) for x, i, y in rows), loc)
        return
    cx.ob(what + ': rows', sorted(p for p, x in got) == sorted(want),
          'the rows are %s instead of %s' % (
              ' '.join('.'.join(map(str, p)) for p, x in got),
              ' '.join('.'.join(p) for p in sorted(want))), loc)
    icons = {}
    for p, texts in got:
        if p not in want:
            continue
        cx.ob('%s: %s: cells' % (what, '.'.join(p)), len(texts) == n + 1,
              'a row of %d texts for a mark and %d columns' % (
                  len(texts), n), loc)
        icons.setdefault(want[p], []).append((p, mark_of(texts)))
    marks = {}
    for kind, ms in sorted(icons.items()):
        for p, m in ms:
            if m is None:
                cx.ob('%s: %s: mark' % (what, '.'.join(p)), None,
                      'not known', loc)
                continue
            m = m.strip()
            cx.ob('%s: %s: mark' % (what, '.'.join(p)), m == kind,
                  'its mark is %r, not %r' % (m, kind), loc)
