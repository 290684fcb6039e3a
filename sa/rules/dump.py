"""The result on its way: made, dumped, viewed, sent, received (C40)."""
from ..core import *  # noqa
from ..core import Undecided
from ..value import WHOLE, differs
from ..lin import num
from .cli import Cli, dumped, exc_class, exc_text, opened
from .net import (PLAIN, ClientWorld, ServerWorld, bound, broadcast_loc,
                  client_made, decode, dispatch_loc, exc_show, interval_run,
                  is_result, methods_of, nev, one_message)
from .helpers import func_site

CPU = ('time.clock', 'time.process_time', 'time.process_time_ns',
       'time.thread_time', 'time.thread_time_ns', 'os.times',
       'resource.getrusage', 'yappi.get_clock_time')
WALL = ('time.time', 'time.time_ns', 'time.monotonic', 'time.monotonic_ns',
        'time.perf_counter', 'time.perf_counter_ns', 'timeit.default_timer')
FIELDS = ('statistics', 'CPU time', 'wall time')


def clocks(v):
    out = set()
    for x in walk(v):
        if isinstance(x, tuple) and len(x) > 1 and x[0] == 'call':
            if x[1] in CPU:
                out.add('CPU time')
            if x[1] in WALL:
                out.add('wall time')
    return out


def field_is(s, v, which, stats):
    """Whether a term is that field of a result: True, False or None."""
    if v is None:
        return False
    if v == stats:
        return which == 'statistics'
    read = clocks(v)
    if which == 'statistics':
        return False if read or is_c(v) else None
    if is_c(v):
        # zero, where the difference is known to be negative?
        return num(v) and v[2] == 0 and any(
            clocks(k) == set([which]) for k in s.facts if k[0] == 'cmp')
    return read == set([which]) if read else None


def judge_result(cx, what, s, v, stats, loc):
    """The three fields, in their order."""
    if v is None or v[0] != 't':
        cx.ob(what + ': shape', None, 'is %s' % (v and show(v)[:100]), loc)
        return
    cx.ob(what + ': shape', len(v[1]) == 3, 'has %d fields' % len(v[1]), loc)
    if len(v[1]) != 3:
        return
    for which, x in zip(FIELDS, v[1]):
        cx.ob('%s: %s' % (what, which), field_is(s, x, which, stats),
              'is %s' % show(x)[:100], loc)


class Dumps(Cli):

    OPAQUE = Cli.OPAQUE - set(['Profiler.start'])

    CLASSES = (('Profiler', 'profiler.Profiler'),
               ('TracingProfiler', 'tracing.TracingProfiler'),
               ('SamplingProfiler', 'sampling.SamplingProfiler'),
               ('a subclass', 'tracing.TracingProfiler'))

    def __init__(self, cx, wraps=0):
        super(Dumps, self).__init__(cx)
        self.viewer_cls = cx.cls(self.I, 'viewer.StatisticsViewer')
        self.file = C('file')
        self.paths = {self.file: 'dump'}
        self.loaded = None
        for name in ('pickle.load', 'pickle.loads'):
            self.I.ext_over[name] = self.load

    def load(self, I, st, args, kw, node, fr):
        I.event(st, fr, node, 'LOAD', args=tuple(args))
        return [(st, self.loaded, None)]

    def sessions(self, name, q, wrapper, todo):
        """A profiler which was started, and what is done with it:
        [(state, variables, exception)]."""
        cx, I = self.cx, self.I
        st = self.start_state()
        env = {'P': cx.cls(I, q), 'filename': self.file,
               'protocol': S('protocol'), 'title': S('title'),
               'at': S('at')}
        for v in (env['protocol'], env['title'], env['at']):
            self.known(st, v)
        if wrapper is not None:
            env['W'] = cx.cls(I, wrapper)
        src = ''
        if name == 'a subclass':
            src += 'class Sub(P):\n    pass\nP = Sub\n'
        src += 'real = P()\nreal.start()\n'
        src += 'p = W(real)\n' if wrapper is not None else 'p = real\n'
        return snippet(cx, I, st, src + todo, env)

    def stats(self, s, p):
        """Where the profiler keeps its statistics."""
        outs = [(s2, v) for s2, v, exc in self.I.ga(
            s.fork(), p, 'stats', None, top()) if exc is None]
        return outs[0][1] if len(outs) == 1 else None


def wrappers():
    return ((None, ''), ('profiler.ProfilerWrapper', ', wrapped'),
            ('remote.background.BackgroundProfiler', ', in the background'))


@rule('C40', 'the result of every profiler that was started: statistics, CPU '
      'time, wall time')
def fields(cx):
    w = Dumps(cx)
    I = w.I
    for name, q in w.CLASSES:
        for wrapper, how in wrappers():
            f, own = I.class_lookup(I.world, cx.cls(I, q), 'result')
            m = I.world.get(f).meta
            loc = (I.modules[m['module']].path, m['node'].lineno)
            what = 'result of %s%s' % (name, how)
            n = 0
            for s, v, exc in w.sessions(name, q, wrapper,
                                        'r = p.result()\n'):
                n += 1
                if exc is not None:
                    judge_exc(w, what, s, exc, loc)
                    continue
                judge_result(cx, what, s, v['r'], w.stats(s, v['real']), loc)
            if not n:
                raise Undecided(what)


def judge_exc(w, what, s, exc, loc):
    sure = exc_class(s, exc) is not None
    w.cx.ob(what, False if sure else None, exc_text(s, exc), loc)


@rule('C40', 'what every profiler dumps, and what the view command makes of '
      'exactly that')
def round_trip(cx):
    w = Dumps(cx)
    I = w.I
    for name, q in w.CLASSES:
        for wrapper, how in wrappers():
            for proto in (True, False):
                trip(cx, w, name, q, wrapper, '%s%s%s' % (
                    name, how, '' if proto else ', default protocol'), proto)


def trip(cx, w, name, q, wrapper, what, proto):
    I = w.I
    f, own = I.class_lookup(I.world, cx.cls(I, q), 'dump')
    m = I.world.get(f).meta
    loc = (I.modules[m['module']].path, m['node'].lineno)
    for s, v, exc in w.sessions(name, q, wrapper, 'p.dump(filename%s)\n' % (
            ', protocol' if proto else '')):
        if exc is not None:
            judge_exc(w, 'dump of ' + what, s, exc, loc)
            continue
        stats = w.stats(s, v['real'])
        ds = dumped(s.events())
        if not ds:
            # something may be written by means which are not known.
            idle = not [e for e in s.events() if e.k == 'call' and (
                str(e.fn) in ('open', 'io.open', 'os.open', 'builtins.open')
                or 'pickle' in str(e.fn) or str(e.fn).endswith((
                    'write', 'dump', 'dumps')))] and v.get('r') is None
            cx.ob('dump of %s: something' % what, False if idle else None,
                  'pickles nothing',
                  loc)
            continue
        cx.ob('dump of %s: one object' % what, len(ds) == 1,
              'pickles %d objects' % len(ds), loc)
        obj, f, p, e = ds[0]
        file, mode = opened(f)
        cx.ob('dump of %s: to the file' % what, file == w.file if
              file is not None else None, 'is written to %s' % (
                  file and show(file)), e.loc)
        cx.ob('dump of %s: mode' % what, None if mode is None else
              'b' in mode and ('w' in mode or 'x' in mode),
              'the file is opened by mode %s' % mode, e.loc)
        if proto:
            cx.ob('dump of %s: protocol' % what, p == S('protocol') or
                  (False if p is None or is_c(p) or differs(
                      S('protocol'), p, WHOLE[:6]) else None),
                  'the protocol is %s' % (p and show(p)), e.loc)
        if obj is not None and obj[0] == 't' and len(obj[1]) == 2:
            cls, result = obj[1]
            judge_class(cx, w, 'dump of ' + what, s, cls, v['P'], e.loc)
            judge_result(cx, 'dump of ' + what, s, result, stats, e.loc)
        # any other shape is right if the reader expects it.
        w.loaded = obj
        for s2, exc, evs in w.run(['view', w.file[2]], st=s):
            judge_view(cx, w, 'view of ' + what, s2, exc, evs, v['P'], stats)


def judge_class(cx, w, what, s, got, want, loc):
    cx.ob(what + ': class', got == want or (
        False if got is None or got[0] in ('r', 'c', 't') else None),
        'is %s and not %s' % (got and name_of(w.I, s, got),
                              name_of(w.I, s, want)), loc)


def name_of(I, s, v):
    o = s.get(v) or I.world.get(v)
    if o is not None and o.meta and o.meta.get('qual'):
        return o.meta['qual']
    return show(v)


def judge_view(cx, w, what, s, exc, evs, cls, stats):
    loc = w.loc
    loads = [e for e in evs if e.k == 'LOAD']
    if exc is not None:
        if loads:
            judge_exc(w, what, s, exc, loads[-1].loc)
        else:
            cx.ob(what, None, exc_text(s, exc), loc)
        return
    for e in loads:
        src = e.args[0] if e.args else None
        if src is not None and src[0] == 'call' and src[1] == '.read':
            src = src[2]
        name, mode = opened(src)
        cx.ob(what + ': of the file', name == w.file if name is not None
              else None, 'reads %s' % (name and show(name)), e.loc)
        cx.ob(what + ': mode', None if mode is None else 'b' in mode and
              not set('wax') & set(mode),
              'the file is opened by mode %s' % mode, e.loc)
    judge_shown(cx, w, what, s, evs, cls, stats, loc, captured=w.file)


#: Methods of a viewer which do not tell whether it is active.
KNOWN = ('.set_profiler_class', '.set_result', '.inactivate', '.loop',
         '.use_vim_command_map', '.use_game_command_map', '.unhandled_input',
         '.pause', '.resume', '.update_result', '.run')


def judge_shown(cx, w, what, s, evs, cls, stats, loc, more=None,
                captured=None):
    """The viewer is told the class, and then the result."""
    told = [e for e in evs if e.k == 'call' and e.recv is not None and
            e.fn in ('.set_profiler_class', '.set_result')]
    fns = [e.fn[1:] for e in told]
    cx.ob(what + ': the class and the result', 'set_profiler_class' in fns
          and 'set_result' in fns, 'the viewer is told %s' % (
              ', '.join(fns) or 'nothing'), loc)
    if 'set_result' in fns:
        last = len(fns) - 1 - fns[::-1].index('set_result')
        cx.ob(what + ': the class first', 'set_profiler_class' not in
              fns[last:], 'the class comes after the result, in an empty '
              'table', told[last].loc)
    lit = [e for e in evs if e.k == 'call' and told and e.recv ==
           told[-1].recv and e.fn in ('.activate', '.inactivate')]
    other = [e for e in evs if told and e.recv == told[-1].recv and
             (e.k == 'store' or e.k == 'call' and e.fn not in KNOWN)]
    if told:
        cx.ob(what + ': active', True if lit and lit[-1].fn == '.activate'
              else None if other else False, 'the viewer is shown inactive, '
              'as if the result were outdated', told[-1].loc)
    for e in told:
        b = bound(w.I, w.viewer_cls, e.fn[1:], e)
        if e.fn == '.set_profiler_class':
            got = list(b.values())
            judge_class(cx, w, what, s, got[0] if got else None, cls, e.loc)
            continue
        for which, k in zip(FIELDS, ('stats', 'cpu_time', 'wall_time')):
            x = b.get(k)
            cx.ob('%s: %s' % (what, which), field_is(s, x, which, stats),
                  'is %s' % (show(x)[:100] if x is not None else
                             'not told'), e.loc)
        if captured is not None:
            at = b.get('at', NONE)
            cx.ob(what + ': the time of capture', written(at, captured),
                  'is %s' % show(at)[:100], e.loc)
            title = b.get('title', NONE)
            cx.ob(what + ': the title', True if mentions(title, captured)
                  else False if is_c(title) else None, 'is %s' %
                  show(title)[:100], e.loc)
        for k, x in (more or {}).items():
            cx.ob('%s: %s' % (what, k), b.get(k) == x, 'is %s' % (
                show(b[k])[:80] if k in b else 'not told'), e.loc)


#: Times which are not that of the last writing of a file.
OTHER_TIMES = ('os.path.getctime', 'os.path.getatime', 'os.path.getsize',
               'time.time')
OTHER_FIELDS = ('st_ctime', 'st_atime', 'st_birthtime', 'st_size')


def written(at, file):
    """Whether it is the local time at which the file was written."""
    if is_c(at):
        return False
    if at[0] != 'call':
        return None
    name = at[1].split('.')[-1]
    if name in ('now', 'utcnow', 'today') and not at[3] and not at[4]:
        return False
    if name == 'utcfromtimestamp':
        return False
    if name != 'fromtimestamp' or len(at[3]) != 1 or at[4]:
        return None
    t = at[3][0]
    while t[0] == 'call' and t[1] in ('builtins.int', 'builtins.float') and \
            t[3]:
        t = t[3][0]
    if t[0] == 'call' and t[1] in OTHER_TIMES or \
            t[0] == 'a' and t[2] in OTHER_FIELDS or is_c(t):
        return False
    if t == ('call', 'os.path.getmtime', None, (file,), (), 0) or \
            t[0] == 'call' and t[1] == 'os.path.getmtime' and \
            t[3][:1] == (file,) or \
            t[0] == 'a' and t[2] == 'st_mtime' and mentions(t, file):
        return True
    return None


@rule('C40', 'the viewer that is made from a profiler itself')
def own_viewer(cx):
    w = Dumps(cx)
    I = w.I
    loc = func_site(I, 'profiler.Profiler.make_viewer')
    for name, q in w.CLASSES:
        for wrapper, how in wrappers():
            for call in ('make_viewer', 'run_viewer'):
                what = '%s of %s%s' % (call, name, how)
                for s, v, exc in w.sessions(
                        name, q, wrapper, 'p.%s(title, at)\n' % call):
                    if exc is not None:
                        judge_exc(w, what, s, exc, loc)
                        continue
                    judge_shown(cx, w, what, s, s.events(), v['P'],
                                w.stats(s, v['real']), loc,
                                {'title': S('title'), 'at': S('at')})


@rule('C40', 'what a server sends is the whole result')
def sent(cx):
    w = ServerWorld(cx, clients=1, fail=None)
    I = w.I
    loc = broadcast_loc(I)
    M = methods_of(I)
    n = 0
    for s, exc in interval_run(cx, w, w.st,
                               lambda k: '' if k == 0 else None):
        for e in s.events():
            if e.k != 'OP' or e.fn != 'send':
                continue
            layout, values, rest = decode(s, e.args[1])
            if values[:1] != [M['RESULT']]:
                continue
            n += 1
            x = rest[0][1] if rest and rest[0][0] == 'pickle' else None
            good = None
            if x is not None:
                good = is_result(x, S('profiler'))
                if x[0] == 'a' and x[1] == S('profiler'):
                    # a part of the profiler.
                    good = False
                if good is None and x[0] in ('t', 'i', 'butlast', 'c'):
                    # put together otherwise.
                    good = x[0] == 't' and x[1] == tuple(
                        ('i', whole(x), C(i)) for i in range(3)) and \
                        is_result(whole(x), S('profiler'))
            cx.ob('sent', good, 'sends %s' % (x and show(x)[:100]), loc)
    if not n:
        cx.ob('sent', None, 'no result is sent', loc)


def whole(x):
    y = x[1][0] if x[1] else x
    return y[1] if y[0] == 'i' else y


@rule('C40', 'what a client receives is shown field by field')
def received(cx):
    w = ClientWorld(cx)
    I = w.I
    M = methods_of(I)
    st = client_made(cx, w, PLAIN)
    loc = dispatch_loc(I)
    triple = (S('stats'), S('cpu time'), S('wall time'))
    for s, es, exc in one_message(cx, w, st, (M['RESULT'], T(*triple))):
        what = 'received'
        if exc is not None:
            cx.ob(what, None if exc[0] == 'uexc' else False,
                  'raises %s' % exc_show(exc), loc)
            continue
        es = [e for e in es if e.fn == '.set_result']
        cx.ob(what + ': told', len(es) == 1, 'the viewer is told %d results' %
              len(es), loc)
        for e in es:
            b = bound(I, w.viewer_cls, 'set_result', e)
            for which, k, x in zip(FIELDS, ('stats', 'cpu_time',
                                            'wall_time'), triple):
                cx.ob('%s: %s' % (what, which), b.get(k) == x,
                      'is %s' % show(b.get(k) or NONE), e.loc)
