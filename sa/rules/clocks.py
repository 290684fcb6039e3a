"""Which clock is read: C47."""
from ..core import *  # noqa
from ..core import Undecided
from ..lin import Lin, lin
from .hooks import install_models
from .net import exc_show, func_site

#: Functions of the library: kind, factor of their unit.
LIBRARY = dict(
    [('time.' + n, (k, f)) for n, k, f in (
        ('clock', 'process', 1), ('process_time', 'process', 1),
        ('process_time_ns', 'process', 1000000000),
        ('thread_time', 'thread', 1), ('thread_time_ns', 'thread',
                                       1000000000),
        ('time', 'wall', 1), ('time_ns', 'wall', 1000000000),
        ('monotonic', 'wall', 1), ('monotonic_ns', 'wall', 1000000000),
        ('perf_counter', 'wall', 1), ('perf_counter_ns', 'wall',
                                      1000000000))])
IDS = {'time.CLOCK_THREAD_CPUTIME_ID': 'thread',
       'time.CLOCK_PROCESS_CPUTIME_ID': 'process',
       'time.CLOCK_MONOTONIC': 'wall', 'time.CLOCK_REALTIME': 'wall',
       'time.CLOCK_MONOTONIC_RAW': 'wall', 'time.CLOCK_BOOTTIME': 'wall'}
NAMES = {'process': 'the CPU time of the process',
         'thread': 'the CPU time of the thread',
         'wall': 'the time that passes'}


class Clocks(object):
    """Clocks whose readings are symbols: the n-th of each kind."""

    def __init__(self, cx):
        self.cx = cx
        self.I = I = interp()
        I.concrete_ok = True
        I.policy = lambda ev, st, fr: []
        install_models(I)
        for fn, (kind, unit) in LIBRARY.items():
            I.ext_over[fn] = self.reading(kind, unit)
        I.ext_over['time.clock_gettime'] = self.gettime(1)
        I.ext_over['time.clock_gettime_ns'] = self.gettime(1000000000)
        I.rets['greenlet.getcurrent'] = lambda I, st, ev: S('greenlet 1')

    def read(self, I, st, kind, unit, fr, node):
        n = len([e for e in st.events() if e.k == 'reading'])
        v = S('%s %d' % (kind, n))
        I.event(st, fr, node, 'reading', fn=kind, res=v)
        for w in (v,):
            I.assume(st, I.mkcmp('is', w, NONE), False)
            I.assume(st, ('truth', w, 0), True)
        return [(st, v if unit == 1 else ('op', '*', v, C(unit)), None)]

    def reading(self, kind, unit):
        def model(I, st, args, kw, node, fr):
            return self.read(I, st, kind, unit, fr, node)
        return model

    def gettime(self, unit):
        def model(I, st, args, kw, node, fr):
            a = args[0] if args else kw.get('clk_id', NONE)
            kind = IDS.get(a[1]) if a[0] == 'x' else None
            if kind is None:
                raise Undecided('clock_gettime(%s)' % show(a))
            return self.read(I, st, kind, unit, fr, node)
        return model


def readings(s, mark):
    return [e for e in s.events()[mark:] if e.k == 'reading']


def judge(cx, what, kind, v, before, evs, loc):
    """v is a reading of that kind made just now."""
    f = lin(v)
    fresh = dict((e.res, e.fn) for e in evs)
    old = dict((e.res, e.fn) for e in before)
    atoms = list(f.t)
    known = [a for a in atoms if a in fresh or a in old]
    if len(known) != len(atoms):
        if any(mentions(a, X('yappi')) or 'yappi.' in show(a)
               for a in atoms if a not in known):
            cx.ob(what, False, 'asks yappi where the time module has the '
                  'clock', loc)
            return
        cx.ob(what, False if v == NONE else None, 'is %s' % show(v), loc)
        return
    if len(atoms) == 1 and f == Lin({atoms[0]: 1}) and \
            fresh.get(atoms[0]) == kind:
        cx.ob(what, True, '', loc)
        return
    if not atoms:
        why = 'is always %s' % show(v)
    elif [a for a in atoms if fresh.get(a, old.get(a)) != kind]:
        why = 'reads %s' % ' and '.join(sorted(set(
            NAMES[fresh.get(a, old.get(a))] for a in atoms)))
    elif not [a for a in atoms if a in fresh]:
        why = 'is what the clock read before'
    else:
        why = 'is %s, where the clock read %s' % (show(v), ', '.join(
            sorted(map(show, fresh))))
    cx.ob(what, False, why, loc)


#: class -> what it reads.
TIMERS = (('Timer', 'process'), ('ThreadTimer', 'thread'),
          ('GreenletTimer', 'process'))


@rule('C47', 'each timer reads its clock, anew every time, in seconds')
def timers(cx):
    for name, kind in TIMERS:
        w = Clocks(cx)
        I = w.I
        cref = cx.cls(I, 'profiling.tracing.timers.' + name)
        loc = func_site(I, 'profiling.tracing.timers.%s.__call__' % name) \
            or func_site(I, 'profiling.tracing.timers.Timer.__call__')
        st = I.start_state()
        for s, env, exc in snippet(cx, I, st, 't = K()', {'K': cref}):
            if exc is not None:
                cx.ob(name, None, 'raises %s' % exc_show(exc), loc)
                continue
            states = [(s, env['t'])]
            for i in (1, 2, 3):
                nxt = []
                for s1, t in states:
                    mark = len(s1.events())
                    for s2, env2, exc in snippet(cx, I, s1, 'r = t()',
                                                 {'t': t}):
                        what = '%s: call %d' % (name, i)
                        if exc is not None:
                            cx.ob(what, None if exc[0] == 'uexc' else False,
                                  'raises %s' % exc_show(exc), loc)
                            continue
                        judge(cx, what, kind, env2['r'],
                              [e for e in s2.events()[:mark]
                               if e.k == 'reading'],
                              readings(s2, mark), loc)
                        nxt.append((s2, t))
                states = nxt


@rule('C47', 'the tracing profiler reads the timer it was given, or a basic '
      'one; the tracing sampler the clock of the thread')
def profilers(cx):
    w = Clocks(cx)
    I = w.I
    P = cx.cls(I, 'profiling.tracing.TracingProfiler')
    for name, kind in (('', 'process'),) + TIMERS:
        loc = func_site(I, 'profiling.tracing.TracingProfiler.__init__')
        env = {'P': P}
        if name:
            env['K'] = cx.cls(I, 'profiling.tracing.timers.' + name)
        src = 'p = P(timer=K())' if name else 'p = P()'
        for s, e1, exc in snippet(cx, I, I.start_state(),
                                  src + '\nr = p.timer()', env):
            what = 'a tracing profiler with %s' % (
                'a ' + name if name else 'no timer')
            if exc is not None:
                cx.ob(what, None if exc[0] == 'uexc' else False,
                      'raises %s' % exc_show(exc), loc)
                continue
            judge(cx, what, kind, e1['r'], [], readings(s, 0), loc)
    w = Clocks(cx)
    I = w.I
    P = cx.cls(I, 'profiling.tracing.TracingProfiler')
    loc = func_site(I, 'profiling.tracing.TracingProfiler.__init__')
    for text, bad in (('P(timer=K)', True), ('P(timer=k.__call__)', True),
                      ('P(timer=1)', True), ('P(timer="thread")', True)):
        K = cx.cls(I, 'profiling.tracing.timers.ThreadTimer')
        for s, e1, exc in snippet(cx, I, I.start_state(), 'k = K()\np = ' +
                                  text, {'P': P, 'K': K}):
            cx.ob('%s is refused' % text, exc is not None, 'is taken', loc)


# -- the interval timer

class Itimer(object):
    """A sampling profiler with an interval timer sampler."""

    def __init__(self, cx):
        self.cx = cx
        self.I = I = interp()
        I.concrete_ok = True
        I.policy = lambda ev, st, fr: []
        I.opaque = set(['SamplingProfiler.sample'])
        install_models(I)
        self.env = {'P': cx.cls(I, 'profiling.sampling.SamplingProfiler'),
                    'K': cx.cls(I, 'samplers.ItimerSampler'),
                    'interval': S('interval')}
        self.loc = func_site(I, 'profiling.sampling.samplers.ItimerSampler.'
                             'run')

    def run(self, src):
        I = self.I
        st = I.start_state()
        v = S('interval')
        I.assume(st, I.mkcmp('is', v, NONE), False)
        I.assume(st, ('truth', v, 0), True)
        I.assume(st, I.mkcmp('<', C(0), v), True)
        for t in ('int', 'float'):
            st.facts[('cmp', 'converts', v, C('builtins.' + t))] = True
        return snippet(self.cx, I, st, src, self.env)


def armed(s):
    """[(timer, first, interval, event)] in order."""
    out = []
    for e in s.events():
        if e.k == 'call' and e.fn == 'signal.setitimer':
            kw = dict(e.kw)
            a = list(e.args) + [None] * 3
            out.append((a[0] or kw.get('which'), a[1] or kw.get('seconds'),
                        a[2] or kw.get('interval') or C(0.0), e))
    return out


def handlers(s):
    return [(e.args[0], e.args[1], e) for e in s.events() if e.k == 'call'
            and e.fn == 'signal.signal' and len(e.args) > 1]


@rule('C48', 'while it runs, the sampler\'s timer expires every interval, from '
      'the first on, and each time the interrupted frame is sampled once')
def every_interval(cx):
    for src, want in (('p = P(sampler=K(interval))', S('interval')),
                      ('p = P(sampler=K(interval=interval))', S('interval')),
                      ('p = P(sampler=K(0.25))', C(0.25)),
                      ('p = P(sampler=K(0.0001))', C(0.0001)),
                      ('p = P(sampler=K(2))', C(2)),
                      ('p = P(sampler=K())', None), ('p = P()', None),
                      ('k = K(5)\nk.interval = interval\np = P(sampler=k)',
                       S('interval'))):
        w = Itimer(cx)
        I, loc = w.I, w.loc
        what = src.replace('\n', '; ')
        if want is None:
            want = cx.modvar(I, 'profiling.sampling.samplers', 'INTERVAL')
        for s, env, exc in w.run(src + '\np.start()'):
            if exc is not None:
                cx.ob(what, None if exc[0] == 'uexc' else False,
                      'raises %s' % exc_show(exc), loc)
                continue
            at, hs = armed(s), handlers(s)
            if not at or not hs:
                cx.ob(what, None, 'what is armed is not known', loc)
                continue
            which, first, again, e = at[-1]
            num, h, he = hs[-1]
            if first is None or [a for x in (e, he) for a in x.args
                                 if a[0] == 'star']:
                cx.ob(what, None, 'what is armed is not known', loc)
                continue
            cx.ob(what + ': timer', (which, num) == (
                X('signal.ITIMER_PROF'), X('signal.SIGPROF')),
                '%s is armed, %s is handled' % (show(which), show(num)),
                e.loc)
            evs = s.events()
            cx.ob(what + ': handled', evs.index(he) < evs.index(e),
                  'the timer is armed before its signal is handled', e.loc)
            for name, v in (('the first time', first), ('again', again)):
                good = lin(v) == lin(want)
                if not good and [a for a in lin(v).t if a[0] not in ('s',)]:
                    good = None
                cx.ob('%s: %s' % (what, name), good, 'expires after %s and '
                      'not %s' % (show(v), show(want)), e.loc)
            p = env['p']
            for n in (1, 2):
                s2 = s.fork()
                mark = len(s2.events())
                states = [s2]
                for i in range(n):
                    nxt = []
                    for s3 in states:
                        for s4, v, x in I.call(
                                s3, h, [X('signal.SIGPROF'),
                                        S('frame %d' % i)], {}, None, top()):
                            if x is not None:
                                cx.ob(what + ': a signal', None if
                                      x[0] == 'uexc' else False,
                                      'raises ' + exc_show(x), he.loc)
                                continue
                            nxt.append(s4)
                    states = nxt
                for s3 in states:
                    got = []
                    sure = True
                    for e in s3.events()[mark:]:
                        if e.k == 'call' and str(e.fn).endswith('sample'):
                            kw = dict(e.kw)
                            f = e.args[0] if e.args else kw.get('frame')
                            who = e.recv
                            if who is not None and who[0] == 'call' and \
                                    who[1] in ('weakref.proxy',
                                               'weakref.ref'):
                                who = who[3][0]
                            if who != p and not (who is not None and who[0]
                                                 in ('r', 'a', 's')):
                                sure = None
                            got.append((who, f))
                        elif e.k == 'call' and e.recv is not None and \
                                e.recv[0] == 'call':
                            sure = None
                    want_ = [(p, S('frame %d' % i)) for i in range(n)]
                    cx.ob('%s: %d signals' % (what, n), got == want_ or (
                        False if sure else None), 'sampled are %s' %
                        [show(f) for __, f in got if f], he.loc)


@rule('C48', 'a sampling profiler uses the sampler it is given, which has to be '
      'one; by default one with an interval timer')
def which_sampler(cx):
    w = Itimer(cx)
    I = w.I
    w.env['T'] = cx.cls(I, 'samplers.TracingSampler')
    loc = func_site(I, 'profiling.sampling.SamplingProfiler.__init__')
    for src, cls in (('k = K(0.5)', 'K'), ('k = T(0.5)', 'T')):
        for s, env, exc in w.run(src + '\np = P(sampler=k)\ng = p.sampler\n'
                                 'i = p.sampler.interval'):
            what = 'given ' + src[4:]
            cx.ob(what, exc is None and env['g'] == env['k'],
                  'uses another one', loc)
            if exc is None:
                cx.ob(what + ': interval', lin(env['i']) == lin(C(0.5)),
                      'is %s' % show(env['i']), loc)
    for s, env, exc in w.run('p = P()\ng = p.sampler'):
        o = s.get(env.get('g')) if exc is None else None
        cx.ob('given none', o is not None and o.cls == w.env['K'],
              'is not sampled by an interval timer', loc)
    for text in ('P(sampler=K)', 'P(sampler=1)', 'P(sampler="itimer")',
                 'P(sampler=k.start)', 'P(sampler=(k,))'):
        for s, env, exc in w.run('k = K()\np = ' + text):
            cx.ob('%s is refused' % text, exc is not None, 'is taken', loc)


# -- the times of a result

#: Seconds on each clock when a session starts; which differ, since a reading
#: of one clock tells nothing about another.
EPOCH = {'time': 2.0 ** 30 + 0.25, 'time_ns': 2.0 ** 30 + 0.25,
         'monotonic': 4096.5, 'monotonic_ns': 4096.5,
         'perf_counter': 512.125, 'perf_counter_ns': 512.125,
         'clock': 64.5, 'process_time': 32.75, 'process_time_ns': 32.75,
         'thread_time': 16.5, 'thread_time_ns': 16.5}
OF_ID = {'thread': 'thread_time', 'process': 'process_time'}
OF_WALL = {'time.CLOCK_REALTIME': 'time'}


class Watch(object):
    """Every clock of the library at a moment which the rule chooses."""

    def __init__(self, cx):
        self.cx = cx
        self.I = I = interp()
        I.concrete_ok = True
        I.policy = lambda ev, st, fr: []
        install_models(I)
        self.gone = {'wall': 0.0, 'process': 0.0, 'thread': 0.0}
        for fn, (kind, unit) in LIBRARY.items():
            I.ext_over[fn] = self.reading(fn[5:], kind, unit)
        I.ext_over['time.clock_gettime'] = self.gettime(1)
        I.ext_over['time.clock_gettime_ns'] = self.gettime(1000000000)
        I.ext_over['timeit.default_timer'] = self.reading('perf_counter',
                                                          'wall', 1)

    def value(self, name, kind, unit):
        v = EPOCH[name] + self.gone[kind]
        return C(v) if unit == 1 else C(int(v * unit))

    def reading(self, name, kind, unit):
        return lambda I, st, args, kw, node, fr: [
            (st, self.value(name, kind, unit), None)]

    def gettime(self, unit):
        def model(I, st, args, kw, node, fr):
            a = args[0] if args else kw.get('clk_id', NONE)
            kind = IDS.get(a[1]) if a[0] == 'x' else None
            if kind is None:
                raise Undecided('clock_gettime(%s)' % show(a))
            name = OF_ID.get(kind) or OF_WALL.get(a[1], 'monotonic')
            return [(st, self.value(name, kind, unit), None)]
        return model


#: CPU time of the process, of the thread, and wall time since the start.
GONE = ((1.5, 0.5, 10.25), (0.125, 0.125, 0.25), (0.0, 0.0, 0.0),
        (0.0, 0.0, 86400.5), (7.75, 0.25, 2.5), (-3.0, -3.0, -20.0))


@rule('C40', 'the times of a result on known clocks: what the CPU clock of the '
      'process and the wall clock advanced by since the start, at any ratio, '
      'and nothing when a clock was set back')
def elapsed(cx):
    for name, q in (('a profiler', 'profiler.Profiler'),
                    ('a tracing profiler', 'tracing.TracingProfiler'),
                    ('a sampling profiler', 'sampling.SamplingProfiler')):
        for wrapper in (None, 'profiler.ProfilerWrapper'):
            w = Watch(cx)
            I = w.I
            env = {'P': cx.cls(I, q)}
            src = 'class Mine(P):\n    def run(self):\n        yield\n' \
                'p = Mine()\np.start()\n'
            if wrapper:
                env['W'] = cx.cls(I, wrapper)
                src += 'p = W(p)\n'
            for s, env, exc in snippet(cx, I, I.start_state(), src, env):
                if exc is not None:
                    raise Undecided('%s: %s' % (name, exc_show(exc)))
                for cpu, thread, wall in GONE:
                    w.gone = {'process': cpu, 'thread': thread, 'wall': wall}
                    measured(cx, w, '%s%s, after %s s of %s s' % (
                        name, ', wrapped' if wrapper else '', cpu, wall),
                        s.fork(), env['p'], (cpu, wall))


def measured(cx, w, what, s, p, want):
    I = w.I
    loc = func_site(I, 'profiling.profiler.Profiler.result')
    for s2, env, exc in snippet(cx, I, s, 'r = p.result', {'p': p}):
        outs = [(s2, None, exc)] if exc is not None else \
            I.call(s2, env['r'], [], {}, None, top())
        for s3, v, x in outs:
            if x is not None:
                cx.ob(what, None if x[0] == 'uexc' else False,
                      'raises %s' % exc_show(x), loc)
                continue
            if v[0] != 't' or len(v[1]) != 3:
                cx.ob(what, None, 'is %s' % show(v), loc)
                continue
            for which, got, t in (('CPU time', v[1][1], want[0]),
                                  ('wall time', v[1][2], want[1])):
                t = max(t, 0)
                sure = is_c(got) and isinstance(got[2], (int, float))
                cx.ob('%s: %s' % (what, which),
                      abs(got[2] - t) < 1e-6 if sure else None,
                      'is %s and not %s' % (show(got), t), loc)
