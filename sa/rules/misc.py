"""Context timers (C38), the tracing sampler (C39), dumps (C40)."""
import itertools
from fractions import Fraction

from ..core import *  # noqa
from ..core import Undecided
from ..lin import Lin, facts_lin, lin, nonneg, nonpos
from ..value import Unknown, value
from .hooks import install_models, resource
from .life import tail_events
from .net import exc_show, func_site

TIMERS = 'profiling.tracing.timers.'


class World(object):
    """An interpreter whose clock is told by the scenario: time passes
    between operations only."""

    def __init__(self, cx, clocks=('time.clock',)):
        self.cx = cx
        self.I = I = interp()
        I.concrete_ok = True
        I.policy = lambda ev, st, fr: []
        install_models(I)
        self.now = C(0)
        for c in clocks:
            I.ext_over[c] = self.clock
            I.rets[c] = lambda I, st, ev: self.now

    def start_state(self):
        st = self.I.start_state()
        for i in range(12):
            self.I.assume(st, self.I.mkcmp('is', S('time %d' % i), NONE),
                          False)
        return st

    def clock(self, I, st, args, kw, node, fr):
        return [(st, self.now, None)]


def readings(w, st, read, now):
    """[(state, linear form | None)] of the timer."""
    w.now = now
    out = []
    for s, v, exc in read(st):
        if exc is not None:
            out.append((s, None, 'raises %s' % exc_show(exc)))
            continue
        f = lin(v)
        good = all(a[0] in ('s', 'i') for a in f.t)
        out.append((s, f if good else None, show(v) if good or v != NONE
                    else 'is nothing'))
    return out


def but(d, k, v):
    d = dict(d)
    d[k] = v
    return d


class History(object):
    """A timer driven through every history of operations; its readings are
    compared with what a stop watch per context shows."""

    def __init__(self, cx, w, name, ops, read, contexts, loc, depth):
        self.cx, self.w, self.name, self.ops = cx, w, name, ops
        self.read, self.contexts, self.loc = read, contexts, loc
        self.depth = depth

    def time(self, i):
        return S('time %d' % i)

    def start(self, st, running=None):
        """running: context -> whether it runs at the beginning."""
        run_ = dict((c, True) for c in self.contexts)
        run_.update(running or {})
        for every in (True, False):
            for s, vals in self.read_all(st.fork(), 0, []):
                self.step(s, run_, vals, dict((c, Lin()) for c in run_), 0,
                          [], every)

    def read_all(self, st, i, hist):
        outs = [(st, {})]
        for c in self.contexts:
            nxt = []
            for s, vals in outs:
                for s2, f, text in readings(
                        self.w, s, lambda s: self.read(s, c), self.time(i)):
                    if f is None:
                        bad = text.startswith(('raises', 'is nothing'))
                        self.cx.ob('%s: %s' % (self.name, self.label(hist)),
                                   False if bad else None,
                                   'reading of %s: %s' % (c, text), self.loc)
                        continue
                    nxt.append((s2, but(vals, c, f)))
            outs = nxt
        return outs

    def label(self, hist):
        return ', '.join(hist) or 'at the beginning'

    def step(self, st, running, first, gone, i, hist, every):
        if i == self.depth:
            return
        span = Lin({self.time(i + 1): 1, self.time(i): -1})
        for op in self.ops:
            text, act, effect = op
            self.w.now = self.time(i + 1)
            h2 = hist + [text]
            gone2 = dict((c, gone[c] + span if running[c] else gone[c])
                         for c in gone)
            run2 = effect(running)
            for s, exc in act(st.fork()):
                if exc is not None:
                    self.cx.ob('%s: %s' % (self.name, self.label(h2)), False,
                               'raises %s' % exc_show(exc), self.loc)
                    continue
                if every or i + 1 == self.depth:
                    for s2, vals in self.read_all(s, i + 1, h2):
                        for c in self.contexts:
                            self.judge(s2, c, vals[c] - first[c], gone2[c],
                                       h2)
                        self.step(s2, run2, first, gone2, i + 1, h2, every)
                else:
                    self.step(s, run2, first, gone2, i + 1, h2, every)

    def judge(self, s, c, got, want, hist):
        self.cx.ob('%s: %s' % (self.name, self.label(hist)), got == want,
                   'the reading of %s advanced by %s, it was running for %s'
                   % (c, got.show(), want.show()), self.loc)


def outs_of(outs):
    return [(s, exc) for s, v, exc in outs]


@rule('C38', 'every history of up to four pauses, resumes and instants of two '
      'contexts, at symbolic moments: the readings advance by the time the '
      'context was running (linear forms)')
def contextual(cx):
    w = World(cx)
    I = w.I
    cref = cx.cls(I, 'timers.ContextualTimer')
    for named in (True, False):
        cur = ['a']
        if not named:
            # the context is the one which is detected.
            I.opaque = set(['detect_context'])
            I.rets['detect_context'] = lambda I, st, ev: C(cur[0])
        for st, obj in construct(cx, I, w.start_state(), cref):
            def method(name, c):
                def act(st):
                    I.steps = 0
                    if named:
                        return outs_of(cx.method(I, st, obj, name, [C(c)]))
                    cur[0] = c
                    return outs_of(cx.method(I, st, obj, name))
                return act

            def read(st, c):
                I.steps = 0
                f = I.call(st, obj, [C(c)] if named else [], {}, None, top())
                return f
            def read2(st, c):
                cur[0] = c
                return read(st, c)
            ops = [('nothing', lambda st: [(st, None)], lambda r: r)]
            for c in ('a', 0):
                ops.append(('pause %s' % c, method('pause', c),
                            lambda r, c=c: but(r, c, False)))
                ops.append(('resume %s' % c, method('resume', c),
                            lambda r, c=c: but(r, c, True)))
            History(cx, w, 'contexts' + ('' if named else ' detected'), ops,
                    read2, ('a', 0),
                    func_site(I, TIMERS + 'ContextualTimer.resume'),
                    4 if named else 3).start(st)
        # an independent timer has contexts of its own.
    I.opaque = set()
    for st, one in construct(cx, I, w.start_state(), cref):
        for st, two in construct(cx, I, st, cref):
            w.now = S('time 0')
            for s, v0, exc in I.call(st, two, [C('a')], {}, None, top()):
                for s, __, exc in cx.method(I, s, one, 'pause', [C('a')]):
                    w.now = S('time 1')
                    for s, v1, exc in I.call(s, two, [C('a')], {}, None,
                                             top()):
                        d = lin(v1) - lin(v0)
                        cx.ob('two timers', d == Lin({S('time 1'): 1,
                                                      S('time 0'): -1}),
                              'pausing one timer touches another one',
                              func_site(I, TIMERS + 'ContextualTimer.pause'))


@rule('C38', 'every history of up to four greenlet switches between three '
      'greenlets while the greenlet timer runs, twice in a row: only the '
      'current one advances')
def greenlets(cx):
    w = World(cx)
    I = w.I
    cref = cx.cls(I, 'timers.GreenletTimer')
    loc = func_site(I, TIMERS + 'GreenletTimer._trace')
    names = ('g1', 'g2', 'g3')
    ids = dict((S(n), C(140 * 10 ** 12 + i * 2 ** 32)) for i, n in enumerate(names))

    def id_(I, st, args, kw, node, fr):
        v = ids.get(args[0])
        if v is None:
            raise Undecided('id of %s' % show(args[0]))
        return [(st, v, None)]
    I.ext_over['builtins.id'] = id_
    cur = ['g1']
    I.rets['greenlet.getcurrent'] = lambda I, st, ev: S(cur[0])
    seen = []

    def session(st, obj, what, running, then):
        """Starts the timer and drives it; then continues after its end."""
        for s, g, exc in cx.method(I, st, obj, 'run', [S('profiler')]):
            if exc is not None:
                cx.ob(what, None, 'run() raises')
                continue

            def handler(s, v, e, fr):
                drive(s, obj, what, running)
                # one session which ends in another greenlet.
                res = []
                hook = hook_of(s)
                if hook is None:
                    return [(s, NONE, None)]
                w.now = S('time 8')
                for s2, __, x in switch(s.fork(), hook, 'g1', 'g2'):
                    if x is None:
                        res.append((s2, NONE, None))
                return res + [(s, NONE, None)]
            for s2, k, v in I.run_gen(s, g, handler, None, top()):
                if then is not None and k == 'n':
                    then(s2)

    def hook_of(s):
        for e in reversed(s.events()):
            r = resource(e)
            if r is not None and r[0][0] == 'greenlet trace function':
                return r[1][1][0]
        cx.ob('greenlets: trace function', False, 'none is installed while '
              'the timer runs', loc)
        return None

    def switch(st, hook, a, b, event='switch'):
        I.steps = 0
        return I.call(st, hook, [C(event), T(S(a), S(b))], {}, None, top())

    def drive(s, obj, what, start):
        hook = hook_of(s)
        if hook is None:
            return

        def read(st, c):
            I.steps = 0
            # of the current greenlet, as the profiler reads it.
            if c != now[0]:
                raise Undecided('a greenlet which is not running is read')
            cur[0] = c
            return I.call(st, obj, [], {}, None, top())
        # what is read: the timer of a greenlet, whenever it is current.
        now = ['g1']

        def go(st, at, base, ran, i, hist):
            """base: greenlet -> (reading, how long it had run then)."""
            cur[0] = now[0] = at
            fs = readings(w, st, lambda x: read(x, at), S('time %d' % i))
            for s2, f, text in fs:
                con = '%s: %s' % (what, ', '.join(hist) or 'at the beginning')
                if f is None:
                    cx.ob(con, False if text.startswith('raises') else None,
                          text, loc)
                    continue
                b2 = dict(base)
                if at in base:
                    got, want = f - base[at][0], ran[at] - base[at][1]
                    cx.ob(con, got == want, 'the timer of the current '
                          'greenlet advanced by %s, it ran for %s' % (
                              got.show(), want.show()), loc)
                else:
                    b2[at] = (f, ran[at])
                if i == DEPTH:
                    continue
                r2 = dict(ran)
                r2[at] = ran[at] + Lin({S('time %d' % (i + 1)): 1,
                                        S('time %d' % i): -1})
                # it runs on, or another one is switched to.
                go(s2, at, b2, r2, i + 1, hist + ['%s goes on' % at])
                for to in names:
                    for event in ('switch', 'throw'):
                        if to == at or event == 'throw' and i != 1:
                            continue
                        w.now = S('time %d' % (i + 1))
                        for s3, v, x in switch(s2.fork(), hook, at, to,
                                               event):
                            h2 = hist + ['%s to %s' % (event, to)]
                            if x is not None:
                                cx.ob('%s: %s' % (what, ', '.join(h2)),
                                      False, 'raises %s' % exc_show(x), loc)
                                continue
                            go(s3, to, b2, r2, i + 1, h2)
        DEPTH = 4
        go(s, start, {}, dict((n, Lin()) for n in names), 0, [])
        seen.append(1)

    for st, obj in construct(cx, I, w.start_state(), cref):
        session(st, obj, 'greenlets', 'g1',
                lambda s: session(s, obj, 'greenlets, next session', 'g1',
                                  None))
    cx.ob('greenlets driven', bool(seen) or None)


# -- the tracing sampler

def witness(st, forms, values=(0, 1, 4, 5, 6, 9, 10, 11, 15, 20,
                              Fraction(1, 9000), Fraction(1, 3000))):
    """Numbers for the atoms for which every known comparison of the path
    and every given (form, op) holds, or None.  Comparisons of anything but
    the moments and the interval make it unknown (Undecided)."""
    facts = list(forms)
    for d, op in facts_lin(st):
        odd = [a for a in d.t if a[0] != 's']
        if not odd or any('time' in show(a) or 'interval' in show(a)
                          for a in odd):
            facts.append((d, op))
    core = set(a for d, op in forms for a in symbols(d))
    few = [(d, op) for d, op in facts if symbols(d) <= core]
    if find(few, values) is None:
        return None
    return find(facts, values, core)


def symbols(d):
    """The unknowns of a linear form, those inside of other terms too."""
    out, todo = set(), list(d.t)
    while todo:
        v = todo.pop()
        if v and v[0] == 's':
            out.add(v)
        elif isinstance(v, tuple):
            todo.extend(x for x in v if isinstance(x, tuple))
    return out


def total(d, at):
    try:
        return d.k + sum(c * value(a, at) for a, c in d.t.items())
    except Unknown as e:
        raise Undecided('comparison of %s' % e)


def find(facts, values, first=()):
    syms = dict((id(d), symbols(d)) for d, op in facts)
    todo = sorted(set(a for x in syms.values() for a in x), key=repr)
    atoms = []
    budget = [1000]
    while todo:
        # next the one which settles most comparisons.
        got = set(atoms)
        todo.sort(key=lambda a: (a not in first, -sum(
            a in syms[id(d)] and syms[id(d)] <= got | set([a])
            for d, op in facts), repr(a)))
        atoms.append(todo.pop(0))
    due = [[] for a in atoms]
    for d, op in facts:
        k = max([atoms.index(a) for a in syms[id(d)]] or [-1])
        if k >= 0:
            due[k].append((d, op))
        elif not holds(total(d, {}), op):
            return None

    def put(at):
        if len(at) == len(atoms):
            return at
        budget[0] -= 1
        if budget[0] < 0:
            raise Undecided('too many moments')
        for v in values:
            at2 = dict(at)
            at2[atoms[len(at)]] = v
            if all(holds(total(d, at2), op) for d, op in due[len(at)]):
                found = put(at2)
                if found is not None:
                    return found
        return None
    return put({})


def holds(x, op):
    return x < 0 if op == '<' else x <= 0 if op == '<=' else x == 0


class Sampler(object):

    def __init__(self, cx):
        self.cx = cx
        self.I = I = interp()
        I.concrete_ok = True
        I.policy = lambda ev, st, fr: []
        install_models(I)
        self.cref = cx.cls(I, 'samplers.TracingSampler')
        self.loc = func_site(I, 'profiling.sampling.samplers.TracingSampler.'
                             '_profile')
        I.opaque = set(['is_running'])
        I.rets['is_running'] = lambda I, st, ev: C(True)
        I.ext_over['time.clock_gettime'] = self.clock
        for n in ('time.thread_time',):
            I.ext_over[n] = self.clock
        for n in ('time', 'clock', 'monotonic', 'perf_counter',
                  'process_time'):
            I.ext_over['time.' + n] = self.other
        ident = lambda I, st, ev: C(self.thread)
        for n in ('_thread.get_ident', 'threading.get_ident',
                  'six.moves._thread.get_ident', 'thread.get_ident'):
            I.rets[n] = ident
        I.rets['sys._current_frames'] = lambda I, st, ev: I.new(st, HObj(
            'dict', known=dict((C(k), S('frame of %d' % k))
                               for k in self.living)))
        self.living = ()
        self.now, self.thread = C(0), 0
        self.mark = None

    def other(self, I, st, args, kw, node, fr):
        st.n += 1
        now = S('reading %d of another clock' % st.n)
        if self.mark is not None:
            # it goes on at least as fast as the clock of the thread.
            o = st.mut(self.mark)
            for before, at, thread in o.attrs['readings']:
                sub = lambda a, b: ('op', '-', a, b)
                passed = sub(self.now, at) if thread == self.thread else C(0)
                I.assume(st, I.mkcmp('<', sub(now, before), passed), False)
            o.attrs['readings'] += ((now, self.now, self.thread),)
        return [(st, now, None)]

    def clock(self, I, st, args, kw, node, fr):
        if args and args[0] != X('time.CLOCK_THREAD_CPUTIME_ID'):
            return self.other(I, st, args, kw, node, fr)
        return [(st, self.now, None)]

    def start(self):
        """[(state while running, sampler, hook by thread)]"""
        cx, I = self.cx, self.I
        out = []
        for st, obj in construct(cx, I, I.start_state(), self.cref,
                                 [S('interval')]):
            self.mark = I.new(st, HObj('open', attrs={'readings': ()}))
            I.assume(st, I.mkcmp('<', C(0), S('interval')), True)
            for s, g, exc in cx.method(I, st, obj, 'run', [S('profiler')]):
                if exc is not None:
                    continue

                def handler(s, v, e, fr):
                    hooks = {}
                    for ev in s.events():
                        r = resource(ev)
                        if r is not None and r[0][0] in (
                                'profile function',
                                'thread profile function'):
                            hooks[r[0][0]] = r[1][1][0]
                    if len(hooks) == 2:
                        out.append((s.fork(), obj, (
                            hooks['profile function'],
                            hooks['thread profile function'])))
                    return [(s, NONE, None)]
                I.run_gen(s, g, handler, None, top())
        if not out:
            raise Undecided('the sampler installs no profile functions')
        return out

    def fire(self, st, hook, thread, now, kind='call'):
        """Profiler event in a thread -> [(state, samples, exc)]."""
        self.I.steps = 0
        self.now, self.thread = now, thread
        mark = nev(st)
        res = []
        for s, v, exc in self.I.call(st, hook, [
                S('frame'), C(kind), NONE], {}, None, top()):
            got = [e for e in s.events()[mark:] if e.k == 'call' and
                   isinstance(e.fn, str) and e.fn.split('.')[-1] == 'sample']
            res.append((s, got, exc))
        return res


def nev(st):
    return len(st.events())


def moment(I, st, thread, i):
    """The i-th reading of a thread's CPU clock; it never goes backwards."""
    v = S('cpu time %d of thread %d' % (i, thread))
    for j in [None] + list(range(i)):
        w = C(0) if j is None else S('cpu time %d of thread %d' % (j, thread))
        I.assume(st, I.mkcmp('<', v, w), False)
        I.assume(st, I.mkcmp('>', w, v), False)
    I.assume(st, I.mkcmp('is', v, NONE), False)
    return v


INTERVAL = Lin({S('interval'): 1})

KINDS = ('return', 'c_call', 'c_return', 'c_exception')


@rule('C08', 'the handler installed for the profiling signal passes the '
      'interrupted frame to the profiler exactly once, whatever frame it is')
def signals_sample(cx):
    I = interp()
    I.concrete_ok = True
    I.policy = lambda ev, st, fr: []
    install_models(I)
    cref = cx.cls(I, 'samplers.ItimerSampler')
    loc = func_site(I, 'profiling.sampling.samplers.ItimerSampler.run')
    n = 0
    for st, obj in construct(cx, I, I.start_state(), cref, [S('interval')]):
        for s, g, exc in cx.method(I, st, obj, 'run', [S('profiler')]):
            if exc is not None:
                continue
            at = []

            def handler(s, v, e, fr):
                for ev in s.events():
                    r = resource(ev)
                    if r is not None and r[0] == ('signal handler',
                                                  X('signal.SIGPROF')):
                        at.append((s.fork(), r[1][1][0]))
                return [(s, NONE, None)]
            I.run_gen(s, g, handler, None, top())
            for s, hook in at:
                mark = nev(s)
                for s2, v, exc in cx.call(I, s.fork(), hook, [
                        X('signal.SIGPROF'), S('frame')]):
                    got = [e for e in s2.events()[mark:]
                           if e.k == 'call' and isinstance(e.fn, str) and
                           e.fn.split('.')[-1] == 'sample']
                    n += 1
                    what = 'a profiling signal'
                    cx.ob(what, exc is None, 'the handler raises', loc)
                    cx.ob(what + ': one sample', len(got) == 1,
                          '%d samples' % len(got), loc)
                    cx.ob(what + ': of the frame', all(
                        list(e.args) + [v for k, v in e.kw] ==
                        [S('frame')] for e in got),
                        'samples %s' % [list(map(show, e.args))
                                        for e in got], loc)
    if not n:
        raise Undecided('no handler for SIGPROF')


def judge_sample(w, s, hist, got, exc, last, now, new):
    """new: the thread has no sample yet (its clock began at zero)."""
    cx = w.cx
    con = 'samples: %s' % ', '.join(hist)
    if exc is not None:
        cx.ob(con, False, 'raises %s' % exc_show(exc), w.loc)
        return
    passed = lin(now) - last
    if len(got) > 1:
        cx.ob(con, False, 'samples twice', w.loc)
        return
    try:
        if got:
            if new:
                cx.ob(con, True)
            else:
                at = witness(s, [(passed - INTERVAL, '<')])
                cx.ob(con, at is None, 'sampled after %s' % text_of(at),
                      w.loc)
            if got[0].args[:1] != (S('frame'),):
                cx.ob(con + ': frame', False if got[0].args else None,
                      'samples %s' % list(map(show, got[0].args)), w.loc)
        else:
            # an interval of its CPU time has passed.
            at = witness(s, [(INTERVAL - passed, '<=')])
            cx.ob(con, at is None, 'not sampled after %s' % text_of(at),
                  w.loc)
    except Undecided as e:
        cx.ob(con, None, str(e), w.loc)


def text_of(at):
    return ', '.join('%s=%s' % (show(k), v) for k, v in sorted(
        (at or {}).items(), key=repr))


@rule('C39', 'every interleaving of up to five profiling events of two '
      'threads at symbolic CPU times: sampled if and only if the interval '
      'has passed on the thread\'s own clock since its last sample')
def intervals(cx):
    w = Sampler(cx)
    I = w.I
    depth = 4 if cx.tier == 'quick' else 5

    def go(st, hooks, hist, last, count, left):
        if not left or sum(o[2] is not True for o in cx.obs) > 20:
            return
        for th in (1, 2):
            s = st.fork()
            now = moment(I, s, th, count[th])
            c2 = dict(count, **{th: count[th] + 1}) if False else dict(
                (k, v + (k == th)) for k, v in count.items())
            for s2, got, exc in w.fire(s, hooks[th - 1], th, now):
                h2 = hist + ['thread %d' % th]
                judge_sample(w, s2, h2, got, exc, last.get(th, Lin()), now,
                             th not in last)
                if exc is None:
                    l2 = dict(last)
                    if got:
                        l2[th] = lin(now)
                    go(s2, hooks, h2 + (['(sampled)'] if got else []), l2,
                       c2, left - 1)
    for st, obj, hooks in w.start():
        go(st, hooks, [], {}, {1: 0, 2: 0}, depth)
        # the main thread's function serves whichever thread asks.
    loc = w.loc
    # every kind of event is an occasion.
    for kind in KINDS:
        for st, obj, hooks in w.start():
            for th in (1, 2):
                s = st.fork()
                n0, n1 = moment(I, s, th, 0), moment(I, s, th, 1)
                for s1, got, exc in w.fire(s, hooks[th - 1], th, n0):
                    if exc is not None or not got:
                        continue
                    for s2, got, exc in w.fire(s1, hooks[th - 1], th, n1,
                                               kind):
                        judge_sample(w, s2, ['thread %d (sampled)' % th,
                                             'event %s' % kind], got, exc,
                                     lin(n0), n1, False)
    # an id which is used again.
    for st, obj, hooks in w.start():
        s = st.fork()
        now = moment(I, s, 2, 0)
        for s, got, exc in w.fire(s, hooks[1], 2, now):
            if exc is not None or not got:
                continue
            first = S('cpu time of a new thread')
            for a, b, val in ((first, C(0), False), (first, now, True)):
                I.assume(s, I.mkcmp('<', a, b), val)
                I.assume(s, I.mkcmp('>', b, a), val)
            for s2, got, exc in w.fire(s, hooks[1], 2, first):
                judge_sample(w, s2, ['thread 2 (sampled)',
                                     'a new thread with its id'], got, exc,
                             Lin(), first, True)


@rule('C39', 'at an arbitrary count of samples: the path which looks for '
      'ended threads forgets exactly those, and is taken again and again')
def dead(cx):
    w = Sampler(cx)
    I = w.I
    for st, obj, hooks in w.start():
        # threads 1..4 have been sampled.
        states = [st]
        last = {}
        for th in (1, 2, 3, 4):
            nxt = []
            for s in states:
                now = moment(I, s, th, 0)
                last[th] = lin(now)
                for s2, got, exc in w.fire(s, hooks[th > 1], th, now):
                    if exc is None and got:
                        nxt.append(s2)
            states = nxt
        for s in states:
            counters = [k for k, v in s.get(obj).attrs.items()
                        if is_c(v) and type(v[2]) is int]
            for k in counters:
                s.mut(obj).attrs[k] = S('any ' + k)
            tables = [v for v in s.get(obj).attrs.values() if v[0] == 'r' and
                      s.get(v).kind == 'dict']
            w.living = (1, 3)
            dropped = 0
            moved = set()
            cond = []
            now = moment(I, s, 1, 1)
            total = 0
            for s2, got, exc in w.fire(s, hooks[0], 1, now):
                if not got:
                    continue
                total += 1
                if exc is not None:
                    cx.ob('ended threads', False, 'raises %s while it looks '
                          'for them' % exc_show(exc), w.loc)
                    continue
                for k in counters:
                    if s2.get(obj).attrs.get(k) != S('any ' + k):
                        moved.add(k)
                keys = set()
                for t in tables:
                    o = s2.get(t)
                    keys |= set(k for k, v in o.known.items()
                                if v is not ABSENT)
                asked = any(e.k == 'call' and e.fn == 'sys._current_frames'
                            for e in s2.events())
                if not asked:
                    continue
                gone = not (C(2) in keys or C(4) in keys)
                dropped += gone
                cx.ob('ended threads dropped', gone if tables else None,
                      'what is known of ended threads is kept', w.loc)
                # the living one keeps its last sample.
                s3 = s2.fork()
                n3 = moment(I, s3, 3, 1)
                for s4, g4, x4 in w.fire(s3, hooks[1], 3, n3):
                    judge_sample(w, s4, ['ended threads forgotten',
                                         'thread 3'], g4, x4, last[3], n3,
                                 False)
                s3 = s2.fork()
                n3 = moment(I, s3, 1, 2)
                for s4, g4, x4 in w.fire(s3, hooks[0], 1, n3):
                    judge_sample(w, s4, ['ended threads forgotten',
                                         'thread 1'], g4, x4, lin(now), n3,
                                 False)
            if not total:
                cx.ob('ended threads', None, 'no sample was taken')
                continue
            cx.ob('ended threads looked for', bool(dropped) if tables
                  else None, 'nothing drops the book-keeping of threads '
                  'which ended', w.loc)
            if dropped and dropped < total:
                cx.ob('looked for again', bool(moved) or None,
                      'the count it depends on never changes', w.loc)
