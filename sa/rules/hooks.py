"""The profiling hooks: C02, C03, C42 and the thread and signal hooks."""
from ..core import *  # noqa
from ..core import Undecided
from .life import tail_events, exc_name, args_for

#: resource -> what reads it, what sets it
SETTERS = {
    'sys.setprofile': 'profile function',
    'threading.setprofile': 'thread profile function',
    'signal.signal': 'signal handler',
    'signal.setitimer': 'interval timer',
    'greenlet.settrace': 'greenlet trace function',
}
GETTERS = {
    'sys.getprofile': 'profile function',
    'threading.getprofile': 'thread profile function',
    'signal.getsignal': 'signal handler',
    'signal.getitimer': 'interval timer',
    'greenlet.gettrace': 'greenlet trace function',
}
KEYED = ('signal handler', 'interval timer')


def resource(ev):
    """(resource, value) of a setter call, or None."""
    if ev.k != 'call':
        return None
    name = SETTERS.get(ev.fn)
    if name is None:
        return None
    args = list(ev.args) + [v for k, v in ev.kw]
    if name in KEYED:
        if not args:
            return None
        return (name, args[0]), ('t', tuple(args[1:]))
    return (name, None), ('t', tuple(args[:1]))


def init_of(res):
    return S('previous ' + res[0])


def current(st, res, events=None):
    """What is installed; the initial value unless set on this path."""
    val = None
    for e in (events if events is not None else st.events()):
        r = resource(e)
        if r is not None and r[0] == res and e.exc is None:
            val = r[1]
    if val is None:
        return init_of(res)
    if res[0] == 'interval timer':
        if len(val[1]) == 1 and val[1][0][0] == 'star':
            return val[1][0][1]
        if len(val[1]) == 2 and all(
                v[0] == 'i' and v[2] == C(i) and v[1] == val[1][0][1]
                for i, v in enumerate(val[1])):
            return val[1][0][1]
        return val
    return val[1][0] if val[1] else val


def install_models(I):
    def getter(I, st, ev):
        name = GETTERS[ev.fn]
        key = ev.args[0] if name in KEYED and ev.args else None
        return current(st, (name, key))

    def setter(I, st, ev):
        r = resource(ev)
        if r is None:
            return None
        if ev.fn in ('sys.setprofile', 'threading.setprofile'):
            return NONE
        return current(st, r[0])
    for g in GETTERS:
        I.rets[g] = getter
    for g in SETTERS:
        I.rets[g] = setter


SUB = ('Runnable.start', 'Runnable.stop')


def policy(ev, st, fr):
    if isinstance(ev.fn, str) and (ev.fn in GETTERS or
                                   ev.fn.startswith('time.') or
                                   ev.fn in ('weakref.proxy', NESTED)):
        return []
    return [('uexc', st.n, str(ev.fn))]


def run_paths(cx, I, st, cref, obj):
    """Paths of run(): [(state, kind, exc, yield position or None)]"""
    outs = cx.method(I, st, obj, 'run', [S(p[1]) for p in
                                         args_for(I, cref, 'start')])
    res = []
    for s, g, exc in outs:
        o = s.get(g) if exc is None else None
        if exc is not None or o is None or o.kind != 'gen':
            res.append((s, 'raise' if exc is not None else 'n', exc))
            continue

        def handler(s, v, e, fr):
            I.event(s, fr, e, 'YIELD', args=(v,))
            return [(s, NONE, None)]
        for s2, k, v in I.run_gen(s, g, handler, None, top()):
            res.append((s2, k, v if k == 'raise' else None))
    cx.npaths += len(res)
    cx.functions |= I.visited
    return res


EXPECT = {
    'tracing.TracingProfiler': ['profile function', 'thread profile function',
                                'timer'],
    'sampling.SamplingProfiler': ['sampler'],
    'sampling.samplers.ItimerSampler': ['signal handler', 'interval timer'],
    'sampling.samplers.TracingSampler': ['profile function',
                                         'thread profile function'],
    'tracing.timers.GreenletTimer': ['greenlet trace function'],
}


def setup(cx, name=None):
    I = interp()
    I.opaque = set(SUB)
    I.policy = lambda ev, st, fr: []
    install_models(I)
    return I


NESTED = 'Runnable.is_running'


def nested_running(I, st, ev):
    """What is_running() of a nested object says, after the starts and stops
    on the path."""
    val = S('was running: %s' % show(ev.recv))
    for e in st.events():
        if e.k != 'call' or e.recv != ev.recv:
            continue
        if e.fn == SUB[0] and e.exc is None:
            val = C(True)
        elif e.fn == SUB[1]:
            val = C(False)
    return val


def subjects(cx):
    I = interp()
    base = cx.cls(I, 'utils.Runnable')
    out = []
    for n in EXPECT:
        cx.cls(I, n)
    for r in sorted(I.subclasses.get(base, ()), key=lambda r: r[1]):
        f, own = I.class_lookup(I.world, r, 'run')
        if own == base:
            continue
        out.append(r)
    return out


def holds(st, events):
    """Which sub-objects are started, after these events."""
    held = []
    tried = set()
    for e in events:
        if e.k != 'call':
            continue
        if e.fn == SUB[0] and e.exc is None:
            held.append(e.recv)
        elif e.fn == SUB[1]:
            tried.add(e.recv)
            if e.recv in held:
                held.remove(e.recv)
    return held, tried


def foreign_stops(events):
    """The stops of sub-objects which were not started on the path."""
    held, out = [], []
    for e in events:
        if e.k == 'call' and e.fn == SUB[0] and e.exc is None:
            held.append(e.recv)
        elif e.k == 'call' and e.fn == SUB[1]:
            if e.recv in held:
                held.remove(e.recv)
            else:
                out.append(e)
    return out


def same(I, st, a, b):
    if a == b:
        return True
    return I.decide(st, I.mkcmp('is', a, b)) is True or \
        I.decide(st, I.mkcmp('==', a, b)) is True


def given_back(I, st, res, val):
    """'back' as before, 'neutral' off, 'ours' something else."""
    init = init_of(res)
    if same(I, st, val, init):
        return 'back'
    if res[0] == 'signal handler':
        if val == X('signal.SIG_IGN'):
            if same(I, st, init, X('signal.SIG_DFL')):
                return 'back'
            return 'neutral'
        if val == X('signal.SIG_DFL'):
            return 'neutral'
        return 'ours'
    if res[0] == 'interval timer':
        if val[0] == 't' and val[1] and val[1][0] in (C(0), C(0.0)):
            return 'neutral'
        if val[0] == 't' and any(mentions(v, init) for v in val[1]):
            # made of what it was, but not the same.
            return 'neutral'
        return 'ours'
    if val == NONE:
        # threads: there is no way to ask, nothing else is possible.
        if res[0] == 'thread profile function':
            return 'back'
        return 'neutral'
    return 'ours'


def paths_of(cx, I, cref):
    st = I.start_state()
    made = construct(cx, I, st, cref,
                     [S('wrapped')] if 'Wrapper' in str(
                         [I.name_of(c) for c in I.mro(I.world, cref)
                          if c[0] == 'r']) else [])
    if not made:
        raise Undecided('cannot construct %s' % I.name_of(cref))
    st, obj = made[0]
    st.trace, st.nev = None, 0
    I.policy = policy
    I.trydepth = 0
    return run_paths(cx, I, st, cref, obj), obj


def check_hooks(cx, which):
    for cref in subjects(cx):
        I = setup(cx)
        I.opaque.add(NESTED)
        I.rets[NESTED] = nested_running
        name = I.name_of(cref).replace('profiling.', '')
        paths, obj = paths_of(cx, I, cref)
        started = 0
        for s, k, exc in paths:
            evs = s.events()
            if any(e.k == 'loop' and any(
                    resource(e2) for sg in e.x.segs for e2 in sg.events)
                    for e in evs):
                cx.ob(name, None, 'hooks are set in a loop')
                continue
            ys = [i for i, e in enumerate(evs) if e.k == 'YIELD']
            # what is installed while running.
            touched = []
            for e in evs:
                r = resource(e)
                if r is not None and r[0] not in touched:
                    touched.append(r[0])
            if ys:
                started += 1
                before = evs[:ys[0]]
                if which == 'C02':
                    installed_rule(cx, I, name, s, before, touched)
            failed = None if ys else 'a failed start'
            what = failed or 'stop'
            for res in touched:
                val = current(s, res, evs)
                how = given_back(I, s, res, val)
                last = [e for e in evs if resource(e) and
                        resource(e)[0] == res][-1]
                # a release that itself fails is all one can do.
                attempted = last.exc is not None and given_back(
                    I, s, res, current(s, res, evs_ok(evs, last))) != 'ours'
                ok_rel = how != 'ours' or attempted
                ok_back = how == 'back' or (
                    last.exc is not None and given_back(
                        I, s, res, current(s, res, evs_ok(evs, last))) ==
                    'back')
                if which == 'C02':
                    cx.ob('%s: %s after %s' % (name, res[0], what), ok_rel,
                          '%s is still installed after %s%s' % (
                              show(val), what, path_note(evs, exc)),
                          last.loc)
                else:
                    cx.ob('%s: %s after %s' % (name, res[0], what), ok_back,
                          '%s is set to %s instead of what was there before '
                          'start%s' % (res[0], show(val),
                                       path_note(evs, exc)), last.loc)
            held, tried = holds(s, evs)
            if which == 'C03':
                for e in foreign_stops(evs):
                    cx.ob('%s: nested stop after %s' % (name, what), False,
                          '%s.stop() although this run did not start it%s'
                          % (show(e.recv), path_note(evs, exc)), e.loc)
            if which == 'C02':
                for h in held:
                    cx.ob('%s: nested start after %s' % (name, what), False,
                          '%s.start() is not undone%s' % (
                              show(h), path_note(evs, exc)))
                if any(e.k == 'call' and e.fn == SUB[0] for e in evs) and \
                        not held:
                    cx.ob('%s: nested start after %s' % (name, what), True)
                if ys:
                    order_rule(cx, name, evs[ys[0]:], 'after')
                order_rule(cx, name, evs, 'whole')
        cx.ob(name + ': can be started', started > 0, 'no path reaches the '
              'yield of run()', rule='hooks')


def evs_ok(evs, last):
    """The events as if a failing call had worked."""
    out = []
    for e in evs:
        if e is last:
            e = Ev('call', fn=e.fn, recv=e.recv, args=e.args, kw=e.kw)
        out.append(e)
    return out


def path_note(evs, exc):
    failing = [e for e in evs if e.k == 'call' and e.exc is not None]
    if failing:
        return ' when %s raises (line %s)' % (
            failing[0].fn, failing[0].loc[1] if failing[0].loc else '?')
    return ''


def installed_rule(cx, I, name, s, before, touched):
    want = EXPECT.get(name, [])
    for w in want:
        if w in ('timer', 'sampler'):
            held, __ = holds(s, before)
            ok = len(held) > 0
            cx.ob('%s: %s while running' % (name, w), ok,
                  'the %s is not started before run() yields' % w)
            continue
        rs = [r for r in touched if r[0] == w]
        ok = False
        for r in rs:
            val = current(s, r, before)
            if given_back(I, s, r, val) == 'ours':
                ok = True
                if w == 'signal handler' and r[1] != X('signal.SIGPROF'):
                    ok = False
                if w == 'interval timer' and r[1] != X('signal.ITIMER_PROF'):
                    ok = False
        cx.ob('%s: %s while running' % (name, w), ok,
              'no %s is installed when run() yields' % w)


def order_rule(cx, name, evs, part):
    """The timer may only be armed while the handler is in place."""
    sig = timer = None
    seen_t = False
    for i, e in enumerate(evs):
        r = resource(e)
        if r is None:
            continue
        if r[0][0] == 'signal handler':
            if part == 'after' and not seen_t:
                later = [x for x in evs[i:] if resource(x) and
                         resource(x)[0][0] == 'interval timer']
                if later:
                    cx.ob(name + ': disarm before the handler goes', False,
                          'the signal handler is taken away before the '
                          'interval timer is disarmed', e.loc)
            elif part == 'after':
                cx.ob(name + ': disarm before the handler goes', True)
            sig = i
        if r[0][0] == 'interval timer':
            seen_t = True
            if part == 'whole' and timer is None:
                cx.ob(name + ': handler before the timer', sig is not None,
                      'the interval timer is armed before its handler is '
                      'installed', e.loc)
            timer = i


@rule('C02', 'on every path of every run() generator, with every call allowed '
      'to raise: the hooks of the class are installed at the yield, and at '
      'every exit none installed on the path is left behind')
def released(cx):
    check_hooks(cx, 'C02')


@rule('C03', 'on every path of every run() generator the hook value left at '
      'the exit is the one that was there at the entry')
def given(cx):
    check_hooks(cx, 'C03')


def recording(evs):
    """Events that record something."""
    out = []
    for e in evs:
        if e.k in ('store', 'setitem', 'setprop', 'delitem'):
            out.append(e)
        elif e.k == 'loop':
            for sg in e.x.segs:
                out.extend(recording(sg.events))
        elif e.k == 'call' and e.exc is None:
            if e.res is not None and e.res[0] == 'call' and e.res[-1] == 0:
                continue
            if isinstance(e.fn, str) and (
                    e.fn in SETTERS or e.fn in GETTERS or
                    e.fn.startswith(('time.', '_thread.', 'threading.'))):
                continue
            out.append(e)
    return out


def thread_hooks(cx):
    for cref in subjects(cx):
        I = setup(cx)
        name = I.name_of(cref).replace('profiling.', '')
        I.policy = lambda ev, st, fr: []
        paths, obj = paths_of(cx, I, cref)
        for s, k, exc in paths:
            evs = s.events()
            if k != 'n' or any(e.k == 'call' and e.exc is not None
                               for e in evs):
                continue
            for e in evs:
                r = resource(e)
                if r is None or r[0][0] != 'thread profile function' or \
                        r[1] == ('t', (NONE,)):
                    continue
                yield I, name, cref, obj, s, r[1][1][0], e


@rule('C42', 'the function given to threading.setprofile, called in a thread '
      'after stop, changes nothing; called while running, it records')
def after_stop(cx):
    n = 0
    for I, name, cref, obj, s, hook, e in thread_hooks(cx):
        n += 1
        I.policy = lambda ev, st, fr: []
        s1 = s.fork()
        mark = s1.nev
        for s2, v, exc in cx.call(I, s1, hook, [S('frame'), S('event'),
                                                S('arg')]):
            rec = recording(tail_events(s2, mark))
            cx.ob('%s: thread hook after stop' % name, not rec,
                  'a thread that outlives the session still records: %s'
                  % (rec[:2]), rec[0].loc if rec else e.loc)
        # while running.
        s1 = s.fork()
        I.opaque = set(['run'])
        I.rets['run'] = lambda I, st, ev: I.new(st, HObj('open'))
        some = False
        for s2, v, exc in cx.method(I, s1, obj, 'start',
                                    args_for(I, cref, 'start')):
            if exc is not None:
                continue
            mark = s2.nev
            for ev_ in ('call', 'return'):
                for s3, v, x in cx.call(I, s2.fork(), hook, [
                        S('frame'), C(ev_), S('arg')]):
                    if recording(tail_events(s3, mark)):
                        some = True
        cx.ob('%s: thread hook while running' % name, some,
              'the thread hook never records anything', e.loc)
    for n_ in ('tracing.TracingProfiler', 'sampling.samplers.TracingSampler'):
        pass
    cx.ob('instances', True if n >= 2 else None, 'fewer than two classes install a thread '
          'profile function')


def left_hooks(cx):
    """What of ours is still called after a stop, per class and path."""
    for cref in subjects(cx):
        I = setup(cx)
        name = I.name_of(cref).replace('profiling.', '')
        I.policy = lambda ev, st, fr: []
        paths, obj = paths_of(cx, I, cref)
        for s, k, exc in paths:
            if k != 'n':
                continue
            evs = s.events()
            touched = []
            for e in evs:
                r = resource(e)
                if r is not None and e.exc is None and r[0] not in touched:
                    touched.append(r[0])
            for res in touched:
                if res[0] == 'interval timer':
                    continue
                yield I, name, res, current(s, res), s, [
                    e for e in evs if (resource(e) or [None])[0] == res][-1]


@rule('C42', 'the signal handler and the profile function that are installed '
      'after stop, called by a late signal or event, record nothing')
def late_signals(cx):
    for I, name, res, hook, s, e in left_hooks(cx):
        what = '%s: %s after stop' % (name, res[0])
        if res[0] == 'signal handler':
            default = X('signal.SIG_DFL')
            told = None
            for op in ('==', 'is'):
                t = I.mkcmp(op, hook, default)
                x = t[2] if is_c(t) else s.facts.get(t)
                told = x if told is None else told
            if told is None and any(mentions(f, hook) for f in s.facts):
                told = Ellipsis
            cx.ob('%s: a late signal does not end the process' % name,
                  hook != default and (told is False or hook[0] in 'xr' or (
                      None if told is Ellipsis else False)),
                  'the default handler is installed, which ends it', e.loc)
        if not (hook[0] == 'r' or hook[0] == 'x' and
                str(hook[1]).startswith('profiling.')):
            cx.ob(what, True)
            continue
        I.policy = lambda ev, st, fr: []
        s1 = s.fork()
        mark = s1.nev
        args = [C(27), S('frame')] if res[0] == 'signal handler' else \
            [S('frame'), S('event'), S('arg')]
        for s2, v, exc in cx.call(I, s1, hook, args):
            if exc is not None and exc[0] == 'uexc':
                cx.ob(what, None, 'raises %s' % exc[2], e.loc)
                continue
            rec = recording(tail_events(s2, mark))
            cx.ob(what, not rec, 'is still ours and records: %s' % (rec[:2]),
                  rec[0].loc if rec else e.loc)
