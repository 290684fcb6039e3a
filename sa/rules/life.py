"""Start and stop (C01), clean slate (C05)."""
from ..core import *  # noqa
from ..core import Undecided
from .helpers import func_site


def raise_all(extra=()):
    """Every call out of the analysed code may raise."""
    def policy(ev, st, fr):
        if isinstance(ev.fn, str) and ev.fn.startswith('time.'):
            return []
        out = [('uexc', st.n, str(ev.fn))]
        if ev.fn == 'builtins.next':
            out.append(('exc', X('builtins.StopIteration'), (), st.n))
        return out
    return policy


PASSIVE = frozenset(['load', 'cond', 'enter', 'mkgen', 'raise', 'except'])


def effects(events, fresh=()):
    """Events which change something."""
    out = []
    for e in events:
        if e.k in PASSIVE:
            continue
        if e.k == 'call' and e.res is not None and e.res[-1] == 0:
            continue
        if e.k == 'call' and isinstance(e.fn, str) and \
                e.fn.startswith('time.'):
            continue
        out.append(e)
    return out


def running(cx, I, st, obj):
    """The truths is_running() may have in a state."""
    out = set()
    for s, v, exc in cx.method(I, st.fork(), obj, 'is_running'):
        if exc is not None:
            out.add('raises')
            continue
        for s2, b in I.truth(s, v, None, top()):
            out.add(b)
    return out


def tail_events(s, mark):
    from ..engine import tail
    return tail(s, mark)


RUN_OPAQUE = 'run'


def runnable_classes(cx, I):
    base = cx.cls(I, 'utils.Runnable')
    out = [base] + sorted(I.subclasses.get(base, ()), key=lambda r: r[1])
    return base, out


def exc_name(exc):
    if exc is None:
        return None
    if exc[0] == 'exc':
        return exc[1][1] if exc[1][0] == 'x' else show(exc[1])
    return 'any'


@rule('C01', 'for every Runnable class and every history of up to four '
      'start/stop calls, each of which may fail at every call it makes: '
      'is_running() is true exactly after a successful start, refused calls '
      'raise RuntimeError and have no effect')
def lifecycle(cx):
    I0 = interp()
    base, classes = runnable_classes(cx, I0)
    for cref in classes:
        I = interp()
        I.opaque = set(['run', 'frame_stack', 'stats.RecordingStatistics'])
        name = I.name_of(cref).replace('profiling.', '')
        st = I.start_state()
        o = I.world.get(cref)
        # an object as constructed; what is delegated to a wrapped object is
        # decided by the wrapped object.
        init, __ = I.class_lookup(I.world, cref, '__init__')
        wrapper = is_wrapper(I, cref)
        made = construct(cx, I, st, cref, [S('profiler')] if wrapper else [])
        if not made:
            cx.ob(name, None, 'cannot be constructed')
            continue
        st, obj = made[0]
        I.policy = raise_all()
        I.rets = {'run': lambda I, st, ev: I.new(st, HObj('open'))}
        if wrapper:
            wrapped_lifecycle(cx, I, st, obj, name)
            continue
        r = running(cx, I, st, obj)
        cx.ob(name + ': new object', r == set([False]),
              'is_running() of a new object: %s' % sorted(map(str, r)))
        states = [(st, False, 'new')]
        seen = set()
        for step in range(3):
            nxt = []
            for s0, run_, hist in states:
                for op in ('start', 'stop'):
                    if step == 2 and op == 'start' and run_:
                        pass
                    s1 = s0.fork()
                    mark = s1.nev
                    args = [S('arg')] if op == 'start' else []
                    outs = cx.method(I, s1, obj, op,
                                     args_for(I, cref, op))
                    succ = vague = False
                    for s2, v, exc in outs:
                        evs = tail_events(s2, mark)
                        refused = (op == 'start') == run_
                        r = running(cx, I, s2, obj)
                        where = '%s: %s when %s' % (
                            name, op, 'running' if run_ else 'stopped')
                        loc = evs[-1].loc if evs else None
                        if refused:
                            cx.ob(where, exc_name(exc) ==
                                  'builtins.RuntimeError',
                                  'must raise RuntimeError, %s' % (
                                      'returns' if exc is None else
                                      'raises ' + exc_name(exc)), loc)
                            eff = effects(evs)
                            cx.ob(where + ' has no effect', not eff,
                                  'refused, but first: %s' % eff[:3], loc)
                            cx.ob(where + ' keeps the state', r ==
                                  set([run_]), 'is_running() afterwards: %s'
                                  % sorted(map(str, r)), loc)
                            continue
                        if op == 'start':
                            want = exc is None
                        else:
                            want = False
                        what = ' that %s' % (
                            'succeeds' if exc is None else 'fails')
                        if exc is None and len(r) > 1:
                            vague = True
                        cx.ob(where + what, None if len(r) > 1 else
                              r == set([want]),
                              'after %s (%s) is_running() is %s: %s' % (
                                  op, 'ok' if exc is None else
                                  'raised by %s' % (exc[2] if exc[0] == 'uexc'
                                                    else exc_name(exc)),
                                  sorted(map(str, r)), evs[-3:]), loc)
                        if r in (set([True]), set([False])):
                            succ = succ or exc is None
                            key = (r == set([True]), op, exc is None, run_)
                            if key not in seen:
                                seen.add(key)
                                nxt.append((s2, r == set([True]),
                                            hist + '.' + op))
                    if (op == 'start') != run_:
                        cx.ob('%s: %s can succeed (%s)' % (
                            name, op, hist), succ or (
                                None if vague else False),
                            'no path of %s succeeds'
                            % op)
            states = nxt


@rule('C01', 'the with block of every profiler, whatever its body, start and '
      'stop raise: it runs from the start to the stop, is stopped on every '
      'way out, passes exceptions on, and refuses a running profiler')
def blocks(cx):
    I0 = interp()
    base, classes = runnable_classes(cx, I0)
    prof = cx.cls(I0, 'profiler.Profiler')
    for cref in classes:
        I = interp()
        I.opaque = set(['run', 'frame_stack', 'stats.RecordingStatistics'])
        name = I.name_of(cref).replace('profiling.', '')
        if cref != base and prof not in I.mro(I.world, cref) or \
                is_wrapper(I, cref):
            continue
        st = I.start_state()
        made = construct(cx, I, st, cref)
        if not made:
            cx.ob(name, None, 'cannot be constructed')
            continue
        st, obj = made[0]
        I.policy = raise_all()
        I.rets = {'run': lambda I, st, ev: I.new(st, HObj('open'))}
        enter = func_site(I, 'Runnable.__enter__')
        leave = func_site(I, 'Runnable.__exit__')
        env = dict(o=obj, body=X('scenario.body'))
        src = 'with o as got:\n    inside = o.is_running()\n    body()'
        reached = 0
        for s, v, exc in snippet(cx, I, st.fork(), src, env):
            at = [e for e in tail_events(s, st.nev)
                  if e.fn == 'scenario.body']
            r = running(cx, I, s, obj)
            cx.ob(name + ': with: left', None if len(r) > 1 else
                  r == set([False]), 'is_running() after the block is %s' %
                  sorted(map(str, r)), leave)
            if not at:
                cx.ob(name + ': with: start fails', exc is not None,
                      'the body does not run and nothing is raised', enter)
                continue
            reached += 1
            cx.ob(name + ': with: body', v.get('inside') == C(True),
                  'it is not running in the block', enter)
            cx.ob(name + ': with: value', v.get('got') == obj,
                  'the block is given %s' % show(v.get('got')), enter)
            if at[0].exc is not None:
                cx.ob(name + ': with: exception', exc is not None,
                      'an exception of the body is swallowed', leave)
        cx.ob(name + ': with', reached > 0, 'the body is never run', enter)
        for s, v, exc in cx.method(I, st.fork(), obj, 'start'):
            if exc is not None or running(cx, I, s, obj) != set([True]):
                continue
            mark = s.nev
            for s2, v, e2 in snippet(cx, I, s.fork(), src, env):
                cx.ob(name + ': with: running already', exc_name(e2) ==
                      'builtins.RuntimeError' and not effects(
                          tail_events(s2, mark)) and
                      running(cx, I, s2, obj) == set([True]),
                      'it is entered although it is running', enter)


def args_for(I, cref, op):
    # what run() requires.
    if op != 'start':
        return []
    f, own = I.class_lookup(I.world, cref, 'run')
    m = I.world.get(f).meta
    return [S(p) for p in m['pos'][1:] if p not in m['defaults']]


def is_wrapper(I, cref):
    f, own = I.class_lookup(I.world, cref, 'is_running')
    o = I.world.get(f) if f is not None and f[0] == 'r' else None
    return o is not None and o.kind == 'property'


def wrapped_lifecycle(cx, I, st, obj, name):
    """A wrapper: is_running is that of the wrapped profiler."""
    fr = top()
    for s, f, exc in cx.attr(I, st.fork(), obj, 'is_running'):
        ok = exc is None and f == ('a', S('profiler'), 'is_running')
        cx.ob(name + ': is_running', ok, 'is_running of a wrapper is not that '
              'of the wrapped profiler but %s' % (show(f) if f else
                                                       str(exc),))
    for truth in (True, False):
        for op in ('start', 'stop'):
            I.rets = {'.is_running': lambda I, st, ev, t=truth: C(t)}

            def policy(ev, st, fr):
                if ev.fn == '.is_running':
                    return []
                return raise_all()(ev, st, fr)
            I.policy = policy
            s0 = st.fork()
            mark = s0.nev
            for s2, v, exc in cx.method(I, s0, obj, op):
                evs = [e for e in tail_events(s2, mark)
                       if not (e.k == 'call' and e.fn == '.is_running')]
                where = '%s: %s when %s' % (
                    name, op, 'running' if truth else 'stopped')
                if (op == 'start') == truth:
                    cx.ob(where, exc_name(exc) == 'builtins.RuntimeError',
                          'must raise RuntimeError, %s' % (
                              'returns' if exc is None else exc_name(exc)))
                    eff = effects(evs)
                    cx.ob(where + ' has no effect', not eff,
                          'refused, but first: %s' % eff[:3])


#: What run() yields, how start() and stop() end, and whether the generator has
#: to be closed by then.
MISSHAPEN = (
    ('yields never', (), ('TypeError',), False),
    ('yields a value', (C(1),), ('TypeError',), True),
    ('yields twice', (NONE, NONE), (None, 'TypeError'), False),
    ('yields once, as it should', (NONE,), (None, None), False),
)


@rule('C01', 'a run() which yields never, a value or twice: TypeError, and it '
      'is not running and can be started again; one which is missing: '
      'NotImplementedError')
def misshapen(cx):
    for text, script, ends, closed in MISSHAPEN:
        I = interp()
        I.concrete_ok = True
        I.policy = lambda ev, st, fr: []
        I.opaque = set(['run'])
        I.rets = {'run': lambda I, st, ev: I.new(st, HObj('open'))}

        def of(st, g, k):
            return [e for e in st.events() if e.recv == g and e.k == k]

        def advance(I, st, args, kw, node, fr):
            g = args[0]
            n = len(of(st, g, 'NEXT'))
            if [e for e in of(st, g, 'call') if e.fn.endswith('close')]:
                n = len(script)
            I.event(st, fr, node, 'NEXT', recv=g)
            if n < len(script):
                return [(st, script[n], None)]
            if len(args) > 1:
                return [(st, args[1], None)]
            return [I.raise_(st, 'StopIteration')]
        I.ext_over['builtins.next'] = advance
        env = {'R': cx.cls(I, 'utils.Runnable')}
        states = [(s, e['x']) for s, e, exc in snippet(
            cx, I, I.start_state(), 'class Mine(R):\n    pass\nx = Mine()',
            env) if exc is None]
        if not states:
            raise Undecided(text)
        # twice: it can be started again, whatever happened.
        for n, (name, want) in enumerate(
                list(zip(('start', 'stop'), ends)) * 2):
            nxt = []
            loc = func_site(I, 'utils.Runnable.' + name)
            for s, x in states:
                mark = len(s.events())
                for s2, v, exc in cx.method(I, s, x, name):
                    evs = s2.events()[mark:]
                    what = 'a run() which %s: %s%s' % (
                        text, name, ' again' if n >= len(ends) else '')
                    if not [e for e in evs if e.k == 'NEXT']:
                        # driven by other means, or not at all.
                        cx.ob(what, None, 'the generator is not advanced by '
                              'next()', loc)
                        continue
                    ended(cx, I, s2, x, what, exc, want,
                          name == 'start' and want is None, loc)
                    if closed:
                        cx.ob(what + ': closed', bool(
                            [e for e in evs if e.k == 'call' and
                             e.fn.endswith('close')]),
                            'what run() set up is not torn down: the '
                            'generator is left open', loc)
                    nxt.append((s2, x))
            states = nxt
    I = interp()
    I.concrete_ok = True
    I.policy = lambda ev, st, fr: []
    loc = func_site(I, 'utils.Runnable.run')
    for s, e, exc in snippet(cx, I, I.start_state(), 'class Mine(R):\n'
                             '    pass\nx = Mine()',
                             {'R': cx.cls(I, 'utils.Runnable')}):
        for s2, e2, exc in snippet(cx, I, s, 'next(x.run())', {'x': e['x']}):
            if exc is None or exc[0] == 'uexc':
                cx.ob('no run() at all', None if exc else False,
                      'is not refused', loc)
            else:
                cx.ob('no run() at all', exc_name(exc) == 'builtins.'
                      'NotImplementedError', 'raises %s' % exc_name(exc), loc)


def ended(cx, I, s, x, what, exc, want, runs, loc):
    if exc is not None and exc[0] == 'uexc':
        cx.ob(what, None, 'raises %s' % (exc,), loc)
        return
    got = exc_name(exc)
    if got:
        got = got.split('.')[-1]
    good = got == want
    if not good and exc is not None and want is not None:
        # a class of its own?
        good = False if exc[1][0] == 'x' else None
    cx.ob(what, good, 'raises %s and not %s' % (
        got or 'nothing', want or 'nothing'), loc)
    if x is None:
        return
    got = running(cx, I, s.fork(), x)
    cx.ob(what + ': running', got == set([runs]) or (
        False if len(got) == 1 else None), 'is_running() is %s' % sorted(
            map(str, got)), loc)
