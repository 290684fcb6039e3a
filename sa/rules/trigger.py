"""The background trigger (C26) and the bounded wait (C27)."""
import errno
import itertools

from ..core import *  # noqa
from ..core import Undecided
from ..engine import HObj
from ..lin import lin
from .helpers import func_site
from .net import (Backend, BACKENDS, END, exc_kind, exc_show, nev, remote)


BLOCKED = ('genexit', 'blocked')

WORLD = '''
class Event(object):
    def __init__(self):
        self.flag = False
    def set(self):
        self.flag = True
        answered()
    def clear(self):
        self.flag = False
    def is_set(self):
        return self.flag
    isSet = is_set
    def wait(self, timeout=None):
        if not self.flag:
            deliver(timeout)
        if not self.flag:
            blocked(timeout)
            return False
        return True
class Inner(object):
    def __init__(self):
        self.running = False
    def is_running(self):
        return self.running
    def start(self, *args, **kwargs):
        note('start')
        self.running = True
    def stop(self, *args, **kwargs):
        note('stop')
        self.running = False
    def result(self):
        pass
'''

KILLS = {'os.kill': 1, 'os.killpg': 1, 'signal.pthread_kill': 1,
         'signal.raise_signal': 0}


class SignalWorld(object):
    """A background profiler; signals are delivered to the main thread as
    soon as they are sent or when the sender waits."""

    def __init__(self, cx, soon, refuse=(), signum=None):
        self.cx, self.soon, self.refuse = cx, soon, refuse
        self.I = I = remote(cx)
        self.env = {'deliver': X('world.deliver'), 'blocked':
                    X('world.blocked'), 'note': X('world.note'),
                    'answered': X('world.answered'),
                    'Background': cx.cls(
                        I, 'remote.background.BackgroundProfiler'),
                    'signum': S('signal number')}
        for name in ('deliver', 'blocked', 'note', 'answered'):
            I.ext_over['world.' + name] = getattr(self, name)
        for name in KILLS:
            I.ext_over[name] = self.killer(KILLS[name], name)
        I.ext_over['signal.signal'] = self.register
        I.ext_over['threading.Event'] = lambda I, st, args, kw, node, fr: \
            I.call(st, self.classes['Event'], [], {}, node, fr)
        st = I.start_state()
        I.assume(st, I.mkcmp('is', S('signal number'), NONE), False)
        outs = snippet(cx, I, st, WORLD, self.env)
        self.st, self.classes = outs[0][0], outs[0][1]
        outs = [o for o in snippet(
            cx, I, self.st, 'inner = Inner()\nbg = Background(inner%s)\n'
            'old = bg.prepare()\n' % (', signum' if signum else ''),
            dict(self.env, Inner=self.classes['Inner'])) if o[2] is None]
        if not 0 < len(outs) < 9:
            raise Undecided('the background profiler cannot be made')
        self.made = outs
        self.choose(0)

    def choose(self, k):
        """The k-th way in which it is made."""
        self.st, v, __ = self.made[k]
        self.inner, self.bg = v['inner'], v['bg']

    def note(self, I, st, args, kw, node, fr):
        I.event(st, fr, node, 'NOTE', fn=args[0][2])
        if args[0][2] in self.refuse:
            st.n += 1
            return [(st, None, ('exc', X(self.refuse[args[0][2]]),
                                (C('no'),), st.n))]
        return [(st, NONE, None)]

    def answered(self, I, st, args, kw, node, fr):
        I.event(st, fr, node, 'ANSWER', fn='set')
        return [(st, NONE, None)]

    def blocked(self, I, st, args, kw, node, fr):
        if args and args[0] != NONE:
            n = sum(1 for e in st.events() if e.k == 'TIMEOUT')
            I.event(st, fr, node, 'TIMEOUT', fn='timeout')
            return [(st, NONE, None if n < 12 else BLOCKED)]
        return [(st, None, BLOCKED)]

    def register(self, I, st, args, kw, node, fr):
        args = list(args) + [kw[k] for k in ('signalnum', 'handler')
                             if k in kw]
        I.event(st, fr, node, 'REGISTER', fn='signal', args=tuple(args))
        return [(st, S('old handler'), None)]

    def handler(self, st, sig):
        for e in reversed(st.events()):
            if e.k == 'REGISTER' and e.args[:1] == (sig,):
                return e.args[1]
        return None

    def killer(self, at, name):
        def run(I, st, args, kw, node, fr):
            sig = args[at] if len(args) > at else NONE
            I.event(st, fr, node, 'KILL', fn=name, args=tuple(args), x=sig)
            return self.deliver(I, st, [], kw, node, fr) if \
                self.soon == 'at once' else [(st, NONE, None)]
        return run

    def deliver(self, I, st, args, kw, node, fr):
        sent = [e for e in st.events() if e.k == 'KILL']
        done = [e for e in st.events() if e.k == 'DELIVER']
        if len(sent) <= len(done):
            return [(st, NONE, None)]
        late = [e for e in st.events()[st.events().index(
            sent[len(done)]):] if e.k == 'TIMEOUT']
        if self.soon == 'late' and args and args[0] != NONE and not late:
            # a limited wait may end before.
            return [(st, NONE, None)]
        sig = sent[len(done)].x
        h = self.handler(st, sig)
        I.event(st, fr, node, 'DELIVER', fn='deliver', args=(sig,),
                x=h is not None)
        if h is None:
            # nobody handles it: the process ends.
            return [(st, None, ('genexit', 'killed'))]
        # what the handler raises is raised in the main thread.
        return [(s, NONE, None) for s, v, exc in I.call(
            st, h, [sig, S('frame')], {}, node, fr)]

    def session(self, st, at_yield):
        """One run of the trigger: [(state, exc)]."""
        I = self.I
        out = []
        I.steps = 0
        for s, g, exc in self.cx.method(I, st, self.bg, 'run'):
            if exc is not None:
                out.append((s, exc))
                continue

            def handler(s, v, e, fr):
                at_yield(s)
                return [(s, 'n', NONE)]
            I.steps = 0
            for s2, k, v in I.run_gen(s, g, handler, None, top()):
                out.append((s2, v if k == 'raise' else None))
        self.cx.npaths += len(out)
        self.cx.functions |= I.visited
        return out


@rule('C26', 'two sessions of the background trigger, the signal delivered '
      'as it is sent or during the wait, the profiler refusing to start or '
      'stop or not: the answer is waited for and comes, and is that of the '
      'current request')
def answers(cx):
    for soon in ('at once', 'during the wait', 'late'):
        for refuse in ((), ('start',), ('stop',)):
            for cls in (('builtins.RuntimeError', 'builtins.ValueError',
                         'builtins.SystemExit') if refuse else (None,)):
                for signum in (None, True):
                    trigger(cx, soon, dict((r, cls) for r in refuse), signum)
        # somebody sent the signal before.
        trigger(cx, soon, {}, None, True)


def trigger(cx, soon, refuse, signum, before=False):
    w = SignalWorld(cx, soon, refuse, signum)
    I = w.I
    I.steps = 0
    loc = func_site(I, 'remote.background.BackgroundProfiler._signal_handler')
    what = 'the signal comes %s%s%s' % (
        soon, ', the profiler cannot ' + ', '.join(
            '%s (%s)' % (k, v.split('.')[1]) for k, v in refuse.items())
        if refuse else '', ', own signal number' if signum else '')
    if before:
        what += ', others sent it twice before'
    for k in range(len(w.made)):
        w.choose(k)
        if before:
            sigs = [e.args[0] for e in w.st.events() if e.k == 'REGISTER']
            for sig in sigs[:1] * 2:
                outs = [s for s, v, exc in I.call(
                    w.st, w.handler(w.st, sig), [sig, S('frame')], {}, None,
                    top()) if exc is None]
                if len(outs) != 1:
                    return cx.ob(what, None, 'the handler has several ways',
                                 loc)
                w.st = outs[0]
        sessions(cx, w, what, refuse, signum, loc)


def sessions(cx, w, what, refuse, signum, loc):
    regs = [e for e in w.st.events() if e.k == 'REGISTER']
    cx.ob(what + ': registered', len(regs) == 1, 'is registered %d times'
          % len(regs), loc)
    if signum:
        cx.ob(what + ': for its own signal', bool(regs) and
              regs[0].args[0] == S('signal number'),
              'is registered for another signal', loc)

    skip = w.st.nev

    def judge(s, which, n):
        sent = [e for e in s.events() if e.k == 'KILL']
        got = [e for e in s.events() if e.k == 'DELIVER']
        cx.ob('%s: %s: one signal' % (what, which), len(sent) == n,
              '%d signals are sent' % len(sent), loc)
        cx.ob('%s: %s: answered' % (what, which), len(got) == n,
              'goes on before the profiler was toggled', loc)
        notes = [e.fn for e in s.events()[skip:] if e.k == 'NOTE']
        cx.ob('%s: %s: toggled' % (what, which), len(notes) == n and
              (refuse or notes[-1] == ('start', 'stop')[(n - 1) % 2]),
              'the profiler was told %s' % ', '.join(notes), loc)
        order = [e.k for e in s.events()[skip:] if e.k in ('DELIVER', 'NOTE',
                                                    'ANSWER')]
        early = [i for i, k in enumerate(order) if k == 'NOTE' and
                 order[i - 1] == 'ANSWER']
        cx.ob('%s: %s: answered afterwards' % (what, which), not early,
              'the answer is given before the profiler is toggled', loc)
        for e in sent:
            if e.fn != 'signal.raise_signal':
                p = e.args[0]
                cx.ob('%s: %s: to itself' % (what, which),
                      p[0] == 'call' and p[1] in (
                          'os.getpid', 'os.getpgrp', 'threading.get_ident')
                      or p[0] == 'a' and 'main_thread' in show(p) or
                      (False if is_c(p) else None),
                      'is sent to %s' % show(p), loc)

    states = [w.st]
    n = 0
    for i in (1, 2):
        nxt = []
        for s0 in states:
            for s, exc in w.session(s0.fork(), lambda s, n=n: judge(
                    s, 'start %d' % i, n + 1)):
                if exc is not None:
                    ok = False
                    if exc[0] == 'uexc' or exc[0] == 'exc' and exc[1] == X(
                            'builtins.TypeError'):
                        ok = None
                    cx.ob(what + ': ends', ok,
                          'is waited for without end' if exc == BLOCKED else
                          'nobody handles the signal' if exc[0] == 'genexit'
                          else 'raises %s' % exc_show(exc), loc)
                    continue
                judge(s, 'stop %d' % i, n + 2)
                nxt.append(s)
        if not nxt:
            cx.ob('%s: session %d' % (what, i), None, 'no path', loc)
        states = nxt[:2]
        n += 2


# -- C27

class Clock(object):
    """Waits with scripted outcomes and durations which are not known."""

    def __init__(self, cx, script, listener=True):
        self.cx, self.script = cx, script
        self.b = b = Backend(cx, 'select')
        self.I = I = b.I
        I.unroll_symbolic = True
        I.ext_over['select.select'] = self.select
        for n in ('time.time', 'time.monotonic', 'time.perf_counter'):
            I.ext_over[n] = self.clock(n)
        src = 'server.clients.add(c1)\nserver.clients.add(c2)\n'
        if not listener:
            src += 'server.listener = None\n'
        self.st = b.run(src)[0][0]

    def clock(self, name):
        def run(I, st, args, kw, node, fr):
            k = sum(1 for e in st.events() if e.k == 'CLOCK')
            v = S('time %d' % (k + 1))
            I.event(st, fr, node, 'CLOCK', fn=name, args=(v,))
            return [(st, v, None)]
        return run

    def select(self, I, st, args, kw, node, fr):
        k = sum(1 for e in st.events() if e.k == 'SELECT')
        names = ('rlist', 'wlist', 'xlist', 'timeout')
        args = list(args) + [kw.get(n, NONE) for n in names[len(args):]]
        I.event(st, fr, node, 'SELECT', fn='select', args=tuple(args))
        if k >= len(self.script):
            return [(st, None, END)]
        x = self.script[k]
        st.n += 1
        if x == 'ready':
            lists = [I.new(st, HObj('list', parts=[('one', y) for y in ys]))
                     for ys in ([self.b.socks[0]], (), ())]
            return [(st, T(*lists), None)]
        if x == 'nothing':
            lists = [I.new(st, HObj('list', parts=[])) for i in range(3)]
            return [(st, T(*lists), None)]
        if x == 'ValueError':
            return [(st, None, ('exc', X('builtins.ValueError'), (
                C('bad'),), st.n))]
        num = getattr(errno, x)
        cls = 'InterruptedError' if x == 'EINTR' else 'OSError'
        return [(st, None, ('exc', X('builtins.' + cls), (
            C(num), C('error')), st.n))]

    def waited(self, st, v):
        o = st.get(v) if v[0] == 'r' else None
        if o is not None and o.kind == 'set' and o.base is None:
            return set(k for k, x in o.known.items() if x is not ABSENT)
        if o is not None and o.kind in ('list', 'tuple') and \
                o.parts is not None and all(p[0] == 'one' for p in o.parts):
            return set(p[1] for p in o.parts)
        if v[0] == 't':
            return set(v[1])
        return None


INTERRUPTS = ('EINTR', 'ValueError')


@rule('C27', 'a wait with or without a limit, interrupted up to three times, '
      'then ready, or broken: it is for every client and the listener, the '
      'limit of each resumed wait is what is left of the whole, and other '
      'errors are reported')
def bounded(cx):
    for n in range(4):
        for stops in itertools.product(INTERRUPTS, repeat=n):
            if n == 3 and len(set(stops)) > 1:
                continue
            for end in ('ready', 'nothing', 'EBADF', 'ENOMEM'):
                for limit in (True, False):
                    wait(cx, list(stops) + [end], limit)
    wait(cx, ['ready'], True, listener=False)


def wait(cx, script, limit, listener=True):
    w = Clock(cx, script, listener)
    I, b = w.I, w.b
    loc = func_site(I, BACKENDS['select'] + '.select_sockets')
    what = '%s wait, %s' % ('limited' if limit else 'unlimited',
                            ', '.join(script))
    end = script[-1]
    src = 'r = server.select_sockets(%s)' % ('limit' if limit else '')
    env = {'limit': S('limit')}
    st = w.st.fork()
    I.assume(st, I.mkcmp('is', S('limit'), NONE), False)
    mark = nev(st)
    for s, v, exc in b.run(src, st, env=env):
        evs = s.events()[mark:]
        sel = [e for e in evs if e.k == 'SELECT']
        full = len(sel) >= len(script)
        for i, e in enumerate(sel):
            got = w.waited(s, e.args[0])
            want = set(b.socks[:2]) | ({b.listener} if listener else set())
            cx.ob('%s: sockets' % what, (
                False if e.args[0] == NONE else None) if got is None else
                got == want,
                  'waits for %s' % (sorted(map(show, got)) if got is not
                                    None else ''), loc)
        judge_limits(cx, s, what, evs, sel, limit, loc)
        if exc is not None:
            if end in ('EBADF', 'ENOMEM') and full:
                cx.ob(what + ': reported', exc_kind(s, I, exc) == 'os error'
                      or None, 'raises %s' % exc_show(exc), loc)
                continue
            cx.ob(what + ': ends', None if exc[0] == 'uexc' else False,
                  'waits again' if exc == END else
                  'raises %s' % exc_show(exc), loc)
            continue
        if not full:
            # given up: only when the limit has passed.
            cx.ob(what + ': given up', limited_out(s, sel, evs) if limit
                  else False, 'gives up before its limit', loc)
            if v['r'] == NONE:
                for s2, v2, exc in b.run('server.dispatch_sockets(limit)',
                                         st, env=env):
                    if exc is not None and exc != END:
                        cx.ob(what + ': given up', None if exc[0] == 'uexc'
                              else False, 'raises %s' % exc_show(exc), loc)
            continue
        if end in ('EBADF', 'ENOMEM'):
            cx.ob(what + ': reported', False, 'the error is hidden', loc)
            continue
        r = v['r']
        o = s.get(r)
        got = w.waited(s, r)
        cx.ob(what + ': result', None if got is None else got == (
            {b.socks[0]} if end == 'ready' else set()),
            'returns %s' % show(r)[:60], loc)


@rule('C27', 'waits of known length which are interrupted at, before and after '
      'their limit: they return when it has passed')
def passed(cx):
    for limit, script in ((10.0, [12.0]), (10.0, [10.0]), (10.0, [4.0, 9.0]),
                          (10.0, [4.0, 6.0]), (1.0, [0.25] * 6),
                          (1.0, [0.0, 0.0, 3.0]), (0.0, [0.5]), (2.5, []),
                          (10.0, [3.0, 3.0])):
        for how in INTERRUPTS:
            w = Clock(cx, [])
            I, b = w.I, w.b
            I.unroll_symbolic = False
            loc = func_site(I, BACKENDS['select'] + '.select_sockets')
            what = 'a wait of %s s, %s after %s' % (limit, how, ', '.join(
                '%s s' % x for x in script) or 'never')

            def now(I, st, args, kw, node, fr):
                return [(st, C(1000.0 + sum(
                    e.x for e in st.events() if e.k == 'SELECT')), None)]
            for n in ('time.time', 'time.monotonic', 'time.perf_counter'):
                I.ext_over[n] = now

            def select(I, st, args, kw, node, fr, script=script, how=how):
                k = sum(1 for e in st.events() if e.k == 'SELECT')
                to = args[3] if len(args) > 3 else kw.get('timeout', NONE)
                if to == NONE or not is_c(to):
                    raise Undecided('waits for %s' % show(to))
                if k > 30:
                    return [(st, None, END)]
                st.n += 1
                bad = [(st, None, ('exc', X('builtins.ValueError'),
                                   (C('bad'),), st.n))]
                if to[2] < 0:
                    I.event(st, fr, node, 'SELECT', fn='select',
                            args=tuple(args), x=0.0)
                    return bad
                over = k >= len(script)
                I.event(st, fr, node, 'SELECT', fn='select',
                        args=tuple(args), x=to[2] if over or not to[2]
                        else script[k])
                if over:
                    return [(st, T(*[I.new(st, HObj('list', parts=[]))
                                     for i in range(3)]), None)]
                return bad if how != 'EINTR' else [
                    (st, None, ('exc', X('builtins.InterruptedError'), (
                        C(errno.EINTR), C('error')), st.n))]
            I.ext_over['select.select'] = select
            for s, v, exc in b.run('r = server.select_sockets(%r)' % limit,
                                   w.st):
                if exc is not None:
                    cx.ob(what, None if exc[0] == 'uexc' else False,
                          'never ends' if exc == END else 'raises %s' %
                          exc_show(exc), loc)
                    continue
                spent = sum(e.x for e in s.events() if e.k == 'SELECT')
                want = limit
                t = 0.0
                for x in script:
                    if t < limit:
                        t += x
                want = max(t, limit)
                cx.ob(what, abs(spent - want) < 1e-6, 'takes %s s' % spent,
                      loc)


@rule('C26', 'a trigger with a signal of its own and, before and after it, '
      'ones without: each registers the handler for its own signal')
def several(cx):
    for first in (True, False):
        I = remote(cx)
        cls = cx.cls(I, 'remote.background.BackgroundProfiler')
        loc = func_site(I, 'remote.background.BackgroundProfiler.__init__')
        st = I.start_state()
        I.assume(st, I.mkcmp('is', S('signal number'), NONE), False)
        I.assume(st, ('truth', S('signal number'), 0), True)
        src = 'plain = B(p)\nown = B(p, signum)\n' if first else \
            'own = B(p, signum)\nplain = B(p)\n'
        I.policy = lambda ev, st, fr: []
        what = 'a plain one %s one with its own signal' % (
            'before' if first else 'after')
        for s, v, exc in snippet(cx, I, st, 'fresh = B.signum\n' + src +
                                 'own.prepare()\nplain.prepare()\n',
                                 {'B': cls, 'p': S('profiler'),
                                  'signum': S('signal number')}):
            if exc is not None:
                cx.ob(what, None if exc[0] in ('uexc', 'genexit') or exc[1]
                      in (X('builtins.TypeError'), X(
                          'builtins.AttributeError')) else False,
                      'raises %s' % exc_show(exc), loc)
                continue
            regs = [e.args[0] for e in s.events() if e.k == 'call' and
                    e.fn == 'signal.signal' and e.args]
            if len(regs) != 2:
                cx.ob(what, None, '%d registrations' % len(regs), loc)
                continue
            cx.ob(what + ': its own', regs[0] == S('signal number'),
                  'is registered for %s' % show(regs[0]), loc)
            cx.ob(what + ': the default', regs[1] == v['fresh'] or (
                False if regs[1] == regs[0] else None),
                'is registered for %s' % show(regs[1]), loc)


def given(s, v):
    """A bound of the form max(0, x) or min(x, y) counts as its x."""
    return v


def judge_limits(cx, s, what, evs, sel, limit, loc):
    for i, e in enumerate(sel):
        to = e.args[3]
        if not limit:
            cx.ob('%s: limit of wait %d' % (what, i + 1), to == NONE or
                  (False if is_c(to) else None), 'waits for %s' % show(to),
                  loc)
            continue
        if to == NONE:
            cx.ob('%s: limit of wait %d' % (what, i + 1), False,
                  'waits without a limit', loc)
            continue
        for v in plain(to):
            form = lin(v) - lin(S('limit'))
            at = evs.index(e)
            before = [x.args[0] for x in evs[:at] if x.k == 'CLOCK']
            first = [x.args[0] for x in evs if x.k == 'CLOCK' and (
                not sel or evs.index(x) < evs.index(sel[0]))]
            # time passes only while it waits: the readings between two
            # waits are all the same instant, those before the first one
            # the beginning.
            moments, k = {}, 0
            for x in evs:
                if x.k == 'SELECT':
                    k += 1
                elif x.k == 'CLOCK':
                    moments[x.args[0]] = k
            atoms = dict((a, c) for a, c in form.t.items())
            if any(a not in moments for a in atoms) or form.k:
                ok = False if is_c(v) and i else None
                if i == 0 and v == S('limit'):
                    ok = True
                cx.ob('%s: limit of wait %d' % (what, i + 1), ok,
                      'waits for %s' % show(v), loc)
                continue
            coef = {}
            for a, c in atoms.items():
                coef[moments[a]] = coef.get(moments[a], 0) + c
            coef = dict((m, c) for m, c in coef.items() if c)
            # limit - (now - beginning)
            want = {} if i == 0 else {0: 1, i: -1}
            cx.ob('%s: limit of wait %d' % (what, i + 1), coef == want,
                  'waits for %s' % show(v), loc)


def plain(v):
    if v[0] == 'call' and v[1] in ('builtins.max', 'builtins.min'):
        a = [x for x in v[3] if not is_c(x)]
        if len(a) == 1:
            return [a[0]]
    return [v]


def limited_out(s, sel, evs):
    """On the path it is known that the limit has passed."""
    from ..lin import facts_lin
    # any comparison which bounds the limit by readings of the clock.
    for d, op in facts_lin(s):
        c = d.t.get(S('limit'))
        if c is not None and c > 0 and op in ('<', '<='):
            return True
    return None
