"""What a profiling server is made of and what it logs: C23, C52."""
from ..core import *  # noqa
from ..core import Undecided
from .helpers import func_site
from .net import BACKENDS, Backend, end_ok, exc_show, nev

#: How a server of each back end is made.
MADE = {
    'select': (('Server(listener, profiler, interval, log, proto)', ''),
               ('Server(listener, profiler, interval=interval, log=log, '
                'pickle_protocol=proto)', ''),
               ('Server(listener, profiler=profiler, pickle_protocol=proto, '
                'log=log, interval=interval)', ''),
               ('Server(listener, profiler)', 'interval log proto'),
               ('Server(listener, profiler, log=log)', 'interval proto')),
    'asyncio': (('Server(profiler, interval, log, proto)', ''),
                ('Server(profiler, interval=interval, log=log, '
                 'pickle_protocol=proto)', ''),
                ('Server(profiler=profiler, pickle_protocol=proto, log=log, '
                 'interval=interval)', ''),
                ('Server(profiler)', 'interval log proto'),
                ('Server(profiler, interval)', 'log proto')),
    'gevent': (('Server(listener, profiler, interval, log, proto)', ''),
               ('Server(listener, profiler, interval=interval, log=log, '
                'pickle_protocol=proto)', ''),
               ('Server(listener, profiler=profiler, pickle_protocol=proto, '
                'log=log, interval=interval)', ''),
               ('Server(listener, profiler)', 'interval log proto'),
               ('Server(listener, profiler, interval, log)', 'proto'))}

FIELDS = (('profiler', 'profiler'), ('interval', 'interval'), ('log', 'log'),
          ('pickle_protocol', 'proto'))


@rule('C23', 'a server of each back end, made with its arguments by place, by '
      'name or left out: it has the profiler, interval, log and protocol it '
      'was given, or the defaults, and the listener is served')
def made(cx):
    for name in sorted(BACKENDS):
        b = Backend(cx, name)
        I = b.I
        loc = func_site(I, BACKENDS[name] + '.__init__') or func_site(
            I, 'remote.ProfilingServer.__init__')
        mod = I.modrefs['profiling.remote']
        default = {}
        for n, param in (('interval', 'INTERVAL'), ('proto',
                                                    'PICKLE_PROTOCOL')):
            default[n] = I.world.get(mod).attrs.get(param)
        for src, left in MADE[name]:
            what = '%s: %s' % (name, src)
            mark = nev(b.st)
            for s, v, exc in b.run('x = %s\n' % src + ''.join(
                    'f%d = x.%s\n' % (i, f) for i, (f, n) in
                    enumerate(FIELDS))):
                if exc is not None:
                    cx.ob(what, None if exc[0] == 'uexc' else False,
                          'raises %s' % exc_show(exc), loc)
                    continue
                for i, (f, n) in enumerate(FIELDS):
                    got = v['f%d' % i]
                    want = default.get(n) if n in left.split() else \
                        b.env[n]
                    if want is None:
                        continue
                    cx.ob('%s: %s' % (what, f), got == want or (
                        False if is_c(got) or got in b.env.values() or
                        got in default.values() else
                        None), 'is %s and not %s' % (
                            show(got), show(want)), loc)
                if name == 'gevent':
                    es = [e for e in s.events()[mark:] if e.k == 'call' and
                          str(e.fn).endswith('StreamServer.__init__')]
                    got = list(es[0].args) + [x for k, x in es[0].kw] \
                        if len(es) == 1 else []
                    cx.ob(what + ': listener', b.listener in got if es else
                          None, 'the stream server is not told of it', loc)
    # what else the stream server can be told.
    b = Backend(cx, 'gevent')
    mark = nev(b.st)
    what = 'gevent: spawn=pool'
    loc = func_site(b.I, BACKENDS['gevent'] + '.__init__')
    for s, v, exc in b.run('x = Server(listener, profiler, spawn=pool)',
                           env={'pool': S('pool')}):
        if exc is not None:
            cx.ob(what, None if exc[0] == 'uexc' else False,
                  'raises %s' % exc_show(exc), loc)
            continue
        es = [e for e in s.events()[mark:] if e.k == 'call' and
              str(e.fn).endswith('StreamServer.__init__')]
        cx.ob(what, any(('spawn', S('pool')) in tuple(e.kw) for e in es)
              if es else None, 'the stream server is not told', loc)


# -- C52

class Amount(int):
    pass


def text_of(v):
    """A text made of constants and formatting; raises what it raises."""
    if is_c(v):
        return v[2]
    if v == S('interval'):
        return 7
    if v[0] == 't':
        return tuple(text_of(x) for x in v[1])
    if v[0] == 'op' and v[1] == '+' and len(v) == 4:
        return text_of(v[2]) + text_of(v[3])
    if v[0] == 'op' and v[1] == '%' and len(v) == 4:
        return text_of(v[2]) % text_of(v[3])
    if v[0] == 'call' and v[1] == '.format':
        return text_of(v[2]).format(*[text_of(x) for x in v[3]], **dict(
            (k, text_of(x)) for k, x in v[4]))
    if v[0] == 'call' and v[1] == '.join' and len(v[3]) == 1:
        return text_of(v[2]).join(text_of(v[3][0]))
    if v[0] == 'call' and v[1] in ('builtins.str', 'builtins.repr') and \
            len(v[3]) == 1:
        return {'builtins.str': str, 'builtins.repr': repr}[v[1]](
            text_of(v[3][0]))
    if v[0] == 'call' and v[1] == 'builtins.format':
        return format(*[text_of(x) for x in v[3]])
    raise Undecided('text %s' % show(v)[:80])


#: Addresses a client can have: of the internet, of both versions, or of
#: a socket file, named or not.
ADDRS = (('internet', T(C('peer.example'), C(47110)), ('peer.example',
                                                        '47110')),
         ('internet 6', T(C('2001:db8::9'), C(47110), C(0), C(3)),
          ('2001:db8::9', '47110')),
         ('unnamed', C(''), ()), ('bytes', C(b''), ()),
         ('named by a letter', C('x'), ()), ('named', C('/run/app.sock'), ()),
         ('not known', NONE, ()))

#: Histories: who comes (+) and who is lost (-).
HISTORIES = ('+1-1', '+1+2-1-2', '+1+2+3-2-3-1', '+1-1+2-2', '+1+2-2+3-1-3',
             '+1-1-1', '+1+2-1-1-2', '+1-1+1-1')


def logged(s, mark):
    return [e for e in s.events()[mark:] if e.k == 'call' and
            e.recv == S('log') and e.fn in ('()', '<call>')]


def lines(cx, what, evs, loc):
    out = []
    for e in evs:
        if len(e.args) != 1:
            cx.ob(what, False if not e.kw else None,
                  'the log gets %d arguments' % len(e.args), loc)
            return None
        try:
            t = text_of(e.args[0])
        except Undecided as exc:
            cx.ob(what, None, str(exc), loc)
            return None
        except Exception as exc:
            cx.ob(what, False, 'making the line raises %s: %s' % (
                type(exc).__name__, exc), loc)
            return None
        if not isinstance(t, str):
            cx.ob(what, False, 'the log gets %r' % (t,), loc)
            return None
        out.append(t)
    return out


@rule('C52', 'clients of every kind of address coming and going at each back '
      'end: one line for each that comes and each that goes, with its '
      'address, if it has one, and how many there are then')
def comings(cx):
    for name in sorted(BACKENDS):
        b = Backend(cx, name)
        I = b.I
        locs = {'+': func_site(I, 'remote.ProfilingServer._log_connected') or
                func_site(I, 'remote.ProfilingServer.connected'),
                '-': func_site(I, 'remote.ProfilingServer._log_disconnected')
                or func_site(I, 'remote.ProfilingServer.disconnected')}
        base = b.run('def nothing(*a): pass\n'
                     'server._start_profiling = nothing\n'
                     'server._start_watching = nothing\n')
        if len(base) != 1 or base[0][2] is not None:
            raise Undecided('the %s server' % name)
        distinct(I, base[0][0], *[b.client(i) for i in range(3)])
        for x in ('reader', 'writer'):
            distinct(I, base[0][0], *[S('%s %d' % (x, i))
                                      for i in (1, 2, 3)])
        for kind, addr, parts in ADDRS:
            I.rets['.getpeername'] = lambda I, st, ev, a=addr: a
            I.rets['.get_extra_info'] = lambda I, st, ev, a=addr: \
                a if ev.args[:1] == (C('peername'),) else S('other info')
            if addr == NONE and name != 'asyncio':
                I.rets['.getpeername'] = None
                del I.rets['.getpeername']
                b.failing = ()
                I.policy = nameless
            for h in HISTORIES if kind in ('internet', 'unnamed') else \
                    HISTORIES[:3]:
                states = [base[0][0]]
                here = []
                for i in range(0, len(h), 2):
                    op, k = h[i], h[i + 1]
                    what = '%s, %s address: %s' % (name, kind, h[:i + 2])
                    was = k in here
                    if op == '+':
                        here.append(k)
                    elif was:
                        here.remove(k)
                    nxt = []
                    for st in states:
                        mark = nev(st)
                        if I.policy is not nameless:
                            I.policy = lambda ev, st, fr, m=mark: \
                                gone(ev, st, m) or b.policy(ev, st, fr)
                        for s, v, exc in b.run('server.%sconnected(c%s)' % (
                                '' if op == '+' else 'dis', k), st):
                            if impossible(s, mark, I.policy is nameless):
                                continue
                            if exc is not None:
                                cx.ob(what, None if exc[0] == 'uexc' else
                                      False, 'raises %s' % exc_show(exc),
                                      locs[op])
                                continue
                            nxt.append(s)
                            came(cx, what, op, was, len(here), parts,
                                 logged(s, mark), locs[op])
                    states = nxt
            I.policy = b.policy


NO_NAME = {'.getpeername': 107}


def nameless(ev, st, fr):
    if ev.fn in NO_NAME:
        return [('exc', X('builtins.OSError'), (C(NO_NAME[ev.fn]),
                                                C('error')), st.n)]
    return []


def closed(evs, sock):
    return any(e.k == 'call' and e.fn == '.close' and e.recv == sock
               for e in evs)


def gone(ev, st, mark=0):
    """A closed socket has no address."""
    if ev.fn == '.getpeername' and closed(st.events()[mark:], ev.recv):
        return [('exc', X('builtins.OSError'), (C(9), C('error')), st.n)]


def impossible(s, mark, unnamed):
    """Whether a socket without an address was asked for it and told it."""
    evs = s.events()
    return any(e.fn == '.getpeername' and e.exc is None and (
        unnamed or closed(evs[mark:mark + i], e.recv))
        for i, e in enumerate(evs[mark:]))


def came(cx, what, op, was, n, parts, evs, loc):
    texts = lines(cx, what, evs, loc)
    if texts is None:
        return
    want = 0 if op == '-' and not was else 1
    cx.ob(what + ': lines', len(texts) == want, '%d lines are logged, not %d'
          % (len(texts), want), loc)
    for t in texts[:1]:
        if want == 0:
            continue
        rest = t
        for p in parts:
            at = rest.find(p)
            cx.ob(what + ': address', at >= 0, '%r does not tell %s' % (
                t, p), loc)
            if at < 0:
                return
            rest = rest[at + len(p):]
        cx.ob(what + ': total', str(n) in rest, '%r does not tell that '
              'there are %d' % (t, n), loc)
        low = t.lower()
        cx.ob(what + ': event', ('disconnect' in low) == (op == '-') or None,
              'is %r' % t, loc)


@rule('C52', 'the profiling loop of the select server: a line when it begins, '
      'which tells the interval, and another one when it has ended, between '
      'those of the clients which are there from first to last')
def begins_and_ends(cx):
    b = Backend(cx, 'select')
    I = b.I
    loc = func_site(I, 'remote.ProfilingServer.profiling')
    addr = T(C('peer.example'), C(47110))
    I.rets['.getpeername'] = lambda I, st, ev: addr
    I.rets['.recv'] = lambda I, st, ev: C(b'')
    for rounds in (1, 2, 3):
        b.ready = [[]] * (rounds - 1) + [[b.socks[0]]]
        what = 'select: a client for %d intervals' % rounds
        mark = nev(b.st)
        for s, v, exc in b.run('server.connected(c1)'):
            if not end_ok(exc):
                cx.ob(what, None if exc[0] == 'uexc' else False,
                      'raises %s' % exc_show(exc), loc)
                continue
            texts = lines(cx, what, logged(s, mark), loc)
            if texts is None:
                continue
            kinds = []
            for t in texts:
                low = t.lower()
                kinds.append('lost' if 'disconnect' in low else
                             'come' if 'connect' in low else
                             'end' if 'stop' in low else
                             'begin' if '7' in low else
                             # another number in the place of the interval.
                             'wrong' if any(x.isdigit() for x in low)
                             else '?')
            cx.ob(what, kinds == ['come', 'begin', 'lost', 'end'] or (
                None if '?' in kinds and len(kinds) == 4 else False),
                'it logs %s' % '; '.join(texts), loc)
            cx.ob(what + ': different', len(set(texts)) == len(texts),
                  'it logs %s' % '; '.join(texts), loc)
