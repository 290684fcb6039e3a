"""Remote profiling: C17 - C27."""
import asyncio as asyncio_
import errno as errno_
import itertools
import socket as socket_
import struct

from ..core import *  # noqa
from ..core import Undecided
from ..engine import HObj
from ..lin import Lin, facts_lin, lin, nonneg, nonpos
from ..value import Unknown, value
from .helpers import func_site

OSERR = X('builtins.OSError')

#: How an operation on the socket of a client may fail.
FAULTS = ((X('builtins.BrokenPipeError'), errno_.EPIPE),
          (X('builtins.ConnectionResetError'), errno_.ECONNRESET),
          (X('builtins.BlockingIOError'), errno_.EAGAIN),
          (X('builtins.TimeoutError'), errno_.ETIMEDOUT),
          (X('builtins.InterruptedError'), errno_.EINTR),
          (OSERR, errno_.ENOTCONN), (OSERR, errno_.EBADF))
#: How `accept` fails because of the client, as accept(2) has it.
GONE = ((X('builtins.ConnectionAbortedError'), errno_.ECONNABORTED),
        (X('builtins.BlockingIOError'), errno_.EAGAIN),
        (OSERR, errno_.EPROTO), (OSERR, errno_.EHOSTUNREACH),
        (OSERR, errno_.ENETDOWN))
#: the end of a history: nothing catches it.
END = ('genexit', 'end of history')


# -- the bytes of a message

def fields_of(fmt):
    """[(byte order, code, offset)] of a struct format, its size."""
    order = '@'
    if fmt[:1] in '@=<>!':
        order, fmt = fmt[0], fmt[1:]
    out = []
    done = ''
    for c in fmt:
        if c.isspace():
            continue
        if c.isdigit() or c in 'xsp':
            raise Undecided('struct format %s' % fmt)
        done += c
        size = struct.calcsize(order + done)
        out.append(({'!': '>'}.get(order, order), c,
                    size - struct.calcsize(order + c)))
    # single bytes have no order.
    out = [('', c, at) if c in 'Bbc' else (o, c, at) for o, c, at in out]
    return out, struct.calcsize(order + done) if done else 0


def packed(v):
    """(format, values) of a call of pack."""
    if v[0] != 'call':
        return None
    if v[1] == 'struct.pack':
        return v[3][0], v[3][1:]
    if v[1] == '.pack' and v[2] is not None and v[2][0] == 'call' and \
            v[2][1] == 'struct.Struct':
        return v[2][3][0], v[3]
    return None


def segments(s, v):
    """What a bytes value is made of."""
    if is_c(v):
        if v[2] in (b'', ''):
            return []
        return [('const', v[2])]
    if v[0] == 'op' and v[1] == '+' and len(v) == 4:
        return segments(s, v[2]) + segments(s, v[3])
    p = packed(v)
    if p is not None:
        if not is_c(p[0]) or not isinstance(p[0][2], (str, bytes)):
            raise Undecided('a struct format that is not constant')
        fmt = p[0][2]
        fmt = fmt.decode() if isinstance(fmt, bytes) else fmt
        fs, __ = fields_of(fmt)
        if len(fs) != len(p[1]):
            raise Undecided('%s packs %d values' % (fmt, len(p[1])))
        return [('field', o, c, x) for (o, c, at), x in zip(fs, p[1])]
    if v[0] == 'call' and v[1] in ('pickle.dumps', 'cPickle.dumps'):
        a = list(v[3]) + [None, None]
        kw = dict(v[4])
        return [('pickle', a[0] or kw.get('obj'),
                 a[1] or kw.get('protocol'))]
    if v[0] == 'call' and v[1] in ('.getvalue', '.read', '.getbuffer'):
        return written(s, v[2], v)
    if v[0] == 'call' and v[1] in ('builtins.bytes', 'builtins.bytearray',
                                   'builtins.memoryview') and \
            len(v[3]) == 1:
        return segments(s, v[3][0])
    if v[0] == 'call' and v[1] == '.join' and v[2] is not None and \
            is_c(v[2]):
        items = None
        a = v[3][0]
        o = s.get(a)
        if a[0] == 't':
            items = a[1]
        elif o is not None and o.parts is not None and all(
                p[0] == 'one' for p in o.parts):
            items = [p[1] for p in o.parts]
        if items is not None:
            out = []
            for i, x in enumerate(items):
                if i:
                    out.extend(segments(s, v[2]))
                out.extend(segments(s, x))
            return out
    if v[0] in ('s', 'elem', 'phi'):
        return [('data', v)]
    raise Undecided('bytes made by %s' % show(v)[:80])


def written(s, buf, upto):
    """What was written to a buffer before the call upto."""
    out = []
    if buf is None or buf[0] != 'call' or buf[1] not in (
            'io.BytesIO', 'six.BytesIO', 'six.moves.cStringIO'):
        raise Undecided('bytes made by %s' % show(upto)[:80])
    if buf[3]:
        raise Undecided('a buffer with a content')
    for e in s.events():
        if e.k != 'call':
            continue
        if e.res == upto:
            return out
        if e.fn in ('pickle.dump', 'cPickle.dump') and len(e.args) > 1 and \
                e.args[1] == buf:
            kw = dict(e.kw)
            out.append(('pickle', e.args[0], e.args[2] if len(e.args) > 2
                        else kw.get('protocol')))
        elif e.fn == '.dump' and e.recv is not None and \
                e.recv[0] == 'call' and e.recv[1] == 'pickle.Pickler' and \
                e.recv[3][0] == buf:
            a = e.recv[3]
            kw = dict(e.recv[4])
            out.append(('pickle', e.args[0], a[1] if len(a) > 1 else
                        kw.get('protocol')))
        elif e.recv == buf and e.fn in ('.write', '.writelines'):
            out.extend(segments(s, e.args[0]))
        elif e.recv == buf and e.fn in ('.seek', '.truncate'):
            raise Undecided('a buffer that is moved in')
    raise Undecided('bytes made by %s' % show(upto)[:80])


def length_of(s, v):
    """The segments whose length a value is."""
    if v[0] == 'call' and v[1] == 'builtins.len' and len(v[3]) == 1:
        return segments(s, v[3][0])
    if v[0] == 'call' and v[1] == '.tell':
        return written(s, v[2], v)
    if v[0] == 'a' and v[2] == 'nbytes':
        return segments(s, v[1])
    return None


def other_length(s, v, rest):
    """Whether a term is the length of the payload, whatever that is."""
    todo, found = [v], None
    while todo:
        x = todo.pop()
        if not isinstance(x, tuple):
            continue
        try:
            if x[:1] in (('call',), ('a',)) and length_of(s, x) == rest:
                found = x
                break
        except (Undecided, IndexError, TypeError):
            pass
        todo.extend(x)
    if found is None:
        return None
    try:
        for n in (5, 255, 256, 65535, 65536, 100003, 2 ** 24 + 7,
                  2 ** 31 + 9):
            if value(v, {found: n}) != n:
                return False
    except Unknown:
        pass
    return None


def decode(s, data):
    """(layout, method, message, pickle protocol, length is right) of the
    data of one message."""
    segs = segments(s, data)
    layout, at, values = [], 0, []
    rest = None
    for i, g in enumerate(segs):
        if g[0] != 'field':
            rest = segs[i:]
            break
        size = struct.calcsize((g[1] or '=') + g[2])
        layout.append((g[1], g[2], at))
        values.append(g[3])
        at += size
    return layout, values, rest


def remote(cx):
    I = interp()
    I.concrete_ok = True
    I.policy = lambda ev, st, fr: []
    return I


def msg_loc(I):
    return func_site(I, 'remote.pack_msg')


def methods_of(I):
    mod = I.world.get(I.modrefs['profiling.remote']).attrs
    out = {}
    for name in ('WELCOME', 'PROFILER', 'RESULT'):
        v = mod.get(name)
        if v is None or not is_c(v):
            raise Anchor('profiling.remote.' + name)
        out[name] = v
    return out


@rule('C17', 'writer: a message is its method number, the length of exactly '
      'the payload, and the pickled payload; reader: the same fields at the '
      'same places with the same encodings, then as many bytes as the length')
def message_format(cx):
    I = remote(cx)
    st = I.start_state()
    pack = cx.func(I, 'remote.pack_msg')
    loc = msg_loc(I)
    layouts = []
    for s, v, exc in cx.call(I, st, pack, [S('method'), S('message')],
                             {'pickle_protocol': S('protocol')}):
        if exc is not None:
            cx.ob('pack_msg', None if exc[0] == 'uexc' else False,
                  'raises %s' % show(exc[1]), loc)
            continue
        try:
            layout, values, rest = decode(s, v)
        except Undecided as e:
            cx.ob('pack_msg', None, str(e), loc)
            continue
        layouts.append(tuple(layout))
        cx.ob('pack_msg: two fields', len(layout) == 2 or None,
              'the header has %d fields' % len(layout), loc)
        cx.ob('pack_msg: payload', rest == [('pickle', S('message'),
                                             S('protocol'))],
              'the payload is %s' % (rest,), loc)
        if len(values) != 2:
            continue
        cx.ob('pack_msg: method', values[0] == S('method'),
              'the first field is %s' % show(values[0]), loc)
        size = length_of(s, values[1])
        ok = size == rest
        if size is None and not is_c(values[1]):
            ok = other_length(s, values[1], rest)
        cx.ob('pack_msg: length', ok, 'the length field is %s' % show(
            values[1])[:120], loc)
        bits = {'B': 8, 'H': 16, 'I': 32, 'L': 32, 'Q': 64}
        cx.ob('pack_msg: unsigned', all(f[1] in bits for f in layout),
              'a field of the header is signed', loc)
        cx.ob('pack_msg: byte order', all(f[0] in ('', '<', '>')
                                          for f in layout),
              'the header has the byte order of the machine', loc)
        cx.ob('pack_msg: large results', bits.get(layout[1][1], 0) >= 32,
              'the length has only %d bits' % bits.get(layout[1][1], 0), loc)
    reader(cx, layouts)


def reader(cx, layouts):
    I = remote(cx)
    I.opaque = set(I.opaque) | {'remote.recv'}
    st = I.start_state()
    f = cx.func(I, 'remote.recv_msg')
    rloc = func_site(I, 'remote.recv_msg')
    sock = S('sock')
    for s, v, exc in cx.call(I, st, f, [sock]):
        if exc is not None:
            cx.ob('recv_msg', None if exc[0] == 'uexc' else False,
                  'raises %s' % show(exc[1]), rloc)
            continue
        reads = [e for e in s.events() if e.k == 'call' and
                 str(e.fn).endswith('remote.recv')]
        if not reads or v[0] != 't' or len(v[1]) != 2:
            cx.ob('recv_msg', False if v == NONE else None,
                  'returns %s' % show(v)[:100], rloc)
            continue
        at, places, payload = 0, {}, None
        bad = None
        for e in reads:
            ns = [x for x in list(e.args) + [x for k, x in e.kw]
                  if x != sock]
            n = ns[0] if len(ns) == 1 else None
            if n is None and payload is None:
                bad = ''
                break
            if n is None or payload is not None:
                bad = 'reads on after the payload'
                break
            if is_c(n):
                places[e.res] = at
                at += n[2]
            else:
                payload = (e.res, n, at)
        if bad or payload is None:
            cx.ob('recv_msg: reads', False if bad else None,
                  bad or 'no payload is read', rloc)
            continue
        got = []
        want = layouts[0] if layouts else ()
        for what, x in (('method', v[1][0]), ('length', payload[1])):
            r = read_field(x, places)
            got.append(r)
        for i, (what, r) in enumerate(zip(('method', 'length'), got)):
            cx.ob('recv_msg: ' + what, None if r is None else
                  len(want) > i and r == want[i],
                  'is read as %s but written as %s' % (
                      r, want[i] if len(want) > i else 'nothing'), rloc)
        size = sum(struct.calcsize((o or '=') + c) for o, c, a in want)
        cx.ob('recv_msg: payload place', payload[2] == size,
              'starts after %d bytes, not %d' % (payload[2], size), rloc)
        m = v[1][1]
        cx.ob('recv_msg: message', unpickled(m) == payload[0] if
              unpickled(m) is not None else None,
              'the message is %s' % show(m)[:120], rloc)


def read_field(x, places):
    """(order, code, offset) which a term reads."""
    if x[0] == 'i' and is_c(x[2]) and x[1][0] == 'call':
        c, k = x[1], x[2][2]
        fmt = data = None
        off = 0
        if c[1] == 'struct.unpack' and len(c[3]) == 2:
            fmt, data = c[3]
        elif c[1] == 'struct.unpack_from':
            fmt, data = c[3][:2]
            if len(c[3]) > 2:
                if not is_c(c[3][2]):
                    return None
                off = c[3][2][2]
        elif c[1] == '.unpack' and c[2] is not None and \
                c[2][0] == 'call' and c[2][1] == 'struct.Struct':
            fmt, data = c[2][3][0], c[3][0]
        if fmt is not None and is_c(fmt) and data in places:
            try:
                fs, __ = fields_of(fmt[2])
            except Undecided:
                return None
            if 0 <= k < len(fs):
                o, code, at = fs[k]
                return (o, code, places[data] + at + off)
    if x[0] == 'i' and x[1] in places and is_c(x[2]):
        return ('', 'B', places[x[1]] + x[2][2])
    if x[0] == 'call' and x[1] == 'builtins.ord' and x[3][0] in places:
        return ('', 'B', places[x[3][0]])
    return None


def unpickled(m):
    if m[0] == 'call' and m[1] in ('pickle.loads', 'cPickle.loads'):
        return m[3][0]
    if m[0] == 'call' and m[1] == 'pickle.load':
        b = m[3][0]
        if b[0] == 'call' and b[1] == 'io.BytesIO' and b[3]:
            return b[3][0]
    return None


# -- a server of which the transport is not known

SERVER = '''
class Server(ProfilingServer):
    def serve_forever(self):
        pass
    def _send(self, client, data):
        do_send(client, data)
    def _close(self, client):
        do_close(client)
    def _addr(self, client):
        return do_addr(client)
    def _start_profiling(self):
        do_start()
    def _start_watching(self, client):
        do_watch(client)
server = Server(profiler, interval, log, proto)
'''

OPS = ('send', 'close', 'addr', 'start', 'watch')


class ServerWorld(object):
    """A base server with an unknown transport; fail says which operations
    fail: fail(op, client, how many of that op and client before)."""

    def __init__(self, cx, clients=0, latest=None, fail=None, profiler=None,
                 during=None, addr=T(S('host'), S('port'))):
        self.cx = cx
        self.addr = addr
        self.I = I = remote(cx)
        self.fail = fail
        self.during = during
        self.base = cx.cls(I, 'remote.ProfilingServer')
        self.clients = [S('client %d' % (i + 1))
                        for i in range(max(3, clients))]
        self.env = {'ProfilingServer': self.base, 'profiler': profiler or
                    S('profiler'), 'interval': S('interval'),
                    'log': S('log'), 'proto': S('protocol')}
        for op in OPS:
            self.env['do_' + op] = X('transport.' + op)
            I.ext_over['transport.' + op] = self.model(op)
        st = I.start_state()
        distinct(I, st, *self.clients)
        for i, c in enumerate(self.clients):
            self.env['c%d' % (i + 1)] = c
        src = SERVER + ''.join('server.clients.add(c%d)\n' % (i + 1)
                               for i in range(clients))
        self.n = clients
        self.latest = latest
        outs = snippet(cx, I, st, src, self.env)
        good = [(s, v) for s, v, e in outs if e is None]
        if len(good) != 1:
            raise Anchor('ProfilingServer cannot be made')
        self.st, v = good[0]
        self.server = v['server']
        self.env['server'] = self.server
        self.env['Server'] = v['Server']
        # what has happened before is what counts.
        self.mark = self.st.nev

    def model(self, op):
        def run(I, st, args, kw, node, fr):
            client = args[0] if args else None
            before = sum(1 for e in st.events() if e.k == 'OP' and
                         e.fn == op and e.args[:1] == (client,))
            failing = self.fail is not None and self.fail(op, client, before)
            if failing:
                # in the same way as what failed before.
                old = [e.x[1] for e in st.events() if e.k == 'OP' and
                       e.x is not None]
                out = []
                for cls, num in FAULTS:
                    if old and old[-1] != num:
                        continue
                    s = st.fork()
                    I.event(s, fr, node, 'OP', fn=op, args=tuple(args),
                            x=('fails', num))
                    s.n += 1
                    out.append((s, None, ('exc', cls, (C(num), C('error')),
                                          s.n)))
                return out
            I.event(st, fr, node, 'OP', fn=op, args=tuple(args))
            if op == 'addr':
                return [(st, self.addr, None)]
            if self.during is not None:
                todo = self.during(op, client, before)
                if todo:
                    out = []
                    s0 = st
                    env = dict(self.env)
                    for s, v, exc in snippet(self.cx, I, s0, todo, env):
                        out.append((s, NONE, exc))
                    return out
            return [(st, NONE, None)]
        return run

    def run(self, src, st=None):
        self.I.steps = 0
        return snippet(self.cx, self.I, (st or self.st).fork(), src,
                       self.env)

    def ops(self, s, *names):
        return [e for e in s.events() if e.k == 'OP' and e.fn in names]

    def members(self, s):
        """The clients the server has, or None when not known."""
        for s2, v, exc in self.I.ga(s.fork(), self.server, 'clients', None,
                                    top()):
            o = s2.get(v) if v is not None else None
            if o is not None and o.kind == 'set' and o.base is None and \
                    not o.meta.get('loops'):
                return set(k for k, x in o.known.items() if x is not ABSENT)
        return None


def exc_kind(s, I, exc):
    """'os error', 'other', or None."""
    if exc is None:
        return None
    if exc[0] == 'exc' and I.is_subclass(s, exc[1], OSERR):
        return 'os error'
    return 'other'


def exc_show(exc):
    return show(exc[1]) if exc[0] == 'exc' else str(exc[-1])


def history(cx, w, s0, latest, others):
    """A state in which an interval was broadcast to a client that has gone
    since (latest), and then other clients came."""
    if latest:
        prof = s0.get(w.server).attrs['profiler']
        w.env['stub'] = S('profiler stub')
        w.env['real_'] = prof
        outs = w.run('server.profiler = stub\nserver.connected(c3)', s0)
        if len(outs) != 1 or outs[0][2] is not None:
            return None
        outs = interval_run(cx, w, outs[0][0], lambda k:
                            'server.disconnected(c3)')
        if len(outs) != 1 or outs[0][1] is not None:
            return None
        outs = w.run('server.profiler = real_', outs[0][0])
        s0 = outs[0][0]
    for i in range(others):
        outs = w.run('server.connected(c%d)' % (i + 2), s0)
        if len(outs) != 1 or outs[0][2] is not None:
            return None
        s0 = outs[0][0]
    return s0


@rule('C19', 'a client that connects: what is sent to it, in which order, '
      'with which contents, and whether profiling is started, for servers '
      'with none to two other clients, with and without a latest result')
def handshake(cx):
    for others in (0, 1, 2):
        for latest in (False, True):
            for wraps in (0, 1, 2):
                connect(cx, others, latest, wraps)


def connect(cx, others, latest, wraps):
    w = ServerWorld(cx, clients=0, addr=(T(S('host'), S('port')), C(''),
                                         NONE)[wraps])
    I = w.I
    loc = func_site(I, 'remote.ProfilingServer.connected')
    M = methods_of(I)
    src = '''
P = TracingProfiler
profiler = P()
for i in range(wraps):
    profiler = ProfilerWrapper(profiler)
server.profiler = profiler
'''
    env = {'TracingProfiler': cx.cls(I, 'tracing.TracingProfiler'),
           'ProfilerWrapper': cx.cls(I, 'profiler.ProfilerWrapper'),
           'wraps': C(wraps)}
    w.env.update(env)
    outs = [s for s, v, e in w.run(src) if e is None]
    if len(outs) != 1:
        raise Undecided('the profiler cannot be wrapped')
    s0 = outs[0]
    what = '%d others, %s result, %d wrappers' % (
        others, 'a' if latest else 'no', wraps)
    s0 = history(cx, w, s0, latest, others)
    if s0 is None:
        cx.ob(what, None, 'the history cannot be made', loc)
        return
    old = [e for e in s0.events()]
    for s, v, exc in w.run('server.connected(c1)', s0):
        ops = [e for e in s.events()[len(old):] if e.k == 'OP']
        if exc is not None:
            cx.ob(what, None if exc[0] == 'uexc' or exc[1] == X(
                'builtins.TypeError') else False,
                'raises %s' % exc_show(exc), loc)
            continue
        sends = [e for e in ops if e.fn == 'send']
        cx.ob(what + ': to it only', all(e.args[0] == w.clients[0]
                                         for e in sends),
              'something is sent to another client', loc)
        sends = [e for e in sends if e.args[0] == w.clients[0]]
        msgs = []
        for e in sends:
            try:
                layout, values, rest = decode(s, e.args[1])
                msgs.append((values[0] if values else None, rest))
            except Undecided as u:
                msgs.append((None, str(u)))
        got = [m[0] for m in msgs]
        want = [M['WELCOME'], M['PROFILER']] + ([M['RESULT']] if latest
                                                else [])
        names = dict((v, k) for k, v in M.items())
        cx.ob(what + ': messages', None if None in got else got == want,
              'sends %s instead of %s' % (
                  [names.get(g, show(g) if g else '?') for g in got],
                  [names[g] for g in want]), loc)
        for m, rest in msgs:
            if m == M['WELCOME']:
                ok = len(rest) == 1 and rest[0][0] == 'pickle'
                cx.ob(what + ': the oldest protocol for the welcome',
                      ok and rest[0][2] == C(0), 'is pickled by %s' % (
                          show(rest[0][2]) if ok and rest[0][2] else
                          'the default'), loc)
                body = rest[0][1] if ok else None
                ver = version(I)
                cx.ob(what + ': contents of the welcome',
                      None if body is None or body[0] != 't' else
                      body[1] == (S('protocol'), ver),
                      'contains %s' % (show(body) if body else ''), loc)
            elif m == M['PROFILER']:
                ok = len(rest) == 1 and rest[0][0] == 'pickle'
                cx.ob(what + ': the class of the real profiler',
                      rest[0][1] == env['TracingProfiler'] if ok else None,
                      'sends %s' % (show_class(I, s, rest[0][1])
                                    if ok else rest), loc)
                cx.ob(what + ': the protocol of the class',
                      rest[0][2] == S('protocol') if ok else None,
                      'pickles by another protocol than the welcome said',
                      loc)
            elif m == M['RESULT']:
                ok = len(rest) == 1 and rest[0][0] == 'pickle'
                cx.ob(what + ': the latest result', is_result(
                    rest[0][1], S('profiler stub')) if ok else None,
                    'sends %s' % show(rest[0][1])[:80] if ok else '', loc)
        starts = [i for i, e in enumerate(ops) if e.fn == 'start']
        cx.ob(what + ': profiling', len(starts) == (0 if others else 1),
              'profiling is started %d times' % len(starts), loc)
        if starts and not others:
            cx.ob(what + ': welcomed before profiling',
                  all(e.fn != 'send' for e in ops[starts[0]:]),
                  'profiling is started before everything was sent', loc)
        watches = [e for e in ops if e.fn == 'watch']
        cx.ob(what + ': watched', len(watches) == 1 and watches[0].args ==
              (w.clients[0],), 'is watched %d times' % len(watches), loc)
        mem = w.members(s)
        cx.ob(what + ': is a client', None if mem is None else
              w.clients[0] in mem, 'is not kept', loc)


@rule('C19', 'a client that connects to a server while another server has '
      'broadcast a result and has clients: it is sent nothing of theirs and '
      'profiling is started')
def servers_apart(cx):
    w = ServerWorld(cx, clients=0)
    I = w.I
    loc = func_site(I, 'remote.ProfilingServer.connected')
    M = methods_of(I)
    s0 = history(cx, w, w.st, True, 1)
    if s0 is None:
        cx.ob('two servers', None, 'the history cannot be made', loc)
        return
    mark = len(s0.events())
    w.env['stub'] = S('profiler stub')
    for s, v, exc in w.run('second = Server(stub, interval, log, proto)\n'
                           'second.connected(c1)', s0):
        if exc is not None:
            cx.ob('two servers', None, 'raises ' + exc_show(exc), loc)
            continue
        ops = [e for e in s.events()[mark:] if e.k == 'OP']
        got = []
        for e in ops:
            if e.fn == 'send':
                try:
                    layout, values, rest = decode(s, e.args[1])
                    got.append(values[0] if values else None)
                except Undecided:
                    got.append(None)
        cx.ob('two servers: messages', M['RESULT'] not in got and (
            None not in got or None), 'a result of another server is sent',
            loc)
        cx.ob('two servers: profiling', any(e.fn == 'start' for e in ops),
              'profiling is not started, as if the clients of another '
              'server were its own', loc)
        mem = w.members(s)
        cx.ob('two servers: whose client', None if mem is None else
              w.clients[0] not in mem, 'it is a client of the other server '
              'as well', loc)


@rule('C19', 'another client connects while the first one is being '
      'welcomed - the sending of any message may let it in - and the first '
      'one may then be lost: profiling is started once')
def welcomed_together(cx):
    for nth in (0, 1):
        for lost in (False, True):
            hit = S('client 1')

            def during(op, client, before, nth=nth):
                if op == 'send' and client == hit and before == nth:
                    return 'server.connected(c2)\n' + (
                        'raise OSError(32)\n' if lost else '')
                return None
            w = ServerWorld(cx, clients=0, during=during)
            loc = func_site(w.I, 'remote.ProfilingServer.connected')
            what = 'a second client connects while message %d is sent to ' \
                'the first one%s' % (nth + 1, ', which is lost' if lost
                                     else '')
            for s, v, exc in w.run('server.connected(c1)'):
                if exc is not None:
                    cx.ob(what, None if exc[0] == 'uexc' else False,
                          'raises %s' % exc_show(exc), loc)
                    continue
                n = len(w.ops(s, 'start'))
                cx.ob(what, n == 1, 'profiling is started %d times' % n, loc)


def version(I):
    m = I.modrefs.get('profiling.__about__')
    return I.world.get(m).attrs.get('__version__') if m else None


def show_class(I, s, v):
    try:
        return I.name_of(v) or show(v)
    except Exception:
        return show(v)


def is_result(v, prof):
    """Whether a term is the result of a profiler."""
    if v[0] == 'call' and v[1] == '.result' and v[2] == prof:
        return True
    return None if not (v[0] == 'call' and v[1] == '.result') else False


# -- C20

def interval_run(cx, w, st, hooks):
    """Runs profiling() to the end: hooks[i] is a scenario run while the
    server waits the i-th time; [(state, exc, yields)]."""
    I = w.I
    out = []
    for s, g, exc in cx.method(I, st.fork(), w.server, 'profiling'):
        if exc is not None:
            out.append((s, exc))
            continue

        def handler(s, v, e, fr):
            k = sum(1 for x in s.events() if x.k == 'YIELD')
            I.event(s, fr, e, 'YIELD', args=(v,))
            todo = hooks(k)
            if todo is None:
                # the history ends here.
                return [(s, 'raise', END)]
            if not todo:
                return [(s, 'n', NONE)]
            return [(s2, 'raise' if exc else 'n', exc or NONE)
                    for s2, v2, exc in snippet(cx, I, s, todo, w.env)]
        I.steps = 0
        res = I.run_gen(s, g, handler, None, top())
        for s2, k, v in res:
            out.append((s2, v if k == 'raise' else None))
    cx.npaths += len(out)
    cx.functions |= I.visited
    return out


def broadcast_loc(I):
    return func_site(I, 'remote.ProfilingServer.profiling')


@rule('C20', 'an interval is broadcast to three clients, every subset of '
      'which cannot be sent to: each of the others gets the whole result '
      'once, and each failing one is removed, closed and reported once')
def broadcast(cx):
    for r in range(4):
        for failing in itertools.combinations(range(3), r):
            for late in (False, True):
                if late and not failing:
                    continue
                bad = set()

                def fail(op, client, before):
                    return op == 'send' and client in bad
                w = ServerWorld(cx, clients=3, fail=fail)
                bad |= set(w.clients[i] for i in failing)
                what = '%s failing' % (', '.join(str(i + 1) for i in failing)
                                       or 'none')
                hooks = lambda k: '' if k == 0 else None
                if late:
                    # noticed by the watcher also, afterwards.
                    what += ', noticed twice'
                    hooks = lambda k: '' if k == 0 else (
                        ''.join('server.disconnected(c%d)\n' % (i + 1)
                                for i in failing) if k == 1 else None)
                judge_broadcast(cx, w, what, failing, hooks)


@rule('C20', 'seven clients, of which none, the last, all but one, or all '
      'cannot be sent to: as for three')
def many_clients(cx):
    n = 7
    for failing in [(), (n - 1,), tuple(range(n))] + [
            tuple(i for i in range(n) if i != k) for k in (0, 3, n - 1)]:
        bad = set()
        w = ServerWorld(cx, clients=n, fail=lambda op, client, before:
                        op == 'send' and client in bad)
        bad |= set(w.clients[i] for i in failing)
        judge_broadcast(cx, w, '%d of %d clients failing%s' % (
            len(failing), n, ' (not %s)' % ', '.join(
                str(i + 1) for i in range(n) if i not in failing)
            if len(failing) > 3 else ''), failing,
            lambda k: '' if k == 0 else None)


def logged(evs):
    """How many lines are logged."""
    return len([e for e in evs if e.k == 'call' and (
        e.recv == S('log') or e.fn in ('log', '.log', S('log')))])


def judge_broadcast(cx, w, what, failing, hooks):
    I = w.I
    loc = broadcast_loc(I)
    for s, exc in interval_run(cx, w, w.st, hooks):
        if exc is not None and exc != END:
            cx.ob(what, None if exc[0] == 'uexc' or exc[1] == X(
                'builtins.TypeError') else False,
                'raises %s' % exc_show(exc), loc)
            continue
        evs = s.events()
        yields = [i for i, e in enumerate(evs) if e.k == 'YIELD']
        end = yields[1] if len(yields) > 1 else len(evs)
        first = evs[yields[0]:end] if yields else []
        datas = set()
        logs = logged(evs[yields[0]:]) if yields else 0
        for i, c in enumerate(w.clients[:w.n]):
            mine = [e for e in first if e.k == 'OP' and e.fn == 'send' and
                    e.args[0] == c]
            cx.ob('%s: client %d is sent to' % (what, i + 1),
                  len(mine) == 1, 'is sent to %d times' % len(mine), loc)
            datas |= set(e.args[1] for e in mine)
            closes = [e for e in evs if e.k == 'OP' and e.fn == 'close' and
                      e.args[0] == c]
            reports = [e for e in evs if e.k == 'OP' and e.fn == 'addr' and
                       e.args[0] == c]
            n = 1 if i in failing else 0
            cx.ob('%s: client %d is closed' % (what, i + 1),
                  len(closes) == n, 'is closed %d times' % len(closes), loc)
            cx.ob('%s: client %d is reported' % (what, i + 1),
                  len(reports) == n if reports or not n or logs < len(
                      failing) else None,
                  'is reported %d times' % len(reports), loc)
        cx.ob(what + ': the same data', len(datas) == 1,
              'clients are sent different data', loc)
        mem = w.members(s)
        left = set(c for i, c in enumerate(w.clients[:w.n])
                   if i not in failing)
        cx.ob(what + ': who is left', None if mem is None else mem == left,
              'clients left: %s' % (sorted(map(show, mem)) if mem else
                                    'none'), loc)
        for d in datas:
            try:
                layout, values, rest = decode(s, d)
            except Undecided as u:
                cx.ob(what + ': whole', None, str(u), loc)
                continue
            M = methods_of(I)
            cx.ob(what + ': a result', values[:1] == [M['RESULT']],
                  'is sent as %s' % (show(values[0]) if values else
                                     'nothing'), loc)
            cx.ob(what + ': whole', rest is not None and len(rest) == 1 and
                  rest[0][0] == 'pickle' and is_result(
                      rest[0][1], S('profiler')), 'sends %s' % (rest,), loc)
            cx.ob(what + ': by the protocol of the server', rest[0][2] == S(
                'protocol') if rest and rest[0][0] == 'pickle' else None,
                'pickles by %s' % (show(rest[0][2]) if rest and
                                   rest[0][0] == 'pickle' and rest[0][2]
                                   else 'another protocol'), loc)


@rule('C20', 'while one client is sent to, another one - before or after it '
      'in the walk, or itself - is lost or a new one connects: the walk goes '
      'on and everyone else gets the result')
def walk_changes(cx):
    for at in range(3):
        for gone in range(3):
            def during(op, client, before, at=at, gone=gone):
                if op == 'send' and client == S('client %d' % (at + 1)) and \
                        not before:
                    return 'server.disconnected(c%d)\n' % (gone + 1)
                return None
            w = ServerWorld(cx, clients=3, during=during)
            judge_walk(cx, w, 'client %d lost while client %d is sent to' % (
                gone + 1, at + 1), [i for i in range(3) if i != gone], gone)
        if at < 2:
            def during(op, client, before, at=at):
                if op == 'send' and client == S('client %d' % (at + 1)) and \
                        not before:
                    return 'server.connected(c3)\n'
                return None
            w = ServerWorld(cx, clients=2, during=during)
            judge_walk(cx, w, 'client 3 comes while client %d is sent to' % (
                at + 1), [0, 1], None)


def judge_walk(cx, w, what, others, gone):
    loc = broadcast_loc(w.I)
    for s, exc in interval_run(cx, w, w.st,
                               lambda k: '' if k == 0 else None):
        if exc is not None and exc != END:
            cx.ob(what, None if exc[0] == 'uexc' or exc[1] == X(
                'builtins.TypeError') else False,
                'raises %s' % exc_show(exc), loc)
            continue
        for i in others:
            mine = [e for e in w.ops(s, 'send') if e.args[0] ==
                    w.clients[i] and is_broadcast(s, e, w)]
            cx.ob('%s: client %d is sent to' % (what, i + 1),
                  len(mine) == 1, 'is sent to %d times' % len(mine), loc)
        if gone is None:
            mine = [e for e in w.ops(s, 'send') if e.args[0] ==
                    w.clients[2] and is_broadcast(s, e, w)]
            cx.ob('%s: it is sent the result' % what, bool(mine),
                  'has to wait for the next interval', loc)
        if gone is not None:
            n = len([e for e in w.ops(s, 'close')
                     if e.args[0] == w.clients[gone]])
            cx.ob('%s: closed' % what, n == 1, 'is closed %d times' % n, loc)


def is_broadcast(s, e, w):
    try:
        layout, values, rest = decode(s, e.args[1])
    except Undecided:
        return True
    return values[:1] == [methods_of(w.I)['RESULT']]


@rule('C20', 'a client whose loss is noticed any number of times, or that '
      'never was one, is closed at most once and reported at most once')
def once_lost(cx):
    for n in (1, 2, 3):
        w = ServerWorld(cx, clients=2)
        loc = func_site(w.I, 'remote.ProfilingServer.disconnected')
        what = 'lost, noticed %d times' % n
        for s, v, exc in w.run('server.disconnected(c1)\n' * n):
            if exc is not None:
                cx.ob(what, None if exc[0] == 'uexc' else False,
                      'raises %s' % exc_show(exc), loc)
                continue
            for op in ('close', 'addr'):
                k = len([e for e in w.ops(s, op)
                         if e.args[0] == w.clients[0]])
                cx.ob('%s: %s' % (what, 'closed' if op == 'close' else
                                  'reported'), k == 1 or (
                                      None if op == 'addr' and not k and
                                      logged(s.events()) else False),
                      '%d times' % k, loc)
            mem = w.members(s)
            cx.ob(what + ': removed', None if mem is None else
                  mem == {w.clients[1]}, 'left: %s' % (mem,), loc)


# -- C21

@rule('C21', 'every operation of one client fails with a socket error, once '
      'or always: nothing propagates out of connected(), disconnected() or '
      'the broadcast, and the client is dropped')
def base_faults(cx):
    for nth in (0, 1, 2):
        for others in (0, 1):
            hit = S('client 1')

            def fail(op, client, before, nth=nth):
                return op == 'send' and client == hit and before == nth
            w = ServerWorld(cx, clients=0, fail=fail)
            loc = func_site(w.I, 'remote.ProfilingServer.connected')
            what = 'send %d to a new client fails, %d others' % (
                nth + 1, others)
            s0 = history(cx, w, w.st, True, others)
            if s0 is None:
                cx.ob(what, None, 'the history cannot be made', loc)
                continue
            for s, v, exc in w.run('server.connected(c1)', s0):
                hitn = any(e.x is not None for e in w.ops(s, 'send'))
                if exc is not None:
                    cx.ob(what, False if exc_kind(s, w.I, exc) ==
                          'os error' else None, 'raises %s' % exc_show(exc),
                          loc)
                    continue
                cx.ob(what, True, '', loc)
                if not hitn:
                    continue
                mem = w.members(s)
                cx.ob(what + ': dropped', None if mem is None else
                      hit not in mem, 'the client is kept', loc)
                n = len([e for e in w.ops(s, 'close') if e.args[0] == hit])
                cx.ob(what + ': closed', n == 1, 'is closed %d times' % n,
                      loc)
                if not others:
                    n = len(w.ops(s, 'start')) - len(w.ops(s0, 'start'))
                    cx.ob(what + ': no profiling', n == 0, 'profiling is '
                          'started although nobody is left', loc)


BACKENDS = {
    'select': 'remote.select.SelectProfilingServer',
    'gevent': 'remote.gevent.GeventProfilingServer',
    'asyncio': 'remote.asyncio.AsyncIOProfilingServer',
}
#: what can fail with a socket error, for a socket.
SOCKET_OPS = ('.getpeername', '.recv', '.sendall', '.send', '.setsockopt',
              '.getsockopt', '.shutdown')


PROF = '''
class Prof(object):
    def start(self):
        prof_start()
    def stop(self):
        prof_stop()
    def result(self):
        return prof_result()
profiler = Prof()
'''


class Backend(object):
    """A server of a back end with symbolic sockets."""

    def __init__(self, cx, name, failing=()):
        self.cx, self.name = cx, name
        self.I = I = remote(cx)
        self.cref = cx.cls(I, BACKENDS[name])
        self.base = cx.cls(I, 'remote.ProfilingServer')
        self.socks = [S('socket %d' % i) for i in (1, 2, 3)]
        self.listener = S('listener')
        self.failing = failing
        #: how accepting fails because of the client.
        self.gone = ()
        st = I.start_state()
        distinct(I, st, self.listener, *self.socks)
        for c in self.socks + [self.listener]:
            I.assume(st, I.mkcmp('is', c, NONE), False)
            I.assume(st, ('truth', c, 0), True)
        self.ctor = []
        for op in ('start', 'stop', 'result'):
            I.ext_over['prof.' + op] = self.prof(op)
        where = T(S('host'), S('port'))
        I.rets['.getpeername'] = lambda I, st, ev: where
        I.rets['.get_extra_info'] = lambda I, st, ev: where if ev.args[:1] \
            == (C('peername'),) else None
        I.rets['.accept'] = lambda I, st, ev: T(self.socks[2], where)
        src = PROF + {'select': 'server = Server(listener, profiler, interval, log,'
                         ' proto)',
               'gevent': 'server = Server(listener, profiler, interval, log,'
                         ' proto)',
               'asyncio': 'server = Server(profiler, interval, log, proto)'
               }[name]
        self.env = {'Server': self.cref, 'listener': self.listener,
                    'prof_start': X('prof.start'), 'prof_stop':
                    X('prof.stop'), 'prof_result': X('prof.result'),
                    'interval': S('interval'),
                    'log': S('log'), 'proto': S('protocol')}
        for i, c in enumerate(self.socks):
            self.env['k%d' % (i + 1)] = c
            if name == 'asyncio':
                r, w = S('reader %d' % (i + 1)), S('writer %d' % (i + 1))
                self.env['r%d' % (i + 1)] = r
                self.env['w%d' % (i + 1)] = w
                self.env['c%d' % (i + 1)] = T(r, w)
            else:
                self.env['c%d' % (i + 1)] = c
        outs = snippet(cx, I, st, src, self.env)
        good = [(s, v) for s, v, e in outs if e is None]
        if len(good) < 1:
            raise Undecided('%s server cannot be made: %s' % (
                name, [exc_show(e) for s, v, e in outs][:1]))
        self.st, v = good[0]
        self.server = v['server']
        self.env['server'] = self.server
        self.env['profiler'] = v['profiler']
        I.policy = self.policy
        #: what the sockets are ready for, call by call; then all ends.
        self.ready = []
        I.ext_over['select.select'] = self.select

    def prof(self, op):
        def run(I, st, args, kw, node, fr):
            I.event(st, fr, node, 'OP', fn='prof.' + op)
            if op == 'result':
                st.n += 1
                return [(st, ('call', '.result', S('profiler'), (), (),
                              st.n), None)]
            return [(st, NONE, None)]
        return run

    def policy(self, ev, st, fr):
        if ev.recv == self.listener and ev.fn == '.accept':
            return [('exc', cls, (C(num), C('error')), st.n)
                    for cls, num in self.gone]
        if ev.recv in self.failing and ev.fn in SOCKET_OPS:
            # in the same way as what failed before.
            old = [e.exc[2][0] for e in st.events() if e.k == 'call' and
                   e.exc is not None and e.recv in self.failing and
                   e.fn in SOCKET_OPS and e.exc[0] == 'exc']
            return [('exc', cls, (C(num), C('error')), st.n)
                    for cls, num in FAULTS
                    if not old or old[0] == C(num) or
                    num == errno_.ENOTCONN]
        return []

    def select(self, I, st, args, kw, node, fr):
        k = sum(1 for e in st.events() if e.k == 'SELECT')
        I.event(st, fr, node, 'SELECT', args=tuple(args),
                x=[tuple(p[1] for p in st.get(a).parts)
                   if st.get(a) is not None and st.get(a).kind == 'list' and
                   st.get(a).parts is not None else
                   tuple(x for x, y in st.get(a).known.items()
                         if y is not ABSENT)
                   if st.get(a) is not None and st.get(a).kind == 'set'
                   else a for a in args[:1]])
        if k >= len(self.ready):
            return [(st, None, END)]
        r = self.ready[k]
        if isinstance(r, tuple) and r and r[0] == 'exc':
            return [(st, None, r)]
        st.n += 1
        lists = [I.new(st, HObj('list', parts=[('one', x) for x in xs]))
                 for xs in (r, (), ())]
        return [(st, T(*lists), None)]

    def client(self, i):
        return self.env['c%d' % (i + 1)]

    def run(self, src, st=None, env=None):
        self.I.steps = 0
        e = dict(self.env)
        e.update(env or {})
        return snippet(self.cx, self.I, (st or self.st).fork(), src, e)

    def members(self, s):
        for s2, v, exc in self.I.ga(s.fork(), self.server, 'clients', None,
                                    top()):
            o = s2.get(v) if v is not None else None
            if o is not None and o.kind == 'set' and o.base is None and \
                    not o.meta.get('loops'):
                return set(k for k, x in o.known.items() if x is not ABSENT)
        return None


def operations(cx, I):
    """The operations of the base server that only back ends have."""
    base = cx.cls(I, 'remote.ProfilingServer')
    out = []
    for name, v in I.world.get(base).attrs.items():
        if name.startswith('__') or v[0] != 'r':
            continue
        st = I.start_state()
        n = {'_send': 3, 'serve_forever': 1, '_start_profiling': 1}.get(
            name, 2)
        if name not in CONTRACT:
            continue
        outs = I.call(st, v, [S('self')] + [S('a'), S('b')][:n - 1], {},
                      None, top())
        if outs and all(e is not None and e[0] == 'exc' and e[1] == X(
                'builtins.NotImplementedError') for s, r, e in outs):
            out.append(name)
    return sorted(out)


CONTRACT = ('serve_forever', '_send', '_close', '_addr', '_start_profiling',
            '_start_watching')


def end_ok(exc):
    return exc is None or exc == END


def propagates(cx, b, what, outs, loc, judge=None):
    """No socket error comes out; judge(state, what) for the other paths."""
    for s, v, exc in outs:
        if not end_ok(exc):
            cx.ob(what, False if exc_kind(s, b.I, exc) == 'os error'
                  else None, 'raises %s' % exc_show(exc), loc)
            continue
        cx.ob(what, True, '', loc)
        if judge is not None:
            judge(s)


def failed(b, s, ops):
    """Whether an operation on a failing socket raised on this path."""
    return any(e.k == 'call' and e.exc is not None and e.recv in b.failing
               and e.fn in ops for e in s.events())


@rule('C21', 'for each back end, every socket operation on one client '
      'fails or not: nothing propagates while it is welcomed, broadcast to, '
      'accepted, asked for its address, read from and dropped, and it is '
      'dropped when sending or reading failed')
def backend_faults(cx):
    for name in sorted(BACKENDS):
        b = Backend(cx, name)
        b.failing = (b.socks[0],)
        I = b.I
        bad = b.client(0)

        def dropped(ops, need_end=False):
            def judge(s):
                if not failed(b, s, ops):
                    return
                mem = b.members(s)
                cx.ob(what + ': dropped', None if mem is None else
                      bad not in mem, 'the client is kept', loc)
            return judge
        loc = func_site(I, BACKENDS[name] + '._send')
        what = '%s: a client connects' % name
        propagates(cx, b, what, b.run(
            'server.clients.add(c2)\nserver.connected(c1)'), loc,
            dropped(('.sendall', '.send')))
        what = '%s: a client is lost' % name
        loc = func_site(I, BACKENDS[name] + '._addr')
        propagates(cx, b, what, b.run(
            'server.clients.add(c1)\nserver.disconnected(c1)'), loc)
        what = '%s: broadcast' % name
        loc = func_site(I, BACKENDS[name] + '._send')
        src = 'server.clients.add(c1)\nserver.clients.add(c2)'
        st = b.run(src)[0][0]
        outs = [(s, None, e) for s, e in interval_run(
            cx, b, st, lambda k: '' if k == 0 else None)]

        def judge(s):
            dropped(('.sendall', '.send'))(s)
            if name == 'asyncio':
                return
            n = len([e for e in s.events() if e.k == 'call' and e.recv ==
                     b.socks[1] and e.fn in ('.sendall', '.send')])
            cx.ob(what + ': the other client', n == 1,
                  'is sent to %d times' % n, loc)
        propagates(cx, b, what, outs, loc, judge)
        if name == 'select':
            b.ready = [[b.socks[0]]]
            what = 'select: a client is read from'
            loc = func_site(I, BACKENDS[name] + '.dispatch_sockets')
            propagates(cx, b, what, b.run(
                'server.clients.add(c1)\nserver.clients.add(c2)\n'
                'server.dispatch_sockets()'), loc,
                dropped(('.recv',)))
            b.ready = [[b.listener]]
            b.failing = (b.socks[2],)
            bad = b.client(2)
            what = 'select: a client is accepted'
            propagates(cx, b, what, b.run(
                'server.clients.add(c2)\nserver.dispatch_sockets()'), loc,
                dropped(('.sendall', '.send')))
            b.failing = (b.socks[0],)
            bad = b.client(0)
            # a client has gone before it is accepted.
            for gone in GONE:
                b.gone = (gone,)
                for ready in ([b.listener], [b.listener, b.socks[1]],
                              [b.socks[1], b.listener]):
                    b.ready = [list(ready)]
                    what = 'select: a client has gone before it is ' \
                        'accepted (%s), %d ready' % (
                            errno_.errorcode[gone[1]], len(ready))

                    def judge(s):
                        mem = b.members(s)
                        if not any(e.fn == '.accept' and e.exc is not None
                                   for e in s.events()):
                            return
                        want = {b.client(1)} if len(ready) == 1 else set()
                        cx.ob(what + ': the others', None if mem is None
                              else mem == want, 'the clients are then %s' %
                              (sorted(map(show, mem)) if mem else mem), loc)
                    loc = func_site(I, BACKENDS[name] + '.dispatch_sockets')
                    propagates(cx, b, what, b.run(
                        'server.clients.add(c2)\nserver.dispatch_sockets()'),
                        loc, judge)
            b.gone = ()
        if name == 'gevent':
            what = 'gevent: a client is handled'
            loc = func_site(I, BACKENDS[name] + '.handle')
            propagates(cx, b, what, b.run(
                'server.clients.add(c2)\nserver.handle(c1, addr)', env={
                    'addr': T(S('host'), S('port'))}), loc,
                dropped(('.sendall', '.send')))
            # what reads from it must not raise in its greenlet.
            what = 'gevent: a client is read from'
            loc = func_site(I, BACKENDS[name] + '._start_watching')
            for s, v, exc in b.run('server._start_watching(c1)'):
                for e in s.events():
                    if e.k == 'call' and e.fn in ('gevent.spawn',):
                        f = e.args[0]
                        raw = f[0] == 'a' and f[1] == b.socks[0]
                        cx.ob(what, not raw, 'the error of %s is not '
                              'caught' % show(f), loc)


# -- C22

class IntervalProfiler(ServerWorld):

    def __init__(self, cx, clients, refuse=()):
        ServerWorld.__init__(self, cx, clients=clients)
        self.I.policy = self.policy
        self.refuse = refuse

    def policy(self, ev, st, fr):
        if ev.recv == S('profiler') and ev.fn in self.refuse:
            return [('exc', X('builtins.RuntimeError'), (C('no'),), st.n)]
        return []


@rule('C22', 'intervals of a server with one to three clients of which one '
      'leaves (or none) in each interval, the profiler refusing to start or '
      'to stop or not: start, wait, stop, result and broadcast follow each '
      'other, and the profiler is stopped when nobody is left')
def intervals(cx):
    for n in (1, 2, 3):
        for refuse in ((), ('.start',), ('.stop',), ('.start', '.stop')):
            for keep in (0, 1):
                w = IntervalProfiler(cx, n, refuse)

                def hooks(k, n=n, keep=keep):
                    i = k - keep
                    if i < 0 or i >= n:
                        return '' if i < 0 else None
                    return 'server.disconnected(c%d)' % (i + 1)
                what = '%d clients, %s' % (n, 'one leaves in each interval'
                                           if not keep else 'the first '
                                           'leaves in the second interval')
                if refuse:
                    what += ', the profiler may refuse to ' + ' and '.join(
                        r[1:] for r in refuse)
                judge_intervals(cx, w, what, n + keep, hooks)


def judge_intervals(cx, w, what, count, hooks):
    loc = broadcast_loc(w.I)
    prof = S('profiler')
    for s, exc in interval_run(cx, w, w.st, hooks):
        if exc is not None:
            cx.ob(what + ': ends', False if exc == END or exc[0] == 'exc'
                  and exc[1] != X('builtins.TypeError') else None,
                  'profiling goes on without clients' if exc == END else
                  'raises %s' % exc_show(exc), loc)
            continue
        seq = []
        present = None
        for e in s.events():
            if e.k == 'YIELD':
                seq.append(('wait', e))
            elif e.k == 'call' and e.recv == prof and e.fn in (
                    '.start', '.stop', '.result'):
                seq.append((e.fn[1:], e))
            elif e.k == 'OP' and e.fn == 'send':
                seq.append(('send', e))
        order = [k for k, e in seq if k != 'send']
        cx.ob(what + ': order', order == ['start', 'wait', 'stop',
                                          'result'] * count,
              'the profiler is handled as %s' % ', '.join(order), loc)
        # each broadcast has the result of its interval.
        last = None
        for k, e in seq:
            if k == 'result':
                last = e.res
            elif k == 'start':
                last = None
            elif k == 'send':
                try:
                    layout, values, rest = decode(s, e.args[1])
                except Undecided as u:
                    cx.ob(what + ': result', None, str(u), loc)
                    continue
                ok = rest and rest[0][0] == 'pickle'
                cx.ob(what + ': the result of the interval',
                      rest[0][1] == last if ok and last is not None else
                      (None if not ok else False),
                      'another result is broadcast', loc)


@rule('C22', 'nobody ever connected, or everybody left before the first '
      'interval: the profiler is never started')
def no_clients(cx):
    w = IntervalProfiler(cx, 0)
    loc = broadcast_loc(w.I)
    for s, exc in interval_run(cx, w, w.st, lambda k: None):
        n = [e for e in s.events() if e.k == 'call' and e.recv == S(
            'profiler') and e.fn == '.start']
        cx.ob('no clients', exc is None and not n, 'profiles', loc)


@rule('C22', 'a client comes, profiling runs for some intervals until it has '
      'gone, or fails, and another one comes: profiling is started again, '
      'three times over')
def again(cx):
    for waits in (0, 1, 2):
        for fails in (False, True):
            w = IntervalProfiler(cx, 0)
            loc = func_site(w.I, 'remote.ProfilingServer.connected')
            if fails:
                def policy(ev, st, fr):
                    if ev.recv == S('profiler') and ev.fn == '.result':
                        return [('exc', X('builtins.ValueError'), (), st.n)]
                    return []
            what = 'a client comes after a loop of %d intervals %s' % (
                waits, 'failed' if fails else 'ended')
            states = [w.st]
            good = True
            for round_ in range(3):
                nexts = []
                for st in states:
                    k0 = sum(1 for x in st.events() if x.k == 'YIELD')
                    for s, v, exc in w.run('server.connected(c1)\n', st):
                        n = len(w.ops(s, 'start'))
                        if exc is not None:
                            cx.ob(what, None, 'raises %s' % exc_show(exc),
                                  loc)
                            good = False
                            continue
                        cx.ob('%s: round %d' % (what, round_ + 1),
                              n == round_ + 1,
                              'profiling was started %d times' % n, loc)
                        if n != round_ + 1:
                            good = False
                            continue
                        if not waits:
                            # it left before the loop runs.
                            outs = w.run('server.disconnected(c1)\n', s)
                            s = outs[0][0]
                        if fails:
                            w.I.policy = policy
                        outs = interval_run(
                            cx, w, s, lambda k: 'server.disconnected(c1)\n'
                            if k - k0 == waits - 1 else '')
                        w.I.policy = w.policy
                        for s2, exc in outs:
                            if exc is not None and not fails:
                                cx.ob(what, None, 'the loop raises %s' %
                                      exc_show(exc), loc)
                                good = False
                            else:
                                for s3, v, e in w.run(
                                        'server.disconnected(c1)\n', s2):
                                    nexts.append(s3)
                if not good:
                    break
                states = nexts[:4]


class Lock(object):
    """Locks of which a scenario knows whether they are held."""

    NAMES = ('gevent.lock.Semaphore', 'gevent.lock.BoundedSemaphore',
             'gevent.lock.RLock', 'asyncio.Lock', 'asyncio.Semaphore',
             'threading.Lock')
    SRC = '''
class Lock(object):
    def acquire(self, *args, **kwargs):
        lock_op(self, 1)
        return True
    def release(self):
        lock_op(self, -1)
    def locked(self):
        return lock_held(self)
    def __enter__(self):
        self.acquire()
        return self
    def __exit__(self, *exc):
        self.release()
'''


def overlap(cx, name, sleep, spawns):
    b = Backend(cx, name)
    I = b.I
    loc = func_site(I, BACKENDS[name] + '.profile_periodically')
    what = name + ': the last client leaves and another one comes while ' \
        'the loop waits'
    BLOCKED = ('genexit', 'blocked')

    def held(st, lock):
        return sum(e.args[1][2] for e in st.events()
                   if e.k == 'LOCK' and e.args[0] == lock)

    def lock_op(I, st, args, kw, node, fr):
        if args[1][2] > 0 and held(st, args[0]) > 0:
            return [(st, None, BLOCKED)]
        I.event(st, fr, node, 'LOCK', fn='lock', args=tuple(args))
        return [(st, NONE, None)]
    outs = b.run(Lock.SRC, env={'lock_op': X('lock.op'),
                                'lock_held': X('lock.held')})
    I.ext_over['lock.op'] = lock_op
    I.ext_over['lock.held'] = lambda I, st, args, kw, node, fr: [
        (st, C(held(st, args[0]) > 0), None)]
    b.st, v = outs[0][0], outs[0][1]

    def make(I, st, args, kw, node, fr):
        return I.call(st, v['Lock'], [], {}, node, fr)
    for n in Lock.NAMES:
        I.ext_over[n] = make
    # the server again, with such locks.
    ctor = 'Server(profiler, interval, log, proto)' if name == 'asyncio' \
        else 'Server(listener, profiler, interval, log, proto)'
    outs = [o for o in b.run('server = ' + ctor) if o[2] is None]
    if len(outs) != 1:
        raise Undecided('the server cannot be made')
    b.st = outs[0][0]
    b.server = b.env['server'] = outs[0][1]['server']
    I.rets['.done'] = lambda I, st, ev: C(False)
    I.rets['.ready'] = lambda I, st, ev: C(False)
    I.rets['.locked'] = lambda I, st, ev: None

    def jobs(s, mark):
        return [e for e in s.events()[mark:] if e.k == 'call' and
                e.fn in spawns and is_job(s, e.args[0] if e.args else NONE)]

    def is_job(s, f):
        o = s.get(f)
        if name == 'asyncio':
            return o is not None and o.kind == 'gen'
        return f[0] == 'bm' or (o is not None and o.kind in (
            'func', 'partial'))

    def launch(s, e):
        I.steps = 0
        if name == 'asyncio':
            return [(s2, v2 if k == 'raise' else None) for s2, k, v2 in
                    I.run_gen(s, e.args[0], lambda s, v, e, fr: [
                        (s, 'n', NONE)], None, top())]
        return [(s2, e2) for s2, v2, e2 in I.call(
            s, e.args[0], list(e.args[1:]), {}, None, top())]

    def nap(I, st, args, kw, node, fr):
        I.event(st, fr, node, 'NAP', fn='sleep', args=tuple(args))
        k = sum(1 for e in st.events() if e.k == 'NAP')
        if k > 1:
            return [(st, None, END)]
        mark = nev(st)
        out = []
        for s, v, exc in b.run('server.disconnected(c1)\n'
                               'server.connected(c2)\n', st):
            if exc is not None:
                out.append((s, None, exc))
                continue
            new = jobs(s, mark)
            if not new:
                cx.ob(what, True, '', loc)
                out.append((s, None, END))
                continue
            mark2 = nev(s)
            for s2, exc in launch(s, new[0]):
                evs = s2.events()[mark2:]
                runs = [e for e in evs if e.k == 'NAP' or
                        e.k == 'OP' and e.fn.startswith('prof.')]
                cx.ob(what, False if runs and exc in (None, END) else (
                    True if exc in (None, END, BLOCKED) and not runs
                    else None), 'a second loop runs', loc)
                out.append((s2, None, END))
        return out
    I.ext_over[sleep] = nap
    n = 0
    for s, v, exc in b.run('server.connected(c1)'):
        if exc is not None:
            continue
        for e in jobs(s, nev(b.st))[:1]:
            # what was started is something, not nothing.
            I.assume(s, ('truth', e.res, 0), True)
            n += 1
            launch(s, e)
    if not n:
        cx.ob(what, None, 'no loop is started', loc)


SPAWNS = ('gevent.spawn', 'gevent.Greenlet', 'gevent.spawn_later',
          'asyncio.ensure_future', 'asyncio.async', 'asyncio.create_task',
          '.create_task')


@rule('C22', 'the select server through whole lives: clients come one after '
      'the other, or while one is there, and leave: it profiles in each '
      'interval somebody is there and in no other, one interval at a time')
def lives(cx):
    L, one, two = 'listener', 0, 1
    for what, script, want in (
            ('three clients one after the other',
             [[L], [0], [L], [0], [L], [0]], 3),
            ('a client for two intervals, then another',
             [[L], [], [0], [L], [0]], 3),
            ('two clients together, then one',
             [[L], [L], [0], [1], [L], [0]], 4),
            ('two clients leave at once, then one comes',
             [[L], [L], [0, 1], [L], [0]], 3),
            ('one comes as another one leaves',
             [[L], [L, 0], [1], [L], [0]], 3),
            ('one leaves as another one comes',
             [[L], [0, L], [0], [L], [0]], 3)):
        b = Backend(cx, 'select')
        I = b.I
        mark = nev(b.st)
        loc = func_site(I, 'remote.ProfilingServer.connected')
        b.ready = [[b.listener if x == L else b.socks[x] for x in xs]
                   for xs in script]

        def accepted(I, st, ev, b=b, mark=mark):
            # the first socket nobody uses.
            mem = b.members(st) or ()
            free = [k for k in b.socks if k not in mem]
            return T(free[0], T(S('host'), S('port')))
        I.rets['.accept'] = accepted
        I.unroll_symbolic = True
        I.assume(b.st, I.mkcmp('is', S('interval'), NONE), False)
        for s, v, exc in b.run('server.serve_forever()'):
            if exc != END:
                cx.ob(what, None if exc is None or exc[0] == 'uexc' else
                      False, 'ends' if exc is None else
                      'raises %s' % exc_show(exc), loc)
                continue
            seq = [e.fn[5:] for e in s.events()[mark:] if e.k == 'OP' and
                   e.fn.startswith('prof.') and e.fn != 'prof.result']
            cx.ob(what + ': one at a time', seq == ['start', 'stop'] * (
                len(seq) // 2), 'the profiler is told %s' % ', '.join(seq),
                loc)
            n = seq.count('start')
            cx.ob(what + ': intervals', n == want, 'there are %d instead of '
                  '%d' % (n, want), loc)


@rule('C22', 'the last client leaves and another one comes while a loop of '
      'a back end waits for the end of its interval: there is only one loop '
      'which profiles, so intervals stay matched')
def overlapping(cx):
    overlap(cx, 'gevent', 'gevent.sleep', SPAWNS)
    overlap(cx, 'asyncio', 'asyncio.sleep', SPAWNS)


@rule('C22', 'each back end with one client that stays for two intervals: '
      'between the start and the stop of the profiler it waits, once and for '
      'the interval it was given, and goes on')
def waiting(cx):
    for name, sleep in (('select', None), ('gevent', 'gevent.sleep'),
                        ('asyncio', 'asyncio.sleep')):
        b = Backend(cx, name)
        waits(cx, b, name, sleep)


def waits(cx, b, name, sleep):
    I = b.I
    loc = func_site(I, BACKENDS[name] + '.profile_periodically')
    what = name + ': an interval'
    stop = I.ext_over['prof.stop']

    def stopped(I, st, args, kw, node, fr):
        n = len([e for e in st.events() if e.k == 'OP' and
                 e.fn == 'prof.stop'])
        if n > 4:
            return [(st, None, END)]
        return stop(I, st, args, kw, node, fr)
    I.ext_over['prof.stop'] = stopped

    def nap(I, st, args, kw, node, fr):
        I.event(st, fr, node, 'NAP', fn='sleep', args=tuple(args),
                kw=tuple(sorted(kw.items())))
        if len([e for e in st.events() if e.k == 'NAP']) < 2:
            return [(st, NONE, None)]
        return [(s, NONE, exc) for s, v, exc in b.run(
            'server.disconnected(c1)', st)]
    if sleep:
        I.ext_over[sleep] = nap
    c1 = b.client(0)
    b.ready = [[], [c1]]
    mark = nev(b.st)
    outs = []
    for s, v, exc in b.run('server.connected(c1)'):
        if name == 'select':
            outs.append((s, exc))
            continue
        if exc is not None:
            continue
        for e in [e for e in s.events()[mark:] if e.k == 'call' and
                  e.fn in SPAWNS and e.args]:
            f = e.args[0]
            o = s.get(f)
            I.steps = 0
            s = s.fork()
            I.assume(s, ('truth', e.res, 0), True)
            # one that watches the client is another.
            if o is not None and o.kind == 'gen':
                outs.extend((s2, v2 if k == 'raise' else None)
                            for s2, k, v2 in I.run_gen(
                                s, f, lambda s, v, e, fr: [(s, NONE, None)],
                                None, top()))
            elif f[0] == 'bm' or o is not None:
                outs.extend((s2, e2) for s2, v2, e2 in I.call(
                    s, f, list(e.args[1:]), {}, None, top()))
    seen = 0
    for s, exc in outs:
        evs = [e for e in s.events()[mark:] if e.k in ('NAP', 'SELECT') or
               e.k == 'OP' and e.fn in ('prof.start', 'prof.stop')]
        if not [e for e in evs if e.k == 'OP']:
            continue
        seen += 1
        other = [e for e in s.events()[mark:] if e.k == 'call' and str(
            e.fn).endswith(('wait', 'wait_for', 'sleep', 'join', 'get',
                            'select', 'call_later', 'timer'))]
        cur, n = None, 0
        for e in evs:
            if e.k == 'OP' and e.fn == 'prof.start':
                cur, n = [], n + 1
            elif e.k != 'OP':
                if cur is not None:
                    cur.append(e)
            elif cur is not None:
                w = '%s %d' % (what, n)
                if not cur:
                    cx.ob(w, None if other else False, 'ends at once: the '
                          'profiler is stopped without waiting', loc)
                else:
                    x = cur[0]
                    a = list(x.args) + [v for k, v in x.kw or ()]
                    t = a[-1] if x.k == 'SELECT' and len(a) > 3 else \
                        a[0] if x.k == 'NAP' and a else None
                    cx.ob(w, None if t is None or (
                        t != S('interval') and not is_c(t)) else
                        t == S('interval'), 'waits for %s and not for the '
                        'interval' % (t and show(t)), x.loc)
                cur = None
    if not seen:
        cx.ob(what, None, 'no loop is started', loc)


@rule('C20', 'the select server never waits for a client to take its data: '
      'what is sent to a client is sent without blocking')
def never_blocks(cx):
    b = Backend(cx, 'select')
    I = b.I
    loc = func_site(I, BACKENDS['select'] + '._send')
    # the client which is accepted.
    c1 = b.client(2)
    mark = nev(b.st)
    n = 0
    for src in ('server.dispatch_sockets()\nserver._send(c3, data)',):
        b.ready = [[b.listener], [c1]]
        for s, v, exc in b.run(src, env={'data': S('data')}):
            free = False
            for e in s.events()[mark:]:
                if e.k == 'SELECT' and len(e.args) > 1:
                    o = s.get(e.args[1])
                    if e.args[1] != T() and (o is None or o.parts or
                                             o.kind != 'list'):
                        # what can be written to is asked for.
                        free = None
                if e.k != 'call' or e.recv != c1:
                    continue
                if e.fn in ('.setblocking', '.settimeout'):
                    a = e.args[0] if e.args else NONE
                    free = (not a[2] and a != NONE) if is_c(a) else None
                    if e.fn == '.settimeout' and not free and a != NONE:
                        free = None
                elif e.fn in ('.send', '.sendall', '.sendto'):
                    n += 1
                    flags = list(e.args[1:]) + [x for k, x in e.kw or ()]
                    known = all(is_c(x) or x[0] in ('x', 'op')
                                for x in flags)
                    flagged = any(X('socket.MSG_DONTWAIT') == y
                                  for x in flags for y in walk(x))
                    cx.ob('a client: %s' % e.fn[1:], True if flagged or free
                          else None if free is None or not known else False,
                          'waits until the client takes what is sent, and so '
                          'does every other client', e.loc)
    if not n:
        cx.ob('what is sent', None, 'nothing is sent by known means', loc)


# -- C23

@rule('C23', 'each back end overrides every operation of the base server')
def complete(cx):
    I = remote(cx)
    names = operations(cx, I)
    if not set(names) & set(CONTRACT):
        raise Anchor('abstract operations of ProfilingServer')
    base = cx.cls(I, 'remote.ProfilingServer')
    for name in sorted(BACKENDS):
        cref = cx.cls(I, BACKENDS[name])
        loc = func_site(I, BACKENDS[name] + '._send')
        for op in names:
            f, own = I.class_lookup(I.world, cref, op)
            cx.ob('%s: %s' % (name, op), own != base,
                  'is not implemented', loc)


def endpoint(b, i):
    """What a client sends by."""
    return b.env['w%d' % (i + 1)] if b.name == 'asyncio' else b.socks[i]


def calls_on(s, mark, *recvs):
    return [e for e in s.events()[mark:] if e.k == 'call' and
            e.recv in recvs]


def nev(s):
    return len(s.events())


#: calls that do not deliver anything but are no harm.
HARMLESS = ('.fileno', '.getpeername', '.get_extra_info', '.setblocking',
            '.settimeout', '.gettimeout', '.setsockopt', '.getsockopt',
            '.shutdown', '.is_closing')


def known_calls(cx, b, what, s, mark, loc):
    """Clients are asked only for what they have."""
    has = [(c, set(dir(socket_.socket))) for c in b.socks]
    if b.name == 'asyncio':
        for i in (1, 2, 3):
            has.append((b.env['r%d' % i], set(dir(asyncio_.StreamReader))))
            has.append((b.env['w%d' % i], set(dir(asyncio_.StreamWriter))))
    for e in s.events()[mark:]:
        if e.k != 'call' or e.recv is None or not isinstance(e.fn, str) or \
                not e.fn.startswith('.'):
            continue
        for c, names in has:
            if e.recv == c:
                cx.ob(what + ': ' + e.fn[1:], e.fn[1:] in names,
                      '%s has no %s()' % (show(c), e.fn[1:]), loc)


@rule('C23', 'each back end sends all of the data to the client it was told, '
      'closes that client, and tells its peer address')
def operate(cx):
    for name in sorted(BACKENDS):
        b = Backend(cx, name)
        I = b.I
        mark = nev(b.st)
        ends = [endpoint(b, i) for i in range(3)]
        loc = func_site(I, BACKENDS[name] + '._send')
        what = name + ': sends'
        for s, v, exc in b.run('server._send(c1, data)',
                               env={'data': S('data')}):
            if exc is not None:
                cx.ob(what, None if exc[0] == 'uexc' else False,
                      'raises %s' % exc_show(exc), loc)
                continue
            known_calls(cx, b, what, s, mark, loc)
            es = [e for e in calls_on(s, mark, *ends)
                  if e.fn not in HARMLESS]
            cx.ob(what + ' to the client', all(e.recv == ends[0]
                                               for e in es),
                  'uses another client', loc)
            whole = [e for e in es if e.fn in ('.sendall', '.write',
                                               '.writelines')
                     and e.args[:1] == (S('data'),)]
            part = [e for e in es if e.fn in ('.send', '.sendto')]
            if len(whole) == 1 and len(es) == 1:
                ok = True
            elif part and len(part) == 1 and part[0].args[:1] == (
                    S('data'),) and not looked_at(s, part[0].res):
                ok = False
            elif not es and not any(S('data') in e.args
                                    for e in s.events()[mark:]):
                ok = False
            else:
                ok = False if len(whole) > 1 else None
            cx.ob(what + ' in full', ok, 'the data is given to %s' % (
                ', '.join(str(e.fn)[1:] for e in es) or 'nothing'), loc)
        loc = func_site(I, BACKENDS[name] + '._close')
        what = name + ': closes'
        for s, v, exc in b.run('server._close(c1)'):
            if exc is not None:
                cx.ob(what, None if exc[0] == 'uexc' else False,
                      'raises %s' % exc_show(exc), loc)
                continue
            known_calls(cx, b, what, s, mark, loc)
            es = [e for e in calls_on(s, mark, *ends) if e.fn in (
                '.close', '.abort')]
            cx.ob(what, [e.recv for e in es] == [ends[0]] or (
                None if [e for e in s.events()[mark:] if e.k == 'call']
                and not es else False),
                'closes %s' % ([show(e.recv) for e in es],), loc)
        loc = func_site(I, BACKENDS[name] + '._addr')
        what = name + ': address'
        for s, v, exc in b.run('r = server._addr(c1)'):
            if exc is not None:
                cx.ob(what, None if exc[0] == 'uexc' else False,
                      'raises %s' % exc_show(exc), loc)
                continue
            known_calls(cx, b, what, s, mark, loc)
            es = [e for e in calls_on(s, mark, *ends)
                  if e.fn in ('.getpeername', '.get_extra_info')]
            own = [e for e in s.events()[mark:] if e.k == 'call' and
                   e.fn == '.getsockname']
            r = v.get('r')
            cx.ob(what + ': of the client', all(e.recv == ends[0]
                                                for e in es),
                  'of another client', loc)
            cx.ob(what, r == T(S('host'), S('port')) or (
                False if r == NONE or own else None),
                'is %s' % show(r)[:80], loc)


def looked_at(s, v):
    """Whether something depends on a value."""
    return any(mentions(k, v) for k in s.facts) or any(
        mentions(a, v) for e in s.events() for a in e.args)


def callbacks(s, mark):
    """The functions given to something to be called back."""
    out = []
    for e in s.events()[mark:]:
        if e.k == 'call' and e.fn in ('.link', '.rawlink', '.link_value',
                                      '.link_exception',
                                      '.add_done_callback'):
            out.append((e, e.args[0] if e.args else None))
    return out


@rule('C23', 'each back end watches a client from when it connected: as soon '
      'as it is readable or at its end, the base server is told of the loss '
      'of that client, not of another one')
def watching(cx):
    for name in ('gevent', 'asyncio'):
        b = Backend(cx, name)
        I = b.I
        mark = nev(b.st)
        loc = func_site(I, BACKENDS[name] + '._start_watching')
        what = name + ': a watched client'
        src = ''.join('server.clients.add(c%d)\n' % i for i in (1, 2))
        # two clients: the callback of the first is for the first.
        src += 'server._start_watching(c1)\nserver._start_watching(c2)\n'
        for s, v, exc in b.run(src):
            if exc is not None:
                cx.ob(what, None if exc[0] == 'uexc' else False,
                      'raises %s' % exc_show(exc), loc)
                continue
            known_calls(cx, b, what, s, mark, loc)
            cbs = callbacks(s, mark)
            if len(cbs) != 2:
                cx.ob(what, False if not cbs and not any(
                    e.k == 'call' and e.fn != '.add' and not str(
                        e.fn).endswith('wrap_errors')
                    for e in s.events()[mark:]) else None,
                    'is not watched', loc)
                continue
            for i, (e, f) in enumerate(cbs):
                partial = e.fn in ('.link_value', '.link_exception')
                cx.ob(what + ': every end', not partial,
                      'is watched for some ends only', loc)
                I.steps = 0
                for s2, r, exc in I.call(s.fork(), f, [S('done')], {}, None,
                                         top()):
                    if exc is not None:
                        cx.ob(what, None if exc[0] == 'uexc' else False,
                              'reporting raises %s' % exc_show(exc), loc)
                        continue
                    mem = b.members(s2)
                    cx.ob(what + ': client %d is reported' % (i + 1),
                          None if mem is None else
                          mem == {b.client(1 - i)},
                          'the loss is not reported for it', loc)
            reads = [e for e in s.events()[mark:] if e.k == 'call' and
                     e.fn in ('.read', '.recv', 'gevent.spawn')]
            cx.ob(what + ': is read', len(reads) >= 2 or None,
                  'nothing reads from it', loc)


@rule('C23', 'each back end runs the intervals: it starts the profiler, '
      'waits for the interval it was made with, lets the base server stop '
      'it and broadcast, until no client is left')
def periodic(cx):
    I = remote(cx)
    # select: the interval is the time limit of a wait.
    b = Backend(cx, 'select')
    I = b.I
    mark = nev(b.st)
    b.ready = [[], [b.socks[0]]]
    loc = func_site(I, BACKENDS['select'] + '.profile_periodically')
    what = 'select: intervals'
    for s, v, exc in b.run('server.clients.add(c1)\n'
                           'server._start_profiling()'):
        if not end_ok(exc):
            cx.ob(what, None if exc[0] == 'uexc' else False,
                  'raises %s' % exc_show(exc), loc)
            continue
        seq = []
        for e in s.events()[mark:]:
            if e.k == 'OP' and e.fn.startswith('prof.'):
                seq.append(e.fn[5:])
            elif e.k == 'SELECT':
                seq.append('wait')
                limit = e.args[3] if len(e.args) > 3 else NONE
                ok = is_interval(limit)
                cx.ob(what + ': length', ok, 'waits for %s' % show(limit),
                      loc)
        cx.ob(what + ': order', seq == ['start', 'wait', 'stop', 'result',
                                        'start', 'wait', 'stop', 'result'] or
              False,
              'the order is %s' % ', '.join(seq), loc)
        cx.ob(what + ': end', exc is None, 'go on without clients', loc)
    for name, sleep in (('gevent', 'gevent.sleep'),
                        ('asyncio', 'asyncio.sleep')):
        b = Backend(cx, name)
        I = b.I
        mark = nev(b.st)
        loc = func_site(I, BACKENDS[name] + '.profile_periodically')
        what = name + ': intervals'
        asleep = []

        def nap(I, st, args, kw, node, fr, b=b):
            I.event(st, fr, node, 'NAP', fn='sleep', args=tuple(args))
            k = sum(1 for e in st.events() if e.k == 'NAP')
            if k > 2:
                return [(st, None, END)]
            if k == 2:
                out = []
                for s, v, exc in snippet(b.cx, I, st,
                                         'server.disconnected(c1)\n',
                                         dict(b.env)):
                    out.append((s, NONE, exc))
                return out
            return [(st, NONE, None)]
        I.ext_over[sleep] = nap
        jobs = []
        spawn = 'gevent.spawn' if name == 'gevent' else None
        for s, v, exc in b.run('server.clients.add(c1)\n'
                               'server._start_profiling()'):
            if exc is not None:
                cx.ob(what, None if exc[0] == 'uexc' else False,
                      'raises %s' % exc_show(exc), loc)
                continue
            es = [e for e in s.events()[mark:] if e.k == 'call' and e.fn in (
                'gevent.spawn', 'gevent.Greenlet', 'asyncio.ensure_future',
                'asyncio.async', 'asyncio.create_task', '.create_task',
                'gevent.spawn_later')]
            ran = [e for e in s.events()[mark:] if e.k == 'OP' and
                   e.fn == 'prof.start']
            if not es:
                cx.ob(what + ': run', False if not ran else None,
                      'nothing runs them', loc)
                continue
            cx.ob(what + ': in the background', not ran,
                  'run before the server goes on', loc)
            cx.ob(what + ': once', len(es) == 1, 'are run %d times' %
                  len(es), loc)
            job = es[0].args[0]
            gen = job if name == 'asyncio' else None
            outs = []
            I.steps = 0
            if gen is not None:
                outs = I.run_gen(s, gen, lambda s, v, e, fr: [
                    (s, 'n', NONE)], None, top())
                outs = [(s2, v2 if k == 'raise' else None)
                        for s2, k, v2 in outs]
            else:
                outs = [(s2, e2) for s2, v2, e2 in I.call(
                    s, job, list(es[0].args[1:]), {}, None, top())]
            for s2, exc in outs:
                if not end_ok(exc):
                    cx.ob(what, None if exc[0] == 'uexc' else False,
                          'raises %s' % exc_show(exc), loc)
                    continue
                seq = []
                for e in s2.events()[mark:]:
                    if e.k == 'OP' and e.fn.startswith('prof.'):
                        seq.append(e.fn[5:])
                    elif e.k == 'NAP':
                        seq.append('wait')
                        a = e.args[0] if e.args else NONE
                        cx.ob(what + ': length', is_interval(a),
                              'waits for %s' % show(a), loc)
                cx.ob(what + ': order', seq == [
                    'start', 'wait', 'stop', 'result'] * 2,
                    'the order is %s' % ', '.join(seq), loc)
                cx.ob(what + ': end', exc is None, 'go on without clients',
                      loc)


def is_interval(v):
    """Whether it is the interval of the server, whatever that is."""
    if v == S('interval'):
        return True
    if v == NONE or is_c(v):
        return False
    if v[0] == 'call' and v[1] in ('builtins.max', 'builtins.min') and \
            len(v[3]) == 2 and not v[4] and S('interval') in v[3]:
        other = [x for x in v[3] if x != S('interval')]
        if other and is_c(other[0]) and isinstance(
                other[0][2], (int, float)) and (
                    v[1] == 'builtins.min' or other[0][2] > 0):
            # another one for some intervals.
            return False
    if v[0] == 'call' and v[1] in ('builtins.int', 'builtins.round') and \
            v[3] == (S('interval'),):
        return False
    return None


#: How a greenlet waits for another one or an event.
WAITS = ('.join', '.get', '.wait', 'gevent.joinall', 'gevent.wait')


@rule('C23', 'what connects to each back end becomes a client of the base '
      'server; the select server reads from what is ready, reports its loss, '
      'and accepts from its listener')
def entries(cx):
    for name in sorted(BACKENDS):
        b = Backend(cx, name)
        I = b.I
        mark = nev(b.st)
        if name == 'select':
            src = 'server.clients.add(c1)\nserver.dispatch_sockets()'
            new, old = b.client(2), [b.client(0)]
            b.ready = [[b.listener]]
            loc = func_site(I, BACKENDS[name] + '.dispatch_sockets')
        elif name == 'gevent':
            src = 'server.clients.add(c1)\nserver.handle(c3, addr)'
            new, old = b.client(2), [b.client(0)]
            loc = func_site(I, BACKENDS[name] + '.handle')
        else:
            src = 'server.clients.add(c1)\nserver(r3, w3)'
            new, old = b.client(2), [b.client(0)]
            loc = func_site(I, BACKENDS[name] + '.__call__')
        what = name + ': somebody connects'
        stays = []
        for s, v, exc in b.run(src, env={'addr': T(S('host'), S('port'))}):
            if not end_ok(exc):
                cx.ob(what, None if exc[0] == 'uexc' else False,
                      'raises %s' % exc_show(exc), loc)
                continue
            known_calls(cx, b, what, s, mark, loc)
            mem = b.members(s)
            cx.ob(what, None if mem is None else mem == {new} | set(old),
                  'the clients are then %s' % (sorted(map(show, mem))
                                               if mem else None), loc)
            es = [e for e in calls_on(s, mark, endpoint(b, 2)) if e.fn in (
                '.sendall', '.write')]
            cx.ob(what + ': is welcomed', len(es) >= 2 or (
                None if es else False), 'nothing is sent to it', loc)
            # the socket is closed as soon as this returns.
            calls = [e for e in s.events()[mark:] if e.k == 'call']
            if len([e for e in calls if e.fn in SPAWNS]) > 1:
                waits = [e for e in calls if e.fn in WAITS]
                free = [e for e in waits if not [
                    a for a in e.args[e.fn.startswith('gevent.'):]
                    if a != NONE] and not [x for k, x in e.kw if x != NONE]]
                other = [e for e in calls if 'sleep' in e.fn or
                         'iwait' in e.fn or e.fn == '.acquire' or
                         e.fn == '()' and e.recv != S('log')]
                stays.append((True if free else None if other or
                              exc is not None or len(waits) > 1 else False,
                              bool(waits)))
        if name == 'gevent' and stays:
            # some path may be for a loop which has ended.
            oks = [x[0] for x in stays]
            cx.ob(what + ': stays', True if True in oks else
                  None if None in oks else False,
                  'the connection is closed %s' % (
                      'after a while' if any(x[1] for x in stays) else
                      'at once'), loc)
    b = Backend(cx, 'select')
    I = b.I
    mark = nev(b.st)
    loc = func_site(I, BACKENDS['select'] + '.dispatch_sockets')
    for ready in ([0], [1], [0, 1], [1, 0]):
        b.ready = [[b.socks[i] for i in ready]]
        what = 'select: ready are %s' % ready
        for s, v, exc in b.run('server.clients.add(c1)\n'
                               'server.clients.add(c2)\n'
                               'server.dispatch_sockets()'):
            if not end_ok(exc):
                cx.ob(what, None if exc[0] == 'uexc' else False,
                      'raises %s' % exc_show(exc), loc)
                continue
            mem = b.members(s)
            cx.ob(what, None if mem is None else mem == set(
                b.socks[i] for i in (0, 1) if i not in ready),
                'the clients are then %s' % (sorted(map(show, mem))
                                             if mem else None), loc)
            for i in (0, 1):
                es = [e for e in calls_on(s, mark, b.socks[i])
                      if e.fn == '.close']
                cx.ob(what + ': closed', len(es) == (1 if i in ready else 0),
                      'client %d is closed %d times' % (i + 1, len(es)), loc)
    # the asyncio and select servers must go on for ever.
    b = Backend(cx, 'select')
    b.ready = [[], [], []]
    loc = func_site(b.I, BACKENDS['select'] + '.serve_forever')
    for s, v, exc in b.run('server.serve_forever()'):
        n = sum(1 for e in s.events() if e.k == 'SELECT')
        cx.ob('select: serves for ever', exc == END if exc is None or
              exc == END else None, 'ends after %d waits' % n, loc)


@rule('C23', 'the asyncio server serves the address it is given: who connects '
      'there becomes a client, and it goes on for ever')
def serve_asyncio(cx):
    b = Backend(cx, 'asyncio')
    I = b.I
    loc = func_site(I, BACKENDS['asyncio'] + '.serve_forever')
    what = 'asyncio: serves for ever'
    mark = nev(b.st)
    host, port = S('host'), S('port')
    for s, v, exc in b.run('server.serve_forever((host, port))',
                           env={'host': host, 'port': port}):
        if exc is not None:
            cx.ob(what, None if exc[0] == 'uexc' else False,
                  'raises %s' % exc_show(exc), loc)
            continue
        es = calls_at(s, mark, 'asyncio.start_server')
        if len(es) != 1:
            cx.ob(what, None, 'asyncio.start_server is called %d times' %
                  len(es), loc)
            continue
        e = es[0]
        kw = dict(e.kw)
        got = [e.args[i] if i < len(e.args) else kw.get(k, NONE)
               for i, k in enumerate(('client_connected_cb', 'host', 'port'))]
        cx.ob(what + ': address', got[1:] == [host, port], 'is %s, %s' % (
            show(got[1]), show(got[2])), e.loc)
        later = s.events()[s.events().index(e) + 1:]
        uses = [x for x in later if x.k == 'call' and (
            any(mentions(a, e.res) for a in x.args) or
            any(mentions(a, e.res) for __, a in x.kw))]
        cx.ob(what + ': listens', bool(uses) or None if e.res is None else
              bool(uses), 'what starts the server is never run', e.loc)
        ends = [x for x in later if x.k == 'call' and x.fn in (
            '.run_forever', '.serve_forever')]
        other = [x for x in later if x.k == 'call' and x not in uses and
                 str(x.fn).rpartition('.')[2].startswith(('run', 'wait',
                                                          'join'))]
        cx.ob(what, bool(ends) or (None if other else False),
              'returns as soon as the server is started', loc)
        if ends and uses:
            first = later.index(uses[0])
            cx.ob(what + ': order', first < later.index(ends[0]),
                  'the loop runs before the server is started', loc)
        # who connects.
        s2 = s.fork()
        I.steps = 0
        for s3, r, x in I.call(s2, got[0], [S('reader 3'), S('writer 3')],
                               {}, None, top()):
            if x is not None:
                cx.ob(what + ': connecting', None if x[0] == 'uexc' else
                      False, 'raises %s' % exc_show(x), e.loc)
                continue
            mem = b.members(s3)
            cx.ob(what + ': connecting', None if mem is None else
                  b.client(2) in mem, 'who connects does not become a '
                  'client', e.loc)


# -- the client

def calls_at(s, mark, *names):
    return [e for e in s.events()[mark:] if e.k == 'call' and e.fn in names]


def bound(I, cref, name, e):
    """Parameter -> argument of a call of a method of a class of the
    repository."""
    f, own = I.class_lookup(I.world, cref, name)
    o = I.world.get(f) if f is not None and f[0] == 'r' else None
    if o is None or o.kind != 'func':
        raise Anchor(name)
    names = [a.arg for a in o.meta['node'].args.args][1:]
    out = dict(zip(names, e.args))
    for k, v in e.kw:
        if k is None or k == '**':
            raise Undecided('**kwargs')
        out[k] = v
    if len(e.args) > len(names) or [k for k in out if k not in names]:
        out['?'] = NONE
    return out


class ClientWorld(object):
    """A client with a symbolic viewer and event loop; what is received is
    scripted: got[i] is (method, message) or an exception."""

    def __init__(self, cx, cls='ProfilingClient'):
        self.cx = cx
        self.I = I = remote(cx)
        self.cref = cx.cls(I, 'remote.client.' + cls)
        self.viewer_cls = cx.cls(I, 'viewer.StatisticsViewer')
        I.opaque = set(I.opaque) | {'remote.recv_msg'}
        self.got = []
        #: connect_ex, call by call.
        self.answers = []
        I.rets['remote.recv_msg'] = self.received
        I.policy = self.policy
        I.rets['.fileno'] = self.fileno
        I.rets['.connect_ex'] = self.connected
        I.ext_over['socket.socket'] = self.socket
        self.viewer, self.loop = S('viewer'), S('loop')
        st = I.start_state()
        distinct(I, st, self.viewer, self.loop)
        self.env = {'Client': self.cref, 'viewer': self.viewer, 'loop':
                    self.loop, 'sock': S('socket 0'), 'title': S('title'),
                    'addr': S('address'), 'family': S('family'),
                    'failover': S('failover interval')}
        self.st = st
        self.state = None

    def count(self, st, *fns):
        return sum(1 for e in st.events() if e.k in ('call', 'OP') and
                   e.fn in fns)

    def current(self, st):
        k = sum(1 for e in st.events() if e.k == 'call' and
                str(e.fn).endswith('remote.recv_msg') and e.res is not None)
        return k

    def script(self, st):
        k = sum(1 for e in st.events() if e.k == 'MSG')
        return self.got[k - 1] if 0 < k <= len(self.got) else None

    def received(self, I, st, ev):
        g = self.script(st)
        if g is None or g[0] == 'exc':
            return None
        return T(*g)

    def policy(self, ev, st, fr):
        if str(ev.fn).endswith('remote.recv_msg'):
            g = self.script(st)
            if g is not None and g[0] == 'exc':
                return [g]
        if ev.recv is not None and ev.fn == '.connect_ex':
            return []
        return []

    def fileno(self, I, st, ev):
        closed = any(e.k == 'call' and e.fn == '.close' and
                     e.recv == ev.recv for e in st.events())
        return C(-1) if closed else S('descriptor of ' + show(ev.recv))

    def connected(self, I, st, ev):
        k = sum(1 for e in st.events() if e.k == 'call' and
                e.fn == '.connect_ex' and e is not ev)
        # again on the same socket.
        return C(self.answers[k]) if k < len(self.answers) else C({
            errno_.EINPROGRESS: errno_.EALREADY, 0: errno_.EISCONN}.get(
                self.answers[-1], self.answers[-1]) if self.answers else 0)

    def socket(self, I, st, args, kw, node, fr):
        k = sum(1 for e in st.events() if e.k == 'NEWSOCK')
        I.event(st, fr, node, 'NEWSOCK', fn='socket', args=tuple(args),
                kw=tuple(kw.items()))
        v = S('socket %d' % (k + 1))
        I.assume(st, I.mkcmp('is', v, NONE), False)
        I.assume(st, ('truth', v, 0), True)
        return [(st, v, None)]

    def run(self, src, st=None):
        self.I.steps = 0
        return snippet(self.cx, self.I, (st or self.st).fork(), src,
                       self.env)

    def handle(self, st, got):
        """One message comes, or receiving fails."""
        self.got = [None] * sum(1 for e in st.events() if e.k == 'MSG') + [
            got]
        s = st.fork()
        self.I.event(s, top(), None, 'MSG', fn='message')
        outs = self.run('client.handle()', s)
        if got[0] == 'exc':
            # only the paths on which it failed.
            outs = [(s, v, x) for s, v, x in outs if any(
                e.k == 'call' and str(e.fn).endswith('remote.recv_msg') and
                e.exc is not None for e in s.events()[nev(st):])]
        return outs


def client_made(cx, w, src):
    every = w.run(src)
    outs = [o for o in every if o[2] is None]
    if len(outs) != 1:
        if every and all(o[2] is not None and o[2][0] == 'exc'
                         for o in every):
            cx.ob('a client is made and started', False, 'raises ' + show(
                every[0][2][1]), func_site(
                    w.I, 'remote.client.ProfilingClient.start'))
        raise Undecided('the client cannot be made')
    st, v, __ = outs[0]
    w.env['client'] = v['client']
    return st


PLAIN = 'client = Client(viewer, loop, sock, title)\nclient.start()\n'


def one_message(cx, w, st, got):
    """The calls of the viewer by one message: [(state, [events], exc)]."""
    mark = nev(st)
    for s, v, exc in w.handle(st, got):
        yield s, [e for e in s.events()[mark:] if e.k == 'call' and
                  e.recv == w.viewer], exc


def dispatch_loc(I):
    return func_site(I, 'remote.client.ProfilingClient.handle')


#: What only the user asks of a viewer, or the loss of the connection.
ASKED = ('pause', 'resume', 'inactivate')


@rule('C24', 'what is received by the client: each method reaches its '
      'handler, which gives the viewer what the message has')
def received(cx):
    client_told(cx, 'ProfilingClient', PLAIN, '')
    client_told(cx, 'FailoverProfilingClient', FAILOVER, ', failover client')


def client_told(cx, cls, making, note):
    w = ClientWorld(cx, cls)
    I = w.I
    M = methods_of(I)
    st = client_made(cx, w, making)
    loc = dispatch_loc(I)
    stats, cpu, wall = S('stats'), S('cpu time'), S('wall time')
    for name, msg, meth in (
            ('WELCOME', T(S('protocol'), S('version')), 'activate'),
            ('PROFILER', S('class'), 'set_profiler_class'),
            ('RESULT', T(stats, cpu, wall), 'set_result'),
            (None, S('message'), None)):
        num = M[name] if name else C(0x7f)
        what = (name or 'an unknown method') + note
        for s, es, exc in one_message(cx, w, st, (num, msg)):
            if exc is not None:
                cx.ob(what, None if exc[0] == 'uexc' else False,
                      'raises %s' % exc_show(exc), loc)
                continue
            fns = [e.fn[1:] for e in es]
            if name is None:
                cx.ob(what, not es or None, 'the viewer is told %s' % fns,
                      loc)
                continue
            cx.ob(what, fns == [meth] or (
                None if meth in fns and not set(fns) & set(ASKED) else False),
                  'the viewer is told %s' % (', '.join(fns) or 'nothing'),
                  loc)
            es = [e for e in es if e.fn == '.' + meth]
            for e in es[:1]:
                b = bound(I, w.viewer_cls, meth, e)
                if name == 'PROFILER':
                    cx.ob(what + ': class', list(b.values()) == [msg],
                          'the table is chosen for %s' % [
                              show(x) for x in b.values()], loc)
                if name == 'RESULT':
                    for k, x in (('stats', stats), ('cpu_time', cpu),
                                 ('wall_time', wall), ('title', S('title'))):
                        cx.ob('%s: %s' % (what, k), b.get(k) == x,
                              'is %s' % show(b.get(k) or NONE), loc)
                    at = b.get('at', NONE)
                    now = at[0] == 'call' and at[1] in (
                        'datetime.datetime.now', 'datetime.datetime.today')
                    fresh = now and any(
                        e2.k == 'call' and e2.res == at
                        for e2 in s.events()[nev(st):])
                    cx.ob(what + ': time of arrival', fresh or (
                        False if at == NONE or is_c(at) or now or
                        at[0] == 'call' and at[1] ==
                        'datetime.datetime.utcnow' else None),
                        'is %s' % show(at), loc)


ERRORS = (('a reset', X('builtins.ConnectionResetError'), errno_.ECONNRESET),
          ('a refusal', X('builtins.ConnectionRefusedError'),
           errno_.ECONNREFUSED),
          ('a time-out', OSERR, errno_.ETIMEDOUT),
          ('a broken pipe', X('builtins.BrokenPipeError'), errno_.EPIPE),
          ('an unknown host', OSERR, errno_.EHOSTUNREACH),
          ('a time limit', X('builtins.TimeoutError'), None),
          ('an error of no kind', OSERR, ()))


def error(cls, num):
    """A socket error; some have no number."""
    if num == ():
        return ('exc', cls, (), 0)
    if num is None:
        return ('exc', cls, (C('timed out'),), 0)
    return ('exc', cls, (C(num), C('error')), 0)


@rule('C24', 'receiving fails with each kind of socket error: the socket is '
      'not watched any more, the viewer is inactive, nothing is raised or '
      'displayed')
def lost(cx):
    w = ClientWorld(cx)
    I = w.I
    st = client_made(cx, w, PLAIN)
    loc = dispatch_loc(I)
    watch = calls_at(st, 0, '.watch_file')
    cx.ob('watched', len(watch) == 1 and watch[0].args[:1] == (
        S('descriptor of socket 0'),), 'is watched %d times' % len(watch),
        loc)
    if watch and len(watch[0].args) > 1:
        f = watch[0].args[1]
        ok = f[0] == 'bm' and f[1] == w.env['client']
        cx.ob('watched by handle', True if ok else None, '', loc)
    mark = nev(st)
    for what, cls, num in ERRORS:
        for s, v, exc in w.handle(st, error(cls, num)):
            if exc is not None:
                cx.ob(what, None if exc[0] == 'uexc' else False,
                      'raises %s' % exc_show(exc), loc)
                continue
            rm = calls_at(s, mark, '.remove_watch_file')
            cx.ob(what + ': not watched any more', len(rm) == 1 and
                  rm[0].args == watch[0].args[:1] if watch else None,
                  'remove_watch_file is called for %s' % (
                      [show(a) for e in rm for a in e.args],), loc)
            es = [e.fn[1:] for e in s.events()[mark:] if e.k == 'call' and
                  e.recv == w.viewer]
            cx.ob(what + ': inactive', es == ['inactivate'] or (
                False if 'inactivate' not in es or 'activate' in es or
                'set_result' in es else None),
                'the viewer is told %s' % (', '.join(es) or 'nothing'), loc)


@rule('C17', 'the numbers of the methods are distinct, and the client has a '
      'handler for each method')
def handled(cx):
    w = ClientWorld(cx)
    I = w.I
    M = methods_of(I)
    loc = dispatch_loc(I)
    nums = [M[k] for k in sorted(M)]
    for i, j in itertools.combinations(range(len(nums)), 2):
        cx.ob('%s and %s' % (sorted(M)[i], sorted(M)[j]),
              nums[i] != nums[j], 'have the same number', loc)
    for k, v in M.items():
        cx.ob('%s: fits' % k, 0 <= v[2] < 256, 'is not a byte', loc)
    st = client_made(cx, w, PLAIN)
    done = {}
    for k in sorted(M):
        msg = T(S('a'), S('b'), S('c')) if k == 'RESULT' else S('message')
        for s, es, exc in one_message(cx, w, st, (M[k], msg)):
            if exc is not None:
                cx.ob(k, None, 'raises %s' % exc_show(exc), loc)
                continue
            done.setdefault(k, set()).add(tuple(e.fn for e in es))
            cx.ob(k + ': handled', bool(es), 'has no handler', loc)
    for a, b in itertools.combinations(sorted(done), 2):
        cx.ob('%s and %s: handlers' % (a, b), done[a] != done[b],
              'are handled alike', loc)


FAILOVER = '''
client = Client(viewer, loop, addr, family, title)
client.failover_interval = failover
client.start()
'''


class Failover(object):
    """The history of a failover client: what is expected after each step."""

    def __init__(self, cx):
        self.cx = cx
        self.w = w = ClientWorld(cx, 'FailoverProfilingClient')
        self.I = w.I
        self.loc = func_site(w.I, 'remote.client.FailoverProfilingClient.'
                             'create_connection')
        self.st0 = w.st

    def start(self):
        self.made = []
        return [(client_made(self.cx, self.w, FAILOVER), None)]

    def judge(self, s, mark, what, k, delay):
        """After mark a k-th socket was made and its connection scheduled.
        -> the callback, when clear."""
        cx, loc = self.cx, self.loc
        new = [e for e in s.events()[mark:] if e.k == 'NEWSOCK']
        cx.ob(what + ': a new socket', len(new) == 1,
              '%d sockets are made' % len(new), loc)
        if len(new) != 1:
            return None
        cx.ob(what + ': family', new[0].args[:1] == (S('family'),) or
              dict(new[0].kw).get('family') == S('family'),
              'of another family', loc)
        sock = S('socket %d' % k)
        nb = [e for e in calls_at(s, mark, '.setblocking', '.settimeout')
              if e.recv == sock]
        ok = nb and is_c(nb[-1].args[0]) and nb[-1].args[0][2] == 0 and \
            nb[-1].args[0][2] is not None
        cx.ob(what + ': non-blocking', bool(ok), 'the new socket blocks',
              loc)
        al = calls_at(s, mark, '.alarm', '.set_alarm_in')
        cx.ob(what + ': scheduled', len(al) == 1, 'is scheduled %d times'
              % len(al), loc)
        if len(al) != 1:
            return None
        kw = dict(al[0].kw)
        a = list(al[0].args)
        d = a[0] if a else kw.get('seconds', NONE)
        f = a[1] if len(a) > 1 else kw.get('callback', NONE)
        if delay is not None:
            ok = d == S('failover interval') or (False if is_c(d) else None)
            if ok is None:
                # whatever the interval is.
                try:
                    for n in (1, 3, 100):
                        if value(d, {S('failover interval'): n}) != n:
                            ok = False
                except Unknown:
                    pass
            cx.ob(what + ': delay', ok,
                  'the next attempt comes after %s' % show(d), loc)
        else:
            cx.ob(what + ': delay', d == S('failover interval') or
                  is_c(d) and isinstance(d[2], (int, float)) and d[2] >= 0
                  or (False if is_c(d) else None),
                  'the next attempt comes after %s' % show(d), loc)
        return f

    def closed(self, s, mark, what, sock):
        n = len([e for e in calls_at(s, mark, '.close') if e.recv == sock])
        self.cx.ob(what + ': closed', n == 1 or (False if not n else None),
                   'the dead socket is closed %d times' % n, self.loc)

    def attempt(self, s, f, errnum):
        """The scheduled attempt with an answer of connect_ex."""
        self.w.answers = [0] * sum(
            1 for e in s.events() if e.k == 'call' and
            e.fn == '.connect_ex') + [errnum] * 1
        self.I.steps = 0
        outs = self.I.call(s.fork(), f, [], {}, None, top())
        self.cx.done(self.I, outs)
        return [(s2, exc) for s2, v, exc in outs]


#: The server is there but too busy (UNIX domain), or cannot be reached now.
BUSY = (errno_.EAGAIN, errno_.ENETUNREACH, errno_.EHOSTUNREACH, errno_.ETIMEDOUT)


@rule('C25', 'the failover client, attempt by attempt: refused, no socket '
      'file, too busy, unreachable, connected at once or later, and lost by '
      'each kind of error: '
      'a dead socket is closed, a new non-blocking one is made and one '
      'attempt scheduled; a connection is watched once')
def failover(cx):
    from errno import (EINPROGRESS, ECONNREFUSED, ENOENT, ECONNRESET,
                       EPIPE, ETIMEDOUT)
    refusals = [(), (ECONNREFUSED,), (ENOENT,), (ECONNREFUSED, ENOENT,
                                                 ECONNREFUSED)]
    for first in refusals:
        for answer in (0, EINPROGRESS):
            for loss in (ECONNREFUSED, ECONNRESET, EPIPE, ETIMEDOUT, None,
                         ()):
                h = Failover(cx)
                w = h.w
                todo = []
                for a in first:
                    todo.append(('refused', a))
                todo += [('connected', answer), ('lost', loss),
                         ('refused', ECONNREFUSED), ('connected', answer)]
                play(cx, h, todo)
    for why in BUSY:
        for first in ((), (ECONNREFUSED,)):
            h = Failover(cx)
            play(cx, h, [('refused', a) for a in first] + [
                ('refused', why), ('refused', why), ('connected', 0),
                ('lost', why), ('refused', why), ('connected', EINPROGRESS)])


def play(cx, h, todo):
    w, loc = h.w, h.loc
    states = []
    st = h.start()[0][0]
    k = 1
    f = h.judge(st, 0, 'start', k, None)
    if f is None:
        return
    states = [(st, f)]
    what = 'start'
    for kind, num in todo:
        what = (what + ', ' + kind).replace('start, ', '')
        if what.count(',') > 2:
            what = '..., ' + kind
        nxt = []
        for s, f in states:
            mark = nev(s)
            sock = S('socket %d' % k)
            if kind == 'lost':
                outs = [(s2, e) for s2, v, e in w.handle(s, error(
                    OSERR, num))]
            else:
                outs = h.attempt(s, f, num)
            if not outs:
                cx.ob(what, None, 'cannot be followed', loc)
            for s2, exc in outs:
                if exc is not None:
                    cx.ob(what, None if exc[0] == 'uexc' else False,
                          'raises %s' % exc_show(exc), loc)
                    continue
                seen = calls_at(s2, mark, '.watch_file')
                rm = calls_at(s2, mark, '.remove_watch_file')
                con = calls_at(s2, mark, '.connect_ex')
                if kind != 'lost':
                    cx.ob(what + ': connects', len(con) == 1 and
                          con[0].recv == sock and con[0].args ==
                          (S('address'),), 'connects %s' % [
                              show(e.recv) for e in con], loc)
                if kind == 'connected':
                    cx.ob(what + ': watched', len(seen) == 1 and
                          seen[0].args[:1] == (S('descriptor of ' +
                                                 show(sock)),),
                          'is watched %d times' % len(seen), loc)
                    more = calls_at(s2, mark, '.alarm', '.set_alarm_in')
                    cx.ob(what + ': no other attempt', not more,
                          'another attempt is scheduled', loc)
                    n = [e for e in calls_at(s2, mark, '.close')
                         if e.recv == sock]
                    cx.ob(what + ': open', not n, 'is closed', loc)
                    nxt.append((s2, None))
                    continue
                cx.ob(what + ': not watched', not seen,
                      'the dead socket is watched', loc)
                h.closed(s2, mark, what, sock)
                if kind == 'lost':
                    cx.ob(what + ': not watched any more', len(rm) == 1 and
                          rm[0].args[:1] == (S('descriptor of ' +
                                               show(sock)),),
                          'remove_watch_file is called for %s' % (
                              [show(a) for e in rm for a in e.args],), loc)
                    es = [e.fn for e in s2.events()[mark:] if e.k == 'call'
                          and e.recv == w.viewer]
                    cx.ob(what + ': inactive', '.inactivate' in es,
                          'the viewer is not told', loc)
                from errno import ECONNREFUSED, ENOENT
                f2 = h.judge(s2, mark, what, k + 1, True if num in (
                    ECONNREFUSED, ENOENT) or kind == 'refused' and
                    num in BUSY else None)
                if f2 is not None:
                    nxt.append((s2, f2))
        if kind in ('lost', 'refused'):
            k += 1
        states = nxt
        if not states:
            return


# -- reassembly

class Stream(object):
    """A socket whose bytes come as a script says: how many bytes are there
    for each call of recv, or what happens instead."""

    def __init__(self, cx, script):
        self.cx, self.script = cx, script
        self.I = I = remote(cx)
        self.sock = S('sock')
        for n in ('builtins.len',):
            I.ext_over[n] = self.length
        I.ext_over['stream.recv'] = self.recv
        I.ext_over['select.select'] = self.select
        self.env = {'do_recv': X('stream.recv'),
                    'recv': cx.func(I, 'remote.recv')}
        st = I.start_state()
        outs = snippet(cx, I, st, '''
class Socket(object):
    def recv(self, size, flags=0):
        return do_recv(size, flags)
    def fileno(self):
        return 3
class Array(object):
    def __init__(self, source=b''):
        self.data = source
    def extend(self, more):
        self.data = self.data + more
    def __iadd__(self, more):
        self.data = self.data + more
        return self
    def __len__(self):
        return len(self.data)
sock = Socket()
''', self.env)
        self.st = outs[0][0]
        self.array = outs[0][1]['Array']
        I.ext_over['builtins.bytearray'] = lambda I, st, args, kw, node, fr: \
            I.call(st, self.array, args, kw, node, fr)
        I.ext_over['builtins.bytes'] = self.bytes
        self.env['sock'] = self.sock = outs[0][1]['sock']

    def select(self, I, st, args, kw, node, fr):
        """Waits until there is something, but not longer than it may."""
        limit = args[3] if len(args) > 3 else kw.get('timeout', NONE) \
            if isinstance(kw, dict) else NONE
        out = []
        if limit != NONE:
            s = st.fork()
            I.event(s, fr, node, 'IDLE', fn='select', args=tuple(args))
            if sum(1 for e in s.events() if e.k == 'IDLE') < 4:
                out.append((s, T(T(), T(), T()), None))
        out.append((st, T(*[T(self.sock), T(), T()]), None))
        return out

    def span(self, v):
        if v[0] == 's' and str(v[1]).startswith('bytes '):
            a, b = v[1][6:].split(' to ')
            return int(a), int(b)
        return None

    def length(self, I, st, args, kw, node, fr):
        sp = self.span(args[0]) if args else None
        if sp is not None:
            return [(st, C(sp[1] - sp[0]), None)]
        if args and args[0][0] == 'r' and st.get(args[0]).cls == self.array:
            args = [st.get(args[0]).attrs['data']]
        if args and (args[0][0] == 'op' or args[0][0] == 's' or args[0][:2]
                     == ('call', '.join')):
            try:
                n = 0
                for g in segments(st, args[0]):
                    sp = self.span(g[1]) if g[0] == 'data' else None
                    n += len(g[1]) if g[0] == 'const' else sp[1] - sp[0]
                return [(st, C(n), None)]
            except (Undecided, TypeError):
                pass
        from ..engine import EXT
        return EXT['builtins.len'](I, st, args, kw, node, fr)

    def bytes(self, I, st, args, kw, node, fr):
        if len(args) == 1 and args[0][0] == 'r' and \
                st.get(args[0]).cls == self.array:
            return [(st, st.get(args[0]).attrs['data'], None)]
        return [(st, args[0] if args else C(b''), None)]

    def recv(self, I, st, args, kw, node, fr):
        k = sum(1 for e in st.events() if e.k == 'RECV')
        I.event(st, fr, node, 'RECV', fn='recv', args=tuple(args))
        st.n += 1
        if k >= len(self.script):
            return [(st, None, END)]
        x = self.script[k]
        if isinstance(x, str):
            if x == 'closed':
                return [(st, C(b''), None)]
            num = getattr(errno_, x)
            cls = {'EINTR': 'InterruptedError', 'EAGAIN': 'BlockingIOError',
                   'EWOULDBLOCK': 'BlockingIOError', 'ECONNRESET':
                   'ConnectionResetError'}.get(x, 'OSError')
            return [(st, None, ('exc', X('builtins.' + cls), (
                C(num), C('error')), st.n))]
        n = args[0]
        if not is_c(n):
            raise Undecided('an amount that is not known is received')
        pos = sum(e.x[1] - e.x[0] for e in st.events() if e.k == 'GOT')
        got = min(x, n[2])
        I.event(st, fr, node, 'GOT', fn='got', x=(pos, pos + got))
        if not got:
            return [(st, C(b''), None)]
        v = S('bytes %d to %d' % (pos, pos + got))
        I.assume(st, I.mkcmp('is', v, NONE), False)
        I.assume(st, ('truth', v, 0), True)
        return [(st, v, None)]


def scripts(size):
    """Ways in which size bytes come, with interruptions."""
    out = []

    def go(left, acc, stops):
        if left <= 0:
            out.append(acc)
            return
        for n in (1, 2, left):
            if n <= left and (n != left or n not in (1, 2) or left == n):
                go(left - n, acc + [n], stops)
        if stops:
            for x in ('EINTR', 'EAGAIN', 'EWOULDBLOCK'):
                go(left, acc + [x], stops - 1)
    go(size, [], 2)
    seen = []
    for x in out:
        if x not in seen:
            seen.append(x)
    return seen


@rule('C18', 'five bytes, and more that follow, come in every way pieces of '
      'one, two or all bytes can, interrupted or not there yet up to twice: '
      'exactly the five bytes are returned, in order; closed or broken at '
      'any place: a socket error is raised')
def reassembly(cx):
    size = 5
    w = Stream(cx, [])
    loc = func_site(w.I, 'remote.recv')
    w.script = [9]
    for s, v, exc in snippet(cx, w.I, w.st.fork(), 'r = recv(sock, 0)',
                             w.env):
        cx.ob('no bytes', exc is None or (
            None if exc[0] == 'uexc' else False), 'raises %s' % (
                exc_show(exc) if exc is not None else ''), loc)
        if exc is None and is_c(v['r']):
            cx.ob('no bytes: what', v['r'] == C(b''), 'are %s' % show(
                v['r']), loc)
    w.I.steps = 0
    ends = ('closed', 'ECONNRESET', 'ETIMEDOUT', 'EPIPE')
    ways = []
    for sc in scripts(size):
        ways.append((sc, None))
        for i in range(len(sc)):
            if len([x for x in sc if isinstance(x, str)]) < 2:
                for e in ends:
                    if (sc[:i] + [e], e) not in ways:
                        ways.append((sc[:i] + [e], e))
    # more than is asked for is there.
    ways.append(([9], None))
    ways.append(([2, 9], None))
    for sc, end in ways:
        w.script = sc
        w.I.steps = 0
        what = 'come %s' % ', '.join(str(x) for x in sc)
        for s, v, exc in snippet(cx, w.I, w.st.fork(),
                                 'r = recv(sock, %d)' % size, w.env):
            evs = [e for e in s.events() if e.k == 'RECV']
            peek = [e for e in evs if len(e.args) > 1 and any(
                'MSG_PEEK' in show(a) for a in e.args[1:])]
            cx.ob(what + ': taken', not peek, 'the bytes are not taken', loc)
            if end is not None:
                if exc is None:
                    cx.ob(what, False, 'returns %s' % show(v['r'])[:80], loc)
                elif exc == END:
                    cx.ob(what, False, 'goes on receiving after the end',
                          loc)
                else:
                    kind = exc_kind(s, w.I, exc)
                    cx.ob(what, True if kind == 'os error' else (
                        None if exc[0] == 'uexc' else False),
                        'raises %s' % exc_show(exc), loc)
                continue
            if exc is not None:
                cx.ob(what, None if exc[0] == 'uexc' else False,
                      'waits for more' if exc == END else
                      'raises %s' % exc_show(exc), loc)
                continue
            try:
                r = v['r']
                if r == NONE:
                    cx.ob(what, False, 'returns nothing', loc)
                    continue
                if r[0] == 'r' and s.get(r).cls == w.array:
                    r = s.get(r).attrs['data']
                segs = segments(s, r)
            except Undecided as u:
                cx.ob(what, None, str(u), loc)
                continue
            at = 0
            ok = True
            for g in segs:
                sp = w.span(g[1]) if g[0] == 'data' else None
                if sp is None:
                    ok = None
                    break
                if sp[0] != at:
                    ok = False
                at = sp[1]
            if ok:
                ok = at == size
            cx.ob(what, ok, 'returns %s' % ', '.join(
                show(g[1])[:30] for g in segs), loc)


@rule('C18', '1100 bytes come one by one: all of them are returned, in '
      'order')
def many_pieces(cx):
    size = 1100
    w = Stream(cx, [1] * size)
    w.I.while_rounds = 2 * size
    loc = func_site(w.I, 'remote.recv')
    w.I.steps = 0
    for s, v, exc in snippet(cx, w.I, w.st.fork(), 'r = recv(sock, %d)' %
                             size, w.env):
        if exc is not None:
            cx.ob('many pieces', None if exc[0] == 'uexc' else False,
                  'waits for more' if exc == END else
                  'raises %s' % exc_show(exc), loc)
            continue
        try:
            r = v['r']
            if r[0] == 'r' and s.get(r).cls == w.array:
                r = s.get(r).attrs['data']
            spans = [w.span(g[1]) if g[0] == 'data' else None
                     for g in segments(s, r)]
        except Undecided as u:
            cx.ob('many pieces', None, str(u), loc)
            continue
        at = 0
        ok = True
        for sp in spans:
            if sp is None:
                ok = None
                break
            if sp[0] != at:
                ok = False
            at = sp[1]
        cx.ob('many pieces', ok and at == size, '%d pieces are returned' %
              len(spans), loc)


# -- whole messages

class Wire(object):
    """A socket with the bytes of two messages, cut into pieces at places
    and interrupted there."""

    def __init__(self, cx):
        self.cx = cx
        self.I = I = remote(cx)
        I.ext_over['stream.recv'] = self.recv
        I.ext_over['select.select'] = self.select
        I.ext_over['struct.unpack'] = self.unpack
        I.ext_over['struct.unpack_from'] = self.unpack
        for mod in ('pickle', '_pickle', 'cPickle'):
            I.ext_over[mod + '.loads'] = self.loads
        M = methods_of(I)
        fmts = [cx.modvar(I, 'profiling.remote', n + '_STRUCT_FORMAT')
                for n in ('METHOD', 'SIZE')]
        self.messages = []
        self.data = b''
        self.marks = []
        for name, payload in (('PROFILER', b'\x80\x00.'),
                              ('RESULT', b'N.')):
            parts = (struct.pack(fmts[0][2], M[name][2]),
                     struct.pack(fmts[1][2], len(payload)), payload)
            for p in parts:
                self.data += p
                self.marks.append(len(self.data))
            self.messages.append((M[name], payload))
        self.env = {'do_recv': X('stream.recv'),
                    'recv_msg': cx.func(I, 'remote.recv_msg')}
        st = I.start_state()
        outs = snippet(cx, I, st, """
class Socket(object):
    def recv(self, size, flags=0):
        return do_recv(size, flags)
    def fileno(self):
        return 3
    def gettimeout(self):
        return 0.0
    def setblocking(self, flag):
        pass
class Array(object):
    def __init__(self, source=b''):
        self.data = source
    def extend(self, more):
        self.data = self.data + more
    def __iadd__(self, more):
        self.data = self.data + more
        return self
    def __len__(self):
        return len(self.data)
sock = Socket()
""", self.env)
        self.st = outs[0][0]
        self.env['sock'] = self.sock = outs[0][1]['sock']
        self.array = outs[0][1]['Array']
        I.ext_over['builtins.bytearray'] = lambda I, st, args, kw, node, fr: \
            I.call(st, self.array, args, kw, node, fr)
        I.ext_over['builtins.bytes'] = self.bytes

    def bytes(self, I, st, args, kw, node, fr):
        if len(args) == 1 and args[0][0] == 'r' and \
                st.get(args[0]).cls == self.array:
            return [(st, st.get(args[0]).attrs['data'], None)]
        return None

    select = Stream.select

    def place(self, cuts, event, end):
        self.cuts, self.event, self.end = cuts, event, end

    def recv(self, I, st, args, kw, node, fr):
        n = args[0]
        if not is_c(n):
            raise Undecided('an amount that is not known is received')
        done = [e for e in st.events() if e.k == 'GOT']
        pos = done[-1].x if done else 0
        st.n += 1
        told = [e.x for e in st.events() if e.k == 'TOLD']
        x = None
        if self.end and pos >= self.end[0]:
            x = self.end[1]
            if told.count((pos, x)) > 3:
                return [(st, None, END)]
        elif self.event and pos in self.cuts and \
                (pos, self.event) not in told:
            x = self.event
        elif pos >= len(self.data):
            return [(st, None, END)]
        if x is not None:
            I.event(st, fr, node, 'TOLD', fn='told', x=(pos, x))
            if x == 'closed':
                return [(st, C(b''), None)]
            cls = {'EINTR': 'InterruptedError', 'EAGAIN': 'BlockingIOError',
                   'ECONNRESET': 'ConnectionResetError'}.get(x, 'OSError')
            return [(st, None, ('exc', X('builtins.' + cls), (
                C(getattr(errno_, x)), C('error')), st.n))]
        stop = [c for c in self.cuts if c > pos] + [len(self.data)]
        if self.end:
            stop.append(self.end[0])
        upto = min(pos + n[2], min(stop))
        peek = len(args) > 1 and 'MSG_PEEK' in show(args[1])
        if not peek:
            I.event(st, fr, node, 'GOT', fn='got', x=upto)
        return [(st, C(self.data[pos:upto]), None)]

    def unpack(self, I, st, args, kw, node, fr):
        if len(args) < 2 or kw or not all(is_c(a) for a in args) or \
                not isinstance(args[1][2], bytes):
            return None
        try:
            if len(args) > 2 or node is not None and getattr(
                    getattr(node, 'func', None), 'attr', '') == 'unpack_from':
                vals = struct.unpack_from(*[a[2] for a in args])
            else:
                vals = struct.unpack(args[0][2], args[1][2])
        except struct.error as exc:
            st.n += 1
            return [(st, None, ('exc', X('struct.error'), (C(str(exc)),),
                                st.n))]
        return [(st, T(*[C(v) for v in vals]), None)]

    def loads(self, I, st, args, kw, node, fr):
        if not args or not is_c(args[0]) or \
                not isinstance(args[0][2], bytes):
            raise Undecided('what is loaded is not known')
        I.event(st, fr, node, 'LOADS', fn='loads', x=args[0][2])
        return [(st, S('loaded %r' % args[0][2]), None)]


@rule('C18', 'two messages one after the other, in every way two pieces, or '
      'pieces at every place, can come, interrupted or not there yet: both '
      'are received, whole; closed or broken anywhere: a socket error')
def whole_messages(cx):
    w = Wire(cx)
    I = w.I
    loc = func_site(I, 'remote.recv_msg')
    size = len(w.data)
    ways = [((), None, None)]
    for c in range(size):
        for x in (None, 'EAGAIN', 'EINTR'):
            ways.append(((c,), x, None))
    for a, b in itertools.combinations(range(1, size), 2):
        ways.append(((a, b), None, None))
    for x in (None, 'EAGAIN', 'EINTR'):
        ways.append((tuple(range(size)), x, None))
    first = w.marks[2]
    for c in range(first):
        for x in ('closed', 'ECONNRESET', 'ETIMEDOUT'):
            ways.append(((), None, (c, x)))
            if c:
                ways.append(((c - 1, c), 'EAGAIN', (c, x)))
    for cuts, event, end in ways:
        w.place(cuts, event, end)
        I.steps = 0
        what = 'cut at %s%s%s' % (
            ', '.join(map(str, cuts)) if len(cuts) < 5 else 'every byte',
            ', %s there' % event if event else '',
            ', %s at %d' % (end[1], end[0]) if end else '')
        states = [w.st.fork()]
        for i, (method, payload) in enumerate(w.messages):
            nxt = []
            for s0 in states:
                for s, v, exc in snippet(cx, I, s0, 'r = recv_msg(sock)',
                                         w.env):
                    if end is not None:
                        if exc is None:
                            cx.ob(what, False, 'a message is returned', loc)
                        elif exc == END:
                            cx.ob(what, False, 'goes on receiving after the '
                                  'end', loc)
                        else:
                            cx.ob(what, True if exc_kind(s, I, exc) ==
                                  'os error' else None if exc[0] == 'uexc'
                                  else False, 'raises %s' % exc_show(exc),
                                  loc)
                        continue
                    if exc is not None:
                        cx.ob('%s: message %d' % (what, i + 1),
                              None if exc[0] == 'uexc' else False,
                              'waits for more' if exc == END else
                              'raises %s' % exc_show(exc), loc)
                        continue
                    want = (method, S('loaded %r' % payload))
                    r = v['r']
                    if r[0] != 't' or len(r[1]) != 2:
                        cx.ob('%s: message %d' % (what, i + 1),
                              False if r == NONE else None,
                              'is %s' % show(r)[:80], loc)
                        continue
                    cx.ob('%s: message %d' % (what, i + 1), r == T(*want),
                          'is %s' % show(r)[:80], loc)
                    nxt.append(s)
            if end is not None:
                break
            states = nxt
