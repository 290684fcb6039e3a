"""Recording: C05 - C09, C11."""
import itertools

from ..core import *  # noqa
from ..core import Undecided
from ..lin import Lin, facts_lin, lin, nonneg, nonpos
from ..value import Unknown, feasible, value
from .helpers import func_site
from .life import args_for

#: call stacks, outermost first; a frame is (code, activation)
A, B, C_, A2, D = ('a', 1), ('b', 1), ('c', 1), ('a', 2), ('d', 1)


class World(object):
    """A profiler with call stacks to deliver."""

    def __init__(self, cx, cref, args, **config):
        self.cx = cx
        self.I = I = interp(**config)
        I.concrete_ok = True
        I.policy = lambda ev, st, fr: []
        I.opaque = set(['Timer.__call__', 'utils.thread_clock'])
        self.ids = {}

        def ident(I, st, ev):
            return C(self.ids.setdefault(ev.args[0], 1000 + len(self.ids)))
        I.rets['builtins.id'] = ident
        self.frames = {}
        st = I.start_state()
        distinct(I, st, *[self.code(c) for c in 'abcd'])
        for c in 'abcd':
            I.assume(st, I.mkcmp('is', self.code(c), NONE), False)
        self.base = st
        self.cref = cref
        outs = construct(cx, I, st, cref, **args(self, st))
        if len(outs) != 1:
            raise Undecided('several ways to construct %s' %
                            I.name_of(cref))
        self.st, self.p = outs[0]

    def code(self, c):
        return S('code ' + c)

    def frame(self, st, stack):
        if not stack:
            return NONE
        key = tuple(stack)
        if key not in self.frames:
            back = self.frame(st, key[:-1])
            self.frames[key] = self.I.new(self.base, HObj('open', attrs={
                'f_code': self.code(key[-1][0]), 'f_back': back,
                'f_lineno': S('lineno'), 'f_globals': S('globals'),
                'f_locals': S('locals')}))
        ref = self.frames[key]
        if st.get(ref) is None:
            for k, r in self.frames.items():
                if st.get(r) is None:
                    st.heap[r] = self.base.heap[r]
        return ref

    def event(self, st, stack, ev):
        """Delivers one event of a trace function -> [(state, exc)]"""
        f = self.frame(st, stack)
        outs = self.cx.method(self.I, st, self.p, '_profile',
                              [f, C(ev), NONE])
        return [(s, exc) for s, v, exc in outs]

    def sample(self, st, stack):
        f = self.frame(st, stack)
        return [(s, exc) for s, v, exc in self.cx.method(
            self.I, st, self.p, 'sample', [f])]

    def attr(self, st, v, name):
        """One attribute; the analysis must know a single value."""
        outs = self.I.ga(st.fork(), v, name, None, top())
        if len(outs) != 1:
            vals = set(x[1] for x in outs if x[2] is None)
            if len(vals) != 1 or any(x[2] is not None for x in outs):
                raise Undecided('several values of ' + name)
        s, val, exc = outs[0]
        if exc is not None:
            raise Undecided('%s raises' % name)
        return val

    def kids(self, st, node):
        outs = snippet(self.cx, self.I, st.fork(), 'kids = list(node)\n'
                       'n = len(kids)', {'node': node})
        if len(outs) != 1 or outs[0][2] is not None:
            raise Undecided('children cannot be listed')
        s, v, __ = outs[0]
        o = s.get(v['kids'])
        if o is None or o.parts is None or any(p[0] != 'one'
                                               for p in o.parts):
            raise Undecided('children cannot be listed')
        return [p[1] for p in o.parts]

    def tree(self, st, node=None, path=()):
        """{path of codes: (own_hits, deep_time, is placeholder)}; None when
        a code occurs twice under one parent."""
        out = {}
        if node is None:
            node = self.attr(st, self.p, 'stats')
        o = st.get(node)
        void = self.I.cls('stats.VoidRecordingStatistics')
        out[path] = (self.attr(st, node, 'own_hits'),
                     self.attr(st, node, 'deep_time'),
                     void is not None and o is not None and
                     self.I.is_subclass(st, o.cls, void) is True)
        for k in self.kids(st, node):
            code = self.attr(st, k, 'code')
            if code[0] != 's' or not code[1].startswith('code '):
                raise Undecided('code of a child: %s' % show(code))
            sub = path + (code[1][5:],)
            if sub in out:
                return dict(out, twice=sub)
            out.update(self.tree(st, k, sub))
        return out


def codes(stack):
    return tuple(c for c, a in stack)


TRACE_STACKS = [(A,), (B,), (A, B), (A, A2), (A, B, C_), (A, B, C_, D)]

#: stacks with recursion among the callers
REC_STACKS = [(A, A2, B), (A, B, A2), (A, A2, ('a', 3)), (B, A, A2, C_),
              (A, B, A2, ('b', 2))]


def framed(w, st, kw):
    """A base given by its stack."""
    if 'base_stack' in kw:
        kw['base_frame'] = w.frame(st, kw.pop('base_stack'))
    if 'ignored_stacks' in kw:
        kw['ignored_frames'] = T(*[w.frame(st, x)
                                   for x in kw.pop('ignored_stacks')])
        for x in SKIPPING:
            w.frame(st, x)
        # frames are compared by identity.
        distinct(w.I, st, *w.frames.values())
    return kw


def tracing_world(cx, **kw):
    I = interp()
    cref = cx.cls(I, 'tracing.TracingProfiler')
    timer = cx.cls(I, 'tracing.timers.Timer')

    def args(w, st):
        t = construct(cx, w.I, st, timer)
        return {'kw': framed(w, st, dict(kw, timer=t[0][1]))}
    return World(cx, cref, args)


def sampling_world(cx, **kw):
    I = interp()
    cref = cx.cls(I, 'sampling.SamplingProfiler')
    sampler = cx.cls(I, 'sampling.samplers.Sampler')

    def args(w, st):
        t = construct(cx, w.I, st, sampler)
        return {'kw': framed(w, st, dict(kw, sampler=t[0][1]))}
    return World(cx, cref, args)


BASED = [(A,), (A, B), (A, A2), (B, A, C_), (B, C_), (B, C_, A, D)]


def from_base(stack):
    """The call path of a frame in a profiler whose base code is a."""
    path = list(codes(stack))
    out = [path[-1]]
    if path[-1] == 'a':
        return tuple(out)
    for c in path[-2::-1]:
        if c == 'a':
            break
        out.insert(0, c)
    return tuple(out)


@rule('C06', 'with a base code, for every pair of trace events on it, under '
      'it and beside it: the calls are counted at the path below the base')
def based_calls(cx):
    w = tracing_world(cx, base_code=S('code a'))
    loc = site(w, '_profile')
    evs = [(s, e) for s in BASED for e in ('call', 'return')]
    histories(cx, w, [(x,) for x in evs] + list(itertools.product(
        evs, repeat=2)), loc, lambda w, st, ev: w.event(st, *ev),
        lambda ev: from_base(ev[0]) if ev[1] == 'call' else None,
        lambda ev: '%s of %s, base a' % (ev[1], '/'.join(codes(ev[0]))),
        from_base)


@rule('C08', 'with a base code, for every pair of samples of it, under it '
      'and beside it: the hits are at the path below the base')
def based_samples(cx):
    w = sampling_world(cx, base_code=S('code a'))
    histories(cx, w, [(x,) for x in BASED] + list(itertools.product(
        BASED, repeat=2)), site(w, 'sample'),
        lambda w, st, ev: w.sample(st, ev), from_base,
        lambda ev: 'sample of %s, base a' % '/'.join(codes(ev)), from_base)



#: The frames of one code never live at once here, so that they may all have
#: the same identity, as frames of ended calls leave it to later ones.
REUSED = [(B,), (A, B), (A, C_, B), (C_, B), (C_, A, B)]


def identities_reused(w):
    """Each frame has the identity of the earlier ones of its code."""
    of = {}

    def ident(I, st, ev):
        o = st.get(ev.args[0]) if ev.args[0][0] == 'r' else None
        key = o.attrs.get('f_code', ev.args[0]) if o is not None and \
            o.kind == 'open' else ev.args[0]
        return C(of.setdefault(key, 1000 + len(of)))
    w.I.rets['builtins.id'] = ident
    return w


@rule('C06', 'frames which take over the identity of ended ones: calls are '
      'counted at the path of the frame of now')
def reusing_calls(cx):
    w = identities_reused(tracing_world(cx))
    seqs = [((p, 'call'), (p, 'return'), (q, 'call'), (q, 'return'),
             (p, 'call')) for p in REUSED for q in REUSED]
    seqs = sorted(set(x[:n] for x in seqs for n in range(1, 6)))
    histories(cx, w, seqs, site(w, '_profile'),
              lambda w, st, ev: w.event(st, *ev),
              lambda ev: codes(ev[0]) if ev[1] == 'call' else None,
              lambda ev: '%s of %s, identity reused' % (
                  ev[1], '/'.join(codes(ev[0]))))


@rule('C08', 'frames which take over the identity of ended ones: hits are at '
      'the path of the frame of now')
def reusing_samples(cx):
    w = identities_reused(sampling_world(cx))
    histories(cx, w, [x for n in (1, 2, 3) for x in itertools.product(
        REUSED, repeat=n)], site(w, 'sample'),
        lambda w, st, ev: w.sample(st, ev), codes,
        lambda ev: 'sample of %s, identity reused' % '/'.join(codes(ev)))


def from_frame(stack):
    """The call path in a profiler whose base frame is that of a."""
    if tuple(stack[:1]) == (A,) and len(stack) > 1:
        stack = stack[1:]
    return codes(stack)


FRAMED = [(A,), (A, B), (A, A2), (A2,), (B, A, C_), (A, B, C_), (B,)]


@rule('C06', 'with a base frame, for every pair of trace events of it, under '
      'it and beside it: the calls are counted at the path below the base')
def framed_calls(cx):
    w = tracing_world(cx, base_stack=(A,))
    evs = [(s, e) for s in FRAMED for e in ('call', 'return')]
    histories(cx, w, [(x,) for x in evs] + list(itertools.product(
        evs, repeat=2)), site(w, '_profile'),
        lambda w, st, ev: w.event(st, *ev),
        lambda ev: from_frame(ev[0]) if ev[1] == 'call' else None,
        lambda ev: '%s of %s, base frame a' % (ev[1], '/'.join(codes(ev[0]))),
        from_frame)


@rule('C08', 'with a base frame, for every pair of samples of it, under it '
      'and beside it: the hits are at the path below the base')
def framed_samples(cx):
    w = sampling_world(cx, base_stack=(A,))
    histories(cx, w, [(x,) for x in FRAMED] + list(itertools.product(
        FRAMED, repeat=2)), site(w, 'sample'),
        lambda w, st, ev: w.sample(st, ev), from_frame,
        lambda ev: 'sample of %s, base frame a' % '/'.join(codes(ev)),
        from_frame)


IGNORING = [(B,), (A, B), (A, B, C_), (A, C_, B), (B, A), (A, B, A2), (A,),
            (A, ('b', 1), ('b', 2))]


def without_b(stack):
    """The call path in a profiler which ignores the code b: b is on no way,
    but a call of b itself is still one."""
    path = codes(stack)
    return tuple(c for c in path[:-1] if c != 'b') + (path[-1],)


@rule('C06', 'with an ignored code, for every pair of trace events of it, '
      'under it and beside it: calls are counted at the path of the other '
      'callers')
def ignoring_calls(cx):
    w = tracing_world(cx, ignored_codes=T(S('code b')))
    evs = [(s, e) for s in IGNORING for e in ('call', 'return')]
    histories(cx, w, [(x,) for x in evs] + list(itertools.product(
        evs, repeat=2)), site(w, '_profile'),
        lambda w, st, ev: w.event(st, *ev),
        lambda ev: without_b(ev[0]) if ev[1] == 'call' else None,
        lambda ev: '%s of %s, b ignored' % (ev[1], '/'.join(codes(ev[0]))),
        without_b)


@rule('C08', 'with an ignored code, for every pair of samples of it, under '
      'it and beside it: hits are at the path of the other callers')
def ignoring_samples(cx):
    w = sampling_world(cx, ignored_codes=T(S('code b')))
    histories(cx, w, [(x,) for x in IGNORING] + list(itertools.product(
        IGNORING, repeat=2)), site(w, 'sample'),
        lambda w, st, ev: w.sample(st, ev), without_b,
        lambda ev: 'sample of %s, b ignored' % '/'.join(codes(ev)), without_b)


#: The frames of these stacks are ignored: a call of a, and the calls which
#: this one makes of b and of a again.
LEFT_OUT = ((A,), (A, B), (A, A2))
SKIPPING = [(A,), (A, B), (A, A2), (A, A2, C_), (A, B, C_), (A2, B),
            (B, A), (A2,), (A, C_, D), (A2, ('a', 3)), (A, A2, ('a', 3))]


@rule('C06', 'with ignored frames, for every pair of trace events of them, '
      'under them and beside them, recursion included: calls are counted at '
      'the path of the other callers')
def skipping_calls(cx):
    for out in (LEFT_OUT, ((A2, ('a', 3)),)):
        w = tracing_world(cx, ignored_stacks=out)

        def path(stack, out=out):
            return tuple(x[0] for i, x in enumerate(stack)
                         if i == len(stack) - 1 or stack[:i + 1] not in out)
        evs = [(s, e) for s in SKIPPING for e in ('call', 'return')]
        histories(cx, w, [(x,) for x in evs] + [
            (x, y) for x in evs for y in evs if x[1] == 'call'][::2],
            site(w, '_profile'), lambda w, st, ev: w.event(st, *ev),
            lambda ev: path(ev[0]) if ev[1] == 'call' else None,
            lambda ev: '%s of %s, frames ignored' % (
                ev[1], '/'.join(codes(ev[0]))), path)


@rule('C08', 'with ignored frames, for every sample of them, under them and '
      'beside them, recursion included: hits are at the path of the other '
      'callers')
def skipping_samples(cx):
    for out in (LEFT_OUT, ((A2, ('a', 3)),)):
        w = sampling_world(cx, ignored_stacks=out)

        def path(stack, out=out):
            return tuple(x[0] for i, x in enumerate(stack)
                         if i == len(stack) - 1 or stack[:i + 1] not in out)
        histories(cx, w, [(x,) for x in SKIPPING] + list(itertools.product(
            SKIPPING, repeat=2))[::2], site(w, 'sample'),
            lambda w, st, ev: w.sample(st, ev), path,
            lambda ev: 'sample of %s, frames ignored' % '/'.join(codes(ev)),
            path)


def count(v):
    return v[2] if is_c(v) and isinstance(v[2], (int, float)) else None


def check_tree(cx, w, s, want, what, loc, check_void=True):
    """want: {path: hits}; other paths of prefixes have zero hits."""
    tree = w.tree(s)
    if 'twice' in tree:
        cx.ob(what + ': one node per code', False, 'two nodes for the code '
              'path %s' % '/'.join(tree['twice']), loc)
        return
    full = {(): 0}
    for path, n in want.items():
        for i in range(len(path)):
            full.setdefault(path[:i], 0)
        full[path] = n
    got = {}
    for path, (hits, deep, void) in tree.items():
        n = count(hits)
        if n is None:
            raise Undecided('own hits %s' % show(hits))
        got[path] = n
    ok = got == full
    cx.ob(what, ok, 'own hits by call path are %s, expected %s' % (
        fmt_tree(got), fmt_tree(full)), loc)


def fmt_tree(t):
    return ', '.join('/%s=%s' % ('/'.join(p), n)
                     for p, n in sorted(t.items()))


def site(w, name):
    f, own = w.I.class_lookup(w.I.world, w.cref, name)
    if f is None or f[0] != 'r':
        raise Anchor('%s of %s' % (name, w.I.name_of(w.cref)))
    m = w.I.world.get(f).meta
    mod = w.I.modules[m['module']]
    return (mod.path, m['node'].lineno)


@rule('C06', 'for every sequence of up to three trace events over call '
      'stacks of depth one to four, recursion included: the call counts of '
      'the tree, by call path, are the numbers of call events')
def call_counts(cx):
    w = tracing_world(cx)
    loc = site(w, '_profile')
    alphabet = [(s, e) for s in TRACE_STACKS for e in ('call', 'return')]
    other = [(s, e) for s in ((A,), (A, B))
             for e in ('c_call', 'c_return', 'c_exception')]
    rec = [(s, e) for s in REC_STACKS for e in ('call', 'return')]
    seqs = [(x,) for x in alphabet + other + rec]
    seqs += [(x, y) for x in rec for y in alphabet + other]
    seqs += [(x, y) for x in alphabet + rec for y in rec]
    seqs += [(x, y) for x in alphabet for y in alphabet + other]
    seqs += [(x, y, z) for x in alphabet[::2] for y in alphabet[::2]
             for z in alphabet[:8]]
    histories(cx, w, seqs, loc, lambda w, st, ev: w.event(st, *ev),
              lambda ev: codes(ev[0]) if ev[1] == 'call' else None,
              lambda ev: '%s of %s' % (ev[1], '/'.join(codes(ev[0]))))


@rule('C08', 'for every sequence of up to three samples over call stacks of '
      'depth one to four, recursion included: the own hits of the tree, by '
      'call path, are the numbers of samples taken there')
def sample_counts(cx):
    w = sampling_world(cx)
    loc = site(w, 'sample')
    seqs = []
    for n in (1, 2, 3):
        seqs += list(itertools.product(TRACE_STACKS, repeat=n))
    seqs += [(x,) for x in REC_STACKS]
    seqs += [(x, y) for x in TRACE_STACKS + REC_STACKS
             for y in TRACE_STACKS + REC_STACKS
             if x in REC_STACKS or y in REC_STACKS]
    histories(cx, w, seqs, loc, lambda w, st, ev: w.sample(st, ev),
              lambda ev: codes(ev),
              lambda ev: 'sample of %s' % '/'.join(codes(ev)))


def node_at(w, s, path):
    node = w.attr(s, w.p, 'stats')
    for c in path:
        for k in w.kids(s, node):
            if w.attr(s, k, 'code') == w.code(c):
                node = k
                break
        else:
            return None
    return node


def only_placeholders(cx, w, events, deliver, name, path_of, loc):
    """The calling frames which never were hit themselves have the time of
    what is below them, and no own time."""
    for ev in events:
        path = path_of(ev)
        if len(path) < 2:
            continue
        w.I.steps = 0
        for s, exc in deliver(w, w.st.fork(), ev):
            if exc is not None:
                continue
            leaf = node_at(w, s, path)
            if leaf is None:
                continue
            s = s.fork()
            for s1, v, exc in snippet(cx, w.I, s, 'leaf.deep_time = t',
                                      {'leaf': leaf, 't': S('t')}):
                for i in range(1, len(path)):
                    node = node_at(w, s1, path[:i])
                    what = 'after %s: the caller /%s is a placeholder' % (
                        name(ev), '/'.join(path[:i]))
                    if node is None:
                        cx.ob(what, False, 'it has no node', loc)
                        continue
                    got = w.attr(s1, node, 'deep_time')
                    ok = got == S('t')
                    if not ok and not is_c(got):
                        ok = None
                    cx.ob(what, ok, 'its inclusive time is %s, not that of '
                          'what it called' % show(got)[:120], loc)


@rule('C06', 'the calling frames of a traced call get placeholders, which '
      'have the inclusive time of what is below them')
def call_placeholders(cx):
    w = tracing_world(cx)
    only_placeholders(
        cx, w, [(s, 'call') for s in TRACE_STACKS + REC_STACKS],
        lambda w, st, ev: w.event(st, *ev),
        lambda ev: 'call of %s' % '/'.join(codes(ev[0])),
        lambda ev: codes(ev[0]), site(w, '_profile'))


@rule('C08', 'the calling frames of a sampled one get placeholders, which '
      'have the inclusive time of what is below them')
def sample_placeholders(cx):
    w = sampling_world(cx)
    only_placeholders(
        cx, w, TRACE_STACKS + REC_STACKS, lambda w, st, ev: w.sample(st, ev),
        lambda ev: 'sample of %s' % '/'.join(codes(ev)), codes,
        site(w, 'sample'))


def histories(cx, w, seqs, loc, deliver, hit, name, path_of=codes):
    cache = {(): [(w.st, {})]}
    for seq in sorted(seqs, key=len):
        if seq[:-1] not in cache:
            continue
        ev = seq[-1]
        outs = []
        for s0, want in cache[seq[:-1]]:
            w.I.steps = 0
            want = dict(want)
            s1 = s0.fork()
            for s, exc in deliver(w, s1, ev):
                label = 'after ' + ', '.join(map(name, seq[:-1])) \
                    if len(seq) > 1 else 'first'
                what = '%s (%s)' % (name(ev), label)
                if exc is not None:
                    cx.ob(what, None if exc[0] == 'uexc' else False,
                          'raises %s' % show(exc[1]), loc)
                    continue
                path = hit(ev)
                w2 = dict(want)
                if path is not None:
                    w2[path] = w2.get(path, 0) + 1
                got = tree_paths(w, s)
                full = dict(w2)
                # only nodes on the way may appear; which of them appear
                # before they are hit does not matter.
                bad = None
                if got is None:
                    bad = 'two nodes for one code'
                else:
                    seen = set()
                    for e2 in seq:
                        st_ = path_of(e2[0]) if isinstance(e2[-1], str) \
                            else path_of(e2)
                        for i in range(len(st_) + 1):
                            seen.add(st_[:i])
                    for p, n in full.items():
                        if got.get(p, 0) != n:
                            bad = 'the node %s has %s hits, not %d' % (
                                '/'.join(p), got.get(p, 'no'), n)
                    for p, n in sorted(got.items()):
                        if n and p not in full:
                            bad = 'the node %s has %s hits, not 0' % (
                                '/'.join(p) or '(root)', n)
                        if p not in seen:
                            bad = 'there is a node at %s, which no stack ' \
                                'led to' % '/'.join(p)
                cx.ob(what, bad is None, bad or '', loc)
                if bad is None:
                    outs.append((s, w2))
        if outs and len(seq) < 3:
            cache[seq] = outs[:4]


def tree_paths(w, s):
    tree = w.tree(s)
    if 'twice' in tree:
        return None
    out = {}
    for path, (hits, deep, void) in tree.items():
        n = count(hits)
        if n is None:
            raise Undecided('own hits %s' % show(hits))
        out[path] = n
    return out


# -- C07

def readings(events):
    """The clock readings of some events, in order."""
    out = []
    for e in events:
        if e.k == 'call' and e.fn == 'Timer.__call__' and e.res is not None:
            out.append(e.res)
    return out


def max_arg(atom):
    """x of max(0, x), or None."""
    if atom[0] == 'call' and atom[1] == 'builtins.max' and \
            len(atom[3]) == 2 and not atom[4]:
        a, b = atom[3]
        if is_c(a) and a[2] == 0:
            return b
        if is_c(b) and b[2] == 0:
            return a
    return None


def gaps(form, times):
    """The coefficients of the gaps between consecutive readings; None when
    the form is not a combination of gaps."""
    for a in form.t:
        if a not in times:
            return None
    if form.k or sum(form.t.values()):
        return None
    out, acc = [], 0
    # sum c_t * reading_t = sum over gaps of (sum of later coefficients).
    for i in range(len(times) - 1, 0, -1):
        acc += form.t.get(times[i], 0)
        out.append(acc)
    out.reverse()
    return out


class Timeline(object):
    """Which gap between clock readings belongs to which event."""

    def __init__(self):
        self.times = []
        self.of = []            # event index of each reading

    def more(self, rs, ev):
        t = Timeline()
        t.times = self.times + rs
        t.of = self.of + [ev] * len(rs)
        return t

    def gap_owner(self, i):
        """The event a gap lies in, or (before, after)."""
        a, b = self.of[i], self.of[i + 1]
        return (a, a) if a == b else (a, b)


def parts_of_time(st, v):
    """deep_time as a sum of non-negative parts: [(form, protected)]."""
    f = lin(v)
    if f.k:
        return None
    out = []
    rest = Lin()
    for a, c in f.t.items():
        x = max_arg(a)
        if x is not None:
            if c != 1:
                return None
            out.append((lin(x), True))
        else:
            rest = rest + Lin({a: c})
    if rest.t:
        out.append((rest, nonneg(st, rest)))
    return out


@rule('C07', 'for every sequence of up to four trace events, matched and '
      'unmatched, over recursive and nested stacks: each matched return adds '
      'max(0, elapsed), where elapsed counts the time between the callbacks '
      'of entry and return fully and no time spent in a callback; an '
      'unmatched return adds nothing; an entry is used once')
def matched_time(cx):
    w = tracing_world(cx)
    loc = site(w, '_profile')
    c = lambda *s: (tuple(s), 'call')
    r = lambda *s: (tuple(s), 'return')
    A3, E = ('a', 3), ('d', 9)
    w.ids[w.frame(w.st, (E,))] = w.ids[w.frame(w.st, (A,))] = 999
    seqs = [
        (c(A), r(A)),
        (c(A), r(A), r(A)),
        (c(A), r(A), c(A), r(A)),
        (c(A), c(A, B), r(A, B), r(A)),
        (c(A), c(A, B), r(A)),
        (c(A), c(A, A2), r(A, A2), r(A)),
        (c(A), r(A, A2)),
        (c(A), r(A3)),
        (c(A), r(B)),
        (r(A),), (r(A, B),),
        (c(A, B), r(A, B)),
        (c(A, B), r(A, B), r(A)),
        (c(A, B), r(A, B), c(A), r(A)),
        (c(A), ((A,), 'c_call'), ((A,), 'c_return'), r(A)),
        (c(A), c(A, B), c(A, B, C_), r(A, B, C_), r(A, B), r(A)),
        (c(A), c(A, B), r(A, B), c(A, B), r(A, B), r(A)),
        (c(A), c(B), r(B), r(A)),
        (c(A), c(A3), r(A3), r(A)),
        (c(A), c(A3), r(A), r(A3)),
        (c(A), ((A,), 'c_exception'), r(A)),
        (c(A), c(A, B), ((A,), 'c_return'), r(A, B), r(A)),
        # a frame of another code with the id of the entered one.
        (c(E), r(E), c(A), r(E), r(A)),
        (c(A), r(A), c(E), r(A), r(E)),
    ]
    for seq in seqs:
        w.I.steps = 0
        label = ', '.join('%s %s' % (ev, '/'.join(
            '%s%s' % (c, '' if n == 1 else n) for c, n in stack))
            for stack, ev in seq)
        states = [(w.st.fork(), Timeline())]
        for i, (stack, ev) in enumerate(seq):
            nxt = []
            for s0, tl in states:
                s1 = s0.fork()
                mark = s1.nev
                for s, exc in w.event(s1, stack, ev):
                    if exc is not None:
                        cx.ob(label, None, 'raises')
                        continue
                    nxt.append((s, tl.more(readings(
                        sorted_events(s, mark)), i)))
            states = nxt
        # what must have been added where.
        pairs = {}
        pend = {}
        for i, (stack, ev) in enumerate(seq):
            key = tuple(stack)
            ident_ = (stack[-1][0], key)
            if ev == 'call':
                pend[ident_] = i
            elif ev == 'return' and ident_ in pend:
                pairs.setdefault(codes(stack), []).append(
                    (pend.pop(ident_), i))
        for s, tl in states:
            check_times(cx, w, s, tl, pairs, label, loc)


def sorted_events(s, mark):
    evs = tail(s, mark)
    n = [e.res[-1] for e in evs if e.k == 'call' and
         e.fn == 'Timer.__call__' and e.res is not None]
    if n != sorted(n):
        evs = list(reversed(evs))
    return evs


def check_times(cx, w, s, tl, pairs, label, loc):
    tree = w.tree(s)
    for path, (hits, deep, void) in sorted(
            (k, v) for k, v in tree.items() if k != 'twice'):
        if void:
            continue
        what = 'time of /%s after %s' % ('/'.join(path), label)
        want = list(pairs.get(path, ()))
        parts = parts_of_time(s, deep)
        if parts is None:
            kept = [pr for p2, prs in pairs.items() if p2[:len(path)] == path
                    and len(p2) > len(path) for pr in prs]
            ok, msg = time_witness(s, deep, tl, want, kept)
            cx.ob(what, ok, msg, loc)
            continue
        parts = [p for p in parts if p[0].t]
        left = list(want)
        # what a placeholder had counted for its descendants may be kept.
        first = min([i for i, j in want] or [1 << 30])
        kept = [pr for p2, prs in pairs.items() if p2[:len(path)] == path and
                len(p2) > len(path) for pr in prs if pr[1] < first]
        # several times which are known not to be negative may be added up.
        for n, (form, protected) in enumerate(parts):
            if protected:
                continue
            for i, j in list(left) + list(kept):
                if not form.t:
                    break
                for d, op in facts_lin(s):
                    e = d.scale(-1)
                    g = gaps(e, tl.times) if op != '==' and e.t else None
                    if g is not None and judge(g, tl, i, j) is None:
                        form = form - e
                        (left if (i, j) in left else kept).remove((i, j))
                        cx.ob(what, True, '', loc)
                        break
            parts[n] = (form, not form.t and not form.k)
        parts = [p for p in parts if p[0].t or p[0].k]
        if any(gaps(f, tl.times) is None for f, p in parts):
            ok, msg = time_witness(s, deep, tl, want, kept)
            cx.ob(what, ok, msg, loc)
            continue
        for form, protected in parts:
            g = gaps(form, tl.times)
            if g is None:
                known = all(a in tl.times for a in form.t)
                cx.ob(what, False if known else None,
                      'adds %s, which is not an elapsed time' %
                      form.show()[:200], loc)
                continue
            cx.ob(what + ': never negative', bool(protected),
                  'adds a time which may be negative', loc)
            best = None
            for i, j in left + kept or [(None, None)]:
                err = judge(g, tl, i, j)
                if err is None:
                    best = (i, j)
                    break
                if (i, j) in left or not left:
                    last = err
            if best in kept:
                kept.remove(best)
            elif best is None:
                cx.ob(what, False, last, loc)
            else:
                left.remove(best)
                cx.ob(what, True, '', loc)
        # an entry may be left out only where it is known not to be positive.
        for i, j in list(left):
            for d, op in facts_lin(s):
                g = gaps(d, tl.times) if op != '==' and d.t else None
                if g is not None and judge(g, tl, i, j) is None:
                    left.remove((i, j))
                    cx.ob(what, True, '', loc)
                    break
        if left and len(parts) < len(want):
            cx.ob(what, None if s.facts and any(
                k[0] == 'cmp' for k in s.facts if any(
                    mentions(k, t) for t in tl.times)) else False,
                'nothing is added for a matched return', loc)
        elif not want and not parts:
            cx.ob(what, True, '', loc)


def time_witness(s, deep, tl, want, kept):
    """Judges an inclusive time of any form by numbers for the readings."""
    if kept:
        return None, 'inclusive time %s' % show(deep)[:200]
    tried = 0
    for inner in (0, 3, 0.0625):
        for rate in ((5,), (7, 2), (1, 1, 40), (16, 4, 2, 1), (0.25,),
                     (0.5, 0.125)):
            env, t, k = {}, 1000, 0
            outer = {}
            for n, r in enumerate(tl.times):
                if n:
                    a, b = tl.gap_owner(n - 1)
                    if a == b:
                        t += inner
                    else:
                        t += rate[k % len(rate)]
                        outer[n - 1] = rate[k % len(rate)]
                        k += 1
                env[r] = t
            total = 0
            for i, j in want:
                total += sum(g for n, g in outer.items()
                             if tl.of[n] >= i and tl.of[n + 1] <= j)
            try:
                if not feasible(s.facts, env):
                    continue
                got = value(deep, env)
            except Unknown as e:
                return None, 'inclusive time %s (%s)' % (show(deep)[:99], e)
            tried += 1
            if abs(got - total) > 1e-6:
                return False, 'the inclusive time is %s, expected %s, when ' \
                    'the clock reads %s' % (float(got), total, ', '.join(
                        str(env[r]) for r in tl.times))
    return (True if tried else None), 'inclusive time %s' % show(deep)[:200]


def judge(g, tl, i, j):
    """What is wrong with the coefficients of an elapsed time."""
    if i is None:
        return 'a time is added without a matching entry'
    for n, c in enumerate(g):
        a, b = tl.gap_owner(n)
        if a != b:
            inside = a >= i and b <= j
            if inside and c != 1:
                return 'the time between event %d and %d of the sequence ' \
                    'counts %g times' % (a + 1, b + 1, float(c))
            if not inside and c != 0:
                return 'time outside of the call counts (between event %d ' \
                    'and %d, %g times)' % (a + 1, b + 1, float(c))
        elif i <= a < j:
            if c != 0:
                return 'time inside the callback of event %d counts %g ' \
                    'times' % (a + 1, float(c))
        elif a == j:
            if c != 0:
                return 'time inside the callback of the return counts %g ' \
                    'times' % float(c)
        elif c != 0:
            return 'time inside the callback of event %d, outside of the ' \
                'call, counts %g times' % (a + 1, float(c))
    return None


@rule('C07', 'the overhead is the time spent in the callbacks, and the CPU '
      'time of the result is reduced by it')
def overhead(cx):
    w = tracing_world(cx)
    loc = site(w, '_profile')
    for seq in ([((A,), 'call')], [((A,), 'return')],
                [((A,), 'call'), ((A,), 'return')],
                [((A,), 'c_call')],
                [((A,), 'call'), ((A, B), 'call'), ((A, B), 'return')]):
        states = [(w.st.fork(), Timeline())]
        for i, (stack, ev) in enumerate(seq):
            nxt = []
            for s0, tl in states:
                mark = s0.nev
                for s, exc in w.event(s0.fork(), stack, ev):
                    if exc is None:
                        nxt.append((s, tl.more(readings(
                            sorted_events(s, mark)), i)))
            states = nxt
        label = ', '.join('%s %s' % (ev, '/'.join(codes(st)))
                          for st, ev in seq)
        for s, tl in states:
            v = w.attr(s, w.p, 'overhead')
            f = lin(v)
            g = gaps(f, tl.times)
            what = 'overhead after ' + label
            if g is None:
                cx.ob(what, False if all(a in tl.times for a in f.t) else
                      None, 'overhead is %s' % f.show()[:200], loc)
                continue
            bad = None
            for n, c in enumerate(g):
                a, b = tl.gap_owner(n)
                if a == b and c != 1:
                    bad = 'time in the callback of event %d counts %g ' \
                        'times' % (a + 1, float(c))
                if a != b and c != 0:
                    bad = 'time outside of the callbacks counts %g times' \
                        % float(c)
            cx.ob(what, bad is None, bad or '', loc)
            # the result.
            s2 = s.fork()
            o = s2.mut(w.p)
            o.attrs['_cpu_time_started'] = S('cpu started')
            o.attrs['_wall_time_started'] = S('wall started')
            for s3, v, exc in cx.method(w.I, s2, w.p, 'result'):
                what = 'cpu time after ' + label
                if exc is not None or v[0] != 't' or len(v[1]) != 3:
                    cx.ob(what, None, 'result() is %s' % (
                        show(v) if v else exc))
                    continue
                cpu = v[1][1]
                form = strip_max(cpu)
                oc = [a for a in form.t if a in tl.times]
                got = Lin(dict((a, form.t[a]) for a in oc))
                if not form.t and not form.k and f.t:
                    # zero, where the rest is known to be negative.
                    for d, op in facts_lin(s3):
                        if op != '==' and d.t:
                            d = strip_all(d)
                            d = Lin(dict((a, d.t[a]) for a in d.t
                                         if a in tl.times))
                            if d.t:
                                got = d
                if f.t and not got.t and any(
                        a[0] != 'call' and a != S('cpu started')
                        for a in form.t):
                    cx.ob(what, None, 'cpu time %s' % show(cpu)[:200])
                    continue
                cx.ob(what, got == f.scale(-1), 'the overhead counts as %s '
                      'in the CPU time, expected %s' % (
                          got.show()[:120], f.scale(-1).show()[:120]), loc)


@rule('C07', 'what a callback does - walking the frames, finding and '
      'changing nodes - lies between its first and its last clock reading')
def time_in_callback(cx):
    w = tracing_world(cx)
    I = w.I
    loc = site(w, '_profile')
    walks = ('Profiler.frame_stack', 'utils.frame_stack', 'frame_stack')
    at = []

    def policy(ev, st, fr):
        if ev.fn == 'Timer.__call__' or any(
                ev.fn.endswith(x) for x in walks):
            at.append((ev.fn == 'Timer.__call__', st.fork()))
        return []

    def walked(I, st, ev):
        f = ev.args[0] if ev.args else dict(ev.kw).get('frame')
        out = []
        while f != NONE:
            out.insert(0, f)
            outs = I.ga(st, f, 'f_back', None, top())
            f = outs[0][1]
        return I.new(st, HObj('list', parts=[('one', x) for x in out]))
    I.opaque = set(I.opaque) | set(walks[:2])
    for x in walks:
        I.rets[x] = walked
    for before, (stack, ev) in (
            ((), ((A,), 'call')), ((), ((A, B), 'call')),
            ((((A,), 'call'),), ((A,), 'return')),
            ((((A, B), 'call'),), ((A, B), 'return'))):
        I.steps = 0
        states = [w.st.fork()]
        I.policy = lambda ev, st, fr: []
        for b in before:
            states = [s2 for s in states for s2, e in w.event(s, *b)
                      if e is None]
        for s0 in states:
            old = w.tree(s0)
            del at[:]
            I.policy = policy
            outs = w.event(s0.fork(), stack, ev)
            I.policy = lambda ev, st, fr: []
            reads = [i for i, (t, s) in enumerate(at) if t]
            what = 'callback of %s of %s' % (ev, '/'.join(codes(stack)))
            if len(outs) != 1 or outs[0][1] is not None or not reads:
                # the paths of a fork cannot be told apart here.
                outs = [x for x in outs if x[1] is None]
                trees = [w.tree(x[0]) for x in outs]
                if not reads or not trees:
                    cx.ob(what, None, 'no clock reading is known', loc)
                    continue
            else:
                trees = [w.tree(outs[0][0])]
            cx.ob(what + ': measured from the beginning', reads[0] == 0 and
                  w.tree(at[reads[0]][1]) == old, 'work is done before the '
                  'clock is read first', loc)
            ends = [w.tree(at[i][1]) for i in reads[-len(trees):]]
            cx.ob(what + ': measured to the end',
                  all(t in ends for t in trees), 'the statistics are changed '
                  'after the clock was read last', loc)


def strip_max(v):
    """The linear form of a time, protections against negatives left out."""
    f = lin(v)
    out = Lin({}, f.k)
    for a, c in f.t.items():
        x = max_arg(a)
        out = out + (strip_max(x).scale(c) if x is not None
                     else Lin({a: c}))
    return out


def strip_all(f):
    out = Lin({}, f.k)
    for a, c in f.t.items():
        x = max_arg(a)
        out = out + (strip_max(x).scale(c) if x is not None
                     else Lin({a: c}))
    return out


# -- C05

HOOKS = ('sys.setprofile', 'threading.setprofile', 'signal.signal',
         'signal.setitimer', 'sys.settrace', 'Runnable.start')


def start_snapshots(cx, w, st, p, args=(), after=None):
    """States of a profiler being started in which the first event could be
    recorded: when a hook is installed or a sub-object is started, and once
    start() is through."""
    I = w.I
    old = I.opaque
    I.opaque = set(old) | set(['Runnable.start', 'Runnable.stop'])
    through, snaps = [], []

    def policy(ev, st, fr):
        if ev.fn in HOOKS:
            if ev.fn == 'Runnable.start' and ev.recv == p:
                through.append((st.fork(), ev))
            else:
                snaps.append((st.fork(), ev))
        return []
    saved = I.policy
    I.policy = policy
    try:
        outs = cx.method(I, st.fork(), p, 'start', args)
        if any(e is not None for s, v, e in outs):
            cx.note('start raises')
        ends = []
        for s, ev in list(through):
            I.steps = 0
            for s2, g, exc in cx.method(I, s.fork(), p, 'run', args):
                o = s2.get(g) if exc is None else None
                if o is None or o.kind != 'gen':
                    continue

                def handler(s3, v, e, fr):
                    snaps.append((s3.fork(), None))
                    if after is not None:
                        return [(s4, NONE, None) for s4 in after(s3)]
                    return [(s3, NONE, None)]
                res = I.run_gen(s2, g, handler, None, top())
                if after is not None:
                    ends.extend(s4 for s4, k, v in res if k != 'raise')
        return snaps, through, ends
    finally:
        I.opaque = old
        I.policy = saved


@rule('C05', 'two profilers of one class: what is recorded by one, and '
      'starting it, leaves the tree and the pending entries of the other as '
      'they are')
def apart(cx):
    for name, world in (('tracing', tracing_world),
                        ('sampling', sampling_world)):
        w = world(cx)
        I = w.I
        loc = site(w, '__init__')
        made = [(s, v['q']) for s, v, e in snippet(
            cx, I, w.st.fork(), 'q = P()', {'P': w.cref}) if e is None]
        if len(made) != 1:
            cx.ob(name + ': another one', None, 'cannot be made', loc)
            continue
        st, q = made[0]
        p = w.p

        def feed(s, stack, ev):
            return [x for x, e in (
                w.event(s, stack, ev) if name == 'tracing' else
                w.sample(s, stack)) if e is None]
        states = [st]
        for ev in ('call', 'return'):
            states = [x for s in states for x in feed(s, (A, B), ev)]
        if name == 'tracing':
            # one call is not over yet.
            states = [x for s in states for x in feed(s, (A, C_), 'call')]
        for s in states[:4]:
            tree = w.tree(s)
            w.p = q
            try:
                other = w.tree(s)
                cx.ob(name + ': the tree of another profiler', set(other) ==
                      set([()]), 'what one profiler recorded is in the '
                      'result of another one: %s' % sorted(
                          '/'.join(x) for x in other if x), loc)
                if name == 'tracing':
                    # a return of what the other one never saw to begin,
                    # at a function it knows.
                    for s1 in feed(s.fork(), ((A[0], 9), (C_[0], 9)),
                                   'call'):
                        for s2 in feed(s1, (A, C_), 'return'):
                            cx.ob(name + ': pending entries', all(
                                count(d) == 0 or v for h, d, v in
                                w.tree(s2).values()), 'a return is matched '
                                'with an entry of another profiler', loc)
            finally:
                w.p = p
            for s2, v, exc in snippet(cx, I, s.fork(), 'stats.clear()', {
                    'stats': w.attr(s, q, 'stats')}):
                if exc is None:
                    cx.ob(name + ': after the start of another profiler',
                          set(w.tree(s2)) == set(tree), 'starting one '
                          'profiler clears the result of another one', loc)


@rule('C05', 'a profiler that recorded a session is started again: at the '
      'first moment an event of the new session can arrive, the tree is '
      'empty, no entry is pending, overhead and clocks are new')
def clean_slate(cx):
    for name, world in (('tracing', tracing_world),
                        ('sampling', sampling_world)):
        w = world(cx)
        I = w.I
        loc = site(w, 'start')
        # a first session.
        if name == 'tracing':
            first = [((A,), 'call'), ((A, B), 'call'), ((A, B), 'return'),
                     ((A, B, C_), 'call')]
        else:
            first = [(A,), (A, B), (A, B, C_)]

        def session(s):
            states = [s]
            for ev in first:
                nxt = []
                for s in states:
                    nxt += [x for x, e in (
                        w.event(s, *ev) if name == 'tracing'
                        else w.sample(s, ev)) if e is None]
                states = nxt
            for s in states:
                o = s.mut(w.attr(s, w.p, 'stats'))
                o.attrs['own_hits'] = C(7)
                o.attrs['deep_time'] = S('old time')
                o = s.mut(w.p)
                for at in ('_cpu_time_started', '_wall_time_started'):
                    if at in o.attrs:
                        o.attrs[at] = S('old ' + at[1:].partition('_')[0])
            return states
        __, through, ends = start_snapshots(cx, w, w.st, w.p, after=session)
        if not ends:
            raise Undecided('no session of ' + name)
        st = ends[0]
        I.steps = 0
        snaps, through, ends = start_snapshots(cx, w, st, w.p)
        if not snaps:
            raise Undecided('where %s installs its hooks is not known' %
                            name)
        for s, ev in snaps:
            I.steps = 0
            at = 'before %s' % ev.fn if ev is not None else 'once started'
            eloc = ev.loc if ev is not None else loc
            what = '%s, %s: ' % (name, at)
            tree = w.tree(s)
            cx.ob(what + 'call tree', set(tree) == set([()]),
                  'statistics of the last session are still there: %s' %
                  sorted('/'.join(p) for p in tree if p), eloc)
            hits, deep, __ = tree[()]
            cx.ob(what + 'own hits', count(hits) == 0,
                  'own hits of the root are %s' % show(hits), eloc)
            cx.ob(what + 'own time', count(deep) == 0,
                  'inclusive time of the root is %s' % show(deep), eloc)
            if name == 'tracing':
                v = w.attr(s, w.p, 'overhead')
                cx.ob(what + 'overhead', count(v) == 0,
                      'overhead of the last session: %s' % show(v)[:100],
                      eloc)
                # an entry of the last session is not used.
                t0 = s.fork()
                a0 = w.event(t0, (A, B, C_), 'return')
                for s2, exc in a0:
                    t2 = w.tree(s2)
                    cx.ob(what + 'pending entries', all(
                        count(d) == 0 or v_ for h, d, v_ in t2.values()),
                        'a return is matched with an entry of the last '
                        'session', eloc)
                # once the code is known again, too.
                for s1, e1 in w.event(s.fork(), (('a', 5),), 'call'):
                    if e1 is not None:
                        continue
                    for s2, e2 in w.event(s1, (A,), 'return'):
                        t2 = w.tree(s2)
                        cx.ob(what + 'pending entries of others', all(
                            count(d) == 0 or v_ for h, d, v_ in
                            t2.values()), 'a return is matched with an '
                            'entry of the last session', eloc)
            # the clocks.
            for s2, v, exc in cx.method(I, s.fork(), w.p, 'result'):
                if exc is not None or v is None or v[0] != 't':
                    cx.ob(what + 'clocks', None, 'result() is not known')
                    continue
                for i, old in ((1, 'old cpu'), (2, 'old wall')):
                    cx.ob(what + 'clock %d' % i,
                          not mentions(v[1][i], S(old)),
                          'the %s time counts from the start of the last '
                          'session' % old[4:], eloc)


# -- C09

#: subclasses declare the slots they give defaults to.
SLOTS = "    __slots__ = ('own_hits', 'deep_time', 'code', '_children')"

ENSURE = (('plain', None), ('recording', 'stats.RecordingStatistics'),
          ('placeholder', 'stats.VoidRecordingStatistics'))


@rule('C09', 'for every sequence of up to three requests for the child of a '
      'code, as recording node or as placeholder: there is one child of the '
      'code, it is the one returned, children and hits survive, and what was '
      'requested for recording records')
def one_child(cx):
    I = interp()
    R = cx.cls(I, 'stats.RecordingStatistics')
    V = cx.cls(I, 'stats.VoidRecordingStatistics')
    f, own = I.class_lookup(I.world, R, 'ensure_child')
    if f is None:
        raise Anchor('RecordingStatistics.ensure_child')
    m = I.world.get(f).meta
    loc = (I.modules[m['module']].path, m['node'].lineno)
    kinds = [('plain', NONE), ('recording', R), ('placeholder', V),
             ('subclass', NONE)]
    for parent_cls, pname in ((R, 'recording'), (V, 'placeholder')):
        for n, leaf in ((1, False), (2, False), (3, False), (2, True)):
            for seq in itertools.product(kinds, repeat=n):
                if n == 3 and any(kn == 'subclass' for kn, k in seq[:-1]):
                    continue
                I = interp()
                I.concrete_ok = True
                I.policy = lambda ev, st, fr: []
                st = I.start_state()
                a, b, c = S('code a'), S('code b'), S('code c')
                distinct(I, st, a, b, c)
                for x in (a, b, c):
                    I.assume(st, I.mkcmp('is', x, NONE), False)
                src = ['class Sub(R):', SLOTS, 'root = P(S0)', 'other = root.ensure_child(b, R)',
                       'other.own_hits += 1']
                hits = 0
                isrec = False
                want_hits = []
                for i, (kn, k) in enumerate(seq):
                    if kn == 'subclass':
                        src.append('x%d = root.ensure_child(a, Sub)' % i)
                    elif kn == 'plain' and i % 2 == 0:
                        src.append('x%d = root.ensure_child(a)' % i)
                    else:
                        src.append('x%d = root.ensure_child(a, k%d)' % (
                            i, i))
                    rec = kn in ('recording', 'subclass') or (
                        kn == 'plain' and parent_cls == R)
                    if i == 0 and not leaf:
                        src.append('g = x0.ensure_child(c, R)')
                        src.append('g.own_hits += 1')
                    if rec:
                        src.append('x%d.own_hits += 1' % i)
                        hits += 1
                        isrec = True
                last = 'x%d' % (n - 1)
                src += ['got = root.get_child(a)', 'kids = list(root)',
                        'sub = list(%s)' % last, 'hits = %s.own_hits' % last,
                        'gh = %s' % ('1' if leaf else 'g.own_hits'),
                        'oh = other.own_hits',
                        'n = len(root)',
                        'has = a in root and b in root and c not in root',
                        'void = isinstance(%s, V)' % last,
                        'code = %s.code' % last]
                env = {'P': parent_cls, 'R': R, 'V': V, 'a': a, 'b': b,
                       'c': c, 'S0': NONE}
                for i, (kn, k) in enumerate(seq):
                    env['k%d' % i] = k
                what = '%s parent, requests %s%s' % (pname, ', '.join(
                    kn for kn, k in seq), ' (no children)' if leaf else '')
                for s, v, exc in snippet(cx, I, st, '\n'.join(src), env):
                    if exc is not None:
                        cx.ob(what, None if exc[0] == 'uexc' else False,
                              'raises %s' % show(exc[1]), loc)
                        continue
                    lastv = v[last]
                    kids = [p[1] for p in s.get(v['kids']).parts]
                    sub = [p[1] for p in s.get(v['sub']).parts]
                    cx.ob(what + ': registered', v['got'] == lastv,
                          'the node returned is not the child of its code',
                          loc)
                    cx.ob(what + ': one per code', sorted(kids) == sorted(
                        [lastv, v['other']]), 'the parent has %d children '
                        'for two codes' % len(kids), loc)
                    cx.ob(what + ': code', v['code'] == a,
                          'the node is not for the requested code', loc)
                    cx.ob(what + ': contains', v['has'] == TRUE and
                          v['n'] == C(2), 'the parent denies a child, or '
                          'has one it never got', loc)
                    cx.ob(what + ': keeps children', sub == (
                        [] if leaf else [v['g']]) and
                          v['gh'] == C(1) and v['oh'] == C(1),
                          'children or hits of them are lost', loc)
                    if isrec:
                        cx.ob(what + ': records', v['hits'] == C(hits),
                              'own hits are %s, expected %d' % (
                                  show(v['hits']), hits), loc)
                        cx.ob(what + ': not degraded', v['void'] == FALSE,
                              'a recording node became a placeholder', loc)
                    else:
                        cx.ob(what + ': placeholder', v['hits'] == C(0) and
                              v['void'] == TRUE,
                              'a placeholder was asked for, but the node '
                              'records', loc)


@rule('C09', 'removing and discarding a child touches that child only')
def removing(cx):
    I = interp()
    R = cx.cls(I, 'stats.RecordingStatistics')
    for src, left, raises in (
            ('root.discard_child(a)', 1, False),
            ('root.remove_child(a)', 1, False),
            ('root.discard_child(c)', 2, False),
            ('root.remove_child(c)', 2, True)):
        I = interp()
        I.concrete_ok = True
        st = I.start_state()
        a, b, c = S('code a'), S('code b'), S('code c')
        distinct(I, st, a, b, c)
        I.policy = lambda ev, st, fr: []
        for s, v, exc in snippet(cx, I, st, '''
root = R()
x = root.ensure_child(a)
y = root.ensure_child(b)
for p in (x, y):
    p.ensure_child(a)
    p.ensure_child(c)
try:
    %s
    raised = False
except KeyError:
    raised = True
kids = list(root)
''' % src, {'R': R, 'a': a, 'b': b, 'c': c}):
            if exc is not None:
                cx.ob(src, False, 'raises %s' % show(exc[1]))
                continue
            kids = set(p[1] for p in s.get(v['kids']).parts)
            want = set([v['y']]) if left == 1 else set([v['x'], v['y']])
            cx.ob(src, kids == want and v['raised'] == C(raises),
                  'the wrong children are left, or KeyError is %s' % (
                      'missing' if raises else 'raised'))


#: Operations on a node, for codes a and b.
TREE_OPS = ('ensure', 'placeholder', 'add', 'discard', 'remove', 'clear',
            'exclude')


@rule('C09', 'every sequence of up to four of: asking for a child or its '
      'placeholder, adding, discarding, removing, excluding, clearing: the '
      'node has exactly the children that are left, each found by its code, '
      'counted, listed and iterated once; a child asked for after it was '
      'taken away is a new one')
def children_histories(cx):
    I = interp()
    I.concrete_ok = True
    I.policy = lambda ev, st, fr: []
    R = cx.cls(I, 'stats.RecordingStatistics')
    V = cx.cls(I, 'stats.VoidRecordingStatistics')
    P = cx.cls(I, 'profiler.Profiler')
    loc = func_site(I, 'stats.RecordingStatistics.ensure_child')
    a, b = S('code a'), S('code b')
    st = I.start_state()
    distinct(I, st, a, b)
    for x in (a, b):
        I.assume(st, I.mkcmp('is', x, NONE), False)
        I.assume(st, ('truth', x, 0), True)
    env = {'R': R, 'V': V, 'P': P, 'a': a, 'b': b}
    outs = snippet(cx, I, st, '''
p = P()
root = p.stats
k0 = root.ensure_child(b, R)
k0.own_hits += 5
''', env)
    if len(outs) != 1 or outs[0][2] is not None:
        raise Undecided('the node cannot be made')
    st, vs, __ = outs[0]
    env.update((k, vs[k]) for k in ('p', 'root', 'k0'))
    src = {'ensure': 'x = root.ensure_child(a, R)\nx.own_hits += 1',
           'placeholder': 'x = root.ensure_child(a, V)',
           'add': 'x = R(a)\nroot.add_child(a, x)',
           'discard': 'root.discard_child(a)\nx = None',
           'remove': 'x = None\ntry:\n    root.remove_child(a)\n'
           'except KeyError:\n    x = False',
           'exclude': 'p.exclude_code(a)\nx = None',
           'clear': 'root.clear()\nx = None'}

    def look(s, seq, model):
        what = ', '.join(seq)
        for s2, v, exc in snippet(cx, I, s.fork(), '''
kids, listed = list(root), list(root.children)
n, has_a, has_b = len(root), a in root, b in root
try:
    got = root.get_child(a)
except KeyError:
    got = None
hits = None if got is None else got.own_hits
''', env):
            if exc is not None:
                cx.ob(what, None if exc[0] == 'uexc' else False,
                      'raises %s' % show(exc[1]), loc)
                continue
            want = [x for x in (model.get('a'), model.get('b')) if x]
            for name in ('kids', 'listed'):
                if v[name][0] == 't':
                    parts = list(v[name][1])
                else:
                    o = s2.get(v[name])
                    parts = [q[1] for q in o.parts] if o.parts and all(
                        q[0] == 'one' for q in o.parts) else [] if \
                        not o.parts else None
                ok = None if parts is None else sorted(
                    parts, key=str) == sorted([x for x, h in want], key=str)
                cx.ob('%s: %s' % (what, name), ok, '%s children are there, '
                      'not %d' % ('other' if parts and len(parts) ==
                                  len(want) else len(parts or ()),
                                  len(want)), loc)
            cx.ob(what + ': len', v['n'] == C(len(want)), 'is %s' % show(
                v['n']), loc)
            for c in 'ab':
                cx.ob('%s: %s in' % (what, c), v['has_' + c] ==
                      C(bool(model.get(c))), 'is %s' % show(v['has_' + c]),
                      loc)
            cx.ob(what + ': got', v['got'] == (model['a'][0] if model.get(
                'a') else NONE), 'is another one', loc)
            if model.get('a') and v['got'] == model['a'][0]:
                cx.ob(what + ': hits', lin(v['hits']) == lin(
                    C(model['a'][1])), 'are %s' % show(v['hits']), loc)

    def go(s, seq, model, kind, gone):
        if len(seq) >= (5 if cx.tier == 'thorough' else 3):
            return
        for op in TREE_OPS:
            I.steps = 0
            for s2, v, exc in snippet(cx, I, s.fork(), src[op], env):
                seq2 = seq + (op,)
                what = ', '.join(seq2)
                if exc is not None:
                    cx.ob(what, None if exc[0] == 'uexc' else False,
                          'raises %s' % show(exc[1]), loc)
                    continue
                m, k = dict(model), kind
                x = v['x']
                if op in ('discard', 'exclude'):
                    m['a'], k = None, None
                elif op == 'remove':
                    cx.ob(what + ': removed', x == (
                        NONE if model.get('a') else C(False)),
                        'raises KeyError' if model.get('a') else
                        'raises no KeyError', loc)
                    m['a'], k = None, None
                elif op == 'clear':
                    m, k = {}, None
                elif op == 'add':
                    m['a'], k = (x, 0), 'recording'
                elif op == 'ensure':
                    old = model.get('a')
                    if kind == 'recording':
                        cx.ob(what + ': the same', x == old[0],
                              'is another one', loc)
                        m['a'] = (x, old[1] + 1)
                    else:
                        m['a'] = (x, 1)
                    k = 'recording'
                else:
                    old = model.get('a')
                    if old is not None:
                        cx.ob(what + ': the same', x == old[0],
                              'is another one', loc)
                    m['a'] = (x, old[1] if old else 0)
                    k = kind or 'placeholder'
                g = gone
                if m.get('a') and op in ('ensure', 'placeholder'):
                    cx.ob(what + ': new', m['a'][0] not in gone,
                          'is the one that was taken away', loc)
                if model.get('a') and not m.get('a'):
                    g = gone + (model['a'][0],)
                look(s2, seq2, m)
                go(s2, seq2, m, k, g)
    go(st, (), {'a': None, 'b': (vs['k0'], 5)}, None, ())


@rule('C09', 'two functions of one name, one file or one line: each has a node '
      'of its own, and taking one away leaves the other')
def namesakes(cx):
    I = interp()
    I.concrete_ok = True
    I.policy = lambda ev, st, fr: []
    env = {'R': cx.cls(I, 'stats.RecordingStatistics'),
           'V': cx.cls(I, 'stats.VoidRecordingStatistics'),
           'P': cx.cls(I, 'profiler.Profiler')}
    loc = func_site(I, 'stats.RecordingStatistics.ensure_child')
    full = ('f', '/lib/m.py', 7)
    others = [('the same name', ('f', '/lib/n.py', 9)),
              ('the same file', ('g', '/lib/m.py', 9)),
              ('the same line', ('g', '/lib/n.py', 7)),
              ('the same name and file', ('f', '/lib/m.py', 9)),
              ('the same file and line', ('g', '/lib/m.py', 7)),
              ('the same name, file and line', full)]

    def code(st, names):
        return I.new(st, HObj('open', attrs=dict(zip(
            ('co_name', 'co_filename', 'co_firstlineno'), map(C, names)))))
    for text, names in others + [('both modules', None)]:
        st = I.start_state()
        pair = ('<module>', '/lib/m.py', 1), ('<module>', '/lib/n.py', 1)
        a, b = [code(st, x) for x in (
            (full, names) if names else pair)]
        distinct(I, st, a, b)
        for x in (a, b):
            I.assume(st, I.mkcmp('is', x, NONE), False)
            I.assume(st, ('truth', x, 0), True)
        for cls in ('R', 'V'):
            for op in ('p.exclude_code(a)', 'root.discard_child(a)',
                       'root.remove_child(a)'):
                what = 'two codes of %s, %s' % (text, op)
                for s, v, exc in snippet(cx, I, st.fork(), '''
p = P()
root = p.stats
x = root.ensure_child(a, R)
y = root.ensure_child(b, %s)
same = x is y
before = len(root)
%s
left = list(root)
''' % (cls, op), dict(env, a=a, b=b)):
                    if exc is not None:
                        cx.ob(what, None if exc[0] == 'uexc' else False,
                              'raises %s' % show(exc[1]), loc)
                        continue
                    cx.ob(what + ': two nodes', v['same'] == C(False) and
                          v['before'] == C(2), 'they share a node', loc)
                    o = s.get(v['left'])
                    kids = None if o is None or o.parts is None or any(
                        p[0] != 'one' for p in o.parts) else [
                            p[1] for p in o.parts]
                    cx.ob(what, None if kids is None else kids == [v['y']],
                          'leaves %s' % (kids and len(kids)), loc)
