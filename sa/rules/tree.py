"""Statistics trees: C11 - C16."""
from fractions import Fraction
import itertools

from ..core import *  # noqa
from ..core import Undecided
from ..lin import Lin, facts_lin, lin, nonneg, nonpos
from ..value import Unknown, feasible, value
from .helpers import func_site

CLOCKS = ('time.clock', 'time.time', 'Timer.__call__', 'utils.thread_clock')


# -- shapes

def shapes(n):
    """All ordered trees of n nodes: nested tuples of children."""
    if n == 1:
        return [()]
    return [t for t in forests(n - 1)]


def forests(n):
    if n == 0:
        return [()]
    out = []
    for k in range(1, n + 1):
        for first in shapes(k):
            for rest in forests(n - k):
                out.append((first,) + rest)
    return out


SHAPES = [s for n in (1, 2, 3, 4) for s in shapes(n)] + \
    [((((),),),), (((), ()), ((),)), ((), ((), ((),)), ())]

FIELDS = ('name', 'filename', 'lineno', 'module', 'own_hits', 'deep_time')


def ids(shape, path='n'):
    """[(id, parent id)] in the order of the source which builds it."""
    out = [(path, None)]
    for i, c in enumerate(shape):
        for k, p in ids(c, path + str(i)):
            out.append((k, p or path))
    return out


def show_shape(s):
    return '(%s)' % ''.join(show_shape(c) for c in s)


class Trees(object):
    """Builds trees of statistics on the abstract heap."""

    def __init__(self, cx):
        self.cx = cx
        self.I = I = interp()
        I.concrete_ok = True
        I.policy = lambda ev, st, fr: []

        def getmodule(I, st, args, kw, node, fr):
            # every code has its module.
            m = ('a', args[0], '__module__')
            I.assume(st, ('truth', m, 0), True)
            I.assume(st, I.mkcmp('is', m, NONE), False)
            return [(st, m, None)]
        I.ext_over['inspect.getmodule'] = getmodule
        self.R = cx.cls(I, 'stats.RecordingStatistics')
        self.V = cx.cls(I, 'stats.VoidRecordingStatistics')
        self.F = cx.cls(I, 'stats.FrozenStatistics')
        self.L = cx.cls(I, 'stats.FlatFrozenStatistics')

    def frozen(self, shape, values=None):
        """-> state, {id: ref}; values(id, field) gives the fields."""
        I = self.I
        st = I.start_state()
        src, env = [], {'F': self.F}
        for k, p in ids(shape):
            kw = []
            for f in FIELDS:
                v = S('%s of %s' % (f, k))
                if values is not None:
                    v = values(k, f) or v
                env['%s_%s' % (k, f)] = v
                kw.append('%s=%s_%s' % (f, k, f))
            src.append('%s = F(%s)' % (k, ', '.join(kw)))
        for k, p in ids(shape):
            if p is not None:
                src.append('%s.children.append(%s)' % (p, k))
        return self.built(st, src, env, shape)

    def recording(self, shape, void=()):
        """Recording statistics; ids in void are placeholders."""
        I = self.I
        st = I.start_state()
        src, env = [], {'R': self.R, 'V': self.V}
        codes = []
        for k, p in ids(shape):
            code = S('code ' + k)
            codes.append(code)
            env['c_' + k] = code
            env['h_' + k] = S('own_hits of ' + k)
            env['t_' + k] = S('deep_time of ' + k)
            I.assume(st, I.mkcmp('is', code, NONE), False)
            I.assume(st, ('truth', code, 0), True)
            I.assume(st, I.mkcmp('==', ('a', code, 'co_name'),
                                 C('<module>')), False)
            if k in void:
                src.append('%s = V(c_%s)' % (k, k))
            else:
                src.append('%s = R(c_%s)' % (k, k))
                src.append('%s.own_hits = h_%s' % (k, k))
                src.append('%s.deep_time = t_%s' % (k, k))
            if p is not None:
                src.append('%s.add_child(c_%s, %s)' % (p, k, k))
        distinct(I, st, *codes)
        return self.built(st, src, env, shape)

    def built(self, st, src, env, shape):
        outs = snippet(self.cx, self.I, st, '\n'.join(src), env)
        good = [(s, v) for s, v, exc in outs if exc is None]
        if len(good) != 1:
            raise Undecided('the tree %s cannot be built: %s' % (
                show_shape(shape), [e for s, v, e in outs][:2]))
        s, v = good[0]
        return s, dict((k, v[k]) for k, p in ids(shape))

    def get(self, st, v, name):
        """[(state, value)] of an attribute."""
        out = []
        for s, val, exc in self.I.ga(st.fork(), v, name, None, top()):
            if exc is not None:
                raise Undecided('%s raises %s' % (name, show(exc[1])))
            out.append((s, val))
        return out

    def one(self, st, v, name):
        outs = self.get(st, v, name)
        vals = set(norm(s, x) for s, x in outs)
        if len(vals) != 1:
            raise Undecided('several values of ' + name)
        return outs[0][1]

    def kids(self, st, v):
        outs = snippet(self.cx, self.I, st.fork(), 'kids = list(node)',
                       {'node': v})
        if len(outs) != 1 or outs[0][2] is not None:
            raise Undecided('children cannot be listed')
        s, vs, __ = outs[0]
        o = s.get(vs['kids'])
        if o.parts is None or any(p[0] != 'one' for p in o.parts):
            raise Undecided('children cannot be listed')
        return [p[1] for p in o.parts]


def norm(st, v):
    """A number term in a form that does not depend on how it was written."""
    return norm_lin(lin(v))


def norm_lin(f):
    out = {}
    for a, c in f.t.items():
        if a[0] == 'call' and a[1] in ('builtins.max', 'builtins.min') and \
                len(a[3]) >= 2 and not a[4]:
            a = (a[1], frozenset(norm(None, x) for x in a[3]))
        elif a[0] == 'call' and a[1] == 'builtins.float' and len(a[3]) == 1:
            pass
        elif a[0] == 'op' and len(a) == 4:
            a = ('op', a[1], norm(None, a[2]), norm(None, a[3]))
        out[a] = out.get(a, 0) + c
    return (frozenset((a, c) for a, c in out.items() if c), f.k)


def max0(form):
    """The normal form of max(0, form)."""
    atom = ('builtins.max', frozenset([(frozenset(), 0),
                                       norm_lin(form)]))
    return (frozenset([(atom, 1)]), 0)


def vals_lin(vals):
    out = Lin()
    for v in vals:
        out = out + lin(v)
    return out


def primitive(v, allowed):
    """Whether a term is made of known inputs only: then it is understood."""
    for x in walk(v):
        if isinstance(x, tuple) and x and x[0] in ('call', 'a', 'i', 'phi',
                                                   'elem', 'sum', 'fld') \
                and x not in allowed:
            if x[0] == 'call' and x[1] in ('builtins.max', 'builtins.min',
                                           'builtins.float', 'builtins.abs',
                                           'builtins.int', 'builtins.sum'):
                continue
            return False
    return True


# -- C12

def same_tree(cx, tr, s, a, b, what, loc, path='root'):
    """The tree b has what the tree a has."""
    for f in FIELDS:
        va, vb = tr.get(s, a, f), None
        try:
            vb = tr.get(s, b, f)
        except Undecided:
            cx.ob('%s: %s of %s' % (what, f, path), False,
                  'the thawed node has no %s' % f, loc)
            continue
        xa = set(norm_any(s2, x) for s2, x in va)
        xb = set(norm_any(s2, x) for s2, x in vb)
        cx.ob('%s: %s of %s' % (what, f, path), xa == xb,
              '%s became %s' % (show(va[0][1])[:80], show(vb[0][1])[:80]),
              loc)
    ka, kb = tr.kids(s, a), tr.kids(s, b)
    cx.ob('%s: children of %s' % (what, path), len(ka) == len(kb),
          '%d children became %d' % (len(ka), len(kb)), loc)
    if len(ka) != len(kb):
        return
    # children are told apart by their name.
    def key(v):
        return sorted(repr(norm_any(s2, x)) for f in ('name', 'filename')
                      for s2, x in tr.get(s, v, f))
    for i, (x, y) in enumerate(zip(sorted(ka, key=key),
                                   sorted(kb, key=key))):
        same_tree(cx, tr, s, x, y, what, loc, '%s.%d' % (path, i))


def norm_any(st, v):
    if v[0] in ('c', 'op', 'sum') or (v[0] == 'call' and v[1] in (
            'builtins.max', 'builtins.sum')):
        if v[0] != 'c' or isinstance(v[2], (int, float)):
            return norm(st, v)
    return v


@rule('C12', 'for every ordered tree of up to four nodes (and some of up to '
      'seven), recording, with placeholders, or frozen already: what '
      '__reduce__ gives, called, is a tree with the same nodes')
def freeze_thaw(cx):
    tr0 = Trees(cx)
    loc = func_site(tr0.I, 'stats.make_frozen_stats_tree') or \
        func_site(tr0.I, 'stats.Statistics.__reduce__')
    for shape in SHAPES:
        for kind in ('frozen', 'recording', 'placeholders'):
            tr = Trees(cx)
            if kind == 'frozen':
                st, n = tr.frozen(shape)
            else:
                if kind == 'placeholders' and (shape == () or
                                               len(ids(shape)) > 5):
                    continue
                inner = [k for k, p in ids(shape)
                         if any(q == k for __, q in ids(shape)) and k != 'n']
                st, n = tr.recording(
                    shape, void=inner if kind == 'placeholders' else ())
            what = '%s %s' % (kind, show_shape(shape))
            thawed(cx, tr, st, n['n'], what, loc)


def thawed(cx, tr, st, root, what, loc):
    outs = snippet(cx, tr.I, st.fork(), '''
r = root.__reduce__()
new = r[0](*r[1])
args = r[1]
''', {'root': root})
    for s, v, exc in outs:
        if exc is not None:
            cx.ob(what, None if exc[0] == 'uexc' else False,
                  'raises %s' % show(exc[1]), loc)
            continue
        new = v['new']
        o = s.get(new)
        if o is None or o.kind != 'inst':
            cx.ob(what, None, 'thaws to %s' % show(new)[:100], loc)
            continue
        cx.ob(what + ': type', tr.I.is_subclass(s, o.cls, tr.F) is True,
              'thaws to a %s' % tr.I.name_of(o.cls), loc)
        same_tree(cx, tr, s, root, new, what, loc)
        # nothing which cannot be pickled may be in it.
        bad = unpicklable(s, v['args'])
        cx.ob(what + ': can be pickled', not bad,
              'the frozen form contains %s' % bad, loc)


def unpicklable(s, v, seen=None):
    seen = seen if seen is not None else set()
    if v in seen:
        return None
    seen.add(v)
    if v[0] == 's' and v[1].startswith('code '):
        return v[1]
    if v[0] == 't':
        for x in v[1]:
            r = unpicklable(s, x, seen)
            if r:
                return r
    o = s.get(v) if v[0] == 'r' else None
    if o is not None:
        if o.kind == 'gen':
            return 'a generator'
        for p in o.parts or ():
            r = unpicklable(s, p[1], seen)
            if r:
                return r
        for k, x in (o.known or {}).items():
            for y in (k, x):
                if y is not ABSENT:
                    r = unpicklable(s, y, seen)
                    if r:
                        return r
    return None


# -- C13

def nesting(s, v, seen=()):
    """How deep containers and instances are nested in a value."""
    if v in seen or len(seen) > 60:
        return 0
    best = 0
    if v[0] == 't':
        for x in v[1]:
            best = max(best, nesting(s, x, seen + (v,)))
        return best + 1
    o = s.get(v) if v[0] == 'r' else None
    if o is None or o.kind in ('class', 'func', 'module'):
        return 0
    for p in o.parts or ():
        if p[0] == 'one':
            best = max(best, nesting(s, p[1], seen + (v,)))
    for k, x in (o.known or {}).items():
        for y in (k, x):
            if y is not ABSENT:
                best = max(best, nesting(s, y, seen + (v,)))
    if o.kind == 'inst':
        for x in o.attrs.values():
            best = max(best, nesting(s, x, seen + (v,)))
    return best + 1


DEPTH_OPS = (
    ('deep_hits', 'x = root.deep_hits'),
    ('own_time', 'x = root.own_time'),
    ('deep_time', 'x = root.deep_time'),
    ('freeze', 'x = root.__reduce__()'),
    ('thaw', 'r = root.__reduce__()\nx = r[0](*r[1])'),
    ('flatten', 'x = L.flatten(root)'),
    ('walk descendants', 'x = list(spread_stats(root))'),
    ('clear', 'x = root.clear()'),
    ('result', None),
)


@rule('C13', 'on chains of depth 3, 7 and 11 of recording nodes, of frozen '
      'nodes and of placeholders, each operation needs the same call depth, '
      'and the frozen form is not nested deeper')
def constant_stack(cx):
    I0 = interp()
    spread = cx.modvar(I0, 'profiling.stats', 'spread_stats') \
        if 'spread_stats' in I0.world.get(
            I0.modrefs['profiling.stats']).attrs else None
    for kind in ('recording', 'frozen', 'placeholders'):
        for op, src in DEPTH_OPS:
            if src is None or (op == 'clear' and kind == 'frozen'):
                continue
            if op == 'walk descendants' and spread is None:
                continue
            if op == 'deep_time' and kind != 'placeholders':
                continue
            used, depth = [], []
            fail = None
            for n in (3, 7, 11):
                tr = Trees(cx)
                shape = ()
                for i in range(n):
                    shape = (shape,)
                try:
                    if kind == 'frozen':
                        st, nodes = tr.frozen(shape)
                    else:
                        every = [k for k, p in ids(shape)]
                        st, nodes = tr.recording(
                            shape, void=every[:-1] if kind == 'placeholders'
                            else ())
                    tr.I.summaries = True
                    tr.I.maxstack = 0
                    tr.I.steps = 0
                    outs = snippet(cx, tr.I, st, src, {
                        'root': nodes['n'], 'L': tr.L,
                        'spread_stats': spread or NONE})
                except Undecided as e:
                    fail = str(e)
                    break
                used.append(tr.I.maxstack)
                for s, v, exc in outs:
                    if exc is not None:
                        fail = 'raises %s' % show(exc[1])
                    elif op == 'freeze':
                        depth.append(nesting(s, v['x']))
            what = '%s of %s' % (op, kind)
            loc = func_site(tr.I, {
                'freeze': 'stats.make_frozen_stats_tree',
                'thaw': 'stats.frozen_stats_from_tree',
                'flatten': 'stats.FlatFrozenStatistics.flatten'}.get(
                    op, 'stats.spread_stats'))
            if fail and len(set(used)) < 2:
                cx.ob(what, None, fail, loc)
                continue
            cx.ob(what, len(set(used)) == 1, 'for depth 3, 7 and 11 the '
                  'call depth is %s' % ', '.join(map(str, used)), loc)
            if depth:
                cx.ob(what + ': nesting', len(set(depth)) == 1,
                      'the frozen form is nested %s deep' % ', '.join(
                          map(str, sorted(set(depth)))), loc)


# -- C14

@rule('C14', 'for every tree of up to four nodes and every way its nodes '
      'agree in all of, or all but one of, name, file, line and module: one '
      'flat node per identity with the sums of each metric, and a root with '
      'its own identity and totals')
def flat(cx):
    tr0 = Trees(cx)
    loc = func_site(tr0.I, 'stats.FlatFrozenStatistics.flatten')
    if loc is None:
        raise Anchor('FlatFrozenStatistics.flatten')
    metrics = ('own_hits', 'deep_hits', 'own_time', 'deep_time')
    key = ('name', 'filename', 'lineno', 'module')
    for shape in SHAPES:
        nodes = [k for k, p in ids(shape)]
        if len(nodes) > 5:
            continue
        for groups in partitions(nodes[1:]):
            for odd in (None,) + key + ('root',):
                if odd in key and len(groups) == len(nodes) - 1:
                    continue
                if odd == 'root' and (len(nodes) > 4 or not groups):
                    continue
                tr = Trees(cx)
                # nodes of a group agree; with odd, in all but one field.
                gid = {}
                for i, g in enumerate(groups):
                    for k in g:
                        gid[k] = i
                if odd == 'root':
                    # the root agrees with those of the first group.
                    gid[nodes[0]] = 0

                def values(k, f):
                    if f in key and k in gid and f != odd:
                        return S('%s of group %d' % (f, gid[k]))
                    return None
                st, n = tr.frozen(shape, values)
                terms = [('%s of group %d' % (f, i)) for f in key
                         for i in range(len(groups))]
                for f in key:
                    vals = sorted(set(tr_value(values, k, f)
                                      for k in nodes))
                    distinct(tr.I, st, *vals)
                want = {}
                for k in nodes[1:]:
                    ident = tuple(tr_value(values, k, f) for f in key)
                    want.setdefault(ident, []).append(k)
                what = '%s, %s%s' % (show_shape(shape), '|'.join(
                    ','.join(g) for g in groups) or 'no descendants',
                    ', different %s' % odd if odd in key else
                    ', like the root' if odd else '')
                outs = snippet(cx, tr.I, st.fork(), 'x = L.flatten(root)',
                               {'root': n['n'], 'L': tr.L})
                for s, v, exc in outs:
                    if exc is not None:
                        cx.ob(what, None if exc[0] == 'uexc' else False,
                              'raises %s' % show(exc[1]), loc)
                        continue
                    x = v['x']
                    for f in key + metrics:
                        a, b = tr.one(s, n['n'], f), tr.one(s, x, f)
                        cx.ob(what + ': root ' + f, norm_any(s, a) ==
                              norm_any(s, b), '%s of the root is %s' % (
                                  f, show(b)[:100]), loc)
                    got = {}
                    twice = False
                    for c in tr.kids(s, x):
                        ident = tuple(tr.one(s, c, f) for f in key)
                        twice = twice or ident in got
                        got[ident] = c
                    cx.ob(what + ': nodes', set(got) == set(want) and
                          not twice, 'flat nodes %s, expected %s' % (
                              fmt_idents(got), fmt_idents(want)), loc)
                    if set(got) != set(want):
                        continue
                    for ident, ks in want.items():
                        for f in metrics:
                            total = vals_lin(tr.one(s, n[k], f) for k in ks)
                            val = tr.one(s, got[ident], f)
                            cx.ob(what + ': ' + f, norm(s, val) ==
                                  norm_lin(total), '%s of %s is %s, '
                                  'expected %s' % (
                                      f, show(ident[0]), show(val)[:120],
                                      total.show()[:120]), loc)


def fmt_idents(d):
    return [tuple(show(x) for x in k) for k in sorted(d, key=repr)]


def tr_value(values, k, f):
    return values(k, f) or S('%s of %s' % (f, k))


def partitions(items):
    if not items:
        return [[]]
    out = []
    first, rest = items[0], items[1:]
    for p in partitions(rest):
        out.append([[first]] + p)
        for i in range(len(p)):
            out.append(p[:i] + [[first] + p[i]] + p[i + 1:])
    return out


# -- C15

def descendants(shape, k):
    return [x for x, p in ids(shape) if x != k and x.startswith(k)]


def children_of(shape, k):
    return [x for x, p in ids(shape) if p == k]


@rule('C15', 'for every tree of up to four nodes: inclusive hits, own time, '
      'the time of placeholders and the per-call values are what they are '
      'defined to be, without an error where the count is zero')
def derived(cx):
    tr0 = Trees(cx)
    I = tr0.I
    loc = func_site(I, 'stats.Statistics.deep_hits')
    for shape in SHAPES:
        nodes = [k for k, p in ids(shape)]
        for kind in ('frozen', 'recording', 'placeholders'):
            inner = [k for k in nodes if children_of(shape, k)]
            combos = [()]
            if kind == 'placeholders':
                if len(nodes) > 5:
                    continue
                combos = [c for r in range(1, len(nodes) + 1)
                          for c in itertools.combinations(nodes, r)]
            for void in combos:
                tr = Trees(cx)
                if kind == 'frozen':
                    st, n = tr.frozen(shape)
                else:
                    st, n = tr.recording(shape, void=void)
                what = '%s %s%s' % (kind, show_shape(shape), ' placeholders '
                                    + ','.join(void) if void else '')

                def hits(k):
                    return Lin() if k in void else \
                        lin(S('own_hits of ' + k))

                def time(k):
                    if k not in void:
                        return lin(S('deep_time of ' + k))
                    out = Lin()
                    for c in children_of(shape, k):
                        out = out + time(c)
                    return out
                for k in nodes:
                    want = hits(k)
                    for d in descendants(shape, k):
                        want = want + hits(d)
                    compare(cx, tr, st, n[k], 'deep_hits', norm_lin(want),
                            what, loc)
                    compare(cx, tr, st, n[k], 'deep_time',
                            norm_lin(time(k)), what,
                            func_site(I, 'stats.VoidRecordingStatistics.'
                                      'deep_time'))
                    sub = Lin()
                    for c in children_of(shape, k):
                        sub = sub + time(c)
                    own = time(k) - sub
                    compare(cx, tr, st, n[k], 'own_time',
                            max0(own) if own.t else norm_lin(Lin()), what,
                            func_site(I, 'stats.Statistics.own_time'),
                            alt=own)


EQUAL = (
    # own hits, inclusive time of nodes by depth
    ((2, 2, 2, 2), (1.0, 1.0, 1.0, 1.0)),
    ((1, 0, 1, 0), (8.0, 2.0, 0.5, 0.0)),
    ((3, 3, 1, 1), (0.0, 0.0, 0.0, 0.0)),
    ((0, 1, 1, 1), (1.0, 2.0, 4.0, 8.0)),
)


@rule('C15', 'for every tree of up to four nodes with equal, zero and '
      'decreasing numbers: the same metrics, as numbers')
def derived_numbers(cx):
    loc = None
    for shape in SHAPES:
        nodes = [k for k, p in ids(shape)]
        depth = {}
        for k, p in ids(shape):
            depth[k] = 0 if p is None else depth[p] + 1
        if max(depth.values()) > 3:
            continue
        for hits, times in EQUAL:
            tr = Trees(cx)
            loc = loc or func_site(tr.I, 'stats.Statistics.deep_hits')

            def values(k, f):
                if f == 'own_hits':
                    return C(hits[depth[k]])
                if f == 'deep_time':
                    return C(times[depth[k]])
            st, n = tr.frozen(shape, values)
            what = '%s with hits %s, times %s' % (show_shape(shape), hits,
                                                  times)
            for k in nodes:
                h = hits[depth[k]]
                t = times[depth[k]]
                deep = h + sum(hits[depth[d]] for d in descendants(shape, k))
                own = max(0, t - sum(times[depth[c]]
                                     for c in children_of(shape, k)))
                for attr, want in (('deep_hits', deep), ('own_time', own),
                                   ('own_time_per_call',
                                    own / h if h else 0),
                                   ('deep_time_per_call',
                                    t / h if h else 0)):
                    name = '%s: %s' % (what, attr)
                    for s, v, exc in tr.I.ga(st.fork(), n[k], attr, None,
                                             top()):
                        if exc is not None:
                            cx.ob(name, None if exc[0] == 'uexc' else False,
                                  'raises %s' % show(exc[1]), loc)
                            continue
                        try:
                            x = value(v, {})
                        except Unknown as e:
                            cx.ob(name, None, 'is %s' % show(v)[:100], loc)
                            continue
                        cx.ob(name, abs(x - want) < 1e-12, 'is %s, not %s' % (
                            x, want), loc)


@rule('C15', 'the CPU usage shown for a result which took no time is zero')
def usage(cx):
    from .view import Views, deep, percents
    for wall in (C(0), C(0.0)):
        for cpu in (C(0.0), C(0.5)):
            w = Views(cx)
            loc = func_site(w.I, 'viewer.StatisticsTable.update_frame')
            what = 'CPU time %s in no time' % cpu[2]
            for s, v, exc in w.run(w.st, '''
v = StatisticsViewer()
v.set_result(F(), cpu, wall)
h = head_of(v.widget)
''', cpu=cpu, wall=wall):
                if exc is not None:
                    cx.ob(what, None if exc[0] == 'uexc' else False,
                          'raises %s' % show(exc[1]), loc)
                    continue
                for x in percents(deep(s, v['h'])):
                    cx.ob(what, x[2] == 0 if is_c(x) else None,
                          'the usage shown is %s' % show(x)[:80], loc)


def compare(cx, tr, st, node, attr, want, what, loc, alt=None):
    name = '%s: %s' % (what, attr)
    outs = tr.I.ga(st.fork(), node, attr, None, top())
    for s, v, exc in outs:
        if exc is not None:
            cx.ob(name, None if exc[0] == 'uexc' else False,
                  'raises %s' % show(exc[1]), loc)
            continue
        got = norm(s, v)
        ok = got == want
        if not ok and alt is not None:
            # decided by a comparison instead of max().
            f = lin(v)
            if f == alt and nonneg(s, alt):
                ok = True
            elif not f.t and not f.k and nonpos(s, alt):
                ok = True
            elif not alt.t and got == max0(alt):
                ok = True
            elif got == norm_lin(Lin()) and not alt.t:
                ok = True
        cx.ob(name, ok if ok or primitive(v, ()) else None,
              'is %s' % show(v)[:150], loc)


@rule('C15', 'per-call values divide by the call count and are zero without '
      'calls')
def per_call(cx):
    tr0 = Trees(cx)
    for attr, num in (('own_time_per_call', 'own_time'),
                      ('deep_time_per_call', 'deep_time')):
        tr = Trees(cx)
        loc = func_site(tr.I, 'stats.Statistics.' + attr)
        st, n = tr.frozen(((),))
        node = n['n']
        top_ = tr.one(st, node, num)
        hits = S('own_hits of n')
        seen = set()
        for s, v, exc in tr.I.ga(st.fork(), node, attr, None, top()):
            if exc is not None:
                cx.ob(attr, None if exc[0] == 'uexc' else False,
                      'raises %s' % show(exc[1]), loc)
                continue
            zero = tr.I.decide(s, I_eq0(tr.I, hits))
            if zero is None:
                t = s.facts.get(('truth', hits, 0))
                zero = None if t is None else not t
            if is_c(v):
                cx.ob(attr + ' without calls', v[2] == 0 and zero is True,
                      'is %s where there %s' % (
                          v[2], 'are no calls' if zero else 'are calls'),
                      loc)
                seen.add('zero')
            else:
                want = norm(s, ('op', '/', top_, hits))
                got = norm(s, v)
                want2 = norm(s, ('op', '/', top_, ('call', 'builtins.float',
                                                   None, (hits,), (), 0)))
                cx.ob(attr + ' with calls', got in (want, want2),
                      'is %s' % show(v)[:150], loc)
                cx.ob(attr + ': no division by zero', zero is False,
                      'divides by a count that may be zero', loc)
                seen.add('ratio')
        # counts known to be zero.
        tr = Trees(cx)
        st, n = tr.frozen((), lambda k, f: C(0) if f == 'own_hits' else None)
        for s, v, exc in tr.I.ga(st.fork(), n['n'], attr, None, top()):
            cx.ob(attr + ' of no calls', exc is None and is_c(v) and
                  v[2] == 0, 'is %s' % (show(v) if v else
                                        'an error: ' + show(exc[1])), loc)


def I_eq0(I, v):
    return I.mkcmp('==', v, C(0))


@rule('C15', 'ratios shown as percentages are zero when the total is zero')
def percentages(cx):
    I = interp()
    I.policy = lambda ev, st, fr: []
    mod = I.world.get(I.modrefs['profiling.viewer']).attrs
    fmt = mod.get('fmt')
    if fmt is None:
        raise Anchor('viewer.fmt')
    for fn, zero in (('format_percent', '0.00'), ('attr_ratio', 'zero')):
        loc = func_site(I, 'viewer.Formatter.' + fn)
        for ratio in (C(0), C(5), C(2.5), S('ratio')):
            st = I.start_state()
            for s, f, exc in I.ga(st, fmt, fn, None, top()):
                if exc is not None:
                    raise Anchor('fmt.' + fn)
                for s2, v, exc in cx.call(I, s, f, [ratio, C(0)]):
                    what = '%s(%s, 0)' % (fn, show(ratio))
                    if exc is not None:
                        cx.ob(what, None if exc[0] == 'uexc' else False,
                              'raises %s' % show(exc[1]), loc)
                        continue
                    cx.ob(what, v == C(zero) if is_c(v) else None,
                          'is %s' % show(v)[:100], loc)


# -- C11

def sign_ok(st, v, depth=0):
    """True: never negative; False: may be negative; None: not known."""
    if is_c(v):
        return v[2] >= 0 if isinstance(v[2], (int, float)) else None
    if v[0] == 'call' and v[1] == 'builtins.abs':
        return True
    if v[0] == 'call' and v[1] == 'builtins.max' and len(v[3]) > 1:
        rs = [sign_ok(st, a) for a in v[3]]
        return True if True in rs else (None if None in rs else False)
    if v[0] == 'call' and v[1] == 'builtins.min' and len(v[3]) > 1:
        rs = [sign_ok(st, a) for a in v[3]]
        return True if all(r is True for r in rs) else \
            (False if False in rs else None)
    if v[0] == 'call' and v[1] in ('builtins.float', 'builtins.round') and \
            v[3]:
        return sign_ok(st, v[3][0])
    if nonneg(st, lin(v)):
        return True
    if v[0] == 'op' and len(v) == 4 and v[1] in ('+', '*', '/'):
        a, b = sign_ok(st, v[2]), sign_ok(st, v[3])
        if a is True and b is True:
            return True
    if v[0] == 'op' and len(v) == 4 and v[1] in ('-', '+'):
        f = lin(v)
        if any(c < 0 for c in f.t.values()):
            return False
    if v[0] == 'op' and len(v) == 3 and v[1] == 'neg':
        return False
    return None


@rule('C11', 'the CPU and wall times of a result are protected against '
      'negative differences on every path, and zero without a start')
def result_times(cx):
    from .record import sampling_world, tracing_world
    for name, world in (('tracing', tracing_world),
                        ('sampling', sampling_world)):
        w = world(cx)
        I = w.I
        f, own = I.class_lookup(I.world, w.cref, 'result')
        m = I.world.get(f).meta
        loc = (I.modules[m['module']].path, m['node'].lineno)
        # never started.
        for over in (C(0.0), S('overhead')):
            st = w.st.fork()
            if name == 'tracing' and over != C(0.0):
                st.mut(w.p).attrs['overhead'] = over
            for s, v, exc in cx.method(I, st, w.p, 'result'):
                what = '%s, never started' % name
                if exc is not None or v[0] != 't':
                    cx.ob(what, None if exc is None or exc[0] == 'uexc'
                          else False, 'result() is %s' % (
                              show(v) if v else show(exc[1])), loc)
                    continue
                for i, which in ((1, 'CPU'), (2, 'wall')):
                    x = v[1][i]
                    if over == C(0.0):
                        cx.ob('%s: %s time' % (what, which),
                              is_zero(x), 'is %s' % show(x), loc)
        started = dict((a, S(a)) for a in ())
        st = w.st.fork()
        # as start() leaves it, whatever overhead was measured since.
        from .record import start_snapshots
        snaps, through, ends = start_snapshots(cx, w, st, w.p)
        if not through:
            raise Undecided('start of ' + name)
        for s0, ev in through[:1]:
            s0 = s0.fork()
            if name == 'tracing':
                s0.mut(w.p).attrs['overhead'] = S('overhead')
            for s, v, exc in cx.method(I, s0, w.p, 'result'):
                if exc is not None or v[0] != 't' or len(v[1]) != 3:
                    cx.ob(name + ', started', None, 'result() is not known')
                    continue
                for i, which in ((1, 'CPU'), (2, 'wall')):
                    x = v[1][i]
                    cx.ob('%s: %s time' % (name, which), sign_ok(s, x),
                          '%s may be negative' % show(x)[:160], loc)


def is_zero(v):
    if is_c(v):
        return v[2] == 0
    if v[0] == 'call' and v[1] in ('builtins.max', 'builtins.float',
                                   'builtins.min'):
        return all(is_zero(a) for a in v[3])
    f = lin(v)
    return not f.t and not f.k


@rule('C11', 'own times are protected against negative differences for '
      'recording, frozen and flat nodes')
def own_times(cx):
    for shape in [(), ((),), ((), ())]:
        for kind in ('frozen', 'recording'):
            tr = Trees(cx)
            loc = func_site(tr.I, 'stats.Statistics.own_time')
            st, n = tr.frozen(shape) if kind == 'frozen' else \
                tr.recording(shape)
            # inclusive times are not negative.
            for k in n:
                tr.I.assume(st, ('cmp', '<', S('deep_time of ' + k), C(0)),
                            False)
            for s, v, exc in tr.I.ga(st.fork(), n['n'], 'own_time', None,
                                     top()):
                what = 'own time, %s with %d children' % (kind, len(shape))
                if exc is not None:
                    cx.ob(what, None if exc[0] == 'uexc' else False,
                          'raises %s' % show(exc[1]), loc)
                    continue
                cx.ob(what, sign_ok(s, v), '%s may be negative' % show(v),
                      loc)


# -- C16

METRIC_KEYS = {
    'by_deep_hits': 'deep_hits', 'by_own_hits': 'own_hits',
    'by_deep_time': 'deep_time', 'by_own_time': 'own_time',
    'by_deep_time_per_call': 'deep_time_per_call',
    'by_own_time_per_call': 'own_time_per_call'}
#: what may stand in for a per-call value of a node without calls.
INSTEAD = {'deep_time_per_call': 'deep_time', 'own_time_per_call':
           'own_time'}
NAME_KEYS = {'by_name': ('name',), 'by_module': ('module',),
             'by_function': ('module', 'name')}


def key_parts(v):
    return list(v[1]) if v[0] == 't' else [v]


@rule('C16', 'every sort key: numbers are negated metrics of the name the '
      'key has, names are never None, and all keys of one order have the '
      'same shape')
def sort_keys(cx):
    I = interp()
    I.policy = lambda ev, st, fr: []
    mod = I.world.get(I.modrefs['profiling.sortkeys']).attrs
    stat = S('stat')
    for name in sorted(set(METRIC_KEYS) | set(NAME_KEYS)):
        if name not in mod:
            raise Anchor('sortkeys.' + name)
    exported = [k for k in mod if k.startswith('by_')]
    for name in sorted(exported):
        st = I.start_state()
        I.steps = 0
        for m in METRIC_KEYS.values():
            pass
        loc = ('profiling/sortkeys.py', 0)
        for n, line in assigned_lines(I, 'profiling.sortkeys'):
            if n == name:
                loc = ('profiling/sortkeys.py', line)
        outs = cx.call(I, st, mod[name], [stat])
        kinds, odd = {}, None
        for s, v, exc in outs:
            if exc is not None:
                cx.ob(name, None if exc[0] == 'uexc' else False,
                      'raises %s' % show(exc[1]), loc)
                continue
            parts = key_parts(v)
            shape = []
            for i, p in enumerate(parts):
                shape.append(kind_of(s, p, stat))
            for i, k in enumerate(shape):
                cx.ob('%s: comparable' % name, None if k is None else
                      k != 'none', 'part %d, %s, may be None and cannot be '
                      'compared' % (i + 1, show(parts[i])), loc)
            kinds.setdefault(tuple(shape), parts)
            if name in METRIC_KEYS:
                metric = METRIC_KEYS[name]
                odd = check_metric(cx, I, s, name, metric, parts[0], stat,
                                   loc) or odd
            elif name in NAME_KEYS:
                for i, field in enumerate(NAME_KEYS[name]):
                    if i >= len(parts):
                        cx.ob(name + ': part %d' % (i + 1), False,
                              'the %s is not compared' % field, loc)
                        continue
                    p = parts[i]
                    a = ('a', stat, field)
                    truth = s.facts.get(('truth', a, 0))
                    isnone = s.facts.get(('cmp', 'is', a, NONE))
                    if is_c(p):
                        cx.ob('%s: by %s' % (name, field),
                              p[2] == '' and (truth is False or
                                              isnone is True),
                              'compares %s instead of the %s' % (
                                  show(p), field), loc)
                    else:
                        ok = p == a or (p[0] == 'call' and p[1] in (
                            '.lower', '.upper') and p[2] == a) or (
                                p[0] == 'call' and p[1] == 'builtins.str'
                                and p[3] == (a,))
                        cx.ob('%s: by %s' % (name, field), ok,
                              'compares %s' % show(p), loc)
        if odd is not None:
            witness_order(cx, name, odd[0], metric, [
                (s.facts, v) for s, v, exc in outs if exc is None], stat, loc)
        shapes_ = set(tuple(x for x in k) for k in kinds)
        if not any(None in k for k in shapes_):
            cx.ob('%s: one shape' % name, len(shapes_) == 1,
                  'keys of different shapes are compared: %s' % sorted(
                      map(str, shapes_)), loc)
    # a key applied through sorted().
    tr = Trees(cx)
    st, n = tr.frozen(((), ()))
    for s, v, exc in cx.method(tr.I, st, n['n'], 'sorted',
                               [S('key')]):
        used = [e for e in s.events() if e.k == 'call' and
                'sort' in str(e.fn)]
        if exc is None and v is not None and v[0] == 'call' and \
                v[1] == 'builtins.sorted':
            kw = dict(v[4])
            cx.ob('sorted() uses the order', kw.get('key') == S('key') and
                  kw.get('reverse', FALSE) == FALSE,
                  'sorts with %s' % show(v)[:100])


def assigned_lines(I, modname):
    import ast
    for n in ast.walk(I.modules[modname].tree):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    yield t.id, n.lineno
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            yield n.name, n.lineno


def kind_of(s, v, stat):
    """'number', 'text', 'none' or None when not known."""
    if is_c(v):
        if v[2] is None:
            return 'none'
        return 'text' if isinstance(v[2], str) else 'number' \
            if isinstance(v[2], (int, float)) else None
    f = lin(v)
    if f.t and all(a[0] == 'a' and a[1] == stat and a[2] not in (
            'name', 'module', 'filename') for a in f.t):
        return 'number'
    if v[0] == 'a' and v[1] == stat and v[2] in ('name', 'module',
                                                 'filename'):
        if s.facts.get(('truth', v, 0)) or s.facts.get(
                ('cmp', 'is', v, NONE)) is False:
            return 'text'
        return 'none'
    if v[0] == 'call' and v[1] in ('builtins.str', '.format', '.join',
                                   '.lower', '.upper', '.%'):
        if v[1] in ('.lower', '.upper'):
            return kind_of(s, v[2], stat)
        return 'text'
    if v[0] == 'op':
        return 'number'
    return None


def check_metric(cx, I, s, name, metric, p, stat, loc):
    a = ('a', stat, metric)
    f = lin(p)
    if f == lin(a).scale(-1):
        cx.ob('%s: by %s' % (name, metric), True, '', loc)
        return
    what = '%s: by %s' % (name, metric)
    if metric in INSTEAD and f == lin(('a', stat, INSTEAD[metric])).scale(
            -1):
        # only where there are no calls.
        zero = any(s.facts.get(('truth', ('a', stat, h), 0)) is False or
                   s.facts.get(('cmp', '==', ('a', stat, h), C(0))) is True
                   for h in ('own_hits', 'deep_hits'))
        cx.ob(what, zero, 'sorts by %s although there are calls' %
              INSTEAD[metric], loc)
        return
    if len(f.t) == 1 and not f.k:
        (atom, c), = f.t.items()
        if atom == a and c > 0:
            cx.ob(what, False, 'puts the smallest first', loc)
            return
        if atom[0] == 'a' and atom[1] == stat:
            cx.ob(what, False, 'sorts by %s' % show(p), loc)
            return
    if is_c(p):
        cx.ob(what, False, 'sorts by the constant %s' % show(p), loc)
        return
    return what, f


def witness_order(cx, name, what, metric, paths, stat, loc):
    """Two statistics with calls the order puts the wrong way round, for a
    key of a form that is not known."""
    key = []
    tiny = Fraction(1, 10 ** 9)
    for oh in (1, 2, 3):
        for dh in (oh, oh + 1, oh + 5):
            for ot, dt in [(ot, dt) for ot in (0, 1, 2, 4) for dt in (
                    ot, ot + 1, ot + 3)] + [(tiny, tiny * 2), (
                        tiny * 2, tiny * 4), (1 + tiny, 1 + tiny * 3)]:
                m = dict(own_hits=oh, deep_hits=dh, own_time=Fraction(ot),
                         deep_time=Fraction(dt),
                         deep_time_per_call=Fraction(dt, oh),
                         own_time_per_call=Fraction(ot, oh))
                env = dict((('a', stat, k), v) for k, v in m.items())
                try:
                    ks = [value(v, env) for facts, v in paths
                          if feasible(facts, env)]
                except Unknown as e:
                    cx.ob(what, None, 'sorts by what is not known: %s' %
                          e, loc)
                    return
                if len(ks) != 1:
                    cx.ob(what, None, '%d paths for one node' % len(ks),
                          loc)
                    return
                key.append((m[metric], ks[0], m))
    try:
        key.sort(key=lambda x: x[1])
        for (a, ka, ma), (b, kb, mb) in zip(key, key[1:]):
            # the next one must not be larger.
            if b > a:
                cx.ob(what, False, '%s comes before %s' % tuple(
                    ', '.join('%s=%s' % kv for kv in sorted(x.items()))
                    for x in (ma, mb)), loc)
                return
    except TypeError:
        cx.ob(what, None, 'keys cannot be compared', loc)
        return
    cx.ob(what, True, '', loc)
