"""The helpers of profiling.utils: C04, C10."""
import ast
import itertools
import os

from ..core import *  # noqa
from ..core import Undecided
from .. import loader


@rule('C04', 'blocks that register up to four calls and end normally, by '
      'return, by an exception or by an exception after some registrations, '
      'every subset of the deferred calls raising: each runs once with its '
      'arguments, in reverse order, and an exception is not swallowed')
def deferred(cx):
    I = interp()
    loc = (I.modules['profiling.utils'].path, 1)
    for q, r in I.functions.items():
        if q.endswith('utils.deferral'):
            m = I.world.get(r).meta
            loc = (I.modules[m['module']].path, m['node'].lineno)
    ends = (('normally', 'pass', False), ('by an exception', 'body()', True),
            ('by return', 'return 1', False), ('raising', 'raise E()', True))
    mod = I.world.get(I.modrefs['profiling.utils'])
    deferral = mod.attrs.get('deferral')
    if deferral is None:
        raise Anchor('profiling.utils.deferral')
    for n in range(5):
        for how, stmt, raising in ends:
            I = interp()
            I.concrete_ok = True
            st = I.start_state()
            fs = [S('call %d' % (i + 1)) for i in range(n)]
            distinct(I, st, S('body'), *fs)
            src = ['def block():', '    with deferral() as defer:']
            env = {'deferral': deferral, 'body': S('body'),
                   'E': X('builtins.ValueError')}
            for i in range(n):
                env['f%d' % i] = fs[i]
                env['a%d' % i] = S('argument %d' % (i + 1))
                env['k%d' % i] = S('keyword argument %d' % (i + 1))
                src.append('        defer(f%d, %s)' % (i, (
                    'a%d', 'a%d, k=k%d', 'k=k%d', 'a%d, k%d')[i].replace(
                        '%d', str(i))))
            src += ['        ' + stmt, 'block()']
            calls = set(fs)

            def policy(ev, st, fr):
                if ev.recv in calls or ev.recv == S('body'):
                    out = [('uexc', st.n, show(ev.recv))]
                    return out
                return []
            I.policy = policy
            want = []
            for i in range(n):
                a, k = S('argument %d' % (i + 1)), S('keyword argument %d' %
                                                     (i + 1))
                want.append((fs[i], ((a,), (a,), (), (a, k))[i],
                             ((), (('k', k),), (('k', k),), ())[i]))
            want.reverse()
            for s, v, exc in snippet(cx, I, st, '\n'.join(src), env):
                evs = [e for e in s.events() if e.k == 'call' and
                       e.recv in calls]
                got = [(e.recv, e.args, e.kw) for e in evs]
                failed = [show(e.recv) for e in evs if e.exc is not None]
                bodyfail = any(e.k == 'call' and e.recv == S('body') and
                               e.exc is not None for e in s.events())
                what = '%d calls, left %s' % (n, how)
                cx.ob(what + (', %s failing' % ' and '.join(failed)
                              if failed else ''), got == want,
                      'ran %s instead of %s' % (
                          [show(g[0]) for g in got],
                          [show(g[0]) for g in want])
                      if [g[0] for g in got] != [g[0] for g in want] else
                      'a call got other arguments', loc)
                must = bool(failed) or stmt.startswith('raise') or bodyfail
                cx.ob(what + ': exception', (exc is not None) == must,
                      'an exception is %s' % ('swallowed' if must else
                                              'made up'), loc)
                if exc is not None and not failed and must:
                    ok = exc[0] == 'uexc' and exc[2] == 'body' if bodyfail \
                        else exc[0] == 'exc' and exc[1] == env['E']
                    cx.ob(what + ': the same exception', ok or (
                        None if exc[0] != 'exc' else False),
                        'another exception comes out: %s' % show(exc), loc)


@rule('C04', 'several blocks: the same call registered twice, forty calls, '
      'blocks after each other and inside each other, left by break and '
      'continue: every block runs its own calls, once each, latest first')
def more_deferred(cx):
    I = interp()
    mod = I.world.get(I.modrefs['profiling.utils'])
    deferral = mod.attrs.get('deferral')
    loc = func_site(I, 'profiling.utils.deferral')
    many = ['    defer(f, %d)' % i for i in range(40)]
    for name, src, want in (
            ('the same call twice', ['with deferral() as defer:',
                                     '    defer(f, 1)', '    defer(f, 1)',
                                     '    defer(f, 2)'], (2, 1, 1)),
            ('forty calls', ['with deferral() as defer:'] + many,
             tuple(range(39, -1, -1))),
            ('two blocks', ['with deferral() as defer:', '    defer(f, 1)',
                            '    defer(f, 2)', 'with deferral() as defer:',
                            '    defer(f, 3)'], (2, 1, 3)),
            ('nested blocks', ['with deferral() as defer:', '    defer(f, 1)',
                               '    with deferral() as d2:',
                               '        d2(f, 2)', '        defer(f, 3)',
                               '        d2(f, 4)', '    f(5)',
                               '    defer(f, 6)'], (4, 2, 5, 6, 3, 1)),
            ('a block after one that failed', [
                'try:', '    with deferral() as defer:', '        defer(f, 1)',
                '        defer(f, 2)', '        raise E()', 'except E:',
                '    pass', 'with deferral() as defer:', '    defer(f, 3)'],
             (2, 1, 3)),
            ('left by break', ['for i in (1, 2):',
                               '    with deferral() as defer:',
                               '        defer(f, i)', '        break'],
             (1,)),
            ('left by continue', ['for i in (1, 2):',
                                  '    with deferral() as defer:',
                                  '        defer(f, i)', '        continue',
                                  '        f(0)'], (1, 2)),
            ('a call that returns something true', [
                'try:', '    with deferral() as defer:', '        defer(f, 1)',
                '        defer(g, 2)', '        raise E()',
                '    f(3)', 'except E:', '    f(4)'], ('g2', 1, 4)),
            ('nothing is run early', ['with deferral() as defer:',
                                      '    defer(f, 1)', '    f(2)',
                                      '    defer(f, 3)', '    f(4)'],
             (2, 4, 3, 1))):
        I = interp()
        I.concrete_ok = True
        I.deepest, I.MAXDEPTH = 64, 128
        I.policy = lambda ev, st, fr: []
        st = I.start_state()
        f, g = S('call'), S('true call')
        distinct(I, st, f, g)

        def ret(I, st, ev):
            return C(True) if ev.recv == g else NONE
        I.rets['<call>'] = ret
        try:
            outs = snippet(cx, I, st, '\n'.join(
                ['def block():'] + ['    ' + x for x in src] + ['block()']), {
                    'deferral': deferral, 'f': f, 'g': g,
                    'E': X('builtins.ValueError')})
        except Undecided as e:
            cx.ob(name, None, str(e), loc)
            continue
        for s, v, exc in outs:
            got = tuple(('g%s' if e.recv == g else '%s') % (
                e.args[0][2] if e.args and is_c(e.args[0]) else '?')
                for e in s.events() if e.k == 'call' and e.recv in (f, g))
            cx.ob(name, exc is None and got == tuple(map(str, want)),
                  'calls ran with %s, expected %s' % (
                      ', '.join(got), ', '.join(map(str, want))), loc)


# -- C10

def stack_cases():
    """(codes innermost last, base frame, base code, ignored frames, codes);
    positions or letters."""
    for codes in ('a', 'ab', 'abc', 'aba', 'abcd'):
        n = len(codes)
        yield codes, None, None, (), ()
        for i in range(n):
            yield codes, i, None, (), ()
            yield codes, None, codes[i], (), ()
            yield codes, None, None, (i,), ()
            yield codes, None, None, (), (codes[i],)
            # the base is one of those to ignore, too.
            yield codes, i, None, (i,), ()
            yield codes, None, codes[i], (), (codes[i],)
            yield codes, i, None, (), (codes[i],)
        yield codes, 'other', 'z', ('other',), ('z',)
        if n > 2:
            yield codes, 0, None, (1,), ()
            yield codes, 0, None, (), (codes[1],)
            yield codes, None, codes[0], (1, n - 1), ()
            yield codes, 1, codes[0], (), (codes[n - 1],)
            yield codes, None, None, (0,), (codes[1],)
            yield codes, None, None, tuple(range(n)), ()
            yield codes, 1, codes[0], (2,), (codes[1],)


def expected_stack(codes, base, bcode, iframes, icodes):
    out = []
    for i in range(len(codes) - 1, -1, -1):
        if i == base or codes[i] == bcode:
            break
        if i in iframes or codes[i] in icodes:
            continue
        out.append(i)
    out.reverse()
    return out


class Chain(object):
    """Call stacks on the abstract heap."""

    def __init__(self, I, st, codes, end):
        self.refs = []
        distinct(I, st, *[S('code ' + c) for c in 'abcdz'])
        for c in 'abcdz':
            I.assume(st, I.mkcmp('is', S('code ' + c), NONE), False)
        back = end
        for c in codes:
            back = I.new(st, HObj('open', attrs={
                'f_code': S('code ' + c), 'f_back': back,
                'f_lineno': S('lineno')}))
            self.refs.append(back)
        self.other = I.new(st, HObj('open', attrs={}))
        distinct(I, st, self.other, *self.refs)

    def frame(self, i):
        return NONE if i is None else self.other if i == 'other' else \
            self.refs[i]

    def args(self, case, frozen=False):
        codes, base, bcode, iframes, icodes = case
        return (self.frame(base), NONE if bcode is None
                else S('code ' + bcode),
                T(*[self.frame(i) for i in iframes]),
                T(*[S('code ' + c) for c in icodes]))


def listed(s, v):
    o = s.get(v) if v is not None else None
    if v is not None and v[0] == 't':
        return list(v[1])
    if o is None or o.parts is None or any(p[0] != 'one' for p in o.parts):
        return None
    return [p[1] for p in o.parts]


def describe(case):
    codes, base, bcode, iframes, icodes = case
    out = 'stack ' + '/'.join(codes)
    if base is not None:
        out += ', base frame %s' % base
    if bcode is not None:
        out += ', base code %s' % bcode
    if iframes:
        out += ', ignored frames %s' % list(iframes)
    if icodes:
        out += ', ignored codes %s' % list(icodes)
    return out


def func_site(I, q):
    for k, r in I.functions.items():
        if k == q or k.endswith('.' + q):
            m = I.world.get(r).meta
            return (I.modules[m['module']].path, m['node'].lineno)
    return None


def check_stacks(cx, I, what, call, end, loc):
    """call(st, frame, args) -> [(state, value, exc)]"""
    for case in stack_cases():
        I.steps = 0
        st = I.start_state()
        chain = Chain(I, st, case[0], end(st) if callable(end) else end)
        want = [chain.refs[i] for i in expected_stack(*case)]
        outs = call(st, chain.refs[-1], chain.args(case))
        for s, v, exc in outs:
            name = '%s, %s' % (what, describe(case))
            if exc is not None:
                cx.ob(name, None if exc[0] == 'uexc' else False,
                      'raises %s' % show(exc[1]), loc)
                continue
            got = listed(s, v)
            if got is None:
                cx.ob(name, False if is_c(v) else None,
                      'the result is %s' % show(v)[:100], loc)
                continue
            pos = dict((r, i) for i, r in enumerate(chain.refs))
            cx.ob(name, got == want, 'holds the frames %s, expected %s' % (
                [pos.get(g, '?') for g in got], [pos[g] for g in want]), loc)


@rule('C10', 'the Python implementation, directly and through profilers that '
      'were given the base and what to ignore, on %d combinations of call '
      'stack, base and ignored frames and codes' % len(list(stack_cases())))
def python_stack(cx):
    I = interp()
    I.concrete_ok = True
    I.policy = lambda ev, st, fr: []
    f = cx.modvar(I, 'profiling.utils', 'frame_stack')
    loc = func_site(I, 'utils.frame_stack')

    def direct(st, frame, args):
        return cx.call(I, st, f, (frame,) + args)
    check_stacks(cx, I, 'frame_stack', direct, NONE, loc)
    # another code which is merely equal to that of a frame, as when one
    # source is compiled twice, is not the base code (nor is it in C).
    for codes in ('a', 'ab', 'ba', 'aba'):
        I.steps = 0
        st = I.start_state()
        chain = Chain(I, st, codes, NONE)
        twin = S('code e')
        I.assume(st, I.mkcmp('is', twin, NONE), False)
        for c in 'abcdz':
            I.assume(st, I.mkcmp('is', S('code ' + c), twin), False)
            I.assume(st, I.mkcmp('is', twin, S('code ' + c)), False)
            I.assume(st, I.mkcmp('==', S('code ' + c), twin), c == 'a')
            I.assume(st, I.mkcmp('==', twin, S('code ' + c)), c == 'a')
        for s, v, exc in direct(st, chain.refs[-1], (NONE, twin, T(), T())):
            got = None if exc is not None else listed(s, v)
            cx.ob('frame_stack, stack %s, base code equal to a' % '/'.join(
                codes), None if got is None else got == chain.refs,
                'frames are left out', loc)
    # no frame at all: not asked of it by the profilers, must not fail.
    for cname, opt in (('tracing.TracingProfiler', 'timer'),
                       ('sampling.SamplingProfiler', 'sampler')):
        cref = cx.cls(I, cname)
        sub = cx.cls(I, {'timer': 'tracing.timers.Timer',
                         'sampler': 'sampling.samplers.Sampler'}[opt])

        def by_profiler(st, frame, args):
            out = []
            for s, t, exc in cx.call(I, st, sub):
                names = ('base_frame', 'base_code', 'ignored_frames',
                         'ignored_codes')
                kw = dict(zip(names, args))
                kw[opt] = t
                for s2, p, x in cx.call(I, s, cref, (), kw):
                    if x is not None:
                        out.append((s2, None, x))
                    else:
                        out.extend(cx.method(I, s2, p, 'frame_stack',
                                             (frame,)))
            return out
        check_stacks(cx, I, cname.partition('.')[2], by_profiler, NONE,
                     func_site(I, 'profiler.Profiler.frame_stack'))


class CApi(object):
    """Models of the C API functions; one call may be made to fail."""

    def __init__(self, I, NULL, err):
        self.I, self.NULL, self.err = I, NULL, err
        self.fault = None
        self.unknown = set()
        table = dict((k[2:], getattr(self, k)) for k in dir(self)
                     if k.startswith('c_'))
        for k, f in table.items():
            I.ext_over['capi.' + k] = self.wrap(k, f)

    def wrap(self, name, f):
        def model(I, st, args, kw, node, fr):
            self.count(st, name)
            I.event(st, fr, node, 'capi', fn=name, args=tuple(args))
            n = st.get(self.err).attrs.get(('n', name))
            if self.fault == (name, n):
                st.mut(self.err).attrs['set'] = TRUE
                st.mut(self.err).attrs['after'] = C(True)
                return [(st, self.NULL if name in ('PyList_New',) else
                         C(0) if name == 'PyArg_ParseTuple' else C(-1),
                         None)]
            r = f(st, *args)
            return r if isinstance(r, list) else [(st, r, None)]
        return model

    def count(self, st, name):
        o = st.mut(self.err)
        o.attrs[('n', name)] = o.attrs.get(('n', name), 0) + 1

    def failed(self, st):
        return st.get(self.err).attrs.get('set') == TRUE

    def c_PyArg_ParseTuple(self, st, args, nfmt, nnames):
        n = len(args[1]) if args[0] == 't' else None
        if nfmt != nnames or n != nfmt[2]:
            st.mut(self.err).attrs['set'] = TRUE
            return C(0)
        return C(1)

    def c_PyList_New(self, st, n):
        if n != C(0):
            raise Undecided('PyList_New(%s)' % show(n))
        return self.I.new(st, HObj('list', parts=[]))

    def c_PyList_Append(self, st, l, x):
        st.mut(l).parts.append(('one', x))
        return C(0)

    def c_PyList_Insert(self, st, l, i, x):
        if not is_c(i):
            raise Undecided('index')
        st.mut(l).parts.insert(i[2], ('one', x))
        return C(0)

    def c_PyList_Reverse(self, st, l):
        st.mut(l).parts.reverse()
        return C(0)

    def c_PyList_Size(self, st, l):
        return C(len(st.get(l).parts))

    c_PyList_GET_SIZE = c_PyList_Size

    def c_PySet_Contains(self, st, s, x):
        o = st.get(s)
        if o is None or o.known is None:
            raise Undecided('set')
        r = self.I.decide(st, ('in', x, s, o.ver))
        if r is None:
            raise Undecided('membership')
        return C(1 if r else 0)

    c_PySequence_Contains = c_PySet_Contains

    def c_PySet_Size(self, st, s):
        return C(len([1 for v in st.get(s).known.values()
                      if v is not ABSENT]))

    c_PySet_GET_SIZE = c_PySet_Size

    def c_PyErr_Occurred(self, st):
        return self.err if self.failed(st) else self.NULL

    def c_PyErr_Clear(self, st):
        st.mut(self.err).attrs['set'] = FALSE
        return NONE

    def c_PyErr_SetString(self, st, *a):
        st.mut(self.err).attrs['set'] = TRUE
        return NONE

    def c_PyErr_NoMemory(self, st):
        st.mut(self.err).attrs['set'] = TRUE
        return self.NULL

    def ref(self, st, x, d):
        o = st.mut(self.err)
        o.attrs[('ref', x)] = o.attrs.get(('ref', x), 0) + d
        return NONE

    def c_Py_DECREF(self, st, x):
        return self.ref(st, x, -1)

    c_Py_XDECREF = c_Py_CLEAR = c_Py_DECREF

    def c_Py_INCREF(self, st, x):
        return self.ref(st, x, 1)

    c_Py_XINCREF = c_Py_INCREF

    def c_PyFrame_GetCode(self, st, f):
        v = st.get(f).attrs['f_code']
        self.ref(st, v, 1)
        return v

    def c_PyFrame_GetBack(self, st, f):
        v = st.get(f).attrs['f_back']
        if v != self.NULL:
            self.ref(st, v, 1)
        return v


@rule('C10', 'the C implementation behind its Python wrapper, on the same '
      'combinations; and when any call of the C API fails, it fails with '
      'that error and keeps nothing')
def c_stack(cx):
    path = os.path.join(loader.REPO, 'profiling', 'speedup.c')
    if not os.path.exists(path):
        raise Undecided('there is no speedup.c')
    from .. import cfront
    funcs, methods = cfront.parse(path)
    target = methods.get('frame_stack')
    cx.ob('method table', target in funcs, 'the extension has no function '
          'frame_stack')
    if target not in funcs:
        return
    tree, line = funcs[target]
    if tree is None:
        raise Undecided(line)
    loc = ('profiling/speedup.c', line)
    I = interp(speedup=True)
    I.concrete_ok = True
    I.policy = lambda ev, st, fr: []
    names, defs = set(), []
    for fn, (t, ln) in funcs.items():
        if t is None:
            continue
        defs.extend(t.body)
        names |= set(n.id for n in ast.walk(t) if isinstance(n, ast.Name))
    holder = {}

    def model(I, st, args, kw, node, fr):
        if kw:
            st.n += 1
            return [(st, None, ('exc', X('builtins.TypeError'), (), st.n))]
        NULL, err = holder['NULL'], holder['err']
        scope = I.new(st, HObj('module', attrs={}, meta={
            'name': '<speedup>', 'path': path}))
        env = st.mut(scope).attrs
        for n in names:
            env[n] = X('goto.' + n) if n.startswith('goto_') else \
                X('capi.' + n)
        env['NULL'] = NULL
        env['Py_None'] = NONE
        f2 = Frame(scope, '<speedup>', qual='<speedup>', depth=0)
        outs = []
        for s, k, v in I.ex(list(defs), st, f2):
            fv = s.get(scope).attrs[target]
            for s2, v2, exc in I.call(s, fv, [NONE, ('t', tuple(args))], {},
                                      None, f2):
                o = s2.mut(err)
                o.attrs['returned'] = v2 if v2 is not None else NULL
                if exc is not None:
                    outs.append((s2, None, exc))
                elif v2 == NULL or o.attrs.get('set') == TRUE:
                    s2.n += 1
                    kind = 'capi.Error' if v2 == NULL and \
                        o.attrs.get('set') == TRUE else \
                        'builtins.SystemError'
                    outs.append((s2, None, ('exc', X(kind), (), s2.n)))
                else:
                    outs.append((s2, v2, None))
        return outs
    I.ext_over['profiling.speedup.frame_stack'] = model
    f = cx.modvar(I, 'profiling.utils', 'frame_stack')

    def end(st):
        holder['NULL'] = I.new(st, HObj('open', attrs={}))
        holder['err'] = I.new(st, HObj('open', attrs={}))
        holder['api'] = CApi(I, holder['NULL'], holder['err'])
        holder['api'].fault = holder.get('fault')
        return holder['NULL']

    def direct(st, frame, args):
        return cx.call(I, st, f, (frame,) + args)
    check_stacks(cx, I, 'C frame_stack', direct, end, loc)
    cx.functions.add('speedup.c:' + target)
    # references and failures.
    case = ('abc', 0, None, (1,), ('z',))

    def one(fault):
        I.steps = 0
        holder['fault'] = fault
        st = I.start_state()
        chain = Chain(I, st, case[0], end(st))
        return direct(st, chain.refs[-1], chain.args(case))
    calls = []
    for s, v, exc in one(None):
        calls = [e for e in s.events() if e.k == 'capi']
        o = s.get(holder['err'])
        leak = [show(k[1]) for k, n in o.attrs.items()
                if k[0] == 'ref' and n]
        cx.ob('C frame_stack: references', not leak,
              'the reference counts of %s are not balanced' % leak, loc)
        lists = [r for r, ob in s.heap.items() if ob.kind == 'list']
    counts = {}
    for e in calls:
        counts[e.fn] = counts.get(e.fn, 0) + 1
    for fn in sorted(counts):
        if fn not in ('PyList_New', 'PyList_Append', 'PyList_Insert',
                      'PySet_Contains', 'PySequence_Contains',
                      'PyArg_ParseTuple'):
            continue
        for n in range(1, counts[fn] + 1):
            for s, v, exc in one((fn, n)):
                what = 'C frame_stack: %s fails' % fn
                good = exc is not None and exc[1] == X('capi.Error')
                cx.ob(what, good, 'the error is lost' if exc is None else
                      'a result is returned with an error set', loc)
                made = [e for e in s.events() if e.k == 'capi' and
                        e.fn == 'PyList_New']
                o = s.get(holder['err'])
                freed = sum(1 for k, d in o.attrs.items() if k[0] == 'ref'
                            and s.get(k[1]) is not None and
                            s.get(k[1]).kind == 'list' and d == -1)
                want = 1 if made and fn != 'PyList_New' else 0
                if good:
                    cx.ob(what + ': keeps nothing', freed == want,
                          'the list is not released', loc)
