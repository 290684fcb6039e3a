"""What statistics and their rows are called: C44."""
from ..core import *  # noqa
from ..core import Undecided
from .helpers import func_site
from .view import Views, deep

#: name, file, first line, module of a code.
CODES = [('f', '/a/b.py', 10, 'pkg.b'), ('f', '/a/b.py', 10, None),
         ('<lambda>', '<stdin>', 1, '__main__'),
         ('<listcomp>', '<string>', 1, None),
         ('<genexpr>', '/a/b.py', 77, 'pkg'),
         ('main', '/a/__main__.py', 3, 'pkg.__main__'),
         ('module', '/a/module.py', 2, 'module'),
         ('__init__', '/a/pkg/__init__.py', 123456, 'pkg'),
         ('_', 'relative/x y.py', 99, 'x.y.z'),
         ('a_very_long_name_of_a_function_which_does_not_fit_the_column',
          '/a/very/long/path/to/some/file/in/a/deep/tree/of/packages.py',
          2 ** 20, 'a.very.long.path.to.some.file.in.a.tree.of.packages'),
         ('<module>', '/a/b.py', 1, 'pkg.b'), ('<module>', '/a/c.py', 1, None),
         ('<module>', '/a/run.py', 1, '__main__')]

FIELDS = ('name', 'filename', 'lineno', 'module')


class Names(object):

    def __init__(self, cx):
        self.w = w = Views(cx, opaque=False)
        self.I = I = w.I
        self.mods = {}

        def getmodule(I, st, args, kw, node, fr):
            return [(st, self.mods.get(args[0], NONE), None)]
        I.ext_over['inspect.getmodule'] = getmodule
        self.env = dict(
            R=cx.cls(I, 'stats.RecordingStatistics'),
            V=cx.cls(I, 'stats.VoidRecordingStatistics'),
            F=cx.cls(I, 'stats.FrozenStatistics'),
            FL=cx.cls(I, 'stats.FlatFrozenStatistics'),
            FMT=cx.cls(I, 'viewer.Formatter'))

    def codes(self, codes):
        """-> state, {'c0': code, …}"""
        src = ['class Code(object):\n    pass',
               'class Module(object):\n    pass']
        for i, (name, filename, lineno, module) in enumerate(codes):
            src.append('c%d = Code()\nc%d.co_name = %r\nc%d.co_filename = %r'
                       '\nc%d.co_firstlineno = %r' % (
                           i, i, name, i, filename, i, lineno))
            if module is not None:
                src.append('m%d = Module()\nm%d.__name__ = %r' % (
                    i, i, module))
        st, v = self.w.one(self.w.st, '\n'.join(src))
        env = {}
        for i, code in enumerate(codes):
            env['c%d' % i] = v['c%d' % i]
            if code[3] is not None:
                self.mods[v['c%d' % i]] = v['m%d' % i]
        return st, env


def show_code(c):
    return '%s of %s' % (c[0], c[3] or c[1])


def wanted(c):
    name, filename, lineno, module = c
    return (None if name == '<module>' else name, filename, lineno, module)


@rule('C44', 'recording statistics and placeholders of a code, also frozen '
      'and flattened: they bear the name, file, first line and module of '
      'that code, and the root bears none')
def named(cx):
    n = Names(cx)
    I = n.I
    loc = {}
    for f in FIELDS:
        loc[f] = func_site(I, 'stats.RecordingStatistics.' + f)
    site = {'frozen': func_site(I, 'stats.make_frozen_stats_tree'),
            'flat': func_site(I, 'stats.FlatFrozenStatistics.flatten')}
    four = lambda x: '(%s)' % ', '.join('%s.%s' % (x, f) for f in FIELDS)
    for code in CODES:
        st, env = n.codes([code])
        env.update(n.env)
        for kind in ('R', 'V'):
            what = show_code(code) + (' (placeholder)' if kind == 'V' else '')
            for form, src in (
                    ('', 'x = %s(c0)\n' % kind),
                    ('child', 'x = R().ensure_child(c0, %s)\n' % kind),
                    ('frozen', 'y = %s(c0).__reduce__()\n'
                     'x = y[0](*y[1])\n' % kind),
                    ('child, frozen', 'p = R()\np.ensure_child(c0, %s)\n'
                     'y = p.__reduce__()\nx = list(y[0](*y[1]))[0]\n' % kind),
                    ('flat', 'p = R()\np.ensure_child(c0, %s)\n'
                     'x = list(FL.flatten(p))[0]\n' % kind)):
                I.steps = 0
                for s, v, exc in n.w.run(
                        st, src + 'got = %s\nrn = x.regular_name' % four('x'),
                        **env):
                    where = what + (', ' + form if form else '')
                    place = site.get(form.split(', ')[-1])
                    if exc is not None:
                        cx.ob(where, None if exc[0] == 'uexc' else False,
                              'raises %s' % show(exc[1]),
                              place or loc['name'])
                        continue
                    got = deep(s, v['got'])
                    for f, a, b in zip(FIELDS, got, wanted(code)):
                        cx.ob('%s: %s' % (where, f), same(a, b),
                              'is %r, not %r' % (a, b), place or loc[f])
                    rn = deep(s, v['rn'])
                    name, __, __, module = wanted(code)
                    if name and module:
                        ok = isinstance(rn, str) and name in rn and \
                            module in rn
                    else:
                        ok = rn == (name or module)
                    cx.ob('%s: regular name' % where, ok if plain(rn)
                          else None, 'is %r' % (rn,),
                          func_site(I, 'stats.Statistics.regular_name'))
    st, env = n.codes(CODES[:1])
    for form, src in (
            ('the root', 'x = R()\n'),
            ('a root with a child', 'x = R()\nx.ensure_child(c0, R)\n'),
            ('a frozen root', 'p = R()\np.ensure_child(c0, R)\n'
             'y = p.__reduce__()\nx = y[0](*y[1])\n'),
            ('a flat root', 'p = R()\np.ensure_child(c0, R)\n'
             'x = FL.flatten(p)\n')):
        for s, v, exc in n.w.run(st, src + 'got = %s\nrn = x.regular_name' %
                                 four('x'), **dict(env, **n.env)):
            if exc is not None:
                cx.ob(form, None if exc[0] == 'uexc' else False,
                      'raises %s' % show(exc[1]), loc['name'])
                continue
            for f, a in zip(FIELDS, deep(s, v['got'])):
                cx.ob('%s: %s' % (form, f), same(a, None), 'is %r' % (a,),
                      loc[f])
            cx.ob('%s: regular name' % form, same(deep(s, v['rn']), None),
                  'is %r' % (deep(s, v['rn']),),
                  func_site(I, 'stats.Statistics.regular_name'))


def plain(v):
    return v is None or isinstance(v, (str, int, float))


def same(a, b):
    if not plain(a):
        return None
    return a == b and (a is None) == (b is None)


@rule('C44', 'every code, whatever it is called: no name but that of module '
      'level code is treated apart')
def any_name(cx):
    n = Names(cx)
    I = n.I
    for kind in ('R', 'V'):
        st = n.w.st.fork()
        code = S('code')
        module = S('module of the code')
        I.assume(st, ('truth', code, 0), True)
        I.assume(st, I.mkcmp('is', code, NONE), False)
        I.assume(st, ('truth', module, 0), True)
        I.assume(st, I.mkcmp('is', module, NONE), False)
        n.mods[code] = module
        for x, names in ((module, ('__name__',)), (code, (
                'co_name', 'co_filename', 'co_firstlineno'))):
            for f in names:
                st.facts[('cmp', 'hasattr', x, C(f))] = True
        for f, want in (('name', ('a', code, 'co_name')),
                        ('filename', ('a', code, 'co_filename')),
                        ('lineno', ('a', code, 'co_firstlineno')),
                        ('module', ('a', module, '__name__'))):
            loc = func_site(I, 'stats.RecordingStatistics.' + f)
            for s, v, exc in n.w.run(st, 'r = K(code).%s' % f,
                                     K=n.env[kind], code=code):
                what = '%s of any code' % f
                if exc is not None:
                    cx.ob(what, None if exc[0] == 'uexc' else False,
                          'raises %s' % show(exc[1]), loc)
                    continue
                r = v['r']
                if r == want:
                    cx.ob(what, True, '', loc)
                elif f == 'name' and r == NONE:
                    # only for module level code.
                    ok = s.facts.get(I.mkcmp('==', want, C('<module>')))
                    cx.ob(what, True if ok else None if ok is None
                          else False, 'None for another name', loc)
                elif is_c(r):
                    cx.ob(what, s.facts.get(I.mkcmp('==', want, r)) or False,
                          'is %s for some code' % show(r), loc)
                else:
                    cx.ob(what, None, 'is %s' % show(r)[:80], loc)


def text(m):
    """The text of a markup."""
    if isinstance(m, str):
        return m
    if isinstance(m, list):
        out = [text(x) for x in m]
        return None if None in out else ''.join(out)
    if isinstance(m, tuple) and len(m) == 2:
        return text(m[1])
    return None


@rule('C44', 'the text of the row of a code: its name, module or else file, '
      'and line; that of module level code: its module or else file; rows of '
      'different functions differ')
def rows(cx):
    n = Names(cx)
    I = n.I
    loc = func_site(I, 'viewer.Formatter.markup_stats')
    st, env = n.codes(CODES)
    env.update(n.env)
    for form, src in (('recording', 'x = R(c%d)\n'),
                      ('placeholder', 'x = V(c%d)\n'),
                      ('frozen', 'y = R(c%d).__reduce__()\nx = y[0](*y[1])\n'),
                      ('flat', 'p = R()\np.ensure_child(c%d, R)\n'
                       'x = list(FL.flatten(p))[0]\n')):
        texts = {}
        for i, code in enumerate(CODES):
            I.steps = 0
            what = 'row of %s (%s)' % (show_code(code), form)
            for s, v, exc in n.w.run(
                    st, src % i + 'm = FMT.markup_stats(x)', **env):
                if exc is not None:
                    cx.ob(what, None if exc[0] == 'uexc' else False,
                          'raises %s' % show(exc[1]), loc)
                    continue
                t = text(deep(s, v['m']))
                if v['m'] == NONE:
                    cx.ob(what, False, 'there is no text', loc)
                    continue
                if t is None:
                    cx.ob(what, None, 'not decided', loc)
                    continue
                name, filename, lineno, module = wanted(code)
                texts.setdefault(t, set()).add(i)
                if name:
                    at = t.find(name)
                    rest = t[at + len(name):]
                    cx.ob(what + ': name', at >= 0, 'is %r' % t, loc)
                    cx.ob(what + ': line', str(lineno) in rest,
                          'is %r' % t, loc)
                else:
                    rest = t
                cx.ob(what + ': place', (module or filename) in rest,
                      'is %r' % t, loc)
        for t, which in sorted(texts.items()):
            cx.ob('row %r (%s)' % (t[:40], form), len(which) == 1,
                  'stands for %s' % ' and '.join(
                      show_code(CODES[i]) for i in sorted(which)), loc)


NUMBERS = ((0, 0.0), (3, 1.5), (1234567, 0.000123), (1, 98765.4321))


@rule('C44', 'the representation of statistics of a code, with and without '
      'hits, time and children: it is made, and tells the name and module, '
      'the own and inclusive hits and the time')
def representations(cx):
    n = Names(cx)
    I = n.I
    loc = func_site(I, 'stats.Statistics.__repr__')
    st, env = n.codes(CODES)
    env.update(n.env)
    forms = (
        ('recording', 'x = R(c%(i)d)\nx.own_hits = h\nx.deep_time = t\n'),
        ('with a child', 'x = R(c%(i)d)\nx.own_hits = h\nx.deep_time = t\n'
         'y = x.ensure_child(c0, R)\ny.own_hits = 7\ny.deep_time = t\n'),
        ('placeholder', 'x = V(c%(i)d)\n'),
        ('placeholder with a child', 'x = V(c%(i)d)\n'
         'y = x.ensure_child(c0, R)\ny.own_hits = 7\ny.deep_time = t\n'),
        ('frozen', 'y = R(c%(i)d)\ny.own_hits = h\ny.deep_time = t\n'
         'z = y.__reduce__()\nx = z[0](*z[1])\n'),
        ('flat', 'p = R()\ny = p.ensure_child(c%(i)d, R)\ny.own_hits = h\n'
         'y.deep_time = t\nx = list(FL.flatten(p))[0]\n'),
        ('root', 'x = R()\n'), ('flat root', 'x = FL.flatten(R())\n'),
        ('empty', 'x = F()\n'))
    for i, code in enumerate(CODES):
        for form, src in forms:
            if i and 'c%(' not in src:
                continue
            for h, t in NUMBERS if i < 2 else NUMBERS[1:2]:
                I.steps = 0
                what = 'repr of %s (%s), %d hits in %r sec' % (
                    show_code(code), form, h, t)
                for s, v, exc in n.w.run(
                        st, src % {'i': i} + 'r = x.__repr__()\n'
                        'own, deep, rn = x.own_hits, x.deep_hits, '
                        'x.regular_name\n', h=C(h), t=C(t), **env):
                    if exc is not None:
                        cx.ob(what, None if exc[0] == 'uexc' else False,
                              'raises %s' % show(exc[1]), loc)
                        continue
                    r = v['r']
                    parts = [v['own'], v['deep'], v['rn']]
                    if not is_c(r) or not all(map(is_c, parts)):
                        cx.ob(what, None, 'not decided', loc)
                        continue
                    r, parts = r[2], [x[2] for x in parts]
                    if parts[2] is None:
                        parts = parts[:2]
                    cx.ob(what, isinstance(r, str) and all(
                        str(x) in r for x in parts), 'is %r' % (r,), loc)
