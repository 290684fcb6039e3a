"""Value terms and heap objects of the abstract interpreter.

Values are hashable tuples whose first element is a tag:

  ('c', type, v)            a constant
  ('t', (v, ...))           a tuple
  ('r', n)                  an object of the abstract heap
  ('x', 'dotted.name')      something outside the repository
  ('s', name)               an unknown input
  ('fld', obj, attr)        the value a field had when the analysis started
  ('a', obj, attr)          an attribute of an unknown object
  ('i', obj, key)           an item of an unknown object
  ('call', fn, recv, args, kw, n)   the result of a call; n == 0: pure
  ('op', name, a, ...)      arithmetic
  ('elem', src, L)          the element at hand of loop L over src
  ('phi', L, key)           what a variable holds at the head of loop L
  atoms (conditions): ('truth', v, ver) ('cmp', op, a, b) ('in', a, b, ver)
                      ('isinst', v, c) ('not', atom)
"""


def C(v):
    return ('c', type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def is_c(v):
    return v[0] == 'c'


def X(name):
    return ('x', name)


def T(*vs):
    return ('t', tuple(vs))


def S(name):
    return ('s', name)


ATOMS = ('truth', 'cmp', 'in', 'isinst', 'not')


def walk(v):
    """All sub-terms of a term."""
    yield v
    if isinstance(v, tuple):
        if v and v[0] == 'c':
            return
        for x in v:
            if isinstance(x, tuple):
                for y in walk(x):
                    yield y


def mentions(v, sub):
    if v == sub:
        return True
    if isinstance(v, tuple):
        if v and v[0] == 'c':
            return False
        for x in v:
            if isinstance(x, tuple) and mentions(x, sub):
                return True
    return False


def subst(v, table):
    """Replaces sub-terms."""
    if v in table:
        return table[v]
    if isinstance(v, tuple) and not (v and v[0] == 'c'):
        return tuple(subst(x, table) if isinstance(x, tuple) else x for x in v)
    return v


def show(v, depth=0):
    """A short readable form of a term."""
    if not isinstance(v, tuple) or not v:
        return str(v)
    if depth > 6:
        return '..'
    d = depth + 1
    tag = v[0]
    try:
        if tag == 'c':
            return repr(v[2])
        if tag == 't':
            return '(%s)' % ', '.join(show(x, d) for x in v[1])
        if tag == 'r':
            return '#%s' % (v[1],)
        if tag in ('x', 's'):
            return str(v[1])
        if tag in ('fld', 'a'):
            return '%s.%s' % (show(v[1], d), v[2])
        if tag == 'i':
            return '%s[%s]' % (show(v[1], d), show(v[2], d))
        if tag == 'call':
            __, fn, recv, args, kw, __ = v
            s = ', '.join([show(a, d) for a in args] +
                          ['%s=%s' % (k, show(a, d)) for k, a in kw])
            name = fn if isinstance(fn, str) else show(fn, d)
            if recv is not None:
                return '%s%s(%s)' % (show(recv, d),
                                     name if name != '()' else '', s)
            return '%s(%s)' % (name, s)
        if tag == 'op':
            if len(v) == 4:
                return '(%s %s %s)' % (show(v[2], d), v[1], show(v[3], d))
            return '%s(%s)' % (v[1], ', '.join(show(x, d) for x in v[2:]))
        if tag == 'elem':
            return 'each(%s)' % show(v[1], d)
        if tag == 'phi':
            return 'loopvar(%s)' % (v[2][-1] if isinstance(v[2], tuple)
                                    else v[2])
        if tag == 'truth':
            return 'bool(%s)' % show(v[1], d)
        if tag == 'cmp':
            return '%s %s %s' % (show(v[2], d), v[1], show(v[3], d))
        if tag == 'in':
            return '%s in %s' % (show(v[1], d), show(v[2], d))
        if tag == 'isinst':
            return 'isinstance(%s, %s)' % (show(v[1], d), show(v[2], d))
        if tag == 'not':
            return 'not %s' % show(v[1], d)
    except Exception:
        pass
    return '%s<%s>' % (tag, ', '.join(show(x, d) if isinstance(x, tuple)
                                      else str(x) for x in v[1:]))


class HObj(object):
    """An object of the abstract heap.

    attrs  fields (scopes: variables; classes, modules: namespace)
    parts  contents of a list or a deque: ('one', v), ('sym', v) all elements
           of v in order, ('loop', L, src, (parts, ...)) what a loop appended
    known  known members of dict or set: key -> value or ABSENT
    base   unknown initial contents of dict or set, or None
    """
    __slots__ = ('kind', 'cls', 'attrs', 'parts', 'known', 'base', 'meta',
                 'ver')

    def __init__(self, kind, cls=None, attrs=None, parts=None, known=None,
                 base=None, meta=None, ver=0):
        self.kind = kind
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.parts = parts
        self.known = known
        self.base = base
        self.meta = meta if meta is not None else {}
        self.ver = ver

    def copy(self):
        return HObj(self.kind, self.cls, dict(self.attrs),
                    list(self.parts) if self.parts is not None else None,
                    dict(self.known) if self.known is not None else None,
                    self.base, self.meta, self.ver)

    def same(self, o):
        return (self.kind == o.kind and self.attrs == o.attrs and
                self.parts == o.parts and self.known == o.known and
                self.base == o.base and self.ver == o.ver)


ABSENT = ('absent',)
UNBOUND = ('unbound',)


class Ev(object):
    """An event on a path."""
    __slots__ = ('k', 'fn', 'recv', 'args', 'kw', 'res', 'exc', 'loc', 'x',
                 'func', 'depth')

    def __init__(self, k, fn=None, recv=None, args=(), kw=(), res=None,
                 exc=None, loc=None, x=None, func=None, depth=0):
        self.k = k
        self.fn = fn
        self.recv = recv
        self.args = args
        self.kw = kw
        self.res = res
        self.exc = exc
        self.loc = loc
        self.x = x
        self.func = func
        self.depth = depth

    def __repr__(self):
        if self.k == 'call':
            s = ', '.join([show(a) for a in self.args] +
                          ['%s=%s' % (k, show(v)) for k, v in self.kw])
            r = '' if self.recv is None else show(self.recv)
            n = self.fn
            if n == '()':
                n = ''
            out = 'call %s%s(%s)' % (r + (' ' if r and n and n[0] != '.'
                                          else ''), n, s)
            if self.exc is not None:
                out += ' !raises'
            return out
        if self.k in ('store', 'setitem', 'delitem', 'delattr', 'load'):
            return '%s %s %s = %s' % (
                self.k, show(self.recv),
                self.fn if isinstance(self.fn, str) else show(self.fn),
                show(self.args[0]) if self.args else '')
        if self.k == 'cond':
            return 'cond %s -> %s' % (show(self.fn), self.x)
        if self.k == 'yield':
            return 'yield %s' % show(self.args[0])
        if self.k == 'loop':
            return 'loop %s over %s {%s}' % (
                self.x.id, show(self.x.src) if self.x.src else None,
                ' | '.join('; '.join(map(repr, s.events)) + ' =>' + str(s.kind)
                           for s in self.x.segs))
        return '%s %s' % (self.k, self.fn)


class Seg(object):
    """One path through the body of a loop, from loop head to loop head."""
    __slots__ = ('events', 'kind', 'st')

    def __init__(self, events, kind, st):
        self.events = events
        self.kind = kind
        self.st = st


class LoopInfo(object):
    __slots__ = ('id', 'src', 'segs', 'phis', 'loc', 'node', 'func', 'kind')

    def __init__(self, id, src, loc, node, func, kind):
        self.id = id
        self.src = src
        self.segs = []
        #: (obj, attr or '*') -> (init value, [next value per segment])
        self.phis = {}
        self.loc = loc
        self.node = node
        self.func = func
        self.kind = kind


class State(object):
    __slots__ = ('base', 'heap', 'owned', 'facts', 'trace', 'n', 'pend',
                 'types', 'nev')

    def __init__(self, base=None):
        self.base = base or {}
        self.heap = {}
        self.owned = set()
        self.facts = {}
        self.trace = None
        self.n = 0
        self.pend = {}
        self.types = {}
        self.nev = 0

    def fork(self):
        st = State.__new__(State)
        st.base = self.base
        st.heap = dict(self.heap)
        self.owned = set()
        st.owned = set()
        st.facts = dict(self.facts)
        st.trace = self.trace
        st.n = self.n
        st.pend = dict(self.pend)
        st.types = dict(self.types)
        st.nev = self.nev
        return st

    def get(self, v):
        o = self.heap.get(v)
        if o is None:
            o = self.base.get(v)
        return o

    def mut(self, v):
        o = self.heap.get(v)
        if o is None:
            o = self.base.get(v)
            if o is None:
                o = HObj('open')
            else:
                o = o.copy()
            self.heap[v] = o
            self.owned.add(v)
        elif v not in self.owned:
            o = o.copy()
            self.heap[v] = o
            self.owned.add(v)
        return o

    def add(self, ev):
        self.trace = (self.trace, ev)
        self.nev += 1

    def events(self, upto=None):
        out = []
        t = self.trace
        while t is not None and t is not upto:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out
