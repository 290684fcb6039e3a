"""A path-sensitive abstract interpreter for the Python subset of the target.

It never runs the target: values are terms (terms.py), unknown conditions split
the path, loops over unknown data are summarised by one generic iteration (what
the body changes is replaced by loop variables until nothing new changes),
calls inside the repository are followed, calls out of it become events.
"""
import ast
import string
import builtins as _bi
import errno as _errno
import io
import os
import re
import signal as _signal
import struct as _struct
import time
import tokenize
from zlib import crc32 as _crc

from .terms import *  # noqa


def sliceable(parts, sl):
    """Whether the slice of the parts is the slice of the list."""
    if not all(is_c(x) for x in sl):
        return False
    if all(p[0] == 'one' for p in parts):
        return True
    ones = 0
    while parts[ones][0] == 'one':
        ones += 1
    lo, hi, step = (x[2] for x in sl)
    return step in (None, 1) and (lo is None or 0 <= lo <= ones) and (
        hi is None or 0 <= hi <= ones)


def nonempty_text(v):
    """Whether a formatted text has some letters, whatever is filled in."""
    if v[1] == '.format' and v[2] is not None and is_c(v[2]) and \
            isinstance(v[2][2], str):
        try:
            parts = list(string.Formatter().parse(v[2][2]))
        except ValueError:
            return False
        return any(lit or (spec and '%' in spec[:-1])
                   for lit, __, spec, __ in parts)
    if v[1].endswith('.strftime') and v[3] and is_c(v[3][0]) and \
            isinstance(v[3][0][2], str):
        return any(x in v[3][0][2] for x in ('%H', '%M', '%S', '%Y', '%d'))
    return False


class Undecided(Exception):
    """The analysis met a construct it cannot follow."""


class Limit(Undecided):
    pass


#: errors which are raised without a number also.
NUMBERLESS = (X('builtins.OSError'), X('builtins.TimeoutError'))


class Deadline(object):
    """When the analysis of a rule has to give up."""
    at = None
    ticks = 0

    @classmethod
    def check(cls):
        cls.ticks += 1
        if cls.ticks % 256 == 0 and cls.at is not None and \
                time.time() > cls.at:
            raise Limit('the time is up')


CANON = {
    'socket.error': 'builtins.OSError', 'select.error': 'builtins.OSError',
    'os.error': 'builtins.OSError', 'builtins.IOError': 'builtins.OSError',
    'builtins.EnvironmentError': 'builtins.OSError',
    'socket.timeout': 'builtins.TimeoutError',
    '_pickle': 'pickle', 'cPickle': 'pickle',
    'six.itervalues': 'six.itervalues',
    'builtins.long': 'builtins.int', 'builtins.unicode': 'builtins.str',
    'builtins.xrange': 'builtins.range',
}
CANON_PREFIX = [
    ('six.moves.builtins', 'builtins'), ('six.moves.configparser', 'configparser'),
    ('six.moves._thread', '_thread'), ('thread.', '_thread.'),
    ('six.moves.zip', 'builtins.zip'), ('six.moves.range', 'builtins.range'),
    ('six.moves.map', 'builtins.map'), ('six.moves.filter', 'builtins.filter'),
    ('six.moves.reduce', 'functools.reduce'),
    ('six.moves.cPickle', 'pickle'), ('ConfigParser.', 'configparser.'),
    ('__builtin__', 'builtins'),
]
MISSING = set(['cPickle', '__pypy__', 'profiling.speedup', 'ConfigParser',
               '__builtin__', 'thread'])


class _Signals(int):
    """Stands for signal.Signals."""


def signal_number(v):
    """The number of a signal, False for what is no number, or None."""
    if v[0] == 'c':
        return v[2] if isinstance(v[2], int) else None
    if v[0] != 'x' or not v[1].startswith('signal.'):
        return None
    n = getattr(_signal, v[1][7:], None)
    return int(n) if isinstance(n, int) else None if n is None else False


def known_class(name):
    mod, __, n = name.rpartition('.')
    if name == 'signal.Signals':
        return _Signals
    v = getattr(_bi, n, None) if mod == 'builtins' else None
    return v if isinstance(v, type) else None


#: What every function has.
FUNC_ATTRS = frozenset(dir(object)) | frozenset([
    '__closure__', '__defaults__', '__dict__', '__doc__', '__globals__',
    '__kwdefaults__', '__module__', '__annotations__', '__call__', '__get__',
    'func_code', 'func_name', 'func_globals', 'func_defaults', 'func_dict'])


def canon(name):
    for a, b in CANON_PREFIX:
        if name == a or name.startswith(a + '.') or (
                a.endswith('.') and name.startswith(a)):
            name = b + name[len(a):]
    return CANON.get(name, name)


def is_gen_node(node):
    if isinstance(node, ast.Lambda):
        return False
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                          ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def local_names(node):
    """Names bound in a function body."""
    out, glob, nonl = set(), set(), set()
    a = node.args
    for x in list(getattr(a, 'posonlyargs', [])) + a.args + a.kwonlyargs:
        out.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x is not None:
            out.add(x.arg)
    todo = [node.body] if isinstance(node, ast.Lambda) else list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef,
                          ast.AsyncFunctionDef)):
            out.add(n.name)
            todo.extend(n.decorator_list)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            # walrus inside is not used here.
            todo.append(n.generators[0].iter)
            continue
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                            ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split('.')[0])
        todo.extend(ast.iter_child_nodes(n))
    return out - glob - nonl, glob, nonl


def fix_source(src):
    """`async` was an ordinary name for the older Python this is written for:
    rename it where a modern parser would stumble."""
    try:
        ast.parse(src)
        return src
    except SyntaxError:
        pass
    out = re.sub(r'\basync\s*\(', 'ensure_future(', src)
    out = re.sub(r'\.async\b', '.ensure_future', out)
    return out


class Module(object):
    def __init__(self, name, path, tree, source):
        self.name = name
        self.path = path
        self.tree = tree
        self.source = source


class Frame(object):
    __slots__ = ('scope', 'fscope', 'module', 'func', 'handler', 'qual',
                 'depth', 'owner', 'selfv', 'classref', 'exc')

    def __init__(self, scope, module, func=None, handler=None, qual='',
                 depth=0, owner=None, fscope=None, selfv=None):
        self.scope = scope
        self.fscope = fscope if fscope is not None else scope
        self.module = module
        self.func = func
        self.handler = handler
        self.qual = qual
        self.depth = depth
        self.owner = owner
        self.selfv = selfv
        self.classref = None
        self.exc = None


PURE = set('''builtins.len builtins.max builtins.min builtins.abs builtins.float
builtins.int builtins.str builtins.bool builtins.round builtins.hash builtins.id
builtins.type builtins.repr builtins.callable builtins.chr builtins.ord
builtins.divmod builtins.bytes builtins.all builtins.any builtins.bytearray
os.path.basename os.path.join os.path.getmtime struct.pack struct.calcsize
struct.unpack stat.S_ISREG stat.S_ISSOCK datetime.datetime.fromtimestamp
builtins.issubclass pickle.dumps pickle.loads os.WEXITSTATUS os.WIFEXITED
os.WIFSIGNALED os.WTERMSIG inspect.getmodule struct.Struct
'''.split())

PURE_METHODS = set('''startswith endswith format title upper lower isdigit join
split rpartition partition strip lstrip rstrip encode decode index count
total_seconds replace splitlines fileno getvalue tell keys values items
iterkeys itervalues iteritems'''.split())

#: All members of classes of other packages which the target extends.
EXT_MEMBERS = {
    'gevent.server.StreamServer': set('''__init__ __repr__ __str__ __enter__
__exit__ __dict__ __doc__ set_listener set_spawn set_handle start stop close
serve_forever start_accepting stop_accepting do_handle do_read do_close
do_listen full server_host server_port init_socket started closed handle
_handle is_fatal_error wrap_socket_and_handle get_listener get_socket
get_environ min_delay max_delay delay max_accept stop_timeout fatal_errors
_spawn pool loop address family ssl_args ssl_enabled socket backlog
reuse_addr _default_delay _start_accepting_if_started _start_receiving
_stop_event kill wrap_socket cert_reqs keyfile certfile temp_dir
update_environ _watcher _timer _do_read _error _connections'''.split()),
}

MUTATORS = set('''append appendleft add remove discard pop popleft popitem
clear update extend extendleft insert setdefault sort reverse __setitem__
__delitem__ rotate difference_update intersection_update'''.split())

NEVER_RAISE = set('''builtins.len builtins.id builtins.type builtins.hash
builtins.repr builtins.callable builtins.bool time.clock time.time
builtins.abs builtins.max builtins.min builtins.round itertools.count'''.split())


class Interp(object):

    MAXPATHS = 6000
    MAXDEPTH = 40
    #: A range which is followed number by number.
    ROUNDS = 24

    def __init__(self, modules, config=None):
        self.modules = modules          # name -> Module
        self.config = dict(config or {})
        self.counter = 0
        self.loopn = 0
        self.modrefs = {}
        self.world = State()
        self.loading = []
        self.opaque = set()
        self.policy = None              # (ev, st, fr) -> None | [exc, ...]
        self.rets = {}                  # fn -> (interp, st, ev) -> value
        self.elem_types = None          # (st, src) -> (cls, exact) | None
        self.field_types = {}
        self.ret_types = {}
        self.trydepth = 0
        self.stack = []
        self.notes = []
        self.functions = {}             # qual -> funcref
        self.classes = {}               # qual -> classref
        self.subclasses = {}            # classref -> set(classref)
        self.visited = set()
        self.click = {}                 # funcref -> [param]
        self.loops = {}
        self.steps = 0
        self.recursions = set()
        self.inline_limit = 8
        self.yield_raises = ()
        self.escapes = True
        self.load_events = True
        self.const_override = {}
        self.ext_over = {}

    # -- basics ------------------------------------------------------------

    def new(self, st, obj):
        self.counter += 1
        ref = ('r', self.counter)
        st.heap[ref] = obj
        st.owned.add(ref)
        return ref

    def loc(self, node, fr):
        m = self.modules.get(fr.module)
        path = os.path.basename(m.path) if m else '?'
        if m:
            path = m.path
        return (path, getattr(node, 'lineno', 0))

    def event(self, st, fr, node, k, **kws):
        ev = Ev(k, loc=self.loc(node, fr) if node is not None else None,
                func=fr.qual if fr else None,
                depth=fr.depth if fr else 0, **kws)
        st.add(ev)
        return ev

    def tick(self, n=1):
        self.steps += n
        Deadline.check()
        if self.steps > 400000:
            raise Limit('analysis too large')

    # -- loading -----------------------------------------------------------

    def load(self):
        st = self.world
        for name in sorted(self.modules):
            self.import_module(st, name)
        return self

    def import_module(self, st, name):
        if name in self.modrefs:
            return self.modrefs[name]
        m = self.modules[name]
        obj = HObj('module', meta={'name': name, 'path': m.path})
        ref = self.new(st, obj)
        self.modrefs[name] = ref
        obj.attrs['__name__'] = C(name)
        is_pkg = os.path.basename(m.path) == '__init__.py'
        obj.attrs['__package__'] = C(
            name if is_pkg else name.rpartition('.')[0])
        obj.attrs['__file__'] = C(m.path)
        obj.attrs['__doc__'] = S('doc')
        # the parent package.
        parent = name.rpartition('.')[0]
        if parent and parent in self.modules and parent not in self.loading:
            self.loading.append(name)
            self.import_module(st, parent)
            self.loading.pop()
        self.loading.append(name)
        fr = Frame(ref, name, qual=name)
        for stmt in m.tree.body:
            outs = self.ex([stmt], st, fr)
            good = [o for o in outs if o[1] == 'n']
            if not good:
                raise Undecided('module %s, line %d: %s' % (
                    name, stmt.lineno, [(o[1], show(o[2]) if o[2] else '')
                                        for o in outs][:4]))
            if len(good) > 1:
                # what is decided by the environment: one outcome is kept.
                self.notes.append('%s:%d: one of %d module-level outcomes'
                                  % (m.path, stmt.lineno, len(good)))
            if good[0][0] is not st:
                s2 = good[0][0]
                st.heap, st.owned, st.facts = s2.heap, s2.owned, s2.facts
                st.trace, st.types = s2.trace, s2.types
                st.n, st.pend, st.nev = s2.n, s2.pend, s2.nev
        self.loading.pop()
        if parent and parent in self.modrefs:
            st.mut(self.modrefs[parent]).attrs.setdefault(
                name.rpartition('.')[2], ref)
        return ref

    def start_state(self):
        st = State()
        st.base = self.world.heap
        st.types = dict(self.world.types)
        return st

    def cls(self, name):
        """A class by name ('Profiler' or 'remote.client.ProfilingClient')."""
        hits = [r for q, r in self.classes.items()
                if q == name or q.endswith('.' + name)]
        if len(hits) == 1:
            return hits[0]
        exact = [r for q, r in self.classes.items() if q == name]
        if exact:
            return exact[0]
        return None

    def name_of(self, clsref, st=None):
        o = (st or self.world).get(clsref)
        if o is None:
            o = self.world.get(clsref)
        return o.meta.get('qual') if o else None

    # -- classes -----------------------------------------------------------

    def mro(self, st, cref):
        o = st.get(cref) or self.world.get(cref)
        return o.meta['mro']

    def calc_mro(self, st, ref, bases):
        seqs = []
        for b in bases:
            if b[0] == 'r' and st.get(b) is not None and \
                    st.get(b).kind == 'class':
                seqs.append(list(self.mro(st, b)))
            else:
                seqs.append([b])
        seqs.append([b for b in bases])
        out = [ref]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                head = s[0]
                if not any(head in x[1:] for x in seqs):
                    break
            else:
                raise Undecided('inconsistent mro')
            out.append(head)
            seqs = [[x for x in s if x != head] for s in seqs]
            seqs = [s for s in seqs if s]
        return tuple(out)

    def class_lookup(self, st, cref, name, after=None):
        """Returns (value, owner) or (None, None).  Owner may be external:
        then the value is ('ext', owner)."""
        mro = self.mro(st, cref)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else ()
        for c in mro:
            o = st.get(c) if c[0] == 'r' else None
            if o is not None and o.kind == 'class':
                if name in o.attrs:
                    return o.attrs[name], c
            elif c != X('builtins.object') and c != X('builtins.type'):
                known = EXT_MEMBERS.get(c[1])
                if known is not None and name not in known:
                    continue
                return ('ext', c), c
        return None, None

    def ext_base(self, st, cref):
        return any(c[0] != 'r' and c not in (X('builtins.object'),
                                             X('builtins.type'))
                   for c in self.mro(st, cref))

    def is_subclass(self, st, c, d):
        """True/False/None for class values."""
        if c == d:
            return True
        if d == X('builtins.object'):
            return True
        if c[0] == 'r':
            mro = self.mro(st, c)
            if d in mro:
                return True
            if d[0] == 'r':
                return False
            for b in mro:
                if b[0] == 'x':
                    r = self.is_subclass(st, b, d)
                    if r is not False:
                        return r
            return False
        if c == X('signal.Signals') and d == X('builtins.int'):
            return True
        if c[0] == 'x' and d[0] == 'x':
            pc, pd = pyexc(c[1]), pyexc(d[1])
            if pc and pd:
                return issubclass(pc, pd)
            if pc and not pd:
                return False
            if pd and not pc:
                if c[1].startswith('builtins.'):
                    return False
                # an external exception class.
                if d[1] in ('builtins.Exception', 'builtins.BaseException'):
                    return True
                if c[1] in ('click.UsageError',) or c[1].startswith((
                        'configparser.', 'click.', 'urwid.')):
                    return False
                return None
            return False
        if c[0] == 'x' and d[0] == 'r':
            return False
        return None

    def make_class(self, st, name, bases, ns, fr, qual, ref=None, meta=None):
        if ref is None:
            self.counter += 1
            ref = ('r', self.counter)
        bases = list(bases) or [X('builtins.object')]
        slots = ns.get('__slots__')
        if slots is not None and slots[0] == 't':
            for a in slots[1]:
                if is_c(a) and a[2] not in ns:
                    ns[a[2]] = ('slot', a[2])
        obj = HObj('class', attrs=ns)
        st.heap[ref] = obj
        st.owned.add(ref)
        obj.meta = {'name': name, 'qual': qual, 'bases': tuple(bases),
                    'module': fr.module}
        obj.meta['mro'] = self.calc_mro(st, ref, bases)
        if meta is None:
            for c in obj.meta['mro'][1:]:
                o = st.get(c) if c[0] == 'r' else None
                if o is not None and o.kind == 'class' and o.meta.get('meta'):
                    meta = o.meta['meta']
                    break
        obj.meta['meta'] = meta
        ns.setdefault('__name__', C(name))
        ns.setdefault('__module__', C(fr.module))
        self.classes[qual] = ref
        for c in obj.meta['mro'][1:]:
            self.subclasses.setdefault(c, set()).add(ref)
        return ref

    def exec_class(self, node, st, fr):
        """-> R of the class object."""
        qual = (fr.qual + '.' + node.name) if fr.qual else node.name
        out = []
        for st, vals, exc in self.evs(list(node.bases) +
                                      [k.value for k in node.keywords],
                                      st, fr):
            if exc is not None:
                out.append((st, None, exc))
                continue
            bases = vals[:len(node.bases)]
            meta = None
            for k, v in zip(node.keywords, vals[len(node.bases):]):
                if k.arg == 'metaclass':
                    meta = v
            real = []
            for b in bases:
                if b[0] == 'withmeta':
                    meta = b[1]
                    real.extend(b[2])
                else:
                    real.append(b)
            if meta is None:
                for b in real:
                    o = st.get(b) if b[0] == 'r' else None
                    if o is not None and o.kind == 'class' and \
                            o.meta.get('meta'):
                        meta = o.meta['meta']
            self.counter += 1
            ref = ('r', self.counter)
            scope = self.new(st, HObj('scope', meta={
                'parent': fr.fscope, 'kind': 'class', 'module': fr.module,
                'locals': None}))
            f2 = Frame(scope, fr.module, qual=qual, depth=fr.depth,
                       fscope=fr.fscope, owner=ref)
            f2.classref = ref
            for st2, kind, val in self.ex(node.body, st, f2):
                if kind == 'raise':
                    out.append((st2, None, val))
                    continue
                ns = dict(st2.get(scope).attrs)
                mo = st2.get(meta) if meta and meta[0] == 'r' else None
                if mo is not None and '__new__' in mo.attrs:
                    nsref = self.new(st2, HObj('dict', known=dict(
                        (C(k), v) for k, v in ns.items())))
                    self._pending_class = (ref, qual, meta, fr)
                    new = mo.attrs['__new__']
                    if st2.get(new) and st2.get(new).kind == 'staticmethod':
                        new = st2.get(new).meta['f']
                    for st3, v, exc in self.call(
                            st2, new, [meta, C(node.name),
                                       ('t', tuple(real)), nsref], {},
                            node, fr):
                        out.append((st3, v, exc))
                else:
                    self.make_class(st2, node.name, real, ns, fr, qual,
                                    ref, meta)
                    out.append((st2, ref, None))
        return out

    # -- functions ---------------------------------------------------------

    def make_func(self, node, st, fr, name=None):
        """-> R of the function object."""
        a = node.args
        defs = list(a.defaults) + [d for d in a.kw_defaults if d is not None]
        out = []
        name = name or getattr(node, 'name', '<lambda>')
        for st, vals, exc in self.evs(defs, st, fr):
            if exc is not None:
                out.append((st, None, exc))
                continue
            nd = len(a.defaults)
            pos = [x.arg for x in list(getattr(a, 'posonlyargs', [])) + a.args]
            defaults = {}
            for p, v in zip(pos[len(pos) - nd:], vals[:nd]):
                defaults[p] = v
            it = iter(vals[nd:])
            for p, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    defaults[p.arg] = next(it)
            qual = (fr.qual + '.' + name) if fr.qual else name
            locs, globs, nonl = local_names(node)
            obj = HObj('func', meta={
                'node': node, 'name': name, 'qual': qual,
                'module': fr.module, 'scope': fr.fscope, 'pos': pos,
                'kwonly': [x.arg for x in a.kwonlyargs],
                'vararg': a.vararg.arg if a.vararg else None,
                'kwarg': a.kwarg.arg if a.kwarg else None,
                'defaults': defaults, 'gen': is_gen_node(node),
                'locals': locs, 'globals': globs, 'owner': fr.classref})
            obj.attrs['__name__'] = C(name)
            ref = self.new(st, obj)
            self.functions.setdefault(qual, ref)
            out.append((st, ref, None))
        return out

    def bind(self, st, fref, args, kw):
        """Binds arguments -> dict or None (TypeError)."""
        m = st.get(fref).meta
        out = {}
        pos = m['pos']
        rest = []
        i = 0
        star = None
        for a in args:
            if a[0] == 'star':
                star = a[1]
                rest.append(a)
                continue
            if star is not None:
                rest.append(a)
                continue
            if i < len(pos):
                out[pos[i]] = a
                i += 1
            else:
                rest.append(a)
        if star is not None and not m['vararg']:
            j = 0
            while i < len(pos) and pos[i] not in kw and \
                    pos[i] not in m['defaults']:
                out[pos[i]] = ('i', star, C(j))
                i += 1
                j += 1
            rest = []
        if rest and not m['vararg']:
            return None
        extra = {}
        for k, v in kw.items():
            if k == '**':
                extra['**'] = v
                continue
            if k in pos or k in m['kwonly']:
                if k in out:
                    return None
                out[k] = v
            else:
                extra[k] = v
        starkw = extra.get('**')
        if extra and not m['kwarg']:
            if set(extra) != set(['**']):
                return None
        for p in pos + m['kwonly']:
            if p not in out:
                if p in m['defaults']:
                    out[p] = m['defaults'][p]
                elif starkw is not None:
                    out[p] = ('i', starkw, C(p))
                elif star is not None:
                    out[p] = ('i', star, C(p))
                else:
                    return None
        if m['vararg']:
            if len(rest) == 1 and rest[0][0] == 'star':
                out[m['vararg']] = rest[0][1]
            else:
                out[m['vararg']] = ('t', tuple(rest))
        if m['kwarg']:
            if set(extra) == set(['**']):
                out[m['kwarg']] = extra['**']
            else:
                base = extra.pop('**', None)
                out[m['kwarg']] = self.new(st, HObj('dict', known=dict(
                    (C(k), v) for k, v in extra.items()), base=base))
        return out

    def is_opaque(self, st, fref):
        o = st.get(fref)
        if not self.opaque:
            return None
        q = o.meta['qual']
        if q in self.opaque:
            return q
        parts = q.split('.')
        for n in (1, 2, 3):
            s = '.'.join(parts[-n:])
            if s in self.opaque:
                return s
        return None

    def call_func(self, st, fref, args, kw, node, fr, selfv=None):
        o = st.get(fref)
        m = o.meta
        bound = self.bind(st, fref, args, kw)
        if bound is None:
            ev = self.event(st, fr, node, 'badcall', fn=m['qual'],
                            args=tuple(args), kw=tuple(sorted(kw.items(),
                                                              key=str)))
            n = st.n = st.n + 1
            return [(st, None, ('exc', X('builtins.TypeError'),
                                (C('arguments of ' + m['qual']),), n))]
        op = self.is_opaque(st, fref)
        if op:
            first = m['pos'][0] if m['pos'] else None
            recv = None
            if m['owner'] is not None and first and args:
                recv = bound.get(first)
                names = [p for p in bound if p != first]
            else:
                names = list(bound)
            return self.opaque_call(
                st, fr, node, op, recv, (),
                dict((p, bound[p]) for p in names), repo=fref)
        depth = sum(1 for q in self.stack if q == m['qual'])
        limit = self.inline_limit
        if depth >= limit:
            self.recursions.add(m['qual'])
            if depth >= self.deepest or not self.concrete_ok:
                raise Limit('recursion of ' + m['qual'])
        if len(self.stack) > self.MAXDEPTH:
            raise Limit('call depth')
        scope = self.new(st, HObj('scope', attrs=bound, meta={
            'parent': m['scope'], 'kind': 'func', 'module': m['module'],
            'locals': m['locals'], 'globals': m['globals']}))
        f2 = Frame(scope, m['module'], func=fref, qual=m['qual'],
                   depth=fr.depth + 1, owner=m['owner'],
                   selfv=bound.get(m['pos'][0]) if m['pos'] else None)
        if m['gen']:
            g = self.new(st, HObj('gen', meta={'frame': f2, 'func': fref,
                                               'qual': m['qual'],
                                               'bound': bound}))
            self.event(st, fr, node, 'mkgen', fn=m['qual'], res=g)
            return [(st, g, None)]
        self.visited.add(m['qual'])
        return self.run_body(st, f2, node, fr)

    concrete_ok = False
    maxstack = 0
    #: An object whose attributes are the attributes of other packages which
    #: the scenario knows or the target stored ('sys.argv').
    xworld = None

    def run_body(self, st, f2, node, fr):
        m = st.get(f2.func).meta
        fnode = m['node']
        self.stack.append(m['qual'])
        if len(self.stack) > self.maxstack:
            self.maxstack = len(self.stack)
        try:
            if isinstance(fnode, ast.Lambda):
                return self.ev(fnode.body, st, f2)
            if fr is not None and fr.depth >= 0 and fr.func is not None:
                self.event(st, f2, fnode, 'enter', fn=m['qual'])
            out = []
            for s, kind, val in self.ex(fnode.body, st, f2):
                if kind == 'ret':
                    out.append((s, val, None))
                elif kind == 'raise':
                    out.append((s, None, val))
                else:
                    out.append((s, NONE, None))
            return out
        finally:
            self.stack.pop()

    def run_gen(self, st, gref, handler, node, fr):
        """Runs a generator of the repository; each yield calls the handler.
        -> statement outcomes ('n' or 'raise')."""
        o = st.mut(gref)
        if o.meta.get('started'):
            raise Undecided('generator resumed')
        o.meta = dict(o.meta, started=True)
        f0 = o.meta['frame']
        f2 = Frame(f0.scope, f0.module, func=f0.func, handler=handler,
                   qual=f0.qual, depth=f0.depth, owner=f0.owner,
                   selfv=f0.selfv)
        m = st.get(f0.func).meta
        self.visited.add(m['qual'])
        depth = sum(1 for q in self.stack if q == m['qual'])
        if depth >= self.inline_limit and not (self.concrete_ok and
                                               depth < 24):
            self.recursions.add(m['qual'])
            raise Undecided('recursive generator ' + m['qual'])
        self.stack.append(m['qual'])
        if len(self.stack) > self.maxstack:
            self.maxstack = len(self.stack)
        try:
            out = []
            for s, kind, val in self.ex(m['node'].body, st, f2):
                if kind == 'raise':
                    out.append((s, 'raise', val))
                else:
                    out.append((s, 'n', val if kind == 'ret' else NONE))
            return out
        finally:
            self.stack.pop()

    # -- conditions --------------------------------------------------------

    def ver(self, st, v):
        o = st.get(v)
        return o.ver if o is not None else 0

    def nonnone(self, st, v):
        t = v[0]
        if t == 'c':
            return v[2] is not None
        if t == 'r':
            return True
        if t in ('t', 'x', 'bm', 'exc', 'super', 'star', 'cmp', 'truth',
                 'not', 'in', 'isinst', 'excsub', 'kwd'):
            return True
        if t == 'op':
            return True
        if t == 'uexc':
            return True
        if self.type_of(st, v) is not None:
            return True
        if t == 'call' and isinstance(v[1], str) and (
                v[1] in PURE and v[1] not in ('inspect.getmodule',
                                              'pickle.loads')):
            return True
        if t == 'call' and isinstance(v[1], str) and v[1] in (
                'functools.partial', 'socket.socket', 'threading.Thread',
                'threading.Event', 'io.BytesIO', 'time.time', 'time.clock',
                'datetime.datetime.now', '.format', '.join'):
            return True
        return None

    def truth_atom(self, st, v):
        """-> (True|False|None, atom)"""
        t = v[0]
        if t == 'c':
            return bool(v[2]), None
        if t == 't':
            return bool(v[1]), None
        if t in ('x', 'bm', 'exc', 'super', 'uexc'):
            return True, None
        if t == 'not':
            r, a = self.truth_atom(st, v[1])
            if r is None:
                return None, ('not', a)
            return (not r), None
        if t in ('cmp', 'in', 'isinst', 'excsub'):
            r = self.decide(st, v)
            return r, v
        if t == 'truth':
            return self.decide(st, v), v
        o = st.get(v)
        if o is not None and t == 'r':
            if o.kind in ('func', 'class', 'module', 'partial', 'gen',
                          'property', 'cm', 'cmfunc', 'object'):
                return True, None
            if o.kind == 'list':
                if any(p[0] == 'one' for p in o.parts):
                    return True, None
                if not o.parts:
                    return False, None
            elif o.kind in ('dict', 'set'):
                if any(x is not ABSENT for x in o.known.values()):
                    return True, None
                if o.base is None and not o.meta.get('loops'):
                    return False, None
            elif o.kind == 'inst':
                has = [n for n in ('__bool__', '__nonzero__', '__len__')
                       if self.class_lookup(st, o.cls, n)[0] is not None]
                if not has:
                    return True, None
        atom = ('truth', v, self.ver(st, v))
        # len(x) as truth of x.
        if t == 'call' and v[1] == 'builtins.len' and len(v[3]) == 1:
            return self.truth_atom(st, v[3][0])
        if t == 'call' and v[1] == 'builtins.bool' and len(v[3]) == 1:
            return self.truth_atom(st, v[3][0])
        if t == 'call' and nonempty_text(v):
            return True, None
        return self.decide(st, atom), atom

    def truth(self, st, v, node, fr):
        """Splits on the truth of a value -> [(st, bool)] or raises."""
        # objects of the repository with their own truth.
        if v[0] == 'r':
            o = st.get(v)
            if o is not None and o.kind == 'inst' and o.meta.get('closed'):
                for n in ('__bool__', '__nonzero__', '__len__'):
                    f, own = self.class_lookup(st, o.cls, n)
                    if f is not None and f[0] == 'r':
                        res = []
                        for s, val, exc in self.call(st, f, [v], {}, node,
                                                     fr):
                            if exc is None:
                                res.extend(self.truth(s, val, node, fr))
                        return res
        r, atom = self.truth_atom(st, v)
        if r is not None:
            return [(st, r)]
        return self.split(st, atom, node, fr)

    def split(self, st, atom, node, fr):
        neg = False
        while atom[0] == 'not':
            neg = not neg
            atom = atom[1]
        r = self.decide(st, atom)
        if r is not None:
            return [(st, r != neg)]
        s2 = st.fork()
        out = []
        for s, val in ((st, True), (s2, False)):
            if self.assume(s, atom, val):
                if node is not None:
                    self.event(s, fr, node, 'cond', fn=atom, x=val)
                out.append((s, val != neg))
        return out

    ORD = {'<': frozenset('<'), '<=': frozenset('<='), '>': frozenset('>'),
           '>=': frozenset('>='), '==': frozenset('='),
           '!=': frozenset('<>')}

    def by_identity(self, st, o):
        """Whether an object only equals itself."""
        if o.kind in ('class', 'func', 'module', 'object'):
            return True
        if o.kind != 'inst' or not o.meta.get('closed') or o.cls is None:
            return False
        return all(self.class_lookup(st, o.cls, n)[0] is None
                   for n in ('__eq__', '__cmp__'))

    def decide(self, st, atom):
        t = atom[0]
        if t == 'not':
            r = self.decide(st, atom[1])
            return None if r is None else not r
        if atom in st.facts:
            return st.facts[atom]
        if t == 'truth':
            v = atom[1]
            # x == 0, x is None decide truth.
            for c in (C(0), C(0.0), NONE, C(''), C(b''), FALSE):
                for op in ('is', '=='):
                    if st.facts.get(('cmp', op, v, c)) is True:
                        return False
            rel = st.facts.get(('ord', v, C(0)))
            if rel is not None:
                if rel == frozenset('='):
                    return False
                if '=' not in rel:
                    return True
            for (k, val) in list(st.facts.items()):
                if k[0] == 'in' and k[2] == v and k[3] == atom[2] and val:
                    return True
                if k[0] == 'cmp' and k[1] == '==' and val and k[2] == v and \
                        is_c(k[3]):
                    return bool(k[3][2])
            return None
        if t == 'cmp':
            op, a, b = atom[1:4]
            if op in ('is', '==') and a[0] == 'x' and b[0] == 'x' and \
                    known_class(a[1]) and known_class(b[1]):
                return known_class(a[1]) is known_class(b[1])
            if op == '==' and (a[0] == 'x' or b[0] == 'x'):
                m, n = signal_number(a), signal_number(b)
                if m is not None and n is not None:
                    return m is not False and n is not False and m == n or \
                        a == b
            if op == 'is':
                if a == b:
                    return True
                if b == NONE:
                    nn = self.nonnone(st, a)
                    if nn is not None:
                        return not nn
                    for k, val in st.facts.items():
                        if k[0] == 'truth' and k[1] == a and val:
                            return False
                        if k[0] == 'isinst' and k[1] == a and val:
                            return False
                        if k[0] == 'cmp' and k[1] == '==' and k[2] == a \
                                and val and k[3] != NONE:
                            return False
                    return None
                if a[0] == 'r' and b[0] == 'r':
                    return False
                if is_c(a) and is_c(b):
                    return a == b
                if a[0] == 'r' and b[0] == 'x' and known_class(b[1]):
                    # an object made here is no class of the library.
                    return False
                if (is_c(a) and b[0] in ('r', 't')) or \
                        (is_c(b) and a[0] in ('r', 't')):
                    return False
                for x, y in ((a, b), (b, a)):
                    o = st.get(x) if x[0] == 'r' else None
                    if o is not None and o.kind == 'object' and (
                            y[0] in ('s', 'x') or y[0] == 'call' and
                            not any(z == x for z in walk(y))):
                        # a sentinel which nobody else was given.
                        return False
                return None
            if op == '==':
                if a == b:
                    return True
                if is_c(a) and is_c(b):
                    return a[2] == b[2]
                oa, ob = st.get(a), st.get(b)
                if a[0] == 'r' and b[0] == 'r':
                    if oa and ob and oa.kind in ('class', 'func', 'module') \
                            and ob.kind in ('class', 'func', 'module'):
                        return False
                    if oa and ob and self.by_identity(st, oa) and \
                            self.by_identity(st, ob):
                        return False
                    return None
                if a[0] == 't' and b[0] == 't':
                    if len(a[1]) != len(b[1]):
                        return False
                    rs = [self.decide(st, self.mkcmp('==', x, y))
                          for x, y in zip(a[1], b[1])]
                    if all(r is True for r in rs):
                        return True
                    if any(r is False for r in rs):
                        return False
                    return None
                if b == NONE and self.nonnone(st, a):
                    return False
                if is_c(b):
                    for k, val in st.facts.items():
                        if k[0] == 'cmp' and k[1] == '==' and k[2] == a and \
                                val and is_c(k[3]) and k[3] != b:
                            return False
                        if k[0] == 'truth' and k[1] == a:
                            if val and not b[2]:
                                return False
                            if not val and b[2]:
                                return False
                if a[0] == 'x' and b[0] == 'x' and errno_name(a[1]) and \
                        errno_name(b[1]):
                    return errno_name(a[1]) == errno_name(b[1])
                if b[0] == 'x' and errno_name(b[1]):
                    for k, val in st.facts.items():
                        if k[0] == 'cmp' and k[1] == '==' and k[2] == a and \
                                val and k[3][0] == 'x' and \
                                errno_name(k[3][1]) and k[3] != b:
                            return False
                return None
            if op in ('<', '<=', '>', '>='):
                if a[0] == 't' and b[0] == 't' and all(
                        map(is_c, a[1] + b[1])):
                    a2 = ('c', '', tuple(x[2] for x in a[1]))
                    b2 = ('c', '', tuple(x[2] for x in b[1]))
                elif is_c(a) and is_c(b):
                    a2, b2 = a, b
                else:
                    a2 = None
                if a2 is not None:
                    try:
                        return {'<': a2[2] < b2[2], '<=': a2[2] <= b2[2],
                                '>': a2[2] > b2[2],
                                '>=': a2[2] >= b2[2]}[op]
                    except TypeError:
                        return None
                rel = st.facts.get(('ord', a, b))
                if rel is None:
                    rel = frozenset('<=>')
                if b == C(0):
                    for k, val in st.facts.items():
                        if k[0] == 'truth' and k[1] == a:
                            rel = rel & (frozenset('<>') if val
                                         else frozenset('='))
                want = self.ORD[op]
                if rel <= want:
                    return True
                if not (rel & want):
                    return False
                return None
        if t == 'in':
            a, b = atom[1], atom[2]
            if b[0] == 't':
                rs = [self.decide(st, self.mkcmp('==', a, x)) for x in b[1]]
                if any(r is True for r in rs):
                    return True
                if all(r is False for r in rs):
                    return False
                return None
            if is_c(b) and is_c(a):
                try:
                    return a[2] in b[2]
                except TypeError:
                    return None
            o = st.get(b)
            if o is not None and o.known is not None:
                a2 = self.canon_key(st, o, a)
                if a2 in o.known:
                    return o.known[a2] is not ABSENT
                if o.base is None and not o.meta.get('loops') and all(
                        self.decide(st, self.mkcmp('==', a, k)) is False
                        for k, x in o.known.items() if x is not ABSENT):
                    return False
            if o is not None and o.kind == 'list' and o.parts is not None:
                if any(p == ('one', a) for p in o.parts):
                    return True
                if not o.parts:
                    return False
                if all(p[0] == 'one' for p in o.parts):
                    rs = [self.decide(st, self.mkcmp('==', a, p[1]))
                          for p in o.parts]
                    if any(r is True for r in rs):
                        return True
                    if all(r is False for r in rs):
                        return False
            tr = st.facts.get(('truth', b, atom[3]))
            if tr is False:
                return False
            return None
        if t == 'isinst':
            v, c = atom[1], atom[2]
            return self.isinst(st, v, c)
        return None

    def isinst(self, st, v, c):
        if c[0] == 't':
            rs = [self.isinst(st, v, x) for x in c[1]]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if v[0] == 'c':
            py = getattr(_bi, c[1].rpartition('.')[2], None) \
                if c[0] == 'x' else None
            if isinstance(py, type):
                return isinstance(v[2], py)
            return False
        if v[0] == 't':
            return c in (X('builtins.tuple'), X('builtins.object'))
        if v[0] == 'bm' and c[0] == 'r':
            return False
        if v[0] == 'x' and known_class(v[1]) is not None:
            py = known_class(c[1]) if c[0] == 'x' else None
            return py is not None and isinstance(known_class(v[1]), py)
        o = st.get(v)
        if o is not None and v[0] == 'r':
            if o.kind == 'inst' and o.cls is not None:
                r = self.is_subclass(st, o.cls, c)
                if r is False and not o.meta.get('closed') and \
                        not o.meta.get('exact') and \
                        self.is_subclass(st, c, o.cls):
                    return None
                return r
            if o.kind in ('list', 'dict', 'set'):
                return c in (X('builtins.' + o.kind), X('builtins.object'))
            if o.kind == 'class':
                return c in (X('builtins.type'), X('builtins.object')) or \
                    (True if o.meta.get('meta') == c else False)
            if o.kind == 'func':
                return False
            if o.kind in ('staticmethod', 'classmethod', 'property'):
                return c in (X('builtins.' + o.kind), X('builtins.object'))
        ty = self.type_of(st, v)
        if ty is not None:
            r = self.is_subclass(st, ty[0], c)
            if r is True:
                return True
            if r is False:
                if ty[1]:
                    return False
                # a subclass of the known type may be a subclass of c.
                subs = self.subclasses.get(ty[0], set())
                if self.is_subclass(st, c, ty[0]) or any(
                        self.is_subclass(st, s, c) for s in subs):
                    return None
                return False
            return None
        if v[0] == 'exc':
            return self.is_subclass(st, v[1], c)
        return None

    def mkcmp(self, op, a, b):
        """A comparison atom in normal form (possibly negated)."""
        if op == '!=':
            return ('not', self.mkcmp('==', a, b))
        if op == 'is not':
            return ('not', self.mkcmp('is', a, b))
        if op in ('==', 'is'):
            if is_c(a) and not is_c(b):
                a, b = b, a
            elif a[0] == 'x' and b[0] not in ('c', 'x'):
                a, b = b, a
            elif not is_c(b) and b[0] != 'x' and repr(a) > repr(b):
                a, b = b, a
            if op == '==' and b == NONE:
                op = 'is'
            return ('cmp', op, a, b)
        # orderings: constant on the right, otherwise sorted.
        if is_c(a) and not is_c(b) or (
                not is_c(b) and not is_c(a) and repr(a) > repr(b)):
            a, b = b, a
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
        if op == '>=':
            return ('not', ('cmp', '<', a, b))
        if op == '<=':
            return ('not', ('cmp', '>', a, b))
        return ('cmp', op, a, b)

    def assume(self, st, atom, val):
        """Records a fact; False if it contradicts what is known."""
        if atom[0] == 'not':
            return self.assume(st, atom[1], not val)
        r = self.decide(st, atom)
        if r is not None:
            return r == val
        st.facts[atom] = val
        if atom[0] == 'cmp' and atom[1] in ('<', '>'):
            k = ('ord', atom[2], atom[3])
            rel = st.facts.get(k, frozenset('<=>'))
            want = self.ORD[atom[1]]
            rel = rel & (want if val else frozenset('<=>') - want)
            st.facts[k] = rel
            if not rel:
                return False
        if atom[0] == 'cmp' and atom[1] == '==':
            k = ('ord', atom[2], atom[3])
            rel = st.facts.get(k, frozenset('<=>'))
            rel = rel & (frozenset('=') if val else frozenset('<>'))
            st.facts[k] = rel
            if not rel:
                return False
        if atom[0] == 'isinst' and val and atom[2][0] in ('r', 'x'):
            old = self.type_of(st, atom[1])
            if old is None or self.is_subclass(st, atom[2], old[0]):
                if atom[2][0] == 'r':
                    st.types[atom[1]] = (atom[2], False)
        if atom[0] == 'in':
            o = st.mut(atom[2])
            if o.kind == 'open' or o.known is not None:
                if o.known is None:
                    o.known = {}
                    o.base = atom[2]
                if atom[1] not in o.known:
                    o.known[atom[1]] = ('i', atom[2], atom[1]) if val \
                        else ABSENT
        return True

    # -- types -------------------------------------------------------------

    def type_of(self, st, v):
        if v in st.types:
            return st.types[v]
        if v[0] == 'x':
            if v[1] in ('pickle.DEFAULT_PROTOCOL', 'pickle.HIGHEST_PROTOCOL'):
                return (X('builtins.int'), True)
            if v[1].startswith('signal.SIG') and v[1][10:11].isalpha():
                return (X('signal.Signals'), True)
            return None
        if v[0] == 'r':
            o = st.get(v)
            if o is not None and o.kind == 'inst':
                return (o.cls, True)
            return None
        if v[0] == 'a':
            ty = self.type_of(st, v[1])
            if ty is not None and ty[0][0] == 'r':
                for c in self.mro(st, ty[0]):
                    if (c, v[2]) in self.field_types:
                        return self.field_types[(c, v[2])]
            return None
        if v[0] == 'elem' and self.elem_types is not None:
            return self.elem_types(st, v[1])
        if v[0] == 'i' and self.elem_types is not None:
            return self.elem_types(st, v[1])
        if v[0] == 'call' and v[1] in self.ret_types:
            return self.ret_types[v[1]]
        if v[0] == 'phi':
            info = self.loops.get(v[1])
            if info is not None:
                p = info.phis.get(v[2])
                if p is not None:
                    return self.type_of(st, p[0]) if p[0] is not None and \
                        p[0] != UNBOUND else None
        return None

    def overridden(self, st, cref, name):
        """Whether a subclass in the repository overrides a member."""
        for s in self.subclasses.get(cref, ()):
            o = st.get(s) or self.world.get(s)
            if o is not None and name in o.attrs:
                return True
        return False

    # -- attributes --------------------------------------------------------

    def ga(self, st, v, name, node, fr):
        """getattr -> R"""
        self.tick()
        t = v[0]
        if t == 'call' and v[1] == 'struct.Struct' and len(v[3]) == 1 and \
                is_c(v[3][0]) and name in ('size', 'format'):
            try:
                return [(st, C(_struct.calcsize(v[3][0][2])) if
                         name == 'size' else v[3][0], None)]
            except (_struct.error, TypeError):
                pass
        if t == 'x':
            full = canon(v[1] + '.' + name)
            if full in self.const_override:
                return [(st, self.const_override[full], None)]
            if self.xworld is not None:
                xo = st.get(self.xworld)
                if xo is not None and full in xo.attrs:
                    return [(st, xo.attrs[full], None)]
            if full == 'sys.version_info':
                return [(st, T(C(3), C(9), C(18)), None)]
            if full == 'sys.maxsize':
                return [(st, X(full), None)]
            if full == 'signal.__dict__':
                return [(st, self.new(st, HObj('dict', known=dict(
                    (C(k), C(x) if isinstance(x, str) else X('signal.' + k))
                    for k, x in sorted(_signal.__dict__.items())
                    if not k.startswith('_') or k == '__name__'))), None)]
            if v[1] == 'errno' and isinstance(getattr(_errno, name, None),
                                              int):
                return [(st, C(getattr(_errno, name)), None)]
            if full in self.modules:
                return [(st, self.import_module(st, full), None)]
            if v[1] == 'signal' and name.startswith('SIG') and \
                    not hasattr(_signal, name):
                return self.attr_missing(st, v, name, node, fr, sure=True)
            return [(st, X(full), None)]
        if t == 'super':
            return self.ga_super(st, v, name, node, fr)
        if t == 'exc':
            if name in ('errno', 'strerror') and (
                    len(v[2]) >= 1 or v[1] in NUMBERLESS):
                i = ('errno', 'strerror').index(name)
                return [(st, v[2][i] if len(v[2]) > 1 else NONE, None)]
            if name == 'args':
                return [(st, ('t', v[2]), None)]
            return [(st, ('a', v, name), None)]
        if t == 'uexc' and name == 'args':
            # exc.args[0] is the errno of an OSError.
            return [(st, ('a', v, 'args'), None)]
        o = st.get(v)
        if o is None and t == 'r':
            o = self.world.get(v)
        if o is not None and name in o.attrs and o.kind in (
                'inst', 'open', 'func', 'partial', 'list', 'dict', 'set'):
            # data descriptors win, but the repository has none with setters
            # on instances that also store the same name.
            val = o.attrs[name]
            if val == ('deleted',):
                return self.attr_missing(st, v, name, node, fr, sure=True)
            return [(st, val, None)]
        if t == 'r':
            k = o.kind
            if k == 'module':
                if name in o.attrs:
                    return [(st, o.attrs[name], None)]
                sub = o.meta['name'] + '.' + name
                if sub in self.modules:
                    return [(st, self.import_module(st, sub), None)]
                if name[:2] != '__' and '__getattr__' not in o.attrs and \
                        not self.loading:
                    return self.attr_missing(st, v, name, node, fr,
                                             sure=True)
                return [(st, X(canon(sub)), None)]
            if k == 'class':
                return self.ga_class(st, v, name, node, fr)
            if k == 'inst':
                return self.ga_inst(st, v, o, o.cls, name, node, fr,
                                    exact=True)
            if k == 'func':
                if name == '__func__':
                    return [(st, v, None)]
                if name in ('__name__', '__qualname__'):
                    return [(st, C(o.meta['name']), None)]
                if name == '__code__':
                    return [(st, ('a', v, name), None)]
                return self.attr_missing(st, v, name, node, fr,
                                         sure=name not in FUNC_ATTRS)
            if k in ('staticmethod', 'classmethod') and name == '__func__':
                return [(st, o.meta['f'], None)]
            if k == 'partial':
                m = o.meta
                if name == 'func':
                    return [(st, m['f'], None)]
                if name == 'args':
                    return [(st, ('t', tuple(m['args'])), None)]
                return [(st, ('a', v, name), None)]
            if k == 'property' and name in ('setter', 'getter', 'deleter'):
                return [(st, ('propset', v, name), None)]
            return [(st, ('a', v, name), None)]
        if t == 'bm':
            if name == '__self__':
                return [(st, v[1], None)]
            if name == '__func__':
                return [(st, v[2], None)]
            f = st.get(v[2])
            if name == '__name__' and f is not None and f.kind == 'func':
                return [(st, C(f.meta['name']), None)]
            return [(st, ('a', v, name), None)]
        if t == 'a' and name == '__name__' and v[1][0] in ('r', 'call', 'o'):
            base = self.type_of(st, v[1])
            if base is not None and base[0][0] == 'r':
                m, own = self.class_lookup(st, base[0], v[2])
                f = st.get(m) if m is not None else None
                if f is not None and f.kind == 'func':
                    return [(st, C(f.meta['name']), None)]
        ty = self.type_of(st, v)
        if ty is not None and ty[0][0] == 'r':
            return self.ga_inst(st, v, o, ty[0], name, node, fr, exact=ty[1])
        if ty is not None and ty[0][0] == 'x':
            return [(st, ('a', v, name), None)]
        if t in ('c', 't'):
            if t == 'c' and not hasattr(v[2], name):
                return self.attr_missing(st, v, name, node, fr, sure=True)
            return [(st, ('a', v, name), None)]
        return self.attr_missing(st, v, name, node, fr, opaque=True)

    def attr_missing(self, st, v, name, node, fr, sure=False, opaque=False):
        """An attribute nothing is known about."""
        if sure:
            st.n += 1
            return [(st, None, ('exc', X('builtins.AttributeError'),
                                (C(name),), st.n))]
        out = []
        term = ('a', v, name)
        hk = ('cmp', 'hasattr', v, C(name))
        if opaque:
            known = st.facts.get(hk)
            if known is False:
                st.n += 1
                return [(st, None, ('exc', X('builtins.AttributeError'),
                                    (C(name),), st.n))]
            if known is None and self.catching(st, 'AttributeError'):
                s2 = st.fork()
                s2.facts[hk] = False
                if node is not None:
                    self.event(s2, fr, node, 'cond', fn=hk, x=False)
                s2.n += 1
                out.append((s2, None, ('exc', X('builtins.AttributeError'),
                                       (C(name),), s2.n)))
                st.facts[hk] = True
                if node is not None:
                    self.event(st, fr, node, 'cond', fn=hk, x=True)
        out.insert(0, (st, term, None))
        return out

    def catching(self, st, name):
        """Whether an active handler names this builtin exception class."""
        return any(name in h for h in self.handlers)

    handlers = ()
    #: How deep a recursion over known values is followed.
    deepest = 24

    def ga_class(self, st, cref, name, node, fr):
        o = st.get(cref)
        if name == '__name__':
            return [(st, C(o.meta['name']), None)]
        if name == '__mro__':
            return [(st, ('t', tuple(self.mro(st, cref))), None)]
        if name == '__class__':
            return [(st, o.meta.get('meta') or X('builtins.type'), None)]
        val, own = self.class_lookup(st, cref, name)
        if val is None:
            meta = o.meta.get('meta')
            if meta is not None and meta[0] == 'r':
                mv, mo = self.class_lookup(st, meta, name)
                if mv is not None and mv[0] == 'r':
                    return [(st, ('bm', cref, mv), None)]
            if name in ('__new__', '__init__', '__setattr__', '__getattr__'):
                return [(st, X('builtins.object.' + name), None)]
            return self.attr_missing(st, cref, name, node, fr, sure=True)
        if val[0] == 'ext':
            return [(st, ('a', cref, name), None)]
        vo = st.get(val) if val[0] == 'r' else None
        if vo is not None:
            if vo.kind == 'staticmethod':
                return [(st, vo.meta['f'], None)]
            if vo.kind == 'classmethod':
                return [(st, ('bm', cref, vo.meta['f']), None)]
            if vo.kind == 'inst':
                g, __ = self.class_lookup(st, vo.cls, '__get__')
                if g is not None and g[0] == 'r':
                    return self.call(st, g, [val, NONE, cref], {}, node, fr)
        return [(st, val, None)]

    def ga_inst(self, st, v, o, cref, name, node, fr, exact=True):
        if name == '__class__':
            if exact:
                return [(st, cref, None)]
            return [(st, ('call', 'builtins.type', None, (v,), (), 0), None)]
        if name == '__dict__':
            return [(st, ('a', v, '__dict__'), None)]
        if o is not None and name in o.attrs:
            val = o.attrs[name]
            if val == ('deleted',):
                return self.attr_missing(st, v, name, node, fr, sure=True)
            return [(st, val, None)]
        val, own = self.class_lookup(st, cref, name)
        if val is not None and val[0] == 'slot':
            if o is not None and o.meta.get('closed'):
                return self.attr_missing(st, v, name, node, fr, sure=True)
            return [(st, ('a', v, name), None)]
        if val is not None and val[0] != 'ext':
            return self.bind_attr(st, v, cref, val, own, name, node, fr,
                                  exact, o)
        closed = o is not None and o.meta.get('closed')
        if val is not None and val[0] == 'ext':
            return [(st, ('a', v, name), None)]
        if closed:
            return self.attr_missing(st, v, name, node, fr, sure=True)
        # a field: set by __init__ for sure?
        for c in self.mro(st, cref):
            if (c, name) in self.field_known:
                return [(st, ('a', v, name), None)]
        # abstract classes: a member only subclasses have
        return self.attr_missing(st, v, name, node, fr, opaque=True)

    field_known = frozenset()

    def bind_attr(self, st, v, cref, val, own, name, node, fr, exact, o=None):
        """Binds a class attribute to an instance."""
        vo = st.get(val) if val[0] == 'r' else None
        virtual = not exact and self.overridden(st, cref, name)
        if vo is not None and vo.kind == 'property':
            q = self.name_of(own, st) or ''
            opq = self.prop_opaque(q, name)
            if virtual or opq or vo.meta.get('fget') in (None, NONE):
                if self.load_events:
                    self.event(st, fr, node, 'load', fn=name, recv=v,
                               x=(cref, exact))
                return [(st, ('a', v, name), None)]
            if self.load_events:
                self.event(st, fr, node, 'load', fn=name, recv=v,
                           x=(cref, exact))
            return self.call(st, vo.meta['fget'], [v], {}, node, fr)
        if vo is not None and vo.kind == 'func':
            if virtual:
                return [(st, ('a', v, name), None)]
            return [(st, ('bm', v, val), None)]
        if vo is not None and vo.kind == 'staticmethod':
            return [(st, vo.meta['f'], None)]
        if vo is not None and vo.kind == 'classmethod':
            return [(st, ('bm', ('call', 'builtins.type', None, (v,), (), 0)
                          if not exact else cref, vo.meta['f']), None)]
        if vo is not None and vo.kind == 'inst':
            g, __ = self.class_lookup(st, vo.cls, '__get__')
            if g is not None and g[0] == 'r':
                return self.call(st, g, [val, v, cref], {}, node, fr)
        if vo is not None and vo.kind in ('cmfunc', 'wrapped'):
            return [(st, ('bm', v, val), None)]
        # plain data: the instance may have its own value.
        closed = o is not None and o.meta.get('closed')
        if closed or name.startswith('__') or name == 'table_class' or \
                self.class_const(st, own, cref, name, val):
            return [(st, val, None)]
        return [(st, ('a', v, name), None)]

    def prop_opaque(self, q, name):
        return (q.rpartition('.')[2] + '.' + name) in self.opaque or \
            ('.' + name) in self.opaque

    def class_const(self, st, own, cref, name, val):
        """A class attribute that nothing in the repository stores to."""
        return name not in self.stored_names and not self.overridden(
            st, cref, name)

    stored_names = frozenset()

    def ga_super(self, st, v, name, node, fr):
        __, after, selfv, cref = v
        val, own = self.class_lookup(st, cref, name, after=after)
        if val is None:
            if name == '__init__':
                return [(st, X('builtins.object.__init__'), None)]
            if name == '__new__':
                if X('builtins.type') in self.mro(st, cref):
                    return [(st, X('builtins.type.__new__'), None)]
                return [(st, X('builtins.object.__new__'), None)]
            if name == '__call__':
                return [(st, ('typecall', selfv), None)]
            return self.attr_missing(st, v, name, node, fr, sure=True)
        if val[0] == 'ext':
            return [(st, ('a', ('super_ext', val[1], selfv), name), None)]
        vo = st.get(val) if val[0] == 'r' else None
        if vo is not None and vo.kind == 'property':
            return self.call(st, vo.meta['fget'], [selfv], {}, node, fr)
        if vo is not None and vo.kind in ('func', 'cmfunc'):
            if name == '__new__':
                return [(st, val, None)]
            return [(st, ('bm', selfv, val), None)]
        if vo is not None and vo.kind == 'classmethod':
            return [(st, ('bm', selfv, vo.meta['f']), None)]
        if vo is not None and vo.kind == 'staticmethod':
            return [(st, vo.meta['f'], None)]
        return [(st, val, None)]

    def sa(self, st, v, name, val, node, fr):
        """setattr -> R"""
        t = v[0]
        o = st.get(v)
        cref = None
        exact = True
        if o is not None and o.kind == 'inst':
            cref = o.cls
        elif t != 'r':
            ty = self.type_of(st, v)
            if ty is not None and ty[0][0] == 'r':
                cref, exact = ty
        if cref is not None:
            cv, own = self.class_lookup(st, cref, name)
            vo = st.get(cv) if cv is not None and cv[0] == 'r' else None
            if vo is not None and vo.kind == 'property':
                fset = vo.meta.get('fset')
                if fset in (None, NONE):
                    st.n += 1
                    self.event(st, fr, node, 'store', fn=name, recv=v,
                               args=(val,), x='readonly')
                    return [(st, None, ('exc', X('builtins.AttributeError'),
                                        (C(name),), st.n))]
                self.event(st, fr, node, 'setprop', fn=name, recv=v,
                           args=(val,))
                return self.call(st, fset, [v, val], {}, node, fr)
        old = None
        if o is not None:
            old = o.attrs.get(name)
        self.event(st, fr, node, 'store', fn=name, recv=v, args=(val,),
                   x=old)
        if t == 'x':
            if self.xworld is not None and st.get(self.xworld) is not None:
                st.mut(self.xworld).attrs[canon(v[1] + '.' + name)] = val
            return [(st, NONE, None)]
        st.mut(v).attrs[name] = val
        return [(st, NONE, None)]

    # -- expressions -------------------------------------------------------

    def evs(self, exprs, st, fr):
        """Evaluates expressions in order -> [(st, [values], exc)]"""
        outs = [(st, [], None)]
        for e in exprs:
            nxt = []
            for s, vals, exc in outs:
                if exc is not None:
                    nxt.append((s, None, exc))
                    continue
                for s2, v, x in self.ev(e, s, fr):
                    nxt.append((s2, None if x is not None else vals + [v], x))
            outs = nxt
        return outs

    def ev(self, e, st, fr):
        self.tick()
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Undecided('expression %s' % type(e).__name__)
        return m(e, st, fr)

    def ev_Constant(self, e, st, fr):
        if e.value is Ellipsis:
            return [(st, X('builtins.Ellipsis'), None)]
        return [(st, C(e.value), None)]

    def lookup(self, st, name, fr):
        """-> value or None"""
        sc = fr.scope
        first = True
        while sc is not None:
            o = st.get(sc)
            if o is None:
                o = self.world.get(sc)
            if o.kind == 'module':
                if name in o.attrs:
                    return o.attrs[name]
                break
            if not (o.meta.get('kind') == 'class' and not first):
                if name in o.attrs and name not in o.meta.get('globals', ()):
                    return o.attrs[name]
                if o.meta.get('locals') is not None and \
                        name in o.meta['locals']:
                    return UNBOUND
            first = False
            sc = o.meta.get('parent')
        mod = self.modrefs.get(fr.module)
        if mod is not None:
            o = st.get(mod) or self.world.get(mod)
            if name in o.attrs:
                return o.attrs[name]
        if hasattr(_bi, name) or name in ('long', 'unicode', 'basestring',
                                          'xrange', 'reduce', 'unichr'):
            return X(canon('builtins.' + name))
        return None

    def ev_Name(self, e, st, fr):
        v = self.lookup(st, e.id, fr)
        if v is None or v == UNBOUND:
            self.event(st, fr, e, 'unbound', fn=e.id)
            st.n += 1
            cls = 'NameError' if v is None else 'UnboundLocalError'
            return [(st, None, ('exc', X('builtins.' + cls), (C(e.id),),
                                st.n))]
        return [(st, v, None)]

    def ev_Attribute(self, e, st, fr):
        out = []
        for s, v, exc in self.ev(e.value, st, fr):
            if exc is not None:
                out.append((s, None, exc))
            else:
                out.extend(self.ga(s, v, e.attr, e, fr))
        return out

    def ev_Tuple(self, e, st, fr):
        out = []
        if any(isinstance(x, ast.Starred) for x in e.elts):
            for s, ref, exc in self.build_list(e.elts, st, fr):
                if exc is not None:
                    out.append((s, None, exc))
                    continue
                parts = s.get(ref).parts
                if all(p[0] == 'one' for p in parts):
                    out.append((s, ('t', tuple(p[1] for p in parts)), None))
                else:
                    out.append((s, ref, None))
            return out
        for s, vals, exc in self.evs(e.elts, st, fr):
            out.append((s, None if exc is not None else ('t', tuple(vals)),
                        exc))
        return out

    def build_list(self, elts, st, fr):
        outs = [(st, [], None)]
        for x in elts:
            nxt = []
            for s, parts, exc in outs:
                if exc is not None:
                    nxt.append((s, parts, exc))
                    continue
                if isinstance(x, ast.Starred):
                    for s2, v, x2 in self.ev(x.value, s, fr):
                        if x2 is not None:
                            nxt.append((s2, None, x2))
                            continue
                        for s3, ps, x3 in self.parts_of(s2, v, x, fr):
                            nxt.append((s3, None if x3 is not None
                                        else parts + ps, x3))
                else:
                    for s2, v, x2 in self.ev(x, s, fr):
                        nxt.append((s2, None if x2 is not None else
                                    parts + [('one', v)], x2))
            outs = nxt
        res = []
        for s, parts, exc in outs:
            if exc is not None:
                res.append((s, None, exc))
            else:
                res.append((s, self.new(s, HObj('list', parts=parts)), None))
        return res

    def ev_List(self, e, st, fr):
        return self.build_list(e.elts, st, fr)

    def ev_Set(self, e, st, fr):
        out = []
        for s, vals, exc in self.evs(e.elts, st, fr):
            if exc is not None:
                out.append((s, None, exc))
                continue
            out.append((s, self.new(s, HObj('set', known=dict(
                (v, TRUE) for v in vals))), None))
        return out

    def ev_Dict(self, e, st, fr):
        ks = [k for k in e.keys if k is not None]
        out = []
        exprs = []
        for k, v in zip(e.keys, e.values):
            if k is not None:
                exprs.append(k)
            exprs.append(v)
        for s, vals, exc in self.evs(exprs, st, fr):
            if exc is not None:
                out.append((s, None, exc))
                continue
            known = {}
            base = None
            it = iter(vals)
            for k in e.keys:
                if k is None:
                    v = next(it)
                    o = s.get(v)
                    if o is not None and o.known is not None:
                        known.update(o.known)
                        base = o.base or base
                    else:
                        base = v
                else:
                    kk = next(it)
                    known[kk] = next(it)
            out.append((s, self.new(s, HObj('dict', known=known, base=base)),
                        None))
        return out

    def ev_Lambda(self, e, st, fr):
        return self.make_func(e, st, fr, '<lambda>')

    def ev_IfExp(self, e, st, fr):
        out = []
        for s, b, exc in self.cond(e.test, st, fr):
            if exc is not None:
                out.append((s, None, exc))
            else:
                out.extend(self.ev(e.body if b else e.orelse, s, fr))
        return out

    def cond(self, e, st, fr):
        """Evaluates a condition -> [(st, bool, exc)]"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, None if x is not None else not b, x)
                    for s, b, x in self.cond(e.operand, st, fr)]
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            outs = [(st, is_and, None)]
            done = []
            for x in e.values:
                nxt = []
                for s, b, exc in outs:
                    nxt.extend(self.cond(x, s, fr))
                outs = []
                for s, b, exc in nxt:
                    if exc is not None or b != is_and:
                        done.append((s, b, exc))
                    else:
                        outs.append((s, b, exc))
            return done + outs
        out = []
        for s, v, exc in self.ev(e, st, fr):
            if exc is not None:
                out.append((s, None, exc))
                continue
            for s2, b in self.truth(s, v, e, fr):
                out.append((s2, b, None))
        return out

    def ev_BoolOp(self, e, st, fr):
        is_and = isinstance(e.op, ast.And)
        outs = [(st, None, None)]
        done = []
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for s, __, __ in outs:
                nxt.extend(self.ev(x, s, fr))
            outs = []
            for s, v, exc in nxt:
                if exc is not None or last:
                    done.append((s, v, exc))
                    continue
                for s2, b in self.truth(s, v, x, fr):
                    if b != is_and:
                        # a false value that is a condition is plain False.
                        if v[0] in ATOMS:
                            v2 = C(b)
                        else:
                            v2 = v
                        done.append((s2, v2, None))
                    else:
                        outs.append((s2, v, None))
        return done

    def ev_UnaryOp(self, e, st, fr):
        out = []
        for s, v, exc in self.ev(e.operand, st, fr):
            if exc is not None:
                out.append((s, None, exc))
                continue
            if isinstance(e.op, ast.Not):
                r, atom = self.truth_atom(s, v)
                if r is not None:
                    out.append((s, C(not r), None))
                else:
                    out.append((s, ('not', atom) if atom[0] != 'not'
                                else atom[1], None))
            elif isinstance(e.op, ast.USub):
                if is_c(v) and isinstance(v[2], (int, float)):
                    out.append((s, C(-v[2]), None))
                else:
                    r = self.dunder(s, v, '__neg__', [], e, fr)
                    if r is not None:
                        out.extend(r)
                    else:
                        out.append((s, ('op', 'neg', v), None))
            elif isinstance(e.op, ast.Invert):
                r = self.dunder(s, v, '__invert__', [], e, fr)
                if r is not None:
                    out.extend(r)
                else:
                    out.append((s, ('op', 'inv', v), None))
            else:
                out.append((s, v, None))
        return out

    def dunder(self, st, v, name, args, node, fr):
        o = st.get(v)
        cref = None
        if o is not None and o.kind == 'inst':
            cref = o.cls
        else:
            ty = self.type_of(st, v)
            if ty is not None and ty[0][0] == 'r':
                cref = ty[0]
        if cref is None:
            return None
        f, own = self.class_lookup(st, cref, name)
        if f is None or f[0] != 'r' or st.get(f) is None or \
                st.get(f).kind != 'func':
            return None
        return self.call(st, ('bm', v, f), args, {}, node, fr)

    BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
           ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.BitOr: '|',
           ast.BitAnd: '&', ast.BitXor: '^', ast.LShift: '<<',
           ast.RShift: '>>', ast.MatMult: '@'}

    def ev_BinOp(self, e, st, fr):
        out = []
        for s, vals, exc in self.evs([e.left, e.right], st, fr):
            if exc is not None:
                out.append((s, None, exc))
            else:
                out.extend(self.binop(s, self.BIN[type(e.op)], vals[0],
                                      vals[1], e, fr))
        return out

    def binop(self, st, op, a, b, node, fr):
        if is_c(a) and is_c(b):
            try:
                import operator as o_
                f = {'+': o_.add, '-': o_.sub, '*': o_.mul, '/': o_.truediv,
                     '//': o_.floordiv, '%': o_.mod, '**': o_.pow,
                     '|': o_.or_, '&': o_.and_, '^': o_.xor,
                     '<<': o_.lshift, '>>': o_.rshift}[op]
                r = f(a[2], b[2])
                if not isinstance(r, (int, float, str, bytes, bool)):
                    return [(st, ('op', op, a, b), None)]
                return [(st, C(r), None)]
            except ZeroDivisionError:
                st.n += 1
                return [(st, None, ('exc', X('builtins.ZeroDivisionError'),
                                    (), st.n))]
            except TypeError:
                if op != '%' and (a[2] is None or b[2] is None):
                    return [self.raise_(st, 'TypeError')]
                return [(st, ('op', op, a, b), None)]
            except Exception:
                return [(st, ('op', op, a, b), None)]
        if op == '+':
            oa, ob = st.get(a), st.get(b)
            la = oa is not None and oa.kind == 'list'
            lb = ob is not None and ob.kind == 'list'
            if la and lb:
                return [(st, self.new(st, HObj(
                    'list', parts=list(oa.parts) + list(ob.parts))), None)]
            if a[0] == 't' and b[0] == 't':
                return [(st, ('t', a[1] + b[1]), None)]
            r = self.dunder(st, a, '__add__', [b], node, fr)
            if r is not None:
                return r
        if op == '%' and is_c(a) and isinstance(a[2], str):
            args = list(b[1]) if b[0] == 't' else [b]
            if all(is_c(x) for x in args):
                try:
                    return [(st, C(a[2] % tuple(x[2] for x in args)), None)]
                except Exception:
                    pass
            return [(st, ('call', '.%', a, tuple(args), (), 0), None)]
        if op == '*':
            for x, n in ((a, b), (b, a)):
                if not (is_c(n) and isinstance(n[2], int) and n[2] <= 24):
                    continue
                if x[0] == 't':
                    return [(st, ('t', x[1] * n[2]), None)]
                ox = st.get(x)
                if ox is not None and ox.kind == 'list':
                    return [(st, self.new(st, HObj(
                        'list', parts=list(ox.parts) * max(0, n[2]))), None)]
        if op in ('/', '//', '%') and not (is_c(a) and
                                           isinstance(a[2], str)):
            return self.divide(st, op, a, b, node, fr)
        if op in ('|', '&', '-', '^'):
            oa = st.get(a)
            if oa is not None and oa.kind == 'set' and op in '-&':
                left = self.narrowed(st, a, [b], op == '&')
                if left is not None:
                    return [(st, self.new(st, HObj('set', known=dict(
                        (k, TRUE) for k in left))), None)]
            if oa is not None and oa.kind == 'set' and op == '|':
                ob = st.get(b)
                if ob is not None and ob.kind == 'set':
                    k = dict(oa.known)
                    k.update(ob.known)
                    if oa.base is None or ob.base is None:
                        return [(st, self.new(st, HObj(
                            'set', known=k, base=oa.base or ob.base)), None)]
        return [(st, ('op', op, a, b), None)]

    def divide(self, st, op, a, b, node, fr):
        term = ('op', op, a, b)
        if is_c(b):
            if b[2] == 0:
                st.n += 1
                return [(st, None, ('exc', X('builtins.ZeroDivisionError'),
                                    (), st.n))]
            return [(st, term, None)]
        div = b
        # float(x) is zero exactly if x is.
        while div[0] == 'call' and div[1] in ('builtins.float',) and div[3]:
            div = div[3][0]
        if is_c(div):
            if div[2] == 0:
                st.n += 1
                return [(st, None, ('exc', X('builtins.ZeroDivisionError'),
                                    (), st.n))]
            return [(st, term, None)]
        r, atom = self.truth_atom(st, div)
        out = []
        if r is not True:
            s2 = st if r is False else st.fork()
            okz = True
            if r is None:
                okz = self.assume(s2, atom, False)
                if okz:
                    self.event(s2, fr, node, 'cond', fn=atom, x=False)
            if okz:
                s2.n += 1
                self.event(s2, fr, node, 'zerodiv', fn=op, args=(a, b))
                out.append((s2, None, ('exc',
                                       X('builtins.ZeroDivisionError'), (),
                                       s2.n)))
        if r is not False:
            okn = True
            if r is None:
                okn = self.assume(st, atom, True)
                if okn:
                    self.event(st, fr, node, 'cond', fn=atom, x=True)
            if okn:
                self.event(st, fr, node, 'div', fn=op, args=(a, b))
                out.append((st, term, None))
        return out

    CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=',
           ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not',
           ast.In: 'in', ast.NotIn: 'not in'}

    def ev_Compare(self, e, st, fr):
        out = []
        for s, vals, exc in self.evs([e.left] + list(e.comparators), st, fr):
            if exc is not None:
                out.append((s, None, exc))
                continue
            if len(e.ops) == 1:
                out.extend(self.compare(s, self.CMP[type(e.ops[0])], vals[0],
                                        vals[1], e, fr))
                continue
            todo = [(s, TRUE)]
            for i, op in enumerate(e.ops):
                nxt = []
                for s2, v in todo:
                    if v == FALSE:
                        nxt.append((s2, v))
                        continue
                    for s3, c, x in self.compare(s2, self.CMP[type(op)],
                                                 vals[i], vals[i + 1], e,
                                                 fr):
                        if i == len(e.ops) - 1:
                            nxt.append((s3, c))
                        else:
                            for s4, b in self.truth(s3, c, e, fr):
                                nxt.append((s4, C(b)))
                todo = nxt
            out.extend((s2, v, None) for s2, v in todo)
        return out

    def compare(self, st, op, a, b, node, fr):
        neg = False
        if op in ('in', 'not in'):
            neg = op == 'not in'
            if a[0] == 'r' or True:
                f = self.dunder(st, b, '__contains__', [a], node, fr)
                if f is not None:
                    res = []
                    for s, v, exc in f:
                        if exc is None and neg:
                            r, at = self.truth_atom(s, v)
                            v = C(not r) if r is not None else ('not', at)
                        res.append((s, v, exc))
                    return res
            own = self.own_dict(st, b)
            if own is not None:
                known = self.own_attr(st, b, own, a)
                if known is not None:
                    return [(st, C(known[0] != neg), None)]
            base = self.strip_view(st, b)
            atom = ('in', a, base, self.ver(st, base))
            if neg:
                atom = ('not', atom)
            r = self.decide(st, atom)
            return [(st, C(r) if r is not None else atom, None)]
        # set comparison against the empty set etc. is left alone.
        if op in ('==', '!=', '<', '>', '<=', '>='):
            sp = self.len_cmp(st, op, a, b)
            if sp is not None:
                r = self.decide(st, sp)
                return [(st, C(r) if r is not None else sp, None)]
            if op in ('==', '!='):
                for x, y in ((a, b), (b, a)):
                    o = st.get(x)
                    if o is not None and o.kind == 'inst' and \
                            o.meta.get('closed'):
                        f = self.dunder(st, x, '__eq__', [y], node, fr)
                        if f is not None:
                            if op == '==':
                                return f
                            res = []
                            for s, v, exc in f:
                                r, at = self.truth_atom(s, v)
                                res.append((s, C(not r) if r is not None
                                            else ('not', at), exc))
                            return res
        atom = self.mkcmp(op, a, b)
        r = self.decide(st, atom)
        return [(st, C(r) if r is not None else atom, None)]

    def strip_view(self, st, b):
        """x.keys(), list(x), ... have the same members as x."""
        while b[0] == 'call' and b[1] in ('.keys', '.iterkeys',
                                          'six.iterkeys'):
            b = b[2] if b[2] is not None else b[3][0]
        return b

    def len_cmp(self, st, op, a, b):
        """len(x) compared with 0 or 1 as truth of x."""
        def is_len(v):
            return v[0] == 'call' and v[1] == 'builtins.len' and \
                len(v[3]) == 1
        if is_len(b) and is_c(a):
            a, b = b, a
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if not (is_len(a) and is_c(b)):
            return None
        t = ('truth', a[3][0], self.ver(st, a[3][0]))
        n = b[2]
        if (op, n) in (('==', 0), ('<', 1), ('<=', 0)):
            return ('not', t)
        if (op, n) in (('!=', 0), ('>', 0), ('>=', 1)):
            return t
        return None

    def ev_Subscript(self, e, st, fr):
        out = []
        for s, vals, exc in self.evs([e.value, e.slice], st, fr):
            if exc is not None:
                out.append((s, None, exc))
            else:
                out.extend(self.getitem(s, vals[0], vals[1], e, fr))
        return out

    def ev_Index(self, e, st, fr):          # Python < 3.9 trees
        return self.ev(e.value, st, fr)

    def ev_Slice(self, e, st, fr):
        out = []
        parts = [x for x in (e.lower, e.upper, e.step)]
        for s, vals, exc in self.evs([x for x in parts if x is not None],
                                     st, fr):
            if exc is not None:
                out.append((s, None, exc))
                continue
            it = iter(vals)
            tr = tuple(next(it) if x is not None else NONE for x in parts)
            out.append((s, ('slice', tr), None))
        return out

    def raise_(self, st, name, *args):
        st.n += 1
        return (st, None, ('exc', X('builtins.' + name), args, st.n))

    def own_dict(self, st, v):
        """The instance whose dictionary a value is, if one is known."""
        if v[0] == 'a' and v[2] == '__dict__':
            o = st.get(v[1])
            if o is not None and o.kind == 'inst':
                return o
        return None

    def own_attr(self, st, v, o, k):
        """(is set, value) of a key of an instance's dictionary, or None when
        it is not known."""
        if not is_c(k):
            return None
        val = o.attrs.get(k[2])
        if val is not None and val != ('deleted',):
            return True, val
        if val is not None or o.meta.get('closed'):
            return False, None
        return None

    def own_method(self, st, v, o, name, args, kw, node, fr):
        if name in ('get', 'setdefault', 'pop', '__contains__') and args:
            known = self.own_attr(st, v, o, args[0])
            if known is None:
                return None
            there, val = known
            if name == '__contains__':
                return [(st, C(there), None)]
            if not there:
                if len(args) < 2 and name == 'pop':
                    return [self.raise_(st, 'KeyError', args[0])]
                val = args[1] if len(args) > 1 else NONE
                if name == 'setdefault':
                    return [(s, val if x is None else None, x) for s, __, x
                            in self.own_store(st, v, [(args[0], val)],
                                              node, fr)]
            elif name == 'pop':
                self.event(st, fr, node, 'delattr', fn=args[0][2], recv=v[1])
                st.mut(v[1]).attrs[args[0][2]] = ('deleted',)
            return [(st, val, None)]
        if name == 'update' and not args:
            return self.own_store(st, v, [(C(k), x) for k, x in kw.items()],
                                  node, fr)
        return None

    def own_store(self, st, v, pairs, node, fr):
        for k, x in pairs:
            self.event(st, fr, node, 'store', fn=k[2], recv=v[1], args=(x,))
            st.mut(v[1]).attrs[k[2]] = x
        return [(st, NONE, None)]

    def getitem(self, st, v, k, node, fr):
        own = self.own_dict(st, v)
        if own is not None:
            known = self.own_attr(st, v, own, k)
            if known is not None:
                return [(st, known[1], None)] if known[0] else \
                    [self.raise_(st, 'KeyError', k)]
        if k[0] == 'slice':
            return self.getslice(st, v, k[1], node, fr)
        o = st.get(v)
        if v[0] == 't' and is_c(k):
            try:
                return [(st, v[1][k[2]], None)]
            except IndexError:
                return [self.raise_(st, 'IndexError')]
        if is_c(v) and is_c(k):
            try:
                return [(st, C(v[2][k[2]]), None)]
            except Exception:
                return [self.raise_(st, 'IndexError')]
        if v == X('signal.Signals') and is_c(k):
            # an enumeration of the signals.
            if k[2] in _signal.Signals.__members__:
                return [(st, X('signal.' + k[2]), None)]
            return [self.raise_(st, 'KeyError', k)]
        if v[0] == 'locals':
            val = st.get(v[1]).attrs.get(k[2])
            return [(st, val, None)] if val else [self.raise_(st, 'KeyError')]
        if v[0] == 'a' and v[2] == 'args' and v[1][0] in ('uexc', 'exc') \
                and k == C(0):
            return self.ga(st, v[1], 'errno', node, fr)
        if o is not None and o.kind == 'list':
            if is_c(k) and isinstance(k[2], int):
                n = k[2]
                parts = o.parts
                if all(p[0] == 'one' for p in parts):
                    try:
                        return [(st, parts[n][1], None)]
                    except IndexError:
                        return [self.raise_(st, 'IndexError')]
                if n >= 0 and len(parts) > n and all(
                        p[0] == 'one' for p in parts[:n + 1]):
                    return [(st, parts[n][1], None)]
                if n < 0 and len(parts) >= -n and all(
                        p[0] == 'one' for p in parts[n:]):
                    return [(st, parts[n][1], None)]
        r = self.dunder(st, v, '__getitem__', [k], node, fr)
        if r is not None:
            return r
        if o is not None and o.kind in ('dict',) or (
                o is not None and o.known is not None):
            return self.dict_get(st, v, k, node, fr, missing='raise')
        term = ('i', v, k)
        if v[0] == 'r' and o is not None and o.kind == 'list':
            term = ('i', v, k, o.ver)
        out = []
        fact = ('cmp', 'hasitem', v, k)
        if self.catching(st, 'KeyError') or self.catching(st, 'IndexError'):
            s2 = st.fork()
            name = 'IndexError' if self.catching(st, 'IndexError') else \
                'KeyError'
            atom = ('in', k, v, self.ver(st, v))
            if name == 'KeyError':
                ok1 = self.assume(st, atom, True)
                ok2 = self.assume(s2, atom, False)
            else:
                atom = fact
                ok1 = st.facts.get(fact) is not False
                ok2 = s2.facts.get(fact) is not True
                st.facts[fact] = True
                s2.facts[fact] = False
            if ok2:
                self.event(s2, fr, node, 'cond', fn=atom, x=False)
                out.append(self.raise_(s2, name))
            if ok1:
                self.event(st, fr, node, 'cond', fn=atom, x=True)
                out.insert(0, (st, term, None))
            return out
        return [(st, term, None)]

    def canon_key(self, st, o, k):
        """The known key of a dict or set which is equal to k, or k."""
        if o.known is None or k in o.known:
            return k
        for kk in o.known:
            if is_c(k) and is_c(kk):
                if k[2] == kk[2]:
                    return kk
            elif self.decide(st, self.mkcmp('==', k, kk)) is True:
                return kk
        return k

    def dict_get(self, st, v, k, node, fr, missing=None, default=NONE,
                 pop=False):
        """Reads a key of a dict with (partly) known contents."""
        o = st.get(v)
        if o is None or o.known is None:
            o = st.mut(v)
            o.known = {}
            o.base = v
        out = []
        k = self.canon_key(st, o, k)
        if k not in o.known and o.base is None and not o.meta.get('loops'):
            for kk, vv in o.known.items():
                if vv is ABSENT:
                    continue
                atom = self.mkcmp('==', k, kk)
                if self.decide(st, atom) is None:
                    for s, __ in self.split(st, atom, node, fr):
                        out.extend(self.dict_get(s, v, k, node, fr, missing,
                                                 default, pop))
                    return out
            if missing == 'raise':
                return [self.raise_(st, 'KeyError', k)]
            return [(st, default, None)]
        if k in o.known:
            val = o.known[k]
            if val is ABSENT:
                if missing == 'raise':
                    return [self.raise_(st, 'KeyError', k)]
                return [(st, default, None)]
            if pop:
                o2 = st.mut(v)
                o2.known[k] = ABSENT
                o2.ver += 1
            return [(st, val, None)]
        if is_c(k) and o.base is None and not o.meta.get('loops') and \
                all(is_c(x) for x in o.known):
            if missing == 'raise':
                return [self.raise_(st, 'KeyError', k)]
            return [(st, default, None)]
        if o.base is None and not o.known and not o.meta.get('loops'):
            if missing == 'raise':
                return [self.raise_(st, 'KeyError', k)]
            return [(st, default, None)]
        # keys known and all values: decide by equality with a known key
        val = ('i', v, k)
        s2 = st.fork()
        atom = ('in', k, v, o.ver)
        known = self.decide(st, atom)
        if known is not False:
            ob = st.mut(v)
            ob.known[k] = ABSENT if pop else val
            if pop:
                ob.ver += 1
            self.event(st, fr, node, 'cond', fn=atom, x=True)
            st.facts[atom] = True
            out.append((st, val, None))
        if known is not True:
            ob = s2.mut(v)
            ob.known[k] = ABSENT
            self.event(s2, fr, node, 'cond', fn=atom, x=False)
            s2.facts[atom] = False
            if missing == 'raise':
                out.append(self.raise_(s2, 'KeyError', k))
            else:
                out.append((s2, default, None))
        return out

    def getslice(self, st, v, sl, node, fr):
        lo, hi, step = sl
        o = st.get(v)
        if o is not None and o.kind == 'list' and o.parts is not None:
            if (lo, hi, step) == (NONE, NONE, NONE):
                return [(st, self.new(st, HObj('list',
                                               parts=list(o.parts))), None)]
            if sliceable(o.parts, sl):
                ps = o.parts[slice(lo[2], hi[2], step[2])]
                return [(st, self.new(st, HObj('list', parts=ps)), None)]
            if (lo, hi) == (NONE, NONE) and step == C(-1):
                return [(st, self.new(st, HObj('list', parts=rev_parts(
                    o.parts))), None)]
            if (lo, step) == (NONE, NONE) and hi == C(-1) and o.parts and \
                    o.parts[-1][0] == 'one':
                return [(st, self.new(st, HObj('list',
                                               parts=o.parts[:-1])), None)]
            return [(st, ('i', v, ('slice', sl), o.ver), None)]
        if v[0] == 't' and all(is_c(x) for x in sl):
            return [(st, ('t', v[1][slice(lo[2], hi[2], step[2])]), None)]
        if is_c(v) and all(is_c(x) for x in sl):
            return [(st, C(v[2][slice(lo[2], hi[2], step[2])]), None)]
        if (lo, hi, step) == (NONE, NONE, NONE):
            return [(st, self.new(st, HObj('list', parts=[('sym', v)])),
                     None)]
        if (lo, step) == (NONE, NONE) and hi == C(-1):
            return [(st, ('butlast', v), None)]
        if (lo, hi) == (NONE, NONE) and step == C(-1):
            return [(st, self.new(st, HObj('list', parts=rev_parts(
                [('sym', v)]))), None)]
        return [(st, ('i', v, ('slice', sl)), None)]

    def ev_Call(self, e, st, fr):
        exprs = [e.func]
        for a in e.args:
            exprs.append(a.value if isinstance(a, ast.Starred) else a)
        for k in e.keywords:
            exprs.append(k.value)
        # zero argument super().
        out = []
        for s, vals, exc in self.evs(exprs, st, fr):
            if exc is not None:
                out.append((s, None, exc))
                continue
            f = vals[0]
            args = []
            if any(isinstance(a, ast.Starred) and self.no_items(s, v)
                   for a, v in zip(e.args, vals[1:])):
                out.append(self.raise_(s, 'TypeError'))
                continue
            for a, v in zip(e.args, vals[1:]):
                if isinstance(a, ast.Starred):
                    o = s.get(v)
                    if v[0] == 't':
                        args.extend(v[1])
                    elif o is not None and o.kind == 'list' and all(
                            p[0] == 'one' for p in o.parts):
                        args.extend(p[1] for p in o.parts)
                    else:
                        args.append(('star', v))
                else:
                    args.append(v)
            kw = {}
            for k, v in zip(e.keywords, vals[1 + len(e.args):]):
                if k.arg is None:
                    o = s.get(v)
                    if o is not None and o.known is not None:
                        for kk, vv in o.known.items():
                            if vv is not ABSENT and is_c(kk):
                                kw[kk[2]] = vv
                        if o.base is not None:
                            kw['**'] = o.base
                    else:
                        kw['**'] = v
                else:
                    kw[k.arg] = v
            out.extend(self.call(s, f, args, kw, e, fr))
        if len(out) > self.MAXPATHS:
            raise Limit('too many paths')
        return out

    def no_items(self, st, v):
        """Whether a value certainly cannot be iterated."""
        if is_c(v):
            return not isinstance(v[2], (str, bytes, tuple))
        if v[0] in ('bm', 'lam', 'partial'):
            return True
        o = st.get(v) if v[0] == 'r' else None
        return o is not None and o.kind in ('func', 'function')

    def ev_JoinedStr(self, e, st, fr):
        exprs = []
        for x in e.values:
            exprs.append(x.value if isinstance(x, ast.FormattedValue) else x)
        out = []
        for s, vals, exc in self.evs(exprs, st, fr):
            if exc is not None:
                out.append((s, None, exc))
                continue
            if all(is_c(v) for v in vals) and not any(
                    isinstance(x, ast.FormattedValue) and
                    (x.format_spec or x.conversion != -1)
                    for x in e.values):
                out.append((s, C(''.join(str(v[2]) for v in vals)), None))
                continue
            fmt = []
            args = []
            for x, v in zip(e.values, vals):
                if isinstance(x, ast.FormattedValue):
                    spec = ''
                    if x.format_spec is not None:
                        spec = ''.join(
                            y.value for y in x.format_spec.values
                            if isinstance(y, ast.Constant))
                    fmt.append('{' + (':' + spec if spec else '') + '}')
                    args.append(v)
                else:
                    fmt.append(v[2].replace('{', '{{').replace('}', '}}'))
            out.append((s, ('call', '.format', C(''.join(fmt)), tuple(args),
                            (), 0), None))
        return out

    def ev_Starred(self, e, st, fr):
        return [(s, ('star', v) if x is None else None, x)
                for s, v, x in self.ev(e.value, st, fr)]

    def ev_NamedExpr(self, e, st, fr):
        out = []
        for s, v, exc in self.ev(e.value, st, fr):
            if exc is not None:
                out.append((s, None, exc))
                continue
            for s2, kind, val in self.assign(e.target, v, s, fr):
                out.append((s2, v, val if kind == 'raise' else None))
        return out

    # comprehensions.

    def ev_ListComp(self, e, st, fr):
        return self.comp(e, st, fr, 'list')

    def ev_GeneratorExp(self, e, st, fr):
        return self.comp(e, st, fr, 'list')

    def ev_SetComp(self, e, st, fr):
        return self.comp(e, st, fr, 'set')

    def ev_DictComp(self, e, st, fr):
        return self.comp(e, st, fr, 'dict')

    def comp(self, e, st, fr, kind):
        if kind == 'list':
            ref = self.new(st, HObj('list', parts=[]))
        else:
            ref = self.new(st, HObj(kind, known={}))
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        scope = self.new(st, HObj('scope', meta={
            'parent': fr.scope, 'kind': 'func', 'module': fr.module,
            'locals': names}))
        f2 = Frame(scope, fr.module, func=fr.func, handler=fr.handler,
                   qual=fr.qual, depth=fr.depth, owner=fr.owner,
                   selfv=fr.selfv)

        def inner(s, gens):
            if not gens:
                if kind == 'dict':
                    outs = []
                    for s2, vals, exc in self.evs([e.key, e.value], s, f2):
                        if exc is not None:
                            outs.append((s2, 'raise', exc))
                            continue
                        o = s2.mut(ref)
                        o.known[vals[0]] = vals[1]
                        outs.append((s2, 'n', None))
                    return outs
                outs = []
                for s2, v, exc in self.ev(e.elt, s, f2):
                    if exc is not None:
                        outs.append((s2, 'raise', exc))
                        continue
                    o = s2.mut(ref)
                    if kind == 'list':
                        o.parts.append(('one', v))
                    else:
                        o.known[v] = TRUE
                    outs.append((s2, 'n', None))
                return outs
            g = gens[0]
            # the first iterable is evaluated outside.
            outs = []
            for s2, it, exc in self.ev(g.iter, s, f2 if gens is not
                                       e.generators else fr):
                if exc is not None:
                    outs.append((s2, 'raise', exc))
                    continue

                def body(s3, item, g=g, gens=gens):
                    res = []
                    for s4, k, val in self.assign(g.target, item, s3, f2):
                        if k == 'raise':
                            res.append((s4, k, val))
                            continue
                        todo = [(s4, True, None)]
                        for cnd in g.ifs:
                            nx = []
                            for s5, b, x in todo:
                                if b and x is None:
                                    nx.extend(self.cond(cnd, s5, f2))
                                else:
                                    nx.append((s5, b, x))
                            todo = nx
                        for s5, b, x in todo:
                            if x is not None:
                                res.append((s5, 'raise', x))
                            elif b:
                                res.extend(inner(s5, gens[1:]))
                            else:
                                res.append((s5, 'n', None))
                    return res
                outs.extend(self.iterate(s2, it, body, e, fr))
            return outs

        out = []
        for s, k, val in inner(st, e.generators):
            if k == 'raise':
                out.append((s, None, val))
            else:
                out.append((s, ref, None))
        return out

    # yield.

    def ev_Yield(self, e, st, fr):
        out = []
        vals = [(st, NONE, None)] if e.value is None else \
            self.ev(e.value, st, fr)
        for s, v, exc in vals:
            if exc is not None:
                out.append((s, None, exc))
                continue
            out.extend(self.do_yield(s, v, e, fr))
        return out

    def do_yield(self, st, v, e, fr):
        if fr.handler is None:
            raise Undecided('yield outside a followed generator')
        out = []
        for s, kind, val in fr.handler(st, v, e, fr):
            if kind == 'raise':
                out.append((s, None, val))
            else:
                out.append((s, val if val is not None else NONE, None))
        return out

    def ev_YieldFrom(self, e, st, fr):
        out = []
        for s, v, exc in self.ev(e.value, st, fr):
            if exc is not None:
                out.append((s, None, exc))
                continue
            o = s.get(v)
            if o is not None and o.kind == 'gen':
                for s2, k, val in self.run_gen(s, v, fr.handler, e, fr):
                    out.append((s2, None if k == 'raise' else
                                (val or NONE), val if k == 'raise' else
                                None))
            else:
                # an awaitable: control goes elsewhere.
                ev = self.event(s, fr, e, 'await', args=(v,))
                if fr.handler is not None and not self.await_is_event:
                    out.extend(self.do_yield(s, v, e, fr))
                else:
                    out.append((s, NONE, None))
        return out

    await_is_event = True

    def ev_Await(self, e, st, fr):
        return self.ev_YieldFrom(e, st, fr)

    # -- calls -------------------------------------------------------------

    def opaque_call(self, st, fr, node, fn, recv, args, kw, repo=None,
                    pure=False):
        """A call that is not followed: an event, a result, maybe a raise."""
        if not pure:
            st.n += 1
        n = 0 if pure else st.n
        kwt = tuple(sorted(kw.items(), key=lambda x: x[0]))
        res = ('call', fn, recv, tuple(args), kwt, n)
        ev = Ev('call', fn=fn, recv=recv, args=tuple(args), kw=kwt, res=res,
                loc=self.loc(node, fr) if node is not None else None,
                func=fr.qual, depth=fr.depth, x=repo)
        excs = self.raises(ev, st, fr) if not pure else []
        out = []
        for exc in excs:
            s2 = st.fork()
            ev2 = Ev('call', fn=fn, recv=recv, args=tuple(args), kw=kwt,
                     res=None, exc=exc, loc=ev.loc, func=fr.qual,
                     depth=fr.depth, x=repo)
            s2.add(ev2)
            out.append((s2, None, exc))
        hook = self.rets.get(fn)
        if hook is not None:
            r = hook(self, st, ev)
            if r is not None:
                ev.res = r
                res = r
        if fn in ('sys.exit', 'os._exit', '.fail') and \
                fn in self.noreturn:
            out2 = [o for o in out]
            st.n += 1
            exc = ('exc', X('builtins.SystemExit' if fn != '.fail' else
                            'click.BadParameter'), tuple(args), st.n)
            ev.exc = exc
            st.add(ev)
            out2.append((st, None, exc))
            return out2
        st.add(ev)
        out.insert(0, (st, res, None))
        return out

    noreturn = frozenset(['sys.exit', 'os._exit', '.fail'])

    def raises(self, ev, st, fr):
        if self.policy is not None:
            r = self.policy(ev, st, fr)
            if r is not None:
                return r
        if isinstance(ev.fn, str) and ev.fn in NEVER_RAISE:
            return []
        if self.trydepth > 0:
            return [self.uexc(st, ev)]
        return []

    def uexc(self, st, ev):
        return ('uexc', st.n, ev.fn if isinstance(ev.fn, str) else '()')

    def call(self, st, f, args, kw, node, fr):
        """-> R"""
        self.tick()
        args = list(args)
        t = f[0]
        if t == 'bm':
            return self.call(st, f[2], [f[1]] + args, kw, node, fr)
        if t == 'x':
            return self.call_ext(st, f[1], args, kw, node, fr)
        if t == 'a' and not isinstance(f[2], str):
            # an attribute of unknown name.
            return self.opaque_call(st, fr, node, '.getattr', f[1],
                                    [f[2]] + args, kw)
        if t == 'a':
            return self.call_method(st, f[1], f[2], args, kw, node, fr)
        if t == 'decorator':
            return f[1](self, st, args, kw, node, fr)
        if t == 'propset':
            o = st.get(f[1])
            m = dict(o.meta)
            m[{'setter': 'fset', 'getter': 'fget',
               'deleter': 'fdel'}[f[2]]] = args[0]
            return [(st, self.new(st, HObj('property', meta=m)), None)]
        if t == 'typecall':
            return self.instantiate(st, f[1], args, kw, node, fr,
                                    plain=True)
        if t == 'super':
            return [(st, f, None)]
        o = st.get(f) if t == 'r' else None
        if o is None and t == 'r':
            o = self.world.get(f)
        if o is not None:
            k = o.kind
            if k == 'func':
                return self.call_func(st, f, args, kw, node, fr)
            if k == 'class':
                return self.instantiate(st, f, args, kw, node, fr)
            if k == 'partial':
                m = o.meta
                kw2 = dict(m['kw'])
                kw2.update(kw)
                return self.call(st, m['f'], list(m['args']) + args, kw2,
                                 node, fr)
            if k == 'cmfunc':
                res = []
                for s, g, exc in self.call(st, o.meta['f'], args, kw, node,
                                           fr):
                    if exc is not None:
                        res.append((s, None, exc))
                        continue
                    go = s.get(g)
                    if go is None or go.kind != 'gen':
                        res.append((s, g, None))
                        continue
                    res.append((s, self.new(s, HObj('cm', meta={'gen': g})),
                                None))
                return res
            if k in ('staticmethod', 'classmethod'):
                return self.call(st, o.meta['f'], args, kw, node, fr)
            if k == 'inst':
                c, own = self.class_lookup(st, o.cls, '__call__')
                if c is not None and c[0] == 'r':
                    return self.call(st, c, [f] + args, kw, node, fr)
                return self.opaque_call(st, fr, node, '()', f, args, kw)
        ty = self.type_of(st, f)
        if ty is not None and ty[0][0] == 'r':
            c, own = self.class_lookup(st, ty[0], '__call__')
            if c is not None and c[0] == 'r' and (
                    ty[1] or not self.overridden(st, ty[0], '__call__')):
                return self.call(st, c, [f] + args, kw, node, fr)
        return self.opaque_call(st, fr, node, '()', f, args, kw)

    def instantiate(self, st, cref, args, kw, node, fr, plain=False):
        o = st.get(cref)
        q = o.meta['qual']
        short = o.meta['name']
        if short in self.opaque or q in self.opaque:
            return self.opaque_call(st, fr, node, 'new:' + short, None, args,
                                    kw, repo=cref)
        meta = o.meta.get('meta')
        if meta is not None and meta[0] == 'r' and not plain:
            mc, own = self.class_lookup(st, meta, '__call__')
            if mc is not None and mc[0] == 'r':
                return self.call(st, mc, [cref] + args, kw, node, fr)
        # a metaclass itself: type(name, bases, attrs).
        if X('builtins.type') in self.mro(st, cref):
            raise Undecided('metaclass instantiation')
        new, own = self.class_lookup(st, cref, '__new__')
        outs = []
        if new is not None and new[0] == 'r':
            no = st.get(new)
            if no.kind == 'staticmethod':
                new = no.meta['f']
            outs = self.call(st, new, [cref] + args, kw, node, fr)
        else:
            ref = self.alloc_inst(st, cref)
            outs = [(st, ref, None)]
        res = []
        for s, ref, exc in outs:
            if exc is not None:
                res.append((s, None, exc))
                continue
            ro = s.get(ref)
            if ro is None or ro.kind != 'inst':
                res.append((s, ref, None))
                continue
            init, own = self.class_lookup(s, cref, '__init__')
            if init is not None and init[0] == 'ext' and not (
                    init[1][0] == 'x' and pyexc(init[1][1]) and
                    self.is_exc_class(s, cref)):
                for s2, __, x in self.opaque_call(
                        s, fr, node, 'init:' + self.ext_name(init[1]), ref,
                        args, kw):
                    res.append((s2, None if x is not None else ref, x))
                continue
            if init is None or init[0] != 'r':
                if self.is_exc_class(s, cref):
                    s.n += 1
                    res.append((s, ('exc', cref, tuple(args), s.n), None))
                    continue
                res.append((s, ref, None))
                continue
            for s2, __, x in self.call(s, init, [ref] + args, kw, node, fr):
                res.append((s2, None if x is not None else ref, x))
        return res

    def ext_name(self, v):
        return v[1] if v[0] == 'x' else show(v)

    def is_exc_class(self, st, cref):
        return self.is_subclass(st, cref, X('builtins.BaseException'))

    def alloc_inst(self, st, cref):
        ext = self.ext_base(st, cref)
        ref = self.new(st, HObj('inst', cls=cref,
                                meta={'closed': not ext, 'exact': True}))
        return ref

    def sym_inst(self, st, cref, name='self'):
        """An instance with unknown fields."""
        return self.new(st, HObj('inst', cls=cref, meta={'closed': False,
                                                         'exact': True,
                                                         'name': name}))

    # -- methods -----------------------------------------------------------

    def call_method(self, st, recv, name, args, kw, node, fr):
        if recv[0] == 'super_ext':
            if name == '__init__':
                return self.opaque_call(st, fr, node, 'init:' +
                                        self.ext_name(recv[1]), recv[2],
                                        args, kw)
            return self.opaque_call(st, fr, node, 'super.' + name, recv[2],
                                    args, kw)
        if recv[0] == 'call' and recv[1] == 'struct.Struct' and \
                'struct.' + name in self.ext_over:
            r = self.ext_over['struct.' + name](
                self, st, list(recv[3][:1]) + list(args), kw, node, fr)
            if r is not None:
                return r
        own = self.own_dict(st, recv)
        if own is not None:
            r = self.own_method(st, recv, own, name, args, kw, node, fr)
            if r is not None:
                return r
        o = st.get(recv)
        ext = None
        ty = self.type_of(st, recv) if recv[0] != 'r' else None
        if ty is not None and ty[0][0] == 'x':
            ext = ty[0][1]
        if is_c(recv) and not kw and all(is_c(a) for a in args) and \
                isinstance(recv[2], (str, bytes)):
            try:
                r = getattr(recv[2], name)(*[a[2] for a in args])
                if isinstance(r, (str, bytes, int, bool)):
                    return [(st, C(r), None)]
                if isinstance(r, list):
                    return [(st, self.new(st, HObj('list', parts=[
                        ('one', C(x)) for x in r])), None)]
                if isinstance(r, tuple):
                    return [(st, ('t', tuple(C(x) for x in r)), None)]
            except Exception:
                return [self.raise_(st, 'ValueError')]
        if is_c(recv) and name == 'join' and args:
            res = []
            for s, ps, exc in self.parts_of(st, args[0], node, fr):
                if exc is not None:
                    res.append((s, None, exc))
                elif all(p[0] == 'one' for p in ps):
                    vals = tuple(p[1] for p in ps)
                    if all(is_c(v) for v in vals):
                        res.append((s, C(recv[2].join(v[2] for v in vals)),
                                    None))
                    else:
                        res.append((s, ('call', '.join', recv, (
                            ('t', vals),), (), 0), None))
                else:
                    res.append((s, ('call', '.join', recv, (args[0],), (),
                                    0), None))
            return res
        if is_c(recv) and name in PURE_METHODS or (
                recv[0] == 'call' and recv[1] in ('.format', '.join') and
                name in PURE_METHODS):
            return [(st, ('call', '.' + name, recv, tuple(args),
                          tuple(sorted(kw.items())), 0), None)]
        if recv[0] == 'x':
            return self.call_ext(st, canon(recv[1] + '.' + name), args, kw,
                                 node, fr)
        if recv[0] == 'locals':
            return self.opaque_call(st, fr, node, '.' + name, recv, args, kw)
        if o is not None and o.kind == 'gen' and not args and \
                name in ('__next__', 'next'):
            return x_next(self, st, [recv], {}, node, fr)
        if o is not None and o.kind == 'gen' and name in (
                'send', 'close', 'throw'):
            return self.opaque_call(st, fr, node, '.' + name, recv, args, kw)
        if ext is None and (o is None or o.kind in (
                'open', 'list', 'dict', 'set')):
            h = getattr(self, 'm_' + name, None)
            if h is not None:
                r = h(st, recv, o, args, kw, node, fr)
                if r is not None:
                    return r
        pure = name in PURE_METHODS and not (o is not None and
                                             o.kind == 'inst')
        return self.opaque_call(st, fr, node, '.' + name, recv, args, kw,
                                pure=pure)

    def mut_event(self, st, recv, name, args, node, fr, kw=(), res=None):
        return self.event(st, fr, node, 'call', fn='.' + name, recv=recv,
                          args=tuple(args), kw=tuple(kw), res=res)

    def container(self, st, recv):
        """The abstract contents of a container, created when unknown."""
        o = st.mut(recv)
        return o

    def as_list(self, st, recv):
        o = st.mut(recv)
        if o.parts is None and o.known is None:
            o.parts = [('sym', recv)]
        return o

    def as_map(self, st, recv):
        o = st.mut(recv)
        if o.known is None:
            o.known = {}
            if o.kind == 'open':
                o.base = recv
        return o

    def trim(self, o, left):
        """Keeps a deque within its length."""
        n = o.meta.get('maxlen')
        if n is None or o.parts is None:
            return
        if any(p[0] != 'one' for p in o.parts):
            raise Undecided('length of a deque')
        if len(o.parts) > n:
            if left:
                del o.parts[:len(o.parts) - n]
            else:
                del o.parts[n:]

    def m_append(self, st, recv, o, args, kw, node, fr):
        if len(args) != 1:
            return None
        self.mut_event(st, recv, 'append', args, node, fr)
        o = self.as_list(st, recv)
        if o.parts is not None:
            o.parts.append(('one', args[0]))
            self.trim(o, True)
        o.ver += 1
        return [(st, NONE, None)]

    def m_appendleft(self, st, recv, o, args, kw, node, fr):
        if len(args) != 1:
            return None
        self.mut_event(st, recv, 'appendleft', args, node, fr)
        o = self.as_list(st, recv)
        if o.parts is not None:
            o.parts.insert(0, ('one', args[0]))
            self.trim(o, False)
        o.ver += 1
        return [(st, NONE, None)]

    def m_insert(self, st, recv, o, args, kw, node, fr):
        if len(args) != 2:
            return None
        self.mut_event(st, recv, 'insert', args, node, fr)
        o = self.as_list(st, recv)
        o.ver += 1
        if o.parts is not None:
            if args[0] == C(0):
                o.parts.insert(0, ('one', args[1]))
            elif is_c(args[0]) and all(p[0] == 'one' for p in o.parts):
                o.parts.insert(args[0][2], ('one', args[1]))
            else:
                o.parts = [('sym', ('call', '.insert', recv, tuple(args), (),
                                    o.ver))]
        return [(st, NONE, None)]

    def m_extend(self, st, recv, o, args, kw, node, fr):
        if len(args) != 1:
            return None
        out = []
        for s, ps, exc in self.parts_of(st, args[0], node, fr):
            if exc is not None:
                out.append((s, None, exc))
                continue
            self.mut_event(s, recv, 'extend', args, node, fr)
            o = self.as_list(s, recv)
            o.ver += 1
            if o.parts is not None:
                o.parts.extend(ps)
                self.trim(o, True)
            out.append((s, NONE, None))
        return out

    def m_reverse(self, st, recv, o, args, kw, node, fr):
        self.mut_event(st, recv, 'reverse', args, node, fr)
        o = self.as_list(st, recv)
        o.ver += 1
        if o.parts is not None:
            o.parts = rev_parts(o.parts)
        return [(st, NONE, None)]

    def concrete_sort(self, st, ps, kw, node, fr):
        """Sorts known items by known keys -> (state, parts), or None."""
        if any(p[0] != 'one' for p in ps) or any(
                k not in ('key', 'reverse') for k in kw):
            return None
        rev = kw.get('reverse', FALSE)
        if not is_c(rev):
            return None
        key = kw.get('key', NONE)
        if key == NONE:
            keys = [self.plain(st, p[1]) for p in ps]
        else:
            if not self.concrete_ok:
                return None
            keys, s = [], st.fork()
            for p in ps:
                outs = self.call(s, key, [p[1]], {}, node, fr)
                if len(outs) != 1 or outs[0][2] is not None:
                    return None
                s = outs[0][0]
                keys.append(self.plain(s, outs[0][1]))
            st = s
        if any(k is None for k in keys):
            return None
        try:
            order = sorted(range(len(ps)), key=lambda i: keys[i][0],
                           reverse=bool(rev[2]))
        except TypeError:
            return None
        return st, [ps[i] for i in order]

    def plain(self, st, v):
        """(value,) of a term which is known entirely, or None."""
        if is_c(v):
            return (v[2],)
        if v[0] == 't':
            out = [self.plain(st, x) for x in v[1]]
            if any(x is None for x in out):
                return None
            return (tuple(x[0] for x in out),)
        return None

    def m_sort(self, st, recv, o, args, kw, node, fr):
        self.mut_event(st, recv, 'sort', args, node, fr, sorted(kw.items()))
        o = self.as_list(st, recv)
        o.ver += 1
        if o.parts is not None:
            r = self.concrete_sort(st, list(o.parts), kw, node, fr)
            if r is not None:
                st = r[0]
                o = self.as_list(st, recv)
                o.ver += 1
                o.parts = r[1]
                return [(st, NONE, None)]
        o.parts = [('sym', ('call', 'sorted', recv, tuple(args),
                            tuple(sorted(kw.items())), o.ver))]
        return [(st, NONE, None)]

    def m_pop(self, st, recv, o, args, kw, node, fr):
        # dict.pop(k[, default]), list.pop([i]), set.pop()
        maplike = o is not None and (o.kind in ('dict', 'set') or
                                     (o.kind == 'open' and
                                      o.known is not None))
        if len(args) == 2 or (len(args) == 1 and (
                maplike or not is_c(args[0]))):
            self.as_map(st, recv)
            self.mut_event(st, recv, 'pop', args, node, fr)
            return self.dict_get(
                st, recv, args[0], node, fr, pop=True,
                missing='raise' if len(args) == 1 else None,
                default=args[1] if len(args) == 2 else NONE)
        if o is not None and o.kind in ('dict', 'set'):
            return None
        return self.pop_seq(st, recv, args, node, fr, 'pop',
                            args[0] if args else C(-1))

    def m_popleft(self, st, recv, o, args, kw, node, fr):
        return self.pop_seq(st, recv, args, node, fr, 'popleft', C(0))

    def pop_seq(self, st, recv, args, node, fr, name, index):
        o = self.as_list(st, recv)
        ver = o.ver
        parts = o.parts
        if parts is None:
            return None
        ev = self.mut_event(st, recv, name, args, node, fr)
        if not parts:
            return [self.raise_(st, 'IndexError')]
        o.ver += 1
        if index == C(-1):
            if parts[-1][0] == 'one':
                v = parts.pop()[1]
                ev.res = v
                return [(st, v, None)]
            if len(parts) == 1 and parts[0][0] == 'sym':
                v = ('last', parts[0][1])
                o.parts = [('sym', ('butlast', parts[0][1]))]
                ev.res = v
                return self.pop_sym(st, recv, v, node, fr)
        elif index == C(0):
            if parts[0][0] == 'one':
                v = parts.pop(0)[1]
                ev.res = v
                return [(st, v, None)]
            if parts[0][0] == 'sym':
                v = ('first', parts[0][1])
                parts[0] = ('sym', ('butfirst', parts[0][1]))
                ev.res = v
                return self.pop_sym(st, recv, v, node, fr)
        v = ('i', recv, index, ver)
        o.parts = [('sym', ('without', recv, index, ver))]
        ev.res = v
        return self.pop_sym(st, recv, v, node, fr)

    def pop_sym(self, st, recv, v, node, fr):
        if self.catching(st, 'IndexError'):
            s2 = st.fork()
            return [(st, v, None), self.raise_(s2, 'IndexError')]
        return [(st, v, None)]

    def m_get(self, st, recv, o, args, kw, node, fr):
        if len(args) not in (1, 2) or kw:
            return None
        if o is not None and o.kind == 'open' and o.known is None and \
                recv[0] not in ('a', 's', 'i', 'elem', 'call', 'phi', 'op'):
            return None
        return self.dict_get(st, recv, args[0], node, fr,
                             default=args[1] if len(args) == 2 else NONE)

    def m_setdefault(self, st, recv, o, args, kw, node, fr):
        if len(args) not in (1, 2) or kw:
            return None
        out = []
        s0 = st
        default = args[1] if len(args) == 2 else NONE
        mark = ('setdefault-missing',)
        for s, v, exc in self.dict_get(st, recv, args[0], node, fr,
                                       default=mark):
            if v == mark:
                self.event(s, fr, node, 'setitem', fn=args[0], recv=recv,
                           args=(default,))
                ob = self.as_map(s, recv)
                ob.known[args[0]] = default
                ob.ver += 1
                out.append((s, default, None))
            else:
                out.append((s, v, exc))
        return out

    def m_add(self, st, recv, o, args, kw, node, fr):
        if len(args) != 1 or kw:
            return None
        self.mut_event(st, recv, 'add', args, node, fr)
        o = self.as_map(st, recv)
        k = self.canon_key(st, o, args[0])
        if o.known.get(k) in (None, ABSENT):
            o.ver += 1
        o.known[k] = TRUE
        return [(st, NONE, None)]

    def m_discard(self, st, recv, o, args, kw, node, fr):
        if len(args) != 1 or kw:
            return None
        self.mut_event(st, recv, 'discard', args, node, fr)
        o = self.as_map(st, recv)
        o.known[self.canon_key(st, o, args[0])] = ABSENT
        o.ver += 1
        return [(st, NONE, None)]

    def m_remove(self, st, recv, o, args, kw, node, fr):
        if len(args) != 1 or kw:
            return None
        if o is not None and o.kind == 'list':
            self.mut_event(st, recv, 'remove', args, node, fr)
            ob = st.mut(recv)
            if ('one', args[0]) in ob.parts:
                ob.parts.remove(('one', args[0]))
            else:
                ob.parts = [('sym', ('without', recv, args[0], ob.ver))]
            ob.ver += 1
            return [(st, NONE, None)]
        o = self.as_map(st, recv)
        self.mut_event(st, recv, 'remove', args, node, fr)
        args = [self.canon_key(st, o, args[0])]
        known = o.known.get(args[0])
        if known is None and self.decide(st, ('in', args[0], recv,
                                              o.ver)) is False:
            known = ABSENT
        if known is ABSENT:
            return [self.raise_(st, 'KeyError', args[0])]
        out = []
        if known is None and (self.catching(st, 'KeyError') or
                              self.catching(st, 'ValueError')):
            s2 = st.fork()
            s2.mut(recv).known[args[0]] = ABSENT
            out.append(self.raise_(s2, 'KeyError', args[0]))
            o = st.mut(recv)
        elif known is None:
            self.event(st, fr, node, 'mayraise', fn='KeyError',
                       args=(recv, args[0]))
        o.known[args[0]] = ABSENT
        o.ver += 1
        out.insert(0, (st, NONE, None))
        return out

    def m_clear(self, st, recv, o, args, kw, node, fr):
        if args or kw:
            return None
        self.mut_event(st, recv, 'clear', args, node, fr)
        o = st.mut(recv)
        o.ver += 1
        if o.kind == 'list':
            o.parts = []
        elif o.kind in ('dict', 'set'):
            o.known = {}
            o.base = None
        else:
            o.known = {}
            o.base = None
            o.parts = None
        return [(st, NONE, None)]

    def m_update(self, st, recv, o, args, kw, node, fr):
        if len(args) > 1:
            return None
        known = dict((C(k), v) for k, v in kw.items() if k != '**')
        if args:
            a = args[0]
            ao = st.get(a)
            if ao is not None and ao.kind == 'dict' and ao.base is None:
                k2 = dict(ao.known)
                k2.update(known)
                known = k2
            else:
                outs = []
                for s, ps, exc in self.parts_of(st, a, node, fr):
                    if exc is not None:
                        outs.append((s, None, exc))
                        continue
                    self.mut_event(s, recv, 'update', args, node, fr,
                                   sorted(kw.items()))
                    ob = self.as_map(s, recv)
                    ob.ver += 1
                    if ob.kind == 'dict' and all(
                            p[0] == 'one' and p[1][0] == 't' and
                            len(p[1][1]) == 2 for p in ps):
                        for p in ps:
                            ob.known[p[1][1][0]] = p[1][1][1]
                    elif ob.kind == 'set' and all(p[0] == 'one'
                                                  for p in ps):
                        for p in ps:
                            ob.known[p[1]] = TRUE
                    else:
                        ob.base = ('updated', ob.base or NONE, a, ob.ver)
                        ob.known = {}
                    ob.known.update(known)
                    outs.append((s, NONE, None))
                return outs
        self.mut_event(st, recv, 'update', args, node, fr,
                       sorted(kw.items()))
        ob = self.as_map(st, recv)
        ob.known.update(known)
        ob.ver += 1
        return [(st, NONE, None)]

    def m_copy(self, st, recv, o, args, kw, node, fr):
        if args or kw:
            return None
        if o is not None and o.kind in ('list', 'dict', 'set'):
            c = o.copy()
            c.meta = dict(o.meta)
            return [(st, self.new(st, c), None)]
        return [(st, ('copy', recv, self.ver(st, recv)), None)]

    def m_items(self, st, recv, o, args, kw, node, fr):
        if o is not None and o.kind == 'dict' and o.base is None and \
                not o.meta.get('loops'):
            return [(st, self.new(st, HObj('list', parts=[
                ('one', T(k, v)) for k, v in o.known.items()
                if v is not ABSENT])), None)]
        return [(st, ('call', '.items', recv, (), (), 0), None)]

    m_iteritems = m_items

    def m_values(self, st, recv, o, args, kw, node, fr):
        if o is not None and o.kind == 'dict' and o.base is None and \
                not o.meta.get('loops'):
            return [(st, self.new(st, HObj('list', parts=[
                ('one', v) for k, v in o.known.items()
                if v is not ABSENT])), None)]
        return [(st, ('call', '.values', recv, (), (), 0), None)]

    m_itervalues = m_values

    def m_keys(self, st, recv, o, args, kw, node, fr):
        if o is not None and o.kind == 'dict' and o.base is None and \
                not o.meta.get('loops'):
            return [(st, self.new(st, HObj('list', parts=[
                ('one', k) for k, v in o.known.items()
                if v is not ABSENT])), None)]
        return [(st, ('call', '.keys', recv, (), (), 0), None)]

    def m_index(self, st, recv, o, args, kw, node, fr):
        if o is not None and o.kind == 'list' and len(args) == 1 and all(
                p[0] == 'one' for p in o.parts):
            rs = [self.decide(st, self.mkcmp('==', args[0], p[1]))
                  for p in o.parts]
            for i, r in enumerate(rs):
                if r:
                    return [(st, C(i), None)]
                if r is None:
                    break
            else:
                return [self.raise_(st, 'ValueError')]
        return [(st, ('call', '.index', recv, tuple(args), (),
                      0), None)]

    def m_union(self, st, recv, o, args, kw, node, fr):
        known, base = {}, None
        bases = []
        for v in [recv] + list(args):
            ov = st.get(v)
            if ov is not None and ov.kind in ('set', 'list'):
                if ov.kind == 'set':
                    known.update(ov.known)
                    if ov.base:
                        bases.append(ov.base)
                else:
                    for p in ov.parts:
                        if p[0] == 'one':
                            known[p[1]] = TRUE
                        else:
                            bases.append(p[1])
            elif v[0] == 't':
                for x in v[1]:
                    known[x] = TRUE
            else:
                bases.append(v)
        base = bases[0] if len(bases) == 1 else (
            ('union',) + tuple(bases) if bases else None)
        return [(st, self.new(st, HObj('set', known=known, base=base)),
                 None)]

    def elements(self, st, v):
        """The elements of a value of which all are known, else None."""
        if v[0] == 't':
            return list(v[1])
        o = st.get(v)
        if o is None:
            return None
        if o.kind in ('set', 'dict') and o.base is None and \
                not o.meta.get('loops'):
            return [k for k, x in o.known.items() if x is not ABSENT]
        if o.kind == 'list' and all(p[0] == 'one' for p in o.parts):
            return [p[1] for p in o.parts]
        return None

    def narrowed(self, st, recv, others, wanted):
        """The elements of a set which are (not) among those of others."""
        o = st.get(recv)
        mine = self.elements(st, recv)
        if o is None or o.kind != 'set' or mine is None:
            return None
        for v in others:
            theirs = self.elements(st, v)
            if theirs is None:
                return None
            left = []
            for k in mine:
                same = [k == x or self.decide(st, self.mkcmp('==', k, x))
                        for x in theirs]
                if any(r is True for r in same):
                    found = True
                elif all(r is False for r in same):
                    found = False
                else:
                    return None
                if found == wanted:
                    left.append(k)
            mine = left
        return mine

    def m_difference(self, st, recv, o, args, kw, node, fr, wanted=False):
        left = self.narrowed(st, recv, args, wanted)
        if left is None:
            return None
        return [(st, self.new(st, HObj('set', known=dict(
            (k, TRUE) for k in left))), None)]

    def m_intersection(self, st, recv, o, args, kw, node, fr):
        return self.m_difference(st, recv, o, args, kw, node, fr, True)

    def m_difference_update(self, st, recv, o, args, kw, node, fr,
                            wanted=False):
        left = self.narrowed(st, recv, args, wanted)
        if left is None:
            return None
        self.mut_event(st, recv, 'intersection_update' if wanted else
                       'difference_update', args, node, fr)
        o = st.mut(recv)
        o.known = dict((k, TRUE) for k in left)
        o.ver += 1
        return [(st, NONE, None)]

    def m_intersection_update(self, st, recv, o, args, kw, node, fr):
        return self.m_difference_update(st, recv, o, args, kw, node, fr,
                                        True)

    # -- iteration ---------------------------------------------------------

    def parts_of(self, st, v, node, fr):
        """The elements of an iterable -> [(st, parts, exc)]"""
        o = st.get(v)
        if v[0] == 't':
            return [(st, [('one', x) for x in v[1]], None)]
        if o is not None and o.kind == 'list':
            return [(st, list(o.parts), None)]
        if o is not None and o.kind == 'open' and o.parts is not None:
            return [(st, list(o.parts), None)]
        if is_c(v) and isinstance(v[2], str):
            return [(st, [('one', C(x)) for x in v[2]], None)]
        if is_c(v) and isinstance(v[2], (int, float, type(None))):
            s, __, exc = self.raise3(st, 'TypeError')
            return [(s, None, exc)]
        if o is not None and o.kind in ('dict', 'set') and \
                not o.meta.get('loops'):
            ps = [('one', k) for k, x in o.known.items() if x is not ABSENT]
            if o.base is not None:
                ps = [('sym', o.base)] + ps
            return [(st, ps, None)]
        if o is not None and o.kind == 'inst' and o.meta.get('closed'):
            f, own = self.class_lookup(st, o.cls, '__iter__')
            if f is not None and f[0] == 'r':
                out = []
                for s, it, exc in self.call(st, f, [v], {}, node, fr):
                    if exc is not None:
                        out.append((s, None, exc))
                    elif it == v:
                        out.append((s, [('sym', v)], None))
                    else:
                        out.extend(self.parts_of(s, it, node, fr))
                return out
        if self.is_view(st, v):
            ref = self.new(st, HObj('list', parts=[]))

            def body(s, item):
                s.mut(ref).parts.append(('one', item))
                return [(s, 'n', None)]
            out = []
            for s, k, val in self.iterate(st, v, body, node, fr):
                if k == 'raise':
                    out.append((s, None, val))
                else:
                    out.append((s, list(s.get(ref).parts), None))
            return out
        return [(st, [('sym', v)], None)]

    VIEWS = ('builtins.enumerate', 'builtins.zip', 'builtins.map',
             'builtins.filter', 'builtins.reversed', 'itertools.chain',
             'builtins.range', 'itertools.islice')

    def is_view(self, st, v):
        o = st.get(v)
        if o is not None and o.kind == 'gen':
            return True
        if v[0] == 'call' and v[1] in self.VIEWS:
            if v[1] == 'builtins.range':
                return all(is_c(a) for a in v[3])
            if v[1] == 'itertools.islice':
                return False
            return True
        return False

    def iterate(self, st, it, body, node, fr):
        """for item in it: body -> statement outcomes, 'n' when exhausted."""
        t = it[0]
        o = st.get(it)
        if t == 't':
            return self.unroll(st, list(it[1]), body)
        if is_c(it):
            if isinstance(it[2], str):
                return self.unroll(st, [C(c) for c in it[2]], body)
            return [self.raise3(st, 'TypeError')]
        if o is not None and o.kind == 'gen':
            return self.iter_gen(st, it, body, node, fr)
        if o is not None and o.kind in ('list', 'open') and \
                o.parts is not None:
            r = self.iter_live(st, it, body)
            if r is not None:
                return r
            return self.iter_parts(st, it, list(o.parts), body, node, fr)
        if t == 'call' and it[1] == 'itertools.count' and \
                all(is_c(a) for a in it[3]) and not it[4]:
            a = [x[2] for x in it[3]] + [0, 1][len(it[3]):]
            r = self.unroll_while(
                st, lambda s, i: body(s, C(a[0] + i * a[1])))
            if r is not None:
                return r
        if o is not None and o.kind in ('dict', 'set'):
            if o.base is None and not o.meta.get('loops'):
                return self.unroll_keys(st, it, body)
            return self.sym_loop(st, it, body, node, fr)
        if t == 'call' and it[1] in self.VIEWS:
            return self.iter_view(st, it, body, node, fr)
        if o is not None and o.kind == 'inst' and o.meta.get('closed'):
            f, own = self.class_lookup(st, o.cls, '__iter__')
            if f is not None and f[0] == 'r':
                out = []
                for s, v, exc in self.call(st, f, [it], {}, node, fr):
                    if exc is not None:
                        out.append((s, 'raise', exc))
                    elif v == it:
                        out.extend(self.sym_loop(s, it, body, node, fr))
                    else:
                        out.extend(self.iterate(s, v, body, node, fr))
                return out
        return self.sym_loop(st, it, body, node, fr)

    def zip_many(self, st, args, i, ps, body, node, fr):
        """Zips when drawing from the i-th takes several paths."""
        out = []
        for s, parts, exc in ps:
            if exc is not None:
                out.append((s, 'raise', exc))
                continue
            ref = self.new(s, HObj('list', parts=list(parts)))
            rest = args[:i] + (ref,) + args[i + 1:]
            if any(p[0] != 'one' for p in parts):
                raise Undecided('zip of what is not known')
            out.extend(self.iterate(s, ('call', 'builtins.zip', None,
                                        tuple(rest), (), 0), body, node, fr))
        return out

    def unroll_while(self, st, step, limit=0):
        """Runs step(state, i) while it goes on; None when it goes on for
        too long, or depends on what is not known."""
        if not self.concrete_ok:
            return None
        states, out = [st.fork()], []
        for i in range(max(limit, 2 * self.ROUNDS)):
            nxt = []
            for s in states:
                mark = s.nev
                for s2, k, v in step(s, i):
                    if k in ('n', 'cont'):
                        if any(e.k == 'cond' for e in tail(s2, mark)):
                            if len(states) > 64:
                                return None
                        nxt.append(s2)
                    else:
                        out.append((s2, k, v))
            states = nxt
            if not states:
                return out
            if len(states) > 256:
                return self.summarise()
        return None

    def summarise(self):
        """Too many paths: the loop is summarised if that is good enough for
        the rule."""
        if self.summaries:
            return None
        raise Limit('too many paths')

    def iter_live(self, st, ref, body, wrap=None):
        """Iterates a list of known items, seeing what is added meanwhile."""
        if not self.concrete_ok:
            return None
        parts = st.get(ref).parts
        if any(p[0] != 'one' for p in parts):
            return None

        def step(s, i):
            ps = s.get(ref).parts
            if ps is None or any(p[0] != 'one' for p in ps[:i + 1]):
                return [(s, 'lost', None)]
            if i >= len(ps):
                return [(s, 'done', None)]
            return body(s, wrap(i, ps[i][1]) if wrap else ps[i][1])
        r = self.unroll_while(st, step, max(48, len(parts) + 2))
        if r is None or any(k == 'lost' for s, k, v in r):
            return None
        return [(s, 'n' if k == 'done' else k, v) for s, k, v in r]

    def all_distinct(self, st, keys):
        if all(is_c(k) for k in keys):
            return True
        if len(keys) > 12:
            return False
        for i, a in enumerate(keys):
            for b in keys[i + 1:]:
                if self.decide(st, self.mkcmp('==', a, b)) is not False:
                    return False
        return True

    def raise3(self, st, name, *args):
        s, __, exc = self.raise_(st, name, *args)
        return (s, 'raise', exc)

    def unroll(self, st, items, body):
        states = [st]
        out = []
        for item in items:
            nxt = []
            for s in states:
                for s2, k, v in body(s, item):
                    if k in ('n', 'cont'):
                        nxt.append(s2)
                    else:
                        out.append((s2, k, v))
            states = nxt
            if len(states) > self.MAXPATHS:
                raise Limit('too many paths')
        out.extend((s, 'n', None) for s in states)
        return out

    def unroll_keys(self, st, ref, body):
        """Iterates a known dict or set; it must not change its size."""
        def keys(s):
            o = s.get(ref)
            return [k for k, v in o.known.items() if v is not ABSENT]
        items = keys(st)
        states, out = [st], []
        for i in range(len(items) + 1):
            nxt = []
            for s in states:
                o = s.get(ref)
                if o.base is None and not o.meta.get('loops') and \
                        len(keys(s)) != len(items):
                    out.append(self.raise3(s, 'RuntimeError', C(
                        'changed size during iteration')))
                    continue
                if i == len(items):
                    out.append((s, 'n', None))
                    continue
                for s2, k, v in body(s, items[i]):
                    if k in ('n', 'cont'):
                        nxt.append(s2)
                    else:
                        out.append((s2, k, v))
            states = nxt
            if len(states) > self.MAXPATHS:
                raise Limit('too many paths')
        return out

    def iter_parts(self, st, ref, parts, body, node, fr):
        states = [st]
        out = []
        for p in parts:
            nxt = []
            for s in states:
                if p[0] == 'one':
                    r = body(s, p[1])
                elif p[0] == 'sym':
                    r = self.iterate_sym(s, p[1], ref, body, node, fr)
                elif p[0] in ('loop', 'rloop'):
                    r = self.iter_looppart(s, ref, p, body, node, fr)
                else:
                    r = self.sym_loop(s, ref, body, node, fr)
                for s2, k, v in r:
                    if k in ('n', 'cont'):
                        nxt.append(s2)
                    else:
                        out.append((s2, k, v))
            states = nxt
        out.extend((s, 'n', None) for s in states)
        return out

    def iterate_sym(self, st, src, ref, body, node, fr):
        """Loops over the elements of src through the copy ref."""
        return self.sym_loop(st, src, body, node, fr, over=ref)

    def iter_looppart(self, st, ref, p, body, node, fr):
        """The elements an earlier loop collected."""
        alts = []
        for suffix in p[3]:
            for q in suffix:
                if q[0] == 'one':
                    if q[1] not in alts:
                        alts.append(q[1])
                else:
                    alts.append(('elem', ref, p[1]))
        if not alts:
            return [(st, 'n', None)]

        def body2(s, item):
            out = []
            for i, a in enumerate(alts):
                s2 = s.fork() if i < len(alts) - 1 else s
                out.extend(body(s2, a))
            return out
        return self.sym_loop(st, p[2] if p[2] is not None else ref, body2,
                             node, fr, over=ref)

    def iter_gen(self, st, it, body, node, fr):
        self.counter += 1
        token = ('genexit', self.counter)

        def handler(s, v, e, f2):
            out = []
            for s2, k, val in body(s, v):
                if k in ('n', 'cont'):
                    out.append((s2, 'n', NONE))
                else:
                    s2.pend[token] = (k, val)
                    out.append((s2, 'raise', token))
            return out
        out = []
        for s, k, val in self.run_gen(st, it, handler, node, fr):
            if token in s.pend:
                pk, pv = s.pend.pop(token)
                if k == 'raise' and val != token:
                    out.append((s, 'raise', val))
                else:
                    out.append((s, pk, pv))
            else:
                out.append((s, k, val))
        return out

    def iter_view(self, st, it, body, node, fr):
        fn, args = it[1], it[3]
        kw = dict(it[4])
        if fn == 'builtins.range':
            if all(is_c(a) for a in args):
                r = range(*[a[2] for a in args])
                if len(r) <= self.ROUNDS:
                    return self.unroll(st, [C(i) for i in r], body)
            return self.sym_loop(st, it, body, node, fr)
        if fn == 'builtins.enumerate':
            start = args[1] if len(args) > 1 else kw.get('start', C(0))
            o = st.get(args[0])
            known = args[0][0] == 't' or (
                o is not None and o.kind == 'list' and
                all(p[0] == 'one' for p in o.parts))
            if known and is_c(start):
                if args[0][0] != 't':
                    r = self.iter_live(st, args[0], body, lambda i, x: T(
                        C(i + start[2]), x))
                    if r is not None:
                        return r
                items = list(args[0][1]) if args[0][0] == 't' else [
                    p[1] for p in o.parts]
                return self.unroll(st, [T(C(i + start[2]), x) for i, x in
                                        enumerate(items)], body)
            return self.iterate(st, args[0], lambda s, x: body(
                s, T(('idx', args[0], start), x)), node, fr)
        if fn == 'builtins.zip':
            seqs = []
            for a in args:
                o = st.get(a)
                if a[0] == 't':
                    seqs.append(list(a[1]))
                elif o is not None and o.kind == 'list' and all(
                        p[0] == 'one' for p in o.parts):
                    seqs.append([p[1] for p in o.parts])
                elif a[0] == 'call' and a[1] == 'builtins.range' and all(
                        is_c(x) for x in a[3]):
                    seqs.append([C(i) for i in
                                 range(*[x[2] for x in a[3]])])
                elif a[0] == 'call' and a[1] == 'itertools.count' and all(
                        is_c(x) for x in a[3]) and len(a[3]) < 2 and any(
                            b[0] != 'call' for b in args):
                    first = a[3][0][2] if a[3] else 0
                    seqs.append([C(first + i) for i in range(200)])
                elif self.concrete_ok and self.is_view(st, a):
                    ps = self.parts_of(st, a, node, fr)
                    if len(ps) != 1 or ps[0][2] is not None or any(
                            p[0] != 'one' for p in ps[0][1]):
                        return self.zip_many(st, args, len(seqs), ps, body,
                                             node, fr)
                    st = ps[0][0]
                    seqs.append([p[1] for p in ps[0][1]])
                else:
                    seqs.append(None)
            if all(s is not None for s in seqs):
                return self.unroll(st, [('t', z) for z in zip(*seqs)], body)
            if any(s is not None for s in seqs):
                n = min(len(s) for s in seqs if s is not None)
                items = []
                for i in range(n):
                    items.append(('t', tuple(
                        s[i] if s is not None else ('i', a, C(i))
                        for s, a in zip(seqs, args))))
                return self.unroll_maybe(st, items, body)
            # lockstep over unknown sequences.
            return self.sym_loop(st, it, body, node, fr, item=lambda L: (
                't', tuple(self.elem_of(st, a, L) for a in args)))
        if fn == 'builtins.map':
            def mapped(s, x):
                out = []
                for s2, v, exc in self.call(
                        s, args[0], list(x[1]) if len(args) > 2 else [x],
                        {}, node, fr):
                    if exc is not None:
                        out.append((s2, 'raise', exc))
                    else:
                        out.extend(body(s2, v))
                return out
            src = args[1] if len(args) == 2 else (
                'call', 'builtins.zip', None, tuple(args[1:]), (), 0)
            return self.iterate(st, src, mapped, node, fr)
        if fn == 'builtins.filter':
            def filtered(s, x):
                out = []
                if args[0] == NONE:
                    vals = [(s, x, None)]
                else:
                    vals = self.call(s, args[0], [x], {}, node, fr)
                for s2, v, exc in vals:
                    if exc is not None:
                        out.append((s2, 'raise', exc))
                        continue
                    for s3, b in self.truth(s2, v, node, fr):
                        if b:
                            out.extend(body(s3, x))
                        else:
                            out.append((s3, 'n', None))
                return out
            return self.iterate(st, args[1], filtered, node, fr)
        if fn == 'builtins.reversed':
            out = []
            for s, ps, exc in self.parts_of(st, args[0], node, fr):
                out.extend(self.iter_parts(s, it, rev_parts(ps), body, node,
                                           fr))
            return out
        if fn == 'itertools.chain':
            states = [st]
            out = []
            for a in args:
                nxt = []
                for s in states:
                    for s2, k, v in self.iterate(s, a, body, node, fr):
                        if k in ('n', 'cont'):
                            nxt.append(s2)
                        else:
                            out.append((s2, k, v))
                states = nxt
            return out + [(s, 'n', None) for s in states]
        return self.sym_loop(st, it, body, node, fr)

    def elem_of(self, st, src, L):
        return ('elem', src, L)

    def unroll_maybe(self, st, items, body):
        """Items of a sequence whose length is only bounded: any prefix."""
        states = [st]
        out = []
        for item in items:
            nxt = []
            for s in states:
                stop = s.fork()
                out.append((stop, 'n', None))
                for s2, k, v in body(s, item):
                    if k in ('n', 'cont'):
                        nxt.append(s2)
                    else:
                        out.append((s2, k, v))
            states = nxt
        out.extend((s, 'n', None) for s in states)
        return out

    def stable(self, v, L, n0):
        """Whether a term denotes the same object in every iteration."""
        for x in walk(v):
            if not isinstance(x, tuple) or not x:
                continue
            if x[0] in ('elem', 'phi') and len(x) > 2 and (
                    x[2] == L if x[0] == 'elem' else x[1] == L):
                return False
            if x[0] == 'call' and len(x) == 6 and isinstance(x[5], int) \
                    and x[5] > n0:
                return False
        return True

    def diff(self, a, b, L, n0):
        """Keys of what differs between two states (objects of a only)."""
        out = set()
        for ref, ob in b.heap.items():
            oa = a.heap.get(ref)
            if oa is ob:
                continue
            if oa is None:
                oa = a.base.get(ref)
            if oa is ob:
                continue
            if oa is None:
                if ref[0] == 'r':
                    continue            # allocated in the body
                if not self.stable(ref, L, n0):
                    continue
                oa = HObj('open')
            for k in set(oa.attrs) | set(ob.attrs):
                if oa.attrs.get(k) != ob.attrs.get(k):
                    out.add((ref, k))
            if oa.parts != ob.parts:
                if oa.parts is None and oa.kind == 'open' and \
                        ob.parts == [('sym', ref)]:
                    pass
                else:
                    out.add((ref, '*parts'))
            if oa.known != ob.known or oa.base != ob.base:
                if ob.ver != oa.ver:
                    out.add((ref, '*map'))
        return out

    def havoc(self, st, L, keys, init):
        for key in sorted(keys, key=repr):
            ref, attr = key
            o = st.mut(ref)
            phi = ('phi', L, key)
            if attr == '*parts':
                if key not in init:
                    init[key] = ('parts', tuple(o.parts) if o.parts is not
                                 None else (('sym', ref),))
                o.parts = [phi]
                o.ver += 1000
            elif attr == '*map':
                if key not in init:
                    init[key] = ('map', tuple(sorted(
                        (o.known or {}).items(), key=repr)),
                        o.base if o.base is not None else NONE)
                o.known = {}
                o.base = phi
                o.ver += 1000
            else:
                old = o.attrs.get(attr)
                if key not in init:
                    if old is None:
                        old = UNBOUND if o.kind == 'scope' else (
                            'a', ref, attr)
                    init[key] = old
                if init[key] == UNBOUND:
                    # assigned before use in every iteration.
                    o.attrs.pop(attr, None)
                else:
                    o.attrs[attr] = phi

    def sym_loop(self, st, src, body, node, fr, cond=None, over=None,
                 item=None):
        # no elements at all?
        if cond is None and src is not None:
            for v in (over, src):
                if v is None:
                    continue
                r, __ = self.truth_atom(st, v)
                if r is False:
                    return [(st, 'n', None)]
        if src is not None and self.known_empty(st, src):
            return [(st, 'n', None)]
        self.loopn += 1
        L = self.loopn
        info = LoopInfo(L, over if over is not None else src,
                        self.loc(node, fr), node, fr.qual,
                        'while' if cond is not None else 'for')
        self.loops[L] = info
        pre = st.trace
        n0 = st.n
        keys, init = set(), {}
        if item is not None:
            it = item(L)
        else:
            it = ('elem', src, L)
        for attempt in range(8):
            head = st.fork()
            self.havoc(head, L, keys, init)
            for k in keys:
                info.phis[k] = (init[k], [])
            head.trace = None
            back, exits = [], []
            if cond is not None:
                starts = []
                for s, b, exc in cond(head.fork()):
                    if exc is not None:
                        exits.append((s, 'raise', exc))
                    elif b:
                        starts.append(s)
                    else:
                        exits.append((s, 'n', None))
            else:
                exits.append((head.fork(), 'n', None))
                starts = [head.fork()]
            for s in starts:
                for s2, k, v in (body(s, it) if cond is None else body(s)):
                    if k in ('n', 'cont'):
                        back.append((s2, k))
                    elif k == 'brk':
                        exits.append((s2, 'brk', v))
                    else:
                        exits.append((s2, k, v))
            changed = set()
            for s2, k in back:
                changed |= self.diff(head, s2, L, n0)
            if changed <= keys:
                break
            keys |= changed
        else:
            raise Undecided('loop does not stabilise')
        info.segs = [Seg(s2.events(), k, s2) for s2, k in back]
        for key in keys:
            ref, attr = key
            nexts = []
            for s2, k in back:
                o = s2.get(ref)
                if attr == '*parts':
                    nexts.append(('parts', tuple(o.parts or ())))
                elif attr == '*map':
                    nexts.append(('map', tuple(sorted(
                        (o.known or {}).items(), key=repr)),
                        o.base if o.base is not None else NONE))
                else:
                    nexts.append(o.attrs.get(attr, UNBOUND))
            info.phis[key] = (init[key], nexts)
        # variables first bound in the body are readable afterwards.
        out = []
        for s, k, v in exits:
            evs = s.events()
            s.trace = pre
            s.add(Ev('loop', x=info, loc=info.loc, func=fr.qual,
                     depth=fr.depth))
            for e in evs:
                s.add(e)
            for key in keys:
                ref, attr = key
                if attr == '*parts':
                    o = s.mut(ref)
                    if o.parts is not None:
                        o.parts = self.close_parts(o.parts, L, key, info)
                elif init[key] == UNBOUND and k in ('n',):
                    s.mut(ref).attrs.setdefault(attr, ('phi', L, key))
            out.append((s, k, v))
        return out

    def known_empty(self, st, src):
        if src[0] == 't' and not src[1]:
            return True
        if src[0] == 'butlast':
            pass
        return False

    def close_parts(self, parts, L, key, info):
        phi = ('phi', L, key)
        init, nexts = info.phis[key]
        suf, pref = [], []
        for n in nexts:
            ps = list(n[1])
            if ps and ps[0] == phi and phi not in ps[1:]:
                suf.append(tuple(ps[1:]))
            else:
                suf = None
                break
        if suf is None:
            for n in nexts:
                ps = list(n[1])
                if ps and ps[-1] == phi and phi not in ps[:-1]:
                    pref.append(tuple(ps[:-1]))
                else:
                    pref = None
                    break
        out = []
        for p in parts:
            if p != phi:
                out.append(p)
            elif suf is not None:
                out.extend(init[1])
                out.append(('loop', L, info.src, tuple(suf)))
            elif pref is not None:
                out.append(('rloop', L, info.src, tuple(pref)))
                out.extend(init[1])
            else:
                out.append(p)
        return out

    # -- statements --------------------------------------------------------

    def ex(self, stmts, st, fr):
        """-> [(st, kind, value)], kind in n, ret, raise, brk, cont"""
        states = [st]
        out = []
        for stmt in stmts:
            nxt = []
            for s in states:
                for s2, k, v in self.ex1(stmt, s, fr):
                    if k == 'n':
                        nxt.append(s2)
                    else:
                        out.append((s2, k, v))
            states = nxt
            if len(states) + len(out) > self.MAXPATHS:
                raise Limit('too many paths')
            if not states:
                break
        out.extend((s, 'n', None) for s in states)
        return out

    def ex1(self, n, st, fr):
        self.tick()
        m = getattr(self, 'st_' + type(n).__name__, None)
        if m is None:
            raise Undecided('statement %s' % type(n).__name__)
        return m(n, st, fr)

    def st_Expr(self, n, st, fr):
        return [(s, 'n', None) if exc is None else (s, 'raise', exc)
                for s, v, exc in self.ev(n.value, st, fr)]

    def st_Pass(self, n, st, fr):
        return [(st, 'n', None)]

    def st_Return(self, n, st, fr):
        if n.value is None:
            return [(st, 'ret', NONE)]
        return [(s, 'ret', v) if exc is None else (s, 'raise', exc)
                for s, v, exc in self.ev(n.value, st, fr)]

    def st_Break(self, n, st, fr):
        return [(st, 'brk', None)]

    def st_Continue(self, n, st, fr):
        return [(st, 'cont', None)]

    def st_Global(self, n, st, fr):
        return [(st, 'n', None)]

    st_Nonlocal = st_Global

    def st_Assert(self, n, st, fr):
        out = []
        for s, b, exc in self.cond(n.test, st, fr):
            if exc is not None:
                out.append((s, 'raise', exc))
            elif b:
                out.append((s, 'n', None))
            else:
                out.append(self.raise3(s, 'AssertionError'))
        return out

    def st_Assign(self, n, st, fr):
        out = []
        for s, v, exc in self.ev(n.value, st, fr):
            if exc is not None:
                out.append((s, 'raise', exc))
                continue
            states = [s]
            for t in n.targets:
                nxt = []
                for s2 in states:
                    for s3, k, val in self.assign(t, v, s2, fr):
                        if k == 'raise':
                            out.append((s3, k, val))
                        else:
                            nxt.append(s3)
                states = nxt
            out.extend((s2, 'n', None) for s2 in states)
        return out

    def st_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [(st, 'n', None)]
        out = []
        for s, v, exc in self.ev(n.value, st, fr):
            if exc is not None:
                out.append((s, 'raise', exc))
            else:
                out.extend(self.assign(n.target, v, s, fr))
        return out

    def st_AugAssign(self, n, st, fr):
        import copy
        load = copy.copy(n.target)
        load.ctx = ast.Load()
        op = self.BIN[type(n.op)]
        out = []
        for s, vals, exc in self.evs([load, n.value], st, fr):
            if exc is not None:
                out.append((s, 'raise', exc))
                continue
            a, b = vals
            oa = s.get(a)
            if op == '+' and oa is not None and oa.kind == 'list':
                for s2, v, x in self.call_method(s, a, 'extend', [b], {}, n,
                                                 fr):
                    out.append((s2, 'raise', x) if x is not None else
                               (s2, 'n', None))
                continue
            if op == '|' and oa is not None and oa.kind in ('set', 'dict'):
                for s2, v, x in self.call_method(s, a, 'update', [b], {}, n,
                                                 fr):
                    out.append((s2, 'raise', x) if x is not None else
                               (s2, 'n', None))
                continue
            if op in ('-', '&') and oa is not None and \
                    oa.kind == 'set' and hasattr(self, 'm_difference_update'):
                for s2, v, x in self.call_method(
                        s, a, 'difference_update' if op == '-' else
                        'intersection_update', [b], {}, n, fr):
                    out.append((s2, 'raise', x) if x is not None else
                               (s2, 'n', None))
                continue
            own = self.dunder(s, a, '__i%s__' % self.INPLACE[op], [b], n,
                              fr) if oa is not None and oa.kind == 'inst' \
                and op in self.INPLACE else None
            for s2, v, x in own if own is not None else self.binop(
                    s, op, a, b, n, fr):
                if x is not None:
                    out.append((s2, 'raise', x))
                else:
                    out.extend(self.assign(n.target, v, s2, fr))
        return out

    INPLACE = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv',
               '//': 'floordiv', '%': 'mod', '**': 'pow', '|': 'or',
               '&': 'and', '^': 'xor'}

    def st_Delete(self, n, st, fr):
        states = [st]
        out = []
        for t in n.targets:
            nxt = []
            for s in states:
                if isinstance(t, ast.Name):
                    sc = s.get(fr.scope)
                    if t.id in sc.attrs:
                        del s.mut(fr.scope).attrs[t.id]
                    nxt.append(s)
                elif isinstance(t, ast.Attribute):
                    for s2, v, exc in self.ev(t.value, s, fr):
                        if exc is not None:
                            out.append((s2, 'raise', exc))
                            continue
                        for s3, __, x in self.ga(s2, v, t.attr, t, fr):
                            if x is not None:
                                out.append((s3, 'raise', x))
                                continue
                            self.event(s3, fr, t, 'delattr', fn=t.attr,
                                       recv=v)
                            ob = s3.mut(v)
                            ob.attrs[t.attr] = ('deleted',)
                            nxt.append(s3)
                elif isinstance(t, ast.Subscript):
                    for s2, vals, exc in self.evs([t.value, t.slice], s, fr):
                        if exc is not None:
                            out.append((s2, 'raise', exc))
                            continue
                        v, k = vals
                        self.event(s2, fr, t, 'delitem', fn=k, recv=v)
                        if k[0] == 'slice':
                            ob = self.as_list(s2, v)
                            ob.ver += 1
                            if k[1] == (NONE, NONE, NONE):
                                ob.parts = []
                            elif k[1] == (C(-1), NONE, NONE):
                                ps = ob.parts
                                if ps and ps[-1][0] == 'one':
                                    ps.pop()
                                elif ps and ps[-1][0] == 'sym':
                                    ps[-1] = ('sym', ('butlast', ps[-1][1]))
                            else:
                                ob.parts = [('sym', ('without', v, k,
                                                     ob.ver))]
                            nxt.append(s2)
                            continue
                        o = s2.get(v)
                        if (o is not None and o.kind == 'list') or (
                                is_c(k) and k[2] == -1):
                            for s3, __, x in self.pop_seq(
                                    s2, v, [k], t, fr, 'pop', k):
                                (out.append((s3, 'raise', x)) if x is not
                                 None else nxt.append(s3))
                            continue
                        for s3, __, x in self.dict_get(
                                s2, v, k, t, fr, missing='raise', pop=True):
                            (out.append((s3, 'raise', x)) if x is not None
                             else nxt.append(s3))
            states = nxt
        out.extend((s, 'n', None) for s in states)
        return out

    def bind_name(self, st, name, v, fr):
        sc = st.get(fr.scope)
        target = fr.scope
        if sc is None:
            sc = self.world.get(fr.scope)
        if sc.kind == 'scope':
            if name in sc.meta.get('globals', ()):
                target = self.modrefs[fr.module]
            elif sc.meta.get('kind') != 'class' and \
                    sc.meta.get('locals') is not None and \
                    name not in sc.meta['locals']:
                # nonlocal (or a comprehension writing outwards).
                p = sc.meta.get('parent')
                while p is not None:
                    po = st.get(p)
                    if po.kind == 'scope' and (
                            name in (po.meta.get('locals') or ()) or
                            name in po.attrs):
                        target = p
                        break
                    p = po.meta.get('parent') if po.kind == 'scope' else None
        st.mut(target).attrs[name] = v

    def assign(self, t, v, st, fr):
        """Assigns to a target -> [(st, 'n'|'raise', exc)]"""
        if isinstance(t, ast.Name):
            self.bind_name(st, t.id, v, fr)
            if fr.scope == self.modrefs.get(fr.module) or (
                    st.get(fr.scope).kind == 'scope' and
                    t.id in st.get(fr.scope).meta.get('globals', ())):
                if fr.func is not None:
                    self.event(st, fr, t, 'store', fn=t.id,
                               recv=X('module:' + fr.module), args=(v,))
            return [(st, 'n', None)]
        if isinstance(t, ast.Attribute):
            out = []
            for s, ob, exc in self.ev(t.value, st, fr):
                if exc is not None:
                    out.append((s, 'raise', exc))
                    continue
                for s2, __, x in self.sa(s, ob, t.attr, v, t, fr):
                    out.append((s2, 'n', None) if x is None else
                               (s2, 'raise', x))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, vals, exc in self.evs([t.value, t.slice], st, fr):
                if exc is not None:
                    out.append((s, 'raise', exc))
                    continue
                out.extend(self.setitem(s, vals[0], vals[1], v, t, fr))
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, v, st, fr)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        raise Undecided('assignment target')

    def setitem(self, st, ob, k, v, node, fr):
        if ob[0] == 'locals':
            st.mut(ob[1]).attrs[k[2]] = v
            return [(st, 'n', None)]
        if self.own_dict(st, ob) is not None and is_c(k):
            self.own_store(st, ob, [(k, v)], node, fr)
            return [(st, 'n', None)]
        r = self.dunder(st, ob, '__setitem__', [k, v], node, fr)
        if r is not None:
            return [(s, 'n', None) if x is None else (s, 'raise', x)
                    for s, __, x in r]
        self.event(st, fr, node, 'setitem', fn=k, recv=ob, args=(v,))
        if ob[0] == 'x':
            return [(st, 'n', None)]
        o = st.mut(ob)
        o.ver += 1
        if k[0] == 'slice':
            if k[1] == (NONE, NONE, NONE):
                out = []
                for s, ps, exc in self.parts_of(st, v, node, fr):
                    if exc is not None:
                        out.append((s, 'raise', exc))
                        continue
                    s.mut(ob).parts = list(ps)
                    out.append((s, 'n', None))
                return out
            if o.parts is not None and k[1][2] == NONE and \
                    sliceable(o.parts, k[1]):
                out = []
                for s, ps, exc in self.parts_of(st, v, node, fr):
                    if exc is not None:
                        out.append((s, 'raise', exc))
                        continue
                    o2 = s.mut(ob)
                    o2.parts = list(o2.parts)
                    o2.parts[slice(k[1][0][2], k[1][1][2])] = list(ps)
                    out.append((s, 'n', None))
                return out
            o.parts = [('sym', ('sliced', ob, k, v, o.ver))]
            return [(st, 'n', None)]
        if o.kind == 'list' or (o.kind == 'open' and o.parts is not None):
            if is_c(k) and isinstance(k[2], int) and all(
                    p[0] == 'one' for p in o.parts):
                try:
                    o.parts[k[2]] = ('one', v)
                except IndexError:
                    return [self.raise3(st, 'IndexError')]
            else:
                o.attrs[('item', k)] = v
            return [(st, 'n', None)]
        if o.kind in ('dict', 'open'):
            if o.known is None:
                o.known = {}
                if o.kind == 'open':
                    o.base = ob
            o.known[self.canon_key(st, o, k)] = v
        return [(st, 'n', None)]

    def unpack(self, t, v, st, fr):
        n = len(t.elts)
        star = [i for i, x in enumerate(t.elts)
                if isinstance(x, ast.Starred)]
        o = st.get(v)
        vals = None
        if v[0] == 't':
            vals = list(v[1])
        elif o is not None and o.kind == 'list' and all(
                p[0] == 'one' for p in o.parts):
            vals = [p[1] for p in o.parts]
        elif o is not None and o.kind == 'gen':
            out = []
            for s, ps, exc in self.parts_of(st, v, t, fr):
                if exc is not None:
                    out.append((s, 'raise', exc))
                elif all(p[0] == 'one' for p in ps):
                    out.extend(self.unpack(t, ('t', tuple(
                        p[1] for p in ps)), s, fr))
                else:
                    raise Undecided('unpacking a generator')
            return out
        outs = []
        if vals is not None:
            if star:
                i = star[0]
                after = n - i - 1
                if len(vals) < n - 1:
                    return [self.raise3(st, 'ValueError')]
                mid = vals[i:len(vals) - after]
                ref = self.new(st, HObj('list',
                                        parts=[('one', x) for x in mid]))
                vals = vals[:i] + [ref] + vals[len(vals) - after:]
            elif len(vals) != n:
                self.event(st, fr, t, 'badunpack', args=(v,), x=n)
                return [self.raise3(st, 'ValueError')]
        else:
            if is_c(v):
                return [self.raise3(st, 'TypeError')]
            vals = [('i', v, C(i)) for i in range(n)]
            if star:
                vals[star[0]] = ('i', v, ('slice', (C(star[0]), NONE, NONE)))
            self.event(st, fr, t, 'unpack', args=(v,), x=n)
            fact = ('cmp', 'unpacks', v, C(n))
            if self.catching(st, 'ValueError') and \
                    st.facts.get(fact) is None:
                s2 = st.fork()
                s2.facts[fact] = False
                outs.append(self.raise3(s2, 'ValueError'))
                st.facts[fact] = True
        states = [st]
        for x, val in zip(t.elts, vals):
            nxt = []
            for s in states:
                for s2, k, exc in self.assign(x, val, s, fr):
                    (nxt.append(s2) if k == 'n' else
                     outs.append((s2, k, exc)))
            states = nxt
        return outs + [(s, 'n', None) for s in states]

    def st_If(self, n, st, fr):
        out = []
        for s, b, exc in self.cond(n.test, st, fr):
            if exc is not None:
                out.append((s, 'raise', exc))
            else:
                out.extend(self.ex(n.body if b else n.orelse, s, fr))
        return out

    def st_For(self, n, st, fr):
        out = []

        def body(s, item):
            res = []
            for s2, k, exc in self.assign(n.target, item, s, fr):
                if k == 'raise':
                    res.append((s2, k, exc))
                else:
                    res.extend(self.ex(n.body, s2, fr))
            return res
        for s, it, exc in self.ev(n.iter, st, fr):
            if exc is not None:
                out.append((s, 'raise', exc))
                continue
            for s2, k, v in self.iterate(s, it, body, n, fr):
                if k in ('n', 'cont'):
                    out.extend(self.ex(n.orelse, s2, fr))
                elif k == 'brk':
                    out.append((s2, 'n', None))
                else:
                    out.append((s2, k, v))
        return out

    def st_While(self, n, st, fr):
        loop = next_loop(n)
        if loop is not None:
            return self.st_For(loop, st, fr)

        def cond(s):
            return self.cond(n.test, s, fr)

        def body(s):
            return self.ex(n.body, s, fr)
        const = isinstance(n.test, ast.Constant)
        res = None
        if self.unroll_symbolic:
            res = self.while_paths(st, None if const and n.test.value else
                                   cond, body)
        elif not const:
            res = self.while_concrete(st, cond, body)
        elif n.test.value:
            mark = st.nev
            res = self.unroll_while(st, lambda s, i: body(s))
            if res is not None and any(
                    e.k == 'cond' for s2, k, v in res
                    for e in tail(s2, mark)):
                res = None
        if res is None:
            res = self.sym_loop(st, None, body, n, fr, cond=cond)
        out = []
        for s2, k, v in res:
            if k in ('n', 'cont'):
                out.extend(self.ex(n.orelse, s2, fr))
            elif k == 'brk':
                out.append((s2, 'n', None))
            else:
                out.append((s2, k, v))
        return out

    #: whether loops are followed round by round on every path.
    unroll_symbolic = False

    def while_paths(self, st, cond, body):
        states = [st.fork()]
        out = []
        for i in range(20):
            nxt = []
            for s in states:
                cs = [(s, True, None)] if cond is None else cond(s)
                for s2, b, exc in cs:
                    if exc is not None:
                        out.append((s2, 'raise', exc))
                    elif not b:
                        out.append((s2, 'n', None))
                    else:
                        for s3, k, v in body(s2):
                            if k in ('n', 'cont'):
                                nxt.append(s3)
                            else:
                                out.append((s3, k, v))
            states = nxt
            if not states:
                return out
            if len(states) > 64:
                return None
        return None

    #: how often the body of such a loop runs at most.
    while_rounds = 48

    def while_concrete(self, st, cond, body):
        """Unrolls a loop whose condition is known each time round."""
        states = [st.fork()]
        out = []
        for i in range(self.while_rounds):
            nxt = []
            for s in states:
                mark = s.nev
                cs = cond(s)
                for s2, b, exc in cs:
                    if exc is not None:
                        if i == 0 and len(cs) > 1:
                            return None
                        out.append((s2, 'raise', exc))
                        continue
                    if len(cs) > 1 and not (i or len(cs) < 4) or any(
                            e.k == 'cond' for e in tail(s2, mark)):
                        return None
                    if not b:
                        out.append((s2, 'n', None))
                        continue
                    for s3, k, v in body(s2):
                        if k in ('n', 'cont'):
                            nxt.append(s3)
                        else:
                            out.append((s3, k, v))
            states = nxt
            if not states:
                return out
            if len(states) > (64 if self.summaries else 512):
                return self.summarise()
        return None

    def st_FunctionDef(self, n, st, fr):
        out = []
        exprs = list(n.decorator_list)
        for s, decs, exc in self.evs(exprs, st, fr):
            if exc is not None:
                out.append((s, 'raise', exc))
                continue
            for s2, f, x in self.make_func(n, s, fr):
                if x is not None:
                    out.append((s2, 'raise', x))
                    continue
                todo = [(s2, f)]
                for d in reversed(decs):
                    nxt = []
                    for s3, v in todo:
                        for s4, v2, x2 in self.call(s3, d, [v], {}, n, fr):
                            if x2 is not None:
                                out.append((s4, 'raise', x2))
                            else:
                                nxt.append((s4, v2))
                    todo = nxt
                for s3, v in todo:
                    self.bind_name(s3, n.name, v, fr)
                    out.append((s3, 'n', None))
        return out

    st_AsyncFunctionDef = st_FunctionDef

    def st_ClassDef(self, n, st, fr):
        out = []
        for s, v, exc in self.exec_class(n, st, fr):
            if exc is not None:
                out.append((s, 'raise', exc))
                continue
            todo = [(s, v)]
            for d in reversed(n.decorator_list):
                nxt = []
                for s2, v2 in todo:
                    for s3, dv, x in self.ev(d, s2, fr):
                        for s4, v3, x2 in self.call(s3, dv, [v2], {}, n, fr):
                            nxt.append((s4, v3))
                todo = nxt
            for s2, v2 in todo:
                self.bind_name(s2, n.name, v2, fr)
                out.append((s2, 'n', None))
        return out

    def st_Import(self, n, st, fr):
        for al in n.names:
            if al.name in MISSING:
                return [self.raise3(st, 'ImportError')]
            name = canon(al.name)
            if name in self.modules:
                ref = self.import_module(st, name)
                if al.asname:
                    self.bind_name(st, al.asname, ref, fr)
                else:
                    top = name.split('.')[0]
                    self.bind_name(st, top, self.modrefs.get(top, ref), fr)
                continue
            if al.asname:
                self.bind_name(st, al.asname, X(name), fr)
            else:
                self.bind_name(st, al.name.split('.')[0],
                               X(name.split('.')[0] if name == al.name
                                 else name), fr)
        return [(st, 'n', None)]

    def st_ImportFrom(self, n, st, fr):
        mod = n.module or ''
        if mod == '__future__':
            return [(st, 'n', None)]
        if n.level:
            base = fr.module
            m = self.modules[base]
            if os.path.basename(m.path) != '__init__.py':
                base = base.rpartition('.')[0]
            for __ in range(n.level - 1):
                base = base.rpartition('.')[0]
            mod = base + ('.' + mod if mod else '')
        if mod in MISSING:
            return [self.raise3(st, 'ImportError')]
        if mod not in self.modules and canon(mod) in self.modules:
            mod = canon(mod)
        if mod in self.modules:
            ref = self.import_module(st, mod)
            o = st.get(ref) or self.world.get(ref)
            for al in n.names:
                if al.name == '*':
                    for k, v in o.attrs.items():
                        if not k.startswith('_'):
                            self.bind_name(st, k, v, fr)
                    continue
                sub = mod + '.' + al.name
                if al.name in o.attrs:
                    v = o.attrs[al.name]
                elif sub in self.modules:
                    v = self.import_module(st, sub)
                elif sub in MISSING:
                    if self.config.get('speedup') and \
                            sub == 'profiling.speedup':
                        v = X('profiling.speedup')
                    else:
                        return [self.raise3(st, 'ImportError')]
                else:
                    self.event(st, fr, n, 'badimport', fn=sub)
                    return [self.raise3(st, 'ImportError')]
                self.bind_name(st, al.asname or al.name, v, fr)
            return [(st, 'n', None)]
        for al in n.names:
            full = canon(mod + '.' + al.name)
            if mod in MISSING:
                return [self.raise3(st, 'ImportError')]
            v = X(full)
            xo = st.get(self.xworld) if self.xworld is not None else None
            if xo is not None and full in xo.attrs:
                v = xo.attrs[full]
            elif full in self.const_override:
                v = self.const_override[full]
            elif mod == 'errno' and isinstance(
                    getattr(_errno, al.name, None), int):
                v = C(getattr(_errno, al.name))
            self.bind_name(st, al.asname or al.name, v, fr)
        return [(st, 'n', None)]

    # exceptions.

    def st_Raise(self, n, st, fr):
        if n.exc is None:
            cur = st.pend.get('exc')
            if cur:
                return [(st, 'raise', cur[-1])]
            return [self.raise3(st, 'RuntimeError')]
        out = []
        for s, v, exc in self.ev(n.exc, st, fr):
            if exc is not None:
                out.append((s, 'raise', exc))
                continue
            if v[0] == 'x' or (v[0] == 'r' and s.get(v) is not None and
                               s.get(v).kind == 'class'):
                s.n += 1
                v = ('exc', v, (), s.n)
            self.event(s, fr, n, 'raise', args=(v,))
            out.append((s, 'raise', v))
        return out

    def exc_match(self, st, exc, cls):
        """-> [(st, bool)]"""
        o = st.get(cls) if cls[0] == 'r' else None
        if o is not None and o.kind == 'list':
            cls = ('t', tuple(p[1] for p in o.parts))
        if cls[0] == 't':
            states = [st]
            out = []
            for c in cls[1]:
                nxt = []
                for s in states:
                    for s2, b in self.exc_match(s, exc, c):
                        if b:
                            out.append((s2, True))
                        else:
                            nxt.append(s2)
                states = nxt
            return out + [(s, False) for s in states]
        if exc[0] == 'genexit':
            return [(st, cls in (X('builtins.GeneratorExit'),
                                 X('builtins.BaseException')))]
        if cls == X('builtins.BaseException'):
            return [(st, True)]
        if exc[0] == 'exc':
            r = self.is_subclass(st, exc[1], cls)
            if r is not None:
                return [(st, r)]
        o = st.get(exc) if exc[0] == 'r' else None
        if o is not None and o.kind == 'inst':
            r = self.is_subclass(st, o.cls, cls)
            if r is not None:
                return [(st, r)]
        key = ('excis', exc, cls)
        for k, v in st.facts.items():
            if k[0] == 'excis' and k[1] == exc:
                r = self.is_subclass(st, k[2], cls)
                r2 = self.is_subclass(st, cls, k[2])
                if v and r:
                    return [(st, True)]
                if v and r is False and r2 is False:
                    return [(st, False)]
                if not v and r2:
                    return [(st, False)]
        if key in st.facts:
            return [(st, st.facts[key])]
        s2 = st.fork()
        st.facts[key] = True
        s2.facts[key] = False
        return [(st, True), (s2, False)]

    def st_Try(self, n, st, fr):
        # what the handlers name.
        hv = []
        names = set()
        for h in n.handlers:
            if h.type is None:
                hv.append((h, X('builtins.BaseException')))
                continue
            r = self.ev(h.type, st.fork(), fr)
            if len(r) != 1 or r[0][2] is not None:
                raise Undecided('handler class')
            v = r[0][1]
            if v[0] == 'r' and r[0][0].get(v) is not None and \
                    r[0][0].get(v).kind == 'list':
                v = ('t', tuple(p[1] for p in r[0][0].get(v).parts))
            hv.append((h, v))
            for c in (v[1] if v[0] == 't' else (v,)):
                if c[0] == 'x':
                    pc = pyexc(c[1])
                    if pc is not None and pc not in (Exception,
                                                     BaseException):
                        for nm in ('KeyError', 'IndexError', 'TypeError',
                                   'AttributeError', 'ValueError',
                                   'StopIteration', 'ZeroDivisionError'):
                            if issubclass(getattr(_bi, nm), pc):
                                names.add(nm)
        saved = self.handlers
        self.trydepth += 1
        self.handlers = tuple(saved) + (frozenset(names),)
        try:
            body = self.ex(n.body, st, fr)
        finally:
            self.trydepth -= 1
            self.handlers = saved
        outs = []
        if n.finalbody:
            self.trydepth += 1
        try:
            for s, k, v in body:
                if k == 'n' and n.orelse:
                    outs.extend(self.ex(n.orelse, s, fr))
                    continue
                if k != 'raise':
                    outs.append((s, k, v))
                    continue
                pending = [s]
                for h, cls in hv:
                    nxt = []
                    for s2 in pending:
                        for s3, b in self.exc_match(s2, v, cls):
                            if not b:
                                nxt.append(s3)
                                continue
                            self.event(s3, fr, h, 'except', fn=cls,
                                       args=(v,))
                            s3.pend['exc'] = s3.pend.get('exc', ()) + (v,)
                            if h.name:
                                self.bind_name(s3, h.name, v, fr)
                            for s4, k2, v2 in self.ex(h.body, s3, fr):
                                cur = s4.pend.get('exc', ())
                                if cur:
                                    s4.pend['exc'] = cur[:-1]
                                if h.name and k2 != 'raise':
                                    sc = s4.get(fr.scope)
                                    if h.name in sc.attrs:
                                        s4.mut(fr.scope).attrs.pop(h.name)
                                outs.append((s4, k2, v2))
                    pending = nxt
                outs.extend((s2, 'raise', v) for s2 in pending)
        finally:
            if n.finalbody:
                self.trydepth -= 1
        if not n.finalbody:
            return outs
        res = []
        for s, k, v in outs:
            for s2, k2, v2 in self.ex(n.finalbody, s, fr):
                if k2 == 'n':
                    res.append((s2, k, v))
                else:
                    res.append((s2, k2, v2))
        return res

    st_TryStar = st_Try

    def st_With(self, n, st, fr):
        return self.with_items(n, n.items, st, fr)

    def with_items(self, n, items, st, fr):
        if not items:
            return self.ex(n.body, st, fr)
        item = items[0]
        out = []
        for s, v, exc in self.ev(item.context_expr, st, fr):
            if exc is not None:
                out.append((s, 'raise', exc))
                continue
            out.extend(self.with_value(n, item, items[1:], v, s, fr))
        return out

    def with_value(self, n, item, rest, v, st, fr):
        def inner(s, val):
            if item.optional_vars is not None:
                res = []
                for s2, k, exc in self.assign(item.optional_vars, val, s,
                                              fr):
                    if k == 'raise':
                        res.append((s2, k, exc))
                    else:
                        res.extend(self.with_items(n, rest, s2, fr))
                return res
            return self.with_items(n, rest, s, fr)

        o = st.get(v)
        if o is not None and o.kind == 'cm':
            return self.with_gen(n, o.meta['gen'], inner, st, fr)
        cref = None
        if o is not None and o.kind == 'inst':
            cref = o.cls
        else:
            ty = self.type_of(st, v)
            if ty is not None and ty[0][0] == 'r':
                cref = ty[0]
        ent = None
        if cref is not None:
            ent, own = self.class_lookup(st, cref, '__enter__')
            if ent is not None and ent[0] != 'r':
                ent = None
        if ent is not None:
            out = []
            ext, own = self.class_lookup(st, cref, '__exit__')
            for s, val, exc in self.call(st, ent, [v], {}, n, fr):
                if exc is not None:
                    out.append((s, 'raise', exc))
                    continue
                self.trydepth += 1
                try:
                    res = inner(s, val)
                finally:
                    self.trydepth -= 1
                for s2, k, v2 in res:
                    if k == 'raise':
                        ei = [('call', 'builtins.type', None, (v2,), (), 0),
                              v2, S('traceback')]
                    else:
                        ei = [NONE, NONE, NONE]
                    for s3, r, x in self.call(s2, ext, [v] + ei, {}, n, fr):
                        if x is not None:
                            out.append((s3, 'raise', x))
                            continue
                        if k == 'raise':
                            for s4, b in self.truth(s3, r, n, fr):
                                out.append((s4, 'n', None) if b else
                                           (s4, k, v2))
                        else:
                            out.append((s3, k, v2))
            return out
        # an external context manager.
        closing = v[0] == 'call' and v[1] == 'contextlib.closing'
        suppress = v[0] == 'call' and v[1] == 'contextlib.suppress'
        val = v[3][0] if closing else v
        if o is not None and o.kind == 'exitstack':
            return self.with_exitstack(n, v, inner, st, fr)
        self.event(st, fr, n, 'with', recv=val)
        saved = self.handlers
        self.trydepth += 1
        if suppress:
            names = set()
            for c in v[3]:
                pc = pyexc(c[1]) if c[0] == 'x' else None
                for nm in ('KeyError', 'IndexError', 'AttributeError',
                           'ValueError', 'ZeroDivisionError', 'TypeError'):
                    if pc is not None and issubclass(getattr(_bi, nm), pc) \
                            and pc not in (Exception, BaseException):
                        names.add(nm)
            self.handlers = tuple(saved) + (frozenset(names),)
        try:
            res = inner(st, val)
        finally:
            self.trydepth -= 1
            self.handlers = saved
        out = []
        for s, k, v2 in res:
            if closing:
                for s2, __, x in self.call_method(s, val, 'close', [], {}, n,
                                                  fr):
                    out.append((s2, k, v2) if x is None else
                               (s2, 'raise', x))
                continue
            self.event(s, fr, n, 'endwith', recv=val)
            if suppress and k == 'raise':
                for s2, b in self.exc_match(s, v2, ('t', v[3])):
                    out.append((s2, 'n', None) if b else (s2, k, v2))
                continue
            out.append((s, k, v2))
        return out

    def with_exitstack(self, n, ref, inner, st, fr):
        self.trydepth += 1
        try:
            res = inner(st, ref)
        finally:
            self.trydepth -= 1
        out = []
        for s, k, v in res:
            out.extend(self.unwind(n, ref, s, k, v, fr))
        return out

    def unwind(self, n, ref, s, k, v, fr):
        o = s.mut(ref)
        if not o.parts:
            return [(s, k, v)]
        cb = o.parts.pop()[1]
        f, args, kwp = cb[1]
        out = []
        self.trydepth += 1
        try:
            r = self.call(s, f, list(args[1]), dict(
                (a[2], b) for a, b in (x[1] for x in kwp[1])), n, fr)
        finally:
            self.trydepth -= 1
        for s2, __, x in r:
            if x is not None:
                out.extend(self.unwind(n, ref, s2, 'raise', x, fr))
            else:
                out.extend(self.unwind(n, ref, s2, k, v, fr))
        return out

    def with_gen(self, n, gref, inner, st, fr):
        self.counter += 1
        token = ('genexit', self.counter)

        def handler(s, v, e, f2):
            out = []
            for s2, k, val in inner(s, v):
                if k == 'n':
                    out.append((s2, 'n', NONE))
                elif k == 'raise':
                    out.append((s2, 'raise', val))
                else:
                    s2.pend[token] = (k, val)
                    out.append((s2, 'n', NONE))
            return out
        out = []
        for s, k, val in self.run_gen(st, gref, handler, n, fr):
            if token in s.pend:
                pk, pv = s.pend.pop(token)
                out.append((s, pk, pv) if k != 'raise' else (s, k, val))
            else:
                out.append((s, k, None) if k != 'raise' else (s, k, val))
        return out

    # -- calls out of the repository ----------------------------------------

    def numeric(self, st, v):
        if v[0] == 'call' and v[1] in ('builtins.int', 'builtins.float',
                                       'builtins.len'):
            return True
        ty = self.type_of(st, v)
        return ty is not None and (
            ty[0] in (X('builtins.int'), X('builtins.float'),
                      X('builtins.bool')) or ty[0] == X('signal.Signals'))

    def call_ext(self, st, name, args, kw, node, fr):
        name = canon(name)
        h = self.ext_over.get(name) or EXT.get(name)
        if h is not None:
            r = h(self, st, args, kw, node, fr)
            if r is not None:
                return r
        pc = pyexc(name)
        if pc is not None:
            st.n += 1
            return [(st, ('exc', X(name), tuple(args), st.n), None)]
        pure = name in PURE
        if pure and name.startswith('builtins.') and args and not kw and all(
                is_c(a) for a in args) and name not in (
                'builtins.id', 'builtins.hash', 'builtins.type'):
            try:
                r = getattr(_bi, name[9:])(*[a[2] for a in args])
                if isinstance(r, (int, float, str, bool, bytes)):
                    return [(st, C(r), None)]
            except ZeroDivisionError:
                return [self.raise_(st, 'ZeroDivisionError')]
            except Exception:
                return [self.raise_(st, 'ValueError')]
        if pure and name in ('builtins.int', 'builtins.float') and \
                self.catching(st, 'ValueError') and not (
                    args and self.numeric(st, args[0])):
            s2 = st.fork()
            fact = ('cmp', 'converts', args[0] if args else NONE, C(name))
            outs = []
            if st.facts.get(fact) is not False:
                st.facts[fact] = True
                outs.append((st, ('call', name, None, tuple(args), (), 0),
                             None))
            if s2.facts.get(fact) is not True:
                s2.facts[fact] = False
                outs.append(self.raise_(s2, 'ValueError'))
            return outs
        return self.opaque_call(st, fr, node, name, None, args, kw,
                                pure=pure)


def tail(st, mark):
    """Events added since st.nev was mark."""
    out = []
    t = st.trace
    n = st.nev
    while t is not None and n > mark:
        out.append(t[1])
        t = t[0]
        n -= 1
    return out


def rev_parts(parts):
    out = []
    for p in reversed(parts):
        if p[0] == 'one':
            out.append(p)
        elif p[0] == 'sym':
            if p[1][0] == 'rev':
                out.append(('sym', p[1][1]))
            else:
                out.append(('sym', ('rev', p[1])))
        elif p[0] == 'loop':
            out.append(('rloop',) + p[1:3] + (tuple(
                tuple(rev_parts(s)) for s in p[3]),))
        elif p[0] == 'rloop':
            out.append(('loop',) + p[1:3] + (tuple(
                tuple(rev_parts(s)) for s in p[3]),))
        else:
            out.append(('sym', ('rev', p)))
    return out


def pyexc(name):
    if name.startswith('builtins.'):
        c = getattr(_bi, name[9:], None)
        if isinstance(c, type) and issubclass(c, BaseException):
            return c
    return None


def errno_name(name):
    if name.startswith('errno.'):
        n = name[6:]
        return {'EWOULDBLOCK': 'EAGAIN'}.get(n, n)
    return None


EXT = {}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


@ext('builtins.isinstance')
def x_isinstance(I, st, args, kw, node, fr):
    v, c = args
    o = st.get(c) if c[0] == 'r' else None
    if o is not None and o.kind == 'list':
        c = ('t', tuple(p[1] for p in o.parts))
    r = I.isinst(st, v, c)
    if r is None:
        r = st.facts.get(('isinst', v, c))
    return [(st, C(r) if r is not None else ('isinst', v, c), None)]


@ext('builtins.issubclass')
def x_issubclass(I, st, args, kw, node, fr):
    r = None
    if args[0][0] in ('r', 'x') and args[1][0] in ('r', 'x'):
        r = I.is_subclass(st, args[0], args[1])
    if r is not None:
        return [(st, C(r), None)]
    return [(st, ('call', 'builtins.issubclass', None, tuple(args), (), 0),
             None)]


@ext('builtins.getattr')
def x_getattr(I, st, args, kw, node, fr):
    if not is_c(args[1]):
        if len(args) > 2:
            return [(st, ('a', args[0], args[1]), None),
                    (st.fork(), args[2], None)]
        return I.attr_missing(st, args[0], args[1], node, fr, opaque=True)
    if len(args) == 2:
        return I.ga(st, args[0], args[1][2], node, fr)
    saved = I.handlers
    I.handlers = tuple(saved) + (frozenset(['AttributeError']),)
    try:
        outs = I.ga(st, args[0], args[1][2], node, fr)
    finally:
        I.handlers = saved
    res = []
    for s, v, exc in outs:
        if exc is not None and exc[0] == 'exc' and \
                exc[1] == X('builtins.AttributeError'):
            res.append((s, args[2], None))
        else:
            res.append((s, v, exc))
    return res


@ext('builtins.hasattr')
def x_hasattr(I, st, args, kw, node, fr):
    if not is_c(args[1]):
        return [(st, ('cmp', 'hasattr', args[0], args[1]), None)]
    key = ('cmp', 'hasattr', args[0], args[1])
    if key in st.facts:
        return [(st, C(st.facts[key]), None)]
    saved, sl = I.handlers, I.load_events
    I.handlers = tuple(saved) + (frozenset(['AttributeError']),)
    I.load_events = False
    try:
        outs = I.ga(st, args[0], args[1][2], node, fr)
    finally:
        I.handlers = saved
        I.load_events = sl
    res = []
    for s, v, exc in outs:
        res.append((s, C(exc is None), None))
    return res


@ext('builtins.setattr')
def x_setattr(I, st, args, kw, node, fr):
    if not is_c(args[1]):
        I.event(st, fr, node, 'store', fn=args[1], recv=args[0],
                args=(args[2],))
        return [(st, NONE, None)]
    return I.sa(st, args[0], args[1][2], args[2], node, fr)


@ext('builtins.vars')
def x_vars(I, st, args, kw, node, fr):
    if len(args) == 1 and args[0][0] == 'r':
        return I.ga(st, args[0], '__dict__', node, fr)
    return None


@ext('builtins.delattr')
def x_delattr(I, st, args, kw, node, fr):
    I.event(st, fr, node, 'delattr', fn=args[1][2], recv=args[0])
    st.mut(args[0]).attrs[args[1][2]] = ('deleted',)
    return [(st, NONE, None)]


@ext('builtins.type')
def x_type(I, st, args, kw, node, fr):
    if len(args) == 1:
        v = args[0]
        if is_c(v):
            return [(st, X('builtins.' + v[1]), None)]
        o = st.get(v)
        if o is not None and v[0] == 'r':
            if o.kind == 'inst':
                return [(st, o.cls, None)]
            if o.kind == 'class':
                return [(st, o.meta.get('meta') or X('builtins.type'),
                         None)]
            if o.kind in ('list', 'dict', 'set'):
                return [(st, X('builtins.' + o.kind), None)]
        if v[0] == 't':
            return [(st, X('builtins.tuple'), None)]
        if v[0] == 'x' and v[1].startswith('errno.'):
            return [(st, X('builtins.int'), None)]
        ty = I.type_of(st, v)
        if ty is not None and ty[1]:
            return [(st, ty[0], None)]
        return [(st, ('call', 'builtins.type', None, (v,), (), 0), None)]
    if len(args) == 3:
        o = st.get(args[2])
        ns = dict((k[2], v) for k, v in o.known.items())
        ref = I.make_class(st, args[0][2], args[1][1], ns, fr,
                           fr.qual + '.' + args[0][2])
        return [(st, ref, None)]


@ext('builtins.super')
def x_super(I, st, args, kw, node, fr):
    if not args:
        f = fr
        owner, selfv = fr.owner, fr.selfv
        if owner is None:
            raise Undecided('super() without a class')
    else:
        owner, selfv = args[0], args[1]
        w = st.get(owner)
        if w is not None and w.kind == 'inst' and not w.meta.get('open'):
            # super(self, Class)
            return [I.raise_(st, 'TypeError')]
    o = st.get(selfv)
    cref = None
    if o is not None and o.kind == 'inst':
        cref = o.cls
    elif o is not None and o.kind == 'class':
        cref = selfv
        # super() of a class: of the class itself or of its metaclass.
        if owner not in I.mro(st, selfv):
            cref = o.meta.get('meta') or owner
    else:
        ty = I.type_of(st, selfv)
        cref = ty[0] if ty is not None else owner
    return [(st, ('super', owner, selfv, cref), None)]


@ext('builtins.object.__new__')
def x_object_new(I, st, args, kw, node, fr):
    if args[0][0] == 'r':
        return [(st, I.alloc_inst(st, args[0]), None)]


@ext('builtins.object.__init__')
def x_object_init(I, st, args, kw, node, fr):
    return [(st, NONE, None)]


@ext('builtins.locals')
def x_locals(I, st, args, kw, node, fr):
    return [(st, ('locals', fr.scope), None)]


@ext('builtins.globals')
def x_globals(I, st, args, kw, node, fr):
    return [(st, ('locals', I.modrefs[fr.module]), None)]


@ext('textwrap.indent', 'textwrap.dedent')
def x_textwrap(I, st, args, kw, node, fr):
    import textwrap
    ref = kw.get('prefix')
    args = list(args) + ([ref] if ref is not None else [])
    if not all(is_c(a) and isinstance(a[2], str) for a in args) or \
            set(kw) - {'prefix'}:
        return None
    f = textwrap.indent if len(args) == 2 else textwrap.dedent
    if len(args) not in (1, 2):
        return None
    return [(st, C(f(*[a[2] for a in args])), None)]


@ext('importlib.import_module')
def x_import_module(I, st, args, kw, node, fr):
    name = args[0] if args else kw.get('name')
    pkg = args[1] if len(args) > 1 else kw.get('package', NONE)
    if name is None or not (is_c(name) and isinstance(name[2], str)):
        return None
    name = name[2]
    if name.startswith('.'):
        if not (is_c(pkg) and isinstance(pkg[2], str)):
            return None
        base = pkg[2]
        name = name[1:]
        while name.startswith('.'):
            base = base.rpartition('.')[0]
            name = name[1:]
        name = base + '.' + name if name else base
    name = canon(name)
    if name in I.modules:
        return [(st, I.import_module(st, name), None)]
    return None


@ext('builtins.__import__')
def x_import(I, st, args, kw, node, fr):
    if is_c(args[0]):
        return [(st, X(args[0][2]), None)]


@ext('builtins.property')
def x_property(I, st, args, kw, node, fr):
    m = {'fget': args[0] if args else kw.get('fget'),
         'fset': args[1] if len(args) > 1 else kw.get('fset')}
    return [(st, I.new(st, HObj('property', meta=m)), None)]


@ext('builtins.staticmethod')
def x_static(I, st, args, kw, node, fr):
    return [(st, I.new(st, HObj('staticmethod', meta={'f': args[0]})), None)]


@ext('builtins.classmethod')
def x_classm(I, st, args, kw, node, fr):
    return [(st, I.new(st, HObj('classmethod', meta={'f': args[0]})), None)]


@ext('contextlib.contextmanager')
def x_cm(I, st, args, kw, node, fr):
    return [(st, I.new(st, HObj('cmfunc', meta={'f': args[0]})), None)]


@ext('contextlib.ExitStack')
def x_exitstack(I, st, args, kw, node, fr):
    return [(st, I.new(st, HObj('exitstack', parts=[])), None)]


def _exit_cb(self, st, recv, o, args, kw, node, fr):
    if o is None or o.kind != 'exitstack':
        return None
    st.mut(recv).parts.append(('one', ('t', (
        args[0], ('t', tuple(args[1:])), ('t', tuple(
            T(C(k), v) for k, v in kw.items()))))))
    return [(st, args[0], None)]


@ext('functools.wraps')
def x_wraps(I, st, args, kw, node, fr):
    src = args[0]

    def deco(I, st, a, k, node, fr):
        if a[0][0] == 'r' and st.get(a[0]).kind == 'func':
            o = st.get(src) if src[0] == 'r' else None
            w = st.mut(a[0])
            if o is not None and o.kind == 'func':
                # the very same objects.
                w.attrs.update((k, v) for k, v in o.attrs.items()
                               if v != ('deleted',))
                w.attrs.setdefault('__name__', C(o.meta['name']))
            w.attrs['__wrapped__'] = src
        return [(st, a[0], None)]
    return [(st, ('decorator', deco), None)]


@ext('functools.update_wrapper')
def x_update_wrapper(I, st, args, kw, node, fr):
    return [(st, args[0], None)]


@ext('asyncio.coroutine', 'types.coroutine', 'asyncio.coroutines.coroutine')
def x_coroutine(I, st, args, kw, node, fr):
    if len(args) != 1:
        return None
    return [(st, args[0], None)]


@ext('valuedispatch.valuedispatch')
def x_valuedispatch(I, st, args, kw, node, fr):
    """A function which dispatches the value of its first argument."""
    table = I.new(st, HObj('dict', known={}))
    default = args[0]

    def put(I, st, k, f, node, fr):
        return [(s, f, x if kind == 'raise' else None) for s, kind, x in
                I.setitem(st, table, k, f, node, fr)]

    def register(I, st, a, k, node, fr):
        a = list(a) + [k[n] for n in ('value', 'func')[len(a):] if n in k]
        if len(a) > 1 and a[1] != NONE:
            return put(I, st, a[0], a[1], node, fr)
        return [(st, ('decorator', lambda I, st, b, k, node, fr: put(
            I, st, a[0], b[0], node, fr)), None)]

    def dispatch(I, st, a, k, node, fr):
        return I.call_method(st, table, 'get', [a[0], default], {}, node, fr)

    def run(I, st, a, k, node, fr):
        if not a:
            return [I.raise_(st, 'IndexError')]
        out = []
        for s, f, exc in dispatch(I, st, a, {}, node, fr):
            if exc is not None:
                out.append((s, None, exc))
            else:
                out.extend(I.call(s, f, list(a), k, node, fr))
        return out
    return [(st, I.new(st, HObj('partial', attrs={
        'register': ('decorator', register),
        'dispatch': ('decorator', dispatch), 'registry': table,
        '__wrapped__': default},
        meta={'f': ('decorator', run), 'args': (), 'kw': {}})), None)]


@ext('functools.partial')
def x_partial(I, st, args, kw, node, fr):
    return [(st, I.new(st, HObj('partial', meta={
        'f': args[0], 'args': tuple(args[1:]), 'kw': dict(kw)})), None)]


@ext('functools.reduce')
def x_reduce(I, st, args, kw, node, fr):
    if len(args) < 3:
        return None
    box = I.new(st, HObj('scope', attrs={'acc': args[2]},
                         meta={'parent': None, 'locals': None}))

    def body(s, item):
        out = []
        for s2, v, exc in I.call(s, args[0], [s.get(box).attrs['acc'], item],
                                 {}, node, fr):
            if exc is not None:
                out.append((s2, 'raise', exc))
                continue
            s2.mut(box).attrs['acc'] = v
            out.append((s2, 'n', None))
        return out
    res = []
    for s, k, v in I.iterate(st, args[1], body, node, fr):
        if k == 'raise':
            res.append((s, None, v))
        else:
            res.append((s, s.get(box).attrs['acc'], None))
    return res


@ext('operator.attrgetter')
def x_attrgetter(I, st, args, kw, node, fr):
    if not all(is_c(a) and isinstance(a[2], str) for a in args):
        return I.opaque_call(st, fr, node, 'operator.attrgetter', None, args,
                             kw)
    names = [a[2] for a in args]

    def get(I, st, a, k, node, fr):
        outs = [(st, [], None)]
        for nm in names:
            nxt = []
            for s, vals, exc in outs:
                if exc is not None:
                    nxt.append((s, vals, exc))
                    continue
                found = [(s, a[0], None)]
                for part in nm.split('.'):
                    found = [y for s2, v, x in found for y in (
                        I.ga(s2, v, part, node, fr) if x is None else
                        [(s2, v, x)])]
                nxt += [(s2, vals + [v], x) for s2, v, x in found]
            outs = nxt
        return [(s, None if exc is not None else (
            vals[0] if len(vals) == 1 else ('t', tuple(vals))), exc)
            for s, vals, exc in outs]
    return [(st, ('decorator', get), None)]


@ext('operator.itemgetter')
def x_itemgetter(I, st, args, kw, node, fr):
    def get(I, st, a, k, node, fr):
        return I.getitem(st, a[0], args[0], node, fr)
    return [(st, ('decorator', get), None)]


@ext('six.with_metaclass')
def x_withmeta(I, st, args, kw, node, fr):
    return [(st, ('withmeta', args[0], tuple(args[1:])), None)]


@ext('builtins.type.__new__')
def x_type_new(I, st, args, kw, node, fr):
    pend = I._pending_class
    if pend is None or len(args) != 4:
        raise Undecided('type.__new__')
    I._pending_class = None
    ref, qual, meta, cfr = pend
    o = st.get(args[3])
    ns = {}
    for k, v in o.known.items():
        if v is not ABSENT:
            ns[k[2]] = v
    I.make_class(st, args[1][2], args[2][1], ns, cfr, qual, ref, args[0])
    return [(st, ref, None)]


Interp._pending_class = None


@ext('six.iteritems')
def x_iteritems(I, st, args, kw, node, fr):
    return I.call_method(st, args[0], 'items', [], {}, node, fr)


@ext('six.itervalues')
def x_itervalues(I, st, args, kw, node, fr):
    return I.call_method(st, args[0], 'values', [], {}, node, fr)


@ext('six.iterkeys')
def x_iterkeys(I, st, args, kw, node, fr):
    return I.call_method(st, args[0], 'keys', [], {}, node, fr)


@ext('collections.deque')
def x_deque(I, st, args, kw, node, fr):
    args = list(args)
    limit = kw.get('maxlen', args[1] if len(args) > 1 else NONE)
    outs = x_list(I, st, args[:1], {}, node, fr)
    if limit != NONE:
        if not is_c(limit):
            raise Undecided('length of a deque')
        for s, v, exc in outs:
            if exc is None:
                o = s.mut(v)
                o.meta = dict(o.meta, maxlen=limit[2])
                I.trim(o, True)
    return outs


@ext('builtins.list')
def x_list(I, st, args, kw, node, fr):
    if not args:
        return [(st, I.new(st, HObj('list', parts=[])), None)]
    out = []
    for s, ps, exc in I.parts_of(st, args[0], node, fr):
        if exc is not None:
            out.append((s, None, exc))
        else:
            out.append((s, I.new(s, HObj('list', parts=ps)), None))
    return out


@ext('builtins.tuple')
def x_tuple(I, st, args, kw, node, fr):
    if not args:
        return [(st, ('t', ()), None)]
    out = []
    for s, ps, exc in I.parts_of(st, args[0], node, fr):
        if exc is not None:
            out.append((s, None, exc))
        elif all(p[0] == 'one' for p in ps):
            out.append((s, ('t', tuple(p[1] for p in ps)), None))
        else:
            out.append((s, I.new(s, HObj('list', parts=ps,
                                         meta={'tuple': True})), None))
    return out


@ext('builtins.set', 'builtins.frozenset')
def x_set(I, st, args, kw, node, fr):
    if not args:
        return [(st, I.new(st, HObj('set', known={})), None)]
    out = []
    for s, ps, exc in I.parts_of(st, args[0], node, fr):
        if exc is not None:
            out.append((s, None, exc))
            continue
        known = dict((p[1], TRUE) for p in ps if p[0] == 'one')
        rest = [p for p in ps if p[0] != 'one']
        base = None
        if len(rest) == 1 and rest[0][0] == 'sym':
            base = rest[0][1]
        elif rest:
            base = ('parts',) + tuple(rest)
        out.append((s, I.new(s, HObj('set', known=known, base=base)), None))
    return out


@ext('builtins.dict', 'collections.OrderedDict')
def x_dict(I, st, args, kw, node, fr):
    ref = I.new(st, HObj('dict', known={}))
    if args:
        o = st.get(args[0])
        if o is not None and o.kind == 'dict':
            d = st.mut(ref)
            d.known = dict(o.known)
            d.base = o.base
        else:
            outs = []
            for s, ps, exc in I.parts_of(st, args[0], node, fr):
                if exc is not None:
                    outs.append((s, None, exc))
                    continue
                d = s.mut(ref)
                for p in ps:
                    if p[0] == 'one' and p[1][0] == 't' and \
                            len(p[1][1]) == 2:
                        d.known[p[1][1][0]] = p[1][1][1]
                    else:
                        d.base = p[1]
                d.known.update((C(k), v) for k, v in kw.items())
                outs.append((s, ref, None))
            return outs
    st.mut(ref).known.update((C(k), v) for k, v in kw.items() if k != '**')
    if '**' in kw:
        st.mut(ref).base = kw['**']
    return [(st, ref, None)]


def next_loop(n):
    """while True: try: x = next(g) / except StopIteration: break; ... as
    for x in g: ...  (None: it is something else.)"""
    if hasattr(n, '_next_loop'):
        return n._next_loop
    n._next_loop = None
    if not (isinstance(n.test, ast.Constant) and n.test.value and n.body and
            isinstance(n.body[0], ast.Try)):
        return None
    t = n.body[0]
    if len(t.body) != 1 or len(t.handlers) != 1 or t.finalbody:
        return None
    h = t.handlers[0]
    if not (isinstance(h.type, ast.Name) and h.type.id == 'StopIteration' and
            h.name is None and len(h.body) == 1 and
            isinstance(h.body[0], (ast.Break, ast.Return)) and
            getattr(h.body[0], 'value', None) is None):
        return None
    b = t.body[0]
    if isinstance(b, ast.Expr):
        target = ast.Name('__', ast.Store())
    elif isinstance(b, ast.Assign) and len(b.targets) == 1:
        target = b.targets[0]
    else:
        return None
    c = b.value
    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and \
            c.func.attr in ('next', '__next__') and not c.args and \
            isinstance(c.func.value, ast.Name):
        it = c.func.value
    elif isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and \
            c.func.id == 'next' and len(c.args) == 1 and \
            not c.keywords and isinstance(c.args[0], ast.Name):
        it = c.args[0]
    else:
        return None
    rest = list(t.orelse) + n.body[1:]
    for x in ast.walk(ast.Module(body=rest, type_ignores=[])):
        if isinstance(x, ast.Name) and x.id == it.id:
            return None
    orelse = []
    if isinstance(h.body[0], ast.Return):
        orelse = [h.body[0]]
    loop = ast.For(target=target, iter=it, body=rest or [ast.Pass()],
                   orelse=orelse)
    for x in ast.walk(loop):
        if not hasattr(x, 'lineno'):
            ast.copy_location(x, b)
    ast.copy_location(loop, n)
    n._next_loop = loop
    return loop


@ext('builtins.iter')
def x_iter(I, st, args, kw, node, fr):
    if len(args) == 1:
        o = st.get(args[0])
        ps = None
        if o is not None and o.kind == 'list' and o.parts is not None and \
                not o.meta.get('iterator'):
            ps = list(o.parts)
        elif args[0][0] == 't':
            ps = [('one', x) for x in args[0][1]]
        elif is_c(args[0]) and isinstance(args[0][2], (str, bytes)):
            ps = [('one', C(x)) for x in args[0][2]]
        if ps is not None and all(p[0] == 'one' for p in ps):
            return [(st, I.new(st, HObj('list', parts=ps,
                                        meta={'iterator': True})), None)]
        return [(st, args[0], None)]


def first_of(I, st, args, node, fr):
    """next() of a generator that has not been started: where it stops at
    its first yield.  It is not resumed."""
    out = []

    def handler(s, v, e, f):
        out.append((s, v, None))
        return []
    for s, k, v in I.run_gen(st, args[0], handler, node, fr):
        if k == 'raise':
            out.append((s, None, v))
        elif len(args) > 1:
            out.append((s, args[1], None))
        else:
            out.append(I.raise_(s, 'StopIteration'))
    return out


@ext('builtins.object')
def x_object(I, st, args, kw, node, fr):
    if args or kw:
        return [I.raise_(st, 'TypeError')]
    return [(st, I.new(st, HObj('object')), None)]


@ext('builtins.next')
def x_next(I, st, args, kw, node, fr):
    o = st.get(args[0])
    if len(args) > 1 and not kw and not (
            o is not None and (o.kind == 'list' or o.kind == 'gen' and
                               not o.meta.get('opaque') and
                               I.next_hook is None)):
        # the default instead of StopIteration.
        out = []
        for s, v, exc in x_next(I, st, args[:1], kw, node, fr):
            if exc is None:
                out.append((s, v, None))
                continue
            for s2, stop in I.exc_match(s, exc,
                                        X('builtins.StopIteration')):
                out.append((s2, args[1], None) if stop else (s2, None, exc))
        return out
    if o is not None and o.kind == 'list' and o.parts and \
            o.parts[0][0] == 'one':
        ob = st.mut(args[0])
        v = ob.parts.pop(0)[1]
        return [(st, v, None)]
    if is_c(args[0]) or args[0][0] == 't':
        return [I.raise_(st, 'TypeError')]
    if o is not None and o.kind == 'gen' and len(args) == 1 and \
            I.next_hook is not None:
        return I.next_hook(st, args[0], node, fr)
    if o is not None and o.kind == 'gen' and not o.meta.get('opaque'):
        return first_of(I, st, args, node, fr)
    if o is not None and o.kind == 'list' and not o.parts:
        if len(args) > 1:
            return [(st, args[1], None)]
        return [I.raise_(st, 'StopIteration')]
    return I.opaque_call(st, fr, node, 'builtins.next', None, args, kw)


Interp.next_hook = None
Interp.summaries = False


@ext('builtins.enumerate', 'builtins.zip', 'builtins.map', 'builtins.filter',
     'builtins.reversed', 'itertools.chain', 'builtins.range',
     'itertools.count', 'itertools.islice', 'itertools.repeat')
def x_view(I, st, args, kw, node, fr):
    # told apart by the name in the caller.
    return None


for _n in ('enumerate', 'zip', 'map', 'filter', 'reversed', 'range'):
    def _mk(name):
        def f(I, st, args, kw, node, fr):
            return [(st, ('call', name, None, tuple(args),
                          tuple(sorted(kw.items())), 0), None)]
        return f
    EXT['builtins.' + _n] = _mk('builtins.' + _n)
for _n in ('chain', 'count', 'islice', 'repeat'):
    EXT['itertools.' + _n] = _mk('itertools.' + _n)


@ext('itertools.chain.from_iterable')
def x_chainfrom(I, st, args, kw, node, fr):
    return [(st, ('chainfrom', args[0]), None)]


@ext('builtins.sum')
def x_sum(I, st, args, kw, node, fr):
    out = []
    for s, ps, exc in I.parts_of(st, args[0], node, fr):
        if exc is not None:
            out.append((s, None, exc))
            continue
        start = args[1] if len(args) > 1 else C(0)
        if all(p[0] == 'one' for p in ps):
            v = start
            for p in ps:
                if v == C(0):
                    v = p[1]
                elif is_c(v) and is_c(p[1]):
                    v = C(v[2] + p[1][2])
                else:
                    v = ('op', '+', v, p[1])
            out.append((s, v, None))
        else:
            out.append((s, ('sum', start, tuple(ps)), None))
    return out


@ext('builtins.sorted')
def x_sorted(I, st, args, kw, node, fr):
    out = []
    for s, ps, exc in I.parts_of(st, args[0], node, fr):
        if exc is not None:
            out.append((s, None, exc))
            continue
        I.event(s, fr, node, 'sorted', args=tuple(args),
                kw=tuple(sorted(kw.items())))
        r = I.concrete_sort(s, ps, kw, node, fr)
        if r is not None:
            out.append((r[0], I.new(r[0], HObj('list', parts=r[1])), None))
            continue
        src = args[0]
        out.append((s, ('call', 'builtins.sorted', None, (src,),
                        tuple(sorted(kw.items())), 0), None))
    return out


@ext('builtins.hash')
def x_hash(I, st, args, kw, node, fr):
    v = args[0] if args else NONE
    o = st.get(v)
    if o is not None and o.kind == 'inst' and o.meta.get('closed'):
        return I.dunder(st, v, '__hash__', [], node, fr)
    if I.concrete_ok:
        p = I.plain(st, v)
        if p is not None:
            # any number will do which tells values apart.
            return [(st, C(_crc(repr(p[0]).encode('utf-8', 'replace')))
                     if not isinstance(p[0], (int, bool)) else
                     C(int(p[0])), None)]


@ext('builtins.any', 'builtins.all')
def x_anyall(I, st, args, kw, node, fr):
    return None


@ext('builtins.max', 'builtins.min')
def x_maxmin(I, st, args, kw, node, fr):
    return None


@ext('struct.calcsize')
def x_calcsize(I, st, args, kw, node, fr):
    if len(args) == 1 and is_c(args[0]) and isinstance(args[0][2], str):
        try:
            return [(st, C(_struct.calcsize(args[0][2])), None)]
        except _struct.error:
            return [I.raise_(st, 'ValueError')]


@ext('builtins.len')
def x_len(I, st, args, kw, node, fr):
    v = args[0]
    o = st.get(v)
    if v[0] == 't':
        return [(st, C(len(v[1])), None)]
    if is_c(v):
        if not hasattr(v[2], '__len__'):
            return [I.raise_(st, 'TypeError')]
        return [(st, C(len(v[2])), None)]
    if o is not None and o.kind == 'list' and all(p[0] == 'one'
                                                  for p in o.parts):
        return [(st, C(len(o.parts)), None)]
    if o is not None and o.kind in ('dict', 'set') and o.base is None and \
            not o.meta.get('loops') and I.all_distinct(st, [
                k for k, x in o.known.items() if x is not ABSENT]):
        return [(st, C(len([1 for x in o.known.values()
                            if x is not ABSENT])), None)]
    ver = o.ver if o is not None else 0
    if o is not None and o.kind == 'inst' and o.meta.get('closed'):
        r = I.dunder(st, v, '__len__', [], node, fr)
        if r is not None:
            return r
    term = ('call', 'builtins.len', None, (v,), (), 0)
    if ver:
        term = ('call', 'builtins.len', None, (v, C(ver)), (), 0)
    return [(st, term, None)]


@ext('builtins.bool')
def x_bool(I, st, args, kw, node, fr):
    if not args:
        return [(st, FALSE, None)]
    o = st.get(args[0]) if args[0][0] == 'r' else None
    if o is not None and o.kind == 'inst' and o.meta.get('closed'):
        for n in ('__bool__', '__nonzero__', '__len__'):
            f, own = I.class_lookup(st, o.cls, n)
            if f is not None and f[0] == 'r':
                out = []
                for s, v, exc in I.call(st, f, [args[0]], {}, node, fr):
                    if exc is not None:
                        out.append((s, None, exc))
                    else:
                        out.extend(x_bool(I, s, [v], {}, node, fr))
                return out
    r, atom = I.truth_atom(st, args[0])
    return [(st, C(r) if r is not None else atom, None)]


@ext('builtins.callable')
def x_callable(I, st, args, kw, node, fr):
    v = args[0]
    o = st.get(v)
    if v[0] in ('bm', 'x', 'decorator'):
        return [(st, TRUE, None)]
    if o is not None and o.kind in ('func', 'class', 'partial'):
        return [(st, TRUE, None)]
    if o is not None and o.kind == 'inst':
        f, own = I.class_lookup(st, o.cls, '__call__')
        return [(st, C(f is not None), None)]


@ext('weakref.proxy', 'weakref.ref')
def x_proxy(I, st, args, kw, node, fr):
    # a proxy behaves like the object.
    return None


@ext('os.kill')
def x_kill(I, st, args, kw, node, fr):
    return None


# click decorators: they declare parameters and leave the function alone.

def click_param(kind):
    def model(I, st, args, kw, node, fr):
        decl = {'kind': kind, 'args': tuple(args), 'kw': dict(kw),
                'loc': I.loc(node, fr) if node is not None else None}

        def deco(I, st, a, k, node, fr):
            f = a[0]
            o = st.get(f)
            if o is not None and o.kind in ('func', 'clickcmd'):
                ob = st.mut(f)
                prev = ob.attrs.get('__click__', ())
                # what a wrapped function declared is inherited.
                ob.attrs['__click__'] = prev + (Decl(decl),)
            return [(st, f, None)]
        return [(st, ('decorator', deco), None)]
    return model


class Decl(object):
    """A click parameter declaration; usable inside terms."""

    def __init__(self, d):
        self.d = d


EXT['click.option'] = click_param('option')
EXT['click.argument'] = click_param('argument')
EXT['click.version_option'] = click_param('version')
EXT['click.password_option'] = click_param('option')


def _click_command(kind):
    def model(I, st, args, kw, node, fr):
        def deco(I, st, a, k, node, fr):
            o = HObj('clickcmd', attrs={'callback': a[0]}, meta={
                'args': tuple(args), 'kw': dict(kw), 'kind': kind})
            name = args[0] if args else kw.get('name')
            fo = st.get(a[0])
            if name is None and fo is not None:
                name = C(fo.meta.get('name', '?').replace('_', '-'))
            o.attrs['name'] = name or NONE
            ref = I.new(st, o)
            return [(st, ref, None)]
        return [(st, ('decorator', deco), None)]
    return model


EXT['click.command'] = _click_command('command')
EXT['click.group'] = _click_command('group')


def _m_command(self, st, recv, o, args, kw, node, fr):
    return None


Interp.m_callback = _exit_cb
