"""The command line: C33, C34, C35, C36, C37."""
import ast
import itertools

from ..core import *  # noqa
from ..core import Undecided
from ..value import NUMBERS, TEXTS, Unknown, WHOLE, differs, feasible, value
from .net import exc_show, func_site

STUBS = ('click', 'click_default_group', 'configparser')

#: The commands which run a program: name, alias.
RUNNING = (('profile', None), ('live-profile', 'live'),
           ('remote-profile', 'remote'))

EXECS = ('six.exec_', 'builtins.exec')


class Cli(object):
    """The command line interface on models of click and configparser.  The
    program which is profiled is scripted."""

    OPAQUE = {'Profiler.start', 'Runnable.start', 'Runnable.stop',
              'viewer.bind_vim_keys', 'viewer.bind_game_keys',
              'BackgroundProfiler.prepare', 'StatisticsViewer',
              'ProfilingClient', 'FailoverProfilingClient',
              'RecordingStatistics.discard_child',
              'RecordingStatistics.remove_child'}

    def __init__(self, cx, opaque=()):
        self.cx = cx
        self.I = I = interp(stubs=STUBS)
        I.concrete_ok = True
        I.opaque = self.OPAQUE | set(opaque)
        ref = I.modrefs.get('profiling.__main__')
        if ref is None:
            raise Anchor('profiling.__main__')
        self.mod = I.world.get(ref)
        if 'cli' not in self.mod.attrs:
            raise Anchor('profiling.__main__.cli')
        self.cli = self.mod.attrs['cli']
        self.loc = (I.modules['profiling.__main__'].path, 1)
        #: how the executions of code end: a list per execution, the last
        #: one for all further ones; None: normally.
        self.endings = [[None]]
        #: how other calls end: fn -> exceptions (None: returns).
        self.faults = {}
        #: what was imported by runpy: 3 or 4 fields.
        self.details = 3
        #: modules which are packages.
        self.packages = ()
        I.policy = self.policy
        for name in EXECS:
            I.ext_over[name] = self.execute
        I.ext_over['sys._getframe'] = self.getframe
        I.ext_over['runpy._get_module_details'] = self.module_details
        I.ext_over['os.fork'] = self.fork
        I.ext_over['socket.socketpair'] = self.socketpair
        I.ext_over['os.pipe'] = self.pipe
        I.ext_over['os.stat'] = self.stat
        I.ext_over['stat.S_ISSOCK'] = self.is_kind('sock')
        I.ext_over['stat.S_ISREG'] = self.is_kind('dump')
        I.ext_over['os.path.basename'] = self.basename
        I.ext_over['os.path.isfile'] = self.path_is('dump')
        I.ext_over['os.path.exists'] = self.path_is('dump', 'sock')
        #: what paths are: path -> 'sock', 'dump' or nothing.
        self.paths = {}

    def basename(self, I, st, args, kw, node, fr):
        if args and (args[0][0] == 't' or is_c(args[0]) and
                     not isinstance(args[0][2], (str, bytes))):
            return [I.raise_(st, 'TypeError')]

    def policy(self, ev, st, fr):
        return [e(st) if callable(e) else e for e in
                self.faults.get(ev.fn, ()) if e is not None]

    def start_state(self):
        I = self.I
        I.steps = 0
        st = I.start_state()
        argv = I.new(st, HObj('list', parts=[('one', S('argv[0]')),
                                             ('sym', S('argv[1:]'))]))
        self.main_globals = I.new(st, HObj(
            'dict', known={C('__name__'): C('__main__'),
                           C('__file__'): S('profiling/__main__.py')},
            base=S('globals of the command line')))
        main = I.new(st, HObj('open', attrs={'__dict__': self.main_globals}))
        mods = I.new(st, HObj('dict', known={C('__main__'): main},
                              base=S('sys.modules')))
        I.xworld = I.new(st, HObj('open', attrs={
            'sys.argv': argv, 'sys.modules': mods}))
        return st

    # -- models

    def execute(self, I, st, args, kw, node, fr):
        """The profiled program runs."""
        code = args[0] if args else kw.get('code', NONE)
        globals_ = args[1] if len(args) > 1 else NONE
        co = st.get(code)
        if co is not None and co.kind in ('dict', 'list', 'set') or \
                code == NONE:
            return [I.raise_(st, 'TypeError', C('exec() arg 1 must be a '
                                                'string, bytes or code'))]
        xo = st.get(I.xworld)
        o = st.get(xo.attrs['sys.argv'])
        argv = None
        if o is not None and o.parts is not None:
            argv = list(o.parts)
        elif xo.attrs['sys.argv'][0] == 't':
            argv = [('one', v) for v in xo.attrs['sys.argv'][1]]
        g = st.get(globals_)
        n = len([e for e in st.events() if e.k == 'exec'])
        ends = self.endings[min(n, len(self.endings) - 1)]
        out = []
        for end in ends:
            s = st.fork() if len(ends) > 1 else st
            exc = None
            if end is not None:
                s.n += 1
                exc = ('exc', X('builtins.' + end), (), s.n)
            I.event(s, fr, node, 'exec', fn='exec', args=(code, globals_),
                    x={'argv': argv, 'globals': dict(g.known or {})
                       if g is not None else None,
                       'base': g.base if g is not None else None,
                       'stack': list(I.stack), 'own': globals_ ==
                       self.main_globals}, exc=exc)
            out.append((s, NONE, None) if exc is None else (s, None, exc))
        return out

    def getframe(self, I, st, args, kw, node, fr):
        n = args[0] if args else C(0)
        if n != C(0):
            if not is_c(n) or n[2] >= len(I.stack):
                raise Undecided('sys._getframe(%s)' % show(n))
            return [(st, ('frame', I.stack[-1 - n[2]]), None)]
        return [(st, ('frame', fr.qual), None)]

    def module_details(self, I, st, args, kw, node, fr):
        name = args[0]
        if name in self.packages:
            # what is run is the module __main__ of it.
            name = C(name[2] + '.__main__')
        spec = I.new(st, HObj('open', attrs={
            'origin': S('file of the module'), 'loader': S('loader'),
            'name': name}))
        code = S('code of the module')
        out = []
        if 'runpy' in self.faults:
            s = st.fork()
            s.n += 1
            out.append((s, None, ('exc', X('builtins.ImportError'),
                                  (C('no such module'),), s.n)))
        if self.details == 3:
            v = T(name, spec, code)
        else:
            v = T(name, S('loader'), code, S('file of the module'))
        return [(st, v, None)] + out

    def fork(self, I, st, args, kw, node, fr):
        out = []
        for v in (S('pid'), C(0)):
            s = st.fork()
            I.event(s, fr, node, 'call', fn='os.fork', res=v)
            if v != C(0):
                I.assume(s, ('truth', v, 0), True)
                I.assume(s, I.mkcmp('==', v, C(0)), False)
                I.assume(s, I.mkcmp('is', v, C(0)), False)
                I.assume(s, I.mkcmp('<', v, C(0)), False)
                I.assume(s, I.mkcmp('>', v, C(0)), True)
                for u in (v, S('none')):
                    I.assume(s, I.mkcmp('is', u, NONE), False)
            out.append((s, v, None))
        return out

    def socketpair(self, I, st, args, kw, node, fr):
        I.event(st, fr, node, 'call', fn='socket.socketpair')
        return [(st, T(S('socket 1'), S('socket 2')), None)]

    def pipe(self, I, st, args, kw, node, fr):
        I.event(st, fr, node, 'call', fn='os.pipe')
        return [(st, T(S('read end'), S('write end')), None)]

    def kind_of(self, v):
        return self.paths.get(v)

    def stat(self, I, st, args, kw, node, fr):
        if self.kind_of(args[0]) is None:
            return [I.raise_(st, 'OSError', C(2), C('no such file'))]
        attrs = {'st_mode': ('mode', args[0])}
        for field, f in (('st_mtime', 'os.path.getmtime'),
                         ('st_ctime', 'os.path.getctime'),
                         ('st_atime', 'os.path.getatime'),
                         ('st_size', 'os.path.getsize')):
            attrs[field] = ('call', f, None, (args[0],), (), 0)
        return [(st, I.new(st, HObj('open', attrs=attrs)), None)]

    def is_kind(self, kind):
        def model(I, st, args, kw, node, fr):
            if args[0][0] == 'mode':
                return [(st, C(self.kind_of(args[0][1]) == kind), None)]
        return model

    def path_is(self, *kinds):
        def model(I, st, args, kw, node, fr):
            return [(st, C(self.kind_of(args[0]) in kinds), None)]
        return model

    # -- running

    def run(self, argv, files=None, st=None):
        """A command line -> [(state, exception, events)].

        argv: terms, strings, or (option, value).
        """
        I = self.I
        if st is None:
            st = self.start_state()
        env = {'cli': self.cli}
        src = ['import configparser']

        def name(v):
            if isinstance(v, str):
                v = C(v)
            for k, o in env.items():
                if o == v:
                    return k
            k = 'v%d' % len(env)
            env[k] = v
            return k
        if files is not None:
            src.append('configparser._files.clear()')
            for f, sections in files.items():
                src.append('configparser._files[%r] = {%s}' % (f, ', '.join(
                    '%r: {%s}' % (sec, ', '.join(
                        '%r: %s' % (o, name(v)) for o, v in opts.items()))
                    for sec, opts in sections.items())))
        toks = []
        for a in argv:
            if isinstance(a, tuple) and len(a) == 2 and \
                    isinstance(a[0], str) and a[0].startswith('-'):
                toks.append('(%s, %s)' % (name(a[0]), name(a[1])))
            else:
                toks.append(name(a))
        src.append('cli([%s])' % ', '.join(toks))
        for v in env.values():
            self.known(st, v)
        mark = nev(st)
        out = []
        for s, env2, exc in snippet(self.cx, I, st, '\n'.join(src), env):
            out.append((s, exc, s.events()[mark:]))
        return out

    def known(self, st, v):
        """A text which the user gave."""
        if v[0] != 's':
            return
        I = self.I
        I.assume(st, I.mkcmp('is', v, NONE), False)
        for c in (NONE, FALSE, TRUE):
            I.assume(st, I.mkcmp('==', v, c), False)
        for t in ('int', 'float', 'bool', 'tuple', 'list', 'dict',
                  'NoneType'):
            I.assume(st, ('isinst', v, X('builtins.' + t)), False)
        I.assume(st, ('isinst', v, X('builtins.str')), True)
        I.assume(st, ('truth', v, 0), True)
        for conv in ('int', 'float'):
            st.facts[('cmp', 'converts', v, C('builtins.' + conv))] = True


def nev(st):
    return len(st.events())


def exc_class(s, exc):
    """The class of an exception that is known, or None."""
    if exc is None or exc[0] == 'uexc':
        return None
    if exc[0] == 'r':
        o = s.get(exc)
        return o.cls if o is not None and o.kind == 'inst' else None
    c = exc[1] if exc[0] == 'exc' else None
    return c


def exc_text(s, exc):
    if exc is None:
        return 'nothing'
    c = exc_class(s, exc)
    if c is not None and c[0] == 'r':
        return s.get(c).meta['name']
    return exc_show(exc)


def is_usage_error(w, s, exc):
    cls = exc_class(s, exc)
    if cls is None or cls[0] != 'r':
        return False
    mod = w.I.world.get(w.I.modrefs['click'])
    return w.I.is_subclass(s, cls, mod.attrs['UsageError']) is True


def normal(v):
    """Nested conversions are one."""
    if not isinstance(v, tuple) or (v and v[0] == 'c'):
        return v
    v = tuple(normal(x) if isinstance(x, tuple) else x for x in v)
    if v and v[0] == 'call' and v[1] in ('builtins.int', 'builtins.float',
                                         'builtins.str') and \
            len(v[3]) == 1 and not v[4]:
        a = v[3][0]
        if a[0] == 'call' and a[1] == v[1] or is_c(a) and \
                v[1] == 'builtins.' + a[1]:
            return a
        if a[0] == 'a' and v[1] == 'builtins.int':
            return a
        if a[0] == 'x' and 'PROTOCOL' in a[1]:
            return a
    return v


def execs(evs):
    return [e for e in evs if e.k == 'exec']


def calls(evs, *names):
    return [e for e in evs if e.k == 'call' and e.fn in names]


def starts(evs):
    return calls(evs, 'Profiler.start', 'Runnable.start')


def stops(evs):
    return calls(evs, 'Runnable.stop', 'Profiler.stop')


# -- what a command did

def class_of(s, v):
    o = s.get(v) if v is not None else None
    if o is not None and o.kind == 'inst':
        return o.cls
    return None


def short(I, s, c):
    if c is None:
        return None
    o = s.get(c) or I.world.get(c)
    return o.meta['name'] if o is not None and o.kind == 'class' else show(c)


def get(I, s, v, name):
    if v is None:
        return None
    outs = I.ga(s.fork(), v, name, None, top())
    vals = [x for __, x, exc in outs if exc is None]
    return vals[0] if len(vals) == 1 else None


def server_of(w, s, evs):
    """The profiling server which the command made: its fields and itself."""
    I = w.I
    cref = w.cx.cls(I, 'remote.ProfilingServer')
    refs = [r for r in s.owned | set(s.heap) if s.get(r) is not None and
            s.get(r).kind == 'inst' and s.get(r).cls is not None and
            I.is_subclass(s, s.get(r).cls, cref)]
    if not refs:
        return None, None
    ref = max(refs, key=lambda r: r[1])
    out = {}
    for name in ('profiler', 'interval', 'log', 'pickle_protocol',
                 'listener'):
        v = get(I, s, ref, name)
        if v is not None:
            out[name] = v
    return out, ref


def profiler_of(w, s, evs):
    """The profiler which runs the program."""
    server, ref = server_of(w, s, evs)
    if server is not None:
        p = server.get('profiler')
        inner = get(w.I, s, p, 'profiler') if p is not None else None
        return inner if inner is not None else p
    st = [e for e in starts(evs)]
    return st[-1].recv if st else None


def dumped(evs):
    """What was pickled to a file: [(object, file, protocol, event)]."""
    out = []
    for e in evs:
        if e.k != 'call':
            continue
        kw = dict(e.kw)
        if e.fn in ('pickle.dump', 'cPickle.dump'):
            a = list(e.args) + [None] * 3
            out.append((a[0] or kw.get('obj'), a[1] or kw.get('file'),
                        a[2] or kw.get('protocol'), e))
        elif e.fn == '.write' and len(e.args) == 1:
            # pickled before.
            x = e.args[0]
            if x[0] == 'call' and x[1] in ('pickle.dumps', 'cPickle.dumps'):
                a = list(x[3]) + [None] * 3
                kw = dict(x[4])
                out.append((a[0] or kw.get('obj'), e.recv,
                            a[1] or kw.get('protocol'), e))
        elif e.fn == '.dump' and len(e.args) == 1 and e.recv is not None \
                and e.recv[0] == 'call' and e.recv[1] in (
                    'pickle.Pickler', 'cPickle.Pickler'):
            a = list(e.recv[3]) + [None] * 3
            kw = dict(e.recv[4])
            out.append((e.args[0], a[0] or kw.get('file'),
                        a[1] or kw.get('protocol'), e))
    return out


def opened(f):
    """(name, mode) of a file object; None: not known."""
    if f is None or f[0] != 'call' or f[1] not in (
            'builtins.open', 'io.open'):
        return None, None
    kw = dict(f[4])
    a = list(f[3]) + [None] * 2
    name, mode = a[0] or kw.get('file'), a[1] or kw.get('mode') or C('r')
    return name, mode[2] if is_c(mode) else None


def effects(w, s, exc, evs):
    """Where the options arrived: name -> value."""
    I = w.I
    out = {}
    p = profiler_of(w, s, evs)
    if p is not None:
        out['profiler'] = short(I, s, class_of(s, p))
        for what in ('timer', 'sampler'):
            v = get(I, s, p, what) if class_of(s, p) is not None else None
            c = class_of(s, v) if v is not None else None
            if c is not None:
                out[what] = short(I, s, c)
                if what == 'sampler':
                    out['sampling-interval'] = normal(get(I, s, v,
                                                          'interval'))
    server, ref = server_of(w, s, evs)
    if server is not None:
        for name, param in (('interval', 'interval'),
                            ('pickle-protocol', 'pickle_protocol')):
            if param in server:
                out[name] = normal(server[param])
        prof = server.get('profiler')
        if class_of(s, prof) is not None:
            out['signum'] = normal(get(I, s, prof, 'signum'))
            prep = [x for x in calls(evs, 'BackgroundProfiler.prepare')
                    if x.recv == prof]
            out['prepared'] = bool(prep)
        log = server.get('log')
        if log is not None:
            out['verbose'] = echoes(w, s, log)
        out['spawn'] = spawned(I, s, evs, ref)
        out['listener'] = server.get('listener')
    for e in evs:
        if e.k == 'call' and e.fn == '.bind' and e.args:
            out['endpoint'] = e.args[0]
    dumps = dumped(evs)
    if dumps:
        obj, f, proto, e = dumps[-1]
        out['pickle-protocol'] = normal(proto) if proto is not None else \
            X('the default of pickle')
        name, mode = opened(f)
        if name is not None:
            out['dump'] = name
    runs = [i for i, e in enumerate(evs) if e.k == 'call' and
            e.fn == '.run' and is_loop(e.recv)]
    if runs:
        e = evs[runs[-1]]
        mono = [x for x in evs[:runs[-1]] if x.k == 'call' and
                x.fn == '.set_terminal_properties' and
                mentions(x.recv, e.recv)]
        out['mono'] = bool(mono and mono[-1].args[:1] == (C(1),) or
                           mono and dict(mono[-1].kw).get('colors') == C(1))
        out['shown'] = e.recv
    return out


def is_loop(v):
    return v is not None and v[0] == 'call' and v[1] == '.loop'


def echoes(w, s, log):
    """Whether a log function prints what it gets: True, False, None."""
    s2 = s.fork()
    mark = nev(s2)
    got = set()
    try:
        outs = w.I.call(s2, log, [C('a message')], {}, None, top())
    except Undecided:
        return None
    for s3, v, exc in outs:
        if exc is not None:
            return 'raises ' + exc_show(exc)
        text = [e for e in s3.events()[mark:] if e.k == 'call' and
                e.fn in ('_analysis.echo', 'builtins.print',
                         'sys.stdout.write', 'sys.stderr.write')]
        got.add(any('a message' in show(e.args[0]) or mentions(
            e.args[0], C('a message')) for e in text if e.args))
    return got.pop() if len(got) == 1 else None


def method_name(I, s, f):
    if f[0] == 'bm':
        o = s.get(f[2]) or I.world.get(f[2])
        return o.meta.get('name')
    return f[2] if f[0] == 'a' else show(f).rpartition('.')[2]


def spawned(I, s, evs, server):
    """How the server was started: (mode, method, arguments)."""
    for e in evs:
        if e.k != 'call' or not isinstance(e.fn, str):
            continue
        kw = dict(e.kw)
        if e.fn == 'threading.Thread':
            f = kw.get('target') or (e.args[1] if len(e.args) > 1 else None)
            args = kw.get('args', T())
            begun = any(x.k == 'call' and x.fn == '.start' and
                        x.recv == e.res for x in evs)
            mode = 'threading' if begun else 'nothing'
            args = args[1] if args[0] == 't' else (args,)
        elif e.fn in ('gevent.spawn', 'eventlet.spawn', 'eventlet.spawn_n'):
            f = e.args[0] if e.args else None
            mode = e.fn.partition('.')[0]
            args = e.args[1:]
        else:
            continue
        if f is None:
            continue
        if not mentions(f, server):
            # a function which calls it.
            inner = called_by(I, s, f, args, server)
            if inner is None:
                continue
            return (mode,) + inner
        name = method_name(I, s, f)
        return mode, name, tuple(args)
    return None


def cooperative(evs):
    """The modules which were made cooperative before the program runs.
    """
    done = set()
    for e in evs:
        if e.k == 'exec':
            break
        if e.k != 'call' or not isinstance(e.fn, str):
            continue
        name = e.fn.rpartition('.')[2]
        kw = dict(e.kw)
        if name.startswith('patch_') and 'monkey' in e.fn:
            done.add(name[6:])
        elif name == 'monkey_patch':
            if e.args or any(not is_c(v) for v in kw.values()):
                return None
            on = set(k for k, v in kw.items() if v[2])
            off = set(kw) - on
            done |= on or set(['select', 'socket']) - off
        elif 'monkey' in e.fn:
            return None
    if 'all' in done:
        done |= set(['select', 'socket'])
    return done


SPAWNERS = ('threading.Thread', 'gevent.spawn', 'eventlet.spawn',
            'eventlet.spawn_n')


def called_by(I, s, f, args, server):
    """Which method of the server a function calls: (method, arguments)."""
    o = s.get(f) or I.world.get(f) if f[0] == 'r' else None
    if o is None or o.kind not in ('func', 'partial'):
        return None
    found = set()
    before = I.opaque
    I.opaque = set(before) | {'connected', 'serve_forever', 'start'}
    try:
        for s2, v, exc in I.call(s.fork(), f, list(args), {}, None, top()):
            for e in s2.events()[s.nev:]:
                if e.k == 'call' and (e.recv == server or
                                      server in e.args[:1]):
                    name = e.fn.rpartition('.')[2]
                    found.add((name, tuple(
                        a for a in list(e.args) + [y for _, y in e.kw]
                        if a != server)))
                    break
    finally:
        I.opaque = before
    return found.pop() if len(found) == 1 else None


def ref_given(e, ref):
    """Whether something outside of the repository gets the object."""
    return any(mentions(v, ref) for v in list(e.args) + [
        x for k, x in e.kw] if v is not None)


def argument_faults(w, s, evs):
    """Calls of the repository which do not fit what they call."""
    return [e for e in evs if e.k == 'badcall' and e.loc and
            not e.loc[0].startswith('stubs')] + \
        [e for e in evs if e.k == 'badcall' and e.loc and
         e.loc[0].startswith('stubs') and str(e.fn).startswith('profiling')]


def value_show(v):
    return show(v) if isinstance(v, tuple) and v and isinstance(
        v[0], str) and v[0] in ('c', 't', 's', 'x', 'call', 'a', 'i', 'r',
                                'op', 'fld') else str(v)


class Option(object):
    """An option: what is typed, what arrives where."""

    def __init__(self, name, typed, expect, value=None, config=None):
        self.name, self.typed = name, typed
        self.expect = expect        # effect -> value
        self.value = value          # text, for a configuration file
        self.config = config        # its name there


def flt(v):
    return ('call', 'builtins.float', None, (v,), (), 0)


def integer(v):
    return ('call', 'builtins.int', None, (v,), (), 0)


def sig(name):
    return X('signal.' + name)


def profiler_opts():
    n = S('protocol')
    i = S('sampling interval')
    return [
        Option('-T', ['-T'], {'profiler': 'TracingProfiler'},
               'tracing', 'profiler'),
        Option('--tracing', ['--tracing'], {'profiler': 'TracingProfiler'}),
        Option('-S', ['-S'], {'profiler': 'SamplingProfiler'},
               'sampling', 'profiler'),
        Option('--sampling', ['--sampling'],
               {'profiler': 'SamplingProfiler'}),
        Option('--timer basic', [('--timer', 'basic')], {'timer': 'Timer'},
               'basic', 'timer'),
        Option('--timer thread', [('--timer', 'thread')],
               {'timer': 'ThreadTimer'}, 'thread', 'timer'),
        Option('--timer greenlet', [('--timer', 'greenlet')],
               {'timer': 'GreenletTimer'}, 'greenlet', 'timer'),
        Option('--sampler itimer', [('--sampler', 'itimer')],
               {'sampler': 'ItimerSampler'}, 'itimer', 'sampler'),
        Option('--sampler tracing', [('--sampler', 'tracing')],
               {'sampler': 'TracingSampler'}, 'tracing', 'sampler'),
        Option('--sampling-interval', [('--sampling-interval', i)],
               {'sampling-interval': flt(i)}, i, 'sampling-interval'),
        Option('--pickle-protocol', [('--pickle-protocol', n)],
               {'pickle-protocol': integer(n)}, n, 'pickle-protocol'),
    ]


def live_opts():
    i = S('result interval')
    out = [Option('-i', [('-i', i)], {'interval': flt(i)}, i, 'interval'),
           Option('--interval', [('--interval', i)], {'interval': flt(i)})]
    for mode in ('threading', 'gevent', 'eventlet'):
        out.append(Option('--spawn ' + mode, [('--spawn', mode)],
                          {'spawn': mode}, mode, 'spawn'))
    for text in ('USR1', 'SIGUSR1', 'usr1', 'SIGALRM'):
        name = text.upper()
        if not name.startswith('SIG'):
            name = 'SIG' + name
        out.append(Option('--signum ' + text, [('--signum', text)],
                          {'signum': sig(name)}, text, 'signum'))
    out.append(Option('--signum 10', [('--signum', '10')],
                      {'signum': C(10)}, '10', 'signum'))
    return out


def dump_opts():
    return [Option('-d', [('-d', S('path'))], {'dump': S('path')}),
            Option('--dump', [('--dump', S('path'))], {'dump': S('path')})]


def mono_opts():
    return [Option('--mono', ['--mono'], {'mono': True})]


def remote_opts():
    e = {'endpoint': T(C('10.1.2.3'), C(4567))}
    return [Option('-b', [('-b', '10.1.2.3:4567')], e, '10.1.2.3:4567',
                   'endpoint'),
            Option('--bind', [('--bind', '10.1.2.3:4567')], e),
            Option('-v', ['-v'], {'verbose': True}),
            Option('--verbose', ['--verbose'], {'verbose': True})]


def commands():
    """(command, options, what follows)"""
    prog = ['--', S('script'), S('argument')]
    stmt = [('-n', '7'), 'statement()']
    return [
        ('profile', profiler_opts() + dump_opts() + mono_opts(), prog),
        ('live-profile', profiler_opts() + live_opts() + mono_opts(), prog),
        ('live', [], prog),
        ('remote-profile', profiler_opts() + live_opts() + remote_opts(),
         prog),
        ('remote', [], prog),
        ('timeit-profile', profiler_opts() + dump_opts() + mono_opts(),
         stmt),
        ('timeit', [], stmt),
    ]


#: What an effect depends on.
NEEDS = {'timer': ('profiler', 'TracingProfiler'),
         'sampler': ('profiler', 'SamplingProfiler'),
         'sampling-interval': ('profiler', 'SamplingProfiler')}


def defaults(w):
    I = w.I

    def const(mod, name):
        return w.cx.modvar(I, mod, name)
    bg = w.cx.cls(I, 'remote.background.BackgroundProfiler')
    host, __, port = '127.0.0.1:8912'.partition(':')
    return {
        'profiler': 'TracingProfiler', 'timer': 'Timer',
        'sampler': 'ItimerSampler',
        'sampling-interval': normal(const('profiling.sampling.samplers',
                                          'INTERVAL')),
        'pickle-protocol': normal(const('profiling.remote',
                                        'PICKLE_PROTOCOL')),
        'interval': normal(const('profiling.remote', 'INTERVAL')),
        'spawn': 'threading',
        'signum': I.world.get(bg).attrs.get('signum'),
        'verbose': False, 'mono': False,
        'endpoint': T(C(host), C(int(port))),
    }


def side(evs):
    """In which process a path of live-profile is."""
    for e in evs:
        if e.k == 'call' and e.fn == 'os.fork':
            return 'child' if e.res == C(0) else 'parent'
    return None


def compare(a, b):
    if isinstance(a, str) or isinstance(a, bool):
        return a == b
    if a is None or b is None:
        return None
    if is_c(a) and is_c(b):
        return a[2] == b[2]
    return a == b


def judge_effects(w, what, want, s, exc, evs, loc):
    cx = w.cx
    for e in argument_faults(w, s, evs):
        cx.ob('%s: %s' % (what, e.fn), False,
              'is called with arguments it does not take', e.loc)
        return
    here = side(evs)
    eff = effects(w, s, exc, evs)
    for name in sorted(want):
        if here == 'parent' and name != 'mono' or \
                here == 'child' and name == 'mono':
            continue
        got = eff.get(name)
        if name in NEEDS and want.get('profiler') != NEEDS[name][1]:
            continue
        if name == 'spawn':
            got = got and got[0]
        ok = None if got is None and (
            exc is None or exc[0] != 'exc' or
            exc[1] == X('builtins.SystemExit')) else \
            compare(want[name], got)
        if name == 'dump' and got is None and dumped(evs) and \
                eff.get('shown') is None:
            ok = None
        elif name in ('dump',) and got is None:
            ok = False
        if isinstance(got, tuple) and ok is False and opaque_term(got):
            ok = unlike(want[name], got, s)
        cx.ob('%s: %s' % (what, name), ok, 'is %s and not %s%s' % (
            value_show(got), value_show(want[name]),
            ', raises ' + exc_text(s, exc) if exc is not None else ''), loc)
    if here != 'parent' and 'prepared' in eff:
        cx.ob('%s: the signal handler' % what, eff['prepared'],
              'is not installed', loc)


def unlike(want, got, s=None):
    """False if a value shows that a term says something else."""
    if not isinstance(want, tuple) or is_c(want):
        return None
    sample = NUMBERS if want[0] == 'call' and want[1] == 'builtins.float' \
        else WHOLE[:5] if want[0] == 'call' and want[1] == 'builtins.int' \
        else TEXTS
    if differs(want, got, sample, s.facts if s is not None else ()):
        return False
    return None


def opaque_term(v):
    """The result of something the analysis does not know."""
    return any(x[0] == 'call' and isinstance(x[1], str) and x[1] not in (
        'builtins.float', 'builtins.int', 'builtins.str')
        for x in walk(v) if isinstance(x, tuple) and len(x) > 1 and
        x[0] == 'call')


@rule('C33', 'every sub-command with none of its options, each of them, '
      'pairs of them and many together, values symbolic: each arrives '
      'unchanged at the component it names and every other component gets '
      'its default')
def options(cx):
    w = Cli(cx)
    base = defaults(w)
    for cmd, opts, rest in commands():
        loc = func_site(w.I, '__main__.' + {
            'live': 'live_profile', 'remote': 'remote_profile',
            'timeit': 'timeit_profile'}.get(cmd, cmd.replace('-', '_')))
        kinds = {}
        for o in opts:
            kinds.setdefault(sorted(o.expect)[0], o)
        sets = [[]] + [[o] for o in opts]
        sets += [list(p) for p in itertools.combinations(
            opts if cx.tier == 'thorough' else list(kinds.values()), 2)
            if sorted(p[0].expect)[0] != sorted(p[1].expect)[0]]
        # everything at once.
        for skip in ('-T', '-S'):
            many = {}
            for o in opts:
                if not o.name.startswith(skip):
                    many[sorted(o.expect)[0]] = o
            if many:
                sets.append(list(many.values()))
                sets.append(list(many.values())[::-1])
        for chosen in sets:
            want = dict(base)
            for o in chosen:
                want.update(o.expect)
            relevant = set(['profiler', 'timer', 'sampler',
                            'sampling-interval', 'pickle-protocol'])
            if cmd[:4] in ('live', 'remo'):
                relevant |= {'interval', 'spawn', 'signum'}
            if cmd[:4] == 'remo':
                relevant |= {'endpoint', 'verbose'}
            else:
                relevant |= {'mono'}
            to_file = 'dump' in want
            if cmd in ('profile', 'timeit', 'timeit-profile'):
                if to_file:
                    relevant -= {'mono'}
                    relevant |= {'dump'}
                else:
                    relevant -= {'pickle-protocol'}
            for k in [k for k in want if k not in relevant]:
                del want[k]
            argv = [cmd]
            for o in chosen:
                argv += o.typed
            what = cmd + ''.join(' ' + o.name for o in chosen)
            outs = w.run(argv + rest)
            for s, exc, evs in outs:
                judge_effects(w, what, want, s, exc, evs, loc)


@rule('C33', 'how the server of live-profile and remote-profile is made and '
      'started')
def servers(cx):
    w = Cli(cx)
    for cmd, method in (('live-profile', 'connected'),
                        ('remote-profile', 'serve_forever')):
        loc = func_site(w.I, '__main__.' + cmd.replace('-', '_'))
        for mode in ('threading', 'gevent', 'eventlet'):
            for s, exc, evs in w.run([cmd, ('--spawn', mode), '--',
                                      S('script')]):
                if side(evs) == 'parent':
                    continue
                server, ref = server_of(w, s, evs)
                got = spawned(w.I, s, evs, ref) if ref is not None else None
                what = '%s --spawn %s' % (cmd, mode)
                idle = got is None and ref is not None and any(
                    x.k == 'exec' for x in evs) and not any(
                    x.k == 'call' and (ref_given(x, ref) or any(
                        v[0] == 'r' and v in w.I.functions.values() or
                        s.get(v) is not None and s.get(v).kind in (
                            'func', 'partial') for v in list(x.args) + [
                                y for k, y in x.kw]
                        if v is not None and x.fn in SPAWNERS))
                    for x in evs)
                cx.ob(what, False if idle else got and got[1] == method or
                      None, 'nothing runs the server' if idle else
                      'runs %s' % (got and got[1]), loc)
                if got is None:
                    continue
                if mode != 'threading':
                    done = cooperative(evs)
                    cx.ob(what + ': cooperative', None if done is None else
                          'select' in done, 'select() is not made '
                          'cooperative: the server blocks the program', loc)
                before = [x.k for x in evs if x.k == 'exec' or
                          x.k == 'call' and x.fn in (
                              '.start', 'gevent.spawn', 'eventlet.spawn',
                              'eventlet.spawn_n')]
                cx.ob(what + ': before the program', before[:1] == ['call'],
                      'the server is started when the program is over', loc)
                if cmd[:4] == 'live':
                    cx.ob(what + ': the connection',
                          got[2] == (S('socket 2'),),
                          'the server gets %s' % [show(a) for a in got[2]],
                          loc)
                else:
                    binds = [x for x in evs if x.k == 'call' and
                             x.fn == '.bind']
                    if binds:
                        cx.ob(what + ': the listener',
                              server.get('listener') == binds[-1].recv,
                              'the server listens to something else', loc)


@rule('C33', 'timeit-profile: the statement runs the given number of times, '
      'after the set-up, in the same name space')
def timeit(cx):
    w = Cli(cx)
    loc = func_site(w.I, '__main__.timeit_profile')
    for n in (1, 7, 1000):
        for s, exc, evs in w.run(['timeit-profile', ('-n', str(n)),
                                  ('-s', 'set_up()'), ('--dump', S('path')),
                                  'statement()']):
            what = 'timeit-profile -n %d' % n
            for e in argument_faults(w, s, evs):
                cx.ob('%s: %s' % (what, e.fn), False,
                      'is called with arguments it does not take', e.loc)
            xs = execs(evs)
            texts = [source_of(e.args[0]) for e in xs]
            if len(xs) < 2 or None in texts:
                cx.ob(what, None if None in texts else False,
                      'runs %d times' % len(xs), loc)
                continue
            first = xs[0]
            cx.ob(what + ': -s', texts[0] == 'set_up()' and not [
                t for t in texts[1:] if 'set_up' in t],
                'the set-up does not come first, once', loc)
            cx.ob(what + ': name space', len(set(e.args[1] for e in xs)) ==
                  1, 'the statement does not see what the set-up defined',
                  loc)
            total = 0
            for t in texts[1:]:
                k = runs_of(t, 'statement')
                total = None if k is None or total is None else total + k
            cx.ob(what + ': -n', None if total is None else total == n,
                  'the statement runs %s times' % total, loc)


def source_of(v):
    """The text which compile() got."""
    if v[0] == 'call' and v[1] == 'builtins.compile' and v[3]:
        v = v[3][0]
    return v[2] if is_c(v) and isinstance(v[2], str) else None


def runs_of(text, name):
    """How often a call of name() is executed by the text; None: unknown."""
    try:
        tree = ast.parse(text)
    except SyntaxError:
        return None

    def count(stmts):
        n = 0
        for x in stmts:
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) \
                    and isinstance(x.value.func, ast.Name):
                n += x.value.func.id == name
            elif isinstance(x, ast.For) and not x.orelse:
                k = times(x.iter)
                m = count(x.body)
                if k is None or m is None:
                    return None
                n += k * m
            elif isinstance(x, (ast.Import, ast.ImportFrom, ast.Pass)):
                pass
            else:
                return None
        return n

    def times(it):
        if isinstance(it, ast.Call) and isinstance(it.func, (
                ast.Name, ast.Attribute)):
            f = it.func.id if isinstance(it.func, ast.Name) else it.func.attr
            vals = [a.value if isinstance(a, ast.Constant) else None
                    for a in it.args]
            if f in ('range', 'xrange') and vals and all(
                    isinstance(v, int) for v in vals):
                return len(range(*vals))
            if f == 'repeat' and len(vals) == 2 and isinstance(vals[1], int):
                return vals[1]
        return None
    return count(tree.body)


# -- C34

def argv_show(argv):
    if argv is None:
        return 'something unknown'
    return '[%s]' % ', '.join(
        show(p[1]) if p[0] == 'one' else '*' + show(p[1])
        if isinstance(p[1], tuple) else str(p[0]) for p in argv)


def programs():
    """(how it is given, command line, file name, its arguments, kind)"""
    a, b = S('first argument'), S('second argument')
    for args in ((), (a,), (a, b), (C('-x'), C('--dump'), C('y')),
                 (C('--'), a), (C('-m'), a), (a, a)):
        yield ('script', ['--', S('script')] + list(args), S('script'),
               args)
        yield ('-m', [('-m', S('module')), '--'] + list(args),
               S('file of the module'), args)
        yield '-c', [('-c', S('program')), '--'] + list(args), None, args
    # without "--", everything that is no option.
    for args in ((), (C('a'),), (C('a'), C('b'))):
        yield 'script', ['prog.py'] + list(args), C('prog.py'), args
        yield ('-m', [('-m', S('module'))] + list(args),
               S('file of the module'), args)
        yield '-c', [('-c', S('program'))] + list(args), None, args


def compiled(v):
    """(source, file name) of a code object."""
    if v[0] == 'call' and v[1] == 'builtins.compile' and len(v[3]) > 1:
        return v[3][0], v[3][1]
    if v[0] == 'call' and v[1] == 'builtins.compile':
        kw = dict(v[4])
        return (v[3][0] if v[3] else kw.get('source'),
                kw.get('filename'))
    return None, None


def judge_program(w, what, kind, filename, args, s, exc, evs, loc):
    cx = w.cx
    for e in argument_faults(w, s, evs):
        cx.ob('%s: %s' % (what, e.fn), False,
              'is called with arguments it does not take', e.loc)
        return
    xs = execs(evs)
    if not xs:
        sure = exc_class(s, exc) is not None
        cx.ob(what, False if sure or exc is None else None,
              'the program is not run%s' % (
                  ', ' + exc_text(s, exc) if exc is not None else ''), loc)
        return
    cx.ob(what + ': runs', len(xs) == 1, 'the program is run %d times' %
          len(xs), loc)
    e = xs[0]
    where = e.loc
    code = e.args[0]
    source, name = compiled(code)
    if kind == '-c':
        cx.ob(what + ': code', source == S('program') if source is not None
              else None, 'the code is %s' % show(code)[:80], where)
        filename = name
    elif kind == '-m':
        cx.ob(what + ': code', code == S('code of the module') or
              (False if is_c(code) or code[0] == 's' else None),
              'the code is %s' % show(code)[:80], where)
    else:
        text = None
        if source is not None:
            got = [x for x in walk(source) if x == filename]
            text = bool(got)
        cx.ob(what + ': code', text, 'the code is %s' % show(code)[:80],
              where)
        cx.ob(what + ': name of the code', name == filename if name is not
              None else None, 'the code has the file name %s' % (
                  name and show(name)), where)
    argv = e.x['argv']
    want = [('one', filename)] + [('one', a) for a in args]
    good = None
    if argv is not None and all(p[0] == 'one' for p in argv):
        good = argv == want
        if not good and [p for p in argv if opaque_term(p[1])]:
            good = None
            if len(argv) == len(want) and any(
                    unlike(b[1], a[1], s) is False
                    for a, b in zip(argv, want)):
                good = False
    elif argv is not None and ('sym', S('argv[1:]')) in argv:
        good = False
    cx.ob(what + ': sys.argv', good, 'is %s and not %s' % (
        argv_show(argv), argv_show(want)), where)
    g = e.x['globals']
    if g is None:
        cx.ob(what + ': globals', None, 'are %s' % show(e.args[1])[:80],
              where)
        return
    cx.ob(what + ': own globals', not e.x['own'],
          'the globals of the command line are used', where)
    dunder = g.get(C('__name__'))
    cx.ob(what + ': __name__', dunder == C('__main__') if dunder is None or
          not opaque_term(dunder) else None, 'is %s' % (
              dunder and show(dunder)), where)
    if kind != '-c':
        f = g.get(C('__file__'))
        cx.ob(what + ': __file__', f == filename if f is None or
              not opaque_term(f) or f == filename else
              unlike(filename, f, s), 'is %s' % (f and show(f)), where)
    o = s.get(w.main_globals)
    cx.ob(what + ': globals of the command line', o.known == {
        C('__name__'): C('__main__'),
        C('__file__'): S('profiling/__main__.py')},
        'are changed', where)


@rule('C34', 'every way to give a program (script, module, command) and its '
      'arguments, under every command which runs one: what sys.argv, '
      '__name__, __file__ and the globals are when it starts')
def environment(cx):
    w = Cli(cx)
    for cmd, alias in RUNNING:
        loc = func_site(w.I, '__main__.' + cmd.replace('-', '_'))
        for name in (cmd, alias, None):
            if name is None and cmd != 'profile':
                continue
            for kind, line, filename, args in programs():
                for details in (3, 4) if kind == '-m' else (3,):
                    w.details = details
                    if name is None:
                        # without the name of a command.
                        if kind != 'script' or line[0] == '--':
                            continue
                        argv = [('--dump', S('path'))] if False else []
                        argv += line
                    else:
                        argv = [name] + line
                    what = '%s %s %s' % (name or '', kind, ' '.join(
                        show(a) for a in args))
                    for s, exc, evs in w.run(argv):
                        if side(evs) == 'parent':
                            continue
                        judge_program(w, what.strip(), kind, filename, args,
                                      s, exc, evs, loc)
            w.details = 3


@rule('C34', 'package of a module that is run by -m')
def package(cx):
    w = Cli(cx)
    loc = func_site(w.I, '__main__.Module.convert')
    w.packages = (C('p'), C('a.p'))
    for name, pkg in (('a', ''), ('a.b', 'a'), ('a.b.__main__', 'a.b'),
                      ('p', 'p'), ('a.p', 'a.p')):
        for details in (3, 4):
            w.details = details
            for s, exc, evs in w.run(['profile', ('-m', name)]):
                for e in execs(evs):
                    g = e.x['globals']
                    got = g and g.get(C('__package__'))
                    cx.ob('-m %s' % name, got == C(pkg) if got is None or
                          is_c(got) else None,
                          '__package__ is %s' % (got and show(got)), loc)
    # an import error is one of usage.
    w.faults['runpy'] = True
    for s, exc, evs in w.run(['profile', ('-m', S('module'))]):
        if execs(evs):
            continue
        cx.ob('-m, no such module', is_usage_error(w, s, exc) or
              (None if exc is not None and exc[0] == 'uexc' else False),
              'ends with %s' % exc_text(s, exc), loc)


@rule('C34', 'an error of a program or its exit ends remote-profile too')
def outcome(cx):
    w = Cli(cx)
    loc = func_site(w.I, '__main__.remote_profile')
    for cmd in ('remote-profile', 'remote'):
        for end in ('ValueError', 'SystemExit', 'GeneratorExit'):
            w.endings = [[end]]
            for s, exc, evs in w.run([cmd, '--', S('script')]):
                xs = execs(evs)
                if not xs or xs[-1].exc is None:
                    continue
                own = xs[-1].exc
                what = '%s, the program raises %s' % (cmd, end)
                after = evs[evs.index(xs[-1]) + 1:]
                if exc == own:
                    ok = True
                elif exc is None:
                    # also not told in another way.
                    ok = None if [e for e in after if is_report(e) or
                                  e.k == 'call' and e.fn in (
                                      'os._exit', 'os.kill')] else False
                elif exc[0] == 'uexc':
                    ok = None
                else:
                    ok = same_end(s, own, exc)
                cx.ob(what, ok, 'the program ends with %s, the command with '
                      '%s' % (exc_text(s, own), exc_text(s, exc)), loc)


@rule('C34', 'both -m and -c, or neither these nor a script, are a usage '
      'error and nothing is run')
def usage(cx):
    w = Cli(cx)
    for cmd, alias in RUNNING:
        loc = func_site(w.I, '__main__.profiler_arguments')
        for name in (cmd, alias):
            if name is None:
                continue
            m, c = ('-m', S('module')), ('-c', S('program'))
            for what, line in (
                    ('-m and -c', [m, c]), ('-c and -m', [c, m]),
                    ('-m, -c and arguments', [m, c, '--', S('script')]),
                    ('-c, -m and an argument', [c, m, 'x']),
                    ('nothing', []), ('nothing but --', ['--']),
                    ('nothing but options', ['-S'])):
                for s, exc, evs in w.run([name] + line):
                    xs = execs(evs)
                    ran = bool(xs or starts(evs))
                    cx.ob('%s: %s' % (name, what), is_usage_error(w, s, exc)
                          and not ran or
                          (None if not ran and exc is not None and
                           exc[0] == 'uexc' else False),
                          'the program is run' if ran else 'ends with %s' %
                          exc_text(s, exc), loc)


# -- C35

REPORTS = ('_analysis.echo', 'sys.stderr.write', 'sys.stdout.write',
           'builtins.print', 'sys.excepthook', 'sys.__excepthook__',
           'warnings.warn')

ENDS = ((None, 'returns'), ('ValueError', 'raises'),
        ('SystemExit', 'calls sys.exit'),
        ('KeyboardInterrupt', 'is interrupted'),
        ('GeneratorExit', 'raises what is no Exception'))


def error(name, *args):
    def make(st):
        st.n += 1
        return ('exc', X('builtins.' + name), tuple(args), st.n)
    return make


def is_report(e):
    return e.k == 'call' and isinstance(e.fn, str) and (
        e.fn in REPORTS or e.fn.startswith('traceback.') or
        e.fn.startswith('logging.'))


class OneShot(Cli):
    """Also remembers from where the profiler was controlled."""

    def __init__(self, cx):
        super(OneShot, self).__init__(cx)
        self.stacks = {}

    def policy(self, ev, st, fr):
        if ev.fn in ('Profiler.start', 'Runnable.start', 'Runnable.stop'):
            self.stacks[ev.res] = list(self.I.stack)
        return super(OneShot, self).policy(ev, st, fr)

    def qual(self, s, f):
        o = s.get(f) or self.I.world.get(f)
        return o.meta.get('qual') if o is not None and o.kind == 'func' \
            else None

    def code_of(self, s, v):
        """The function whose code it is."""
        if v is None or v[0] != 'a' or v[2] not in (
                'f_code', '__code__', 'func_code'):
            return None
        f = v[1]
        if f[0] == 'frame':
            return f[1]
        if f[0] == 'bm':
            f = f[2]
        if f[0] == 'a' and f[2] in ('__func__', 'im_func'):
            return self.code_of(s, ('a', f[1], '__code__'))
        return self.qual(s, f) if f[0] == 'r' else None


def below(stack, base, own=None):
    """What is called by the base frame."""
    if base not in stack:
        return None
    i = len(stack) - 1 - stack[::-1].index(base)
    rest = stack[i + 1:] + ([own] if own else [])
    return rest[0] if rest else None


def one_shot(w, what, dump, s, exc, evs, loc, deliver=True, exited=True):
    cx, I = w.cx, w.I
    for e in argument_faults(w, s, evs):
        cx.ob('%s: %s' % (what, e.fn), False,
              'is called with arguments it does not take', e.loc)
        return
    pos = dict((id(e), i) for i, e in enumerate(evs))
    # nothing is left running.
    running = {}
    for e in evs:
        if e in starts([e]) and e.exc is None:
            running[e.recv] = e
        elif e in stops([e]) and e.exc is None:
            running.pop(e.recv, None)
    for p, e in running.items():
        cx.ob(what + ': stopped', False, 'the profiler is still running '
              'when the command ends', e.loc)
    if not running:
        cx.ob(what + ': stopped', True, '', loc)
    xs = execs(evs)
    if not xs or not deliver:
        return
    x = xs[-1]
    before = [e for e in starts(evs) if pos[id(e)] < pos[id(x)]]
    p = before[-1].recv if before else None
    under = before and not [e for e in stops(evs) if e.recv == p and
                            pos[id(before[-1])] < pos[id(e)] < pos[id(x)]]
    cx.ob(what + ': profiled', bool(under), 'the program runs without the '
          'profiler', x.loc)
    if not under:
        return
    after = evs[pos[id(x)] + 1:]
    st = [e for e in stops(after) if e.recv == p]
    i = after.index(st[0]) if st else len(after)
    early = [e for e in after[:i] if is_report(e)]
    cx.ob(what + ': stopped before it reports', not early,
          'it reports (%s) while the profiler is running' %
          (early and early[0].fn), early[0].loc if early else loc)
    dumps = [e for o, f, p_, e in dumped(after)]
    shown = [e for e in after if e.k == 'call' and e.fn == '.run' and
             is_loop(e.recv)]
    opens = calls(after, 'builtins.open', 'io.open')
    results = calls(after, '.set_result')
    unknown = not dumps and [
        e for e in after if e.k == 'call' and isinstance(e.fn, str)
        and e.fn in ('pickle.dumps', 'pickle.Pickler')]
    want = (1, 0) if dump else (0, 1)
    got = (len(dumps), len(shown))
    cx.ob(what + ': delivered', None if unknown else got == want,
          'the result is %s' % (
              'neither dumped nor shown' if got == (0, 0) else
              'dumped %d times and shown %d times' % got), loc)
    out = dumps + results + [e for e in opens if dump]
    first = min([after.index(e) for e in out] or [len(after)])
    if out:
        cx.ob(what + ': stopped before it is delivered', i < first,
              'the profiler still runs while the result is delivered',
              loc)
    # its own frames.
    base = get(I, s, p, 'base_frame')
    code = get(I, s, p, 'base_code')
    ignored = [get(I, s, p, n) for n in ('ignored_codes', 'ignored_frames')]
    plain = all(v == T() for v in ignored)
    if base is not None and base[0] == 'frame' and base[1] in x.x['stack']:
        base = base[1]
    else:
        cx.ob(what + ': base frame', False if base == NONE and plain else
              None, 'the frames which called the program are part of the '
              'result', loc)
        return
    cx.ob(what + ': base code', code == x.args[0] if code is not None and (
        code == NONE or code[0] in ('s', 'call')) else None,
        'is %s' % (code and show(code))[:80], loc)
    need = {base: 'the frame which runs the program'}
    f = below(x.x['stack'], base)
    if f:
        need[f] = 'a frame which runs the program'
    for e in [before[-1]] + st[:1]:
        f = below(w.stacks.get(e.res, []), base, w.qual(s, e.x))
        if f:
            need[f] = 'the frame of %s()' % f.rpartition('.')[2]
    gone = {}
    for j, e in enumerate(after):
        if e.k == 'call' and e.fn in ('RecordingStatistics.discard_child',
                                      'RecordingStatistics.remove_child') \
                and i < j < first:
            c = dict(e.kw).get('code')
            if c is not None and c == x.args[0]:
                cx.ob(what + ': the program', False, 'the program itself is '
                      'taken out of the result', e.loc)
                continue
            gone[w.code_of(s, c)] = e
    for f in sorted(need):
        cx.ob('%s: without %s' % (what, f.rpartition('.')[2]),
              f in gone or (None if None in gone or not plain else False),
              '%s stays in the result' % need[f], loc)


@rule('C35', 'profile and timeit-profile, the program ending in each way: '
      'the order of start, program, stop, report and delivery on every path, '
      'and what is taken out of the result')
def ways_to_end(cx):
    w = OneShot(cx)
    for cmd, given, rest in (
            ('profile', 'a script', ['--', S('script'), S('argument')]),
            ('profile', 'a module', [('-m', S('module'))]),
            ('profile', 'a command', [('-c', S('program'))]),
            ('profile -S', 'a script', ['--', S('script')]),
            ('timeit-profile', 'a statement', [('-n', '7'), 'x()']),
            ('timeit-profile -S', 'a statement', [('-n', '7'), 'x()'])):
        loc = func_site(w.I, '__main__.__profile__') or func_site(
            w.I, '__main__.' + cmd.split()[0].replace('-', '_'))
        for end, how in ENDS:
            w.endings = [[end]] if cmd[:4] == 'prof' else [[None], [end]]
            for dump in (True, False):
                argv = cmd.split() + (
                    [('--dump', S('path'))] if dump else []) + rest
                what = '%s, %s %s, %s' % (cmd, given, how, 'dump' if dump
                                          else 'view')
                w.faults = {}
                for s, exc, evs in w.run(argv):
                    one_shot(w, what, dump, s, exc, evs, loc)
                # the user ends the viewer by Ctrl-C.
                if not dump:
                    w.faults = {'.run': [error('KeyboardInterrupt')]}
                    for s, exc, evs in w.run(argv):
                        one_shot(w, what + ', interrupted', dump, s, exc,
                                 evs, loc)


@rule('C35', 'no profiler is left running by profile or timeit-profile when '
      'any step fails: the program, the set-up, the first or a later run of '
      'the calibration, the report, the dump, the viewer')
def failures(cx):
    w = OneShot(cx)
    loc = func_site(w.I, '__main__.__profile__')
    steps = (('traceback.print_exc', 'OSError'),
             ('builtins.open', 'OSError'), ('pickle.dump', 'ValueError'),
             ('new:StatisticsViewer', 'ValueError'), ('.run', 'ValueError'),
             ('.set_result', 'ValueError'), ('.loop', 'ValueError'),
             ('_analysis.echo', 'OSError'), ('builtins.compile',
                                             'SyntaxError'),
             ('Profiler.start', 'RuntimeError'))
    for cmd, rest in (('profile', ['--', S('script')]),
                      ('timeit-profile', [('-n', '7'), 'x()']),
                      ('timeit-profile', ['x()'])):
        for dump in (True, False):
            argv = [cmd] + ([('--dump', S('path'))] if dump else []) + rest
            for fn, kind in steps:
                if len(rest) == 1 and (fn[:3] != 'Pro' or not dump):
                    continue
                for end in (None, 'ValueError'):
                    w.endings = [[end]] if cmd == 'profile' else [[None],
                                                                  [end]]
                    w.faults = {fn: [error(kind)]}
                    what = '%s, %s fails%s' % (
                        cmd, fn.strip('.').replace('new:', ''),
                        ', the program too' if end else '')
                    for s, exc, evs in w.run(argv):
                        one_shot(w, what, dump, s, exc, evs, loc, False)
    w.faults = {}
    loc = func_site(w.I, '__main__.timeit_profile')
    for kind in ('ValueError', 'SystemExit', 'KeyboardInterrupt'):
        for n, when in ((0, 'the set-up'), (1, 'the first run'),
                        (2, 'the second run'), (12, 'a later run')):
            w.endings = [[None]] * n + [[kind]]
            for argv in (['timeit-profile', 'x()'],
                         ['timeit-profile', '-S', 'x()']):
                for s, exc, evs in w.run(argv):
                    one_shot(w, 'timeit-profile, calibration, %s raises %s'
                             % (when, kind), False, s, exc, evs, loc, False)


# -- C36

def config_cases(o, others):
    """(files, which value counts: 'a', 'b' or None for the default)"""
    sec = 'profiling'
    one, two = {sec: {o: 'a'}}, {sec: {o: 'b'}}
    yield 'no file', {}, None
    yield 'setup.cfg', {'setup.cfg': one}, 'a'
    yield '.profiling', {'.profiling': one}, 'a'
    yield 'both', {'setup.cfg': one, '.profiling': two}, 'b'
    yield 'both, listed the other way round', {'.profiling': two,
                                               'setup.cfg': one}, 'b'
    yield 'another section', {'setup.cfg': {'tool': {o: 'a'}}}, None
    yield 'an empty section', {'setup.cfg': {sec: {}}}, None
    yield 'another option', {'setup.cfg': {sec: {others: 'x'}},
                             '.profiling': {sec: {others: 'x'}}}, None
    yield 'setup.cfg and an unrelated .profiling', {
        'setup.cfg': one, '.profiling': {sec: {others: 'x'}}}, 'a'
    yield 'setup.cfg and a .profiling without the section', {
        'setup.cfg': one, '.profiling': {'tool': {}}}, 'a'
    yield 'other files', {'tox.ini': one, 'profiling.cfg': one}, None
    yield 'the DEFAULT section of another tool', {
        'setup.cfg': {'profiling:other': {o: 'a'}}}, None


class Setting(object):
    """A configurable option: name, command line, values, effect."""

    def __init__(self, name, opt, values, want, extra=(), flags=None,
                 cmds=None):
        self.name, self.opt, self.values, self.want = name, opt, values, want
        self.extra, self.flags, self.cmds = extra, flags, cmds

    def typed(self, v):
        if self.flags:
            return [self.flags[v]]
        return [(self.opt, v)]


def settings():
    a, b = S('one value'), S('another value')
    prof = ('profile', 'timeit-profile', 'live-profile', 'remote-profile')
    live = ('live-profile', 'remote-profile')
    yield Setting('profiler', None, ('tracing', 'sampling'), {
        'tracing': 'TracingProfiler', 'sampling': 'SamplingProfiler'},
        flags={'tracing': '-T', 'sampling': '-S'}, cmds=prof)
    yield Setting('profiler', None, ('sampling', 'tracing'), {
        'tracing': 'TracingProfiler', 'sampling': 'SamplingProfiler'},
        flags={'tracing': '-T', 'sampling': '-S'}, cmds=prof)
    yield Setting('timer', '--timer', ('thread', 'greenlet'), {
        'thread': 'ThreadTimer', 'greenlet': 'GreenletTimer'}, cmds=prof)
    yield Setting('timer', '--timer', ('greenlet', 'basic'), {
        'basic': 'Timer', 'greenlet': 'GreenletTimer'}, cmds=prof)
    yield Setting('sampler', '--sampler', ('tracing', 'itimer'), {
        'tracing': 'TracingSampler', 'itimer': 'ItimerSampler'},
        extra=['-S'], cmds=prof)
    yield Setting('sampling-interval', '--sampling-interval', (a, b),
                  {a: flt(a), b: flt(b)}, extra=['-S'], cmds=prof)
    yield Setting('pickle-protocol', '--pickle-protocol', (a, b),
                  {a: integer(a), b: integer(b)}, cmds=prof)
    yield Setting('interval', '--interval', (a, b),
                  {a: flt(a), b: flt(b)}, cmds=live)
    yield Setting('spawn', '--spawn', ('gevent', 'eventlet'), {
        'gevent': 'gevent', 'eventlet': 'eventlet'}, cmds=live)
    yield Setting('signum', '--signum', ('SIGALRM', 'usr1'), {
        'SIGALRM': sig('SIGALRM'), 'usr1': sig('SIGUSR1')}, cmds=live)
    yield Setting('signum', '--signum', ('10', '12'), {
        '10': C(10), '12': C(12)}, cmds=live)
    yield Setting('endpoint', '--bind', ('10.0.0.1:1', '10.0.0.2:2'), {
        '10.0.0.1:1': T(C('10.0.0.1'), C(1)),
        '10.0.0.2:2': T(C('10.0.0.2'), C(2))}, cmds=('remote-profile',))


def filled(files, values):
    """The files with the values put in."""
    a, b = values
    return dict((f, dict((sec, dict((o, a if v == 'a' else b if v == 'b'
                                     else v) for o, v in opts.items()))
                         for sec, opts in secs.items()))
                for f, secs in files.items())


@rule('C36', 'every configurable option of every command: default, each '
      'file, both files, foreign files and sections, and the command line '
      'on top, values symbolic; the value which arrives is the one the same '
      'text gives on the command line')
def precedence(cx):
    w = Cli(cx)
    base = defaults(w)
    for st in settings():
        effect = st.name
        for cmd in st.cmds:
            loc = func_site(w.I, '__main__.config_default')
            rest = ['--', S('script')] if cmd[:4] != 'time' else [
                ('-n', '7'), 'x()']
            if cmd in ('profile', 'timeit-profile'):
                rest = [('--dump', S('path'))] + rest
            cases = [(what, files, [], counts) for what, files, counts in
                     config_cases(st.name, 'unrelated')]
            v = st.values
            cases += [
                ('setup.cfg and the command line', {
                    'setup.cfg': {'profiling': {st.name: 'a'}}},
                 st.typed(v[1]), 'b'),
                ('.profiling and the command line', {
                    '.profiling': {'profiling': {st.name: 'a'}}},
                 st.typed(v[1]), 'b'),
                ('both files and the command line', {
                    'setup.cfg': {'profiling': {st.name: 'b'}},
                    '.profiling': {'profiling': {st.name: 'b'}}},
                 st.typed(v[0]), 'a')]
            for what, files, typed, counts in cases:
                want = base.get(effect) if counts is None else \
                    st.want[v[0] if counts == 'a' else v[1]]
                what = '%s: %s (%s): %s' % (cmd, st.name, '/'.join(
                    x if isinstance(x, str) else show(x) for x in v), what)
                for s, exc, evs in w.run(
                        [cmd] + list(st.extra) + typed + rest,
                        filled(files, v)):
                    if side(evs) == 'parent':
                        continue
                    got = effects(w, s, exc, evs).get(effect)
                    if effect == 'spawn':
                        got = got and got[0]
                    sure = exc_class(s, exc) is not None and not execs(evs)
                    ok = (False if sure else None) if got is None else \
                        compare(want, got)
                    if isinstance(got, tuple) and ok is False and \
                            opaque_term(got):
                        ok = None
                    cx.ob(what, ok, 'is %s and not %s%s' % (
                        value_show(got), value_show(want), ', ends with ' +
                        exc_text(s, exc) if exc is not None else ''), loc)


@rule('C36', 'the endpoint of the view command')
def view_endpoint(cx):
    w = Cli(cx)
    loc = func_site(w.I, '__main__.view')
    a, b = '10.0.0.1:1', '10.0.0.2:2'
    for what, files, counts in config_cases('endpoint', 'unrelated'):
        for typed in ((), (b,)):
            if typed and counts is None:
                continue
            for s, exc, evs in w.run(['view'] + list(typed),
                                     filled(files, (a, b))):
                text = b if typed or counts == 'b' else a if counts else \
                    '127.0.0.1:8912'
                host, __, port = text.partition(':')
                es = calls(evs, 'new:FailoverProfilingClient')
                addr = None
                if es:
                    addr = [x for x in es[-1].args + tuple(
                        x for __, x in es[-1].kw) if x[0] == 't']
                cx.ob('view: %s%s' % (what, ' and the command line' if typed
                                      else ''),
                      addr[0] == T(C(host), C(int(port))) if addr else
                      None if exc_class(s, exc) is None else False,
                      'connects to %s and not %s' % (
                          addr and show(addr[0]), text), loc)


@rule('C36', 'what is in the files now counts, not what an earlier command '
      'of the same process has read')
def read_again(cx):
    w = Cli(cx)
    loc = func_site(w.I, '__main__.read_config')
    rest = [('--dump', S('path')), '--', S('script')]
    a, b = S('one value'), S('another value')
    for first, second in ((a, b), (None, a), (a, None)):
        def files(v):
            return {'setup.cfg': {'profiling': {
                'pickle-protocol': v} if v is not None else {}}}
        for s, exc, evs in w.run(['profile'] + rest, files(first)):
            w.I.steps = 0
            for s2, exc2, evs2 in w.run(['profile'] + rest, files(second),
                                        s):
                got = effects(w, s2, exc2, evs2).get('pickle-protocol')
                want = integer(second) if second is not None else \
                    defaults(w)['pickle-protocol']
                cx.ob('a second command (%s, then %s)' % (
                    first and show(first), second and show(second)),
                    compare(want, got), 'gets %s and not %s' % (
                        value_show(got), value_show(want)), loc)


@rule('C36', 'several options together in one file')
def together(cx):
    w = Cli(cx)
    a, b, c, d = S('one'), S('two'), S('three'), '10.0.0.1:1'
    loc = func_site(w.I, '__main__.config_default')
    opts = {'profiler': 'sampling', 'sampler': 'tracing', 'timer': 'thread',
            'sampling-interval': a, 'pickle-protocol': b, 'interval': c,
            'endpoint': d, 'spawn': 'gevent', 'signum': 'usr1'}
    want = {'profiler': 'SamplingProfiler', 'sampler': 'TracingSampler',
            'sampling-interval': flt(a), 'pickle-protocol': integer(b),
            'interval': flt(c), 'endpoint': T(C('10.0.0.1'), C(1)),
            'spawn': 'gevent', 'signum': sig('SIGUSR1')}
    for f in ('setup.cfg', '.profiling'):
        for s, exc, evs in w.run(['remote-profile', '--', S('script')],
                                 {f: {'profiling': opts}}):
            judge_effects(w, 'everything in ' + f, want, s, exc, evs, loc)
    half = list(opts)[::2]
    files = {'setup.cfg': {'profiling': dict(
        (o, v) for o, v in opts.items() if o in half)},
        '.profiling': {'profiling': dict(
            (o, v) for o, v in opts.items() if o not in half)}}
    for s, exc, evs in w.run(['remote-profile', '--', S('script')], files):
        judge_effects(w, 'spread over both files', want, s, exc, evs, loc)


# -- C37

WHOLE = ('sys.exit', 'os._exit')


class Live(Cli):
    """live-profile; the child is reaped or not when it is asked for."""

    def __init__(self, cx):
        super(Live, self).__init__(cx)
        for name in ('os.waitpid', 'os.wait4'):
            self.I.ext_over[name] = self.waitpid
        self.I.ext_over['os.wait'] = self.wait
        self.I.ext_over['os.WIFEXITED'] = self.status_is('exited', True)
        self.I.ext_over['os.WIFSIGNALED'] = self.status_is('exited', False)

    def status_is(self, fact, val):
        def model(I, st, args, kw, node, fr):
            atom = ('truth', ('s', 'the program exited'), 0)
            v = I.decide(st, atom)
            if v is not None:
                return [(st, C(v == val), None)]
            out = []
            for b in (True, False):
                s = st.fork()
                I.assume(s, atom, b)
                out.append((s, C(b == val), None))
            return out
        return model

    def reaped(self, I, st, fr, node):
        I.event(st, fr, node, 'reaped')
        return [(st, T(S('pid'), S('status')), None)]

    def waitpid(self, I, st, args, kw, node, fr):
        if not args or args[0] not in (S('pid'), C(-1), C(0)):
            if args and (is_c(args[0]) or args[0] == X('os.WNOHANG')):
                # another process than the one that was started.
                return [I.raise_(st, 'ChildProcessError', C(10),
                                 C('no child'))]
            raise Undecided('waitpid(%s)' % ', '.join(map(show, args)))
        opts = args[1] if len(args) > 1 else C(0)
        if any(e.k == 'reaped' for e in st.events()):
            return [I.raise_(st, 'ChildProcessError', C(10), C('no child'))]
        if opts == C(0):
            I.event(st, fr, node, 'awaited')
            return self.reaped(I, st, fr, node)
        s = st.fork()
        I.event(s, fr, node, 'call', fn='os.waitpid', args=tuple(args))
        return self.reaped(I, st, fr, node) + [(s, T(C(0), C(0)), None)]

    def wait(self, I, st, args, kw, node, fr):
        I.event(st, fr, node, 'awaited')
        return self.reaped(I, st, fr, node)


#: Signals that end no process by default.
HARMLESS = [X('signal.' + n) for n in (
    'SIGCHLD', 'SIGCLD', 'SIGCONT', 'SIGURG', 'SIGWINCH', 'SIGSTOP',
    'SIGTSTP', 'SIGTTIN', 'SIGTTOU')]


def kills(evs):
    return [e for e in calls(evs, 'os.kill') if e.args[:1] == (S('pid'),) and
            len(e.args) > 1 and e.args[1] != C(0) and
            e.args[1] not in HARMLESS] + \
        [e for e in calls(evs, 'os.killpg')]


def closes(evs, fd):
    out = []
    for i, e in enumerate(evs):
        if e.k == 'call' and e.fn in ('os.close', 'os.closerange') and \
                fd in e.args:
            out.append(i)
        elif e.k == 'call' and e.fn == '.close' and e.recv is not None and \
                mentions(e.recv, fd):
            out.append(i)
        elif e.k == 'endwith' and e.recv is not None and \
                mentions(e.recv, fd):
            out.append(i)
    return out


SOCKETS = (S('socket 1'), S('socket 2'))


def judge_parent(w, what, viewer, s, exc, evs, loc, error=None):
    """viewer: how it ended: 'returns', 'interrupted', 'fails'; error: which
    has to come out of the command."""
    cx = w.cx
    loops = [i for i, e in enumerate(evs) if e.k == 'call' and
             e.fn == '.run' and is_loop(e.recv)]
    ends = closes(evs, S('write end'))
    cx.ob(what + ': write end', bool(ends) and (
        not loops or ends[0] < loops[0]) or (None if not ends and [
            e for e in calls(evs, 'os.fdopen', 'io.open', 'builtins.open')
            if S('write end') in e.args] else False),
        'the end of the pipe to which the program writes stays open', loc)
    reaped = [e for e in evs if e.k == 'reaped']
    cx.ob(what + ': the program', bool(kills(evs) or reaped) or (
        None if calls(evs, '.terminate', '.kill', '.send_signal') else
        False), 'is neither signalled nor reaped', loc)
    blocks = [i for i, e in enumerate(evs) if e.k == 'awaited' or
              e.k == 'call' and e.fn in ('.read', '.readlines') and
              mentions(e.recv, S('read end'))]
    if blocks:
        before = evs[:blocks[0]]
        cx.ob(what + ': ended first', bool(
            kills(before) or [e for e in before if e.k == 'reaped']) or (
            None if calls(before, '.terminate', '.kill', '.send_signal')
            else False), 'waits for the program, which is not told to end, '
            'though nobody looks at it any more', evs[blocks[0]].loc or loc)
    used = [x for x in SOCKETS if any(
        x in e.args or any(v == x for __, v in e.kw)
        for e in calls(evs, 'new:ProfilingClient'))]
    if loops and len(used) == 1:
        spare = [x for x in SOCKETS if x not in used][0]
        ends = closes(evs, spare)
        cx.ob(what + ': socket', bool(ends) and ends[0] < loops[0],
              'the end of the socket pair which belongs to the program stays '
              'open: that the program is over is not noticed', loc)
    if viewer == 'fails':
        if error is not None and exc != error:
            told = [e for e in evs if is_report(e) and (
                e.fn not in REPORTS or 'excepthook' in e.fn or any(
                    mentions(a, error) for a in e.args))]
            cx.ob(what + ': the error', None if told or exc is not None and
                  exc[0] == 'uexc' or s.get(exc) is not None and
                  exc_class(s, exc) is None else
                  exc_class(s, exc) == exc_class(s, error),
                  'the error gets lost, the command ends with %s' %
                  exc_text(s, exc), loc)
        return
    code = None
    cls = exc_class(s, exc)
    if cls == X('builtins.SystemExit') and exc[0] == 'exc':
        code = exc[2][0] if exc[2] else C(0)
    elif exc is None:
        code = C(0)
    elif exc[0] == 'r':
        code = s.get(exc).attrs.get('exit_code')
    read = [e for e in evs if e.k == 'call' and e.fn in (
        '.read', '.readlines') and mentions(e.recv, S('read end')) or
        e.k == 'call' and e.fn == 'os.read' and
        e.args[:1] == (S('read end'),)]
    other = [e for e in evs if e.k == 'call' and e not in read and
             (any(mentions(a, S('read end')) for a in e.args) or
              e.recv is not None and mentions(e.recv, S('read end'))) and
             e.fn not in ('os.fdopen', 'os.close', '.close', 'builtins.open',
                          'io.open')]
    shown = [e for e in evs if e.k == 'call' and e.fn in (
        'sys.stderr.write', 'sys.stdout.write', '_analysis.echo',
        'os.write', 'builtins.print', 'sys.stderr.buffer.write',
        'sys.__stderr__.write', 'sys.stderr.writelines') and any(
            mentions(a, r.res) for r in read for a in e.args)]
    empty = [r for r in read if w.I.decide(
        s, ('truth', r.res, 0)) is False]
    if not empty:
        cx.ob(what + ': error output', bool(shown) or (
            None if other else False), 'what the program wrote to its '
            'standard error is not shown', loc)
    if not reaped:
        return
    if code is None:
        cx.ob(what + ': exit status', None, 'ends with %s' % exc_text(
            s, exc), loc)
        return
    dec = w.I.decide(s, ('truth', ('s', 'the program exited'), 0))
    for status in STATUSES:
        exited = status & 0x7f == 0
        if dec is not None and dec is not exited:
            continue
        env = {S('status'): status, S('the program exited'): exited}
        try:
            if not feasible(s.facts, env):
                continue
            got = value(code, env)
        except Unknown:
            # the status itself is what is passed on
            good = None if mentions(code, S('status')) and \
                code != S('status') else False
        else:
            got = 0 if got is None else got
            good = got == status >> 8 if exited else not isinstance(
                got, (int, float)) or int(got) & 0xff != 0
        how = 'exits with %d' % (status >> 8) if exited else \
            'is killed by signal %d' % (status & 0x7f)
        cx.ob('%s: exit status, the program %s' % (what, how), good,
              'the command exits with %s' % show(code), loc)


#: Statuses of a process which is over.
STATUSES = (0, 1 << 8, 3 << 8, 255 << 8, 1, 9, 15, 11 | 0x80)


def to_null(v):
    return v is not None and mentions(v, X('os.devnull')) or \
        v is not None and mentions(v, C('/dev/null'))


def stream(v):
    """Which standard stream a file descriptor is."""
    for i, n in enumerate(('stdin', 'stdout', 'stderr')):
        if v == C(i) or v[0] == 'call' and isinstance(v[1], str) and \
                v[1] in ('sys.%s.fileno' % n, 'sys.__%s__.fileno' % n) or \
                mentions(v, X('sys.' + n)) or \
                mentions(v, X('sys.__%s__' % n)):
            return n
    return None


def judge_child(w, what, s, exc, evs, loc):
    cx = w.cx
    xs = [i for i, e in enumerate(evs) if e.k == 'exec']
    if not xs:
        cx.ob(what, None, 'the program is not run in the child')
        return
    x = xs[0]
    ends = closes(evs[:x], S('read end'))
    cx.ob(what + ': read end', bool(ends), 'the child keeps the end of the '
          'pipe which it does not use', loc)
    served = [v for v in SOCKETS if any(
        v in e.args for e in evs[:x] if e.k == 'call' and
        e.fn not in ('.close', 'os.close'))]
    if len(served) == 1:
        spare = [v for v in SOCKETS if v not in served][0]
        cx.ob(what + ': socket', bool(closes(evs[:x], spare)), 'the child '
              'keeps the end of the socket pair which belongs to the viewer',
              loc)
    target = {}
    unknown = False
    for e in evs[:x]:
        if e.k != 'call':
            continue
        if e.fn == 'os.dup2' and len(e.args) > 1:
            n = stream(e.args[1])
            if n is None and e.args[1] not in PIPE and not \
                    to_null(e.args[1]):
                unknown = True
            target[n] = e.args[0]
        elif e.fn == 'os.close' and e.args and stream(e.args[0]):
            target[stream(e.args[0])] = None
            unknown = True
    for n in ('stdin', 'stdout'):
        v = target.get(n)
        good = None if v is None and (n in target or unknown) else \
            v is not None and to_null(v)
        if v is not None and not good and opaque_fd(v):
            good = None
        cx.ob('%s: %s' % (what, n), good, 'is %s' % (
            'still the terminal of the viewer' if v is None else
            show(v)[:60]), loc)
        if good and n == 'stdout':
            flags = [a for a in walk(v) if a == X('os.O_RDONLY')]
            cx.ob('%s: %s can be written' % (what, n), not flags,
                  'is opened for reading only', loc)
    v = target.get('stderr')
    cx.ob('%s: stderr' % what, v == S('write end') or (
        None if unknown or v is not None and opaque_fd(v) and
        not to_null(v) else False), 'is %s' % (
            'still the terminal of the viewer' if v is None else
            show(v)[:60]), loc)
    early = [i for i in closes(evs[:x], S('write end'))]
    dup = [i for i, e in enumerate(evs[:x]) if e.k == 'call' and
           e.fn == 'os.dup2' and e.args[:1] == (S('write end'),)]
    if early and dup:
        cx.ob('%s: stderr stays open' % what, early[0] > dup[0],
              'the pipe is closed before it is used', loc)
    end = evs[x].exc
    cx.ob(what + ': exit status', exc == end or (
        None if exc is not None and exc[0] == 'uexc' else
        same_end(s, end, exc)), 'the program ends with %s, the child with '
        '%s' % (end and exc_text(s, end), exc_text(s, exc)), loc)


PIPE = (S('write end'), S('read end'))


def opaque_fd(v):
    return v[0] in ('call', 'a', 'i') and not mentions(v, S('write end')) \
        and not mentions(v, S('read end'))


def same_end(s, a, b):
    """The same exit status."""
    ca, cb = exc_class(s, a), exc_class(s, b)
    if a is None:
        return cb == X('builtins.SystemExit') and b[0] == 'exc' and (
            not b[2] or b[2][0] in (C(0), NONE))
    if b is None:
        return False
    exits = X('builtins.SystemExit')
    if ca == exits or cb == exits:
        return ca == cb and a[0] == b[0] == 'exc' and a[2] == b[2] or None
    return True


def lost(failed):
    """The error of the viewer, if it is one."""
    err = failed[-1].exc if failed else None
    return err if err is not None and err[0] == 'exc' and \
        err[1] == X('builtins.ValueError') else None


@rule('C37', 'live-profile: both processes on every path, the program and '
      'the viewer ending in each way, the program over or not: pipe ends, '
      'standard streams, signal or reaping, error output, exit status')
def live(cx):
    w = Live(cx)
    loc = func_site(w.I, '__main__.live_profile')
    for cmd in ('live-profile', 'live'):
        for end, how in ENDS:
            for viewer, fault in (
                    ('returns', {}),
                    ('interrupted', {'.run': [error('KeyboardInterrupt')]}),
                    ('fails', {'.run': [error('ValueError')]}),
                    ('fails', {'.run': [error('SystemExit')]})):
                w.endings = [[end]]
                w.faults = fault
                for s, exc, evs in w.run([cmd, '--', S('script'),
                                          S('argument')]):
                    which = side(evs)
                    if which == 'parent':
                        if end is not None:
                            continue
                        failed = [e for e in evs if e.k == 'call' and
                                  e.fn == '.run' and e.exc is not None]
                        v = viewer if failed else 'returns'
                        judge_parent(w, '%s, the viewer %s' % (cmd, {
                            'interrupted': 'is interrupted'}.get(v, v)), v,
                            s, exc, evs, loc, lost(failed))
                    elif which == 'child' and viewer == 'returns':
                        judge_child(w, '%s, the program %s' % (cmd, how), s,
                                    exc, evs, loc)
                    elif which is None:
                        cx.ob(cmd, None, 'there is no child process')


@rule('C37', 'live-profile: the viewer cannot be made or started: the '
      'program is signalled or reaped')
def broken_viewer(cx):
    w = Live(cx)
    loc = func_site(w.I, '__main__.live_profile')
    for fn in ('new:StatisticsViewer', '.loop', '.set_terminal_properties',
               'new:ProfilingClient'):
        for kind in ('ValueError', 'KeyboardInterrupt'):
            w.faults = {fn: [error(kind)]}
            for s, exc, evs in w.run(['live-profile', '--mono', '--',
                                      S('script')]):
                if side(evs) != 'parent':
                    continue
                failed = [e for e in evs if e.k == 'call' and e.fn == fn and
                          e.exc is not None]
                if failed:
                    judge_parent(w, 'live-profile, %s raises %s' % (
                        fn.replace('new:', '').strip('.'), kind), 'fails',
                        s, exc, evs, loc, lost(failed))


@rule('C33', 'every documented name of a sub-command stands for it; every '
      'way to write a signal number')
def names(cx):
    w = Cli(cx)
    I = w.I
    loc = func_site(I, '__main__.ProfilingCLI.get_command') or func_site(
        I, '__main__.cli')
    src = ['class K(object):', '    pass']
    todo = []
    for full in ('profile', 'live-profile', 'remote-profile', 'view',
                 'timeit-profile'):
        for name in (full, full.partition('-')[0]):
            if (full, name) not in todo:
                todo.append((full, name))
    for i, (full, name) in enumerate(todo):
        src.append('a%d = cli.get_command(K(), %r)' % (i, name))
        src.append('n%d = a%d.name if a%d is not None else None' % (i, i, i))
    outs = snippet(cx, I, w.start_state(), '\n'.join(src), {'cli': w.cli})
    for s, v, exc in outs:
        if exc is not None:
            cx.ob('names of the commands', None, exc_text(s, exc), loc)
            continue
        for i, (full, name) in enumerate(todo):
            got = v['n%d' % i]
            cx.ob('the command %s' % name, got == C(full) if is_c(got)
                  else None, 'is %s and not %s' % (show(got), full), loc)
    conv = cx.cls(I, '__main__.SignalNumber')
    loc = func_site(I, '__main__.SignalNumber.convert')
    typed = [(str(n), C(n)) for n in range(1, 65)]
    typed += [(f % n if f[0] != 'l' else (f[1:] % n).lower(),
               X('signal.SIG' + n))
              for n in ('USR1', 'USR2', 'ALRM', 'PROF', 'HUP', 'VTALRM')
              for f in ('%s', 'SIG%s', 'l%s', 'lSIG%s')]
    for text, want in typed:
        I.steps = 0
        for s, v, exc in snippet(cx, I, w.start_state(),
                                 'v = K().convert(%r, None, None)' % text,
                                 {'K': conv}):
            if exc is not None:
                ok = None if exc_class(s, exc) is None else False
                cx.ob('signal %s' % text, ok, 'is refused: ' + exc_text(
                    s, exc), loc)
                continue
            got = v['v']
            if got[0] == 'a' and got[1] == X('signal'):
                got = X('signal.' + got[2])
            if got[0] == 'call' and got[1] == 'builtins.getattr' and len(
                    got[3]) > 1 and is_c(got[3][1]):
                got = X('signal.%s' % got[3][1][2])
            cx.ob('signal %s' % text, got == want or (
                False if is_c(got) and is_c(want) or got[0] == 'x'
                else None), 'is %s and not %s' % (show(got), show(want)), loc)


@rule('C33', 'what the view command is given, a socket file or an address: '
      'the client connects to it')
def sources(cx):
    w = Cli(cx)
    I = w.I
    loc = func_site(I, '__main__.view')
    w.paths = {C('/run/app.sock'): 'sock'}
    for text, addr, family, title in (
            ('/run/app.sock', C('/run/app.sock'), 'AF_UNIX', 'app.sock'),
            ('10.0.0.1:80', T(C('10.0.0.1'), C(80)), 'AF_INET',
             '10.0.0.1:80'),
            ('example.org:65535', T(C('example.org'), C(65535)), 'AF_INET',
             'example.org:65535')):
        for s, exc, evs in w.run(['view', text]):
            what = 'view ' + text
            es = calls(evs, 'new:FailoverProfilingClient')
            if not es:
                cx.ob(what, None if exc_class(s, exc) is None else False,
                      'no client is made%s' % (
                          ', ' + exc_text(s, exc) if exc else ''), loc)
                continue
            e = es[-1]
            got = list(e.args) + [x for k, x in e.kw]
            cx.ob(what + ': address', addr in got, 'the client gets %s' %
                  ', '.join(show(x)[:40] for x in got), e.loc)
            fam = [x for x in got if x[0] == 'x' and x[1].startswith(
                'socket.AF_')]
            cx.ob(what + ': family', (fam or [X('socket.AF_INET')]) ==
                  [X('socket.' + family)], 'is %s' % ', '.join(
                      map(show, fam)), e.loc)
            said = []
            for x in got:
                try:
                    said.append(value(x, {}))
                except (Unknown, LookupError):
                    said.append(Unknown)
            # the viewer, the loop and the family are no texts.
            cx.ob(what + ': title', title in said or (
                False if said.count(Unknown) <= 3 else None), 'the client gets %s' %
                ', '.join(show(x)[:40] for x in got), e.loc)
            starts = [x for x in evs if x.k == 'call' and x.recv == e.res
                      and str(x.fn).endswith('start')]
            cx.ob(what + ': started', bool(starts), 'it is not started',
                  e.loc)


@rule('C41', 'every command with a viewer binds the letters of vim and of '
      'games to the arrows before the viewer runs')
def letters(cx):
    w = Cli(cx)
    w.I.opaque = w.I.opaque - {'viewer.bind_vim_keys',
                               'viewer.bind_game_keys'}
    w.paths = {C('/run/app.sock'): 'sock'}
    loc = func_site(w.I, '__main__.cli')
    for argv in (['view', '/run/app.sock'], ['profile', '--', S('script')],
                 ['prog.py'], ['live-profile', '--', S('script')],
                 ['timeit-profile', 'f()']):
        what = ' '.join(show(a) if isinstance(a, tuple) else a for a in argv)
        for s, exc, evs in w.run(argv):
            xs = [i for i, e in enumerate(evs) if e.k == 'call' and
                  e.fn == '.run' and e.recv is not None and
                  'new:StatisticsViewer' in repr(e.recv) or
                  e.k == 'call' and str(e.fn).endswith('run_viewer')]
            if not xs:
                continue
            table = ('a', X('urwid'), 'command_map')
            got = {}
            other = False
            for e in evs[:xs[0]]:
                if e.recv not in (table, X('urwid.command_map')):
                    continue
                if e.k == 'setitem' and e.fn[:2] == ('c', 'str'):
                    got[e.fn[2]] = e.args[0]
                elif e.k == 'call':
                    other = True
            for ks, way in zip(('ha', 'js', 'kw', 'ld'),
                               ('left', 'down', 'up', 'right')):
                for k in ks:
                    v = got.get(k)
                    cx.ob('%s: %s is %s' % (what, k, way),
                          v is not None and repr(C(way)) in repr(v) or (
                              None if other or v is not None and not is_c(v)
                              and not any(repr(C(x)) in repr(v) for x in (
                                  'left', 'down', 'up', 'right'))
                              else False), 'it is %s' % (
                                  'not bound' if v is None else show(v)[:60]),
                          loc)


@rule('C33', 'the live viewer is told whose program it shows')
def live_title(cx):
    w = Cli(cx)
    loc = func_site(w.I, '__main__.live_profile')
    for cmd in ('live-profile', 'live'):
        for s, exc, evs in w.run([cmd, '--', S('script')]):
            if side(evs) != 'parent':
                continue
            for e in calls(evs, 'new:ProfilingClient'):
                got = list(e.args) + [x for k, x in e.kw]
                cx.ob(cmd + ': title', any(
                    mentions(x, S('script')) for x in got) or (
                        None if len([x for x in got if x[0] in (
                            'u', 'o')]) else False),
                    'the client gets %s' % ', '.join(
                        show(x)[:40] for x in got), e.loc or loc)


@rule('C37', 'the threads which live-profile and remote-profile start do not '
      'keep the profiled process from ending')
def daemons(cx):
    w = Cli(cx)
    for cmd in ('live-profile', 'remote-profile'):
        loc = func_site(w.I, '__main__.' + cmd.replace('-', '_'))
        for mode in ((), (('--spawn', 'threading'),)):
            for s, exc, evs in w.run([cmd] + list(mode) + [
                    '--', S('script')]):
                if side(evs) == 'parent' or exc is not None:
                    continue
                for i, e in enumerate(evs):
                    if e.k != 'call' or e.fn != 'threading.Thread':
                        continue
                    begun = [k for k, x in enumerate(evs) if x.k == 'call'
                             and x.fn == '.start' and x.recv == e.res]
                    if not begun:
                        continue
                    daemon = dict(e.kw).get('daemon', NONE)
                    vague = False
                    for x in evs[i:begun[0]]:
                        if x.recv != e.res:
                            continue
                        if x.k == 'store' and x.fn == 'daemon' or \
                                x.k == 'call' and x.fn == '.setDaemon':
                            daemon = x.args[0]
                        elif x.k == 'call':
                            vague = True
                    cx.ob('%s%s: its thread' % (cmd, ' --spawn threading' if
                                                mode else ''),
                          True if daemon == C(True) else None if vague or
                          not is_c(daemon) else bool(daemon[2]),
                          'keeps the process from ending', e.loc or loc)
