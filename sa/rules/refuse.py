"""Wrong arguments: C46."""
from ..core import *  # noqa
from .cli import Cli, RUNNING, calls, dumped, effects, exc_class, exc_text, execs, \
    is_loop, is_usage_error, source_of, starts
from .net import func_site

SCRIPT = ['--', S('script')]

#: Which commands take which option.
PROFILING = ('profile', 'live-profile', 'remote-profile', 'timeit-profile')
LIVE = ('live-profile', 'remote-profile')

#: option, its name in a configuration file, values which mean nothing,
#: commands.
WRONG = (
    ('--timer', 'timer', ('nosuch', 'Greenlets', 'sampling', '1', 'timer'),
     PROFILING),
    ('--sampler', 'sampler', ('nosuch', 'basic', 'greenlet', 'tracings',
                              '0.1'), PROFILING),
    ('--sampling-interval', 'sampling-interval', ('abc', '1ms', '1,5', ''),
     PROFILING),
    ('--pickle-protocol', 'pickle-protocol', ('abc', '1.5', 'highest', ''),
     PROFILING),
    ('--interval', 'interval', ('abc', '1s', '1:00', ''), LIVE),
    ('-i', None, ('abc',), LIVE),
    ('--spawn', 'spawn', ('nosuch', 'thread', 'Threading', 'greenlet'), LIVE),
    ('--signum', 'signum', ('nosuch', 'sigusr', 'SIGUSR3', '_dfl', 'SIG_DFL',
                            'sig_ign', '_IGN', '_block', '1.5', '0x0a',
                            '-10', '10 '), LIVE),
    ('--bind', 'endpoint', ('10.0.0.1', '10.0.0.1:', '10.0.0.1:http',
                            '10.0.0.1:80:90', '10.0.0.1:8.5'),
     ('remote-profile',)),
    ('-b', None, ('localhost',), ('remote-profile',)),
    ('-n', None, ('abc', '1.5', '1e3'), ('timeit-profile',)),
)


def deeds(evs):
    """What a command did that it may only do with good arguments."""
    out = []
    for e in evs:
        if e.k == 'exec':
            if source_of(e.args[0]) != 'pass':
                out.append(('runs the program', e))
        elif e in starts([e]) and e.exc is None:
            out.append(('starts a profiler', e))
        elif e.k == 'call' and e.fn == 'os.fork':
            out.append(('makes a process', e))
        elif e.k == 'call' and e.fn in ('.bind', '.listen', '.connect',
                                        'socket.create_server'):
            out.append(('opens a socket', e))
        elif e.k == 'call' and e.fn == '.run' and is_loop(e.recv):
            out.append(('shows a viewer', e))
        elif e.k == 'call' and e.fn in ('new:FailoverProfilingClient',
                                        'new:ProfilingClient'):
            out.append(('makes a client', e))
        elif e.k == 'call' and e.fn == 'BackgroundProfiler.prepare':
            out.append(('takes a signal', e))
    for o, f, p, e in dumped(evs):
        out.append(('writes a dump', e))
    return out


def judge(w, what, s, exc, evs, loc, opt=None):
    cx = w.cx
    did = deeds(evs)
    sure = False
    if opt == '--signum' and did:
        # how it was looked up is known.
        got = effects(w, s, exc, evs).get('signum')
        if got is None or not (is_c(got) or got[0] == 'x'):
            sure = None
    for text, e in did[:1]:
        cx.ob(what + ': nothing is done', sure, 'the command %s' % text,
              e.loc or loc)
    if did:
        return
    cls = exc_class(s, exc)
    ok = exc is not None
    if exc is not None and cls == X('builtins.SystemExit'):
        code = exc[2][0] if exc[0] == 'exc' and exc[2] else C(0)
        ok = code not in (C(0), NONE, FALSE) if is_c(code) else None
    elif cls is not None and cls[0] == 'r':
        mod = w.I.world.get(w.I.modrefs['click'])
        if w.I.is_subclass(s, cls, mod.attrs['Exit']) is True:
            code = s.get(exc).attrs.get('exit_code') if exc[0] == 'r' \
                else None
            ok = None if code is None else code != C(0)
    elif exc is not None and exc[0] == 'uexc':
        ok = None
    cx.ob(what + ': refused', ok, 'the command ends %s' % (
        'as if it had worked' if exc is None else 'with ' + exc_text(
            s, exc)), loc)


def line(cmd, *opts):
    if cmd == 'timeit-profile':
        return [cmd] + list(opts) + ['statement()']
    return [cmd] + list(opts) + SCRIPT


@rule('C46', 'values which mean nothing to an option, on the command line '
      'and in each configuration file')
def values(cx):
    w = Cli(cx)
    for opt, conf, texts, cmds in WRONG:
        loc = func_site(w.I, '__main__.profiler_options')
        for cmd in cmds:
            first = ('-n', '3')
            opts = [first] if cmd == 'timeit-profile' and opt != '-n' else []
            # the option has to count.
            if opt in ('--sampler', '--sampling-interval'):
                opts.append('-S')
            for i, text in enumerate(texts):
                if i > 1 and cmd != cmds[-1] and cmd != cmds[0]:
                    continue
                what = '%s %s %r' % (cmd, opt, text)
                for s, exc, evs in w.run(line(cmd, *(opts + [(opt, text)]))):
                    judge(w, what, s, exc, evs, loc, opt)
                if conf is None or i > 1 or text == '':
                    continue
                for f in ('setup.cfg', '.profiling'):
                    files = {f: {'profiling': {conf: text}}}
                    for s, exc, evs in w.run(line(cmd, *opts), files):
                        judge(w, '%s, %s = %s in %s' % (cmd, conf, text, f),
                              s, exc, evs, loc, opt)


@rule('C46', 'options which do not exist, lack their value or exclude each '
      'other; too many arguments')
def lines(cx):
    w = Cli(cx)
    loc = func_site(w.I, '__main__.cli')
    for cmd in PROFILING:
        for what, argv in (
                ('an unknown option', line(cmd, '--nosuch')),
                ('an option without its value', [cmd, '--timer']),
                ('an option of view and no script', [cmd, '--src']),
                ('a flag with a value', line(cmd, ('--mono', 'x')))):
            for s, exc, evs in w.run(argv):
                judge(w, '%s, %s' % (cmd, what), s, exc, evs, loc)
    for cmd, argv in (
            ('timeit-profile', ['timeit-profile', ('-n', '3'), 'a()', 'b()']),
            ('view', ['view', '10.0.0.1:80', '10.0.0.1:81']),
            ('view', ['view', '--dump', 'x']),
            ('view', ['view', '-S']),
            ('profile', ['profile', '--interval', '1'] + SCRIPT),
            ('profile', ['profile', '--bind', '10.0.0.1:80'] + SCRIPT),
            ('profile', ['profile', '--signum', '10'] + SCRIPT),
            ('live-profile', ['live-profile', '--dump', 'x'] + SCRIPT),
            ('live-profile', ['live-profile', '--bind', '10.0.0.1:80'] +
             SCRIPT),
            ('remote-profile', ['remote-profile', '--dump', 'x'] + SCRIPT),
            ('remote-profile', ['remote-profile', '--mono'] + SCRIPT)):
        for s, exc, evs in w.run(argv):
            judge(w, '%s %s' % (cmd, ' '.join(
                x if isinstance(x, str) else show(x) if x[0] == 's' else
                ' '.join(x) for x in argv[1:])), s, exc, evs, loc)
    for cmd, alias in RUNNING:
        for name in (cmd, alias):
            if name is None:
                continue
            m, c = ('-m', S('module')), ('-c', S('program'))
            for what, rest in (
                    ('-m and -c', [m, c]), ('-c and -m', [c, m]),
                    ('-m, -c and a script', [m, c] + SCRIPT),
                    ('no script', []), ('no script but --', ['--']),
                    ('no script but options', ['-S', ('--timer', 'basic')])):
                for s, exc, evs in w.run([name] + rest):
                    judge(w, '%s, %s' % (name, what), s, exc, evs, loc)


@rule('C46', 'a script which cannot be read or compiled, a module which '
      'cannot be found, a program or statement which cannot be compiled')
def broken_programs(cx):
    w = Cli(cx)
    I = w.I

    def broken(kind):
        def model(I, st, args, kw, node, fr):
            done = [e for e in st.events() if e.k == 'broken']
            if done and done[0].args != tuple(args):
                return None
            I.event(st, fr, node, 'broken', args=tuple(args))
            return [I.raise_(st, kind, C('...'))]
        return model
    for cmd, __ in RUNNING:
        loc = func_site(w.I, '__main__.' + cmd.replace('-', '_'))
        for what, fn, argv in (
                ('a script which cannot be compiled', 'builtins.compile',
                 SCRIPT),
                ('a program which cannot be compiled', 'builtins.compile',
                 [('-c', S('program'))]),
                ('a script which cannot be read', '_analysis.source',
                 SCRIPT)):
            kinds = ('SyntaxError', 'ValueError') if 'compile' in fn else (
                'OSError', 'UnicodeDecodeError')
            for kind in kinds:
                old = I.ext_over.get(fn)
                I.ext_over[fn] = broken(kind)
                outs = w.run([cmd] + argv)
                I.ext_over[fn] = old
                if old is None:
                    del I.ext_over[fn]
                for s, exc, evs in outs:
                    if not [e for e in evs if e.k == 'broken']:
                        cx.ob('%s, %s' % (cmd, what), None, 'it is not '
                              'read in a known way', loc)
                        continue
                    judge(w, '%s, %s (%s)' % (cmd, what, kind), s, exc, evs,
                          loc)
        fn = 'runpy._get_module_details'
        old = I.ext_over[fn]
        I.ext_over[fn] = broken('ImportError')
        outs = w.run([cmd, ('-m', S('module'))])
        I.ext_over[fn] = old
        for s, exc, evs in outs:
            judge(w, '%s, a module which cannot be found' % cmd, s, exc, evs,
                  loc)


@rule('C46', 'a source of the view command that is neither a dump file nor '
      'a socket nor an address')
def sources(cx):
    w = Cli(cx)
    loc = func_site(w.I, '__main__.ViewerSource.convert')
    w.paths = {C('/srv/directory'): 'directory',
               C('10.0.0.1:80/'): 'directory', C('/dev/null'): 'device',
               C('10.0.0.1:90'): 'directory'}
    for text in ('/srv/directory', '/dev/null', '/no/such/file', 'nosuch',
                 'nosuch.prf', '10.0.0.1', '10.0.0.1:', '10.0.0.1:http',
                 '1:2:3', '10.0.0.1:80/', '10.0.0.1:90'):
        for s, exc, evs in w.run(['view', text]):
            judge(w, 'view ' + text, s, exc, evs, loc)
        files = {'setup.cfg': {'profiling': {'endpoint': text}}}
        for s, exc, evs in w.run(['view'], files):
            judge(w, 'view, endpoint = %s in setup.cfg' % text, s, exc, evs,
                  loc)


@rule('C46', 'a concurrency mode that does not exist')
def modes(cx):
    w = Cli(cx)
    I = w.I
    f = w.mod.attrs.get('spawn')
    loc = func_site(I, '__main__.spawn')
    if f is None:
        raise Anchor('__main__.spawn')
    for mode in ('thread', 'process', 'Threading', '', 'asyncio'):
        I.steps = 0
        for s, v, exc in snippet(cx, I, w.start_state(),
                                 'v = f(m, g, 1, a=2)',
                                 {'f': f, 'm': C(mode), 'g': S('function')}):
            ran = [e for e in s.events() if e.k == 'call' and (
                e.fn in ('.start', '.spawn', 'gevent.spawn',
                         'eventlet.spawn', 'function') or 'Thread' in
                str(e.fn))]
            cx.ob('spawn(%r)' % mode, False if ran or exc is None else
                  True, 'runs the function' if ran else 'is taken', loc)
