"""What the manual and the help promise: C54, C55."""
import ast
import os
import re
import signal

from ..core import *  # noqa
from ..core import Undecided
from .cli import (
    Cli, calls, class_of, compare, defaults, effects, exc_class,
    exc_text, execs, is_usage_error, judge_effects, judge_program, normal,
    side, sig, starts, value_show)
from .helpers import func_site

PROG, WEB = 'your-program.py', 'webserver.py'

#: The command lines of the manual: what is typed, what arrives, what runs.
LINES = (
    ([PROG], {'profiler': 'TracingProfiler', 'timer': 'Timer'}, (PROG, ())),
    (['--timer=greenlet', PROG], {'profiler': 'TracingProfiler',
                                  'timer': 'GreenletTimer'}, (PROG, ())),
    (['--dump=your-program.prf', PROG], {'dump': C('your-program.prf')},
     (PROG, ())),
    ([PROG, '--', '--your-flag', '--your-param=42'], {},
     (PROG, ('--your-flag', '--your-param=42'))),
    (['live-profile', WEB], {'profiler': 'TracingProfiler'}, (WEB, ())),
    (['live-profile', '-S', WEB], {'profiler': 'SamplingProfiler'},
     (WEB, ())),
    (['remote-profile', WEB, '--bind', '127.0.0.1:8912'],
     {'profiler': 'TracingProfiler',
      'endpoint': T(C('127.0.0.1'), C(8912))}, (WEB, ())),
    # said in words: "by just `--sampling` (shortly `-S`) option".
    (['live-profile', '--sampling', WEB], {'profiler': 'SamplingProfiler'},
     (WEB, ())),
)

F = 'file'
#: Options with a text: long name, short name, text, what arrives.
VALUED = {
    'profile': (
        ('--timer', None, 'thread', {'timer': 'ThreadTimer'}),
        ('--dump', '-d', 'x.prf', {'dump': C('x.prf')}),
        ),
    'live-profile': (
        ('--timer', None, 'greenlet', {'timer': 'GreenletTimer'}),
        ('--interval', '-i', '2.5', {'interval': C(2.5)}),
        ('--spawn', None, 'gevent', {'spawn': 'gevent'}),
        ('--signum', None, 'USR1', {'signum': sig('SIGUSR1')}),
        ('--pickle-protocol', None, '1', {'pickle-protocol': C(1)})),
    'remote-profile': (
        ('--bind', '-b', '10.1.2.3:4567',
         {'endpoint': T(C('10.1.2.3'), C(4567))}),
        ('--interval', '-i', '2.5', {'interval': C(2.5)}),
        ('--spawn', None, 'eventlet', {'spawn': 'eventlet'}),
        ('--signum', None, '12', {'signum': C(12)})),
}
#: Options without one.
FLAGS = {
    'profile': (('--sampling', '-S', {'profiler': 'SamplingProfiler'}),
                ('--tracing', '-T', {'profiler': 'TracingProfiler'}),
                ('--mono', None, {'mono': True})),
    'live-profile': (('--sampling', '-S', {'profiler': 'SamplingProfiler'}),
                     ('--mono', None, {'mono': True})),
    'remote-profile': (('--sampling', '-S',
                        {'profiler': 'SamplingProfiler'}),
                       ('--verbose', '-v', {'verbose': True})),
}
NAMES = {'profile': ('profile', None),
         'live-profile': ('live-profile', 'live'),
         'remote-profile': ('remote-profile', 'remote')}


def judge_line(w, argv, want, program, loc):
    what = 'profiling ' + ' '.join(argv)
    outs = w.run(list(argv))
    if not outs:
        w.cx.ob(what, None, 'no path', loc)
    ran = False
    for s, exc, evs in outs:
        if is_usage_error(w, s, exc):
            w.cx.ob(what, False, 'is refused: ' + exc_text(s, exc), loc)
            continue
        if want:
            judge_effects(w, what, want, s, exc, evs, loc)
        if side(evs) == 'parent':
            continue
        ran = True
        judge_program(w, what, 'script', C(program[0]),
                      tuple(C(a) for a in program[1]), s, exc, evs, loc)
    return ran


@rule('C54', 'every command line of the manual: the program runs with its '
      'arguments under the profiler, timer, dump and server named beside it')
def lines(cx):
    w = Cli(cx)
    for argv, want, program in LINES:
        name = argv[0].replace('-', '_') if argv[0] in (
            'live-profile', 'remote-profile') else 'profile'
        judge_line(w, argv, want, program,
                   func_site(w.I, '__main__.' + name))


@rule('C54', 'the view command lines of the manual: the result of the file is '
      'shown, the server is asked')
def views(cx):
    w = Cli(cx)
    w.paths = {C('your-program.prf'): 'dump'}
    loc = func_site(w.I, '__main__.view')
    for s, exc, evs in w.run(['view', 'your-program.prf']):
        what = 'profiling view your-program.prf'
        opened = [e for e in evs if e.k == 'call' and C('your-program.prf')
                  in e.args and str(e.fn).endswith('open')]
        shown = [i for i, e in enumerate(evs) if e.k == 'call' and
                 e.fn == '.run' and 'loop' in repr(e.recv)]
        told = [i for i, e in enumerate(evs) if e.k == 'call' and
                str(e.fn).endswith('set_result')]
        sure = exc_class(s, exc) is not None
        cx.ob(what + ': is read', bool(opened) or (
            False if sure or shown else None), 'the file is not opened%s' % (
                ', ' + exc_text(s, exc) if exc is not None else ''), loc)
        cx.ob(what + ': is shown', bool(shown and told) and
              told[0] < shown[0] or (False if sure or shown else None),
              'the result is not shown', loc)
    for s, exc, evs in w.run(['view', '127.0.0.1:8912']):
        what = 'profiling view 127.0.0.1:8912'
        made = calls(evs, 'new:FailoverProfilingClient')
        sure = exc_class(s, exc) is not None
        cx.ob(what + ': asks', bool(made) and T(C('127.0.0.1'), C(8912)) in
              list(made[0].args) + [v for k, v in made[0].kw] or (
                  False if sure or made else None),
              'the server is not asked%s' % (
                  ', ' + exc_text(s, exc) if exc is not None else ''), loc)
        shown = [e for e in evs if e.k == 'call' and e.fn == '.run' and
                 'loop' in repr(e.recv)]
        cx.ob(what + ': is shown', bool(shown) or (False if sure else None),
              'nothing is shown', loc)


@rule('C54', 'timeit as the manual has it: the statement runs after the '
      'set-up, in one name space')
def timeits(cx):
    w = Cli(cx)
    loc = func_site(w.I, '__main__.timeit_profile')
    setup, stmt = 'from trueskill import *', 'rate_1vs1(Rating(), Rating())'
    for argv in (['timeit', '-s', setup, stmt],
                 ['timeit-profile', '-s' + setup, stmt],
                 ['timeit', stmt, '--setup=' + setup],
                 ['timeit', '-n3', '-s', setup, stmt],
                 ['timeit', '-n', '3', '-r', '2', '-v', '-s', setup, stmt]):
        what = 'profiling ' + ' '.join(argv)
        for s, exc, evs in w.run(argv):
            if is_usage_error(w, s, exc):
                cx.ob(what, False, 'is refused: ' + exc_text(s, exc), loc)
                continue
            xs = execs(evs)
            if not xs:
                cx.ob(what, None, 'nothing is run', loc)
                continue
            cx.ob(what + ': set-up', setup in repr(xs[0].args[0]),
                  '%s is run first' % show(xs[0].args[0])[:80], loc)
            cx.ob(what + ': statement', stmt in repr(xs[-1].args[0]),
                  '%s is run last' % show(xs[-1].args[0])[:80], loc)
            cx.ob(what + ': name space', len(set(
                x.args[1] for x in xs if len(x.args) > 1)) == 1,
                'the statement does not see what the set-up defined', loc)


def placed(cmd):
    """(what is typed, what arrives): an option in each form and place."""
    for long, short_, text, want in VALUED[cmd]:
        forms = [[long, text], [long + '=' + text]]
        if short_:
            forms += [[short_, text], [short_ + text]]
        for f in forms:
            yield f, want
    for long, short_, want in FLAGS[cmd]:
        for f in [[long]] + ([[short_]] if short_ else []):
            yield f, want


@rule('C54', 'each option of each command that runs a program, joined to its '
      'value or apart, long or short, before or after the program, the '
      'command named in full, by its alias or left out')
def places(cx):
    w = Cli(cx)
    for cmd in sorted(NAMES):
        loc = func_site(w.I, '__main__.' + cmd.replace('-', '_'))
        for form, want in placed(cmd):
            for name in NAMES[cmd]:
                if name is None and cmd != 'profile':
                    continue
                head = [] if name is None else [name]
                if name in ('live', 'remote'):
                    judge_line(w, head + form + [WEB], want, (WEB, ()), loc)
                    continue
                for args in (form + [WEB], [WEB] + form,
                             form + [WEB, '--', '-x', 'y'],
                             form + ['--', WEB, '-x']):
                    if name is None and args[:1] == [WEB]:
                        # an option right behind the program.
                        pass
                    if '--' in args:
                        rest = tuple(args[args.index('--') + 1:])
                        rest = rest if WEB not in rest else rest[1:]
                    else:
                        rest = ()
                    if name is None and args.index(WEB) > (
                            args.index('--') if '--' in args else 99):
                        # the group itself takes this "--".
                        continue
                    judge_line(w, head + args, want, (WEB, rest), loc)


@rule('C54', 'the example of profiling from code, with each profiler: started '
      'and stopped, used by `with`, viewed and dumped')
def from_code(cx):
    for q in ('tracing.TracingProfiler', 'sampling.SamplingProfiler'):
        w = Cli(cx)
        I = w.I
        loc = func_site(I, 'profiler.Profiler.run_viewer')
        st = w.start_state()
        for s, v, exc in snippet(cx, I, st, '''
profiler = Profiler()
profiler.start()
program()
profiler.stop()
with profiler:
    program()
profiler.run_viewer()
profiler.dump('path/to/file')
''', {'Profiler': cx.cls(I, q), 'program': S('program')}):
            if exc is not None:
                cx.ob(q, None if exc[0] == 'uexc' else False,
                      'raises %s' % exc_text(s, exc), loc)
                continue
            steps = []
            for e in s.events():
                if e.k != 'call':
                    continue
                f = str(e.fn)
                if f == '()' and e.recv == S('program'):
                    steps.append('run')
                elif f.endswith(('.start', '.stop')) and e.recv is not None \
                        and class_of(s, e.recv) is not None:
                    steps.append(f.split('.')[-1])
                elif f == '.run':
                    steps.append('view')
                elif f.endswith('open') and C('path/to/file') in e.args:
                    steps.append('dump')
            cx.ob(q, steps == ['start', 'run', 'stop'] * 2 + ['view', 'dump'],
                  'what happens is: ' + ', '.join(steps), loc)


@rule('C54', 'every name in the __all__ of a module, and every name one '
      'module of the package imports from another: it is defined there')
def exports(cx):
    w = Cli(cx)
    I = w.I
    for name in sorted(I.modules):
        if not name.startswith('profiling'):
            continue
        m = I.modules[name]
        tree = m.tree
        defined = names_of(tree)
        if defined is None:
            continue
        for node in tree.body:
            if isinstance(node, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == '__all__'
                    for t in node.targets):
                try:
                    said = ast.literal_eval(node.value)
                except ValueError:
                    cx.ob(name + ': __all__', None, 'is computed')
                    continue
                for n in said:
                    cx.ob('%s: %s' % (name, n), n in defined or
                          name + '.' + n in I.modules,
                          'is exported but not defined', (m.path,
                                                          node.lineno))
        for node in ast.walk(tree):
            if not isinstance(node, ast.ImportFrom) or node.level or \
                    not (node.module or '').startswith('profiling'):
                continue
            other = I.modules.get(node.module)
            if other is None:
                cx.ob('%s: %s' % (name, node.module), None, 'no source')
                continue
            there = names_of(other.tree)
            for a in node.names:
                if a.name == '*' or there is None:
                    continue
                cx.ob('%s: %s.%s' % (name, node.module, a.name),
                      a.name in there or
                      node.module + '.' + a.name in I.modules or
                      os.path.exists(os.path.join(os.path.dirname(
                          other.path), a.name + '.c')) or guarded(
                              tree, node), 'is imported but not defined',
                      (m.path, node.lineno))


def guarded(tree, node):
    """Whether an import may fail."""
    return any(isinstance(t, ast.Try) and any(node is x for b in t.body
                                              for x in ast.walk(b))
               for t in ast.walk(tree))


def names_of(tree):
    """What a module binds at its top level; None if that is not known."""
    out = {'__name__', '__file__', '__doc__', '__package__', '__path__'}

    def block(stmts):
        for n in stmts:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef,
                              ast.AsyncFunctionDef)):
                out.add(n.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    out.add(a.asname or a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    out.add(a.asname or a.name)
            elif isinstance(n, (ast.If, ast.For, ast.While, ast.With,
                                ast.Try)):
                for f in ('body', 'orelse', 'finalbody'):
                    block(getattr(n, f, ()))
                for h in getattr(n, 'handlers', ()):
                    block(h.body)
            for x in ast.walk(n) if not isinstance(n, (
                    ast.FunctionDef, ast.ClassDef)) else ():
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.add(x.id)
    block(tree.body)
    if '*' in out or any(isinstance(x, ast.Call) and isinstance(
            x.func, ast.Name) and x.func.id in ('globals', 'vars', 'exec')
            for x in ast.walk(tree)):
        return None
    for x in ast.walk(tree):
        if isinstance(x, ast.Global):
            out.update(x.names)
    return out


# -- C55

COMMANDS = ('profile', 'live-profile', 'remote-profile', 'timeit-profile',
            'view')


def options_of(w, cmd):
    """The options of a command: [(names, help text, option)]."""
    I = w.I
    st = w.start_state()
    out = []
    for s, v, exc in snippet(w.cx, I, st, '''
command = cli.get_command(None, name)
ps = command.params
''', {'cli': w.cli, 'name': C(cmd)}):
        o = None if exc is not None else s.get(v['ps'])
        if o is None or o.parts is None:
            raise Undecided('the options of %s' % cmd)
        for kind, p in o.parts:
            po = s.get(p)
            if kind != 'one' or po is None:
                raise Undecided('an option of %s' % cmd)
            names = s.get(po.attrs.get('opts', NONE))
            names = [x[1][2] for x in names.parts or ()] if names is not \
                None else []
            h = normal(po.attrs.get('help', NONE))
            out.append((names, h[2] if is_c(h) and isinstance(h[2], str)
                        else None, p))
    return out


#: What an option is called -> what it changes.
EFFECT = {'--interval': 'interval', '--sampling-interval':
          'sampling-interval', '--signum': 'signum', '--timer': 'timer',
          '--sampler': 'sampler', '--pickle-protocol': 'pickle-protocol',
          '--spawn': 'spawn', '--tracing': 'profiler',
          '--sampling': 'profiler', '--bind': 'endpoint'}
MORE = {'sampling-interval': ['--sampling'], 'sampler': ['--sampling']}


def line(cmd, *opts):
    return [cmd] + list(opts) + (['statement()'] if cmd == 'timeit-profile'
                                 else [PROG])


def arrived(w, argv, name):
    """What arrives for an option: a value, or None for 'not known'."""
    found = []
    for s, exc, evs in w.run(list(argv)):
        if is_usage_error(w, s, exc):
            found.append((s, 'refused'))
            continue
        if side(evs) == 'parent':
            continue
        got = effects(w, s, exc, evs).get(name)
        if name == 'spawn':
            got = got and got[0]
        found.append((s, got))
    return found


@rule('C55', 'the default which the help of an option names is what is used '
      'when the option is not given')
def told_defaults(cx):
    w = Cli(cx)
    for cmd in COMMANDS[:-1]:
        loc = func_site(w.I, '__main__.' + cmd.replace('-', '_'))
        for names, text, p in options_of(w, cmd):
            name = [EFFECT[n] for n in names if n in EFFECT]
            if not name or text is None and '--signum' not in names:
                continue
            what = '%s %s' % (cmd, names[-1])
            if text is None:
                cx.ob(what, None, 'the help is not known', loc)
                continue
            got = arrived(w, line(cmd, *MORE.get(name[0], ())), name[0])
            m = re.search(r'\(default: ([^)]*?)\)', text)
            if m:
                for s, v in got:
                    cx.ob(what, told(m.group(1), v), 'the help says %s, used '
                          'is %s' % (m.group(1), value_show(v)), loc)
            elif '(default)' in text:
                mine = arrived(w, line(cmd, names[-1]), name[0])
                for s, v in got:
                    ok = None if v is None or not mine or any(
                        x[1] is None for x in mine) else all(
                            compare(x[1], v) for x in mine)
                    cx.ob(what, ok, 'the help says this is the default, used '
                          'is %s' % value_show(v), loc)


def told(text, v):
    """Whether a text names a value; None if that is not known."""
    if v is None or v == 'refused':
        return None
    word = text.split()[0] if text.split() else ''
    if v[0] == 'x' and v[1].startswith('signal.SIG'):
        n = getattr(signal, v[1][7:], None)
        return None if n is None else word in (
            str(int(n)), v[1][7:]) or getattr(signal, word, None) == n
    if not is_c(v):
        return None
    if not isinstance(v[2], (int, float)):
        return word == str(v[2])
    try:
        n = float(word)
    except ValueError:
        return False
    digits = len(word.partition('.')[2])
    return abs(n - v[2]) <= 0.5 * 10 ** -digits * 1.000001


@rule('C55', 'every choice which the help of an option lists is accepted and '
      'selects what has its name')
def told_choices(cx):
    w = Cli(cx)
    seen = 0
    for cmd in COMMANDS[:-1]:
        loc = func_site(w.I, '__main__.' + cmd.replace('-', '_'))
        for names, text, p in options_of(w, cmd):
            name = [EFFECT[n] for n in names if n in EFFECT]
            m = re.search(r'\((\w+(?:\|\w+)+)\)', text or '')
            if not name or not m:
                continue
            got = {}
            for word in m.group(1).split('|'):
                seen += 1
                what = '%s %s %s' % (cmd, names[-1], word)
                for s, v in arrived(w, line(cmd, *MORE.get(
                        name[0], []) + [names[-1], word]), name[0]):
                    cx.ob(what, None if v is None else v != 'refused',
                          'the help offers it and it is refused', loc)
                    if v is not None and v != 'refused':
                        got.setdefault(word, v)
            words = sorted(got)
            for i, a in enumerate(words):
                for b in words[i + 1:]:
                    cx.ob('%s %s %s and %s' % (cmd, names[-1], a, b),
                          got[a] != got[b], 'are the same: %s' %
                          value_show(got[a]), loc)
            for a in words:
                if isinstance(got[a], str) and a != 'basic':
                    cx.ob('%s %s %s: which' % (cmd, names[-1], a),
                          got[a].lower().startswith(a), 'is %s' % got[a],
                          loc)
    cx.ob('choices', True if seen else None, 'none is listed')


@rule('C55', 'an option whose help says "Ignored." changes nothing')
def ignored(cx):
    w = Cli(cx)
    for cmd in COMMANDS[:-1]:
        loc = func_site(w.I, '__main__.' + cmd.replace('-', '_'))
        for names, text, p in options_of(w, cmd):
            if not text or not text.startswith('Ignored'):
                continue
            for n in names:
                for argv in (line(cmd, n), [cmd, 'statement()', n]):
                    what = 'profiling ' + ' '.join(argv)
                    for s, exc, evs in w.run(argv):
                        xs = execs(evs)
                        cx.ob(what, not is_usage_error(w, s, exc) and (
                            None if not xs else 'statement()' in
                            repr(xs[-1].args[0])),
                            'the statement is not run', loc)


def node_of(I, q):
    """The source of a top-level function of the package."""
    mod, __, name = q.rpartition('.')
    for n in I.modules['profiling.' + mod].tree.body:
        if isinstance(n, ast.FunctionDef) and n.name == name:
            return n
    raise Anchor(q)


@rule('C55', 'the endpoint which the help of remote-profile names is the '
      'default one')
def told_endpoint(cx):
    w = Cli(cx)
    I = w.I
    q = '__main__.remote_profile'
    loc = func_site(I, q)
    text = ast.get_docstring(node_of(I, q)) or ''
    for names, h, p in options_of(w, 'remote-profile'):
        if '--bind' in names:
            text += ' ' + (h or '')
    said = set(re.findall(r'(\d+\.\d+\.\d+\.\d+):(\d+)', text))
    for host, port in sorted(said):
        for s, v in arrived(w, line('remote-profile'), 'endpoint'):
            cx.ob('remote-profile: %s:%s' % (host, port), compare(
                T(C(host), C(int(port))), v), 'listens on %s' %
                value_show(v), loc)
    if not said:
        cx.ob('remote-profile', True)


SIGNALS = (('SIG_DFL', 0), ('SIG_IGN', 1), ('SIG_BLOCK', 0), ('SIG_UNBLOCK',
           1), ('SIG_SETMASK', 2), ('SIGHUP', 1), ('SIGINT', 2),
           ('SIGKILL', 9), ('SIGUSR1', 10), ('SIGUSR2', 12), ('SIGTERM', 15),
           ('NSIG', 65), ('ITIMER_REAL', 0), ('ITIMER_PROF', 2))


@rule('C55', 'a signal is named by a name which selects it: SIGUSR2 and no '
      'SIG_DFL, and one without a name by its number')
def signal_names(cx):
    w = Cli(cx)
    I = w.I
    loc = func_site(I, '__main__.SignalNumber.name_of')
    for order in (1, -1):
        for name, n in SIGNALS + ((None, 42), (None, 99)):
            if name is not None and not (name.startswith('SIG') and
                                         '_' not in name):
                if name in ('SIG_SETMASK', 'NSIG'):
                    name = None if n not in dict((v, k) for k, v in SIGNALS
                                                 if '_' not in k and
                                                 k != 'NSIG') else 'SIGINT'
                else:
                    continue
            I.steps = 0
            st = I.start_state()
            known = {C('__name__'): C('signal'),
                     C('signal'): X('signal.signal')}
            for k, v in SIGNALS[::order]:
                known[C(k)] = C(v)
            d = I.new(st, HObj('dict', known=known))
            I.const_override['signal.__dict__'] = d
            cls = cx.cls(I, '__main__.SignalNumber')
            try:
                outs = snippet(cx, I, st, 'out = SignalNumber.name_of(n)',
                               {'SignalNumber': cls, 'n': C(n)})
            finally:
                del I.const_override['signal.__dict__']
            for s, v, exc in outs:
                what = 'signal %d' % n
                if exc is not None:
                    cx.ob(what, None if exc[0] == 'uexc' else False,
                          'raises ' + exc_text(s, exc), loc)
                    continue
                out = normal(v['out'])
                cx.ob(what, out == C(name or str(n)) or (
                    False if is_c(out) else None), 'is called %s' %
                    show(out), loc)


@rule('C55', '--help of every command names the program, every option and '
      'every value, and runs nothing')
def helped(cx):
    w = Cli(cx)
    for cmd in COMMANDS + (None,):
        loc = func_site(w.I, '__main__.' + cmd.replace('-', '_')) \
            if cmd else w.loc
        argv = [cmd] * (cmd is not None) + ['--help']
        what = 'profiling ' + ' '.join(argv)
        for s, exc, evs in w.run(argv):
            cls = exc_class(s, exc)
            ended = cls is not None and 'Exit' in repr(cls)
            told_ = [e for e in evs if e.k == 'call' and
                     e.fn == '_analysis.help']
            cx.ob(what, bool(told_) or (
                False if exc is None or exc[0] != 'uexc' else None),
                'no help but %s' % (exc_text(s, exc) if exc is not None
                                    else 'nothing'), loc)
            cx.ob(what + ': nothing else', not execs(evs) and not starts(
                evs), 'something is run', loc)
            for e in told_:
                text = normal(e.args[0])
                if not is_c(text):
                    cx.ob(what + ': text', None, show(text)[:100], loc)
                    continue
                usage = text[2].split('\n')[0]
                if cmd in COMMANDS[:3]:
                    cx.ob(what + ': usage', usage == '[OPTIONS] SCRIPT [--] '
                          '[ARGV]...', 'is %r' % usage, loc)
                elif cmd == 'view':
                    cx.ob(what + ': usage', 'SOURCE' in usage,
                          'is %r' % usage, loc)
                elif cmd == 'timeit-profile':
                    cx.ob(what + ': usage', 'STATEMENT' in usage, 'is %r' % usage, loc)
