"""An analysis-only model of click 7: what a command line becomes.

Nothing here runs.  It is read by the interpreter in place of the library.  A
command line is a list of arguments; an option with its value may be given as
a tuple.
"""
import _analysis

_stack = []


class ClickException(Exception):
    exit_code = 1

    def __init__(self, message=None):
        self.message = message


class UsageError(ClickException):
    exit_code = 2

    def __init__(self, message=None, ctx=None):
        self.message = message
        self.ctx = ctx


class BadParameter(UsageError):

    def __init__(self, message=None, ctx=None, param=None, param_hint=None):
        self.message = message
        self.ctx = ctx
        self.param = param


class MissingParameter(BadParameter):
    pass


class NoSuchOption(UsageError):
    pass


class BadOptionUsage(UsageError):
    pass


class BadArgumentUsage(UsageError):
    pass


class FileError(ClickException):
    pass


class Abort(RuntimeError):
    pass


class Exit(RuntimeError):

    def __init__(self, code=0):
        self.exit_code = code


# types

class ParamType(object):
    is_composite = False
    name = None

    def __call__(self, value, param=None, ctx=None):
        if value is not None:
            return self.convert(value, param, ctx)

    def get_metavar(self, param):
        pass

    def convert(self, value, param, ctx):
        return value

    def fail(self, message, param=None, ctx=None):
        raise BadParameter(message, ctx=ctx, param=param)


class _Unprocessed(ParamType):
    name = 'text'


class _String(ParamType):
    name = 'text'


class _Int(ParamType):
    name = 'integer'

    def convert(self, value, param, ctx):
        try:
            return int(value)
        except ValueError:
            self.fail('not a valid integer', param, ctx)


class _Float(ParamType):
    name = 'float'

    def convert(self, value, param, ctx):
        try:
            return float(value)
        except ValueError:
            self.fail('not a valid floating point value', param, ctx)


class _Bool(ParamType):
    name = 'boolean'

    def convert(self, value, param, ctx):
        if isinstance(value, bool):
            return value
        value = value.lower()
        if value in ('true', 't', '1', 'yes', 'y'):
            return True
        elif value in ('false', 'f', '0', 'no', 'n'):
            return False
        self.fail('not a valid boolean', param, ctx)


class _Func(ParamType):

    def __init__(self, func):
        self.func = func

    def convert(self, value, param, ctx):
        try:
            return self.func(value)
        except ValueError:
            self.fail('not valid', param, ctx)


STRING = _String()
UNPROCESSED = _Unprocessed()
INT = _Int()
FLOAT = _Float()
BOOL = _Bool()


class Choice(ParamType):
    name = 'choice'

    def __init__(self, choices, case_sensitive=True):
        self.choices = choices
        self.case_sensitive = case_sensitive

    def convert(self, value, param, ctx):
        if value in self.choices:
            return value
        self.fail('invalid choice', param, ctx)


class IntRange(_Int):

    def __init__(self, min=None, max=None, clamp=False):
        self.min = min
        self.max = max
        self.clamp = clamp

    def convert(self, value, param, ctx):
        rv = _Int.convert(self, value, param, ctx)
        if self.clamp:
            if self.min is not None and rv < self.min:
                return self.min
            if self.max is not None and rv > self.max:
                return self.max
        if self.min is not None and rv < self.min or \
                self.max is not None and rv > self.max:
            self.fail('not in the range', param, ctx)
        return rv


class File(ParamType):
    name = 'filename'

    def __init__(self, mode='r', encoding=None, errors='strict', lazy=None,
                 atomic=False):
        self.mode = mode

    def convert(self, value, param, ctx):
        return _Opened(value, self.mode)


class _Opened(object):

    def __init__(self, name, mode):
        self.name = name
        self.mode = mode

    def read(self):
        return _analysis.source(self.name, self.mode)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc_info):
        pass


class Path(ParamType):
    name = 'path'

    def __init__(self, exists=False, file_okay=True, dir_okay=True,
                 writable=False, readable=True, resolve_path=False,
                 allow_dash=False, path_type=None):
        self.exists = exists
        self.resolve_path = resolve_path

    def convert(self, value, param, ctx):
        if self.resolve_path:
            return _analysis.realpath(value)
        return value


def _type_of(type, default):
    guessed = False
    if type is None and default is not None:
        for t in (bool, int, float):
            if isinstance(default, t):
                type = t
                break
        guessed = True
    if isinstance(type, ParamType):
        return type
    if type is None or type is str:
        return STRING
    if type is int:
        return INT
    if type is float:
        return FLOAT
    if type is bool:
        return BOOL
    if guessed:
        return STRING
    return _Func(type)


# parameters

class Parameter(object):
    is_flag = False
    is_bool_flag = False
    multiple = False

    def __init__(self, param_decls=None, type=None, required=False,
                 default=None, callback=None, nargs=None, metavar=None,
                 expose_value=True, is_eager=False, envvar=None,
                 autocompletion=None):
        self.declare(param_decls or ())
        self.type = _type_of(type, default)
        self.required = required
        self.default = default
        self.callback = callback
        self.nargs = 1 if nargs is None else nargs
        self.metavar = metavar
        self.expose_value = expose_value
        self.is_eager = is_eager

    def make_metavar(self):
        if self.metavar is not None:
            return self.metavar
        metavar = self.type.get_metavar(self)
        if metavar is None:
            metavar = self.type.name.upper()
        if self.nargs != 1:
            metavar += '...'
        return metavar

    def get_usage_pieces(self, ctx):
        return []

    def get_help_record(self, ctx):
        pass

    def get_default(self, ctx):
        value = self.default
        if callable(value):
            value = value()
        return self.type_cast_value(ctx, value)

    def type_cast_value(self, ctx, value):
        if self.nargs != 1 or self.multiple:
            return tuple([self.type(x, self, ctx) for x in value or ()])
        return self.type(value, self, ctx)

    def full_process_value(self, ctx, value):
        if value is not None:
            value = self.type_cast_value(ctx, value)
        if value is None:
            value = self.get_default(ctx)
        if self.required and (value is None or self.nargs != 1 and
                              value == ()):
            raise MissingParameter(ctx=ctx, param=self)
        return value

    def handle_parse_result(self, ctx, opts, args):
        value = self.full_process_value(ctx, opts.get(self.name))
        if self.callback is not None:
            value = self.callback(ctx, self, value)
        if self.expose_value:
            ctx.params[self.name] = value
        return value, args


class Option(Parameter):

    def __init__(self, param_decls=None, show_default=False, prompt=False,
                 confirmation_prompt=False, hide_input=False, is_flag=None,
                 flag_value=None, multiple=False, count=False,
                 allow_from_autoenv=True, type=None, help=None, hidden=False,
                 show_choices=True, show_envvar=False, **attrs):
        missing = 'default' not in attrs
        Parameter.__init__(self, param_decls, type=type, **attrs)
        if is_flag is None:
            is_flag = flag_value is not None
        if is_flag and missing:
            self.default = False
        if flag_value is None:
            flag_value = not self.default
        self.is_flag = is_flag
        self.flag_value = flag_value
        if is_flag and isinstance(flag_value, bool) and (
                type is None or type is bool):
            self.type = BOOL
            self.is_bool_flag = True
        self.count = count
        if count:
            if type is None:
                self.type = INT
            if missing:
                self.default = 0
        self.multiple = multiple
        self.help = help

    def declare(self, decls):
        self.opts = []
        self.secondary_opts = []
        name = None
        best = ''
        for decl in decls:
            if decl.startswith('-'):
                for i, part in enumerate(decl.split('/')):
                    part = part.strip()
                    if i:
                        self.secondary_opts.append(part)
                        continue
                    self.opts.append(part)
                    dashes = len(part) - len(part.lstrip('-'))
                    if dashes > len(best) - len(best.lstrip('-')):
                        best = part
            else:
                if name is not None:
                    raise TypeError('Name defined twice')
                name = decl
        if name is None:
            name = best.lstrip('-').replace('-', '_').lower()
        self.name = name

    def get_help_record(self, ctx):
        names = ', '.join(self.opts)
        if not self.is_flag and not self.count:
            names += ' ' + self.make_metavar()
        return names, self.help or ''

    def get_default(self, ctx):
        if self.is_flag and not self.is_bool_flag:
            for param in ctx.command.params:
                if param.name == self.name and bool(param.default):
                    return param.flag_value
            return None
        return Parameter.get_default(self, ctx)


class Argument(Parameter):

    def __init__(self, param_decls, required=None, **attrs):
        if required is None:
            if attrs.get('default') is not None:
                required = False
            else:
                required = attrs.get('nargs', 1) > 0
        Parameter.__init__(self, param_decls, required=required, **attrs)

    def declare(self, decls):
        self.opts = []
        self.secondary_opts = []
        self.name = decls[0].replace('-', '_').lower()

    def make_metavar(self):
        if self.metavar is not None:
            return self.metavar
        var = self.type.get_metavar(self)
        if not var:
            var = self.name.upper()
        if not self.required:
            var = '[%s]' % var
        if self.nargs != 1:
            var += '...'
        return var

    def get_usage_pieces(self, ctx):
        return [self.make_metavar()]


def _declare(f, param):
    if isinstance(f, Command):
        f.params.append(param)
    else:
        if not hasattr(f, '__click_params__'):
            f.__click_params__ = []
        f.__click_params__.append(param)


def option(*param_decls, **attrs):
    def decorator(f):
        kwargs = dict(attrs)
        cls = kwargs.pop('cls', None) or Option
        _declare(f, cls(param_decls, **kwargs))
        return f
    return decorator


def argument(*param_decls, **attrs):
    def decorator(f):
        kwargs = dict(attrs)
        cls = kwargs.pop('cls', None) or Argument
        _declare(f, cls(param_decls, **kwargs))
        return f
    return decorator


def version_option(version=None, *param_decls, **attrs):
    def callback(ctx, param, value):
        if value:
            raise Exit(0)
    def decorator(f):
        return option(*(param_decls or ('--version',)), is_flag=True,
                      expose_value=False, is_eager=True,
                      callback=callback)(f)
    return decorator


def _with_context(f, once):
    def called(*args, **kwargs):
        return f(get_current_context(), *args, **kwargs)
    called.__click_params__ = getattr(f, '__click_params__', [])
    called.__name__ = f.__name__
    return called


def pass_context(f):
    return _with_context(f, None)


# contexts

class Context(object):

    def __init__(self, command, parent=None, info_name=None, obj=None,
                 **settings):
        self.command = command
        self.parent = parent
        self.info_name = info_name
        self.params = {}
        self.args = []
        self.protected_args = []
        self.obj = obj if parent is None or obj is not None else parent.obj
        self.invoked_subcommand = None
        self.resilient_parsing = False
        self.closers = []

    def __enter__(self):
        _stack.append(self)
        return self

    def __exit__(self, *exc_info):
        _stack.pop()

    def call_on_close(self, f):
        self.closers.append(f)
        return f

    def find_root(self):
        node = self
        while node.parent is not None:
            node = node.parent
        return node

    def fail(self, message):
        raise UsageError(message, self)

    def abort(self):
        raise Abort()

    def exit(self, code=0):
        raise Exit(code)

    def invoke(self, callback, *args, **kwargs):
        if isinstance(callback, Command):
            callback = callback.callback
        return callback(*args, **kwargs)


def get_current_context(silent=False):
    if _stack:
        return _stack[-1]
    if silent:
        return None
    raise RuntimeError('There is no active click context.')


# commands

def _show_help(ctx, param, value):
    if value:
        _analysis.help(ctx.command.get_help(ctx))
        raise Exit(0)


class Command(object):
    allow_interspersed_args = True
    ignore_unknown_options = False

    def __init__(self, name, context_settings=None, callback=None,
                 params=None, help=None, epilog=None, short_help=None,
                 options_metavar='[OPTIONS]', add_help_option=True,
                 no_args_is_help=False, hidden=False, deprecated=False):
        self.name = name
        self.context_settings = context_settings or {}
        for key in ('ignore_unknown_options', 'allow_interspersed_args'):
            if key in self.context_settings:
                setattr(self, key, self.context_settings[key])
        self.callback = callback
        self.params = params or []
        self.help = help
        self.options_metavar = options_metavar
        self.help_options = []
        if add_help_option:
            self.help_options = [Option(
                ['--help'], is_flag=True, is_eager=True, expose_value=False,
                callback=_show_help, help='Show this message and exit.')]

    def get_params(self, ctx):
        return self.params + self.help_options

    def get_usage(self, ctx):
        return ' '.join(self.collect_usage_pieces(ctx))

    def get_help(self, ctx):
        lines = [self.get_usage(ctx)]
        for param in self.get_params(ctx):
            record = param.get_help_record(ctx)
            if record is not None:
                lines.append(record[0] + '  ' + record[1])
        return '\n'.join(lines)

    def make_context(self, info_name, args, parent=None, **extra):
        ctx = Context(self, parent, info_name, **extra)
        with ctx:
            self.parse_args(ctx, args)
        return ctx

    def option_of(self, name):
        for param in self.get_params(None):
            if name in param.opts:
                return param, True
            if name in param.secondary_opts:
                return param, False
        return None, None

    def parse_args(self, ctx, args):
        opts = {}
        order = []
        rest = []
        args = list(args)
        while args:
            token = args.pop(0)
            if isinstance(token, tuple):
                name, value = token
                param, on = self.option_of(name)
                if param is None:
                    if self.ignore_unknown_options:
                        rest.append(token)
                        continue
                    raise NoSuchOption(name)
                self.store(opts, param, value)
                order.append(param)
                continue
            if not isinstance(token, str) or not token.startswith('-') or \
                    token == '-':
                rest.append(token)
                if not self.allow_interspersed_args:
                    break
                continue
            if token == '--':
                break
            name, value = token, None
            if token.startswith('--') and '=' in token:
                name, value = token.split('=', 1)
            param, on = self.option_of(name)
            if param is None and token.startswith('--'):
                if not self.ignore_unknown_options:
                    raise NoSuchOption(token)
                rest.append(token)
                continue
            if param is not None:
                self.given(param, on, value, opts, order, args)
                continue
            # several letters in one.
            unknown = ''
            for i in range(1, len(token)):
                param, on = self.option_of('-' + token[i])
                if param is None:
                    if not self.ignore_unknown_options:
                        raise NoSuchOption('-' + token[i])
                    unknown += token[i]
                    continue
                if param.count or param.is_flag:
                    self.given(param, on, None, opts, order, args)
                    continue
                value = token[i + 1:] or None
                self.given(param, on, value, opts, order, args)
                break
            if unknown:
                rest.append('-' + unknown)
        rest = rest + args
        params = self.get_params(ctx)
        for param in params:
            if not isinstance(param, Argument):
                continue
            order.append(param)
            if param.nargs < 0:
                opts[param.name] = tuple(rest)
                rest = []
            elif rest:
                opts[param.name] = rest.pop(0)
        for eager in (True, False):
            done = []
            for param in order + list(params):
                if param.is_eager is eager and not _among(done, param):
                    done.append(param)
                    param.handle_parse_result(ctx, opts, rest)
        ctx.args = rest
        if rest and not self.takes_more():
            raise UsageError('Got unexpected extra argument')

    def given(self, param, on, value, opts, order, args):
        order.append(param)
        if param.count or param.is_flag:
            if value is not None:
                raise BadOptionUsage(param.name)
            if param.count:
                opts[param.name] = opts.get(param.name, 0) + 1
            else:
                opts[param.name] = param.flag_value if on else False
        elif value is not None:
            self.store(opts, param, value)
        elif args:
            self.store(opts, param, args.pop(0))
        else:
            raise BadOptionUsage(param.name)

    def store(self, opts, param, value):
        if param.is_flag:
            raise BadOptionUsage(param.name)
        if param.multiple:
            opts.setdefault(param.name, []).append(value)
        else:
            opts[param.name] = value

    def takes_more(self):
        return False

    def collect_usage_pieces(self, ctx):
        pieces = [self.options_metavar]
        for param in self.get_params(ctx):
            pieces = pieces + param.get_usage_pieces(ctx)
        return pieces

    def invoke(self, ctx):
        if self.callback is not None:
            return self.callback(**ctx.params)

    def main(self, args=None, prog_name=None, complete_var=None,
             standalone_mode=True, **extra):
        with self.make_context(prog_name, args, **extra) as ctx:
            return self.invoke(ctx)

    def __call__(self, *args, **kwargs):
        return self.main(*args, **kwargs)


def _among(params, param):
    for p in params:
        if p is param:
            return True
    return False


class MultiCommand(Command):
    allow_interspersed_args = False

    def __init__(self, name=None, invoke_without_command=False,
                 no_args_is_help=None, subcommand_metavar=None, chain=False,
                 result_callback=None, **attrs):
        Command.__init__(self, name, **attrs)
        self.invoke_without_command = invoke_without_command
        self.subcommand_metavar = subcommand_metavar or 'COMMAND [ARGS]...'

    def collect_usage_pieces(self, ctx):
        return Command.collect_usage_pieces(self, ctx) + [
            self.subcommand_metavar]

    def takes_more(self):
        return True

    def parse_args(self, ctx, args):
        Command.parse_args(self, ctx, args)
        if ctx.args:
            ctx.protected_args = ctx.args[:1]
            ctx.args = ctx.args[1:]

    def resolve_command(self, ctx, args):
        cmd_name = args[0]
        cmd = self.get_command(ctx, cmd_name)
        if cmd is None:
            ctx.fail('No such command')
        return cmd_name, cmd, args[1:]

    def get_command(self, ctx, cmd_name):
        raise NotImplementedError()

    def invoke(self, ctx):
        if not ctx.protected_args:
            if self.invoke_without_command:
                return Command.invoke(self, ctx)
            ctx.fail('Missing command.')
        args = ctx.protected_args + ctx.args
        ctx.args = []
        ctx.protected_args = []
        with ctx:
            cmd_name, cmd, args = self.resolve_command(ctx, args)
            ctx.invoked_subcommand = cmd_name
            Command.invoke(self, ctx)
            sub_ctx = cmd.make_context(cmd_name, args, parent=ctx)
            with sub_ctx:
                return sub_ctx.command.invoke(sub_ctx)


class Group(MultiCommand):

    def __init__(self, name=None, commands=None, **attrs):
        MultiCommand.__init__(self, name, **attrs)
        self.commands = commands or {}

    def add_command(self, cmd, name=None):
        self.commands[name or cmd.name] = cmd

    def command(self, *args, **kwargs):
        def decorator(f):
            cmd = command(*args, **kwargs)(f)
            self.add_command(cmd)
            return cmd
        return decorator

    def group(self, *args, **kwargs):
        def decorator(f):
            cmd = group(*args, **kwargs)(f)
            self.add_command(cmd)
            return cmd
        return decorator

    def get_command(self, ctx, cmd_name):
        return self.commands.get(cmd_name)

    def list_commands(self, ctx):
        return sorted(self.commands)


def command(name=None, cls=None, **attrs):
    if cls is None:
        cls = Command

    def decorator(f):
        if isinstance(f, Command):
            raise TypeError('Attempted to convert a callback into a command '
                            'twice.')
        params = []
        if hasattr(f, '__click_params__'):
            params = f.__click_params__
            params.reverse()
            del f.__click_params__
        return cls(name=name or f.__name__.lower().replace('_', '-'),
                   callback=f, params=params, **attrs)
    return decorator


def group(name=None, **attrs):
    attrs.setdefault('cls', Group)
    return command(name, **attrs)


# the terminal

def echo(message=None, file=None, nl=True, err=False, color=None):
    _analysis.echo(message)


def secho(message=None, file=None, nl=True, err=False, color=None, **styles):
    _analysis.echo(message)


def style(text, *args, **kwargs):
    return text


def unstyle(text):
    return text
