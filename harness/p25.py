"""P25: option values mean what the command line says they mean."""
import os
import signal

import click

from harness.cli import Cli, directory
from harness.common import Harness
from symex.loader import FakeModule

REJECTED = (ValueError, click.ClickException)


def char_in(ctx, c, chars):
    return ctx.or_(*[c == x for x in chars])


def is_digit(ctx, c):
    return ctx.and_(c >= '0', c <= '9')


def endpoint(ctx, length):
    """HOST:PORT of any characters."""
    cli = Cli(ctx)
    n = ctx.pick('length', list(range(1, length + 1)))
    text = ctx.text('endpoint', n)
    kind = cli.main.Endpoint()
    exc, got = None, None
    try:
        got = kind.convert(text, None, None)
    except REJECTED as e:
        exc = e
    # the definition: one colon; behind it an integer in ASCII digits
    chars = [text[i] for i in range(n)]
    colons = [c == ':' for c in chars]
    at = None
    for i in range(n):
        if ctx.and_(colons[i], *[ctx.not_(x) for j, x in enumerate(colons) if j != i]):
            at = i
    if at == 0:
        return                  # no host: nothing is promised
    plain = at is not None and at < n - 1
    if plain:
        for i, c in enumerate(chars[at + 1:]):
            if is_digit(ctx, c) or (i == 0 and at + 2 < n and char_in(ctx, c, '+-')):
                continue
            plain = False
            break
    if plain:
        ctx.check(exc is None, 'an endpoint is accepted', repr(exc))
        host, port = got
        ctx.check(ctx.eq(host, text[:at]), 'the host')
        ctx.check(port == number(ctx, chars[at + 1:]), 'the port')
        ctx.cover('accepted')
        return
    # int() takes spaces around a number and underscores in it as well: either will do
    if at is not None and any(char_in(ctx, c, ' _') for c in chars[at + 1:]):
        if exc is None:
            ctx.check(any(is_digit(ctx, c) for c in chars[at + 1:]), 'a port has digits')
        return
    ctx.check(exc is not None, 'anything else is rejected')
    ctx.cover('rejected')


def number(ctx, chars):
    value, neg = 0, False
    for c in chars:
        if c == '-':
            neg = True
        elif c == '+':
            pass
        else:
            for d in range(10):
                if c == str(d):
                    value = value * 10 + d
                    break
    return -value if neg else value


def shown(ctx, ports):
    """What is printed for an endpoint denotes that endpoint."""
    cli = Cli(ctx)
    host = ctx.pick('host', ['localhost', '127.0.0.1', '', 'a-b.c'])
    port = ctx.int('port', 0, 65535)
    if ctx.symbolic:
        text = cli.main.get_title((host, port), 'tcp')
        parts = ctx.number_in(text)
        ctx.check(len(parts) >= 1, 'the port is printed')
        value, digits = parts[-1]
        ctx.check(digits == 0 and value == port, 'the port is printed')
        rest = text[:text.rindex('\x00')]
        ctx.check(rest == host + ':', 'the host is printed')
    else:
        text = cli.main.get_title((host, port), 'tcp')
        ctx.check(cli.main.Endpoint().convert(text, None, None) == (host, port),
                  'the port is printed')
    # a small port as it is, through both functions
    small = ctx.conc(ctx.int('small port', 0, ports))
    again = cli.main.Endpoint().convert(cli.main.get_title((host, small), 'tcp'), None, None)
    ctx.check(again == (host, small), 'what is printed denotes the endpoint')
    ctx.cover('printed')


def known_signals():
    return {n: int(v) for n, v in signal.__dict__.items()
            if n.startswith('SIG') and not n.startswith('SIG_') and n.isupper() and
            isinstance(v, int)}


def upper(ctx, c):
    """An ASCII letter in upper case (other characters as they are)."""
    return c.upper()


def matches(ctx, text, name):
    """Whether text is that name in any case."""
    if len(text) != len(name):
        return False
    tests = []
    for i, x in enumerate(name):
        if x.isalpha():
            tests.append(ctx.or_(text[i] == x.upper(), text[i] == x.lower()))
        else:
            tests.append(text[i] == x)
    return ctx.and_(*tests)


def signum(ctx, length):
    """A signal of any characters."""
    cli = Cli(ctx)
    n = ctx.pick('length', list(range(1, length + 1)))
    text = ctx.text('signal', n)
    exc, got = None, None
    try:
        got = cli.main.SignalNumber().convert(text, None, None)
    except REJECTED as e:
        exc = e
    chars = [text[i] for i in range(n)]
    if ctx.and_(*[is_digit(ctx, c) for c in chars]):
        ctx.check(exc is None, 'a number is accepted')
        ctx.check(got == number_term(ctx, chars), 'a number is that number')
        ctx.cover('number')
        return
    known = known_signals()
    for name, value in sorted(known.items()):
        for form in (name, name[3:]):
            if len(form) == n and matches(ctx, text, form):
                ctx.check(exc is None, 'a known signal is accepted', repr(exc))
                ctx.check(int(got) == value, 'a name is that signal')
                ctx.cover('name')
                return
    ctx.check(exc is not None, 'anything else is rejected')
    ctx.cover('rejected')


def number_term(ctx, chars):
    if not ctx.symbolic:
        return int(''.join(chars))
    import z3
    from symex.text import SymStr, code
    from symex.values import SymInt
    e = z3.IntVal(0)
    for c in chars:
        e = e * 10 + (code(SymStr.of(c).c[0]) - 48)
    return SymInt(e)


def signal_names(ctx, most):
    """What is printed for a signal denotes that signal."""
    cli = Cli(ctx)
    sig = cli.main.SignalNumber
    # as a number
    n = ctx.int('any number', 0, 1000)
    ctx.check(ctx.eq(sig().convert(n, None, None), n), 'a number is taken as it is')
    k = ctx.conc(ctx.int('signal number', 0, most))
    text = sig.name_of(k)
    ctx.check(int(sig().convert(text, None, None)) == k, 'what is printed denotes the signal')
    known = known_signals()
    ctx.check((k in known.values()) == (text in known), 'a known signal is printed by its name')
    ctx.cover('name' if text in known else 'number')


CLASSES = {'timer': {'basic': 'Timer', 'thread': 'ThreadTimer', 'greenlet': 'GreenletTimer'},
           'sampler': {'itimer': 'ItimerSampler', 'tracing': 'TracingSampler'}}


def classes(ctx, length):
    """--timer and --sampler of any characters."""
    cli = Cli(ctx)
    which = ctx.pick('option', ['timer', 'sampler'])
    m = cli.main
    if which == 'timer':
        kind = m.Class([m.timers], m.timers.Timer, 'basic')
        mod = m.timers
    else:
        kind = m.Class([m.samplers], m.samplers.Sampler)
        mod = m.samplers
    n = ctx.pick('length', list(range(1, length + 1)))
    text = ctx.text('value', n)
    exc, got = None, None
    try:
        got = kind.convert(text, None, None)
    except REJECTED as e:
        exc = e
    for name, cls in sorted(CLASSES[which].items()):
        if len(name) != n or not matches(ctx, text, name):
            continue
        if ctx.eq(text, name):
            ctx.check(exc is None, 'the documented values are accepted')
        if exc is None:
            ctx.check(got is getattr(mod, cls), 'a value names its class')
            ctx.cover(name)
        return
    ctx.check(exc is not None, 'anything else is rejected')
    ctx.cover('rejected')


class Stop(Exception):
    pass


class Spies(object):
    """What the commands hand over to the rest of the package."""

    def __init__(self, ctx, cli):
        self.ctx, self.cli = ctx, cli
        self.seen = {}
        m = cli.main
        spies = self

        class Background(m.BackgroundProfiler):
            def prepare(self):
                spies.seen['signum'] = int(self.signum)

        class Server(object):
            def __init__(self, listener, profiler, interval=None, log=None,
                         pickle_protocol=None):
                spies.seen.update(interval=interval, protocol=pickle_protocol)
                self.clients = set()

            def serve_forever(self):
                pass

            def connected(self, client):
                pass

        def spawn(mode, func, *args, **kwargs):
            spies.seen['spawn'] = mode
        spawn.modes = m.spawn.modes

        class Client(object):
            def __init__(self, viewer, event_loop, addr=None, family=None, title=None, **k):
                spies.seen['addr'] = addr

            def start(self):
                pass
        m.BackgroundProfiler = Background
        m.SelectProfilingServer = Server
        m.FailoverProfilingClient = Client
        m.spawn = spawn

    def program(self):
        p = self.cli.profilers[-1]
        self.seen['profiler'] = type(p).__name__
        for part in ('timer', 'sampler'):
            x = getattr(p, part, None)
            self.seen[part] = type(x).__name__
            if part == 'sampler' and x is not None:
                self.seen['sampling-interval'] = x.interval
        self.seen['ran'] = self.seen.get('ran', 0) + 1


class FakeSocket(object):

    def __init__(self, spies, *a):
        self.spies = spies

    def bind(self, addr):
        self.spies.seen['addr'] = addr

    def fileno(self):
        return 200

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


class Stream(object):

    def __init__(self, n):
        self.n = n

    def fileno(self):
        return self.n

    def write(self, s):
        pass

    def flush(self):
        pass


# option: (commands, command line, [(text, meaning)...], default)
NUMBERS = [('3', 3), ('0.25', 0.25), ('1e-2', 0.01)]
OPTIONS = {
    'interval': ('live remote', '--interval', NUMBERS, 1),
    'sampling-interval': ('profile live remote', '--sampling-interval', NUMBERS, 0.001),
    'pickle-protocol': ('profile live remote', '--pickle-protocol', [('0', 0), ('2', 2),
                                                                     ('4', 4)], None),
    'timer': ('profile live remote', '--timer', [('basic', 'Timer'), ('thread', 'ThreadTimer')],
              'Timer'),
    'sampler': ('profile live remote', '--sampler',
                [('itimer', 'ItimerSampler'), ('tracing', 'TracingSampler')], 'ItimerSampler'),
    'profiler': ('profile live remote', None,
                 [('tracing', 'TracingProfiler'), ('sampling', 'SamplingProfiler')],
                 'TracingProfiler'),
    'spawn': ('live remote', '--spawn', [('threading', 'threading'), ('gevent', 'gevent'),
                                         ('eventlet', 'eventlet')], None),
    'signum': ('live remote', '--signum', [('USR1', int(signal.SIGUSR1)),
                                           ('sigalrm', int(signal.SIGALRM)), ('12', 12)],
               int(signal.SIGUSR2)),
    'endpoint': ('remote view', '--bind', [('localhost:1234', ('localhost', 1234)),
                                           ('10.0.0.1:80', ('10.0.0.1', 80))],
                 ('127.0.0.1', 8912)),
}


def sources(ctx, options, values):
    """One option in the files and on the command line."""
    option = ctx.pick('option', options)
    commands, flag, forms, default = OPTIONS[option]
    command = ctx.pick('command', commands.split())
    forms = forms[:values]
    with directory():
        import socket
        spies = []
        closed = []
        fake_os = FakeModule('os', os, fork=lambda: 0, pipe=lambda: (100, 101),
                             close=closed.append, dup2=lambda a, b: None,
                             open=lambda *a: 102, kill=lambda *a: None)
        cli = Cli(ctx, os=fake_os, socket=FakeModule(
            'socket', socket, socket=lambda *a: FakeSocket(spies[0]),
            socketpair=lambda *a: (FakeSocket(spies[0]), FakeSocket(spies[0]))))
        cli.ctx.fakes['sys'].__dict__.update(stdin=Stream(0), stdout=Stream(1), stderr=Stream(2))
        spies.append(Spies(ctx, cli))
        seen = spies[0].seen
        given = {}
        for source in ('setup.cfg', '.profiling', 'command line'):
            given[source] = ctx.pick(source, [None] + forms)
        for source in ('setup.cfg', '.profiling'):
            text = '[other]\nx = 1\n'
            if given[source]:
                text += '[profiling]\n%s = %s\n' % (option, given[source][0])
            elif ctx.pick('file %s is there' % source, [False, True]):
                text += '[profiling]\n'
            else:
                continue
            with open(source, 'w') as f:
                f.write(text)
        args = [command]
        if option in ('sampler', 'sampling-interval'):
            args.append('--sampling')
        if option == 'timer':
            args.append('--tracing')
        line = given['command line']
        if line:
            if option == 'profiler':
                args.append('--' + line[0])
            elif command == 'view':
                args.append(line[0])
            elif ctx.pick('form of the option', ['apart', 'joined']) == 'apart':
                args += [flag, line[0]]
            else:
                args.append(flag + '=' + line[0])
        if command == 'profile':
            args += ['-d', 'result']
        if command != 'view':
            args += ['-c', 'vt_program()']
        with cli.program(spies[0].program):
            exc = cli.run(args)
        ctx.check(exc is None, 'the values are accepted', repr(exc))
        want = default
        for source in ('setup.cfg', '.profiling', 'command line'):
            if given[source]:
                want = given[source][1]
        if command != 'view':
            ctx.check(seen.get('ran') == 1, 'the program runs')
        if option == 'pickle-protocol':
            if want is None:
                want = cli.main.remote.PICKLE_PROTOCOL
            got = seen['protocol'] if command != 'profile' else cli.saved('result')[1]
        elif option == 'endpoint':
            got = seen.get('addr')
        else:
            got = seen.get(option)
            if option == 'spawn' and got is None and want is None:
                got = None
        ctx.check(got == want, 'the value of the source that counts',
                  '%s: %r instead of %r' % (option, got, want))
        ctx.observe(option, got if not isinstance(got, tuple) else list(got))
        ctx.cover(option)
        for source in given:
            if given[source]:
                ctx.cover(source)


def again(ctx, runs):
    """Several commands in one process; the files change in between."""
    option = ctx.pick('option', ['interval', 'sampling-interval', 'timer'])
    _, flag, forms, default = OPTIONS[option]
    with directory():
        import socket
        spies = []
        cli = Cli(ctx, socket=FakeModule('socket', socket,
                                         socket=lambda *a: FakeSocket(spies[0])))
        spies.append(Spies(ctx, cli))
        seen = spies[0].seen
        for i in range(runs):
            want, args = default, ['remote']
            for source in ('setup.cfg', '.profiling'):
                value = ctx.pick(source, [None] + forms[:2])
                if value is not None:
                    want = value[1]
                if value is not None or i:
                    with open(source, 'w') as f:
                        f.write('[profiling]\n')
                        if value is not None:
                            f.write('%s = %s\n' % (option, value[0]))
                            ctx.cover('run %d' % (i + 1))
            if option == 'sampling-interval':
                args.append('--sampling')
            with cli.program(spies[0].program):
                exc = cli.run(args + ['-c', 'vt_program()'])
            ctx.check(exc is None, 'the values are accepted', repr(exc))
            ctx.check(seen[option] == want, 'the value the files have now',
                      '%s: %r instead of %r' % (option, seen[option], want))
            ctx.observe(option, seen[option])


HARNESSES = [
    Harness('endpoint', endpoint, {'quick': dict(length=5), 'thorough': dict(length=7)},
            covers=('accepted', 'rejected'),
            bound_text='every string of 1..length characters of printable ASCII'),
    Harness('shown', shown, {'quick': dict(ports=20), 'thorough': dict(ports=200)},
            covers=('printed',),
            bound_text='every port; some hosts'),
    Harness('signal', signum, {'quick': dict(length=9), 'thorough': dict(length=11)},
            covers=('number', 'name', 'rejected'),
            bound_text='every string of 1..length characters of printable ASCII'),
    Harness('signal names', signal_names, {'quick': dict(most=80), 'thorough': dict(most=250)},
            covers=('name', 'number'), bound_text='every number up to the bound'),
    Harness('classes', classes, {'quick': dict(length=9), 'thorough': dict(length=12)},
            covers=('rejected', 'basic', 'thread', 'greenlet', 'itimer', 'tracing'),
            bound_text='every string of 1..length characters of printable ASCII'),
    Harness('again', again, {'quick': dict(runs=2), 'thorough': dict(runs=3)},
            covers=('run 1', 'run 2'),
            bound_text='`runs` commands in one process, the files differ from run to run'),
    Harness('sources', sources,
            {'quick': dict(options=sorted(OPTIONS), values=2),
             'thorough': dict(options=sorted(OPTIONS), values=3)},
            covers=tuple(OPTIONS) + ('setup.cfg', '.profiling', 'command line'),
            bound_text='one option at a time: every command that has it, every combination of '
                       'sources with `values` values'),
]
ASSUMPTIONS = ['texts are of printable ASCII', 'click and ConfigParser run as they are; what '
               'reaches them is concrete (the values of `sources` are representatives)']
