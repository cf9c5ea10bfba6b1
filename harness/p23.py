"""P23: profiling a program always ends with its result."""
import os
import sys

from harness.cli import Cli, directory
from harness.common import Frame, Harness, code_sort
from harness.world import Node, compare


class Custom(BaseException):
    pass


ENDS = ['returns', 'error', 'exit', 'interrupt', 'other', 'syntax error at run time']
MESSAGE = 'the message of the error'


def end_with(how):
    if how == 'error':
        raise ValueError(MESSAGE)
    if how == 'exit':
        raise SystemExit(3)
    if how == 'interrupt':
        raise KeyboardInterrupt(MESSAGE)
    if how == 'other':
        raise Custom(MESSAGE)
    if how == 'syntax error at run time':
        raise SyntaxError(MESSAGE)


class Program(object):
    """The profiled program: a symbolic history of calls, then its end."""

    def __init__(self, ctx, cli, sampling, events, ends, ncodes, moves=False):
        self.ctx, self.cli, self.sampling = ctx, cli, sampling
        self.events, self.ends, self.moves = events, ends, moves
        self.ncodes = ncodes
        self.want = Node()
        self.runs = 0
        self.how = None

    def event(self, frame, kind, path):
        cli = self.cli
        if self.sampling:
            cli.handler(27, frame)
        elif cli.hooks.sys is not None:
            cli.hooks.sys(frame, kind, None)
        if self.sampling or kind == 'call':
            self.want.path(self.ctx, path).calls += 1

    def __call__(self):
        ctx, cli = self.ctx, self.cli
        self.runs += 1
        if self.runs > 1:
            return
        frame = sys._getframe(1)
        p = cli.profilers[-1]
        ctx.check(p.is_running(), 'the program runs under a running profiler')
        ctx.check((cli.handler if self.sampling else cli.hooks.sys) is not None,
                  'the program runs under a running profiler')
        if self.sampling and p.base_frame is not None:
            # the signal may come while the command itself executes
            cli.handler(27, p.base_frame)
            ctx.cover('sample of the command')
        module = frame.f_code
        self.event(frame, 'call', (module,))
        if self.events and not self.sampling and cli.hooks.threading is not None and \
                ctx.pick('a thread', [False, True]):
            # a thread that runs already: the call of its first function was not seen
            chain = [ctx.ref(code_sort(ctx), 'code', self.ncodes) for _ in range(2)]
            inner = Frame(chain[1], Frame(chain[0], None))
            cli.hooks.threading(inner, 'call', None)
            self.want.path(ctx, chain).calls += 1
            ctx.cover('a thread')
        stack = [frame]
        for _ in range(self.events):
            what = ctx.pick('event', [0, 1, 2] if len(stack) > 1 else [0, 1])
            if what == 0:
                break
            if what == 2:
                self.event(stack[-1], 'return', [f.f_code for f in stack[1:]])
                stack.pop()
                continue
            code = ctx.ref(code_sort(ctx), 'code', self.ncodes)
            stack.append(Frame(code, stack[-1]))
            self.event(stack[-1], 'call', [f.f_code for f in stack[1:]])
            ctx.cover('a call')
        if self.moves:
            os.mkdir('elsewhere')
            os.chdir('elsewhere')
        self.how = ctx.pick('end', self.ends)
        ctx.cover(self.how)
        end_with(self.how)


def outcome(ctx, cli, program, dump, path, protocol, mono, title, exc, interrupted):
    """The part common to the commands."""
    ctx.check(exc is None, 'the command survives the end of the program', repr(exc))
    ctx.check(program.runs >= 1, 'the program has run')
    p = cli.profilers[-1]
    ctx.check(not p.is_running(), 'the profiler is stopped')
    if program.how in ('error', 'interrupt', 'other', 'syntax error at run time'):
        ctx.check(MESSAGE in cli.err, 'the error is printed')
        ctx.check(cli.err.count(MESSAGE) - cli.err.count('raise ') < 2, 'printed once')
    elif program.how == 'returns':
        ctx.check(cli.err == '', 'no error is printed without one', cli.err)
    if dump:
        ctx.check(cli.loops == [], 'the viewer is not opened when the result is saved')
        ctx.check(len(cli.pickled) == 1, 'saved once')
        got = cli.saved(path)
        ctx.check(got is not None, 'saved to the requested file')
        (cls, result), used = got
        ctx.check(cls is type(p), 'saved with the type of the profiler')
        ctx.check(used == protocol, 'saved with the requested protocol')
        stats = result[0]
        ctx.check(os.path.basename(path) in cli.out, 'the file is named')
        ctx.cover('saved')
    else:
        ctx.check(cli.pickled == [], 'nothing is saved when the viewer is opened')
        ctx.check(len(cli.loops) == 1 and cli.loops[0].ran == 1, 'the viewer is opened once')
        loop = cli.loops[0]
        ctx.check(loop.mono == mono, 'colours as requested')
        viewer = loop.viewer
        table = viewer.table
        ctx.check(type(table) is p.table_class, 'the viewer shows the right table')
        stats = table.get_focus()[1].get_root().get_value()
        ctx.check(table.title == title, 'the viewer names the program', table.title)
        ctx.cover('viewed')
    compare(ctx, program.want, stats, False)


def profile(ctx, events, ends, ncodes, moves):
    """profiling profile [options] SCRIPT, or -c COMMAND"""
    with directory() as here:
        sampling = ctx.pick('sampling', [False, True])
        cli = Cli(ctx)
        program = Program(ctx, cli, sampling, events, ends, ncodes,
                          moves=moves and ctx.pick('the program changes directory', [False, True]))
        dump = ctx.pick('save', [False, True])
        script = ctx.pick('script file', [False, True])
        args = ['profile']
        protocol = cli.main.remote.PICKLE_PROTOCOL
        mono = interrupted = False
        if sampling:
            args += ['--sampling']
        if dump:
            args += ['-d', 'result.prof']
            if ctx.pick('protocol is given', [False, True]):
                protocol = ctx.conc(ctx.int('protocol', 0, 4))
                args += ['--pickle-protocol', str(protocol)]
        else:
            mono = ctx.pick('mono', [False, True])
            args += ['--mono'] if mono else []
            interrupted = ctx.pick('viewer is interrupted', [False, True])
        title = '<string>'
        if script:
            with open(os.path.join(here, 'script.py'), 'w') as f:
                f.write('vt_program()\n')
            args += ['--', 'script.py', '-x', 'y']
            title = 'script.py'
        else:
            args += ['-c', 'vt_program()']

        def check_running(loop):
            ctx.check(not cli.profilers[-1].is_running(), 'stopped before it is reported')
            if interrupted:
                raise KeyboardInterrupt
        cli.on_loop = check_running
        cli.on_err = lambda: ctx.check(not any(p.is_running() for p in cli.profilers),
                                       'stopped before the error is printed')
        dumps = cli.dumps

        def check_stopped(obj, protocol=None, **k):
            ctx.check(not cli.profilers[-1].is_running(), 'stopped before it is reported')
            return dumps(obj, protocol)
        cli.dumps = check_stopped
        with cli.program(program):
            exc = cli.run(args)
        if script:
            ctx.check(cli.argv == ['script.py', '-x', 'y'], 'the program gets its arguments')
        outcome(ctx, cli, program, dump, os.path.join(here, 'result.prof'), protocol, mono,
                title, exc, interrupted)
        ctx.check(program.runs == 1, 'the program runs once')
        ctx.observe('runs', program.runs)
        ctx.observe('how', program.how)


def timeit(ctx, most, ends):
    """profiling timeit -n N STATEMENT"""
    with directory() as here:
        cli = Cli(ctx)
        n = ctx.conc(ctx.int('number', 1, most))
        program = Program(ctx, cli, False, 1, ends, 1)
        dump = ctx.pick('save', [False, True])
        args = ['timeit', '-n', str(n), '-s', 'x = 1']
        if dump:
            args += ['-d', 'result.prof']
        args += ['x; vt_program()']
        with cli.program(program):
            exc = cli.run(args)
        outcome(ctx, cli, program, dump, os.path.join(here, 'result.prof'),
                cli.main.remote.PICKLE_PROTOCOL, False, 'x; vt_program()', exc, False)
        ctx.check(program.runs == (n if program.how == 'returns' else 1),
                  'the statement runs as often as requested')
        ctx.observe('runs', program.runs)


HARNESSES = [
    Harness('profile', profile,
            {'quick': dict(events=2, ends=ENDS, ncodes=4, moves=True),
             'thorough': dict(events=3, ends=ENDS, ncodes=5, moves=True)},
            covers=tuple(ENDS) + ('saved', 'viewed', 'a call', 'sample of the command', 'a thread'),
            bound_text='`profiling profile` with a script or -c, either profiler, saving or '
                       'viewing, any protocol; 0..events calls and returns, then each of the '
                       'ways to end; the program may change its directory'),
    Harness('timeit', timeit,
            {'quick': dict(most=3, ends=ENDS), 'thorough': dict(most=6, ends=ENDS)},
            covers=('saved', 'viewed', 'returns', 'error', 'exit'),
            bound_text='`profiling timeit -n N` for N <= most'),
]
ASSUMPTIONS = ['click, runpy and the terminal loop are not modelled: the first two run as they '
               'are, the loop is a stand-in',
               'the program does not take the profiler away from the process itself']
