"""The command line interface, run as it is (click itself is not symbolic).

What the commands do to the process outside is replaced: the hooks, the signals, the
terminal loop, and pickle (which is observed).
"""
import contextlib
import io
import os
import shutil
import sys
import tempfile

from harness.common import NullFormat, base_env
from symex.loader import FakeModule


class Cli(object):

    def __init__(self, ctx, **fakes):
        self.ctx = ctx
        self.profilers = []
        self.loops = []
        self.pickled = []
        self.out = self.err = ''
        self.argv, self.path = ['prog'], fakes.pop('path', [''])
        self.on_loop = lambda loop: None
        self.on_err = lambda: None
        self.handlers = {}
        self.itimer = (0.0, 0.0)
        import importlib
        import pickle
        import signal
        fakes.setdefault('signal', FakeModule(
            'signal', signal, **dict(
                {n: v for n, v in signal.__dict__.items() if not n.startswith('__')},
                signal=self.set_signal, setitimer=self.set_itimer)))
        self.loop_events = fakes.pop('event_loop', None) or (lambda: object())
        loads = fakes.pop('loads', None)
        loads = dict(loads=loads) if loads else {}
        self.hooks = base_env(
            ctx, sys=dict(argv=self.argv, path=self.path, **fakes.pop('sys', {})),
            importlib=FakeModule('importlib', importlib, import_module=self.import_module),
            pickle=FakeModule('pickle', pickle, dump=self.dump,
                              dumps=lambda *a, **k: self.dumps(*a, **k), **loads),
            **fakes)
        self.main = ctx.load('profiling.__main__')
        self.profiler = ctx.load('profiling.profiler')
        self.viewer = ctx.load('profiling.viewer')
        self.viewer.fmt = NullFormat()
        for name in ('tracing', 'sampling'):
            ctx.load('profiling.' + name).fmt = self.viewer.fmt
        self.main.read_config.ctx_and_config = (None, None)
        self.spy()

    # stand-ins
    def set_signal(self, signum, handler):
        import signal
        old = self.handlers.get(int(signum), signal.SIG_DFL)
        self.handlers[int(signum)] = handler
        return old

    @property
    def handler(self):
        """What handles SIGPROF."""
        return self.handlers.get(27)

    def set_itimer(self, which, delay, interval=0.0):
        old, self.itimer = self.itimer, (delay, interval)
        return old

    def import_module(self, name, package=None):
        return self.ctx.load(name)

    def dumps(self, obj, protocol=None, **k):
        self.pickled.append((obj, protocol))
        return b'<pickle %d>' % (len(self.pickled) - 1)

    def dump(self, obj, f, protocol=None, **k):
        f.write(self.dumps(obj, protocol))

    def saved(self, path):
        """What the file holds: (object, protocol), or None."""
        try:
            with open(path, 'rb') as f:
                data = f.read()
        except IOError:
            return None
        for i in range(len(self.pickled)):
            if data == b'<pickle %d>' % i:
                return self.pickled[i]
        return None

    def spy(self):
        real = self.profiler.Profiler.__init__
        profilers = self.profilers

        def __init__(p, *args, **kwargs):
            profilers.append(p)
            return real(p, *args, **kwargs)
        self.profiler.Profiler.__init__ = __init__
        cli = self

        class Loop(object):
            def __init__(self, viewer):
                self.viewer, self.mono, self.ran = viewer, False, 0
                self.screen = self
                self.event_loop = cli.loop_events()

            def set_terminal_properties(self, colors=None, *a, **k):
                self.mono = colors == 1

            def run(self):
                self.ran += 1
                cli.on_loop(self)

        def loop(viewer, *args, **kwargs):
            self.loops.append(Loop(viewer))
            return self.loops[-1]
        self.viewer.StatisticsViewer.loop = loop

    @contextlib.contextmanager
    def program(self, f):
        """Scripts reach f as `vt_program()`."""
        import builtins
        places = [builtins.__dict__, self.ctx.loader.builtins]
        for b in places:
            b['vt_program'] = f
        try:
            yield
        finally:
            for b in places:
                b.pop('vt_program', None)

    def run(self, args):
        """Runs the command; returns what it ended with (None if it returned)."""
        cli = self

        class Err(io.StringIO):
            def write(self, s):
                cli.on_err()
                return io.StringIO.write(self, s)
        out, err = io.StringIO(), Err()
        exc = None
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                self.main.cli.main(args, prog_name='profiling', standalone_mode=False)
            except Exception as e:
                exc = e
            except SystemExit as e:
                exc = e
            except KeyboardInterrupt as e:
                exc = e
        self.out, self.err = out.getvalue(), err.getvalue()
        return exc


@contextlib.contextmanager
def directory():
    """A scratch directory to run in."""
    old = os.getcwd()
    path = os.path.realpath(tempfile.mkdtemp(prefix='vt-cli-'))
    os.chdir(path)
    try:
        yield path
    finally:
        os.chdir(old)
        shutil.rmtree(path, ignore_errors=True)
