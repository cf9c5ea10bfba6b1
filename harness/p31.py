"""P31: the program that is profiled is the one the command line names."""
import importlib
import os
import sys

import click

from harness.cli import Cli, directory
from harness.common import Clock, Code, Frame, Harness
from harness.p25 import FakeSocket, Spies, Stream
from symex.loader import FakeModule

FILES = {
    'script.py': 'vt_program()\n',
    'sub/other.py': 'vt_program()\n',
    'vtmodule.py': 'vt_program()\n',
    'vtpackage/__init__.py': '',
    'vtpackage/__main__.py': 'from . import inner\nvt_program()\n',
    'vtpackage/inner.py': 'if __name__ == "__main__": vt_program()\n',
    'vtempty/__init__.py': '',
    'broken.py': 'vt_program()\nif\n',
    'vtbroken.py': 'vt_program()\nif\n',
}
#: kind: (what names it, the file, __package__)
GOOD = {
    'script': (['script.py'], 'script.py', None),
    'script elsewhere': (['sub/other.py'], 'sub/other.py', None),
    'module': (['-m', 'vtmodule'], 'vtmodule.py', ''),
    'package': (['-m', 'vtpackage'], 'vtpackage/__main__.py', 'vtpackage'),
    'submodule': (['-m', 'vtpackage.inner'], 'vtpackage/inner.py', 'vtpackage'),
    'command': (['-c', 'vt_program()'], None, None),
    'command of lines': (['-c', 'x = 1\nif x:\n    vt_program()\n'], None, None),
}
BAD = {
    'nothing': [],
    'both': ['-m', 'vtmodule', '-c', 'vt_program()'],
    'no such script': ['missing.py'],
    'no such module': ['-m', 'vtmissing'],
    'no such submodule': ['-m', 'vtpackage.missing'],
    'package without a main module': ['-m', 'vtempty'],
    'broken script': ['broken.py'],
    'broken module': ['-m', 'vtbroken'],
    'broken command': ['-c', 'vt_program(); if'],
}
USAGE = ['nothing', 'both', 'no such script', 'no such module', 'no such submodule',
         'package without a main module']
ARGS = ['a', '-m', '--dump', '--', '-c', 'b c', '']


def clean():
    for name in [n for n in sys.modules if n.startswith('vt') and
                 n.partition('.')[0] in ('vtmodule', 'vtpackage', 'vtempty', 'vtbroken')]:
        del sys.modules[name]
    for path in ('', '.', os.curdir):
        sys.path_importer_cache.pop(path, None)
    importlib.invalidate_caches()


class Here(object):
    """The scratch directory, with sys.path as it is in the process."""

    def __enter__(self):
        self.d = directory()
        self.path = self.d.__enter__()
        self.sys_path = list(sys.path)
        for name, text in FILES.items():
            if os.path.dirname(name) and not os.path.isdir(os.path.dirname(name)):
                os.mkdir(os.path.dirname(name))
            with open(name, 'w') as f:
                f.write(text)
        clean()
        return self.path

    def __exit__(self, *exc):
        clean()
        sys.path[:] = self.sys_path
        return self.d.__exit__(*exc)


def program(ctx, kinds, commands, most):
    """profiling [profile|live|remote] PROGRAM [ARGV]"""
    with Here() as here:
        spies = []
        import socket
        fake_os = FakeModule('os', os, fork=lambda: 0, pipe=lambda: (100, 101),
                             close=lambda fd: None, dup2=lambda *a: None,
                             open=lambda *a: 102, kill=lambda *a: None)
        cli = Cli(ctx, path=sys.path, os=fake_os, socket=FakeModule(
            'socket', socket, socket=lambda *a: FakeSocket(spies[0]),
            socketpair=lambda *a: (FakeSocket(spies[0]), FakeSocket(spies[0]))),
            sys=dict(stdin=Stream(0), stdout=Stream(1), stderr=Stream(2)))
        spies.append(Spies(ctx, cli))
        seen = []

        def vt_program():
            frame = sys._getframe(1)
            seen.append(dict(
                name=frame.f_globals.get('__name__'), file=frame.f_globals.get('__file__'),
                package=frame.f_globals.get('__package__'), code=frame.f_code.co_filename,
                argv=list(cli.argv)))
            # what the program defines is its own
            frame.f_globals['vt_mark'] = 1
            ctx.check(not hasattr(cli.main, 'vt_mark') and
                      not hasattr(sys.modules['__main__'], 'vt_mark'),
                      'the program has its own namespace')
        command = ctx.pick('command', commands)
        args = [command] if command else []
        kind = ctx.pick('program', kinds)
        good = kind in GOOD
        named = GOOD[kind][0] if good else BAD[kind]
        argv = [ctx.pick('argument', ARGS)
                for _ in range(ctx.pick('arguments', list(range(most + 1))))] \
            if good else []
        plain = not any(a.startswith('-') for a in argv)
        if plain and ctx.pick('--', [False, True]) is False:
            args += named + argv
        else:
            args += named + ['--'] + argv
        with cli.program(vt_program):
            exc = cli.run(args)
        if not good:
            ctx.check(exc is not None or args in ([], ['--']), 'refused')
            if kind in USAGE and exc is not None:
                ctx.check(isinstance(exc, click.ClickException), 'refused with a message',
                          repr(exc))
            ctx.check(not seen, 'no program runs')
            ctx.check(not any(p.is_running() for p in cli.profilers) and not cli.hooks.log,
                      'no profiler is started')
            ctx.cover('refused')
            return
        ctx.check(exc is None, 'it runs', repr(exc))
        ctx.check(len(seen) == 1, 'the program runs exactly once')
        got = seen[0]
        ctx.check(got['name'] == '__main__', 'it is the main program', repr(got))
        ctx.check(got['argv'][1:] == argv, 'it gets exactly its arguments', repr(got['argv']))
        path, package = GOOD[kind][1:]
        if path:
            want = os.path.join(here, path)
            for part in (got['file'], got['code'], got['argv'][0]):
                ctx.check(os.path.realpath(os.path.join(here, part)) == want,
                          'it knows its file', repr(got))
        ctx.check((got['package'] or None) == (package or None), 'it knows its package',
                  repr(got))
        ctx.cover(kind)
        ctx.observe('argv', got['argv'][1:])


STATEMENTS = ['vt_program(); x', 'x\nvt_program()', 'if x:\n    vt_program()\n    x',
              'vt_program()\nvt_program.again()', 's = """a\nb"""; vt_program(s)', 'def f():\n'
              '  vt_program()\nf()']


def timeit(ctx, most, trials):
    """profiling timeit [-n NUMBER] [-s SETUP] STATEMENT"""
    with directory():
        now = [1000.0]
        log = []
        import time
        read = lambda *a: now[0]
        cli = Cli(ctx, timeit=FakeModule('timeit', __import__('timeit'),
                                         default_timer=Clock(read), time=Clock(read)))
        # whatever clock it reads
        for name in ('time', 'clock', 'perf_counter', 'monotonic', 'process_time'):
            ctx.fakes['time'].__dict__[name] = Clock(read)
        cli.main.time = ctx.fakes['time']
        n = ctx.pick('number', [None] + list(range(1, most + 1)))
        stmt = ctx.pick('statement', STATEMENTS)
        costs = [ctx.time('cost', 0, 100) for _ in range(trials)] if n is None else []
        for c in costs:
            # readings of a real clock are not exact
            ctx.assume(ctx.or_(c < 0.2 - 1e-6, c > 0.2 + 1e-6))
        if costs:
            ctx.assume(costs[-1] > 0.2)
        starts = [sum(10 ** k for k in range(1, x + 1)) for x in range(trials)]
        outer = Frame(Code(0), None)

        def vt_program(text=None):
            if text is None:
                ctx.check(sys._getframe(1).f_globals.get('_') == 'mine',
                          'the statement sees what the setup has defined')
            if text == 'setup':
                ctx.check(not any(p.is_running() for p in cli.profilers),
                          'the setup is not profiled')
                log.append('setup')
                return 1
            if text is not None:
                ctx.check(text == 'a\nb', 'the statement as it is')
            runs = log.count('run')
            if n is None and runs in starts[:trials]:
                now[0] = now[0] + costs[starts.index(runs)]
            log.append('run')
            if cli.hooks.sys is not None:
                cli.hooks.sys(outer, 'call', None)
                cli.hooks.sys(outer, 'return', None)

        def again():
            log.append('again')
        vt_program.again = again
        args = ['timeit', '-d', 'result', '-s', 'x = vt_program("setup"); _ = "mine"']
        args += ['-n', str(n)] if n is not None else []
        with cli.program(vt_program):
            exc = cli.run(args + [stmt])
        ctx.check(exc is None, 'it runs', repr(exc))
        ctx.check(log[:1] == ['setup'] and log.count('setup') == 1,
                  'the setup is executed once, first')
        runs = log.count('run')
        if 'again' in stmt:
            ctx.check(log.count('again') == runs, 'the whole statement is repeated',
                      '%d and %d' % (runs, log.count('again')))
        if n is None:
            for x in range(trials):
                if costs[x] > 0.2:
                    break
            want = 10 ** (x + 1)
            tried = sum(10 ** (k + 1) for k in range(x + 1))
            ctx.check(runs - tried == want,
                      'the number is the least power of ten that takes long enough',
                      '%d runs, %d of them trials' % (runs, tried))
            ctx.cover('%d trials' % (x + 1))
        else:
            want = n
            ctx.check(runs == n, 'as often as requested', '%d runs' % runs)
            ctx.cover('number')
        stats = cli.profilers[-1].stats
        ctx.check(sum(s.own_hits for s in stats) == want,
                  'the result is that of the statement only')
        ctx.observe('runs', runs)


HARNESSES = [
    Harness('program', program,
            {'quick': dict(kinds=sorted(GOOD), most=2,
                           commands=[None, 'profile', 'live-profile', 'remote-profile']),
             'thorough': dict(kinds=sorted(GOOD), most=3,
                              commands=[None, 'profile', 'live-profile', 'live',
                                        'remote-profile', 'remote'])},
            covers=tuple(GOOD),
            bound_text='scripts, modules, packages and commands; up to `most` arguments'),
    Harness('refused', program,
            {'quick': dict(kinds=sorted(BAD), most=0,
                           commands=[None, 'profile', 'live-profile', 'live',
                                     'remote-profile', 'remote'])},
            covers=('refused',), bound_text='what does not name a program'),
    Harness('timeit', timeit,
            {'quick': dict(most=4, trials=3), 'thorough': dict(most=12, trials=4)},
            covers=('number', '1 trials', '2 trials', '3 trials'),
            bound_text='`timeit` with 1..most or no number; any durations of the trials, the '
                       'last of `trials` long enough; statements of one or several lines'),
]
ASSUMPTIONS = ['click, runpy and the import system run as they are',
               'the clock advances only while the statement runs']
