"""Where the installed third-party packages of the repository live."""
import glob
import os
import sys

PYPY = '/opt/venv/bin/python'


def site_packages():
    for p in sorted(glob.glob('/opt/venv/lib/*/site-packages')):
        return p
    return None


def setup():
    p = site_packages()
    if p and p not in sys.path:
        sys.path.append(p)
    sys.dont_write_bytecode = True
    # keep the real package of the same name out of reach
    for k in ('PYTHONSTARTUP',):
        os.environ.pop(k, None)
    # the packages the repository is run with, not those of the tools
    if p and 'click' not in sys.modules:
        sys.path.insert(0, p)
        try:
            import click                                     # noqa: F401
            import click_default_group                       # noqa: F401
        except ImportError:
            pass
        finally:
            sys.path.remove(p)
            sys.path.append(p)
