"""Loads /repo/profiling modules from source, with stubbed environment modules.

In symbolic mode the AST is instrumented; in concrete mode the source is compiled
as it is.  Works on CPython 3.12 and PyPy 3.9.
"""
import ast
import builtins
import os
import sys
import types

from symex.base import REPO

_cache = {}
REAL_IMPORT = builtins.__import__
# PyPy ignores a module's own __builtins__: there, __import__ is replaced globally
# and acts only for modules this loader has made.
CUSTOM_BUILTINS = sys.implementation.name == 'cpython'


def _dispatch_import(name, globals=None, locals=None, fromlist=(), level=0):
    if globals is None:
        globals = sys._getframe(1).f_globals
    if globals is not None:
        f = globals.get('__vt_import__')
        if f is not None:
            return f(name, globals, locals, fromlist, level)
    return REAL_IMPORT(name, globals, locals, fromlist, level)


if not CUSTOM_BUILTINS:
    builtins.__import__ = _dispatch_import


class Instrument(ast.NodeTransformer):

    def __init__(self, modname):
        self.mod = modname
        self.stack = []

    def _name(self, s, node):
        return ast.copy_location(ast.Name(s, ast.Load()), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        # leave super()/locals()-like frame-dependent calls working: only the
        # callee expression is wrapped, the call stays in place.
        node.func = ast.copy_location(
            ast.Call(self._name('__vt_c__', node), [f], []), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if any(isinstance(o, (ast.Is, ast.IsNot)) for o in node.ops):
            # a is b is c  ->  vt_is(a, b) and vt_is(b, c)   (pure operands)
            parts, left = [], node.left
            if len(node.ops) == 1:
                c = self._is(node.ops[0], left, node.comparators[0], node)
                return c if c is not None else node
            for op, right in zip(node.ops, node.comparators):
                c = self._is(op, left, right, node)
                if c is None:
                    c = ast.copy_location(ast.Compare(left, [op], [right]), node)
                parts.append(c)
                left = right
            return ast.copy_location(ast.BoolOp(ast.And(), parts), node)
        return node

    def _is(self, op, a, b, node):
        if isinstance(op, ast.Is):
            fn = '__vt_is__'
        elif isinstance(op, ast.IsNot):
            fn = '__vt_isnot__'
        else:
            return None
        return ast.copy_location(
            ast.Call(self._name(fn, node), [a, b], []), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(
                ast.Call(self._name('__vt_mod__', node), [node.left, node.right], []),
                node)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        return node

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        q = '%s:%s' % (self.mod, '.'.join(self.stack))
        self.stack.pop()
        mark = ast.Expr(ast.Call(ast.Name('__vt_fn__', ast.Load()),
                                 [ast.Constant('%s@%d' % (q, node.lineno))], []))
        ast.copy_location(mark, node.body[0])
        ast.fix_missing_locations(mark)
        at = 0
        if (isinstance(node.body[0], ast.Expr) and
                isinstance(node.body[0].value, ast.Constant) and
                isinstance(node.body[0].value.value, str)):
            at = 1
        node.body.insert(at, mark)
        if node.name == '__hash__':
            node.decorator_list.append(self._name('__vt_hash__', node))
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node


def code_of(path, modname, symbolic, patch=None):
    key = (path, symbolic)
    if key not in _cache:
        with open(path, 'rb') as f:
            src = f.read()
        if patch is not None:
            src = patch(src)
        tree = ast.parse(src, path)
        if symbolic:
            tree = Instrument(modname).visit(tree)
            ast.fix_missing_locations(tree)
        _cache[key] = compile(tree, path, 'exec', dont_inherit=True)
    return _cache[key]


class FakeModule(types.ModuleType):
    """A stand-in for an environment module; unknown names fall back to `real`."""

    def __init__(self, name, real=None, **attrs):
        types.ModuleType.__init__(self, name)
        self.__dict__['_real'] = real
        self.__dict__.update(attrs)

    def __getattr__(self, name):
        real = self.__dict__.get('_real')
        if real is None:
            raise AttributeError(name)
        return getattr(real, name)


class Loader(object):

    ROOT = 'profiling'

    def __init__(self, ctx, symbolic, hooks=None):
        self.ctx, self.symbolic = ctx, symbolic
        self.modules = {}
        self.hooks = hooks or {}
        b = dict(builtins.__dict__)
        b['__import__'] = self.import_
        b.update(self.hooks)
        self.builtins = b
        self.blocked = {'profiling.speedup'}
        self.patches = {}
        if not symbolic:
            for k in list(sys.modules):
                if k == self.ROOT or k.startswith(self.ROOT + '.'):
                    del sys.modules[k]

    def path(self, name):
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            return os.path.join(base, '__init__.py'), True
        return base + '.py', False

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name in self.blocked:
            raise ImportError(name)
        path, pkg = self.path(name)
        if not os.path.exists(path):
            raise ImportError('No module named %s' % name)
        m = types.ModuleType(name)
        m.__file__ = path
        if CUSTOM_BUILTINS:
            m.__dict__['__builtins__'] = self.builtins
        else:
            m.__dict__['__vt_import__'] = self.import_
        m.__dict__.update(self.ctx.module_globals)
        if pkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition('.')[0]
        self.modules[name] = m
        if not self.symbolic:
            sys.modules[name] = m           # so that pickle finds its classes
        if name == self.ROOT:
            # executed lazily: only when one of its own names is asked for
            m.__class__ = LazyRoot
            m.__dict__['_loader_'] = self
            return m
        self._exec(m, path, name)
        parent = name.rpartition('.')[0]
        if parent in self.modules:
            setattr(self.modules[parent], name.rpartition('.')[2], m)
        return m

    def _exec(self, m, path, name):
        try:
            exec(code_of(path, name, self.symbolic, self.patches.get(name)),
                 m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        if name == self.ROOT or name.startswith(self.ROOT + '.'):
            m = self.load(name)
            for f in fromlist or ():
                if f != '*' and f not in m.__dict__:
                    try:
                        sub = self.load(name + '.' + f)
                    except ImportError:
                        if name + '.' + f in self.blocked:
                            raise
                        if not hasattr(m, f):
                            raise ImportError('cannot import name %r' % f)
                    else:
                        setattr(m, f, sub)
            if fromlist:
                return m
            return self.load(name.split('.')[0])
        fakes = self.ctx.fakes
        if name in fakes:
            if fromlist or '.' not in name:
                return fakes[name]
            top = name.split('.')[0]
            if top in fakes:
                return fakes[top]
        top = name.split('.')[0]
        if top in fakes and not fromlist and name not in fakes:
            return fakes[top]
        return REAL_IMPORT(name, globals, locals, fromlist, 0)


class LazyRoot(types.ModuleType):

    def __getattr__(self, name):
        if name.startswith('__') and name != '__version__':
            raise AttributeError(name)
        ld = self.__dict__['_loader_']
        if not self.__dict__.get('_done_'):
            self.__dict__['_done_'] = True
            path, _ = ld.path(ld.ROOT)
            ld._exec(self, path, ld.ROOT)
            if name in self.__dict__:
                return self.__dict__[name]
        raise AttributeError(name)
