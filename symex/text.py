"""Symbolic strings of a known length over printable ASCII (CPython + z3 only)."""
import z3

from symex import values as V
from symex.values import SymBool, SymInt, Unsupported, cur

SPACES = ' \t\n\v\f\r'


def code(c):
    """The z3 term of a character."""
    return z3.IntVal(ord(c)) if type(c) is str else c.e


def between(e, a, b):
    return z3.And(e >= ord(a), e <= ord(b))


class SymStr(object):
    """Each character is a str of length one, or a SymInt."""
    __slots__ = ('c',)
    __class__ = property(lambda self: str)

    def __init__(self, chars):
        self.c = tuple(chars)

    @staticmethod
    def of(x):
        if type(x) is SymStr:
            return x
        if type(x) is str:
            return SymStr(x)
        return None

    def plain(self):
        """A real str if every character is known."""
        if all(type(c) is str for c in self.c):
            return ''.join(self.c)
        return self

    def vt_len(self):
        return len(self.c)

    __len__ = vt_len

    def __bool__(self):
        return bool(self.c)

    def term(self, o):
        """z3 term of equality."""
        o = SymStr.of(o)
        if o is None or len(o.c) != len(self.c):
            return z3.BoolVal(False)
        return z3.And([code(a) == code(b) for a, b in zip(self.c, o.c)] or [z3.BoolVal(True)])

    def __eq__(self, o):
        return V._mk(z3.simplify(self.term(o)))

    def __ne__(self, o):
        return V.s_not(self == o)

    def __hash__(self):
        raise Unsupported('hash of a symbolic string')

    def _order(self, o, less, equal):
        o = SymStr.of(o)
        if o is None:
            return NotImplemented
        e = z3.BoolVal(equal if len(self.c) == len(o.c) else
                       (len(self.c) < len(o.c)) == less)
        for a, b in reversed(list(zip(self.c, o.c))):
            lt = code(a) < code(b) if less else code(a) > code(b)
            e = z3.Or(lt, z3.And(code(a) == code(b), e))
        return V._mk(z3.simplify(e))

    def __lt__(self, o): return self._order(o, True, False)
    def __le__(self, o): return self._order(o, True, True)
    def __gt__(self, o): return self._order(o, False, False)
    def __ge__(self, o): return self._order(o, False, True)

    def __add__(self, o):
        o = SymStr.of(o)
        if o is None:
            return NotImplemented
        return SymStr(self.c + o.c)

    def __radd__(self, o):
        o = SymStr.of(o)
        if o is None:
            return NotImplemented
        return SymStr(o.c + self.c)

    def __getitem__(self, i):
        r = self.c[i]
        if type(i) is slice:
            return SymStr(r).plain()
        return SymStr([r]).plain()

    def __iter__(self):
        return iter([SymStr([c]).plain() for c in self.c])

    def _at(self, sub, i):
        return SymStr(self.c[i:i + len(sub)]).term(sub)

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def find(self, sub, start=0, *a):
        if a:
            raise Unsupported('find with an end')
        for i in range(start, len(self.c) - len(sub) + 1):
            if cur().branch(self._at(sub, i)):
                return i
        return -1

    def rfind(self, sub):
        for i in range(len(self.c) - len(sub), -1, -1):
            if cur().branch(self._at(sub, i)):
                return i
        return -1

    def index(self, sub):
        i = self.find(sub)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rindex(self, sub):
        i = self.rfind(sub)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub):
        n = i = 0
        while True:
            i = self.find(sub, i)
            if i < 0:
                return n
            n += 1
            i += len(sub)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported('split at spaces')
        out, rest = [], self
        while maxsplit != 0:
            i = SymStr.of(rest).find(sep)
            if i < 0:
                break
            out.append(rest[:i])
            rest = rest[i + len(sep):]
            maxsplit -= 1
        return out + [rest]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported('split at spaces')
        out, rest = [], self
        while maxsplit != 0:
            i = SymStr.of(rest).rfind(sep)
            if i < 0:
                break
            out.insert(0, rest[i + len(sep):])
            rest = rest[:i]
            maxsplit -= 1
        return [rest] + out

    def partition(self, sep):
        i = self.find(sep)
        return (self, '', '') if i < 0 else (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        return ('', '', self) if i < 0 else (self[:i], sep, self[i + len(sep):])

    def startswith(self, p, *a):
        if a:
            raise Unsupported('startswith with a range')
        if type(p) is tuple:
            return V._mk(z3.simplify(z3.Or([V.zbool(self.startswith(x)) for x in p])))
        if len(p) > len(self.c):
            return False
        return V._mk(z3.simplify(self._at(p, 0)))

    def endswith(self, p):
        if type(p) is tuple:
            return V._mk(z3.simplify(z3.Or([V.zbool(self.endswith(x)) for x in p])))
        if len(p) > len(self.c):
            return False
        return V._mk(z3.simplify(self._at(p, len(self.c) - len(p))))

    def _map(self, f):
        return SymStr([SymInt(z3.simplify(f(code(c), i))) if type(c) is not str
                       else (c.upper() if f is _upper else c.lower()) if f in (_upper, _lower)
                       else SymInt(z3.simplify(f(code(c), i)))
                       for i, c in enumerate(self.c)])

    def upper(self):
        return self._map(_upper)

    def lower(self):
        return self._map(_lower)

    casefold = lower

    def title(self):
        out = []
        for i, c in enumerate(self.c):
            e = code(c)
            up, low = _upper(e), _lower(e)
            if i:
                out.append(SymInt(z3.simplify(z3.If(_alpha(code(self.c[i - 1])), low, up))))
            else:
                out.append(SymInt(z3.simplify(up)))
        return SymStr(out)

    def capitalize(self):
        return SymStr(self.upper().c[:1] + self.lower().c[1:])

    def swapcase(self):
        raise Unsupported('swapcase')

    def _strip(self, left, right, chars):
        chars = SPACES if chars is None else chars
        c = self.c
        while left and c and cur().branch(z3.Or([code(c[0]) == ord(x) for x in chars])):
            c = c[1:]
        while right and c and cur().branch(z3.Or([code(c[-1]) == ord(x) for x in chars])):
            c = c[:-1]
        return SymStr(c).plain()

    def strip(self, chars=None):
        return self._strip(True, True, chars)

    def lstrip(self, chars=None):
        return self._strip(True, False, chars)

    def rstrip(self, chars=None):
        return self._strip(False, True, chars)

    def _all(self, test):
        if not self.c:
            return False
        return V._mk(z3.simplify(z3.And([test(code(c)) for c in self.c])))

    def isdigit(self):
        return self._all(_digit)

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._all(_alpha)

    def isalnum(self):
        return self._all(lambda e: z3.Or(_alpha(e), _digit(e)))

    def isspace(self):
        return self._all(lambda e: z3.Or([e == ord(x) for x in SPACES]))

    def isascii(self):
        return True

    def replace(self, old, new, count=-1):
        return _joined(new, self.split(old, count))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def vt_int(self, base=10):
        """int() of the string."""
        if type(base) is not int or base < 0 or base == 1 or base > 36:
            raise Unsupported('int() in base %r' % (base,))
        s = SymStr.of(self.strip())
        c = list(s.c)
        branch = cur().branch
        bad = ValueError('invalid literal for int()')
        neg = False
        if c:
            if branch(code(c[0]) == ord('-')):
                neg, c = True, c[1:]
            elif branch(code(c[0]) == ord('+')):
                c = c[1:]
        last = False
        strict = base == 0          # no zeros in front of a number
        if base in (0, 2, 8, 16) and len(c) > 1 and branch(code(c[0]) == ord('0')):
            for b, x in ((16, 'xX'), (8, 'oO'), (2, 'bB')):
                if base in (0, b) and branch(z3.Or([code(c[1]) == ord(y) for y in x])):
                    base, c, strict = b, c[2:], False
                    if len(c) > 1 and branch(code(c[0]) == ord('_')):
                        c = c[1:]
                    break
        base = base or 10
        value = z3.IntVal(0)
        lead = None
        for x in c:
            e = code(x)
            digit, v = _digit(e), e - 48
            if base != 10:
                low = _lower(e)
                digit = between(e, '0', chr(47 + min(base, 10)))
                if base > 10:
                    digit = z3.Or(digit, between(low, 'a', chr(86 + base)))
                    v = z3.If(_digit(e), v, low - 87)
            if branch(digit):
                value, last = value * base + v, True
                if lead is None:
                    lead = e == 48
            elif last and branch(e == ord('_')):
                last = False
            else:
                raise bad
        if not last:
            raise bad
        if strict and branch(z3.And(lead, value != 0)):
            raise bad
        return SymInt(z3.simplify(-value if neg else value))

    def __format__(self, spec):
        return cur().token(self, spec)

    def __str__(self):
        return cur().token(self, 'str')

    __repr__ = __str__

    def lookup(self, names):
        """The one of the names this is, or None."""
        for n in names:
            if len(n) == len(self.c) and cur().branch(self.term(n)):
                return n
        return None


def _upper(e, i=0):
    return z3.If(between(e, 'a', 'z'), e - 32, e)


def _lower(e, i=0):
    return z3.If(between(e, 'A', 'Z'), e + 32, e)


def _alpha(e):
    return z3.Or(between(e, 'a', 'z'), between(e, 'A', 'Z'))


def _digit(e):
    return between(e, '0', '9')


def _joined(sep, parts):
    r = SymStr.of(parts[0])
    for p in parts[1:]:
        r = r + sep + p
    return r


def getattr_(obj, name, *default):
    if type(name) is not SymStr:
        if type(name) is str and '\x00' in name:
            raise Unsupported('attribute with a formatted name')
        return getattr(obj, name, *default)
    found = name.lookup(sorted(set(dir(obj))))
    if found is None:
        if default:
            return default[0]
        raise AttributeError('no attribute')
    return getattr(obj, found, *default)


def hasattr_(obj, name):
    if type(name) is not SymStr:
        return hasattr(obj, name)
    return name.lookup(sorted(set(dir(obj)))) is not None


def percent(fmt, args):
    """fmt % args with symbolic strings; None if the format is not covered."""
    parts = fmt.split('%s')
    if len(parts) != len(args) + 1 or any('%' in p for p in parts):
        return None
    r = SymStr(parts[0])
    for a, p in zip(args, parts[1:]):
        a = SymStr.of(a)
        if a is None:
            return None
        r = r + a + p
    return r
