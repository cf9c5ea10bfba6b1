"""P21: displayed numbers denote the measured values."""
from fractions import Fraction

from harness.common import Harness, base_env
from harness.viewing import Viewing

UNITS = {'': 1, 'k': 10 ** 3, 'M': 10 ** 6, 'G': 10 ** 9, 'T': 10 ** 12,
         'P': 10 ** 15, 'E': 10 ** 18, 'Z': 10 ** 21, 'Y': 10 ** 24}
#: Twice a binary64 rounding error for each arithmetic step of the formatter.
EPS = Fraction(1, 10 ** 12)


def load(ctx):
    base_env(ctx)
    return ctx.load('profiling.viewer')


def shown(ctx, viewer, name, *args, **kwargs):
    """The displayed text and its class, by any of the three ways."""
    how = ctx.pick('how', ['format', 'markup', 'make'])
    f = getattr(viewer.fmt, {'format': 'format_%s', 'markup': 'markup_%s',
                             'make': 'make_%s_text'}[how] % name)
    x = f(*args, **kwargs)
    if how == 'format':
        return x, 'not known'
    if how == 'markup':
        return x[1], x[0]
    text, attrs = x.get_text()
    return text, (attrs[0][0] if attrs else None)


def parts(ctx, text):
    """((value, digits), unit, (value, digits), unit, ...) of a text."""
    return ctx.number_in(text)


def near(ctx, value, unit, digits, x):
    """value * unit is x rounded to the digits."""
    x = ctx.exact(x)
    half = Fraction(unit) / 10 ** digits / 2 + abs(x) * EPS
    d = value * Fraction(unit) - x
    return ctx.and_(d <= half, -d <= half)


def count(ctx, lo, hi, na=False):
    viewer = load(ctx)
    n = ctx.int('n', lo, hi)
    text, cls = shown(ctx, viewer, 'int_or_na' if na else 'int', n)
    if cls != 'not known':
        ctx.check(ctx.eq(cls == 'zero', n == 0), 'marked zero exactly if it is')
    if na and text == 'n/a':
        ctx.check(n == 0, 'n/a only of zero')
        ctx.cover('n/a')
        return
    if na:
        ctx.check(ctx.not_(n == 0), 'zero is n/a')
    if text in ('o/f', 'u/f'):
        limit = Fraction(99995, 100) * UNITS['Y']
        ctx.check(ctx.exact(n) * (1 if text == 'o/f' else -1) >= limit * (1 - EPS),
                  'out of range only if it is')
        ctx.cover('out of range')
        return
    p = parts(ctx, text)
    ctx.check(len(p) in (1, 2) and type(p[0]) is tuple, 'a number', text)
    value, digits = p[0]
    unit = p[1] if len(p) == 2 else ''
    ctx.check(unit in UNITS, 'a known unit', text)
    ctx.check(near(ctx, value, UNITS[unit], digits, n), 'the value correctly rounded')
    ctx.check(ctx.and_(value < 1000, value > -1000), 'the right unit')
    if unit:
        ctx.check(ctx.or_(value >= 1, value <= -1), 'the right unit')
        ctx.check(digits >= 1, 'at least one decimal place')
    ctx.cover('unit ' + (unit or '1'))
    ctx.observe('text', text)


def count_or_na(ctx, lo, hi):
    count(ctx, lo, hi, True)


RANK = ['zero', 'usec', 'msec', 'sec', 'min']


def time(ctx, hi):
    viewer = load(ctx)
    sec = ctx.real('sec', 0, hi)
    text, cls = shown(ctx, viewer, 'time', sec)
    if cls != 'not known':
        want = ('zero' if sec == 0 else 'usec' if sec < 1e-3 else 'msec' if sec < 1 else
                'sec' if sec < 60 else 'min')
        ctx.check(cls == want, 'the class follows the thresholds')
    if text == '0':
        ctx.check(sec == 0, 'zero only if it is')
        ctx.cover('zero')
        return
    ctx.check(ctx.not_(sec == 0), 'zero is shown as such')
    p = parts(ctx, text)
    units = [x for x in p if type(x) is not tuple]
    nums = [x for x in p if type(x) is tuple]
    ctx.check(len(nums) == len(units) and type(p[0]) is tuple, 'a number and a unit', text)
    value, digits = nums[0]
    if units == ['m', 's']:
        s, sdigits = nums[1]
        ctx.check(digits == 0, 'whole minutes')
        ctx.check(near(ctx, value * 60 + s, 1, sdigits, sec), 'the value correctly rounded')
        ctx.check(ctx.and_(s < 60, s >= 0), 'less than a minute of seconds')
        ctx.check(ctx.and_(value >= 1, value < 10), 'the right unit')
    elif units == ['m']:
        x = ctx.exact(sec)
        ctx.check(digits == 0, 'whole minutes')
        # (to the half second that is shown below)
        ctx.check(ctx.and_(value * 60 <= x + Fraction(1, 2), value * 60 + 60 > x),
                  'whole minutes passed')
        ctx.check(value >= 10, 'the right unit')
    else:
        ctx.check(len(units) == 1 and units[0] in ('us', 'ms', 'sec'), 'a known unit', text)
        unit, below = {'us': (Fraction(1, 10 ** 6), 1000), 'ms': (Fraction(1, 1000), 1000),
                       'sec': (1, 60)}[units[0]]
        ctx.check(near(ctx, value, unit, digits, sec), 'the value correctly rounded')
        ctx.check(ctx.and_(value < below, value >= 0), 'the right unit')
        if units[0] != 'us':
            ctx.check(value >= 1, 'the right unit')
        if units[0] == 'sec':
            ctx.check(digits >= 1, 'at least one decimal place')
    ctx.cover(' '.join(units))
    ctx.observe('text', text)


def percent(ctx, hi):
    viewer = load(ctx)
    ratio = ctx.real('ratio', 0, hi)
    with_denom = ctx.choose('denominator', 3)
    unit = bool(ctx.choose('unit', 2))
    if with_denom == 0:
        text, cls = shown(ctx, viewer, 'percent', ratio, unit=unit)
        exact = ctx.exact(ratio)
    elif with_denom == 1:
        d = ctx.pick('denom', [1, 3, 1000, 0.25])
        text, cls = shown(ctx, viewer, 'percent', ratio, d, unit=unit)
        exact = ctx.exact(ratio) / Fraction(d)
    else:
        text, cls = shown(ctx, viewer, 'percent', ratio, ctx.pick('denom', [0, 0.0]), unit=unit)
        exact = ctx.exact(0)
        ctx.cover('share of nothing')
    p = parts(ctx, text)
    ctx.check(type(p[0]) is tuple and p[1:] == (['%'] if unit else []), 'a number', text)
    value, digits = p[0]
    ctx.check(near(ctx, value, Fraction(1, 100), digits, exact), 'the value correctly rounded')
    # three digits, as documented
    ctx.check(ctx.or_(value >= 99, digits >= 1), 'a decimal place below 99 %')
    ctx.check(ctx.or_(value >= 9, digits >= 2), 'two decimal places below 9 %')
    ctx.cover('%d decimal places' % digits)
    ctx.observe('text', text)


CLASSES = ['zero', None, 'notice', 'warning', 'caution', 'danger']


def classes(ctx):
    """Classes of ratios follow the thresholds, hence monotonically."""
    viewer = load(ctx)
    ratio = ctx.real('ratio', 0, 1000)
    cls = viewer.fmt.attr_ratio(ratio)
    want = ('danger' if ratio > 0.9 else 'caution' if ratio > 0.7 else
            'warning' if ratio > 0.3 else 'notice' if ratio > 0.1 else
            'zero' if ratio == 0 else None)
    ctx.check(cls == want, 'the class follows the thresholds')
    other = ctx.real('other', 0, 1000)
    ctx.assume(other >= ratio)
    cls2 = viewer.fmt.attr_ratio(other, ctx.pick('denom', [1, 1.0]))
    ctx.check(CLASSES.index(cls2) >= CLASSES.index(cls), 'never a lower class for more')
    ctx.cover('class %s' % cls)
    ctx.observe('classes', [str(cls), str(cls2)])


def cells(ctx, kind):
    """Each column shows the figure it is about."""
    w = Viewing(ctx, (kind,))
    calls = []

    def record(name):
        def make(*args, **kwargs):
            calls.append((name,) + args)
            return len(calls) - 1
        return make
    fmt = w.fmt
    for name in ('stat', 'int', 'int_or_na', 'time', 'percent'):
        setattr(fmt, 'make_%s_text' % name, record(name))
    table_class = w.classes[kind].table_class
    w.viewer.set_profiler_class(w.classes[kind])
    leaf = w.stat('leaf', hits=ctx.int('hits of leaf', 0, 10 ** 6),
                  deep=ctx.time('time of leaf', 0, 100))
    row = w.stat('row', [leaf], hits=ctx.int('hits', 0, 10 ** 6), deep=ctx.time('time', 0, 100))
    root = w.stat(None, [row], hits=0, deep=0.0)
    cpu = ctx.time('cpu', 0, 100)
    w.table.cpu_time = cpu
    import urwid
    node = urwid.ParentNode(row, parent=urwid.ParentNode(root, depth=0), depth=1)
    got = [calls[i] if type(i) is int else None for i in w.table.make_cells(node, row)]
    ctx.check(len(got) == len(table_class.columns), 'a cell for each column')
    own = row.deep_time - leaf.deep_time
    own = ctx.ite(own > 0, own, 0.0)
    deep_hits = row.own_hits + leaf.own_hits
    if kind == 'tracing':
        figures = {'FUNCTION': [row], 'CALLS': [row.own_hits], 'OWN': [own],
                   'DEEP': [row.deep_time]}
        share = {'OWN': (own, cpu), 'DEEP': (row.deep_time, cpu)}
    else:
        figures = {'FUNCTION': [row], 'OWN': [row.own_hits], 'DEEP': [deep_hits]}
        share = {'OWN': (row.own_hits, deep_hits), 'DEEP': (deep_hits, deep_hits)}
    about = None
    for (title, align, width, order), cell in zip(table_class.columns, got):
        ctx.check(cell is not None, 'a formatted cell', title)
        if title in figures:
            about = title
            want = figures[title][0]
            if title == 'FUNCTION':
                ctx.check(cell[1] is row, 'names the function')
                continue
            ctx.check(cell[0] in ('int', 'int_or_na', 'time'), 'a figure', title)
            ctx.check((cell[0] == 'time') == (kind == 'tracing' and title != 'CALLS'),
                      'in its unit', title)
            ctx.check(ctx.eq(cell[1], want), 'the figure of column ' + title)
        elif title == '/CALL':
            ctx.check(cell[0] == 'time', 'a time per call')
            if row.own_hits == 0:
                ctx.cover('no calls')
                continue
            want = own if about == 'OWN' else row.deep_time
            ctx.check(ctx.eq(cell[1] * row.own_hits, want), 'time per call of ' + about)
        elif title == '%':
            ctx.check(cell[0] == 'percent', 'a share')
            a, b = share[about]
            ctx.check(ctx.and_(ctx.eq(cell[1], a), ctx.eq(cell[2], b)), 'share of ' + about)
            ctx.cover('share')


def tracing_cells(ctx):
    cells(ctx, 'tracing')


def sampling_cells(ctx):
    cells(ctx, 'sampling')


_C = dict(lo=-10 ** 30, hi=10 ** 30)
_COVER = tuple('unit ' + (u or '1') for u in UNITS) + ('out of range',)
HARNESSES = [
    Harness('count', count, {'quick': _C, 'thorough': _C}, covers=_COVER, rounding=True,
            bound_text='every integer of at most 30 digits, negative ones too'),
    Harness('count_or_na', count_or_na, {'quick': _C, 'thorough': _C}, covers=('n/a',) + _COVER,
            rounding=True, bound_text='every integer of at most 30 digits'),
    Harness('time', time, {'quick': dict(hi=10 ** 7), 'thorough': dict(hi=10 ** 9)},
            covers=('zero', 'us', 'ms', 'sec', 'm s', 'm'), rounding=True,
            bound_text='every real number of seconds up to `hi`'),
    Harness('percent', percent, {'quick': dict(hi=10 ** 4), 'thorough': dict(hi=10 ** 9)},
            covers=('share of nothing', '0 decimal places', '1 decimal places',
                    '2 decimal places'), rounding=True,
            bound_text='every real ratio up to `hi`, as it is or as a share of 1, 3, 1000, '
                       '0.25 or 0'),
    Harness('classes', classes, {'quick': {}, 'thorough': {}},
            covers=tuple('class %s' % c for c in CLASSES), rounding=True,
            bound_text='every pair of ratios up to 1000'),
    Harness('tracing_cells', tracing_cells, {'quick': {}, 'thorough': {}},
            covers=('share', 'no calls'),
            bound_text='the row of a function with one callee; any hits up to 10**6, any '
                       'times up to 100 s'),
    Harness('sampling_cells', sampling_cells, {'quick': {}, 'thorough': {}},
            covers=('share',), bound_text='as before, for samples'),
]
ASSUMPTIONS = ['binary64 arithmetic rounds each operation by at most 2**-53 (encoded as any '
               'result within that); str.format rounds correctly',
               'a value is taken as correctly rounded within half a unit of the last digit '
               'plus 10**-12 of it (binary64 arithmetic before the formatting)']
