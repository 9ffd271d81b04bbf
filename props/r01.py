"""R01: scans.

Every point of a scan is run once, in its own directory, with its own values; ranges have the values MATLAB gives them.
MRange and mccode_run_scan are proved for any numbers and any number of points; the number of scanned parameters is bounded."""
from vc.api import harness, Discard
import itertools, sys, os, tempfile

RG = 'src/mccode_antlr/run/range.py '
RN = 'src/mccode_antlr/run/runner.py '
TOL = 1e-9


def modules():
    import mccode_antlr.run.range as r, mccode_antlr.run.runner as n
    return r, n


# ------------------------------------------------------------------ ranges
def decimal(vc, name, lo=-30, hi=30):
    """a number someone would write"""
    return vc.int(name, lo, hi) / vc.choice(name + '.unit', (1, 1, 10, 100, 4))


def a_range(vc, r, nm=''):
    """(the MRange, start, step, what its length should be or None)"""
    if vc.sym:
        start, stop, step = vc.real(nm + 'start'), vc.real(nm + 'stop'), vc.real(nm + 'step')
        vc.assume(vc.and_(start != stop, step != 0))
        return r.MRange(start, stop, step), start, stop, step, None
    from fractions import Fraction
    unit = vc.choice(nm + 'unit', (1, 1, 10, 100, 1000, 4, 7))
    a, s, k = vc.int(nm + 'start', -40, 40), vc.int(nm + 'step', -9, 9), vc.int(nm + 'points', -3, 12)
    f = vc.choice(nm + 'beyond', (0, 0, 1, 3, 8)) / 10
    if s == 0: raise Discard()
    # the last value is written out, as one does
    b = Fraction(a + s * k) + Fraction(f) * s
    num = (lambda x: int(x) if x.denominator == 1 and vc.int is not None else float(x))
    start, step, stop = (num(Fraction(x) / unit) for x in (a, s, b))
    if start == stop: raise Discard()
    return r.MRange(start, stop, step), start, stop, step, max(0, k + 1)


@harness('R01', 'MRange: its values', [RG + 'MRange.__len__', RG + 'MRange.__getitem__', RG + 'MRange.__iter__', RG + 'MRange.min', RG + 'MRange.max'])
def h_range(vc):
    r, _ = modules()
    m, start, stop, step, want = a_range(vc, r)
    if vc.sym:
        from vc.hooks import HOOKS
        n = HOOKS.b_len(m)
    else:
        o = vc.run(len, m)
        vc.check(not o.raised, 'a range has a length', o)
        n = o.value
        vc.check(n == want, 'the range goes from start to stop, the stop included', lambda: f'{n} {want} {m}')
    tol = 0 if vc.sym else TOL
    up = step > 0
    # n is the number of k >= 0 with start + k step not beyond stop
    def beyond(k, slack):
        d = (start + k * step - stop) * (1 if vc.sym or up else -1)
        if vc.sym: return vc.ite(up, start + k * step > stop + slack * step, start + k * step < stop + slack * step)
        return d > slack * abs(step)
    vc.check(n >= 0, 'a length is not negative')
    vc.check(vc.or_(n == 0, vc.not_(beyond(n - 1, 1e-6))), 'the last value is not beyond the stop')
    vc.check(beyond(n, tol if vc.sym else -1e-6), 'the next value would be beyond the stop')
    k = vc.int('k', -3, 14)
    o = vc.run(lambda: m[k])
    if vc.sym: inside = bool(vc.and_(k >= 0, k < n))
    else: inside = 0 <= k < n
    if not inside:
        vc.check(o.raised and isinstance(o.exc, IndexError), 'there is no value outside of the range', o)
    else:
        vc.check(not o.raised and vc.num_eq(o.value, start + k * step), 'a value is the start and a number of steps', o)
    it = vc.run(lambda: iter(m)) if not vc.sym else vc.run(m.__iter__)
    vc.check(not it.raised, 'a range can be iterated', it)
    if vc.sym:
        from vc.seqs import ISeq
        if not isinstance(it.value, ISeq): raise_unsupported('iteration of a range')
        vc.check(HOOKS.b_len(it.value) == n, 'the iteration has as many values as the range is long')
        if inside: vc.check(vc.num_eq(it.value.at(k), start + k * step), 'the iteration gives the values of the range in order')
    else:
        xs = list(it.value)
        vc.check(len(xs) == n and all(vc.num_eq(x, start + i * step) for i, x in enumerate(xs)), 'the iteration gives the values of the range in order', lambda: xs)
        vc.check(list(m) == xs, 'the iteration can be repeated')
    vc.check(vc.num_eq(m.min, vc.ite(start < stop, start, stop)) and vc.num_eq(m.max, vc.ite(start < stop, stop, start)), 'the bounds of the range', lambda: (m.min, m.max))


def raise_unsupported(m):
    from vc.core import Unsupported
    raise Unsupported(m)


@harness('R01', 'MRange: empty and endless ranges are refused', [RG + 'MRange.__init__'])
def h_range_init(vc):
    r, _ = modules()
    start, stop, step = vc.real('start'), vc.real('stop'), vc.real('step')
    o = vc.run(r.MRange, start, stop, step)
    bad = vc.or_(start == stop, step == 0)
    vc.check(vc.iff(bad, o.raised), 'a range without extent or without step is refused, no other', o)
    if not o.raised: vc.check(vc.and_(vc.num_eq(o.value.start, start), vc.num_eq(o.value.stop, stop), vc.num_eq(o.value.step, step)), 'it keeps what it was given')


@harness('R01', 'Singular: its value as often as asked for', [RG + 'Singular.__iter__', RG + 'Singular.__len__', RG + 'Singular.min', RG + 'Singular.max'], bounded='up to 6 repetitions')
def h_singular(vc):
    r, _ = modules()
    v = vc.real('v')
    n = vc.size('n', 0, 6)
    for m, k in ((r.Singular(v, n), n), (r.Singular(v), None)):
        o = vc.run(lambda: list(itertools.islice(iter(m), 8)))
        vc.check(not o.raised and len(o.value) == (8 if k is None else k), 'its value is repeated as often as asked for, or without end', o)
        for x in o.value: vc.check(vc.num_eq(x, v), 'it gives its value')
        vc.check(vc.num_eq(m.min, v) and vc.num_eq(m.max, v), 'its bounds are its value')
    vc.check(len(r.Singular(v, n)) == n, 'its length')


# ------------------------------------------------------------------ texts
def written(x): return vc_text(x)


def number(vc, nm, simple=False):
    """(text, value)"""
    k = vc.choice(nm + '.kind', ('int', 'dec', 'exp'))
    a = vc.int(nm, -30, 30)
    if k == 'int': return str(a), a
    if k == 'dec':
        t = f'{a}.{vc.int(nm + ".dec", 0, 99)}'
        return t, float(t)
    t = f'{a}e{vc.int(nm + ".exp", -3, 3)}'
    return t, float(t)


def a_value(vc, nm, strings=True):
    """(text, expected: ('range', start, stop, step) or ('one', value))"""
    k = vc.choice(nm + '.form', ('one', 'one', 'text', 'a:b', 'a:s:b'))
    if k == 'text':
        t = vc.ident(nm + '.text', ('abc', 'file', 'Al', 'x_1', 'e5x'))
        try: float(t)
        except ValueError: return t, ('one', t)
        raise Discard()
    a = number(vc, nm + '.a')
    if k == 'one': return a[0], ('one', a[1])
    b = number(vc, nm + '.b')
    s = number(vc, nm + '.s') if k == 'a:s:b' else ('1', 1)
    if a[1] == b[1] or s[1] == 0: raise Discard()
    return (f'{a[0]}:{b[0]}' if k == 'a:b' else f'{a[0]}:{s[0]}:{b[0]}'), ('range', a[1], b[1], s[1])


def is_value(vc, r, x, want):
    if want[0] == 'one': return isinstance(x, r.Singular) and x.value == want[1] and type(x.value) is type(want[1])
    return isinstance(x, r.MRange) and (x.start, x.stop, x.step) == want[1:]


@harness('R01', 'the command line: name=value and name value', [RG + 'parse_command_line_parameters', RG + 'parse_scan_parameters', RG + 'MRange.from_str', RG + 'Singular.from_str'], sym=False, weight=1.0)
def h_parse(vc):
    r, _ = modules()
    n = vc.size('n', 0, 4)
    args, want = [], {}
    for i in range(n):
        nm = vc.choice(f'name{i}', ('a', 'B', 'energy', 'E', 'e', 'det_x'))
        t, w = a_value(vc, f'v{i}')
        if vc.bool(f'eq{i}'): args.append(f'{nm}={t}')
        else: args += [nm, t]
        want.pop(nm, None) if False else None
        want[nm] = w
    kept = list(args)
    o = vc.run(r.parse_command_line_parameters, args)
    vc.check(not o.raised, 'parameters are read', o)
    vc.check(args == kept, 'the list of arguments is left alone')
    got = o.value
    vc.check(list(got) == list(want), 'the parameters are those named, with their names', lambda: f'{list(got)} {list(want)}')
    for k, w in want.items(): vc.check(is_value(vc, r, got[k], w), 'a parameter has the value or the range which was written', lambda: f'{k} {got[k]!r} {w}')
    o = vc.run(r.parse_scan_parameters, args)
    vc.check(not o.raised, 'parameters of a scan are read', o)
    longest = max([len(r.MRange(*w[1:])) for w in want.values() if w[0] == 'range'] + [1])
    vc.check(list(o.value) == list(want), 'the parameters are those named, with their names')
    for k, w in want.items():
        vc.check(is_value(vc, r, o.value[k], w), 'a parameter has the value or the range which was written')
        if w[0] == 'one': vc.check(o.value[k].maximum == longest, 'a single value is repeated as often as the longest range needs')


@harness('R01', 'the command line: what is not a parameter is refused', [RG + 'parse_command_line_parameters', RG + 'MRange.from_str'], sym=False, weight=0.3)
def h_parse_bad(vc):
    r, _ = modules()
    bad = vc.choice('bad', (['a'], ['a=1', 'b'], ['a', 'b=2'], ['a=1:2:3:4'], ['a=1:x:3'], ['a=x:2'], ['a=1:1'], ['a=1:0:3'], ['a', '1:2:3:4'], ['a=:'], ['a=::']))
    o = vc.run(r.parse_scan_parameters, list(bad))
    vc.check(o.raised, 'what is not a parameter is refused', lambda: f'{bad} {o}')


@harness('R01', 'the command line of mcstas-antlr-run', [RN + 'parse_mccode_run_script', RN + 'sort_args', RN + 'mccode_run_script_parser'], sym=False, weight=0.6)
def h_script(vc):
    r, rn = modules()
    opts = []
    want = dict(ncount=None, seed=None, mesh=False, trace=False, gravitation=False, bufsiz=None, format=None, dryrun=False, directory=None, parallel=False, process_count=0)
    for k, names, f in (('ncount', ('-n', '--ncount'), lambda: vc.int('ncount', 1, 10 ** 6)), ('seed', ('-s', '--seed'), lambda: vc.int('seed', 1, 999)), ('bufsiz', ('--bufsiz',), lambda: vc.int('bufsiz', 1, 999)),
                        ('format', ('--format',), lambda: vc.choice('format', ('NeXus', 'McCode'))), ('directory', ('-d', '--directory'), lambda: vc.choice('dir', ('out', '/tmp/x', 'a.b'))),
                        ('process_count', ('--process-count',), lambda: vc.int('count', 1, 8))):
        if vc.bool('has.' + k):
            v = f()
            nm = vc.choice('opt.' + k, names)
            opts.append([f'{nm}={v}'] if nm.startswith('--') and vc.bool('glue.' + k) else [nm, str(v)])
            want[k] = [v] if k != 'directory' else v
    for k, names in (('mesh', ('-m', '--mesh')), ('trace', ('-t', '--trace')), ('gravitation', ('-g', '--gravitation')), ('dryrun', ('--dryrun',)), ('parallel', ('--parallel',))):
        if vc.bool('has.' + k):
            opts.append([vc.choice('opt.' + k, names)])
            want[k] = True
    n = vc.size('n', 0, 3)
    pars, wp = [], {}
    for i in range(n):
        t, w = a_value(vc, f'v{i}')
        pars.append([f'p{i}={t}'])
        wp[f'p{i}'] = w
    # options go anywhere behind the file name and among the parameters
    rest = pars
    for i, o in enumerate(opts): rest.insert(vc.int(f'at{i}', 0, 9) % (len(rest) + 1), o)
    argv = sys.argv
    sys.argv = ['mcstas-antlr-run', 'some.instr'] + [x for a in rest for x in a]
    shown = list(sys.argv)
    try: o = vc.run(rn.parse_mccode_run_script, 'mcstas')
    except SystemExit: o = None
    finally: sys.argv = argv
    vc.check(o is not None and not o.raised, 'the command line is read', lambda: f'{shown} {o}')
    a, p = o.value
    for k, w in want.items(): vc.check(getattr(a, k) == w, 'an option has its value', lambda: f'{shown} {k} {getattr(a, k)} {w}')
    vc.check([f.name for f in a.filename] == ['some.instr'], 'the file name', lambda: f'{shown} {a.filename}')
    vc.check(list(p) == list(wp) and all(is_value(vc, r, p[k], w) for k, w in wp.items()), 'the parameters are those written', lambda: f'{shown} {p}')


# ------------------------------------------------------------------ the points of a scan
class Val:
    """what is given for one parameter: how many values it has, its values, how often at least it is there"""


def given_sym(vc, r, nm, grid):
    """(the object given, length term or None for one which takes any, element k)"""
    import z3
    from vc.seqs import ISeq
    from vc.core import SInt, SReal
    kind = vc.choice(nm + '.kind', ('range', 'list', 'singular', 'endless', 'number'))
    if kind == 'range':
        start, stop, step = vc.real(nm + '.start'), vc.real(nm + '.stop'), vc.real(nm + '.step')
        vc.assume(vc.and_(start != stop, step != 0))
        m = object.__new__(r.MRange)
        m.start, m.stop, m.step = start, stop, step
        n = vc.int(nm + '.n')
        vc.assume(n >= 0)
        r_len[id(m)] = n
        return m, n, lambda k: start + k * step
    f = z3.Function(nm + '.values', z3.IntSort(), z3.RealSort())
    at = lambda k: SReal(f(k.t if isinstance(k, SInt) else z3.IntVal(k)))
    if kind == 'list':
        n = vc.int(nm + '.n')
        vc.assume(n >= 0)
        return ISeq(n.t, at, list), n, at
    v = vc.real(nm + '.value')
    if kind == 'singular':
        n = vc.int(nm + '.n')
        vc.assume(n >= 1)
        # in a grid the value is there once; in a linear scan as often as it says
        return r.Singular(v, n), (1 if grid else n), lambda k: v
    return (r.Singular(v) if kind == 'endless' else v), 1, lambda k: v


r_len = {}


def range_contracts(r):
    """MRange and Singular by their contracts"""
    from vc.seqs import ISeq
    from vc.core import SInt
    import z3
    r.MRange.__len__ = lambda self: r_len[id(self)]
    r.MRange.__iter__ = lambda self: ISeq(r_len[id(self)].t, lambda k: self.start + k * self.step)
    t = lambda n: n.t if isinstance(n, SInt) else z3.IntVal(n)
    r.Singular.__len__ = lambda self: self.maximum
    r.Singular.__iter__ = lambda self: ISeq(None if self.maximum is None else t(self.maximum), lambda k: self.value)


@harness('R01', 'parameters_to_scan: every point once', [RG + 'parameters_to_scan'], budget=200, bounded='up to 3 parameters (with any number of values)', weight=1.5)
def h_points(vc):
    r, _ = modules()
    n = vc.size('n', 0, 3)
    grid = vc.bool('grid')
    if vc.sym: return points_sym(vc, r, n, True if grid else False)
    params, lens, vals = {}, [], []
    for i in range(n):
        nm = ('B', 'a', 'c_1')[i]
        kind = vc.choice(f'kind{i}', ('range', 'list', 'list', 'singular', 'endless', 'number', 'text', 'tuple'))
        if kind == 'range':
            m, start, stop, step, k = a_range(vc, r, f'r{i}.')
            x, v = m, [start + j * step for j in range(k)]
        elif kind in ('list', 'tuple'):
            k = vc.size(f'len{i}', 0, 4)
            v = [vc.real(f'x{i}.{j}') for j in range(k)]
            x = v if kind == 'list' else tuple(v)
        elif kind == 'singular':
            y, k = vc.real(f'x{i}'), vc.size(f'len{i}', 1, 4)
            x, v = r.Singular(y, k), [y] * (1 if grid else k)
        elif kind == 'text':
            x = vc.choice(f't{i}', ('Al', 'x', 'long name'))
            v = [x]
        else:
            y = vc.real(f'x{i}')
            x, v = (y if kind == 'number' else r.Singular(y)), [y]
        params[nm] = x
        lens.append(len(v)); vals.append(v)
    before = dict(params)
    o = vc.run(r.parameters_to_scan, params, grid=grid)
    vc.check(list(params) == list(before) and all(params[k] is before[k] for k in before), 'what was given is left alone')
    m = max(lens, default=0)
    if not grid and any(k not in (1, m) for k in lens):
        vc.check(o.raised and isinstance(o.exc, ValueError), 'parameters with different numbers of values can not be scanned together', o)
        return
    vc.check(not o.raised, 'the points of a scan', o)
    k, names, pts = o.value
    pts = [tuple(p) for p in pts]
    if not n: want = []
    elif grid: want = list(itertools.product(*vals))
    elif not m: want = []
    else: want = [tuple(v[j] if len(v) > 1 or m == 1 else v[0] for v in vals) for j in range(m)]
    vc.check(list(names) == list(before), 'names go with values')
    vc.check(k == len(want), 'the number of points', lambda: f'{k} {len(want)}')
    if grid:
        same = lambda p, q: all(vc.num_eq(a, b) for a, b in zip(p, q))
        vc.check(len(pts) == len(want) and all(same(p, q) for p, q in zip(sorted(pts, key=repr), sorted(want, key=repr))), 'every combination of values is there once', lambda: f'{pts} {want}')
    else:
        vc.check(len(pts) == len(want) and all(vc.num_eq(a, b) for p, q in zip(pts, want) for a, b in zip(p, q)), 'point k has the value k of each parameter', lambda: f'{pts} {want}')


def points_sym(vc, r, n, grid):
    import z3
    from vc.seqs import ISeq
    from vc.core import SInt, Unsupported
    from vc.hooks import HOOKS
    range_contracts(r)
    prods = []
    def product(*xs, **k):
        prods.append(xs)
        return ('product', len(prods) - 1)
    itertools.product = product
    gs = [given_sym(vc, r, f'p{i}', grid) for i in range(n)]
    params = {f'name{i}': g[0] for i, g in enumerate(gs)}
    before = dict(params)
    o = vc.run(r.parameters_to_scan, params, grid=grid)
    vc.check(list(params) == list(before) and all(params[k] is before[k] for k in before), 'what was given is left alone')
    lens = [g[1] for g in gs]
    if not grid and n:
        m = HOOKS.b_max([*lens, 0])
        fits = vc.and_(True, *[vc.or_(k == 1, k == m) for k in lens])
        vc.check(vc.iff(fits, not o.raised), 'parameters with different numbers of values, and only those, can not be scanned together', o)
        if o.raised: return
    vc.check(not o.raised, 'the points of a scan', o)
    k, names, pts = o.value
    vc.check(list(names) == [f'name{i}' for i in range(n)], 'names go with values')
    if not n:
        vc.check(k == 0 and not pts, 'there are no points without parameters')
        return
    if grid:
        want = 1
        for x in lens: want = want * x
        vc.check(k == want, 'the number of points')
        if not (isinstance(pts, tuple) and pts[0] == 'product'): raise Unsupported('a grid which is not made by itertools.product')
        xs = prods[pts[1]]
        vc.check(len(xs) == n, 'every combination of values is there once')
    else:
        vc.check(k == HOOKS.b_max([*lens, 0]), 'the number of points')
        if not isinstance(pts, ISeq): raise Unsupported('points of a linear scan')
        vc.check(HOOKS.b_len(pts) == k, 'as many points as said')
    j = vc.int('j')
    for i, (g, ln, at) in enumerate(gs):
        if grid:
            x = prods[pts[1]][i]
            if isinstance(x, (list, tuple)):
                vc.check(vc.and_(ln == len(x)), 'every combination of values is there once')
                for q, y in enumerate(x): vc.check(vc.num_eq(y, at(q)), 'every combination of values is there once')
            else:
                s = ISeq.of(x)
                if s is None: raise Unsupported('values')
                inside = vc.and_(j >= 0, j < ln)
                vc.check(HOOKS.b_len(s) == ln, 'every combination of values is there once')
                vc.check(vc.implies(inside, vc.num_eq(s.at(j), at(j))), 'every combination of values is there once')
        else:
            inside = vc.and_(j >= 0, j < k)
            one = vc.and_(ln == 1, k > 1)
            vc.check(vc.implies(inside, vc.num_eq(pts.at(j)[i], vc.ite(one, at(0), at(j)))), 'point k has the value k of each parameter')


# ------------------------------------------------------------------ running
OPTS = (('seed', ('seed', 's')), ('ncount', ('ncount', 'n')), ('trace', ('trace', 't')), ('gravitation', ('gravitation', 'g')), ('bufsiz', ('bufsiz',)), ('format', ('format',)))


def runtime(vc, W='', every=True):
    """(the options as given, the words they make)"""
    args, words = {}, []
    if not every and vc.sym: some = vc.choice(W + 'options', (True, False))   # the options by themselves: see 'the options of the program'
    for k, names in OPTS:
        f = vc.choice(f'{W}opt.{k}', ('no', 'none', 'yes') + (('both',) if len(names) > 1 else ())) if every else vc.choice(f'{W}opt.{k}', ('no', 'yes')) if not vc.sym else 'yes' if some else 'no'
        if f == 'no': continue
        nm = names[-1] if f == 'yes' and every else names[0]
        if k in ('trace', 'gravitation'):
            v = vc.bool(f'{W}is.{k}') if f != 'none' else None
            if v is not None and v: words.append(f'--{k}')
        else:
            v = None if f == 'none' else vc.int(f'{W}is.{k}', 1, 10 ** 7) if k in ('seed', 'ncount', 'bufsiz') else vc.ident(f'{W}is.{k}', ('NeXus', 'McCode'))
            if v is not None: words.append((f'--{k}=', v))
        if f == 'both' and len(names) > 1: args[names[1]] = vc.int(f'{W}other.{k}', 1, 99)   # the long name counts
        args[nm] = v
    return args, words


def word(vc, w):
    if isinstance(w, str): return w
    if vc.sym:
        from vc.hooks import HOOKS, concat
        return concat([x if isinstance(x, str) else HOOKS.b_str(x) for x in w])
    return ''.join(str(x) for x in w)


def words_of(t):
    """the words of a text, symbolic or not"""
    from vc.core import SStr
    if isinstance(t, str): return t.split()
    out, now = [], []
    for p in t.parts:
        if isinstance(p, str):
            bits = p.replace('\n', ' ').split(' ')
            for i, b in enumerate(bits):
                if i: out.append(now); now = []
                if b: now = now + [b]
        else: now = now + [p]
    out.append(now)
    return [SStr(w) if any(not isinstance(x, str) for x in w) else ''.join(w) for w in out if w]


def same_words(vc, got, want):
    """the same words, in any order"""
    got = list(got)
    if len(got) != len(want): return False
    for w in want:
        for i, g in enumerate(got):
            if (g == w) is True or not isinstance(g, str) and not isinstance(w, str) and same_parts(g, w):
                del got[i]
                break
        else:
            return False
    return True


def same_parts(a, b):
    x, y = a.parts, b.parts
    if len(x) != len(y): return False
    return all((p == q) if isinstance(p, str) or isinstance(q, str) else p.t.eq(q.t) for p, q in zip(x, y))


@harness('R01', 'the options of the program', [RN + 'regular_mccode_runtime_dict', RN + 'mccode_runtime_dict_to_args_list', RN + 'mccode_runtime_parameters'], weight=0.6, budget=200, max_paths=12000)
def h_options(vc):
    _, rn = modules()
    args, words = runtime(vc)
    given = dict(args)
    o = vc.run(rn.regular_mccode_runtime_dict, args)
    vc.check(not o.raised, 'options are read', o)
    vc.check(args == given if not vc.sym else list(args) == list(given), 'the options given are left alone')
    o2 = vc.run(rn.mccode_runtime_dict_to_args_list, o.value)
    vc.check(not o2.raised, 'options are written', o2)
    want = [word(vc, w) for w in words]
    got = [w for x in o2.value for w in words_of(x)]
    vc.check(len(got) == len(o2.value) and same_words(vc, got, want), 'each option which is set is passed on once with its value, no other', lambda: f'{got} {want}')


@harness('R01', 'options and parameters are written', [RN + 'mccode_runtime_parameters'], weight=0.6, bounded='up to 3 parameters')
def h_parameters(vc):
    _, rn = modules()
    seed = vc.int('seed', 1, 999)
    opts, want = ({'seed': seed, 'trace': True}, [word(vc, ('--seed=', seed)), '--trace']) if vc.choice('options', (True, False)) else ({}, [])
    n = vc.size('n', 0, 3)
    pars = {f'p{i}': vc.ident(f'value{i}') if vc.choice(f'kind{i}', ('text', 'number')) == 'text' else vc.int(f'number{i}') for i in range(n)}
    o3 = vc.run(rn.mccode_runtime_parameters, opts, pars)
    vc.check(not o3.raised, 'options and parameters are written', o3)
    got = words_of(o3.value)
    vc.check(same_words(vc, got, want + [word(vc, (k + '=', v)) for k, v in pars.items()]), 'each option and each parameter is passed on once with its value', lambda: f'{got}')


@harness('R01', 'mccode_run_scan: each point once, in its directory, with its values', [RN + 'mccode_run_scan'], budget=150, weight=1.2)
def h_scan(vc):
    r, rn = modules()
    if vc.sym: return scan_sym(vc, r, rn)
    import subprocess
    from pathlib import Path
    import mccode_antlr.compiler.c as cc
    grid = vc.bool('grid')
    n = vc.size('n', 1, 3)
    params, vals = {}, []
    ln = vc.size('len', 1, 4)
    for i in range(n):
        kind = vc.choice(f'kind{i}', ('list', 'one', 'range', 'text'))
        if kind == 'list': v = [vc.real(f'x{i}.{j}') for j in range(ln if not grid else vc.size(f'len{i}', 1, 3))]
        elif kind == 'range':
            k = ln if not grid else vc.size(f'len{i}', 2, 3)
            if k < 2: raise Discard()
            a, s = vc.int(f'a{i}', -5, 5), vc.int(f's{i}', 1, 3)
            v = [a + s * j for j in range(k)]
        elif kind == 'text': v = [vc.ident(f't{i}')]
        else: v = [vc.real(f'x{i}')]
        nm = ('Ei', 'a', 'mode')[i]
        params[nm] = v if kind == 'list' else r.MRange(v[0], v[-1], s) if kind == 'range' else r.Singular(v[0]) if vc.bool(f'singular{i}') else v[0]
        vals.append(v)
    m = max(len(v) for v in vals)
    want = list(itertools.product(*vals)) if grid else [tuple(v[j] if len(v) > 1 else v[0] for v in vals) for j in range(m)]
    if not grid and any(len(v) not in (1, m) for v in vals): raise Discard()
    args, words = runtime(vc, 'run.', every=False)
    calls, made = [], []
    def fake(command, *a, **k):
        calls.append([str(x) for x in command])
        d = [x for j, x in enumerate(command) if j and command[j - 1] == '--dir'] + [x[6:] for x in command if str(x).startswith('--dir=')]
        made.append((d, Path(d[0]).parent.is_dir() if d else None, Path(d[0]).exists() if d else None))
        class R: returncode, stdout, stderr = 0, b'', b''
        R.stdout = str(len(calls)).encode()
        return R
    real = subprocess.run
    with tempfile.TemporaryDirectory() as tmp:
        binary = Path(tmp) / 'ins.out'
        binary.write_text('')
        out = Path(tmp) / vc.choice('out', ('out', 'deep/out', 'x.y'))
        subprocess.run = fake
        try: o = vc.run(rn.mccode_run_scan, 'ins', binary, cc.CBinaryTarget(), params, str(out) if vc.bool('as text') else out, grid, **args)
        finally: subprocess.run = real
        binary = str(binary.resolve())
    vc.check(not o.raised, 'a scan is run', o)
    vc.check(len(calls) == len(want), 'each point is run once', lambda: f'{calls} {want}')
    vc.check(all(c[0] == binary for c in calls), 'the program is run')
    dirs = [d[0] for d, *_ in made]
    vc.check(all(len(d) == 1 for d, *_ in made), 'each run has one directory', lambda: calls)
    vc.check(len(set(map(tuple, dirs))) == len(dirs) and all(p for _, p, _ in made) and not any(e for _, _, e in made), 'each run has a new directory of its own', lambda: made)
    left = [(i, w) for i, w in enumerate(want)]
    for c, d in zip(calls, dirs):
        if len(want) == 1: k = 0; vc.check(d == str(out), 'a single run is put in the directory')
        else:
            k = [j for j in range(len(want)) if d == str(out / str(j))]
            vc.check(len(k) == 1, 'each run has its number', lambda: d)
            k = k[0]
        ws = [x for x in c[1:] if x not in ('--dir', d, f'--dir={d}')]
        exp = [word(vc, w) for w in words]
        nums = dict(zip(params, want[k] if not grid else [None] * n))
        if grid: nums = {nm: next((v for v in vals[i] if any(eqtext(x, nm, v) for x in ws)), None) for i, nm in enumerate(params)}
        if grid:
            hit = [w for w in left if all(any(eqtext(x, nm, v) for x in ws) for nm, v in zip(params, w[1]))]
            vc.check(len(hit) >= 1, 'a run has values of a point which was not run before', lambda: f'{ws} {left}')
            left.remove(hit[0])
        vc.check(len(ws) == len(exp) + n and all(sum(eqtext(x, nm, v) for x in ws) == 1 for nm, v in nums.items()) and all(e in ws for e in exp), 'a run gets the values of its point and the options', lambda: f'{ws} {nums} {exp}')
    if len(want) > 1: vc.check([x[0] for x in o.value] == [str(j + 1).encode() for j in range(len(want))], 'results are those of the points in order', lambda: o.value)
    else: vc.check(o.value[0] == b'1', 'the result of the run')


def eqtext(w, nm, v):
    if not w.startswith(nm + '='): return False
    t = w[len(nm) + 1:]
    if isinstance(v, str): return t == v
    try: return abs(float(t) - v) <= 1e-12 * max(1, abs(v))
    except ValueError: return False


def scan_sym(vc, r, rn):
    import z3
    from vc.seqs import ISeq, AbsChunk, ASeq, AList
    from vc.core import SInt, SStr, Atom, PathEnd, Unsupported, cur
    from vc.hooks import HOOKS
    grid = vc.choice('grid', (True, False))
    m = vc.choice('number of parameters', (0, 1, 2))
    n = vc.int('points')
    vc.assume(n >= 0)
    if m == 0: vc.assume(n == 0)
    else: vc.assume(n >= 1)    # scans without any point are outside
    F = [z3.Function(f'value{i}', z3.IntSort(), z3.StringSort()) for i in range(m)]
    def at(k):
        t = k.t if isinstance(k, SInt) else z3.IntVal(k)
        return tuple(SStr([Atom(f(t), f'value{i}', ' \t\n=', True)]) for i, f in enumerate(F))
    names = [f'par{i}' for i in range(m)]
    args, words = runtime(vc, 'run.', every=False)
    opt = [word(vc, w) for w in words]
    params, binary, target = object(), object(), object()
    state = {'calls': [], 'k': None}
    class Dir:
        __vc_sym__ = True
        def __init__(self, parts): self.parts = parts
        @property
        def parent(self): return Dir(('parent', self))
        def mkdir(self, *a, **k):
            vc.check(k.get('exist_ok', False) is True and k.get('parents', False) is True, 'directories are made as needed')
        def joinpath(self, *x): return Dir((self, *x))
        __truediv__ = joinpath
        def __vc_isinstance__(self, t): return True
        def exists(self): raise Unsupported('exists')
    base = Dir(('base',))
    def path(x):
        if isinstance(x, Dir): return x
        raise Unsupported('path')
    rn.Path = path
    import mccode_antlr.run.range as rr
    def to_scan(p, grid=None, *a):
        vc.check(p is params, 'the scan is of the parameters given')
        vc.check((True if grid else False) == grid_, 'grid or line as asked for')
        if m == 0: return 0, [], []
        return SInt(n.t), list(names), ISeq(n.t, at, tuple, Points())
    grid_ = grid
    rr.parameters_to_scan = to_scan
    if hasattr(rn, 'parameters_to_scan'): rn.parameters_to_scan = to_scan
    def compiled(b, t, d, text, **k):
        res = (object(), object())
        state['calls'].append((b, t, d, text, k, res))
        return res
    rn.mccode_run_compiled = compiled
    cap, dry = vc.choice('capture', (True, False)), vc.choice('dry', (True, False))
    def right(call, k, number):
        b, t, d, text, kw, _ = call
        vc.check(b is binary and t is target, 'the program is run')
        vc.check(kw.get('capture', True) is cap and kw.get('dry_run', False) is dry, 'it is run in the way asked for')
        if number is None: vc.check(d is base, 'a single run is put in the directory')
        else:
            ok = isinstance(d, Dir) and len(d.parts) == 2 and d.parts[0] is base
            vc.check(ok, 'each run has its own directory')
            x = d.parts[1]
            vc.check(isinstance(x, (str, SStr)) and (x == HOOKS.b_str(number)), 'each run has its number')
        if not isinstance(text, (str, SStr)): raise Unsupported('parameters')
        want = opt + [word(vc, (nm + '=', *v.parts)) if False else SStr([nm + '=', *v.parts]) for nm, v in zip(names, at(k))]
        vc.check(same_words(vc, words_of(text), want), 'a run gets the values of its point and the options', lambda: f'{text} {want}')
    K = z3.Int('number')
    class Points:
        """before point k: the results are those of the k points before"""
        def results(self, env, loop): return [x for x in loop.names if isinstance(env.get(x), (list, AList))]
        def enter(self, loop, env):
            vc.check(not state['calls'], 'each point is run once')
            self.vars = [x for x in self.results(env, loop) if not (isinstance(env[x], list) and env[x] and all(isinstance(y, str) for y in env[x])) and env[x] is not names]
            for x in self.vars: vc.check(len(env[x]) == 0, 'aux: loop invariant at entry: no results yet')
        def havoc(self, loop, env, stage):
            if stage == 'exit':
                state['done'] = True
                self.out = AbsChunk('results', lambda nm: (object(), object()), None, n.t)
                return {x: AList([self.out]) for x in self.vars}
            self.before = AbsChunk('results before', lambda nm: (object(), object()))
            return {x: AList([self.before]) for x in self.vars}
        def close(self, loop, env, elem):
            number, values = elem if isinstance(elem, tuple) and len(elem) == 2 and isinstance(elem[0], SInt) else (None, None)
            if number is None: raise Unsupported('a loop which does not count the points')
            vc.check(len(state['calls']) == 1, 'each point is run once')
            right(state['calls'][0], number, number)
            for x in self.vars:
                c = env[x].chunks if isinstance(env[x], AList) else []
                vc.check(len(c) == 2 and c[0] is self.before and len(c[1]) == 1, 'results are those of the points in order')
                y = c[1][0]
                res = state['calls'][0][5]
                vc.check(y is res or isinstance(y, tuple) and len(y) == 2 and y[0] is res[0] and y[1] is res[1], 'results are those of the points in order')
    o = vc.run(rn.mccode_run_scan, 'ins', binary, target, params, base, grid, capture=cap, dry_run=dry, **args)
    vc.check(not o.raised, 'a scan is run', o)
    if state.get('done'):
        vc.check(not state['calls'], 'each point is run once')
        vc.check(isinstance(o.value, AList) and len(o.value.chunks) == 1 and isinstance(o.value.chunks[0], AbsChunk) and o.value.chunks[0].n.eq(n.t), 'results are those of the points')
        return
    # a single run
    vc.check(n <= 1, 'each point is run once')
    vc.check(len(state['calls']) == 1, 'each point is run once')
    right(state['calls'][0], 0, None)
    res = state['calls'][0][5]
    vc.check(o.value is res, 'the result of the run')


@harness('R01', 'mccode_run, mcstas_run and mccode_run_cmd pass on what they are given', [RN + 'mccode_run', RN + 'mcstas_run', RN + 'mcxtrace_run', RN + 'mccode_run_cmd'], sym=False, weight=0.4)
def h_entry(vc):
    r, rn = modules()
    from pathlib import Path
    import mccode_antlr.compiler.c as cc
    import stat
    from mccode_antlr.translators.target import MCSTAS_GENERATOR, MCXTRACE_GENERATOR
    which = vc.choice('which', ('mccode_run', 'mcstas_run', 'mcxtrace_run', 'cmd'))
    opts = {}
    for k, f in (('seed', lambda: vc.int('seed', 1, 99)), ('ncount', lambda: vc.int('ncount', 1, 999)), ('trace', lambda: True), ('gravitation', lambda: True), ('bufsize', lambda: vc.int('bufsiz', 1, 99)),
                 ('fmt', lambda: 'NeXus'), ('mesh', lambda: True), ('dryrun', lambda: True), ('parallel', lambda: True), ('process_count', lambda: vc.int('count', 1, 8))):
        if vc.bool('has.' + k): opts[k] = f()
    there = vc.bool('compiled already')
    calls, made = [], []
    class I: name = 'ins'
    old = rn.mccode_run_scan, rn.mccode_compile
    argv, cwd = sys.argv, os.getcwd()
    with tempfile.TemporaryDirectory() as tmp:
        b = Path(tmp) / 'ins'
        pars = {'a': [1, 2]}
        bt = cc.CBinaryTarget(mpi=True, count=5)
        def scan(*a, **k): calls.append((a, k))
        def comp(instr, d, generator, target=None, config=None, **k):
            made.append((instr, Path(d), generator, target, config))
            return Path(d).with_suffix('.out'), bt
        rn.mccode_run_scan, rn.mccode_compile = scan, comp
        if there or which == 'cmd':
            b.write_text('')
            b.chmod(0o755)
        os.chdir(tmp)
        try:
            if which == 'cmd':
                sys.argv = ['x', str(b), 'a=1:1:2']
                for k, w in opts.items():
                    sys.argv += {'bufsize': ['--bufsiz', str(w)], 'fmt': ['--format', str(w)], 'process_count': ['--process-count', str(w)]}.get(k, ['--' + k] + ([str(w)] if k in ('seed', 'ncount') else []))
                o = vc.run(rn.mccode_run_cmd, 'mcstas', None, MCSTAS_GENERATOR)
            elif which == 'mccode_run': o = vc.run(rn.mccode_run, I, MCSTAS_GENERATOR, pars, tmp if vc.bool('as text') else Path(tmp), **opts)
            else: o = vc.run(getattr(rn, which), I, tmp, pars, **opts)
        except SystemExit: o = None
        finally:
            rn.mccode_run_scan, rn.mccode_compile = old
            sys.argv = argv
            os.chdir(cwd)
    vc.check(o is not None and not o.raised, 'the instrument is run', o)
    vc.check(len(calls) == 1, 'one scan is run')
    a, k = calls[0]
    name, binary, target, params, directory, grid = a
    compiled = not there and which != 'cmd'
    vc.check(len(made) == compiled, 'an instrument which is compiled already is not compiled again')
    if compiled:
        vc.check(made[0][0] is I and made[0][2] is (MCXTRACE_GENERATOR if which == 'mcxtrace_run' else MCSTAS_GENERATOR), 'the instrument is compiled for its program')
        vc.check((made[0][3]['mpi'], made[0][3]['count']) == (opts.get('parallel', False), opts.get('process_count', 0)), 'it is compiled for the processes asked for')
    vc.check(name == 'ins' and binary.name == ('ins.out' if compiled else 'ins'), 'the program is that of the instrument', lambda: binary)
    vc.check(isinstance(target, cc.CBinaryTarget) and (target is bt if compiled else ((target.type == cc.CBinaryTarget.Type.mpi) == ('parallel' in opts) and target.count == opts.get('process_count', 0))), 'it is run as it was made', lambda: target)
    vc.check(params is pars or which == 'cmd' and list(params) == ['a'] and list(params['a']) == [1, 2], 'the scan is of the parameters given')
    vc.check(bool(grid) == opts.get('mesh', False), 'grid or line as asked for')
    for x, y in (('seed', 'seed'), ('ncount', 'ncount'), ('bufsiz', 'bufsize'), ('format', 'fmt')): vc.check(k.get(x) == opts.get(y), 'options are passed on', lambda: f'{k} {opts}')
    for x, y in (('trace', 'trace'), ('gravitation', 'gravitation'), ('dry_run', 'dryrun')): vc.check(bool(k.get(x)) == opts.get(y, False), 'options are passed on', lambda: f'{k} {opts}')


COMP = 'DEFINE COMPONENT {0}\nSETTING PARAMETERS (int {1}=0)\nTRACE\n%{{\n%}}\nEND\n'


@harness('R01', 'mcstas-antlr-run: what is named is run, or read and compiled', [RN + 'mccode_run_cmd', RN + 'mccode_run_script_parser'], sym=False, weight=0.4)
def h_cmd(vc):
    r, rn = modules()
    from pathlib import Path
    import contextlib, io, shutil
    import mccode_antlr.compiler.c as cc
    from mccode_antlr.reader.registry import InMemoryRegistry
    c = vc.choice
    kind = c('kind', ('instr', 'instr', 'instr', 'h5', 'binary', 'missing'))
    top = Path(tempfile.mkdtemp()).resolve()
    made, scans = [], []
    old, argv, cwd = (rn.mccode_run_scan, rn.mccode_compile), sys.argv, os.getcwd()
    bt, out = cc.CBinaryTarget(mpi=False, count=5), top / 'made.out'
    generator = object()
    def comp(instr, d, g, target=None, config=None, **k):
        made.append((instr, d, g, target, config))
        return out, bt
    rn.mccode_run_scan, rn.mccode_compile = (lambda *a, **k: scans.append((a, k))), comp
    try:
        work = top / 'work'
        folders = {n: top / n for n in ('one', 'two.d', 'work')}
        for f in folders.values(): f.mkdir()
        library = InMemoryRegistry('library', priority=-10)
        lib = c('library', (False, True))
        if lib: library.add('Thing.comp', COMP.format('Thing', 'library'))
        library.add('Other.comp', COMP.format('Other', 'library'))
        have = [n for n in folders if c(f'in {n}', (False, True))]
        for n in have: (folders[n] / 'Thing.comp').write_text(COMP.format('Thing', n.replace('.', '_')))
        dirs = [c(f'dir {k}', ('one', 'two.d')) for k in range(c('dirs', (0, 1, 2, 2)))]
        where = [n for n in dirs + ['work'] + (['library'] if lib else []) if n == 'library' or n in have]
        name = {'h5': c('h5 name', ('a.h5', 'a.H5', 'b.c.h5')), 'binary': 'a.out', 'missing': 'a.instr'}.get(kind, c('name', ('a.instr', 'a.b.instr')))
        # the first of these gets the name of the type of the parameter
        used = 'Thing' if where else 'Other'
        text = f'DEFINE INSTRUMENT ins(double x=1)\nTRACE\nCOMPONENT first = {used}() AT (0, 0, 0) ABSOLUTE\nEND\n'
        f = work / name
        if kind in ('instr', 'binary'): f.write_text(text)
        elif kind == 'h5':
            from mccode_antlr.loader import parse_mcstas_instr
            from mccode_antlr.reader import Reader
            from mccode_antlr.io import save_hdf5
            from mccode_antlr.assembler import Assembler
            a = Assembler('ins', registries=[library])
            a.parameter('double x=1')
            a.component('first', 'Other', at=[0, 0, 0])
            save_hdf5(a.instrument, f)
        if kind == 'binary': f.chmod(0o755)
        elif kind == 'instr' and c('executable', (False, False, True)): f.chmod(0o755)
        runs = kind == 'binary' or kind == 'instr' and bool(f.stat().st_mode & 0o111)
        output = c('output', (None, None, 'b.out', str(top / 'x')))
        if runs and output is not None: runs = False
        if kind == 'binary' and not runs: output, runs = None, True
        flags = {n: c(n, (False, True)) for n in ('trace', 'source', 'verbose', 'parallel', 'gpu')}
        count = c('count', (None, 3))
        place = c('directory', (None, 'dat', str(top / 'data')))
        pars = c('parameters', (True, True, False))
        words = [name] + (['x=1:1:2'] if pars else [])
        pre = [w for k, d in enumerate(dirs) for w in (c(f'I{k}', ('-I', '--search-dir')), str(folders[d]) if c(f'abs {k}', (False, True)) else f'../{d}')]
        pre += [f'--{n}' for n, b in flags.items() if b] + ([] if count is None else ['--process-count', str(count)])
        pre += ([] if output is None else ['-o', output]) + ([] if place is None else ['-d', place])
        if pre and not pre[-1].startswith('-') or not pre: sys.argv = ['x'] + pre + words
        else: sys.argv = ['x'] + words + pre
        os.chdir(work)
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()): o = vc.run(rn.mccode_run_cmd, 'mcstas', library, generator)
        except SystemExit as e: o = e
        line = sys.argv
    finally:
        rn.mccode_run_scan, rn.mccode_compile = old
        sys.argv = argv
        os.chdir(cwd)
        shutil.rmtree(top)
    if kind == 'missing':
        vc.check(isinstance(o, SystemExit) or o.raised, 'an instrument which is not there is an error', lambda: line)
        vc.check(not made and not scans, 'nothing is run without an instrument', lambda: line)
        return
    vc.check(not isinstance(o, SystemExit) and not o.raised, 'the instrument is run', lambda: (line, o))
    if runs: vc.check(not made, 'a compiled instrument is run as it is', lambda: line)
    else:
        vc.check(len(made) == 1, 'an instrument which is not compiled is compiled once', lambda: line)
        instr, d, g, target, config = made[0]
        vc.check(instr.name == 'ins' and [p.name for p in instr.parameters] == ['x'] and [x.name for x in instr.components] == ['first'], 'the instrument which was named is compiled', lambda: line)
        want = 'library' if kind == 'h5' or not where else where[0].replace('.', '_')
        got = instr.components[0].type
        vc.check([p.name for p in got.setting] == [want], 'components are taken from the given folders in their order, the working directory and the library', lambda: (line, where, got))
        vc.check(g is generator, 'it is compiled for its program')
        vc.check(d == output or d is not None and output is not None and Path(d) == Path(output), 'the program is put where it was asked for', lambda: (line, d))
        for n, m in (('mpi', 'parallel'), ('acc', 'gpu')): vc.check(bool((target or {}).get(n)) == flags[m], 'it is compiled for the processes asked for', lambda: (line, target))
        vc.check((target or {}).get('count') == (count or 0), 'it is compiled for the processes asked for', lambda: (line, target))
        for n, m in (('enable_trace', 'trace'), ('embed_instrument_file', 'source'), ('verbose', 'verbose')): vc.check(bool((config or {}).get(n)) == flags[m], 'it is compiled with the options asked for', lambda: (line, config))
    if not pars: return vc.check(not scans, 'nothing is run without parameters', lambda: line)
    vc.check(len(scans) == 1, 'one scan is run', lambda: line)
    name_, binary, target, params, directory, grid = scans[0][0]
    vc.check(name_ == ('ins' if not runs else Path(name).stem), 'the run has the name of the instrument', lambda: (line, name_))
    vc.check(Path(binary) == (work / name if runs else out), 'what is compiled is run', lambda: (line, binary))
    if runs: vc.check((bool(target.type & cc.CBinaryTarget.Type.mpi), bool(target.type & cc.CBinaryTarget.Type.acc), target.count) == (flags['parallel'], flags['gpu'], count or 0), 'it is run with the processes asked for', lambda: (line, target))
    else: vc.check(target is bt, 'it is run as it was compiled', lambda: line)
    vc.check(list(params) == ['x'] and list(params['x']) == [1, 2], 'the scan is of the parameters given', lambda: line)
    vc.check(directory is None and place is None or directory is not None and place is not None and Path(directory) == Path(place), 'data is put where it was asked for', lambda: (line, directory))


@harness('R01', 'compiling for a run', [RN + 'mccode_compile'], weight=0.4)
def h_compile(vc):
    r, rn = modules()
    import mccode_antlr.compiler.c as cc
    c = vc.choice
    instr, where, generator, extra = object(), object(), object(), object()
    count = vc.int('count', 0, 99)
    # what is asked for, and what holds otherwise
    default = dict(mpi=False, acc=False, count=1, nexus=False)
    asked = None if c('no target', (False, True)) else {n: v for n, v in dict(mpi=c('mpi', (None, False, True)), acc=c('acc', (None, False, True)), count=c('has count', (None, count)), nexus=c('nexus', (None, False, True))).items() if v is not None}
    names = dict(default_main=True, enable_trace=False, portable=False, include_runtime=True, embed_instrument_file=False, verbose=False)
    which, change = c('which', tuple(names)), c('change', (False, True))
    config = None if c('no config', (False, True)) else {n: not v if change else v for n, v in names.items() if n == which}
    config_was, asked_was = dict(config or {}), dict(asked or {})
    calls, fails = [], c('fails', (False, True))
    class Failed(RuntimeError): pass
    def compiled(*a, **k):
        calls.append((a, k))
        if fails: raise Failed('no')
        return 'the binary'
    keep = cc.compile_instrument
    mine = 'compile_instrument' in vars(rn)
    cc.compile_instrument = compiled
    if mine: rn.compile_instrument = compiled
    try: o = vc.run(rn.mccode_compile, instr, where, generator, target=asked, config=config, extra=extra)
    finally:
        cc.compile_instrument = keep
        if mine: rn.compile_instrument = keep
    vc.check(len(calls) == 1, 'the instrument is compiled once')
    a, k = calls[0]
    named = dict(zip(('instrument', 'target', 'output', 'replace', 'dump_source'), a), **k)
    vc.check(named.pop('instrument') is instr and named.pop('output') is where and named.pop('generator') is generator and named.pop('extra') is extra, 'what is asked for is compiled')
    t, cf = named.pop('target'), named.pop('config')
    vc.check(not named.get('replace') and not named.get('dump_source'), 'an existing program is not replaced')
    want = {**default, **asked_was}
    T = cc.CBinaryTarget.Type
    for n, b in (('mpi', T.mpi), ('acc', T.acc), ('nexus', T.nexus)): vc.check(bool(t.type & b) is want[n], 'it is compiled for the target asked for', lambda: (n, t.type))
    vc.check(vc.num_eq(t.count, want['count']), 'it is compiled for the number of processes asked for')
    vc.check({n: cf.get(n) for n in names} == {**names, **config_was}, 'it is compiled with the options asked for', lambda: cf)
    if fails: return vc.check(o.raised and isinstance(o.exc, RuntimeError), 'a failed compilation is an error', o)
    vc.check(not o.raised and o.value[0] == 'the binary' and o.value[1] is t, 'the program and its target are the result', o)


@harness('R01', 'running a point: in its directory, with its data', [RN + 'mccode_run_compiled'], sym=False, weight=0.2)
def h_run_compiled(vc):
    r, rn = modules()
    from pathlib import Path
    import shutil
    import mccode_antlr.compiler.c as cc
    import importlib
    loader = importlib.import_module('mccode_antlr.loader')
    binary, target, ran, result = object(), object(), [], object()
    top = Path(tempfile.mkdtemp())
    d = top / vc.choice('directory', ('data', 'a/0', 'b.c'))
    text = vc.choice('text', ('', '-n 5 a=1', '--seed 3 a=1.5 b=2'))
    cap, dry = vc.choice('capture', (True, False)), vc.choice('dry', (True, False))
    files = [n for n in ('m.dat', 'n.dat', 'det.1.dat', 'det.2.dat', 'deep.er/s.dat', 'deep/er/o.dat', 'mccode.sim', 'p.txt') if vc.choice(n, (False, True))]
    (top / 'q.dat').write_text('')
    def run(*a, **k):
        ran.append((a, k))
        for n in files:
            (d / n).parent.mkdir(parents=True, exist_ok=True)
            (d / n).write_text(n)
        return result
    keep = cc.run_compiled_instrument, loader.read_mccode_dat
    cc.run_compiled_instrument, loader.read_mccode_dat = run, lambda f: ('read', Path(f).resolve())
    mine = {n: vars(rn)[n] for n in ('run_compiled_instrument', 'read_mccode_dat') if n in vars(rn)}
    for n, v in (('run_compiled_instrument', run), ('read_mccode_dat', loader.read_mccode_dat)):
        if n in mine: setattr(rn, n, v)
    try: o = vc.run(rn.mccode_run_compiled, binary, target, d if vc.choice('path', (True, False)) else str(d), text, capture=cap, dry_run=dry)
    finally:
        cc.run_compiled_instrument, loader.read_mccode_dat = keep
        for n, v in mine.items(): setattr(rn, n, v)
        full = d.resolve()
        shutil.rmtree(top)
    vc.check(not o.raised and len(ran) == 1, 'the program is run once', o)
    a, k = ran[0]
    named = dict(zip(('binary', 'target', 'options', 'capture', 'dry_run'), a), **k)
    vc.check(named['binary'] is binary and named['target'] is target and bool(named.get('capture')) is cap and bool(named.get('dry_run')) is dry, 'the program is run as asked for', lambda: named)
    words = named['options'].split()
    at = [i for i, w in enumerate(words) if w in ('--dir', '-d') or w.startswith('--dir=')]
    vc.check(len(at) == 1, 'data is put in the directory of the point', words)
    i = at[0]
    where, rest = (words[i][6:], words[:i] + words[i + 1:]) if '=' in words[i] else (words[i + 1], words[:i] + words[i + 2:])
    vc.check(Path(where) == d and rest == text.split(), 'it is run with its directory, options and values', lambda: (words, text))
    vc.check(o.value[0] is result, 'the result is that of the run')
    vc.check(o.value[1] == {Path(n).stem: ('read', full / n) for n in files if n.endswith('.dat')}, 'the data of the point is read', lambda: (files, o.value[1]))
