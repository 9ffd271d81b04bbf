"""L01: the files which a program writes are read, combined and written again without change of what they say."""
from vc.api import harness, Discard

DF = 'src/mccode_antlr/loader/datfile.py '
SF = 'src/mccode_antlr/loader/simfile.py '


# ------------------------------------------------------------------ arrays
class Arr:
    """an array of any size: get(index) is its element there; contracts of the operations of numpy, element by element"""
    def __init__(self, vc, shape, get): self.vc, self.shape, self.get = vc, tuple(shape), get
    @property
    def ndim(self): return len(self.shape)
    def first(self, k):
        if isinstance(k, tuple):
            rest = [x for x in k[1:] if x is not Ellipsis and x != slice(None)]
            if rest: raise_unsupported('index of an array')
            k = k[0]
        return k
    def __getitem__(self, k):
        k = self.first(k)
        if k is Ellipsis or k == slice(None): return self
        n = self.shape[0]
        if isinstance(k, slice):
            if k.step is not None or not isinstance(k.start, int) or k.start >= 0 or k.stop is not None: raise_unsupported('slice of an array')
            return Arr(self.vc, (-k.start,) + self.shape[1:], lambda i: self.get((n + k.start + i[0],) + tuple(i[1:])))
        j = n + k if isinstance(k, int) and k < 0 else k
        return Arr(self.vc, self.shape[1:], lambda i: self.get((j,) + tuple(i)))
    def __setitem__(self, k, v):
        k, n, old = self.first(k), self.shape[0], self.get
        if isinstance(k, slice):
            if k.step is not None or not isinstance(k.start, int) or k.start >= 0 or k.stop is not None: raise_unsupported('slice of an array')
            lo = n + k.start
            self.get = lambda i: v.get((i[0] - lo,) + tuple(i[1:])) if self.vc_true(i[0] >= lo) else old(i)
        else:
            j = n + k if isinstance(k, int) and k < 0 else k
            self.get = lambda i: v.get(tuple(i[1:])) if self.vc_true(self.vc.eq(i[0], j)) else old(i)
    @staticmethod
    def vc_true(x): return bool(x)
    def both(self, o, f):
        if isinstance(o, Arr): return Arr(self.vc, self.shape, lambda i: f(self.get(i), o.get(i)))
        return Arr(self.vc, self.shape, lambda i: f(self.get(i), o))
    def __add__(self, o): return self.both(o, lambda a, b: a + b)
    def __sub__(self, o): return self.both(o, lambda a, b: a - b)
    def __mul__(self, o): return self.both(o, lambda a, b: a * b)
    __radd__, __rmul__ = __add__, __mul__
    def __pow__(self, o):
        if o == 0.5: return Arr(self.vc, self.shape, lambda i: root(self.vc, self.get(i)))
        return self.both(o, lambda a, b: a * a if b == 2 else raise_unsupported('power'))
    def copy(self): return Arr(self.vc, self.shape, self.get)
    def __deepcopy__(self, memo): return self.copy()
    __hash__ = None
    def __eq__(self, o): raise_unsupported('comparing arrays')


def raise_unsupported(m):
    from vc.core import Unsupported
    raise Unsupported(m)


def root(vc, x):
    from vc import smath
    return smath.sqrt(x)


def numpy_contracts(vc):
    """numpy functions, while the code runs"""
    import numpy
    undo = []
    def sqrt(x): return Arr(vc, x.shape, lambda i: root(vc, x.get(i))) if isinstance(x, Arr) else root(vc, x)
    def hypot(x, y): return sqrt(x * x + y * y)
    def square(x): return x * x
    for n, f in (('sqrt', sqrt), ('hypot', hypot), ('square', square), ('array', lambda x, *a, **k: x.copy() if isinstance(x, Arr) else raise_unsupported('array'))):
        undo.append((n, getattr(numpy, n)))
        setattr(numpy, n, f)
    return lambda: [setattr(numpy, n, f) for n, f in undo]


@harness('L01', 'data: intensities, errors and events', [DF + 'combine_scan_data'])
def h_data(vc):
    from mccode_antlr.loader.datfile import combine_scan_data
    dim = vc.choice('ndim', (1, 2, 3))
    nv = vc.int('variables', 3, 6)
    vc.assume(nv >= 3)
    if not vc.sym:
        import numpy
        shape = (nv,) + tuple(vc.int(f'n{k}', 1, 4) for k in range(dim - 1))
        size = int(numpy.prod(shape))
        a, b = [numpy.array([vc.real(f'{n}{k}') for k in range(size)], dtype=float).reshape(shape) for n in 'ab']
        was = a.copy(), b.copy()
        o = vc.run(combine_scan_data, a, b)
        vc.check(not o.raised and o.value.shape == shape, 'data of one shape can be combined', o)
        c = o.value
        want = a.copy(); want[-3], want[-2], want[-1] = was[0][-3] + was[1][-3], numpy.sqrt(was[0][-2]**2 + was[1][-2]**2), was[0][-1] + was[1][-1]
        vc.check(numpy.allclose(c, want, rtol=1e-9, atol=1e-12), 'intensities and events add up, errors in quadrature, and nothing else changes', lambda: f'{was} {c}')
        vc.check((a == was[0]).all() and (b == was[1]).all(), 'what is combined is left as it was', '')
        o = vc.run(combine_scan_data, a, numpy.zeros(shape + (1,)))
        vc.check(o.raised, 'data of different shapes are refused', o)
        return
    sizes = [vc.int(f'n{k}', 1, 4) for k in range(dim - 1)]
    for s in sizes: vc.assume(s >= 1)
    shape = (nv, *sizes)
    memo = {}
    index = tuple(vc.int(f'i{k}', 0, 3) for k in range(dim))
    for i, s in zip(index, shape): vc.assume(i >= 0); vc.assume(i < s)
    def source(n):
        # one element is looked at, any of them
        x = vc.real(f'{n} there')
        def get(i):
            for p, q in zip(i, index):
                if not vc_eq(p, q): raise_unsupported('another element')
            return x
        return Arr(vc, shape, get), x
    def vc_eq(p, q): return p is q or bool(vc.eq(p, q))
    (a, x), (b, y) = source('a'), source('b')
    ga, gb = a.get, b.get
    undo = numpy_contracts(vc)
    try:
        o = vc.run(combine_scan_data, a, b)
        vc.check(not o.raised and isinstance(o.value, Arr), 'data of one shape can be combined', o)
        c = o.value
        vc.check(len(c.shape) == dim, 'data of one shape can be combined', o)
        got = c.get(index)
    finally: undo()
    v = index[0]
    if vc_eq(v, nv - 2): vc.check(vc.and_(got >= 0, vc.eq(got * got, x * x + y * y)), 'errors add up in quadrature', lambda: f'{got}')
    elif bool(v >= nv - 3): vc.check(vc.eq(got, x + y), 'intensities and events add up', lambda: f'{got}')
    else: vc.check(vc.eq(got, x), 'nothing else changes', lambda: f'{got}')
    vc.check(a.get is ga and b.get is gb, 'what is combined is left as it was', '')


# ------------------------------------------------------------------ data files
NAMES = ('E', 'Seed_x', 'Ncount2', 'lambda0', 'signal', 'Date')


def number(vc, n): return vc.choice(n, ('0', '1', '2.5', '1e-07', '-3.25', '123456.789', '1e+20', '0.1', '7'))


def a_dat(vc, n, like=None):
    """text of a data file, its parts; like: another one of the same monitor"""
    f = lambda name, pool: vc.choice(f'{n}.{name}', pool)
    d = dict(like or {})
    if like is None:
        d['dim'] = f('dim', (0, 1, 2))
        d['nx'], d['ny'] = vc.size(n + '.nx', 1, 4), vc.size(n + '.ny', 1, 3)
        d['comp'], d['file'] = f('comp', ('psd', 'Ncount_mon', 'a_filename')), f('file', ('psd.dat', 'mon_Date.dat'))
        d['labels'] = f('labels', (0, 1)) if d['dim'] == 0 else 0
        d['title'] = f('title', ('Intensity', 'I [a: b] # 2', '', 'Param = 1'))
        d['params'] = {p: f(f'text{k}', (None, None, None, 'C:/x.dat', 'a=b', 'two words', 'Param: z')) or number(vc, f'{n}.par{k}') for k, p in enumerate(NAMES[:vc.size(n + '.pars', 0, 4)])}
        d['vars'] = (['x'] if f('x', (True, False)) else ['t', 'x']) if d['dim'] == 1 else []
        d['axes'] = [[number(vc, f'{n}.axis{k}.{j}') for j in range(d['nx'])] for k in range(len(d['vars']))]
    d['ncount'], d['seed'], d['dir'] = f('ncount', ('1000', '10', '123456')), f('seed', ('12', '123', '7')), f('dir', ('a', 'ab', 'run 1'))
    d['date'] = f('date', ('Mon Jan 1 2024', 'Tue Jan 2 2024'))
    d['values'] = ' '.join((number(vc, n + '.I').lstrip('-'), number(vc, n + '.E').lstrip('-'), f('N', ('0', '3', '100'))))
    size = {0: 1, 1: d['nx'], 2: d['nx'] * d['ny']}[d['dim']]
    d['data'] = [[number(vc, f'{n}.{w}{k}').lstrip('-' if w == 'E' else '') for k in range(size)] for w in ('I', 'E', 'N')]
    vs = d['vars'] + ['I', 'I_err', 'N']
    dim = d['dim']
    meta = [('Format', 'McCode with text headers'), ('URL', 'http://www.mccode.org'), ('Creator', 'McStas 3.5'), ('Instrument', 'x.instr'), ('Ncount', d['ncount']), ('Trace', 'no'), ('Gravitation', 'no'), ('Seed', d['seed']), ('Directory', d['dir'])]
    late = [('Date', d['date']), ('type', {0: 'array_0d', 1: f"array_1d({d['nx']})", 2: f"array_2d({d['nx']}, {d['ny']})"}[dim]), ('Source', 'x (x.instr)'), ('component', d['comp']), ('position', '0 0 1'), ('title', d['title']), ('Ncount', d['ncount']),
            ('filename', d['file']), ('statistics', 'X0=1; dX=2;'), ('signal', 'Min=0; Max=1; Mean=0.5;'), ('values', d['values'])]
    if dim >= 1: late += [('xvar', 'x'), ('yvar', 'I'), ('xlabel', 'x [m]'), ('ylabel', 'Intensity')]
    if dim == 0 and d['labels']: late += [('yvar', '(I,I_err)'), ('ylabel', 'Intensity')]
    if dim == 2: late += [('zvar', 'I'), ('zlabel', 'Signal')]
    late += [('xlimits', '-1 1') if dim == 1 else ('xylimits', '-1 1 -2 2' if dim else ''), ('variables', ' '.join(vs))]
    lines = [f'# {k}: {v}' for k, v in meta] + [f'# Param: {k}={v}' for k, v in d['params'].items()] + [f'# {k}: {v}' for k, v in late]
    if dim == 2:
        for lab, v, col in zip(('Data', 'Errors', 'Events'), vs, d['data']):
            lines.append(f"# {lab} [{d['comp']}/{d['file']}] {v}:")
            lines += [' '.join(col[j * d['nx']:(j + 1) * d['nx']]) + ' ' for j in range(d['ny'])]
    else:
        cols = d['axes'] + d['data']
        lines += [' '.join(c[j] for c in cols) for j in range(d['nx'] if dim else 1)]
    return '\n'.join(lines) + '\n', d, dict(meta + late), vs


def shaped(d):
    import numpy
    cols = numpy.array([[float(x) for x in c] for c in d['axes'] + d['data']])
    return cols.reshape((cols.shape[0],) + {0: (), 1: (d['nx'],), 2: (d['ny'], d['nx'])}[d['dim']])


class Scratch:
    def __enter__(self):
        import tempfile
        from pathlib import Path
        self.p = Path(tempfile.mkdtemp())
        return self.p
    def __exit__(self, *a):
        import shutil
        shutil.rmtree(self.p)


DATCLASSES = [DF + f'{c}.{m}' for c in ('DatFile0D', 'DatFile1D', 'DatFile2D') for m in ('__post_init__', 'print_data', 'parts', 'safe_to_combine', '__add__')]


def of_dat(vc, got, d, meta, vs, label):
    import numpy
    from mccode_antlr.loader import datfile as m
    vc.check(type(got) is (m.DatFile0D, m.DatFile1D, m.DatFile2D)[d['dim']], 'a data file has its dimension', lambda: f'{type(got)}')
    vc.check(got.variables == vs, 'a data file has its variables', lambda: f'{got.variables}')
    vc.check({k: str(got.metadata.get(k)) for k in meta} == meta, label, lambda: f'{got.metadata}\n{meta}')
    vc.check(got.parameters == d['params'], 'a data file has its parameters', lambda: f'{got.parameters}')
    want = shaped(d)
    vc.check(got.data.shape == want.shape and numpy.array_equal(got.data, want), 'a data file has its data', lambda: f'{got.data}\n{want}')
    for k, v in enumerate(vs): vc.check(numpy.array_equal(got[v], want[k]), 'each variable by its name', v)


@harness('L01', 'data files: read and written', [DF + n for n in ('read_mccode_dat', 'DatFileCommon.from_filename', 'DatFileCommon.to_filename', 'DatFileCommon.__getitem__')] + DATCLASSES, sym=False, weight=1.5)
def h_dat(vc):
    from mccode_antlr.loader import read_mccode_dat
    text, d, meta, vs = a_dat(vc, 'a')
    meta['title'] = meta['title'].strip(' #')
    with Scratch() as p:
        (p / 'a.dat').write_text(text)
        o = vc.run(read_mccode_dat, p / 'a.dat' if vc.choice('path', (True, False)) else str(p / 'a.dat'))
        vc.check(not o.raised, 'a data file can be read', lambda: f'{o}\n{text}')
        of_dat(vc, o.value, d, meta, vs, 'a data file has its metadata')
        for k, v in d['params'].items(): vc.check(o.value[k] == v, 'each parameter by its name', k)
        o2 = vc.run(o.value.to_filename, str(p / 'b.dat'))
        vc.check(not o2.raised, 'a data file can be written', lambda: f'{o2}\n{text}')
        o3 = vc.run(read_mccode_dat, p / 'b.dat')
        vc.check(not o3.raised, 'what is written can be read', lambda: f'{o3}\n{(p / "b.dat").read_text()}')
        of_dat(vc, o3.value, d, meta, vs, 'what is written has its metadata')
        o4 = vc.run(o.value.to_filename, str(p / 'b.dat'))
        vc.check(o4.raised, 'no file is overwritten', o4)


@harness('L01', 'data files: combined', [DF + n for n in ('write_combined_mccode_dats', 'combine_mccode_dats', 'combine_scan_dicts', 'combine_scan_lists', 'combine_scan_data', 'DatFileCommon.__add__')] + DATCLASSES, sym=False, weight=2)
def h_combine(vc):
    import numpy
    from math import hypot
    from mccode_antlr.loader import read_mccode_dat
    from mccode_antlr.loader.datfile import write_combined_mccode_dats, combine_mccode_dats
    parts = [a_dat(vc, 'f0')]
    for k in range(1, vc.size('files', 1, 4)): parts.append(a_dat(vc, f'f{k}', parts[0][1]))
    bad = vc.choice('bad', (None, None, 'parameter', 'shape', 'limits', 'component', 'fewer')) if len(parts) > 1 else None
    with Scratch() as p:
        names = []
        for k, (t, d, *_) in enumerate(parts):
            if k == len(parts) - 1 and bad:
                was = t
                if bad == 'parameter':
                    i = vc.choice('which', tuple(range(len(NAMES))))
                    if NAMES[i] not in d['params']: raise Discard()
                    t = t.replace(f'# Param: {NAMES[i]}={d["params"][NAMES[i]]}\n', f'# Param: {NAMES[i]}=999\n')
                elif bad == 'limits': t = t.replace('limits: -1 1', 'limits: -1 11')
                elif bad == 'component': t = t.replace(f'# component: {d["comp"]}\n', '# component: other\n')
                elif bad == 'fewer':
                    if not d['params']: raise Discard()
                    q = list(d['params'])[-1]
                    t = t.replace(f'# Param: {q}={d["params"][q]}\n', '')
                else: t, *_ = a_dat(vc, 'other')
                if t == was: raise Discard()
                if bad == 'shape':
                    if _[0]['dim'] == d['dim'] and (_[0]['dim'] == 0 or _[0]['nx'] == d['nx'] and (_[0]['dim'] == 1 or _[0]['ny'] == d['ny']) and len(_[0]['vars']) == len(d['vars'])): raise Discard()
            names.append(p / f'{k}.dat')
            names[-1].write_text(t)
        o = vc.run(write_combined_mccode_dats, names, p / 'out.dat')
        if bad:
            vc.check(o.raised and not (p / 'out.dat').exists(), 'what does not fit together is refused', lambda: f'{bad} {o}')
            return
        vc.check(not o.raised, 'files of one monitor can be combined', lambda: f'{o}')
        o = vc.run(read_mccode_dat, p / 'out.dat')
        vc.check(not o.raised, 'what is written can be read', o)
        read = [read_mccode_dat(f) for f in names]
        both = vc.run(combine_mccode_dats, read)
        vc.check(not both.raised and numpy.allclose(both.value.data, o.value.data, rtol=1e-12), 'what is combined is written', both)
        for x, f in zip(read, names):
            y = read_mccode_dat(f)
            vc.check((x.metadata, x.parameters, x.variables) == (y.metadata, y.parameters, y.variables) and numpy.array_equal(x.data, y.data), 'what is combined is left as it was', lambda: f'{x}')
        got, (t, d, meta, vs) = o.value, parts[0]
        ds = [x[1] for x in parts]
        ws = [shaped(x) for x in ds]
        want = ws[0].copy()
        want[-3], want[-2], want[-1] = sum(w[-3] for w in ws), numpy.sqrt(sum(w[-2]**2 for w in ws)), sum(w[-1] for w in ws)
        vc.check(got.data.shape == want.shape and numpy.allclose(got.data, want, rtol=1e-9, atol=1e-12), 'intensities and events add up, errors in quadrature', lambda: f'{got.data}\n{want}')
        vc.check(got.variables == vs and got.parameters == d['params'], 'variables and parameters are those of all', lambda: f'{got.variables} {got.parameters}')
        vc.check(int(got.metadata['Ncount']) == sum(int(x['ncount']) for x in ds), 'the counts of simulated rays add up', got.metadata['Ncount'])
        seeds = list(dict.fromkeys(x['seed'] for x in ds))
        vc.check(got.metadata['Seed'].split() == seeds, 'each seed is kept', got.metadata['Seed'])
        for x in ds: vc.check(f" {x['dir']} " in f" {got.metadata['Directory']} " and x['date'] in got.metadata['Date'], 'each directory and date is kept', lambda: f'{got.metadata}')
        for k in ('component', 'title', 'type', 'position', 'filename', 'Instrument', 'variables'): vc.check(got.metadata[k] == (meta[k] if k != 'title' else meta[k].strip(' #')), 'the rest is that of all', k)
        vs_ = [[float(y) for y in x['values'].split()] for x in ds]
        g = [float(y) for y in got.metadata['values'].split()]
        w = [sum(v[0] for v in vs_), sum(v[1]**2 for v in vs_)**.5, sum(v[2] for v in vs_)]
        vc.check(len(g) == 3 and all(abs(a - b) <= 1e-9 * abs(b) + 1e-12 for a, b in zip(g, w)), 'the totals are those of all', lambda: f'{g} {w}')


# ------------------------------------------------------------------ simulation files
def a_datum(vc, n, like=None):
    f = lambda name, pool: vc.choice(f'{n}.{name}', pool)
    d = dict(like or {})
    if like is None:
        d['dim'] = f('dim', ('0 old', 0, 1, 2))
        d['component'], d['filename'] = f('component', ('psd', 'mon', 'psd2')), f('filename', ('psd.dat', 'mon.dat'))
        d['title'] = f('title', ('Intensity', 'Legend data', 'a: begin data', ''))
    d['Date'] = f('date', ('Mon Jan 1 2024', 'Tue: Jan 2'))
    d['Ncount'] = f('ncount', ('1000', '10'))
    none = lambda name, t: 'None' if f(name, (False, False, True)) else t
    d['I'], d['E'], d['N'] = number(vc, n + '.I').lstrip('-'), number(vc, n + '.E').lstrip('-'), f('N', ('0', '3', '100'))
    d['signal'] = none('no signal', f'Min={number(vc, n + ".min")}; Max={number(vc, n + ".max")}; Mean={number(vc, n + ".mean")};')
    st = lambda a: f'{a}0={number(vc, n + "." + a + "0")}; d{a}={number(vc, n + ".d" + a).lstrip("-")};'
    d['statistics'] = none('no statistics', st('X') + (' ' + st('Y') if d['dim'] == 2 else ''))
    dim = d['dim']
    kv = [('Date', d['Date']), ('type', 'array_' + str(dim)), ('Source', 'x'), ('component', d['component']), ('position', '0 0 1'), ('title', d['title']), ('Ncount', d['Ncount'])]
    if dim != '0 old': kv.append(('filename', d['filename']))
    kv += [('statistics', d['statistics']), ('signal', d['signal']), ('values', f"{d['I']} {d['E']} {d['N']}")]
    if dim in (1, 2): kv += [('xvar', 'x'), ('yvar', 'y'), ('xlabel', 'x: [m]'), ('ylabel', 'y')]
    if dim == 2: kv += [('zvar', 'z'), ('zlabel', 'z')]
    kv += [('xlimits' if dim == 1 else 'xylimits', '-1 1'), ('variables', 'I I_err N')]
    return d, kv


def a_sim(vc, n, data, repeat=None):
    f = lambda name, pool: vc.choice(f'{n}.{name}', pool)
    s = dict(repeat or {})
    if repeat is None:
        s['instr'] = [('name', f('name', ('main', 'a', 'end instrument'))), ('File', f('file', ('x.c', 'xx.c'))), ('Source', f('source', ('x.instr', '/a/begin simulation: /x'))), ('Parameters', f('parameters', ('', 'a(double)', 'ba(double) c(int)', 'c(int) a(double)'))),
                      ('Trace_enabled', f('te', ('no', 'yes'))), ('Default_main', f('dm', ('yes', 'no'))), ('Embedded_runtime', f('er', ('yes', 'no')))]
        s['sim'] = [('Format', 'McCode'), ('URL', 'http://x'), ('Creator', f('creator', ('McStas 3.5', 'McStas 3'))), ('Instrument', 'x.instr'), ('Ncount', '0'), ('Trace', f('trace', ('no', 'yes'))), ('Gravitation', f('gravity', ('no', 'yes'))), ('Seed', '0'), ('Directory', f('dir', ('a', 'ab', 'a b')))]
        s['params'] = [f'{p}={number(vc, f"{n}.{p}")}' for p in ('a', 'b')[:vc.size(n + '.params', 0, 2)]]
        s['head'] = [f('description', ('McStas simulation description file for x.', 'file for x')), f('date', ('Date: Mon', 'Date: Mon Jan 1')), f('program', ('Program: x', 'Program: x (xx)'))]
    s['ncount'], s['seed'] = f('ncount', ('1000', '10')), f('seed', ('1', '12'))
    lines = s['head'] + ['', f"begin instrument: {s['instr'][0][1]}"] + [f'  {k}: {v}' for k, v in s['instr'][1:]] + ['end instrument', '', 'begin simulation: .']
    lines += [f'  {k}: {dict(Ncount=s["ncount"], Seed=s["seed"]).get(k, v)}' for k, v in s['sim']] + [f'  Param: {p}' for p in s['params']] + ['end simulation', '']
    for d, kv in data: lines += ['begin data'] + [f'  {k}: {v}' for k, v in kv] + ['end data', '']
    s['data'] = data
    return '\n'.join(lines) + '\n', s


def of_sim(vc, got, s, label):
    g = got.header
    vc.check([g.description, 'Date: ' + g.Date, 'Program: ' + g.Program] == s['head'], label, lambda: f'{g}')
    g = got.instrument
    vc.check([(k, {True: 'yes', False: 'no'}.get(getattr(g, k), getattr(g, k))) for k, _ in s['instr']] == s['instr'], label, lambda: f'{g} {s["instr"]}')
    g = got.simulation
    want = [(k, dict(Ncount=s['ncount'], Seed=s['seed']).get(k, v)) for k, v in s['sim']]
    vc.check([(k, {True: 'yes', False: 'no'}.get(getattr(g, k), str(getattr(g, k))) if k in ('Trace', 'Gravitation') else str(getattr(g, k))) for k, _ in want] == want and g.Params == s['params'], label, lambda: f'{g} {want}')
    vc.check(len(got.data) == len(s['data']), label, lambda: f'{got.data}')
    for x, (d, kv) in zip(got.data, s['data']): vc.check([(k, str(getattr(x, k))) for k, _ in kv] == kv and x.keywords == [k for k, _ in kv], label, lambda: f'{x} {kv}')


SIMCLASSES = [SF + f'{c}.{m}' for c in ('SimFileHeader', 'SimFileInstrument', 'SimFileSimulation', 'SimFileData', 'SimFile') for m in ('parse', 'to_file')]


def read_sim(vc, p, text):
    from mccode_antlr.loader import read_mccode_sim
    p.write_text(text)
    o = vc.run(read_mccode_sim, p if vc.choice('path', (True, False)) else str(p))
    vc.check(not o.raised, 'a simulation file can be read', lambda: f'{o}\n{text}')
    return o.value


@harness('L01', 'simulation files: read and written', SIMCLASSES + [SF + 'read_keywords', SF + 'SimFile.load', SF + 'SimFile.save'], sym=False, weight=1)
def h_sim(vc):
    text, s = a_sim(vc, 's', [a_datum(vc, f'd{k}') for k in range(vc.size('data', 0, 3))])
    with Scratch() as p:
        got = read_sim(vc, p / 'a.sim', text)
        of_sim(vc, got, s, 'a simulation file says what it says')
        o = vc.run(got.save, p / 'b.sim')
        vc.check(not o.raised, 'a simulation file can be written', o)
        from mccode_antlr.loader import read_mccode_sim
        o = vc.run(read_mccode_sim, p / 'b.sim')
        vc.check(not o.raised, 'what is written can be read', o)
        of_sim(vc, o.value, s, 'what is written says the same')


def in_words(sim):
    from io import StringIO
    f = StringIO()
    sim.to_file(f)
    return f.getvalue()


def has_parts(t, u, sep=' + '): return set(u.split(sep)) <= set(t.split(sep))


@harness('L01', 'simulation files: combined', [SF + n for n in ('combine_mccode_sims', 'write_combined_mccode_sims', 'SimFileHeader.combine', 'SimFileInstrument.combine', 'SimFileSimulation.combine', 'SimFileSimulation.__eq__', 'SimFileData.combine', 'SimFileData.is_repeat')], sym=False, weight=2)
def h_sims(vc):
    from math import sqrt
    from mccode_antlr.loader import read_mccode_sim
    from mccode_antlr.loader.simfile import write_combined_mccode_sims, combine_mccode_sims
    n = vc.size('n', 1, 4)
    first = []
    for k in range(vc.size('data', 0, 3)):
        x = a_datum(vc, f'd0.{k}')
        if not any(same_monitor(x[0], y[0]) for y in first): first.append(x)
    sims = [a_sim(vc, 's0', first)]
    for j in range(1, n):
        data = []
        for k, (d, kv) in enumerate(first):
            if vc.choice(f'has {j}.{k}', (True, True, False)): data.append(a_datum(vc, f'd{j}.{k}', d))
        if vc.choice(f'more {j}', (False, True)):
            x = a_datum(vc, f'more{j}')
            if not any(same_monitor(x[0], y[0]) for y in data): data.append(x)
        sims.append(a_sim(vc, f's{j}', data, sims[0][1] if vc.choice(f'repeat {j}', (True, False)) else None))
    with Scratch() as p:
        for k, (t, s) in enumerate(sims): (p / f'{k}.sim').write_text(t)
        groups = {}
        for t, s in sims:
            for d, kv in s['data']: groups.setdefault(key(d), []).append((d, kv))
        fits = all(fixed(x[1]) == fixed(g[0][1]) for g in groups.values() for x in g)
        o = vc.run(write_combined_mccode_sims, [p / f'{k}.sim' for k in range(n)], p / 'out.sim')
        if not fits:
            vc.check(o.raised and not (p / 'out.sim').exists(), 'other monitors of the same name are refused', lambda: f'{o}')
            return
        vc.check(not o.raised, 'simulation files can be combined', lambda: f'{o}')
        parts = [read_mccode_sim(p / f'{k}.sim') for k in range(n)]
        o = vc.run(combine_mccode_sims, parts)
        vc.check(not o.raised, 'simulation files can be combined', lambda: f'{o}')
        for k in range(n): vc.check(in_words(parts[k]) == in_words(read_mccode_sim(p / f'{k}.sim')), 'what is combined is left as it was', lambda: f'{parts[k]}')
        vc.check((p / 'out.sim').is_file(), 'what is combined is written', o)
        vc.check(in_words(o.value) == (p / 'out.sim').read_text(), 'what is combined is written', lambda: f'{o}')
        o = vc.run(read_mccode_sim, p / 'out.sim')
        vc.check(not o.raised, 'what is written can be read', o)
        got = o.value
        for t, s in sims:
            vc.check(has_parts(got.header.description, s['head'][0]) and has_parts('Date: ' + got.header.Date, s['head'][1]) or has_parts(got.header.Date, s['head'][1][6:]), 'headers are kept', lambda: f'{got.header} {s["head"]}')
            vc.check(has_parts(got.header.Program, s['head'][2][9:]), 'headers are kept', lambda: f'{got.header}')
            i = dict(s['instr'])
            for w in ('name', 'File', 'Source'): vc.check(has_parts(getattr(got.instrument, w), i[w]), 'instruments are kept', lambda: f'{got.instrument} {i}')
            vc.check(set(i['Parameters'].split()) <= set(got.instrument.Parameters.split()), 'parameters are kept', lambda: f'{got.instrument} {i}')
            m = dict(s['sim'])
            for w in ('Creator', 'Directory'): vc.check(has_parts(getattr(got.simulation, w), m[w]), 'simulations are kept', lambda: f'{got.simulation} {m}')
            vc.check(set(s['params']) <= set(got.simulation.Params), 'parameters are kept', lambda: f'{got.simulation}')
        vc.check(set(got.instrument.Parameters.split()) == {q for _, s in sims for q in dict(s['instr'])['Parameters'].split()} and set(got.simulation.Params) == {q for _, s in sims for q in s['params']}, 'parameters are those of the simulations', '')
        for w, k in [(w, 'instr') for w in ('Trace_enabled', 'Default_main', 'Embedded_runtime')] + [(w, 'sim') for w in ('Trace', 'Gravitation')]:
            vc.check(getattr(got.instrument if k == 'instr' else got.simulation, w) is all(dict(s[k])[w] == 'yes' for _, s in sims), 'what holds for all parts holds for the whole', lambda: f'{w} {got}')
        if all(dict(s['sim']) == dict(sims[0][1]['sim']) and set(s['params']) == set(sims[0][1]['params']) for _, s in sims): vc.check(got.simulation.Ncount == sum(int(s['ncount']) for _, s in sims), 'the counts of repeated simulations add up', lambda: f'{got.simulation}')
        vc.check([(x.component, x.filename) for x in got.data] == list(groups), 'each monitor once, in order', lambda: f'{got.data}')
        for x, g in zip(got.data, groups.values()):
            vc.check(x.Ncount == sum(int(d['Ncount']) for d, _ in g), 'the counts of simulated rays add up', lambda: f'{x}')
            vc.check(all(str(getattr(x, k)) == v for k, v in fixed(g[0][1])), 'the rest is that of all', lambda: f'{x}')
            v = [float(y) for y in x.values.split()]
            I, E, N = [[float(d[w]) for d, _ in g] for w in 'IEN']
            w = [sum(I), sqrt(sum(e * e for e in E)), sum(N)]
            vc.check(len(v) == 3 and all(near(a, b) for a, b in zip(v, w)), 'intensities and events add up, errors in quadrature', lambda: f'{v} {w}')
            sig = [numbers(d['signal']) for d, _ in g]
            if any(q is None for q in sig): vc.check(x.signal == 'None', 'what is not known of a part is not known', x.signal)
            else:
                s_ = numbers(x.signal)
                vc.check(s_ is not None and near(s_['Min'], min(q['Min'] for q in sig)) and near(s_['Max'], max(q['Max'] for q in sig)), 'minimum and maximum are those of all', lambda: f'{x.signal} {sig}')
                if len(g) == 2 or all(N): vc.check(near(s_['Mean'], mean([q['Mean'] for q in sig], N)), 'the mean is that of all', lambda: f'{x.signal} {sig} {N}')
            st = [numbers(d['statistics']) for d, _ in g]
            if any(q is None for q in st): vc.check(x.statistics == 'None', 'what is not known of a part is not known', x.statistics)
            elif len(g) == 2 or all(N):
                s_ = numbers(x.statistics)
                for a in 'XY':
                    if a + '0' not in st[0]: continue
                    c = mean([q[a + '0'] for q in st], N)
                    w = mean([q['d' + a]**2 + q[a + '0']**2 for q in st], N) - c * c
                    vc.check(near(s_[a + '0'], c), 'the center is that of all', lambda: f'{x.statistics} {st} {N}')
                    vc.check(abs(s_['d' + a]**2 - w) <= 1e-6 * (abs(w) + c * c + 1e-6), 'the width is that of all', lambda: f'{x.statistics} {st} {N} {w}')


def mean(xs, ws):
    if not sum(ws): ws = [1] * len(xs)
    return sum(x * w for x, w in zip(xs, ws)) / sum(ws)
def near(a, b): return abs(a - b) <= 1e-9 * abs(b) + 1e-9
def numbers(t): return None if 'None' in t else {k: float(v) for k, v in (z.strip(';').split('=') for z in t.split())}
def key(d): return d['component'], (None if d['dim'] == '0 old' else d['filename'])
def same_monitor(a, b): return key(a) == key(b)
def fixed(kv): return [(k, v) for k, v in kv if k not in ('Date', 'Ncount', 'statistics', 'signal', 'values')]


def file_number(vc, n, v=None):
    """a number as it is written in a file"""
    return text_of(vc, v)


@harness('L01', 'simulation files: monitors combined', [SF + 'SimFileData.combine', SF + 'SimFileData.is_repeat'], weight=1)
def h_datum(vc):
    from mccode_antlr.loader.simfile import SimFileData
    keys = ['Date', 'type', 'Source', 'component', 'position', 'title', 'Ncount', 'filename', 'statistics', 'signal', 'values', 'xvar', 'variables']
    same = {k: k + ' x' for k in keys}
    def make(n):
        def real_or_int(w):
            if vc.choice(w + '.int', (False, True)): return vc.int(w, 0, 1000)
            x = vc.real(w)
            vc.assume(vc.not_(x.is_integer()))
            return x
        i, e, c = real_or_int(n + '.I'), real_or_int(n + '.E'), vc.int(n + '.N', 0, 1000)
        vc.assume(e >= 0); vc.assume(c >= 0)
        k = vc.int(n + '.ncount', 1, 10**6)
        if not vc.sym:
            w = lambda x: repr(float(x)) if not isinstance(x, int) else str(x)
        else:
            from vc.hooks import HOOKS
            w = HOOKS.b_str
        f = dict(same)
        f.update(Date=vc.choice(n + '.date', ('Mon', 'Tue')), Ncount=k, statistics='None', signal='None', values=w(i) + ' ' + w(e) + ' ' + w(c))
        return SimFileData(keywords=keys, **f), (i, e, c, k)
    a, (i1, e1, c1, k1) = make('a')
    b, (i2, e2, c2, k2) = make('b')
    o = vc.run(a.combine, b)
    vc.check(not o.raised, 'repeated monitors can be combined', o)
    x = o.value
    parts = x.values.split(' ')
    vc.check(len(parts) == 3, 'three values', x.values)
    num = float if not vc.sym else numeric
    I, E, N = [num(q) for q in parts]
    if vc.sym:
        vc.check(vc.eq(I, i1 + i2) and vc.eq(N, c1 + c2), 'intensities and events add up', lambda: f'{x.values}')
        vc.check(vc.and_(E >= 0, vc.eq(E * E, e1 * e1 + e2 * e2)), 'errors add up in quadrature', lambda: f'{x.values}')
    else:
        vc.check(near(I, i1 + i2) and near(N, c1 + c2), 'intensities and events add up', lambda: f'{x.values}')
        vc.check(near(E, (e1 * e1 + e2 * e2)**.5), 'errors add up in quadrature', lambda: f'{x.values}')
    vc.check(vc.eq(x.Ncount, k1 + k2), 'the counts of simulated rays add up', lambda: f'{x.Ncount}')
    vc.check(x.title == same['title'] and x.component == same['component'] and x.signal == 'None' and x.statistics == 'None', 'the rest is that of both', '')
    vc.check(vc.eq(a.Ncount, k1) and vc.eq(b.Ncount, k2), 'what is combined is left as it was', '')
    o = vc.run(a.combine, other(b, vc.choice('other', ('title', 'component', 'type', 'filename', 'xvar'))))
    vc.check(o.raised, 'other monitors are refused', o)


def other(d, k):
    import copy
    d = copy.copy(d)
    setattr(d, k, 'another')
    return d


def numeric(t):
    from vc.hooks import numeric_of
    x = numeric_of(t) if not isinstance(t, str) else float(t)
    if x is None: raise_unsupported(f'number of {t}')
    return x
