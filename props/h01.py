"""H01: an object which is saved in an HDF5 file is loaded as the same object."""
from vc.api import harness, Discard
from props.w01 import an_instr, read_text

H = 'src/mccode_antlr/io/hdf5.py '


def differ(a, b, at='', seen=None):
    """where two objects differ, '' if nowhere: types, fields and elements, instances by their name once they are known"""
    import enum, numpy
    seen = {} if seen is None else seen
    if a is b or a is None and b is None: return ''
    if isinstance(a, (numpy.generic,)): a = a.item()
    if isinstance(b, (numpy.generic,)): b = b.item()
    if type(a) is not type(b): return f'{at}: {type(a).__name__} {a!r} and {type(b).__name__} {b!r}'
    if isinstance(a, (str, int, float, bytes, enum.Enum)): return '' if a == b or a != a and b != b else f'{at}: {a!r} and {b!r}'
    if id(a) in seen: return '' if seen[id(a)] is b or not hasattr(a, 'at_relative') else f'{at}: another object'
    seen[id(a)] = b
    if isinstance(a, dict):
        if a.keys() != b.keys(): return f'{at}: {list(a)} and {list(b)}'
        return next((d for k in a if (d := differ(a[k], b[k], f'{at}[{k!r}]', seen))), '')
    if isinstance(a, (list, tuple)):
        if len(a) != len(b): return f'{at}: {len(a)} and {len(b)} elements'
        return next((d for k, (x, y) in enumerate(zip(a, b)) if (d := differ(x, y, f'{at}[{k}]', seen))), '')
    from pathlib import PurePath
    if isinstance(a, PurePath): return '' if a == b else f'{at}: {a} and {b}'
    x, y = vars(a), vars(b)
    if x.keys() != y.keys(): return f'{at}: fields {list(x)} and {list(y)}'
    return next((d for k in x if (d := differ(x[k], y[k], f'{at}.{k}', seen))), '')


def known_version(memo=[]):
    """the version of the package, which is slow to find, found once"""
    import importlib
    v = importlib.import_module('mccode_antlr.version')
    if not memo: memo.append(v.version())
    return v, memo[0]


def saved(vc, x, what):
    import shutil, tempfile
    from pathlib import Path
    v, is_ = known_version()
    v.version = lambda: is_
    from mccode_antlr.io import save_hdf5, load_hdf5
    d = Path(tempfile.mkdtemp())
    try:
        o = vc.run(save_hdf5, x, d / 'x.h5')
        vc.check(not o.raised, f'{what} can be saved', lambda: f'{o} {x}')
        o = vc.run(load_hdf5, d / 'x.h5')
        vc.check(not o.raised, f'{what} which is saved can be loaded', lambda: f'{o} {x}')
        return o.value
    finally: shutil.rmtree(d)


@harness('H01', 'instruments: saved and loaded', [H + 'save_hdf5', H + 'load_hdf5'], sym=False, weight=10)
def h_instr(vc):
    text = an_instr(vc)
    try: i = read_text(text)
    except Exception: raise Discard()
    if vc.choice('minimal', (False,) * 3 + (True,)):
        from mccode_antlr.common import Mode
        for x in i.components: x.orientation, x.mode = None, Mode.minimal
    if vc.choice('translated', (False,) * 2 + (True,)):
        for b in (*i.declare, *i.initialize, *(e for x in i.components for e in x.extend)): b.translated = '/* C */ ' + b.source
    got = saved(vc, i, 'an instrument')
    d = differ(i, got)
    vc.check(not d, 'an instrument is loaded as it was saved', lambda: f'{d}\n{text}')


TEXTS = ('', 'x', ' a\nb\t', '"q" \\n %d', 'µ → ÅÄ', '/a/b', '.', '%{ %}')


@harness('H01', 'objects: saved and loaded', [H + 'save_hdf5', H + 'load_hdf5'], sym=False, weight=6)
def h_objects(vc):
    import numpy
    from mccode_antlr.common import Expr, Value, RawC, MetaData, InstrumentParameter, ComponentParameter
    from mccode_antlr.common.expression import ObjectType, DataType, ShapeType
    from mccode_antlr.common.metadata import DataSource
    from mccode_antlr.comp import Comp
    from mccode_antlr.instr.jump import Jump
    from mccode_antlr.reader.registry import LocalRegistry, InMemoryRegistry
    import mccode_antlr.instr.orientation as o
    r, count = vc.choice, [0]
    def text(pool=TEXTS):
        count[0] += 1
        return r(f'text {count[0]}', pool)
    def opt(f):
        count[0] += 1
        return None if r(f'none {count[0]}', (False, False, True)) else f()
    def num(*pool):
        count[0] += 1
        return r(f'number {count[0]}', pool or (0, 1, -7, 2 ** 40))
    def expr():
        count[0] += 1
        return Expr.parse(r(f'expr {count[0]}', ('1', '-2.5e-300', 'a', '"s"', 'a+2*b', 'f(x, 1)', 'v[2]', 'a->b', 's.t', 'a ? 1 : b', '(a+1)/3', '!a', 'a && b', '-b', 'sin(1.0)', '{1,2,3}', 'a==b', '1e300')))
    def value():
        v = Value(num(0, 1.5, None, 'x', '', [1, 2], (1.5,), True, -3), r('data', tuple(DataType)), r('object', tuple(ObjectType)), r('shape', tuple(ShapeType)))
        return v
    kind = r('kind', ('Expr', 'Value', 'RawC', 'MetaData', 'InstrumentParameter', 'ComponentParameter', 'Comp', 'Jump', 'Orient', 'Parts', 'Local', 'Memory', 'list', 'dict', 'plain', 'long'))
    if kind == 'Expr': x = expr()
    elif kind == 'Value': x = value()
    elif kind == 'RawC': x = RawC(opt(text), num(), text(), opt(text))
    elif kind == 'MetaData': x = MetaData(DataSource(r('source', tuple(DataSource.Type)), text()), text(), text(), text())
    elif kind == 'InstrumentParameter': x = InstrumentParameter(text(), opt(text), expr())
    elif kind == 'ComponentParameter': x = ComponentParameter(text(), expr())
    elif kind == 'Comp': x = Comp(name=text(), category=opt(text), dependency=opt(text), acc=r('acc', (True, False)), setting=tuple(ComponentParameter(text(), expr()) for _ in range(num(0, 1, 2))),
                                  share=(RawC(text(), 1, text()),), trace=tuple(RawC(text(), num(), text(), opt(text)) for _ in range(num(0, 1, 11))))
    elif kind == 'Jump': x = Jump(text(), num(), r('iterate', (True, False)), expr(), num())
    elif kind in ('Orient', 'Parts'):
        deg, v = r('degrees', (True, False)), lambda: Expr.float(num(0., 1.5, -90.)) if r(f'constant {num()}{count[0]}', (True, False)) else expr()
        ps = [r(f'part {k}', (lambda: o.RotationX(v(), degrees=deg), lambda: o.RotationY(v(), degrees=deg), lambda: o.RotationZ(Expr.float(num(0.5, 30.)), degrees=deg),
                            lambda: o.TranslationPart(o.Vector(Expr.float(1), v(), Expr.float(num(0., -1.))))))() for k in range(vc.size('parts', 0, 4))]
        x = o.Parts(tuple(ps))
        if kind == 'Orient': x = o.Orient(x, o.Parts(tuple(p for p in ps if not p.is_translation)), deg)
    elif kind == 'Local': x = LocalRegistry(text(), r('root', ('/tmp', '/tmp/a b', '/nowhere/é')), num(0, 5, 10, -1))
    elif kind == 'Memory':
        x = InMemoryRegistry(text(), priority=num(0, 5, 100))
        for k in range(vc.size('files', 0, 3)): x.add(r(f'file {k}', (f'{k}.comp', f'lib/{k}.instr', f'lib/./{k}.c', '.')), text())
    elif kind == 'list': x = r('as', (list, tuple))(r(f'item {k % 7}', (k, 1.5, 'x', 'abc', True, (1, 2), [])) if k < 7 else k for k in range(vc.choice('length', (0, 1, 2, 5, 9, 10, 11, 101))))
    elif kind == 'dict': x = {k: text() for k in r('keys', ((), ('a',), ('b', 'a', 'C'), ('10', '9', 'é')))}
    elif kind == 'plain': x = r('plain', (0, -5, 2 ** 62, 1.5, float('inf'), True, False, '', 'µ', 'x' * 70000, b'ab\xff', numpy.float64(2.5), numpy.int32(-3)))
    else:
        t = r('char', ('x', 'µ', '\n')) * num(65000, 65536, 200000)
        x = r('of', (RawC('f', 1, t, t), MetaData(DataSource(DataSource.Type.Instance, 'i'), 'n', 'text', t), InMemoryRegistry('m', **{'a': t}), [t], {'k': t}))
    got = saved(vc, x, 'an object')
    d = differ(x, got)
    vc.check(not d, f'an object is loaded as it was saved', lambda: f'{d}: {x!r:.300}')


# ------------------------------------------------------------------ the handlers, one by one, over a model of an HDF5 file
class Attrs:
    """attributes: texts of a limited length, numbers and truth values, nothing else"""
    def __init__(self, m): self.m, self.d = m, {}
    def __contains__(self, k): return k in self.d
    def __getitem__(self, k):
        if k not in self.d: raise KeyError(k)
        return self.d[k]
    def get(self, k, default=None): return self.d[k] if k in self.d else default
    def __setitem__(self, k, v):
        if is_text(v):
            if self.m.vc.text_length(v) > self.m.limit: raise OSError('object header message is too large')
        elif not is_number(v): raise TypeError('Object dtype has no native HDF5 equivalent')
        self.d[k] = v


def is_text(v):
    from vc.core import SStr
    return isinstance(v, (str, SStr))


def is_number(v):
    from vc.core import SBool, SNum
    return isinstance(v, (bool, int, float, SBool, SNum))


class Dataset:
    def __init__(self, v): self.v = v
    def __getitem__(self, k):
        if k != (): raise ValueError(k)
        return Bytes(self.v) if is_text(self.v) else self.v


class Bytes:
    """the bytes of a text, as they are read"""
    def __init__(self, v): self.v = v
    def decode(self, encoding='utf-8', errors='strict'):
        if encoding.lower().replace('_', '-') not in ('utf-8', 'utf8'): raise UnicodeDecodeError(encoding, b'', 0, 1, 'another encoding')
        return self.v


class Group:
    def __init__(self, m): self.m, self.attrs, self.sub, self.stored = m, Attrs(m), {}, []
    def create_group(self, name, **k):
        if name in self.sub or not name or '/' in name: raise ValueError(f'Unable to create group (name already exists) {name}')
        self.sub[name] = Group(self.m)
        return self.sub[name]
    def require_group(self, name):
        return self.sub[name] if name in self.sub else self.create_group(name)
    def __contains__(self, name): return name in self.sub
    def __getitem__(self, name):
        if name not in self.sub: raise KeyError(name)
        return self.sub[name]
    def get(self, name, default=None): return self.sub[name] if name in self.sub else default
    def __iter__(self): return iter(sorted(self.sub))
    def keys(self): return sorted(self.sub)
    def __len__(self): return len(self.sub)
    def __setitem__(self, name, v):
        if name in self.sub: raise OSError('Unable to create dataset (name already exists)')
        if not is_text(v) and not is_number(v): raise TypeError('Object dtype has no native HDF5 equivalent')
        self.sub[name] = Dataset(v)
    def create_dataset(self, name, data=None): self[name] = data


class Token:
    """any value which can be saved and loaded: known by itself only"""
    def __init__(self, what): self.what = what
    def __repr__(self): return f'<{self.what}>'


class Model:
    """the code of one handler runs; saving and loading of the parts goes by contract: what is saved in a group of its own is loaded from it"""
    def __init__(self, vc):
        self.vc, self.limit, self.depth = vc, vc.int('limit', 32, 60), 0
        vc.assume(self.limit >= 32)

    def __enter__(self):
        import importlib
        v = importlib.import_module('mccode_antlr.version')
        from mccode_antlr.io.hdf5 import HDF5IO
        self.io, self.was, self.version, self.v = HDF5IO, (HDF5IO.__dict__['save'], HDF5IO.__dict__['load']), v.version, v
        m, real_save, real_load = self, HDF5IO.save, HDF5IO.load
        v.version = lambda: '1.2.3'
        def down(f, *a, **k):
            m.depth += 1
            try: return f(*a, **k)
            finally: m.depth -= 1
        def save(group, data, **k):
            if m.depth and not type(data) in (tuple, list, dict):
                if group.attrs.d or group.sub or group.stored: m.vc.check(False, 'every part is saved in a place of its own')
                if data is not None: group.stored.append(data)
                return None
            return down(real_save, group, data, **k)
        def load(group, **k):
            if m.depth and not group.attrs.d:
                if not group.stored: raise KeyError('mccode-antlr_version_data-type-name')
                v = group.stored[0]
                if k and (is_text(v) or is_number(v)): raise TypeError('load() got an unexpected keyword argument')
                return m.loaded(v, **k)
            return down(real_load, group, **k)
        HDF5IO.save, HDF5IO.load = staticmethod(save), staticmethod(load)
        return self

    def loaded(self, v, **k): return v

    def __exit__(self, *a):
        self.io.save, self.io.load = self.was
        self.v.version = self.version

    def round(self, x, what):
        """x saved and loaded"""
        vc, g = self.vc, Group(self)
        o = vc.run(self.io.save, g, x)
        vc.check(not o.raised, f'{what} can be saved', lambda: f'{o} {x}')
        o = vc.run(self.io.load, g)
        vc.check(not o.raised, f'{what} which is saved can be loaded', lambda: f'{o} {x}')
        vc.check(type(o.value) is type(x), f'{what} is loaded as what it was')
        return g, o.value

    def refused(self, g, what):
        """of another version, or without a word about what it is: not loaded"""
        from mccode_antlr.io.hdf5 import VERSION_NAME_KEY
        vc = self.vc
        how = vc.choice('file', ('of another version', 'without a type'))
        if how == 'without a type': del g.attrs.d[VERSION_NAME_KEY]
        else: self.v.version = lambda: '1.2.4'
        vc.check(vc.run(self.io.load, g).raised, f'{what} {how} is refused')


def same(vc, x, y):
    if x is y: return True
    if x is None or y is None: return False
    if is_text(x) or is_number(x):
        if is_text(x) != is_text(y): return False
        return vc.eq(x, y)
    if type(x) in (tuple, list) and type(y) is type(x) and len(x) == len(y): return vc.and_(True, *[same(vc, a, b) for a, b in zip(x, y)])
    return False


def check_fields(vc, x, y, what, names=None):
    for n in names or vars(x):
        vc.check(same(vc, getattr(x, n), getattr(y, n)), f'the {n.strip("_")} of {what} is loaded as it was saved')


class Make:
    def __init__(self, vc, m): self.vc, self.m = vc, m
    def short(self, n, none=False):
        if none and self.vc.choice(f'{n}: none', (False, True)): return None
        t = self.vc.text(n)
        self.vc.assume(self.vc.text_length(t) <= self.m.limit)
        return t
    def long(self, n): return self.vc.text(n, pool=('', 'x', 'a\nb\n', 'x' * 50, 'abc' * 30))
    def int(self, n): return self.vc.int(n, -3, 9)
    def bool(self, n): return self.vc.bool(n)
    def part(self, n, none=False):
        return None if none and self.vc.choice(f'{n}: none', (False, True)) else Token(n)
    def parts(self, n): return (Token(n + ' 0'), Token(n + ' 1')) if self.vc.choice(f'{n}: two', (True, False)) else ()


def simple(name, what, make, fields=None, weight=0.3):
    @harness('H01', f'handlers: {what}', [H + f"HDF5IO._handlers['{name}']", H + '_standard_read', H + '_standard_save', H + '_check_header', H + 'HDF5IO.save', H + 'HDF5IO.load'], weight=weight)
    def h(vc):
        with Model(vc) as m:
            x = make(Make(vc, m))
            g, y = m.round(x, what)
            check_fields(vc, x, y, what, fields)
            m.refused(g, what)
    return h


def comp(k):
    from mccode_antlr.comp import Comp
    # one part at a time can be empty
    names = ('define', 'setting', 'output', 'metadata', 'share', 'user', 'declare', 'initialize', 'trace', 'save', 'final', 'display')
    empty = k.vc.choice('empty', ('',) + names)
    return Comp(name=k.short('name'), category=k.short('category', True), dependency=k.short('dependency', True), acc=k.bool('acc'),
                **{n: () if n == empty else (Token(n), Token(n + ' 1')) for n in names})


def jump(k):
    from mccode_antlr.instr.jump import Jump
    return Jump(k.short('target'), k.int('relative'), k.bool('iterate'), k.part('condition'), k.int('absolute'))


def raw_c(k):
    from mccode_antlr.common import RawC
    return RawC(k.short('filename', True), k.int('line'), k.long('source'), k.long('translated') if k.vc.choice('has translated', (True, False)) else None)


def metadata(k):
    from mccode_antlr.common import MetaData
    return MetaData(k.part('source'), k.short('name'), k.short('mimetype'), k.long('value'))


def source(k):
    from mccode_antlr.common.metadata import DataSource
    return DataSource(k.vc.choice('type', tuple(DataSource.Type)), k.short('name'))


def instr_par(k):
    from mccode_antlr.common import InstrumentParameter
    return InstrumentParameter(k.short('name'), k.short('unit', True), k.part('value'))


def comp_par(k):
    from mccode_antlr.common import ComponentParameter
    return ComponentParameter(k.short('name'), k.part('value'))


simple('Comp', 'a component type', comp)
simple('Jump', 'a jump', jump)
simple('RawC', 'a block of C', raw_c)
simple('MetaData', 'metadata', metadata)
simple('DataSource', 'a source of metadata', source)
simple('InstrumentParameter', 'an instrument parameter', instr_par)
simple('ComponentParameter', 'a component parameter', comp_par)


def named(cls, names):
    def make(k):
        import mccode_antlr.instr.orientation as o
        return getattr(o, cls)(**{n: k.part(n) for n in names})
    simple(cls, f'a {cls.lower()}', make, names)


named('Vector', ('x', 'y', 'z'))
named('Angles', ('x', 'y', 'z'))
named('Matrix', ('xx', 'xy', 'xz', 'yx', 'yy', 'yz', 'zx', 'zy', 'zz'))
named('Rotation', ('xx', 'xy', 'xz', 'yx', 'yy', 'yz', 'zx', 'zy', 'zz'))
named('Seitz', ('xx', 'xy', 'xz', 'xt', 'yx', 'yy', 'yz', 'yt', 'zx', 'zy', 'zz', 'zt'))


@harness('H01', 'handlers: rotations, translations and their products', [H + '_seitz_part_io', H + 'HDF5IO._handlers'], weight=0.3)
def h_parts(vc):
    import mccode_antlr.instr.orientation as o
    with Model(vc) as m:
        k = Make(vc, m)
        kind = vc.choice('kind', ('RotationX', 'RotationY', 'RotationZ', 'TranslationPart', 'Part', 'Parts', 'Orient'))
        cls = getattr(o, kind)
        from mccode_antlr.common import Expr
        v, names = Expr.id('v'), ('v', 'degrees')
        if kind == 'TranslationPart': x, names = cls(o.Vector(v, v, v)), ('v',)
        elif kind == 'Part': x, names = cls(k.parts('axes')), None
        elif kind == 'Parts': x, names = cls(k.parts('stack')), None
        elif kind == 'Orient': x, names = cls(Token('position'), Token('rotation'), k.bool('degrees')), None
        else: x = cls(v, degrees=k.bool('degrees'))
        g, y = m.round(x, 'a part of an orientation')
        check_fields(vc, x, y, f'a {kind}', names)
        m.refused(g, 'a part of an orientation')


@harness('H01', 'handlers: values and operations', [H + 'ValueIO.save', H + 'ValueIO.load', H + '_op_io', H + "HDF5IO._handlers['Expr']"], weight=0.3)
def h_values(vc):
    from mccode_antlr.common.expression import Expr, Value, UnaryOp, BinaryOp, TrinaryOp, ObjectType, DataType, ShapeType
    with Model(vc) as m:
        k = Make(vc, m)
        kind = vc.choice('kind', (Value, UnaryOp, BinaryOp, TrinaryOp, Expr))
        what = kind.__name__
        if kind is Expr: x = Expr([Token('node'), Token('node 1')][:vc.choice('nodes', (1, 2))])
        elif kind is Value:
            x = Value(1.5, object_type=ObjectType.value, data_type=vc.choice('data', tuple(DataType)), shape_type=vc.choice('shape', tuple(ShapeType)))
            x._object = vc.choice('object', tuple(ObjectType))
            x._value = vc.choice('value', (Token('value'), None))
        else:
            n = {UnaryOp: 1, BinaryOp: 2, TrinaryOp: 3}[kind]
            operands = [[Value.int(j), Value.int(5 + j)] for j in range(n)]
            x = kind('dummy', *operands)
            for f, y in list(vars(x).items()):
                if isinstance(y, list): setattr(x, f, Stand(y, f))
            x.op, x.style, x.data_type = k.short('op'), k.short('style', False), vc.choice('data', tuple(DataType))
            if hasattr(x, 'shape_type'): x.shape_type = vc.choice('shape', tuple(ShapeType))
        g, y = m.round(x, f'a {what}')
        check_fields(vc, x, y, f'a {what}')
        m.refused(g, f'a {what}')


class Stand(list):
    """the operands, kept apart by their identity"""
    def __init__(self, x, what):
        super().__init__(x)
        self.what = what


@harness('H01', 'handlers: texts and numbers', [H + '_direct_io', H + 'HDF5IO._handlers'], weight=0.3)
def h_direct(vc):
    with Model(vc) as m:
        k = Make(vc, m)
        kind = vc.choice('kind', ('a text', 'an integer', 'a number', 'a truth value'))
        x = {'a text': k.long, 'an integer': k.int, 'a number': lambda n: vc.real(n), 'a truth value': k.bool}[kind]('x')
        if vc.sym:
            # the handler of its type, for any value of it
            from mccode_antlr.io.hdf5 import HDF5IO
            h, g = HDF5IO._handlers[{'a text': 'str', 'an integer': 'int', 'a number': 'float', 'a truth value': 'bool'}[kind]], Group(m)
            h.save(g, x)
            y = h.load(g)
        else: g, y = m.round(x, kind)
        vc.check(same(vc, x, y), f'{kind} is loaded as it was saved')
        if not vc.sym: m.refused(g, kind)


@harness('H01', 'handlers: lists, tuples and dictionaries', [H + 'ListIO.save', H + 'ListIO.load', H + 'TupleIO.save', H + 'TupleIO.load', H + 'TupleIO.entry_name', H + 'DictIO.save', H + 'DictIO.load'], weight=0.3, bounded='lengths 0 to 12 and 99 to 101')
def h_lists(vc):
    with Model(vc) as m:
        kind, n = vc.choice('kind', (list, tuple, dict)), vc.choice('length', tuple(range(13)) + (99, 100, 101))
        parts = [Token(f'part {j}') for j in range(n)]
        if kind is dict: x = {(f'k{j}', f'{j}', f'K {j}')[j % 3]: p for j, p in enumerate(parts)}
        else: x = kind(parts)
        g, y = m.round(x, f'a {kind.__name__}')
        vc.check(len(y) == n, f'a {kind.__name__} is loaded with all its elements', lambda: f'{len(y)} of {n}')
        if kind is dict: vc.check(y.keys() == x.keys() and all(y[k] is x[k] for k in x), 'a dict is loaded as it was saved')
        else: vc.check(all(a is b for a, b in zip(x, y)), f'the elements of a {kind.__name__} are loaded in their order')
        m.refused(g, f'a {kind.__name__}')


@harness('H01', 'handlers: instances', [H + 'InstanceIO.save', H + 'InstanceIO.load'], weight=0.3)
def h_instances(vc):
    from mccode_antlr.common import Mode
    from mccode_antlr.comp import Comp
    from mccode_antlr.instr import Instance
    with Model(vc) as m:
        k = Make(vc, m)
        comps = {n: Comp(name=n) for n in ('T', 'U')}
        others = {n: Token(n) for n in ('a', 'b')}
        for n, o in others.items(): o.name = n
        at, rot = (vc.choice(w, (None, 'a', 'b')) for w in ('at', 'rotated'))
        odd = vc.choice('odd', ('when', 'split', 'group', 'orientation', 'extend', 'jump', 'metadata', 'parameters', ''))
        parts = {n: () if n == odd else (Token(n), Token(n + ' 1')) for n in ('extend', 'jump', 'metadata', 'parameters')}
        x = Instance(k.short('name'), comps[vc.choice('type', ('T', 'U'))], (Token('at vector'), others.get(at)), (Token('angles'), others.get(rot)),
                     orientation=None if odd == 'orientation' else Token('orientation'), removable=k.bool('removable'), cpu=k.bool('cpu'),
                     split=None if odd == 'split' else Token('split'), when=None if odd == 'when' else Token('when'),
                     group=None if odd == 'group' else k.short('group'), mode=Mode.minimal if odd == 'orientation' else vc.choice('mode', tuple(Mode)), **parts)
        g = Group(m)
        o = vc.run(m.io.save, g, x)
        vc.check(not o.raised, 'an instance can be saved', lambda: f'{o}')
        o = vc.run(m.io.load, g, instances=others, components=comps)
        vc.check(not o.raised, 'an instance which is saved can be loaded', lambda: f'{o}')
        check_fields(vc, x, o.value, 'an instance')
        bad = vc.choice('missing', ('no type', 'no at', 'no rotated'))
        if bad == 'no type': o = vc.run(m.io.load, g, instances=others, components={})
        else: o = vc.run(m.io.load, g, instances={n: v for n, v in others.items() if n != (at if bad == 'no at' else rot)}, components=comps)
        vc.check(bool(o.raised) == (bad == 'no type' or (at if bad == 'no at' else rot) is not None), 'an instance without what it refers to is refused, not loaded with something else')


class InstrModel(Model):
    """instances and groups are loaded as copies, which refer to what is loaded"""
    def loaded(self, v, **k):
        from mccode_antlr.instr import Instance, Group as G
        vc = self.vc
        if isinstance(v, Instance):
            inst, comps = k.get('instances', {}), k.get('components', {})
            vc.check(v.type.name in comps, 'the type of an instance is loaded before it')
            for r in (v.at_relative[1], v.rotate_relative[1]):
                vc.check(r is None or r.name in inst, 'what an instance refers to is loaded before it')
            back = lambda p: (p[0], None if p[1] is None else inst[p[1].name])
            return Instance(v.name, comps[v.type.name], back(v.at_relative), back(v.rotate_relative), orientation=Token('o'), metadata=(v,))
        if isinstance(v, G):
            inst = k.get('instances', {})
            return G(v.name, v.index, v.ids, [inst[i.name] for i in v.members])
        return v


@harness('H01', 'handlers: instruments', [H + 'InstrIO.save', H + 'InstrIO.load'], weight=0.3, bounded='up to 11 instances, 3 of them with references')
def h_whole(vc):
    from mccode_antlr.comp import Comp
    from mccode_antlr.instr import Instance, Instr, Group as G
    with InstrModel(vc) as m:
        k = Make(vc, m)
        comps = [Comp(name=n) for n in ('T', 'U')]
        fields = vc.choice('which', ('fields', 'instances')) == 'fields'
        n = 1 if fields else vc.choice('instances', (0, 1, 2, 3, 9, 10, 11))
        xs = []
        for j in range(n):
            pick = lambda w: None if not xs or j > 2 else vc.choice(f'{w} {j}', (None,) + tuple(xs))
            xs.append(Instance(f'i{j}', comps[j % 2 if j < 3 else 0], (Token('v'), pick('at')), (Token('a'), pick('rotated') if j == 2 else None), orientation=Token('o')))
        groups = {'G': G('G', 0, [0, 1], xs[:2])} if n > 1 and vc.choice('group', (True, False)) else {}
        names = ('parameters', 'metadata', 'included', 'user', 'declare', 'initialize', 'save', 'final', 'flags', 'registries')
        empty = vc.choice('empty', ('',) + names) if fields else ''
        x = Instr(name=k.short('name'), source=k.short('source', True) if fields else 'S.instr', components=tuple(xs), groups=groups,
                  **{f: () if f == empty else (Token(f), Token(f + ' 1')) for f in names})
        g, y = m.round(x, 'an instrument')
        check_fields(vc, x, y, 'an instrument', ('name', 'source') + names)
        vc.check(type(y.components) is tuple and len(y.components) == n and all(b.metadata[0] is a for a, b in zip(xs, y.components)), 'the instances of an instrument are loaded in their order')
        place = {id(b): j for j, b in enumerate(y.components)}
        where = {id(a): j for j, a in enumerate(xs)}
        for a, b in zip(xs, y.components):
            for p, q in ((a.at_relative, b.at_relative), (a.rotate_relative, b.rotate_relative)):
                vc.check((None if p[1] is None else where[id(p[1])]) == (None if q[1] is None else place.get(id(q[1]), -1)), 'the references of the instances are to the loaded instances')
            vc.check(b.type is a.type, 'the types of the instances are the loaded ones')
        vc.check(y.groups.keys() == groups.keys(), 'the groups of an instrument are loaded')
        for n_, q in groups.items():
            r = y.groups[n_]
            vc.check(r.ids == q.ids and [place.get(id(i), -1) for i in r.members] == [where[id(i)] for i in q.members], 'the members of groups are the loaded instances')
        if fields: m.refused(g, 'an instrument')


@harness('H01', 'handlers: groups and registries', [H + 'GroupIO.save', H + 'GroupIO.load', H + 'LocalRegistryIO.save', H + 'InMemoryRegistryIO.save', H + 'InMemoryRegistryIO.load'], weight=0.3)
def h_registries(vc):
    from mccode_antlr.instr import Group as G
    from mccode_antlr.reader.registry import InMemoryRegistry
    with Model(vc) as m:
        k = Make(vc, m)
        if vc.choice('kind', ('group', 'registry')) == 'group':
            others = [Token(n) for n in ('a', 'b', 'c')]
            for o in others: o.name = o.what
            pick = others[:vc.choice('members', (0, 1, 2, 3))]
            x = G(k.short('name'), k.int('index'), [k.int(f'id {j}') for j in range(len(pick))], pick)
            g = Group(m)
            o = vc.run(m.io.save, g, x)
            vc.check(not o.raised, 'a group can be saved', lambda: f'{o}')
            o = vc.run(m.io.load, g, instances={p.name: p for p in others})
            vc.check(not o.raised, 'a group which is saved can be loaded', lambda: f'{o}')
            check_fields(vc, x, o.value, 'a group')
        else:
            x = InMemoryRegistry(k.short('name'), priority=k.int('priority'))
            n = vc.choice('files', (0, 1, 2, 3))
            for j in range(n): x.add(('a.comp', 'lib/b.c', 'lib')[j], k.long(f'text {j}'))
            g, y = m.round(x, 'a registry in memory')
            check_fields(vc, x, y, 'a registry in memory', ('name', 'priority'))
            vc.check(y.components.keys() == x.components.keys(), 'a registry in memory is loaded with its files')
            for f in x.components: vc.check(same(vc, x.components[f], y.components[f]), 'the files of a registry in memory are loaded as they were saved')
            m.refused(g, 'a registry in memory')


@harness('H01', 'handlers: remote and local registries', [H + 'RemoteRegistryIO', H + 'LocalRegistryIO.save', H + 'LocalRegistryIO.load', H + '_read_priority'], weight=0.3)
def h_remote(vc):
    import mccode_antlr.reader.registry as reg
    with Model(vc) as m:
        k = Make(vc, m)
        kind = vc.choice('kind', ('ModuleRemoteRegistry', 'GitHubRegistry', 'LocalRegistry'))
        cls = getattr(reg, kind)
        was = cls.__init__
        # made from what it was made from: what else the constructors do (find files, download) is not part of this contract
        names = {'ModuleRemoteRegistry': ('name', 'url', 'filename', 'version'), 'GitHubRegistry': ('name', 'url', 'version', 'filename', 'registry'), 'LocalRegistry': ('name', 'root')}[kind]
        def init(self, *a, **kw):
            kw = {**dict(zip(names + ('priority',), a)), **kw}
            for n in names: setattr(self, '_stashed_registry' if n == 'registry' else n, kw.get(n))
            self.priority = kw.get('priority', 7)
        cls.__init__ = init
        try:
            if kind == 'LocalRegistry':
                from pathlib import Path
                x = cls(k.short('name'), Path(vc.choice('root', ('/a', '/a/b c'))), priority=k.int('priority'))
            else: x = cls(**{n: k.short(n, n not in ('name', 'url')) for n in names}, priority=k.int('priority'))
            g, y = m.round(x, 'a registry')
            for n in names:
                if n != 'root': vc.check(same(vc, getattr(x, n), getattr(y, n)), f'the {n} of a registry is loaded as it was saved')
                else: vc.check(str(y.root) == str(x.root), 'the folder of a registry is loaded as it was saved')
            vc.check(vc.eq(x.priority, y.priority), 'the priority of a registry is loaded as it was saved')
            m.refused(g, 'a registry')
        finally: cls.__init__ = was
