"""I02: what a component instance is given.

Parameters of an instance and of a component type, the keywords of an instance, metadata, copies; for any number of parameters,
blocks, jumps and metadata."""
from vc.api import harness, Discard
from props.seqlib import some, seq, same

I = 'src/mccode_antlr/instr/instance.py Instance.'
C = 'src/mccode_antlr/comp/comp.py Comp.'
P = 'src/mccode_antlr/common/parameters.py '
X = 'src/mccode_antlr/common/expression.py '
MD = 'src/mccode_antlr/common/metadata.py '
POOL = ('a', 'b', 'c', 'xw', 'n_1')


def mods():
    import mccode_antlr.instr.instance as i, mccode_antlr.comp.comp as c, mccode_antlr.common as m
    return i, c, m


def bare(cls, **k):
    """an object with these attributes and the defaults of its class"""
    import dataclasses
    x = object.__new__(cls)
    for f in dataclasses.fields(cls):
        if f.default is not dataclasses.MISSING: x.__dict__[f.name] = f.default
        elif f.default_factory is not dataclasses.MISSING: x.__dict__[f.name] = f.default_factory()
    x.__dict__.update(k)
    return x


def par(vc, m, name, nm=None, value=None):
    return m.ComponentParameter(vc.ident(name + '.name', POOL) if nm is None else nm, value if value is not None else m.Expr(m.Value(name, m.DataType.undefined)))


def around(vc, m, name, present, nm, value=None):
    """(sequence with a parameter called nm or without one, that parameter, pieces)"""
    make = lambda n: par(vc, m, n)
    other = lambda x: vc.not_(x.name == nm)
    if not present:
        p = [some(vc, name, make, other)]
        return seq(p), None, p
    x = par(vc, m, name + '.it', nm, value)
    p = [some(vc, name + '.before', make, other), [x], some(vc, name + '.after', make, other)]
    return seq(p), x, p


def a_default(vc, m, name):
    dt = vc.choice(name + '.type', tuple(m.DataType))
    sh = vc.choice(name + '.shape', (m.ShapeType.scalar, m.ShapeType.vector))
    return m.Expr(m.Value(None, dt, m.ObjectType.value, sh)), dt, sh


def comp_type(vc, m, c, nm, where, value):
    d, x, _ = around(vc, m, 'define', where == 'define', nm, value)
    s, y, _ = around(vc, m, 'setting', where == 'setting', nm, value)
    t = c.Comp(name='Thing')
    t.define, t.setting = d, s
    return t, x or y


def stubs(vc, m):
    """contracts: compatibility is any yes or no, reading text gives an expression; equality of expressions is any"""
    E = m.Expr
    S = type('S', (), {})()
    S.asked, S.read, S.k = [], [], 0
    S.ok = None
    def compatible(self, other, id_ok=False):
        S.asked.append((self, other, id_ok))
        if S.ok is None: S.ok = vc.bool('compatible')
        return S.ok
    def parse(text):
        S.read.append((text, E(m.Value('read', m.DataType.undefined))))
        return S.read[-1][1]
    def eq(self, other):
        S.k += 1
        return vc.bool(f'equal{S.k}')
    S.undo = [(E, n, E.__dict__[n]) for n in ('compatible', 'parse', '__eq__') if n in E.__dict__] + [(E, 'parse', E.__dict__['parse'])]
    E.compatible, E.parse, E.__eq__ = compatible, staticmethod(parse), eq
    return S


def restore(S):
    for o, n, v in S.undo: setattr(o, n, v)


@harness('I02', 'set_parameter: unknown, incompatible, repeated and new parameters', [I + 'set_parameter', C + 'get_parameter', C + 'has_parameter', P + 'parameter_name_present', P + 'ComponentParameter.compatible_value'], max_paths=20000)
def h_set(vc):
    i, c, m = mods()
    nm = vc.ident('name', POOL)
    where = vc.choice('where', ('define', 'setting', 'nowhere'))
    value, dt, sh = a_default(vc, m, 'default')
    t, p = comp_type(vc, m, c, nm, where, value)
    present = where != 'nowhere' and vc.choice('present', (False, True))
    own, old, pieces = around(vc, m, 'own', present, nm)
    inst = bare(i.Instance, name='thing', type=t, parameters=own)
    kind = vc.choice('value', ('expression', 'text', 'number', 'list'))
    given = {'expression': lambda: m.Expr(m.Value(*vc.choice('given value', (('given', m.DataType.undefined), (1.5, m.DataType.float), (2, m.DataType.int), ('"s"', m.DataType.str))))), 'text': lambda: vc.ident('text', ('q', 'r')), 'number': lambda: vc.real('number'), 'list': lambda: [1, 2, 3]}[kind]()
    opts = {}
    if vc.choice('overwrite', (False, True)): opts['overwrite'] = True
    if vc.choice('strict', (False, True)): opts['allow_repeated'] = False
    S = stubs(vc, m)
    try: o = vc.run(inst.set_parameter, nm, given, **opts)
    finally: restore(S)
    keep = lambda: same(inst.parameters, pieces)
    if where == 'nowhere':
        vc.check(o.raised, 'a parameter which the component does not have is refused', o)
        vc.check(keep(), 'a refused parameter changes nothing', lambda: inst.parameters)
        return
    if present and not opts.get('overwrite') and 'allow_repeated' in opts:
        vc.check(o.raised, 'a repeated parameter is refused where repetition is not allowed', o)
        vc.check(keep(), 'a refused parameter changes nothing', lambda: inst.parameters)
        return
    if present and not opts.get('overwrite'):
        vc.check(vc.or_(not o.raised, vc.not_(S.ok) if S.ok is not None else False), 'a repeated parameter is no error', o)
        vc.check(keep(), 'the first value of a repeated parameter is kept, and it alone', lambda: inst.parameters)
        return
    if S.ok is None: S.ok = vc.bool('compatible')
    vc.check(vc.iff(o.raised, vc.not_(S.ok)), 'a value is refused exactly if it is not compatible with the parameter', o)
    vc.check(len(S.asked) > 0 and all(s is value and g is given and ok is True for s, g, ok in S.asked), 'what the component defines decides whether a value is compatible', lambda: S.asked)
    if o.raised:
        vc.check(keep(), 'a refused value changes nothing', lambda: inst.parameters)
        return
    rest = [pieces[0]] + pieces[2:] if present else pieces
    from props.seqlib import pieces_of
    # the new one: at the end, or in the place of the old one
    new = [y for x in pieces_of(inst.parameters) if isinstance(x, list) for y in x if not any(y is z for q in rest if isinstance(q, list) for z in q)]
    vc.check(len(new) == 1, 'one parameter is set', lambda: inst.parameters)
    if len(new) != 1: return
    got = new[0]
    places = [rest + [[got]]] + ([[rest[0], [got], *rest[1:]]] if present else [])
    vc.check(any(same(inst.parameters, q) for q in places), 'the other parameters stay as they are, in their order', lambda: inst.parameters)
    vc.check(got.name == nm, 'the parameter is set under its name')
    v = got.value
    if kind == 'expression': vc.check(v is given, 'an expression is used as it is')
    elif kind == 'text' and sh != m.ShapeType.vector:
        vc.check(any(v is e and vc.eq(s, given) for s, e in S.read), 'a text is read as an expression', lambda: (v, S.read))
    else:
        w = v.expr[0] if isinstance(v, m.Expr) and len(v.expr) == 1 else None
        vc.check(isinstance(w, m.Value), 'a number, a list or the name of a vector is a value')
        if not isinstance(w, m.Value): return
        vc.check(w.data_type == dt, 'the value has the type of the parameter', lambda: (w.data_type, dt))
        if kind == 'text':
            vc.check(vc.eq(w._value, given) and w.shape_type == sh, 'the name of a vector is a vector')
            vc.check(dt == m.DataType.str or w.is_id, 'a text for a vector is the name of one')
        elif kind == 'number': vc.check(vc.num_eq(w._value, given) and w.shape_type == m.ShapeType.scalar and w.object_type == m.ObjectType.value, 'a number is a scalar value')
        else: vc.check(w._value is given and w.shape_type == m.ShapeType.vector, 'a list is a vector')


@harness('I02', 'get_parameter, defines_parameter: own before inherited', [I + 'get_parameter', I + 'defines_parameter', C + 'get_parameter', C + 'has_parameter'])
def h_get(vc):
    i, c, m = mods()
    nm = vc.ident('name', POOL)
    where = vc.choice('where', ('define', 'setting', 'nowhere'))
    t, p = comp_type(vc, m, c, nm, where, None)
    present = vc.choice('present', (False, True))
    own, old, _ = around(vc, m, 'own', present, nm)
    inst = bare(i.Instance, name='thing', type=t, parameters=own)
    o = vc.run(inst.get_parameter, nm)
    vc.check(not o.raised and o.value is (old if present else p), 'the parameter of the instance, else that of its component, else none', o)
    o = vc.run(inst.defines_parameter, nm)
    vc.check(not o.raised and vc.iff(o.value, present), 'whether the instance sets the parameter', o)
    o = vc.run(t.get_parameter, nm)
    vc.check(not o.raised and o.value is p, 'the parameter of the component', o)
    o = vc.run(t.get_parameter, nm, 7)
    vc.check(not o.raised and (o.value is p if p is not None else o.value == 7), 'the parameter of the component, or the default', o)
    o = vc.run(t.has_parameter, nm)
    vc.check(not o.raised and vc.iff(o.value, p is not None), 'whether the component has the parameter', o)


@harness('I02', 'component types: a parameter is defined once', [C + 'add_define', C + 'add_setting', C + 'add_output', C + 'parameter_name_used'])
def h_add(vc):
    i, c, m = mods()
    nm = vc.ident('name', POOL)
    where = vc.choice('where', ('define', 'setting', 'output', 'nowhere'))
    t = c.Comp(name='Thing')
    P = {}
    for k in ('define', 'setting', 'output'):
        s, _, P[k] = around(vc, m, k, where == k, nm)
        setattr(t, k, s)
    new = par(vc, m, 'new', nm)
    to = vc.choice('to', ('define', 'setting', 'output'))
    o = vc.run(getattr(t, 'add_' + to), new)
    # an OUTPUT parameter may also be a setting parameter
    bad = where == 'output' if to == 'output' else where != 'nowhere'
    vc.check(o.raised == bad, 'a name which is taken is refused, no other', o)
    for k in P:
        vc.check(same(getattr(t, k), P[k] + ([[new]] if k == to and not bad else [])), 'the new parameter is added behind the others, which stay', lambda: getattr(t, k))


# ------------------------------------------------------------------ what is compatible
@harness('I02', 'compatible: which values a parameter takes', [X + 'Expr.compatible', X + 'Value.compatible', X + 'DataType.compatible', X + 'ShapeType.compatible', P + 'ComponentParameter.compatible_value'])
def h_compatible(vc):
    i, c, m = mods()
    from mccode_antlr.common.expression import UnaryOp, BinaryOp
    D, SH, O = m.DataType, m.ShapeType, m.ObjectType
    dt, sh = vc.choice('type', tuple(D)), vc.choice('shape', (SH.scalar, SH.vector))
    p = m.ComponentParameter('p', m.Expr(m.Value(None, dt, O.value, sh)))
    kind = vc.choice('value', ('int', 'float', 'name', 'text', 'vector', 'sum', 'negative', 'python int', 'python float', 'python text'))
    v = {'int': lambda: m.Value(vc.int('k'), D.int), 'float': lambda: m.Value(vc.real('x'), D.float), 'name': lambda: m.Value(vc.ident('n'), D.undefined, O.identifier, SH.scalar),
         'text': lambda: m.Value('"file"', D.str, O.value, SH.scalar), 'vector': lambda: m.Value([1.0, 2.0], D.float, O.value, SH.vector),
         'sum': lambda: BinaryOp('+', m.Value('a', D.undefined), m.Value(1, D.int)), 'negative': lambda: UnaryOp('-', m.Value('a', D.undefined)),
         'python int': lambda: vc.int('k'), 'python float': lambda: vc.real('x'), 'python text': lambda: vc.ident('n')}[kind]()
    if not kind.startswith('python') and vc.choice('wrapped', (True, False)): v = m.Expr(v)
    o = vc.run(p.compatible_value, v)
    vc.check(not o.raised, 'any value is compatible or not', o)
    if kind in ('sum', 'negative', 'python text', 'text'): vc.check(o.value, 'operations and texts are compatible with every parameter: what they give is not known', lambda: (dt, sh, v))
    elif kind == 'name': vc.check(vc.iff(o.value, sh == SH.scalar), 'a name which is not a vector is compatible with every scalar', lambda: (dt, sh, v))
    elif kind == 'vector': vc.check(vc.iff(o.value, sh == SH.vector and dt != D.str), 'a vector is compatible with vectors', lambda: (dt, sh, v))
    else: vc.check(vc.iff(o.value, sh == SH.scalar and dt != D.str), 'a number is compatible with numbers', lambda: (dt, sh, v))


# ------------------------------------------------------------------ keywords
def an_expr(vc, m, name):
    """(expression, whether it is constant)"""
    from mccode_antlr.common.expression import BinaryOp
    k = vc.choice(name, ('constant', 'name', 'parameter', 'sum'))
    if k == 'constant': return m.Expr(m.Value(vc.real(name + '.v'), m.DataType.float)), True
    if k == 'sum': return m.Expr(BinaryOp('+', m.Value('a', m.DataType.undefined), m.Value(1, m.DataType.int))), False
    return m.Expr(m.Value(vc.ident(name + '.n'), m.DataType.undefined, m.ObjectType.identifier if k == 'name' else m.ObjectType.parameter)), False


def fields(x): return {k: v for k, v in x.__dict__.items()}


def unchanged(vc, x, before, but):
    vc.check(all(x.__dict__[k] is v for k, v in before.items() if k != but), 'nothing else of the instance changes', lambda: [k for k, v in before.items() if x.__dict__[k] is not v])


@harness('I02', 'WHEN, SPLIT, GROUP, CPU, REMOVABLE', [I + 'WHEN', I + 'SPLIT', I + 'GROUP', I + 'CPU', I + 'REMOVABLE'])
def h_keywords(vc):
    i, c, m = mods()
    olds = [m.Expr(m.Value(n, m.DataType.undefined)) for n in ('w', 's')]
    inst = bare(i.Instance, name='thing', type=c.Comp(name='Thing'), at_relative=(None, None), rotate_relative=(None, None), when=olds[0], split=olds[1], group='old')
    before = fields(inst)
    kw = vc.choice('keyword', ('WHEN', 'SPLIT', 'GROUP', 'CPU', 'REMOVABLE'))
    if kw in ('WHEN', 'SPLIT'):
        e, const = an_expr(vc, m, 'e')
        what = vc.choice('what', ('expression', 'text', 'number', 'none'))
        S = stubs(vc, m)
        m.Expr.parse = staticmethod(lambda s: S.read.append((s, e)) or e)
        give = {'expression': e, 'text': 'some text', 'number': 3, 'none': None}[what]
        try: o = vc.run(getattr(inst, kw), give)
        finally: restore(S)
        bad = what in ('number', 'none') or kw == 'WHEN' and const
        vc.check(o.raised == bad, 'expressions and their texts are taken, but no constant condition', o)
        attr = kw.lower()
        vc.check(getattr(inst, attr) is (before[attr] if bad else e), f'{kw} is what was given', o)
        if what == 'text': vc.check([s for s, _ in S.read] == ['some text'], 'the text is read')
        unchanged(vc, inst, before, attr)
    else:
        g = vc.ident('group')
        o = vc.run(inst.GROUP, g) if kw == 'GROUP' else vc.run(getattr(inst, kw))
        attr = kw.lower()
        vc.check(not o.raised and (inst.group is g if kw == 'GROUP' else getattr(inst, attr) is True), f'{kw} is set', o)
        unchanged(vc, inst, before, attr)


@harness('I02', 'EXTEND and JUMP: what is stated replaces what was copied', [I + 'EXTEND', I + 'JUMP', 'src/mccode_antlr/common/block.py blocks_to_raw_c'])
def h_extend(vc):
    i, c, m = mods()
    class Block:
        def __init__(self, n): self.n = n
    from mccode_antlr.instr.jump import Jump
    old = seq([some(vc, 'old', lambda n: Block(n))])
    kw = vc.choice('keyword', ('EXTEND', 'JUMP'))
    inst = bare(i.Instance, name='thing', type=c.Comp(name='Thing'), at_relative=(None, None), rotate_relative=(None, None), **{kw.lower(): old})
    before = fields(inst)
    n = vc.size('n', 0, 3)
    if kw == 'JUMP':
        xs = [Jump(f't{k}', 0, False, m.Expr(m.Value('c', m.DataType.undefined))) for k in range(n)]
        o = vc.run(inst.JUMP, *xs)
        want = xs
    else:
        xs, want = [], []
        for k in range(n):
            f = vc.choice(f'form{k}', ('block', 'tuple', 'empty'))
            if f == 'tuple': xs.append(('file', 3, f'code{k};')); want.append(f'code{k};')
            else:
                xs.append(m.RawC('file', 3, '  \n' if f == 'empty' else f'code{k};'))
                if f == 'block': want.append(xs[-1])
        o = vc.run(inst.EXTEND, *xs)
    vc.check(not o.raised, f'{kw} can be stated', o)
    got = getattr(inst, kw.lower())
    if n == 0: vc.check(got is old, 'without blocks nothing changes')
    else:
        got = list(got)
        vc.check(len(got) == len(want) and all(g is w or isinstance(w, str) and g.source == w for g, w in zip(got, want)), 'the instance has exactly what was stated, in order, but for empty blocks', lambda: (got, want))
    unchanged(vc, inst, before, kw.lower())


# ------------------------------------------------------------------ metadata
def meta(vc, m, n, nm=None): return m.MetaData(m.metadata.DataSource.from_type_name_and_name('Component', n) if False else None, vc.ident(n + '.name', POOL) if nm is None else nm, vc.ident(n + '.type', ('text/plain', 'json')), n)


@harness('I02', 'add_metadata: one of each name', [I + 'add_metadata', C + 'add_metadata', 'src/mccode_antlr/instr/instr.py Instr.add_metadata'])
def h_add_meta(vc):
    i, c, m = mods()
    from mccode_antlr.instr.instr import Instr
    nm = vc.ident('name', POOL)
    owner = vc.choice('owner', ('instance', 'component', 'instrument'))
    x = {'instance': lambda: bare(i.Instance, name='thing', type=None, at_relative=(None, None), rotate_relative=(None, None)), 'component': lambda: c.Comp(name='Thing'), 'instrument': lambda: Instr('thing')}[owner]()
    make = lambda n: meta(vc, m, n)
    other = lambda y: vc.not_(y.name == nm)
    there = vc.choice('there', (False, True))
    pieces = [some(vc, 'before', make, other), [meta(vc, m, 'old', nm)] if there else [], some(vc, 'after', make, other)]
    x.metadata = seq(pieces)
    before = fields(x)
    new = meta(vc, m, 'new', nm)
    o = vc.run(x.add_metadata, new)
    vc.check(not o.raised, 'metadata can be added', o)
    vc.check(same(x.metadata, [pieces[0], pieces[2], [new]]), 'the new metadata replaces that of its name, the others stay in order', lambda: x.metadata)
    unchanged(vc, x, before, 'metadata')


@harness('I02', 'collect_metadata: the instance before its component', [I + 'collect_metadata', C + 'collect_metadata'], bounded='up to 3 metadata of the instance and of its component')
def h_collect(vc):
    i, c, m = mods()
    def distinct(who, n):
        out = []
        for k in range(n):
            x = meta(vc, m, f'{who}{k}')
            for y in out: vc.assume(vc.not_(x.name == y.name))
            out.append(x)
        return out
    a, b = distinct('component', vc.size('nc', 0, 3)), distinct('instance', vc.size('ni', 0, 3))
    t = c.Comp(name='Thing', metadata=tuple(a))
    inst = bare(i.Instance, name='thing', type=t, at_relative=(None, None), rotate_relative=(None, None), metadata=tuple(b))
    o = vc.run(inst.collect_metadata)
    vc.check(not o.raised, 'metadata can be collected', o)
    got = list(o.value)
    for x in b: vc.check(any(x is y for y in got), 'all metadata of the instance is there')
    for x in a:
        over = vc.or_(False, *[x.name == y.name for y in b])
        vc.check(vc.iff(any(x is y for y in got), vc.not_(over)), 'metadata of the component is there unless the instance replaces it')
    vc.check(len({id(x) for x in got}) == len(got) and all(any(x is y for y in a + b) for x in got), 'nothing else is there, and nothing twice')


# ------------------------------------------------------------------ copies
class Token:
    def __init__(self, n, log=None): self.n, self.log = n, log
    def copy(self): return Token(self.n, self)
    def __repr__(self): return f'<{self.n}>'


def full_instance(vc, i, c, m):
    from mccode_antlr.common import Mode
    acc = vc.choice('acc', (True, False))
    t = c.Comp(name='Thing', acc=acc)
    kw = dict(parameters=seq([some(vc, 'parameter', lambda n: Token(n))]), extend=seq([some(vc, 'extend', lambda n: Token(n))]), metadata=seq([some(vc, 'metadata', lambda n: Token(n))]),
              jump=seq([some(vc, 'jump', lambda n: Token(n))]) if not vc.sym or vc.choice('any jumps', (True, False)) else (Token('j0'), Token('j1')),
              when=vc.choice('when', (None, Token('when'))), split=vc.choice('split', (None, Token('split'))), group=vc.choice('group', (None, 'g')),
              removable=vc.choice('removable', (False, True)), cpu=vc.choice('cpu', (False, True)), mode=vc.choice('mode', (Mode.normal, Mode.minimal)), orientation=Token('orientation'))
    return bare(i.Instance, name='thing', type=t, at_relative=(Token('at'), None), rotate_relative=(Token('rotate'), None), **kw), t


def same_items(vc, a, b, copies=False):
    """the same elements in the same order"""
    from vc.seqs import ASeq
    if isinstance(a, ASeq) and isinstance(b, ASeq) and not copies: return same(a, b.chunks)
    if isinstance(a, ASeq) and isinstance(b, ASeq):
        ok = len(a.chunks) == len(b.chunks)
        for x, y in zip(a.chunks, b.chunks):
            if isinstance(y, list) or isinstance(x, list): return ok and x == y
            ok = ok and x.n is y.n
            e = x.certain(lambda q: True)[1]
            ok = ok and isinstance(e, Token) and e.log is not None and e.n.startswith(y.name)
        return ok
    a, b = list(a), list(b)
    return len(a) == len(b) and all(x is y or copies and getattr(x, 'log', None) is y for x, y in zip(a, b))


@harness('I02', 'Instance.copy: everything of the original', [I + 'copy', I + '__post_init__'])
def h_copy(vc):
    i, c, m = mods()
    inst, t = full_instance(vc, i, c, m)
    before = fields(inst)
    o = vc.run(inst.copy)
    vc.check(not o.raised, 'an instance can be copied', o)
    new = o.value
    vc.check(type(new) is i.Instance and new is not inst, 'a copy is an instance of its own')
    for k, v in before.items():
        got = new.__dict__[k]
        if k in ('parameters', 'extend', 'metadata'): ok = same_items(vc, got, v)
        elif k == 'jump': ok = same_items(vc, got, v, True)
        elif k == 'cpu': ok = got == (v or not t.acc)
        elif k in ('at_relative', 'rotate_relative'): ok = got[0] is v[0] and got[1] is v[1]
        else: ok = got is v
        vc.check(ok, f'a copy has the {k} of the original', lambda: (k, got, v))
    unchanged(vc, inst, before, '')
    from vc.seqs import ASeq
    if not isinstance(new.jump, ASeq): vc.check(all(x is not y for x, y in zip(new.jump, inst.jump)), 'the jumps of a copy are its own')


@harness('I02', 'from_instance (COPY): what is copied and what is not', [I + 'from_instance', I + '__post_init__'])
def h_from(vc):
    i, c, m = mods()
    inst, t = full_instance(vc, i, c, m)
    from mccode_antlr.instr.orientation import Vector, Angles
    before = fields(inst)
    # the new instance is placed by its own AT and ROTATED (O02)
    placed = []
    class P:
        @staticmethod
        def from_dependent_orientations(*a): placed.append(a); return Token('placed')
    keep, i.Orient = i.Orient, P
    at, rot = Vector(*[m.Expr.float(k) for k in (1, 2, 3)]), Angles(*[m.Expr.float(k) for k in (4, 5, 6)])
    nm = vc.ident('new name')
    try: o = vc.run(i.Instance.from_instance, nm, inst, (at, None), (rot, None))
    finally: i.Orient = keep
    vc.check(not o.raised, 'an instance can be copied', o)
    new = o.value
    vc.check(new.name is nm and new.type is t, 'the name is new, the type is that of the original')
    vc.check(new.at_relative[0] is at and new.rotate_relative[0] is rot and new.at_relative[1] is None and new.rotate_relative[1] is None, 'the placement is new')
    for k in ('parameters', 'extend', 'metadata'): vc.check(same_items(vc, new.__dict__[k], before[k]), f'COPY copies the {k}', lambda: (k, new.__dict__[k]))
    vc.check(same_items(vc, new.jump, before['jump'], True), 'COPY copies the jumps')
    for k in ('when', 'group', 'mode'): vc.check(new.__dict__[k] is before[k], f'COPY copies {k}')
    vc.check(new.split is None and new.removable is False and new.cpu == (not t.acc), 'SPLIT, REMOVABLE and CPU belong to the statement, not to the copy')
    unchanged(vc, inst, before, '')


@harness('I02', 'a component which cannot run on a GPU is CPU', [I + '__post_init__'])
def h_cpu(vc):
    i, c, m = mods()
    from mccode_antlr.common import Mode
    acc, cpu = vc.choice('acc', (True, False)), vc.choice('cpu', (False, True))
    o = vc.run(i.Instance, 'thing', c.Comp(name='Thing', acc=acc), (None, None), (None, None), cpu=cpu, mode=Mode.minimal)
    vc.check(not o.raised and o.value.cpu == (cpu or not acc), 'CPU is set if it is stated or the component is marked NOACC', o)


# ------------------------------------------------------------------ which names are used
@harness('I02', 'parameter_used: exactly the names which occur', [I + 'parameter_used'])
def h_used(vc):
    i, c, m = mods()
    nm = vc.ident('name', POOL)
    asked = []
    class Has:
        def __init__(self, n):
            self.n, self.has = n, vc.bool(n + '.has')
            asked.append(self)
        def __contains__(self, x):
            vc.check(x is nm, 'the name is looked for')
            return bool(self.has)
        def __iter__(self): raise TypeError('not iterable')
    from mccode_antlr.instr.jump import Jump
    h = lambda x: x.condition.has if isinstance(x, Jump) else x.has
    class None_yet:
        """no element so far has the name"""
        def enter(self, loop, env): pass
        def havoc(self, loop, env, stage):
            if stage == 'exit': loop.chunk.forall(lambda x: vc.not_(h(x)))
            return {}
        def close(self, loop, env, elem): vc.check(vc.not_(h(elem)), 'no element which has the name is passed over')
    jump = lambda n: Jump('x', 0, False, Has(n))
    def prm(n):
        v = Has(n)
        p = m.ComponentParameter('p', v)
        p.has = v.has
        return p
    if vc.sym:
        ps, ex, js = ([some(vc, n, f, fold=None_yet())] if vc.choice(n + ' any', (True, False)) else [] for n, f in (('parameter', prm), ('extend', Has), ('jump', jump)))
    else:
        ps, ex, js = ([some(vc, n, f)] for n, f in (('parameter', prm), ('extend', Has), ('jump', jump)))
    inst = bare(i.Instance, name='thing', type=c.Comp(name='Thing'), at_relative=(Has('at'), None), rotate_relative=(Has('rotate'), None), orientation=Has('orientation'),
                when=vc.choice('when', (None, Has('when.e'))), split=vc.choice('split', (None, Has('split.e'))), parameters=seq(ps), extend=seq(ex), jump=seq(js))
    o = vc.run(inst.parameter_used, nm)
    vc.check(not o.raised, 'it is known whether a name is used', o)
    single = [x.has for x in (inst.at_relative[0], inst.rotate_relative[0], inst.orientation, inst.when, inst.split) if x is not None]
    if o.value:
        if vc.sym: seen = [h(x) for q in ps + ex + js for x in q.known]
        else: seen = [h(x) for q in ps + ex + js for x in q]
        vc.check(vc.or_(False, *single, *seen), 'a name which is said to be used occurs somewhere')
    else:
        vc.check(vc.not_(vc.or_(False, *single)), 'a name which is said to be unused does not occur in AT, ROTATED, WHEN or SPLIT')
        if vc.sym:
            for q in ps + ex + js:
                # an arbitrary element: also those which were not looked at
                x = q.some()
                vc.check(vc.not_(h(x)), 'a name which is said to be unused occurs in no parameter, EXTEND block or JUMP condition')
        else: vc.check(not any(h(x) for q in ps + ex + js for x in q), 'a name which is said to be unused occurs in no parameter, EXTEND block or JUMP condition')


@harness('I02', 'verify_parameters: identifiers which are instrument parameters become such', [I + 'verify_parameters'])
def h_verify(vc):
    i, c, m = mods()
    calls = []
    class V:
        def __init__(self, n): self.n = n
        def verify_parameters(self, names): calls.append((self, names))
    class Each:
        """every one is asked"""
        def enter(self, loop, env): pass
        def havoc(self, loop, env, stage):
            calls.clear()
            return {}
        def close(self, loop, env, elem): vc.check(len(calls) == 1 and calls[0][0] is elem.value and listed(calls[0][1]), 'every parameter of the instance is looked at', lambda: calls)
    ipars = [some(vc, 'ipar', lambda n: m.InstrumentParameter(vc.ident(n, POOL), '', None))]
    def listed(names):
        if not vc.sym: return list(names) == [p.name for p in ipars[0]]
        from vc.seqs import ASeq
        ok = isinstance(names, ASeq) and len(names.chunks) == 1 and not isinstance(names.chunks[0], list) and getattr(names.chunks[0], 'base', None) is ipars[0]
        if not ok: return isinstance(names, ASeq) and not names.chunks
        return names.chunks[0].n is ipars[0].n
    own = [some(vc, 'own', lambda n: m.ComponentParameter(n, V(n)), fold=Each())]
    inst = bare(i.Instance, name='thing', type=c.Comp(name='Thing'), parameters=seq(own))
    o = vc.run(inst.verify_parameters, seq(ipars))
    vc.check(not o.raised, 'parameters can be verified', o)
    if not vc.sym: vc.check([x for x, _ in calls] == [p.value for p in own[0]] and all(listed(n) for _, n in calls), 'every parameter of the instance is looked at', lambda: calls)
