"""I03: statements of .instr and .comp files.

Each method of the two visitors is run on an arbitrary statement: a node gives what its parts give (the contract of visiting)."""
from vc.api import harness, Discard
from props.seqlib import some, seq, same, pieces_of
from props.i02 import bare, fields, Token

V = 'src/mccode_antlr/instr/visitor.py InstrVisitor.'
CV = 'src/mccode_antlr/comp/visitor.py CompVisitor.'
R = 'src/mccode_antlr/reader/reader.py Reader.'
POOL = ('a', 'b', 'c', 'xw', 'n_1')


class Terminal:
    """a word of the text, in the parse tree"""
    def __init__(self, s): self.s = s
    def __str__(self): return self.s
    def getText(self): return self.s


def terminal(x): return Terminal(x) if isinstance(x, str) or type(x).__name__ == 'SStr' else x


class Ctx:
    """a node: methods give its parts, which are already what visiting them gives"""
    def __init__(self, at=None, **kw):
        self.__dict__.update(at or {})
        self.kw = kw
    def __getattr__(self, n):
        if n.startswith('__') or n not in self.kw: raise AttributeError(n)
        v = self.kw[n]
        if n[0].isupper(): v = [terminal(x) for x in v] if isinstance(v, list) else terminal(v)
        return lambda *k: v[k[0]] if k and isinstance(v, list) and k[0] < len(v) else (None if k and isinstance(v, list) else v)


def iv():
    import mccode_antlr.instr.visitor as v, mccode_antlr.common as m, mccode_antlr.instr.instance as i
    return v, m, i


def visitor(v, **k):
    x = object.__new__(v.InstrVisitor)
    x.__dict__.update(dict(parent=None, filename='file.instr', state=None, current_comp=None, current_instance_name=None, destination=None, mode=None, visit=lambda n: n))
    x.__dict__.update(k)
    return x


class State:
    """the instrument so far"""
    def __init__(self, comps=()): self.components, self.added, self.name = comps, [], 'instrument'
    def add_component(self, a): self.added.append(a)


def maybe(vc, name, x): return x if vc.choice(name, (True, False)) else None


@harness('I03', 'COMPONENT: the instance has what the statement says', [V + 'visitComponent_instance'], max_paths=30000)
def h_component(vc):
    v, m, i = iv()
    from mccode_antlr.comp import Comp
    from mccode_antlr.common import Mode
    E = m.Expr
    comp = Comp(name='Thing', acc=vc.choice('acc', (True, False)))
    is_ref = vc.choice('COPY', (False, True))
    setp, setm = [], []
    i.Instance.set_parameter, keep = (lambda self, name, value, overwrite=False, allow_repeated=True: setp.append((self, name, value, overwrite))), (i.Instance.set_parameter, i.Instance.add_metadata)
    i.Instance.add_metadata = lambda self, x: setm.append((self, x))
    class Each:
        def __init__(self, log, ok, label): self.log, self.ok, self.label = log, ok, label
        def enter(self, loop, env): pass
        def havoc(self, loop, env, stage):
            self.log.clear()
            from vc.seqs import scratch
            return scratch(loop)
        def close(self, loop, env, elem):
            vc.check(len(self.log) == 1 and self.ok(self.log[0], elem), self.label, lambda: (self.log, elem))
    made = []
    def par_ok(x, e): return x[1] is e[0] and x[2] is e[1] and x[3] is is_ref and (not made or x[0] is made[0])
    def meta_ok(x, e): return x[1].mimetype is e[0] and x[1].name is e[1] and x[1].value is e[2] and x[1].source._type == m.metadata.DataSource.Type.Instance
    pars = some(vc, 'pars', lambda n: (vc.ident(n + '.p', POOL), Token(n)), fold=Each(setp, par_ok, 'every stated parameter is set, overwriting that of a copied instance'))
    metas = some(vc, 'metas', lambda n: (f'mime {n}', f'name_{n}', f'value {n}'), fold=Each(setm, meta_ok, 'all stated metadata is added'))
    jumps = some(vc, 'jumps', lambda n: Token(n))
    if not vc.sym: vc.assume(len(jumps) > 0)
    else: vc.assume(jumps.n > 0)
    at = (Token('at'), vc.choice('at reference', (None, Token('reference'))))
    rot = maybe(vc, 'ROTATED', (Token('rotated'), None))
    cond = E(m.Value('q', m.DataType.undefined))
    block = ('file.instr', 7, 'code;')
    ref = None
    if is_ref:
        old = dict(when=maybe(vc, 'old when', E(m.Value('w', m.DataType.undefined))), group=maybe(vc, 'old group', 'og'), extend=(m.RawC('f', 1, 'old;'),), jump=(Token('oldjump'),), split=E.int(3), cpu=True, removable=True, mode=Mode.minimal)
        ref = bare(i.Instance, name='old', type=comp, at_relative=(Token('oldat'), None), rotate_relative=(Token('oldrot'), None), **old)
    said = {k: vc.choice(k, (True, False)) for k in ('REMOVABLE', 'CPU', 'SPLIT', 'WHEN', 'GROUP', 'EXTEND', 'JUMP')} if not vc.sym else None
    if vc.sym:
        # what is stated one at a time, all, or nothing: the parts of the statement are handled one after the other
        one = vc.choice('stated', ('REMOVABLE', 'CPU', 'SPLIT', 'WHEN', 'GROUP', 'EXTEND', 'JUMP', 'all', 'nothing'))
        said = {k: one in (k, 'all') for k in ('REMOVABLE', 'CPU', 'SPLIT', 'WHEN', 'GROUP', 'EXTEND', 'JUMP')}
    ok = lambda k, x: x if said[k] else None
    nm = vc.ident('name', POOL)
    split = E.int(5)
    has_pars = vc.choice('parameters', (True, False))
    ctx = Ctx(instance_name=nm, component_type=ref if is_ref else comp, place=at, orientation=rot, instance_parameters=seq([pars], list) if has_pars else None, Removable=ok('REMOVABLE', 'REMOVABLE'), Cpu=ok('CPU', 'CPU'),
              split=ok('SPLIT', split), when=ok('WHEN', cond), groupref=ok('GROUP', 'grp'), extend=ok('EXTEND', block), jumps=ok('JUMP', seq([jumps], list)), metadata=seq([metas], list))
    dest = vc.choice('included', (None, State()))
    S = State()
    x = visitor(v, state=S, destination=dest, mode=Mode.minimal)
    try: o = vc.run(x.visitComponent_instance, ctx)
    finally: i.Instance.set_parameter, i.Instance.add_metadata = keep
    vc.check(not o.raised, 'the statement can be read', o)
    if dest is not None and said['REMOVABLE']:
        vc.check(S.added == [] and dest.added == [], 'a REMOVABLE component of an included instrument is left out')
        return
    vc.check(len(S.added) == 1 and type(S.added[0]) is i.Instance, 'the component is added, once')
    if len(S.added) != 1: return
    a = S.added[0]
    if not vc.sym:
        vc.check([(n, q) for _, n, q, w in setp] == ([(n, q) for n, q in pars] if has_pars else []) and all(s is a and w is is_ref for s, _, _, w in setp), 'every stated parameter is set, overwriting that of a copied instance', lambda: setp)
        vc.check(len(setm) == len(metas) and all(s is a and q.source.name == nm and meta_ok((s, q), e) for (s, q), e in zip(setm, metas)), 'all stated metadata is added', lambda: setm)
    vc.check(a.name is nm and a.type is comp, 'its name and type are those of the statement')
    vc.check(a.at_relative[0] is at[0] and a.at_relative[1] is at[1], 'it is placed where AT says')
    if rot is not None: vc.check(a.rotate_relative[0] is rot[0] and a.rotate_relative[1] is rot[1], 'it is rotated as ROTATED says')
    else:
        r = a.rotate_relative[0]
        vc.check(a.rotate_relative[1] is at[1] and hasattr(r, 'x') and all(isinstance(q, E) and q.is_constant and q.value == 0 for q in (r.x, r.y, r.z)), 'without ROTATED it has the orientation of what AT refers to')
    vc.check(a.removable is said['REMOVABLE'] and a.cpu == (said['CPU'] or not comp.acc), 'REMOVABLE and CPU are those of the statement')
    vc.check(a.split is (split if said['SPLIT'] else None), 'SPLIT is that of the statement')
    vc.check(a.when is (cond if said['WHEN'] else ref.when if is_ref else None), 'WHEN is that of the statement, or copied')
    vc.check(a.group == ('grp' if said['GROUP'] else ref.group if is_ref else None), 'GROUP is that of the statement, or copied')
    ex = [e.source for e in a.extend]
    vc.check(ex == (['code;'] if said['EXTEND'] else ['old;'] if is_ref else []), 'EXTEND is that of the statement, or copied', lambda: ex)
    if said['EXTEND']: vc.check(a.extend[0].filename == 'file.instr' and a.extend[0].line == 7, 'code keeps where it comes from')
    vc.check(same(a.jump, [jumps]) if said['JUMP'] else [q.log.n for q in a.jump] == ['oldjump'] if is_ref else list(a.jump) == [], 'JUMP is that of the statement, or copied', lambda: a.jump)


# ------------------------------------------------------------------ references
class Named:
    def __init__(self, name, removable=False): self.name, self.removable = name, removable
    def __repr__(self): return f'<{self.name}>'


def instrument(vc, name, comps):
    from mccode_antlr.instr.instr import Instr
    x = Instr(name)
    x.components = comps
    return x


@harness('I03', 'references to components by name', [V + 'visitComponent_ref', V + 'visitReference', 'src/mccode_antlr/instr/instr.py Instr.get_component'])
def h_by_name(vc):
    v, m, i = iv()
    nm = vc.ident('name', POOL)
    vc.assume(vc.not_(nm == 'PREVIOUS'))
    other = lambda x: vc.not_(x.name == nm)
    make = lambda n: Named(vc.ident(n, POOL))
    where = vc.choice('where', ('here', 'outside', 'nowhere'))
    included = where == 'outside' or vc.choice('included', (False, True))
    def comps(n, there):
        if not there: return seq([some(vc, n, make, other)]), None
        t = Named(nm)
        return seq([some(vc, n + '.before', make, other), [t], some(vc, n + '.after', make, other)]), t
    a, ta = comps('here', where == 'here')
    b, tb = comps('there', where == 'outside') if included else (None, None)
    x = visitor(v, state=instrument(vc, 'here', a), destination=instrument(vc, 'there', b) if included else None)
    ctx = Ctx(Previous=None, Identifier=nm, IntegerLiteral=None)
    o = vc.run(x.visitComponent_ref, ctx)
    if where == 'nowhere': vc.check(o.raised, 'a reference to a component which does not exist is refused', o)
    else: vc.check(not o.raised and o.value is (ta or tb), 'a reference by name is to the component of that name', o)


@harness('I03', 'references by PREVIOUS', [V + 'visitComponent_ref', 'src/mccode_antlr/instr/instr.py Instr.last_component'])
def h_previous(vc):
    v, m, i = iv()
    included = vc.choice('included', (False, True))
    def comps(n):
        k = vc.int(n + '.count', 0, 4)
        if not vc.sym:
            if k < 0: raise Discard()
            return tuple((n, j) for j in range(k)), k
        from vc.seqs import ISeq
        vc.assume(k >= 0)
        return ISeq(k.t, lambda j: (n, j), tuple), k
    a, na = comps('here')
    b, nb = comps('there') if included else (None, 0)
    x = visitor(v, state=instrument(vc, 'here', a), destination=instrument(vc, 'there', b) if included else None)
    counted = vc.choice('counted', (False, True))
    n = vc.int('n', 1, 8) if counted else 1
    if counted: vc.assume(n >= 1)
    o = vc.run(x.visitComponent_ref, Ctx(Previous='PREVIOUS', IntegerLiteral=(n if vc.sym else str(n)) if counted else None, Identifier=None))
    if o.raised: vc.check(vc.not_(n <= na + nb), 'PREVIOUS is refused only if there are not as many components', o)
    else:
        vc.check(n <= na + nb, 'PREVIOUS is refused if there are not as many components', o)
        vc.check(o.value is not None, 'a reference is to a component', o)
        if o.value is None: return
        w, j = o.value
        if w == 'here': vc.check(vc.and_(n <= na, vc.num_eq(j, na - n)), 'PREVIOUS(n) is the n-th last component before this one', o)
        else: vc.check(vc.and_(vc.not_(n <= na), vc.num_eq(j, nb - (n - na))), 'PREVIOUS(n) continues with the components before the included instrument', o)


@harness('I03', 'AT, ROTATED, SPLIT, WHEN, GROUP, EXTEND', [V + n for n in ('visitPlace', 'visitOrientation', 'visitCoords', 'visitReference', 'visitSplit', 'visitWhen', 'visitGroupref', 'visitExtend')])
def h_parts(vc):
    v, m, i = iv()
    from mccode_antlr.instr.orientation import Vector, Angles
    x = visitor(v)
    E = m.Expr
    es = [E(m.Value(n, m.DataType.undefined)) for n in 'xyz']
    ref = Token('ref')
    a = vc.run(x.visitCoords, Ctx(expr=es))
    vc.check(not a.raised and len(a.value) == 3 and all(p is q for p, q in zip(a.value, es)), 'coordinates are the three expressions in order', a)
    ab = vc.choice('ABSOLUTE', (True, False))
    rel = vc.choice('RELATIVE', (True, False)) if ab else True
    r = vc.run(x.visitReference, Ctx(Absolute='ABSOLUTE' if ab else None, component_ref=None if ab else ref, Relative='RELATIVE' if rel else None))
    vc.check(not r.raised and r.value is (None if ab else ref), 'ABSOLUTE is no reference', r)
    for f, kind in ((x.visitPlace, Vector), (x.visitOrientation, Angles)):
        o = vc.run(f, Ctx(coords=tuple(es), reference=r.value))
        vc.check(not o.raised and type(o.value[0]) is kind and all(p is q for p, q in zip(o.value[0], es)) and o.value[1] is r.value, 'AT and ROTATED have the coordinates and the reference of the statement', o)
    s = vc.choice('split', (True, False))
    o = vc.run(x.visitSplit, Ctx(expr=es[0] if s else None))
    vc.check(not o.raised and (o.value is es[0] if s else isinstance(o.value, E) and o.value.value == 10), 'SPLIT splits as often as stated, or into ten', o)
    o = vc.run(x.visitWhen, Ctx(expr=es[0], When='WHEN'))
    vc.check(not o.raised and o.value is es[0], 'WHEN has its condition', o)
    g = vc.ident('group', POOL)
    o = vc.run(x.visitGroupref, Ctx(Identifier=g, Group='GROUP'))
    vc.check(not o.raised and vc.eq(o.value, g), 'GROUP has its name', o)
    b = ('f', 1, 'code')
    o = vc.run(x.visitExtend, Ctx(unparsed_block=b))
    vc.check(not o.raised and o.value is b, 'EXTEND has its block', o)


@harness('I03', 'JUMP', [V + n for n in ('visitJumps', 'visitJump', 'visitJumpPrevious', 'visitJumpMyself', 'visitJumpNext', 'visitJumpIdentifier')])
def h_jump(vc):
    v, m, i = iv()
    x = visitor(v)
    kind = vc.choice('kind', ('PREVIOUS', 'NEXT', 'MYSELF', 'name'))
    counted = kind in ('PREVIOUS', 'NEXT') and vc.choice('counted', (True, False))
    n = vc.choice('n', (1, 2, 3, 12)) if counted else 1
    nm = vc.ident('name', POOL)
    f = {'PREVIOUS': x.visitJumpPrevious, 'NEXT': x.visitJumpNext, 'MYSELF': x.visitJumpMyself, 'name': x.visitJumpIdentifier}[kind]
    t = vc.run(f, Ctx(IntegerLiteral=str(n) if counted else None, Identifier=nm))
    vc.check(not t.raised and len(t.value) == 2, 'a target can be read', t)
    rel = {'PREVIOUS': -n, 'NEXT': n, 'MYSELF': 0, 'name': 0}[kind]
    vc.check(t.value[1] == rel, 'a relative target is counted from the component itself', t)
    if kind == 'name': vc.check(vc.eq(t.value[0], nm), 'a named target is the component of that name', t)
    elif kind == 'MYSELF': vc.check(t.value[0] == 'MYSELF', 'MYSELF is the component itself', t)
    else: vc.check(t.value[0].startswith(kind), 'a relative target is named by its keyword', t)
    it = vc.choice('ITERATE', (True, False))
    c = m.Expr(m.Value('c', m.DataType.undefined))
    o = vc.run(x.visitJump, Ctx(jumpname=t.value, Iterate='ITERATE' if it else None, When=None if it else 'WHEN', expr=c))
    j = o.value
    vc.check(not o.raised and j.target is t.value[0] and j.relative_target == rel and j.iterate is it and j.condition is c, 'a JUMP has the target, the kind and the condition of the statement', o)
    js = some(vc, 'jumps', lambda n: Token(n))
    o = vc.run(x.visitJumps, Ctx(jump=seq([js], list)))
    vc.check(not o.raised and same(o.value, [js]), 'all JUMPs of the statement are there in order', o)


# ------------------------------------------------------------------ parameters
@harness('I03', 'parameters of instances', [V + n for n in ('visitInstanceParameterExpr', 'visitInstanceParameterNull', 'visitInstanceParameterVector', 'visitInstance_parameters')])
def h_instance_parameter(vc):
    v, m, i = iv()
    from mccode_antlr.comp import Comp
    D, SH = m.DataType, m.ShapeType
    nm = vc.ident('name', POOL)
    dt, sh = vc.choice('type', tuple(D)), vc.choice('shape', (SH.scalar, SH.vector))
    known = vc.choice('known', (True, False))
    c = Comp(name='Thing')
    c.get_parameter = lambda n, default=None: m.ComponentParameter(n, m.Expr(m.Value(None, dt, m.ObjectType.value, sh))) if known else default
    x = visitor(v, current_comp=c)
    kind = vc.choice('kind', ('expression', 'NULL', 'vector'))
    if kind == 'expression':
        vdt = vc.choice('value type', tuple(D))
        val = m.Expr(m.Value(vc.ident('value'), vdt, m.ObjectType.identifier, SH.scalar))
        o = vc.run(x.visitInstanceParameterExpr, Ctx(Identifier=nm, Assign='=', expr=val))
        if known and not o.raised:
            vc.check(vc.eq(o.value[0], nm) and o.value[1] is val, 'the parameter has its name and value', o)
            vc.check(val.data_type == (dt if vdt == D.undefined else vdt), 'a value of unknown type has the type of the parameter', o)
            vc.check(val.shape_type == (sh if vdt == D.undefined else SH.scalar), 'a name of unknown type has the shape of the parameter', o)
    elif kind == 'NULL':
        o = vc.run(x.visitInstanceParameterNull, Ctx(Identifier=nm, Assign='=', Null='NULL'))
        if known and not o.raised:
            vc.check(vc.eq(o.value[0], nm) and str(o.value[1]) == 'NULL', 'NULL is NULL', o)
    else:
        val = m.Expr(m.Value([1, 2], D.undefined, m.ObjectType.initializer_list, SH.vector))
        o = vc.run(x.visitInstanceParameterVector, Ctx(Identifier=nm, Assign='=', initializerlist=val))
        vc.check(not o.raised and vc.eq(o.value[0], nm) and o.value[1] is val, 'the parameter has its name and value', o)
        known = True
    vc.check(o.raised != known, 'a parameter which the component does not have is refused, no other', o)
    ps = some(vc, 'ps', lambda n: Token(n))
    o = vc.run(x.visitInstance_parameters, Ctx(instance_parameter=seq([ps], list)))
    vc.check(not o.raised and same(o.value, [ps]), 'all parameters of the statement are there in order', o)


def number(vc, m, name):
    """(value or None, what visiting gives)"""
    k = vc.choice(name + '.given', ('none', 'int', 'float', 'name', 'sum'))
    from mccode_antlr.common.expression import BinaryOp
    if k == 'none': return k, None, None
    if k == 'int': q = vc.choice(name + '.k', (0, 3, -2)); return k, q, m.Expr.int(q)
    if k == 'float': q = vc.choice(name + '.f', (0.5, -2.0)); return k, q, m.Expr.float(q)
    if k == 'name': return k, None, m.Expr(m.Value('other', m.DataType.undefined))
    return k, None, m.Expr(BinaryOp('+', m.Value('other', m.DataType.float), m.Value(1, m.DataType.float)))


@harness('I03', 'parameters of instruments', [V + n for n in ('visitInstrumentParameterDouble', 'visitInstrumentParameterInteger', 'visitInstrumentParameterString', 'visitInstrument_parameter_unit', 'visitInstrument_parameters')])
def h_instrument_parameter(vc):
    v, m, i = iv()
    full = vc.choice('visitor', (True, False))
    x = visitor(v) if full else object.__new__(v.InstrParametersVisitor)
    x.visit = lambda n: n
    nm = vc.ident('name', POOL)
    unit = vc.choice('unit', (None, '"m"'))
    kind = vc.choice('kind', ('double', 'int', 'string'))
    D = m.DataType
    if kind == 'string':
        g = vc.choice('default', ('none', 'NULL', 'text'))
        o = vc.run(x.visitInstrumentParameterString, Ctx(Identifier=nm, instrument_parameter_unit=unit, Assign=None if g == 'none' else '=', StringLiteral='"abc"' if g == 'text' else None))
        vc.check(not o.raised, 'a parameter can be read', o)
        p = o.value
        vc.check(p.value.has_value == (g != 'none'), 'it has a default exactly if one is stated', o)
        if g != 'none': vc.check(p.value.value == {'NULL': 'NULL', 'text': '"abc"'}[g], 'it has the stated default', o)
        vc.check(p.value.data_type == D.str, 'it is of the stated type', o)
    else:
        g, q, e = number(vc, m, 'default')
        vc.check(True, 'stated')
        f = x.visitInstrumentParameterDouble if kind == 'double' else x.visitInstrumentParameterInteger
        o = vc.run(f, Ctx(Identifier=nm, instrument_parameter_unit=unit, Assign=None if g == 'none' else '=', expr=e))
        vc.check(not o.raised, 'a parameter can be read', o)
        p = o.value
        vc.check(p.value.data_type == (D.float if kind == 'double' else D.int), 'it is of the stated type', o)
        if g == 'none': vc.check(not p.value.has_value, 'it has a default exactly if one is stated', o)
        elif q is not None: vc.check(vc.num_eq(p.value.value, q), 'it has the stated default', o)
        else: vc.check(p.value is e, 'it has the stated default', o)
    vc.check(vc.eq(p.name, nm) and p.unit is unit, 'it has its name and unit', o)
    log = []
    class Each:
        def enter(self, loop, env): pass
        def havoc(self, loop, env, stage): log.clear(); return {}
        def close(self, loop, env, elem): vc.check(len(log) == 1 and log[0] is elem, 'every parameter is added')
    x.state = Ctx(add_parameter=None)
    x.state.add_parameter = lambda p: log.append(p)
    ps = some(vc, 'ps', lambda n: Token(n), fold=Each())
    o = vc.run(x.visitInstrument_parameters, Ctx(instrument_parameter=seq([ps], list)))
    vc.check(not o.raised, 'parameters can be read', o)
    if not vc.sym: vc.check(len(log) == len(ps) and all(a is b for a, b in zip(log, ps)), 'every parameter is added')


def blocks(vc, m, name): return some(vc, name, lambda n: Token(n))


@harness('I03', '%include: what an included instrument adds', [V + 'visitInstrument_trace_include'])
def h_include(vc):
    v, m, i = iv()
    from mccode_antlr.instr.instr import Instr
    KINDS = ('declare', 'user', 'initialize', 'save', 'final', 'flags')
    outer, inner = Instr('outer'), Instr('inner')
    P = {}
    for k in KINDS:
        P['o', k], P['i', k] = blocks(vc, m, 'outer ' + k), blocks(vc, m, 'inner ' + k)
        if vc.sym and k != vc_kind(vc, KINDS): P['o', k], P['i', k] = [Token('o' + k)], [Token('i' + k)]
        setattr(outer, k, seq([P['o', k]]))
        setattr(inner, k, seq([P['i', k]]))
    log = []
    class Each:
        def __init__(self, ok, label): self.ok, self.label = ok, label
        def enter(self, loop, env): pass
        def havoc(self, loop, env, stage): log.clear(); return {}
        def close(self, loop, env, elem): vc.check(self.ok(elem), self.label, lambda: (log, elem))
    outer.components = seq([some(vc, 'there', lambda n: Named(vc.ident(n, POOL), vc.bool(n + '.removable')))])
    comps = some(vc, 'comps', lambda n: Named(vc.ident(n, POOL), vc.bool(n + '.removable')), fold=Each(lambda e: vc.ite(e.removable, len(log) == 0, len(log) == 1 and log[0][1] is e), 'every component which is not REMOVABLE is added'))
    pars = some(vc, 'pars', lambda n: Token(n), fold=Each(lambda e: log == [('par', e, True)], 'every parameter is added unless there is one of its name'))
    metas = some(vc, 'metas', lambda n: Token(n), fold=Each(lambda e: log == [('meta', e)], 'all metadata is added'))
    inner.components, inner.parameters, inner.metadata = seq([comps]), seq([pars]), seq([metas])
    outer.add_component = lambda c: log.append(('comp', c))
    outer.add_parameter = lambda p, ignore_repeated=False: log.append(('par', p, ignore_repeated))
    outer.add_metadata = lambda q: log.append(('meta', q))
    asked = []
    class Parent:
        def get_instrument(self, name, destination=None, mode=None): asked.append((name, destination)); return inner
    x = visitor(v, state=outer, parent=Parent())
    o = vc.run(x.visitInstrument_trace_include, Ctx(StringLiteral='"inner.instr"'))
    vc.check(not o.raised, 'an instrument can be included', o)
    vc.check(asked == [('inner.instr', outer)], 'the stated file is read, knowing what comes before it', lambda: asked)
    for k in KINDS: vc.check(same(getattr(outer, k), [P['o', k], P['i', k]]), f'its {k} comes behind that of the instrument', lambda: (k, getattr(outer, k)))
    vc.check('inner' in outer.included, 'it is known that it is included')
    if not vc.sym:
        want = [('par', p, True) for p in pars] + [('meta', q) for q in metas] + [('comp', c) for c in comps if not c.removable]
        vc.check(log == want, 'its parameters, metadata and components are added', lambda: (log, want))


def vc_kind(vc, kinds):
    if not hasattr(vc, '_kind'): vc._kind = vc.choice('of any length', kinds)
    return vc._kind


@harness('I03', 'blocks of code, metadata and flags of an instrument', [V + n for n in ('visitUnparsed_block', 'visitMetadata', 'visitInstrument_metadata', 'visitDependency', 'visitDeclareBlock', 'visitUservars', 'visitInitializeBlock', 'visitSaveBlock', 'visitFinallyBlock')])
def h_blocks(vc):
    v, m, i = iv()
    from mccode_antlr.instr.instr import Instr
    x = visitor(v)
    line = vc.int('line', 1, 900)
    text = vc.text('text', pool=('int a;', '\n f(x);\n', 'x %% y', '/*%}*/'[:2]))
    P = type('P', (), {'line': line})
    o = vc.run(x.visitUnparsed_block, Ctx({'start': P}, UnparsedBlock='%{' + text + '%}'))
    vc.check(not o.raised and o.value[0] == 'file.instr' and vc.num_eq(o.value[1], line) and vc.eq(o.value[2], text), 'a block is the text between %{ and %}, with its file and line', o)
    from mccode_antlr.grammar import McInstrParser
    k1, k2 = vc.choice('mime quoted', (True, False)), vc.choice('name quoted', (True, False))
    a, b = vc.ident('mime', POOL), vc.ident('metaname', POOL)
    tok = lambda t, q: type('T', (), {'text': '"' + t + '"' if q else t, 'type': -5 if q else McInstrParser.Identifier})
    o = vc.run(x.visitMetadata, Ctx({'mime': tok(a, k1), 'name': tok(b, k2)}, unparsed_block=('file.instr', 3, 'content')))
    vc.check(not o.raised and vc.eq(o.value[0], a) and vc.eq(o.value[1], b) and o.value[2] == 'content', 'metadata has its type, name and content', o)
    blk = ('file.instr', 3, 'code;')
    for f, k in ((x.visitDeclareBlock, 'declare'), (x.visitUservars, 'user'), (x.visitInitializeBlock, 'initialize'), (x.visitSaveBlock, 'save'), (x.visitFinallyBlock, 'final')):
        x.state = Instr('thing')
        before = some(vc, 'before ' + k, lambda n: Token(n))
        setattr(x.state, k, seq([before]))
        o = vc.run(f, Ctx(unparsed_block=blk))
        vc.check(not o.raised, 'a block can be added', o)
        got = pieces_of(getattr(x.state, k))
        last = got[-1][-1] if got and isinstance(got[-1], list) else None
        vc.check(last is not None and getattr(last, 'source', None) == 'code;' and last.filename == 'file.instr' and last.line == 3 and same(getattr(x.state, k), [before, [last]]), f'the block is added to {k}', lambda: got)
        vc.check(all(getattr(x.state, q) == () for q in ('declare', 'user', 'initialize', 'save', 'final') if q != k), 'nothing else is added')
    fl = vc.text('flags', pool=('-lm', '-I. -lx', '-DN=\\"x\\"', '\\"a\\" -lb', ''))
    x.state = Instr('thing')
    x.state.flags = ('-la',)
    o = vc.run(x.visitDependency, Ctx(StringLiteral='"' + fl + '"'))
    vc.check(not o.raised and len(x.state.flags) == 2 and x.state.flags[0] == '-la' and vc.eq(x.state.flags[1], fl), 'DEPENDENCY adds its flags', lambda: x.state.flags)



@harness('I03', 'SHELL: its command is run', [V + 'visitShell'])
def h_shell(vc):
    """subprocess.run by contract: it runs the command, and raises if that fails and this was asked for"""
    v, m, i = iv()
    import subprocess
    x = visitor(v)
    text = vc.text('command', pool=('ls', 'echo some words', ' ls', "echo 'a  b' | wc", 'echo "a b"', ''))
    fails = vc.choice('fails', (False, True))
    ran = []
    def run(cmd, *a, check=False, **k):
        ran.append((cmd, k))
        if fails and check: raise subprocess.CalledProcessError(1, cmd)
        return type('R', (), {'returncode': int(fails), 'stdout': b'', 'stderr': b''})
    keep, subprocess.run = subprocess.run, run
    try: o = vc.run(x.visitShell, Ctx(StringLiteral='"' + text + '"'))
    finally: subprocess.run = keep
    vc.check(len(ran) == 1 and ran[0][1].get('shell') is True and vc.eq(ran[0][0], text), 'the command of SHELL is run as it is written', lambda: ran)
    vc.check(o.raised is fails, 'a command which fails is an error', o)

@harness('I03', 'PREVIOUS and MYSELF in expressions', [V + 'visitExpressionPrevious', V + 'visitExpressionMyself', CV + 'visitExpressionMyself', V + 'visitInstanceNameCopy', V + 'visitInstanceNameCopyIdentifier', V + 'visitInstanceNameIdentifier'])
def h_names(vc):
    v, m, i = iv()
    nm, last, out = vc.ident('name', POOL), vc.ident('last', POOL), vc.ident('outer last', POOL)
    mk = lambda n: Named(vc.ident(n, POOL))
    any_here, inc = vc.choice('any here', (True, False)), vc.choice('included', (True, False))
    any_there = inc and vc.choice('any there', (True, False))
    S = State(seq([some(vc, 'here', mk), [Named(last)]]) if any_here else ())
    x = visitor(v, state=S, current_instance_name=nm, destination=State(seq([some(vc, 'there', mk), [Named(out)]]) if any_there else ()) if inc else None)
    o = vc.run(x.visitExpressionPrevious, Ctx())
    if any_here or any_there: vc.check(not o.raised and isinstance(o.value, m.Expr) and vc.eq(o.value.expr[0]._value, last if any_here else out), 'PREVIOUS is the name of the last component', o)
    else: vc.check(o.raised, 'there is no PREVIOUS before the first component', o)
    o = vc.run(x.visitExpressionMyself, Ctx())
    vc.check(not o.raised and isinstance(o.value, m.Expr) and vc.eq(o.value.expr[0]._value, nm), 'MYSELF is the name of the component which is being defined', o)
    import mccode_antlr.comp.visitor as cv
    y = object.__new__(cv.CompVisitor)
    y.instance_name = nm
    o = vc.run(y.visitExpressionMyself, Ctx())
    vc.check(not o.raised and isinstance(o.value, m.Expr) and vc.eq(o.value.expr[0]._value, nm), 'MYSELF in a component is the name of the instance', o)
    o = vc.run(x.visitInstanceNameIdentifier, Ctx(Identifier=nm))
    vc.check(not o.raised and vc.eq(o.value, nm), 'a component has its name', o)


# ------------------------------------------------------------------ component definitions
def cvis(vc, parent=None):
    import mccode_antlr.comp.visitor as cv
    from mccode_antlr.comp import Comp
    y = object.__new__(cv.CompVisitor)
    y.__dict__.update(parent=parent, filename='thing.comp', state=Comp(name='thing'), instance_name='me', visit=lambda n: n)
    return y


SECTIONS = {'TraceBlock': 'trace', 'DeclareBlock': 'declare', 'ShareBlock': 'share', 'InitializeBlock': 'initialize', 'SaveBlock': 'save', 'FinallyBlock': 'final', 'DisplayBlock': 'display', 'Uservars': 'user'}


@harness('I03', 'sections of component definitions, COPY and EXTEND', [CV + 'visit' + n for n in SECTIONS] + [CV + 'visit' + n + 'Copy' for n in SECTIONS if n != 'Uservars'])
def h_sections(vc):
    v, m, i = iv()
    from mccode_antlr.comp import Comp
    n = vc.choice('section', tuple(SECTIONS))
    k = SECTIONS[n]
    src = some(vc, 'copied', lambda q: m.RawC('o.comp', 1, f'copied {q};'))
    other = Comp(name='Other')
    setattr(other, k, seq([src]))
    asked = []
    class Parent:
        def get_component(self, name, current_instance_name=None): asked.append(name); return other
    y = cvis(vc, Parent())
    blk = ('thing.comp', 5, 'own;')
    copy = n != 'Uservars' and vc.choice('COPY', (True, False))
    had = vc.choice('had one', (True, False))
    old = [m.RawC('b.comp', 1, 'before;')] if had else []
    setattr(y.state, k, tuple(old))
    nm = vc.ident('other', POOL)
    if copy:
        ext = vc.choice('EXTEND', (True, False))
        o = vc.run(getattr(y, f'visit{n}Copy'), Ctx(Identifier=nm, Extend='EXTEND' if ext else None, unparsed_block=blk if ext else None))
        vc.check(len(asked) > 0 and all(vc.eq(a, nm) for a in asked), 'what is copied is from the named component', lambda: asked)
    else:
        ext = True
        o = vc.run(getattr(y, 'visit' + n), Ctx(unparsed_block=blk))
    vc.check(not o.raised, 'a section can be read', o)
    got = pieces_of(getattr(y.state, k))
    own = got[-1][-1:] if ext and got and isinstance(got[-1], list) else []
    vc.check(not ext or len(own) == 1 and own[0].source == 'own;' and own[0].filename == 'thing.comp' and own[0].line == 5, 'the block of the definition comes last', lambda: got)
    # SHARE of a copied definition is added to, other sections are replaced
    base = old if not copy or n == 'ShareBlock' else []
    vc.check(same(getattr(y.state, k), [base, *([src] if copy else []), own]), 'a section has the copied blocks, then its own', lambda: got)
    vc.check(same(getattr(other, k), [src]), 'the component which is copied stays as it is')
    vc.check(all(getattr(y.state, q) == () for q in SECTIONS.values() if q != k), 'other sections stay as they are')


@harness('I03', 'parameters of component definitions', [CV + n for n in ('visitComponentParameterDouble', 'visitComponentParameterInteger', 'visitComponentParameterString', 'visitComponentParameterVector', 'visitComponentParameterIntegerArray', 'visitComponentParameterDoubleArray',
                                                                         'visitComponent_define_parameters', 'visitComponent_set_parameters', 'visitComponent_out_parameters', 'visitComponent_parameters')])
def h_comp_parameter(vc):
    v, m, i = iv()
    y = cvis(vc)
    nm = vc.ident('name', POOL)
    D, SH = m.DataType, m.ShapeType
    kind = vc.choice('kind', ('double', 'int', 'string', 'vector', 'int*', 'double*'))
    if kind in ('double', 'int'):
        g, q, e = number(vc, m, 'default')
        zero = g == 'none' and vc.choice('literal 0', (True, False))
        f = y.visitComponentParameterDouble if kind == 'double' else y.visitComponentParameterInteger
        o = vc.run(f, Ctx(Identifier=nm, Assign='=' if g != 'none' or zero else None, expr=e))
        if zero: q = 0
        vc.check(not o.raised, 'a parameter can be read', o)
        p = o.value
        vc.check(p.value.data_type == (D.float if kind == 'double' else D.int), 'it is of the stated type', o)
        if q is not None: vc.check(vc.num_eq(p.value.value, q), 'it has the stated default', o)
        elif e is not None: vc.check(p.value is e, 'it has the stated default', o)
        else: vc.check(not p.value.has_value, 'it has no default', o)
    elif kind == 'string':
        g = vc.choice('default', ('none', 'NULL', 'text'))
        o = vc.run(y.visitComponentParameterString, Ctx(Identifier=nm, Assign=None if g == 'none' else '=', StringLiteral='"abc"' if g == 'text' else None))
        vc.check(not o.raised, 'a parameter can be read', o)
        p = o.value
        vc.check(p.value.data_type == D.str and p.value.has_value == (g != 'none') and (g == 'none' or p.value.value == {'NULL': 'NULL', 'text': '"abc"'}[g]), 'it is a string with the stated default', o)
    else:
        g = vc.choice('default', ('none', 'NULL', 'name', 'list'))
        lst = m.Expr(m.Value([1, 2], D.undefined, m.ObjectType.initializer_list, SH.vector)) if g == 'list' else None
        f = {'vector': y.visitComponentParameterVector, 'int*': y.visitComponentParameterIntegerArray, 'double*': y.visitComponentParameterDoubleArray}[kind]
        o = vc.run(f, Ctx(Identifier=[nm, 'other'] if g == 'name' else [nm], Assign=None if g == 'none' else '=', initializerlist=lst, Null='NULL' if g == 'NULL' else None))
        vc.check(not o.raised, 'a parameter can be read', o)
        if o.raised: return
        p = o.value
        vc.check(p.value.data_type == (D.int if kind == 'int*' else D.float) and p.value.shape_type == SH.vector, 'it is a vector of the stated type', o)
        if g == 'list': vc.check(p.value is lst, 'it has the stated default', o)
        else: vc.check(p.value.expr[0]._value == {'none': None, 'NULL': 'NULL', 'name': 'other'}[g], 'it has the stated default', o)
    vc.check(vc.eq(p.name, nm), 'it has its name', o)
    log = []
    class Each:
        def enter(self, loop, env): pass
        def havoc(self, loop, env, stage): log.clear(); return {}
        def close(self, loop, env, elem): vc.check(log == [(to, elem)], 'every parameter is added where it is stated')
    to = vc.choice('to', ('define', 'setting', 'output'))
    for k in ('define', 'setting', 'output'): setattr(y.state, 'add_' + k, lambda p, k=k: log.append((k, p)))
    ps = some(vc, 'ps', lambda n: Token(n), fold=Each())
    o = vc.run(y.visitComponent_parameters, Ctx(component_parameter=seq([ps], list)))
    vc.check(not o.raised and same(o.value, [ps]), 'parameters are in order', o)
    o = vc.run({'define': y.visitComponent_define_parameters, 'setting': y.visitComponent_set_parameters, 'output': y.visitComponent_out_parameters}[to], Ctx(component_parameters=o.value))
    vc.check(not o.raised, 'parameters can be read', o)
    if not vc.sym: vc.check(log == [(to, p) for p in ps], 'every parameter is added where it is stated')


@harness('I03', 'DEFINE COMPONENT, COPY, CATEGORY, DEPENDENCY, METADATA', [CV + n for n in ('visitComponentDefineNew', 'visitComponentDefineCopy', 'visitCategory', 'visitDependency', 'visitMetadata', 'visitUnparsed_block')])
def h_define(vc):
    v, m, i = iv()
    from mccode_antlr.comp import Comp
    from mccode_antlr.grammar import McCompParser
    nm = vc.ident('name', POOL)
    noacc, copy = vc.choice('NOACC', (True, False)), vc.choice('COPY', (True, False))
    other = Comp(name='Other', category='optics', setting=(m.ComponentParameter('p', m.Expr.float(1)),), trace=(m.RawC('o.comp', 1, 'code;'),), acc=vc.choice('acc', (True, False)))
    flags, asked, visited = [], [], []
    class Parent:
        def get_component(self, name, current_instance_name=None): asked.append(name); return other
        def add_c_flags(self, f): flags.append(f)
    y = cvis(vc, Parent())
    y.visitChildren = lambda c: visited.append((c, y.state.name, y.state))
    if copy:
        onm = vc.ident('copied', POOL)
        c = Ctx(Identifier=[nm, onm], NoAcc='NOACC' if noacc else None)
        o = vc.run(y.visitComponentDefineCopy, c)
        vc.check(not o.raised and len(asked) == 1 and vc.eq(asked[0], onm), 'the definition which is copied is the named one', o)
        s = y.state
        vc.check(s is not other and [p.name for p in s.setting] == ['p'] and [b.source for b in s.trace] == ['code;'] and s.category == 'optics', 'all of the definition is copied')
        vc.check(other.name == 'Other' and s.acc == (other.acc and not noacc), 'the copied definition stays as it is; NOACC is kept or added')
    else:
        c = Ctx(Identifier=nm, NoAcc='NOACC' if noacc else None)
        o = vc.run(y.visitComponentDefineNew, c)
        vc.check(not o.raised and y.state.acc == (not noacc), 'a definition can run on a GPU unless it is marked NOACC', o)
    vc.check(vc.eq(y.state.name, nm), 'a definition has its name')
    vc.check(len(visited) == 1 and visited[0][0] is c and visited[0][2] is y.state, 'the sections of the definition are read into it, when it has its name')
    cat = vc.ident('category', POOL)
    q = vc.choice('category quoted', (True, False))
    o = vc.run(y.visitCategory, Ctx(StringLiteral='"' + cat + '"' if q else None, Identifier=None if q else cat))
    vc.check(not o.raised and vc.eq(y.state.category, cat), 'a definition has its category', o)
    fl = vc.text('flags', pool=('-lm', '-I. -lx', '-DN=\\"x\\"', '\\"a\\" -lb', ''))
    o = vc.run(y.visitDependency, Ctx(StringLiteral='"' + fl + '"' if vc.choice('flags there', (True, False)) else None))
    vc.check(not o.raised and (len(flags) == 1 and vc.eq(flags[0], fl) or len(flags) == 0), 'DEPENDENCY hands on its flags', lambda: flags)
    md = []
    y.state.add_metadata = md.append
    a, b = vc.ident('mime', POOL), vc.ident('metaname', POOL)
    k1, k2 = vc.choice('mime quoted', (True, False)), vc.choice('name quoted', (True, False))
    tok = lambda t, q: type('T', (), {'text': '"' + t + '"' if q else t, 'type': -5 if q else McCompParser.Identifier})
    o = vc.run(y.visitMetadata, Ctx({'mime': tok(a, k1), 'name': tok(b, k2)}, unparsed_block=('thing.comp', 3, 'content')))
    vc.check(not o.raised and len(md) == 1 and vc.eq(md[0].mimetype, a) and vc.eq(md[0].name, b) and md[0].value == 'content' and vc.eq(md[0].source.name, y.state.name), 'metadata has its type, name, content and source', o)
