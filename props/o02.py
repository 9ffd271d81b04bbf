"""O02: a component ends up where AT and ROTATED say, in the instrument object and in the generated C"""
import math
from vc.api import harness, Discard
from .exprlib import World, sem_unary, sem_binary, M, BINARY, ACCESS
from .o01 import TWorld, Al, O, vec, angle, defined, ds, same, same_chain, chain_of, part_of, use_trig, compose_all, const, num, affine, chain_affine, ANG
from .ctext import Parser, Text, BadC, lvalue
from .reader import Reader, Sub, Unreadable, C

F = 'mccode_antlr/instr/orientation.py:'
I = 'mccode_antlr/instr/instance.py:'
CI = 'mccode_antlr/translators/c_initialise.py:'
PREFIX = '_instrument_var._parameters.'


def Inst():
    import mccode_antlr.instr.instance as i
    return i


def orient(W, name):
    """the orientation of a component placed before: a chain for the position, one for the rotation, and what they come to"""
    o = O()
    if W.sym:
        p, tp = chain_of(W, name + '.p')
        r, tr = chain_of(W, name + '.r')
    else:
        v = vec(W, name + '.at', f=const if W.vc.choice(name + '.const', (True, False)) else num)
        defined(W, *v)
        p = (o.TranslationPart(v=v),)
        tp = lambda: (None, ds(W, v))
        from .o01 import any_concrete
        r = [any_concrete(W, f'{name}.r{i}', W.vc.choice(f'{name}.r{i}.axis', 'xyz'), angle_f(W, f'{name}.r{i}')) for i in range(W.vc.size(name + '.n', 0, 3))]
        defined(W, *[x.v for x in r])
        tr = lambda: compose_all(W, [affine(W, x) for x in r])
    return o.Orient(o.Parts(p), o.Parts(r)), tp, tr


def angle_f(W, name): return const if W.vc.choice(name + '.const', (True, False)) else num


def chain_contracts(W):
    """the chain operations by their contracts (O01)"""
    if not W.sym: return
    o, A = O(), Al(W)
    def vector(ds_): return o.Vector(*[M().Expr([W.lazy(f'v{len(W.keep)}', D=[d] * W.n)]) for d in ds_])
    def rotation(ds_): return o.Rotation(*[M().Expr([W.lazy(f'm{len(W.keep)}', D=[d] * W.n)]) for d in ds_])
    def total(p): return chain_affine(W, p._stack)
    def coords(which): return which is not None and 'axes' not in which
    def position(self, which=None):
        t = total(self)
        if coords(which):
            from .o01 import inv_affine
            t = inv_affine(W, t)
        return vector(t[1])
    o.Parts.position = position
    o.Parts.rotation = lambda self, which=None: rotation(A.t(total(self)[0]) if coords(which) else total(self)[0])
    o.Parts.reduce = lambda self: o.Parts((part_of(W, total(self)),))
    def fdc(cls, dep, at=None, rotated=None, degrees=True, copy=True):
        from vc.core import Unsupported
        if degrees is not True: raise Unsupported('unit')
        t = (A.eye(), A.zero()) if dep is None else total(dep)
        new = (A.euler(rotated) if rotated is not None else A.eye()), (ds(W, at) if at is not None else A.zero())
        return o.Parts((part_of(W, A.compose(new, t)),))
    o.Parts.from_dependent_chain = classmethod(fdc)


class CompType:
    """a component type: what Instance asks of it here"""
    name, acc = 'Arm', True


@harness('O02', 'Instance: placement from AT and ROTATED', [I + 'Instance.__post_init__', F + 'Orient.from_dependent_orientations', F + 'Orient.from_dependent_orientation', F + 'Orient.position', F + 'Orient.rotation', F + 'Orient.rotation_parts'], max_paths=20000)
def h_instance(vc):
    W = TWorld(vc, True); A = Al(W)
    use_trig(W)
    chain_contracts(W)
    i = Inst()
    def ref(name):
        r = object.__new__(i.Instance)
        r.name, r.type = name, CompType
        r.orientation, tp, tr = orient(W, name)
        return r, tp, tr
    kind = vc.choice('references', ('AT and ROTATED absolute', 'AT relative', 'ROTATED relative', 'both to one', 'both to two'))
    none = None, (lambda: (A.eye(), A.zero())), (lambda: (A.eye(), A.zero()))
    a = ref('first') if kind in ('AT relative', 'both to one', 'both to two') else none
    r = ref('second') if kind in ('ROTATED relative', 'both to two') else a if kind == 'both to one' else none
    at, rot = vec(W, 'at'), O().Angles(*[angle(W, f'rot.{x}') for x in 'xyz'])
    defined(W, *at, *rot)
    if vc.choice('tuples', (False, True)): args = (tuple(at), a[0]), (tuple(rot), r[0])
    else: args = (at, a[0]), (rot, r[0])
    out = vc.run(i.Instance, 'thing', CompType, *args)
    vc.check(not out.raised, 'a component can be placed', out)
    got = out.value.orientation
    want_r = A.mm(A.euler(rot), r[2]()[0])
    want_p = A.vadd(a[1]()[1], A.mv(A.t(a[2]()[0]), ds(W, at))) if a[0] is not None else ds(W, at)
    same_chain(W, ([], ds(W, got.position())), ([], want_p), f'{kind}: position')
    same_chain(W, (ds(W, got.rotation()), []), (want_r, []), f'{kind}: rotation')


# ------------------------------------------------------------------ the generated C
class CWorld(TWorld):
    """texts of expressions by contract; DEG2RAD is a constant"""
    def __init__(self, vc, **k):
        super().__init__(vc, False, ops=[o for o in BINARY if o != '//' and o not in ACCESS], **k)
        self.exprs = {}
        if self.sym:
            z3, m = self.z3, M()
            for e in self.ENV[0]: vc.p.add(e(z3.StringVal('DEG2RAD')) == z3.simplify(self.pi / 180))
            from vc.core import SStr, Atom
            def text(n, spec=None):
                self.keep.append(n)
                a = Atom(z3.String(f'text{len(self.exprs)}'), f'text{len(self.exprs)}', '', True, 'text')
                self.exprs[id(a)] = (n, spec, a)
                return SStr([a])
            m.Expr.__format__ = text
            m.Expr.__str__ = text
        else: self.env[0]['DEG2RAD', False] = self.env[0]['DEG2RAD', True] = math.pi / 180

    def atom(self, a):
        if id(a) in self.exprs:
            n, spec, _ = self.exprs[id(a)]
            if spec != 'p': raise Unreadable(f'an expression printed with {spec!r}: parameters need their prefix')
            return Sub(0, self.D(n, 0))
        if a.cls == 'num' and a.tag is not None: return Sub(5, self.D(a.tag))
        raise Unreadable(f'text {a.name}')

    def meaning(self, text):
        """the value of a C expression"""
        return Reader(self, C).read(text, PREFIX, self.atom)[0]


class Place:
    """runs the statements which place a component.  Contracts of the run-time library (McStas, not in this repository): rot_set_rotation(t, x, y, z) rotates
    the axes around x, y, then z; rot_mul(a, b, c) is c = a b; rot_transpose(a, b) is b = a^T; rot_copy(a, b) is a = b; rot_apply(m, v) is m v"""
    def __init__(self, W, env):
        self.W, self.A, self.env = W, Al(W), env
        self.arrays = {}

    def get(self, n):
        k = lvalue(n)
        if k not in self.env: raise BadC(f'{k} is used before it has a value')
        return self.env[k]

    def run(self, st):
        for s in st:
            if s.kind == 'decl':
                for name, ptr, dims, init in s.a[1]:
                    self.env.pop(name, None)
                    if init is not None: self.env[name] = self.val(init)
            elif s.kind == 'block': self.run(s.a[0])
            elif s.kind == 'expr': self.statement(s.a[0])
            elif s.kind == 'empty': pass
            else: raise BadC(f'{s.kind} statement')

    def num(self, n):
        return self.W.meaning(self.P.src(n))

    def val(self, n):
        A = self.A
        if n.kind == 'paren': return self.val(n.a[0])
        if n.kind == 'call':
            f, args = n.a[0].a[0], n.a[1]
            if f == 'coords_set': return [self.num(x) for x in args]
            if f == 'rot_apply': return A.mv(self.val(args[0]), self.val(args[1]))
            if f == 'coords_add': return A.vadd(self.val(args[0]), self.val(args[1]))
            if f == 'coords_sub': return A.vsub(self.val(args[0]), self.val(args[1]))
            if f == 'coords_neg': return [A.neg(x) for x in self.val(args[0])]
            if f in ('rot_test_identity', 'coords_test_zero'): return (f, list(self.val(args[0])))
            raise BadC(f'unknown function {f}')
        return self.get(n)

    def statement(self, n):
        A = self.A
        if n.kind == 'assign' and n.a[0] == '=':
            v = self.val(n.a[2])
            if n.a[1].kind == 'idx': self.arrays[lvalue(n.a[1])] = (self.P.src(n.a[1].a[1]), v)
            else: self.env[lvalue(n.a[1])] = v
        elif n.kind == 'call' and n.a[0].kind == 'id':
            f, args = n.a[0].a[0], n.a[1]
            if f == 'rot_set_rotation':
                ang = [self.num(x) for x in args[1:]]
                cs = [((self.W.trig('cos', d[0]), d[1]), (self.W.trig('sin', d[0]), d[1])) for d in ang]
                x, y, z = (A.rot(a, c) for a, c in zip('xyz', cs))
                self.env[lvalue(args[0])] = A.mm(z, A.mm(y, x))
            elif f == 'rot_mul': self.env[lvalue(args[2])] = A.mm(self.val(args[0]), self.val(args[1]))
            elif f == 'rot_transpose': self.env[lvalue(args[1])] = A.t(self.val(args[0]))
            elif f == 'rot_copy': self.env[lvalue(args[0])] = list(self.val(args[1]))
            elif f in ('DEBUG_COMPONENT',): pass
            else: raise BadC(f'unknown function {f}')
        else: raise BadC(f'{n}')


def name_of(W, vc, name, others=()):
    s = vc.ident(name, pool=('arm', 'det', 'source', 'mon1', 'a'))
    if W.sym: return s
    if s in others or s in ('tc1', 'tc2', 'tr1'): raise Discard()
    return s


@harness('O02', 'generated C: position and rotation of a component', [CI + 'cogen_comp_init_position', CI + '_split_xyz_ref'], max_paths=20000)
def h_position(vc):
    from mccode_antlr.translators.c_initialise import cogen_comp_init_position
    W = CWorld(vc); A = Al(W)
    use_trig(W)
    i = Inst()
    index = vc.int('index', 0, 7)
    vc.assume(index >= 0)
    names, insts = [], {}
    def make(what):
        n = name_of(W, vc, what, names)
        names.append(n)
        c = object.__new__(i.Instance)
        c.name, c.type = n, CompType
        if W.sym: c.partial_str = lambda: vc.text(f'{what}.comment', excl='\n')
        else:
            c.parameters, c.when = (), None
            c.cpu = False
            c.at_relative = c.rotate_relative = (O().Vector(), None)
        d = [(vc.real(f'{what}.R{k}') if not W.sym else W.z3.Real(f'{what}.R{k}'), W.S.true) for k in range(9)], [(vc.real(f'{what}.P{k}') if not W.sym else W.z3.Real(f'{what}.P{k}'), W.S.true) for k in range(3)]
        insts[what] = c, d
        return c
    comp = make('comp')
    last = make('last') if vc.choice('has_last', (True, False)) else None
    if last is not None: vc.assume(index > 0)
    pick = lambda k: {'absolute': None, 'last': last, 'at': lambda: insts['at'][0] if 'at' in insts else make('at'), 'other': lambda: make('other')}[k]
    def ref(k):
        x = pick(k)
        if callable(x): x = x()
        if k == 'last' and x is None: raise Discard() if not W.sym else _skip()
        return x
    def _skip():
        from vc.core import PathEnd
        return PathEnd()
    ar = ref(vc.choice('AT', ('absolute', 'last', 'at')))
    rr = ref(vc.choice('ROTATED', ('absolute', 'last', 'at', 'other')))
    at, rot = vec(W, 'at_v'), O().Angles(*[num(W, f'rot_v.{x}', specials=ANG) for x in 'xyz'])
    defined(W, *at, *rot)
    comp.at_relative, comp.rotate_relative = (at, ar), (rot, rr)
    li = vc.int('last_index', 0, 6)
    vc.assume(vc.and_(li >= 0, li < index)) if last is not None else None
    class Comps:
        __vc_sym__ = True
        def __getitem__(self, k):
            vc.check(k == li, 'the reference is the component whose coordinates the particle has')
            return last
    class Source: components = Comps()
    out = vc.run(cogen_comp_init_position, index, comp, li if last is not None else None, Source)
    vc.check(not out.raised, 'code is generated', out)
    text = Text(out.value)
    env = {}
    for what, (c, d) in insts.items():
        if what == 'comp': continue
        n = Text(c.name) if not W.sym else None
        key = c.name if not W.sym else next((chr(0xE000 + k) for k, a in enumerate(text.atoms) if a is c.name.parts[0]), None)
        if key is None: continue
        env[f'_{key}_var._rotation_absolute'], env[f'_{key}_var._position_absolute'] = d
    me = comp.name if not W.sym else next(chr(0xE000 + k) for k, a in enumerate(text.atoms) if a is comp.name.parts[0])
    try:
        P = Parser(text)
        run = Place(W, dict(env))
        run.P = P
        run.run(P.program())
    except (BadC, Unreadable) as e:
        vc.check(False, 'the generated code can be read', str(e))
        return
    g = lambda f: run.env.get(f'_{me}_var.{f}')
    for k, v in env.items(): vc.check(run.env.get(k) is v, 'the other components are left where they are')
    D = lambda x: next(d for c, d in insts.values() if c is x)
    e = ds(W, rot)
    k = A.num(math.pi / 180) if not W.sym else (W.z3.simplify(W.pi / 180), W.S.true)
    angs = [A.mul(x, k) for x in e]
    cs = [((W.trig('cos', d[0]), d[1]), (W.trig('sin', d[0]), d[1])) for d in angs]
    x, y, z = (A.rot(a, c) for a, c in zip('xyz', cs))
    own = A.mm(z, A.mm(y, x))
    R = own if rr is None else A.mm(own, D(rr)[0])
    p = ds(W, at)
    p = p if ar is None else A.vadd(D(ar)[1], A.mv(A.t(D(ar)[0]), p))
    check_entries(W, g('_rotation_absolute'), R, 'absolute rotation')
    check_entries(W, g('_position_absolute'), p, 'absolute position')
    Rl, pl = (A.eye(), A.zero()) if last is None else D(last)
    check_entries(W, g('_rotation_relative'), A.mm(R, A.t(Rl)) if last is not None else R, 'rotation relative to the coordinates which the particle has')
    rel = A.mv(R, A.vsub(pl, p) if last is not None else [A.neg(v) for v in p])
    check_entries(W, g('_position_relative'), rel, 'position relative to the coordinates which the particle has')
    for what, place in (('_rotation_is_identity', '_rotation_relative'), ('_position_relative_is_zero', '_position_relative')):
        t = g(what)
        vc.check(isinstance(t, tuple) and t[0] == ('rot_test_identity' if 'rot' in what else 'coords_test_zero'), f'{what} is set by the test')
        check_entries(W, t[1], g(place), f'{what} is the test of {place}')
    for arr, place in (('_position_absolute', '_position_absolute'), ('_position_relative', '_position_relative')):
        a = run.arrays.get(f'instrument->{arr}[]')
        vc.check(a is not None, f'{arr} of the instrument is set')
        check_entries(W, [W.meaning(a[0])], [(W.D(index)[0] + 1, W.S.true)], f'{arr}: the index of the component')
        check_entries(W, a[1], g(place), f'{arr} of the instrument')


def check_entries(W, got, want, label):
    vc = W.vc
    vc.check(got is not None and len(got) == len(want), label + ' is set')
    for g, w in zip(got, want):
        if W.sym:
            from vc.core import SBool
            z3 = W.z3
            d = z3.simplify(g[0] - w[0], som=True)
            s = z3.BoolVal(True) if z3.is_rational_value(d) and d.numerator_as_long() == 0 else g[0] == w[0]
            vc.check(SBool(z3.Implies(w[1], z3.And(g[1], s))), label)
        elif w[1] and math.isfinite(w[0]) and abs(w[0]) < 1e8:
            vc.check(g[1] and abs(g[0] - w[0]) <= 1e-6 * max(1, abs(w[0])) or W.unstable(w), label, lambda: f'{got} {want} {W.env}')


# ------------------------------------------------------------------ splitting an instrument
def placed(W, at, ar, rot, rr, place):
    """where a component is, by what AT and ROTATED say; place: where its references are"""
    A = Al(W)
    R = A.euler(rot) if rr is None else A.mm(A.euler(rot), place(rr)[0])
    p = ds(W, at)
    return R, p if ar is None else A.vadd(place(ar)[1], A.mv(A.t(place(ar)[0]), p))


@harness('O02', 'Instr.split: components of the second part stay where they are', ['mccode_antlr/instr/instr.py:Instr.split'], max_paths=20000)
def h_split(vc):
    import mccode_antlr.instr.instr as ii
    W = TWorld(vc, True); A = Al(W)
    i, o, m = Inst(), O(), M()
    if not W.sym: return split_concrete(vc, W)
    from vc.seqs import AbsChunk, ASeq, GHOST
    from vc.core import Unsupported, SStr
    new = lambda ds_: [m.Expr([W.lazy(f'v{len(W.keep)}', D=[d] * W.n)]) for d in ds_]
    def affd(name): return [(W.z3.Real(f'{name}.R{k}'), W.S.true) for k in range(9)], [(W.z3.Real(f'{name}.P{k}'), W.S.true) for k in range(3)]
    places, twin, names = {}, {}, []
    class Ori:
        """an orientation by its contract: position() is where it is, angles() are Euler angles of its (constant) rotation"""
        __vc_sym__ = True
        def __init__(self, d, label): self.d, self.label, self.ang = d, label, None
        def position(self, which=None): return o.Vector(*new(self.d[1]))
        def angles(self, which=None):
            if self.ang is None:
                self.ang = o.Angles(*[m.Expr([W.lazy(f'{self.label}.ang{k}')]) for k in range(3)])
                defined(W, *self.ang)
                for x, y in zip(A.euler(self.ang), self.d[0]): vc.p.define(x[0] == y[0])
            return self.ang
    def make(what, original=None):
        c = object.__new__(i.Instance)
        c.name = original.name if original is not None else vc.ident(f'{what}.name')
        c.type, c.orientation = CompType, Ori(affd(what), what) if original is None else original.orientation
        places[id(c)] = c.orientation.d
        W.keep.append(c)
        return c
    def member(nm):
        """a component of the second part, with its references: none, to one in this part, or to one before it"""
        c = make(nm)
        rs = {}
        for which in ('at', 'rot'):
            k = vc.choice(f'{nm}.{which}', ('absolute', 'inside', 'before', 'the AT reference') if which == 'rot' else ('absolute', 'inside', 'before'))
            if k == 'absolute': rs[which] = None
            elif k == 'the AT reference':
                if rs['at'] is None: rs[which] = None
                else: rs[which] = rs['at']
            else:
                r = make(f'{nm}.{which}ref')
                if k == 'inside': twin[id(r)] = make(nm + 'twin', r)
                rs[which] = r
                names.append((r, k == 'inside'))
        at, rot = vec(W, nm + '.at_v'), o.Angles(*[num(W, f'{nm}.rot_v.{x}') for x in 'xyz'])
        defined(W, *at, *rot)
        c.at_relative, c.rotate_relative = (at, rs['at']), (rot, rs['rot'])
        # the orientation of every component is where AT and ROTATED say it is (harness `placement`)
        R, p = placed(W, at, rs['at'], rot, rs['rot'], lambda r: places[id(r)])
        for x, y in zip(R + p, c.orientation.d[0] + c.orientation.d[1]): vc.p.define(x[0] == y[0])
        c.vc_before = at, rs['at'], rot, rs['rot']
        return c
    class Each:
        """loop rule: one arbitrary component of the second part; nothing but that component is changed"""
        def enter(self, loop, env): pass
        def havoc(self, loop, env, stage):
            if stage == 'iter': GHOST.update([id(loop.elem)] + [id(x) for x in places] )
            return {}
        def close(self, loop, env, c):
            at, ar = c.at_relative
            rot, rr = c.rotate_relative
            for r, which in ((ar, 'AT'), (rr, 'ROTATED')):
                if r is not None: vc.check(any(r is t for t in twin.values()), f'{which} of a component of the second part refers to a component of the second part')
            R, p = placed(W, at, ar, rot, rr, lambda r: places[id(r)])
            check_entries(W, p, c.orientation.d[1], 'the component stays at its position')
            check_entries(W, R, c.orientation.d[0], 'the component keeps its rotation')
    second, first = object.__new__(ii.Instr), object.__new__(ii.Instr)
    instr = object.__new__(ii.Instr)
    for x in (second, first, instr): x.name = 'ins'
    second.components = ASeq([AbsChunk('second', member, Each())])
    idx = vc.int('index')
    vc.assume(idx >= 0)
    target = make('split')
    class Comps:
        __vc_sym__ = True
        def index(self, x):
            if x is not target: raise Unsupported('index')
            return idx
    instr.components = Comps()
    calls = []
    def copy(first_=0, last=-1, **k):
        f, l = k.get('first', first_), last
        calls.append((f, l))
        if isinstance(f, int) and f == 0 and not (isinstance(l, int) and l == -1):
            vc.check(l == idx + 1, 'the first part ends with the component')
            return first
        vc.check(f == idx, 'the second part starts with the component')
        vc.check(isinstance(l, int) and l == -1, 'the second part goes to the end')
        return second
    instr.copy = copy
    for x in (first, second): x.check_instrument_parameters = lambda remove=False: 0
    def named(n):
        for r, inside in names:
            if r.name is n or (isinstance(n, SStr) and r.name.parts[0] is n.parts[0]): return inside
        raise Unsupported('a name which is not a reference')
    second.has_component_named = named
    def get(n):
        for r, inside in names:
            if inside and r.name.parts[0] is n.parts[0]: return twin[id(r)]
        raise Unsupported('a name which is not there')
    second.get_component = get
    out = vc.run(instr.split, target)
    vc.check(not out.raised, 'an instrument can be split at a component', out)


def split_concrete(vc, W):
    import mccode_antlr.instr.instr as ii
    from mccode_antlr.comp.comp import Comp
    i, o, m, A = Inst(), O(), M(), Al(W)
    n = vc.size('n', 1, 6)
    ty = Comp(name='Arm')
    comps = []
    def refof(k, which):
        j = vc.size(f'c{k}.{which}', 0, k)
        return comps[j] if j < k else None
    for k in range(n):
        at, rot = vec(W, f'c{k}.at_v', f=const), o.Angles(*[angle(W, f'c{k}.rot_v.{x}', const) for x in 'xyz'])
        comps.append(i.Instance(f'c{k}', ty, (at, refof(k, 'at')), (rot, refof(k, 'rot'))))
    instr = ii.Instr('ins', 'ins.instr')
    instr.components = tuple(comps)
    where = vc.size('at', 0, n - 1)
    out = vc.run(instr.split, comps[where] if vc.bool('object') else f'c{where}')
    vc.check(not out.raised, 'an instrument can be split at a component', out)
    first, second = out.value
    vc.check([c.name for c in first.components] == [f'c{k}' for k in range(where + 1)] and [c.name for c in second.components] == [f'c{k}' for k in range(where, n)], 'the two parts overlap in the component')
    def place(c):
        return placed(W, c.at_relative[0], c.at_relative[1], c.rotate_relative[0], c.rotate_relative[1], place)
    for part in (first, second):
        for c in part.components:
            R, p = place(c)
            R0, p0 = place(next(x for x in comps if x.name == c.name))
            check_entries(W, p, p0, 'the component stays at its position')
            near = abs(abs(R0[6][0]) - 1) < 1e-6
            if not near: check_entries(W, R, R0, 'the component keeps its rotation')
            if part is second:
                for r in (c.at_relative[1], c.rotate_relative[1]):
                    vc.check(r is None or any(r is x for x in second.components), 'references are to components of the second part')


# ------------------------------------------------------------------ which coordinates the particle has
@harness('O02', 'cogen_initialize: positions are relative to the last component which transforms', [CI + 'cogen_initialize'])
def h_initialize(vc):
    import mccode_antlr.translators.c_initialise as ci
    seen = []
    if not vc.sym:
        n = vc.size('n', 0, 6)
        skip = [vc.bool(f'skip{k}') for k in range(n)]
        comps = [type('C', (), dict(name=f'c{k}', type=CompType2)) for k in range(n)]
        class S:
            name, components, initialize, parameters = 'ins', comps, (), ()
            component_types = staticmethod(lambda: [])
        ci_setpos = ci.cogen_comp_setpos
        def rec(index, comp, last, *a):
            seen.append((index, comp, last))
            return ['']
        ci.cogen_comp_setpos = rec
        try: out = vc.run(ci.cogen_initialize, S, {}, skip)
        finally: ci.cogen_comp_setpos = ci_setpos
        if not seen and n: raise Discard()   # not by way of this function
        vc.check(not out.raised, 'code is generated', out)
        want = [(k, comps[k], max([j for j in range(k) if not skip[j]], default=None)) for k in range(n)]
        vc.check(seen == want, 'each component is placed relative to the last one before it which transforms coordinates', lambda: f'{seen} {want}')
        return
    import z3
    from vc.seqs import AbsChunk, ASeq, AList
    from vc.core import SInt, SBool, PathEnd, Unsupported, cur
    SK = z3.Function('skip', z3.IntSort(), z3.BoolSort())
    i = z3.Int('at_index')
    vc.p.add(i >= 0)
    class Skips:
        __vc_sym__ = True
        def __getitem__(self, k): return SBool(SK(k.t if isinstance(k, SInt) else z3.IntVal(k)))
        def __vc_isinstance__(self, t): return True
    class Elem: name, type = 'c', CompType2
    x = Elem()
    state = {}
    class Fold:
        """ghost: the index of the last component before this one which is not skipped"""
        def carried(self, env, names): return [n for n in names if n in env and (env[n] is None or isinstance(env[n], (int, SInt)) and not isinstance(env[n], bool))]
        def enter(self, loop, env):
            self.vars = [n for n in self.carried(env, loop.names) if n not in loop.targets]
            for n in self.vars: vc.check(env[n] is None, 'aux: loop invariant at entry: nothing has been transformed yet')
        def havoc(self, loop, env, stage):
            if stage == 'exit': raise PathEnd()
            state['last'] = None if vc.choice('none before', (True, False)) else SInt(z3.Int('L'))
            L = z3.Int('L')
            j = z3.Int('j')
            if state['last'] is not None: vc.p.add(z3.And(L >= 0, L < i, z3.Not(SK(L))))
            self.lists = [n for n in loop.names if isinstance(env.get(n), list) or isinstance(env.get(n), AList)]
            return {**{n: state['last'] for n in self.vars}, **{n: AList([[]]) for n in self.lists}}
        def close(self, loop, env, elem):
            want = state['last']
            skipped = vc.p.decide(SK(i))
            for n in self.vars:
                w = want if skipped else SInt(i)
                v = env[n]
                vc.check((v is None) if w is None else v is not None and (v == w), 'aux: loop invariant: the last component which transforms coordinates')
            vc.check(state.get('called'), 'each component is placed')
    c = AbsChunk('components', lambda nm: x, Fold())
    class Comps(ASeq):
        def __vc_enumerate__(self, start=0):
            if start != 0: raise Unsupported('start')
            return ASeq([AbsChunk('enum', lambda nm: (SInt(i), x), c.fold, c.n)])
    class S:
        name, initialize, parameters = 'ins', (), ()
        component_types = staticmethod(lambda: [])
    S.components = Comps([c])
    def setpos(index, comp, last, *a):
        state['called'] = True
        vc.check(comp is x and index == SInt(i), 'the component and its index')
        w = state['last']
        vc.check((last is None) if w is None else last is not None and (last == w), 'each component is placed relative to the last one before it which transforms coordinates')
        return ['']
    ci.cogen_comp_setpos = setpos
    out = vc.run(ci.cogen_initialize, S, {}, Skips())
    vc.check(not out.raised, 'code is generated', out)


class CompType2:
    name, acc, initialize = 'Arm', True, ()
