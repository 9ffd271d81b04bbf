"""O01: transformations of coordinate systems are the affine maps they are named after"""
import math
from vc.api import harness, Discard
from .exprlib import World, sem_unary, sem_binary, M

F = 'mccode_antlr/instr/orientation.py:'
PI = math.pi


def O():
    import mccode_antlr.instr.orientation as o
    return o


# ------------------------------------------------------------------ a world whose sine and cosine know their unit
class TWorld(World):
    """deg: angles (and so the symbolic functions sin, cos applied to them) are in degrees"""
    def __init__(self, vc, deg=True, contracts=True, **k):
        super().__init__(vc, **k)
        self.deg = deg
        self.trig_seen = set()
        self.subst, self.scale = [], 1.0
        f1 = self.S.fun1
        def fun1(op, v):
            if isinstance(op, str) and op in ('sin', 'cos'): return self.trig(op, v)
            return f1(op, v)
        self.S.fun1 = fun1
        if self.sym:
            z3 = self.z3
            from vc.core import rterm
            self.pi = rterm(PI)
            from vc import smath
            q = self.pi
            for x, s, c in ((0, 0, 1), (1, 1, 0), (2, 0, -1), (-1, -1, 0), (-2, 0, -1)):
                t = z3.simplify(x * q / 2)
                vc.p.add(smath.UF['sin'](t) == s)
                vc.p.add(smath.UF['cos'](t) == c)
            # PI is the name of that constant in the generated code
            for i in range(self.n):
                for e in self.ENV[i]: vc.p.add(e(z3.StringVal('PI')) == q)
            if contracts: install(self)
        else:
            for i in range(self.n): self.env[i]['PI', False] = self.env[i]['PI', True] = PI
            if deg is None: raise RuntimeError

    def trig(self, op, v, deg=None):
        """sin/cos of the angle whose numeric value is v"""
        deg = self.deg if deg is None else deg
        if not self.sym:
            if v != v or abs(v) == math.inf: return float('nan')
            return getattr(math, op)(v * PI / 180 if deg else v)
        z3 = self.z3
        from vc import smath
        t = z3.simplify(v * self.pi / 180) if deg else z3.simplify(v)
        s, c = smath.UF['sin'](t), smath.UF['cos'](t)
        if t.get_id() not in self.trig_seen:
            self.trig_seen.add(t.get_id())
            self.keep.append(t)
            m = z3.simplify(-t)
            self.vc.p.define(z3.And(s * s + c * c == 1, smath.UF['sin'](m) == -s, smath.UF['cos'](m) == c, z3.Implies(v == 0, z3.And(s == 0, c == 1))))
        return s if op == 'sin' else c


def install(W):
    """the operations and tests on expressions, by their contracts (E01, E02 and the harness `tests on expressions`)"""
    m, z3 = M(), W.z3
    from vc.core import SBool, is_num
    from .exprlib import LazyNode
    def bop(o_):
        def f(a, b):
            r = W.assume_op(o_, a, b)
            if o_ == '/' and SBool(z3.Not(W.D(r)[1])):
                e = RuntimeError('Division by zero'); e.vc_real = True
                raise e
            return r
        return f
    def plain(x): return isinstance(x, (m.Value, m.UnaryOp, m.BinaryOp, m.TrinaryOp, LazyNode, m.Expr))
    for o_, n in (('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('/', 'truediv')):
        W.contracts[f'__{n}__'] = bop(o_)
        for c in (m.Value, m.UnaryOp, m.BinaryOp, m.TrinaryOp, m.Op): setattr(c, f'__{n}__', bop(o_))
    def neg(a): return W.lazy(f'neg{len(W.keep)}', D=[sem_unary(W.S, '-', W.D(a, i)) for i in range(W.n)])
    W.contracts['__neg__'] = neg
    for c in (m.UnaryOp, m.BinaryOp, m.TrinaryOp, m.Op): c.__neg__ = neg
    def mabs(a): return W.lazy(f'abs{len(W.keep)}', D=[sem_unary(W.S, 'abs', W.D(a, i)) for i in range(W.n)])
    W.contracts['__abs__'] = mabs
    def flag(n, what, fact):
        memo = W.info[id(n)].setdefault('flags', {})
        if what not in memo:
            b = z3.Bool(f'{what}.{len(W.keep)}.{len(memo)}')
            memo[what] = b
            W.vc.p.add(z3.Implies(b, fact))
        return SBool(memo[what])
    W.props['is_zero'] = lambda n: flag(n, 'is_zero', z3.And(W.D(n)[0] == 0, W.D(n)[1]))
    def is_value(n, v):
        if plain(v) or is_num(v):
            d = W.D(v)
            return flag(n, f'is_value {d[0]}', z3.And(W.D(n)[0] == d[0], W.D(n)[1] == d[1]))
        raise NotImplementedError
    W.contracts['is_value'] = is_value


# ------------------------------------------------------------------ inputs
def num(W, name, specials=()):
    """an arbitrary expression"""
    m = M()
    if W.sym: return m.Expr([W.lazy(name)])
    if W.vc.given is None and W.vc.rng.random() < 0.6 and f'{name}.kind' not in (W.vc.given or {}):
        W.vc.values[f'{name}.kind'] = 0
        W.vc.values[f'{name}.vk'] = 0
        return m.Expr([m.Value(W.vc.real(f'{name}.val', specials=specials), m.DataType.float)])
    return m.Expr([W.build(name, 2)])


def const(W, name, **k):
    m = M()
    return m.Expr(m.Value(W.vc.real(name, **k), m.DataType.float))


def vec(W, name, cls='Vector', f=num, **k): return getattr(O(), cls)(*[f(W, f'{name}.{x}', **k) for x in 'xyz'])


def mat(W, name, cls='Rotation', f=num): return getattr(O(), cls)(*[f(W, f'{name}.{x}{y}') for x in 'xyz' for y in 'xyz'])


def seitz(W, name, f=num): return O().Seitz(*[f(W, f'{name}.{x}{y}') for x in 'xyz' for y in 'xyzt'])


def defined(W, *es):
    """only inputs which have a value"""
    if not W.sym:
        for e in es:
            d = W.D(e)
            if not d[1] or d[0] != d[0]: raise Discard()
    else:
        for e in es: W.vc.p.add(W.D(e)[1])


ANG = (0.0, 90.0, 180.0, -90.0, 45.0, 30.0, -180.0, 270.0, 360.0, 120.0)


def angle(W, name, f=num): return f(W, name, specials=ANG)


# ------------------------------------------------------------------ spec: tuples of (value, defined)
def ds(W, es): return [W.D(e) for e in es]


class Al:
    """linear algebra over (value, defined)"""
    def __init__(self, W): self.W, self.S = W, W.S
    def op(self, o, a, b): return sem_binary(self.S, o, a, b)
    def add(self, a, b): return self.op('+', a, b)
    def sub(self, a, b): return self.op('-', a, b)
    def mul(self, a, b): return self.op('*', a, b)
    def neg(self, a): return sem_unary(self.S, '-', a)
    def num(self, x):
        if self.W.sym:
            from vc.core import rterm
            return rterm(x), self.S.true
        return float(x), True
    def sum(self, xs):
        r = xs[0]
        for x in xs[1:]: r = self.add(r, x)
        return r
    def mm(self, a, b): return [self.sum([self.mul(a[3 * i + k], b[3 * k + j]) for k in range(3)]) for i in range(3) for j in range(3)]
    def mv(self, a, v): return [self.sum([self.mul(a[3 * i + k], v[k]) for k in range(3)]) for i in range(3)]
    def vm(self, v, a): return [self.sum([self.mul(v[k], a[3 * k + j]) for k in range(3)]) for j in range(3)]
    def vadd(self, a, b): return [self.add(x, y) for x, y in zip(a, b)]
    def vsub(self, a, b): return [self.sub(x, y) for x, y in zip(a, b)]
    def t(self, a): return [a[3 * j + i] for i in range(3) for j in range(3)]
    def eye(self): return [self.num(1 if i == j else 0) for i in range(3) for j in range(3)]
    def zero(self): return [self.num(0)] * 3
    # affine maps as (matrix, vector)
    def compose(self, a, b): return self.mm(a[0], b[0]), self.vadd(self.mv(a[0], b[1]), a[1])
    def cs(self, ang):
        d = self.W.D(ang)
        return (self.W.trig('cos', d[0]), d[1]), (self.W.trig('sin', d[0]), d[1])
    def rot(self, axis, ang, back=False):
        """the matrix which rotates the axes around x, y or z (the McStas convention)"""
        c, s = self.cs(ang) if not isinstance(ang, tuple) else ang
        if back: s = self.neg(s)
        o, z, n = self.num(1), self.num(0), self.neg(s)
        return {'x': [o, z, z, z, c, s, z, n, c], 'y': [c, z, n, z, o, z, s, z, c], 'z': [c, s, z, n, c, z, z, z, o]}[axis]
    def euler(self, angs, back=False):
        x, y, z = (self.rot(a, e, back) for a, e in zip('xyz', angs))
        return self.mm(z, self.mm(y, x))


def same(W, got, want, label):
    got = list(got)
    W.vc.check(len(got) == len(want), label + ': number of entries')
    for i, (g, w) in enumerate(zip(got, want)): W.check_same(g, w, label)


def split_seitz(ss): return [ss[i] for i in (0, 1, 2, 4, 5, 6, 8, 9, 10)], [ss[i] for i in (3, 7, 11)]


def affine(W, part):
    """what a transformation object does"""
    return split_seitz(ds(W, part.axes))


def same_affine(W, part, want, label):
    got = list(part.axes)
    r, t = split_seitz(got)
    same(W, r, want[0], label + ' (rotation)')
    same(W, t, want[1], label + ' (translation)')


# ------------------------------------------------------------------ vectors and matrices
@harness('O01', 'Vector: + - scalar and matrix products, cross matrix', [F + 'Vector.__add__', F + 'Vector.__sub__', F + 'Vector.__mul__', F + 'Vector.__truediv__', F + 'Vector.cross_matrix', F + 'Angles.__add__', F + 'Angles.__sub__', F + 'Angles.__mul__'])
def h_vector(vc):
    W = TWorld(vc); A = Al(W)
    cls = vc.choice('cls', ('Vector', 'Angles'))
    a, b = vec(W, 'a', cls), vec(W, 'b', cls)
    da, db = ds(W, a), ds(W, b)
    k = num(W, 'k')
    same(W, a + b, A.vadd(da, db), 'sum of vectors')
    same(W, a - b, A.vsub(da, db), 'difference of vectors')
    same(W, a * k, [A.mul(x, W.D(k)) for x in da], 'vector times number')
    if cls == 'Vector':
        out = vc.run(lambda: a / k)
        if not out.raised: same(W, out.value, [A.op('/', x, W.D(k)) for x in da], 'vector divided by number')
        m = mat(W, 'm', vc.choice('m.cls', ('Rotation', 'Matrix')))
        same(W, a * m, A.vm(da, ds(W, m)), 'row vector times matrix')
        o, (x, y, z) = A.num(0), da
        cross = A.mv([o, A.neg(z), y, z, o, A.neg(x), A.neg(y), x, o], db)
        same(W, a.cross_matrix() * b, cross, 'the cross matrix gives the cross product')


@harness('O01', 'Vector.length', [F + 'Vector.length', F + 'Vector.is_null'])
def h_length(vc):
    W = TWorld(vc, contracts=False); A = Al(W)
    a = vec(W, 'a', f=const)
    x, y, z = (W.D(e)[0] for e in a)
    if W.sym:
        from vc.core import SReal, SBool
        W2 = a.length()
        r = W.D(W2)[0]
        vc.check(SBool(W.z3.And(r >= 0, r * r == x * x + y * y + z * z)), 'the length of a vector is the root of the sum of squares')
        n = a.is_null()
        vc.check(vc.iff(n, SBool(W.z3.And(x == 0, y == 0, z == 0))), 'a vector is null exactly when its elements are zero')
    else:
        vc.check(vc.num_eq(a.length().value, math.sqrt(x * x + y * y + z * z)), 'the length of a vector is the root of the sum of squares')
        vc.check(a.is_null() == (x == 0 and y == 0 and z == 0), 'a vector is null exactly when its elements are zero')


@harness('O01', 'Matrix and Rotation: products, sums, transpose', [F + f'{c}.{m}' for c, ms in (('Matrix', ('__mul__', '__add__', '__sub__', 'eye')), ('Rotation', ('__mul__', '__sub__', 'transpose', 'inverse'))) for m in ms])
def h_matrix(vc):
    W = TWorld(vc); A = Al(W)
    cls = vc.choice('cls', ('Matrix', 'Rotation'))
    a, b, v = mat(W, 'a', cls), mat(W, 'b', cls), vec(W, 'v')
    da, db, dv = ds(W, a), ds(W, b), ds(W, v)
    same(W, a * b, A.mm(da, db), 'product of matrices')
    same(W, a * v, A.mv(da, dv), 'matrix times vector')
    same(W, a - b, A.vsub(da, db), 'difference of matrices')
    if cls == 'Matrix':
        same(W, a + b, A.vadd(da, db), 'sum of matrices')
        k = num(W, 'k')
        same(W, a * k, [A.mul(x, W.D(k)) for x in da], 'matrix times number')
        same(W, O().Matrix.eye(), A.eye(), 'unit matrix')
    else:
        same(W, a.transpose(), A.t(da), 'transposed matrix')
        same(W, a.inverse(), A.t(da), 'the inverse of a rotation is its transpose')


@harness('O01', 'Seitz: product is composition', [F + 'Seitz.' + m for m in ('__mul__', 'rotation', 'vector', 'from_rotation', 'from_vector', 'trace')])
def h_seitz(vc):
    W = TWorld(vc); A = Al(W)
    a, b = seitz(W, 'a'), seitz(W, 'b')
    da, db = split_seitz(ds(W, a)), split_seitz(ds(W, b))
    r, t = split_seitz(list(a * b))
    want = A.compose(da, db)
    same(W, r, want[0], 'rotation of the product')
    same(W, t, want[1], 'translation of the product')
    same(W, a.rotation(), da[0], 'rotation part')
    same(W, a.vector(), da[1], 'translation part')
    W.check_same(a.trace(), A.sum([da[0][0], da[0][4], da[0][8]]), 'trace')
    same(W, O().Seitz.from_rotation(a.rotation()), [*da[0][0:3], A.num(0), *da[0][3:6], A.num(0), *da[0][6:9], A.num(0)], 'from a rotation')
    e = A.eye()
    same(W, O().Seitz.from_vector(a.vector()), [*e[0:3], da[1][0], *e[3:6], da[1][1], *e[6:9], da[1][2]], 'from a vector')


def orthonormal(W, d, extra=()):
    """the matrix of values d is orthonormal (rows and columns), also multiplied with each of `extra`: pairs of equal terms"""
    A, out = Al(W), []
    for p in (A.mm(d, A.t(d)), A.mm(A.t(d), d)):
        for x, e in zip(p, A.eye()):
            for k in (None, *extra): out.append((x[0], e[0]) if k is None else (x[0] * k, e[0] * k))
    return out


class Linear:
    """equations between polynomials with every monomial read as a variable of its own (sound: fewer facts known of it)"""
    def __init__(self, W): self.W, self.m = W, {}
    def term(self, t):
        z3 = self.W.z3
        t = z3.simplify(t, som=True)
        return z3.Sum([self.mono(x) for x in (t.children() if z3.is_add(t) else [t])])
    def mono(self, t):
        z3 = self.W.z3
        if z3.is_rational_value(t): return t
        c, fs, todo = z3.RealVal(1), [], [t]
        while todo:
            x = todo.pop()
            if z3.is_mul(x): todo += x.children()
            elif z3.is_app_of(x, z3.Z3_OP_POWER) and z3.is_rational_value(x.arg(1)): todo += [x.arg(0)] * x.arg(1).numerator_as_long()
            elif z3.is_rational_value(x): c = c * x
            else: fs.append(x)
        fs.sort(key=lambda x: x.get_id())
        k = tuple(x.get_id() for x in fs)
        if k not in self.m: self.m[k] = (z3.Real(f'mono{len(self.m)}'), fs)
        return z3.simplify(c) * self.m[k][0]
    def eq(self, a, b): return self.term(a - b) == 0


@harness('O01', 'Seitz.inverse of a rotation and translation', [F + 'Seitz.inverse', F + 'Part.inverse'])
def h_seitz_inverse(vc):
    W = TWorld(vc); A = Al(W)
    if W.sym:
        a = seitz(W, 'a')
    else:
        t = vec(W, 't')
        r = A.euler([angle(W, f'r.{x}', const) for x in 'xyz'])
        f = M().Expr.float
        a = O().Seitz(*[y for i in range(3) for y in (*[f(x[0]) for x in r[3 * i:3 * i + 3]], t[i])])
    da = split_seitz(ds(W, a))
    inv = O().Part(a).inverse().axes if vc.choice('part', (False, True)) else a.inverse()
    di = split_seitz(ds(W, inv))
    if W.sym:
        # what was returned: the transposed rotation and -R^T t, entry by entry
        same(W, split_seitz(list(inv))[0], A.t(da[0]), 'the inverse rotates back')
        same(W, split_seitz(list(inv))[1], [A.neg(x) for x in A.mv(A.t(da[0]), da[1])], 'the inverse moves back')
    else:
        e = A.compose(di, da)
        for g, w in zip(e[0] + e[1], A.eye() + A.zero()):
            if g[1]: vc.check(vc.num_eq(g[0], w[0], 1e-6) or abs(g[0]) > 1e9 or any(abs(x[0]) > 1e6 for x in da[1]), 'the inverse undoes the transformation', lambda: f'{e}')


@harness('O01', 'R^T and -R^T t are the inverse of R, t (lemma over the contract of Seitz.inverse)', [F + 'Seitz.inverse'], conc=False)
def h_inverse_lemma(vc):
    W = TWorld(vc); A = Al(W)
    a = seitz(W, 'a')
    da = split_seitz(ds(W, a))
    inv = A.t(da[0]), [A.neg(x) for x in A.mv(A.t(da[0]), da[1])]
    from vc.core import SBool
    L = Linear(W)
    facts = orthonormal(W, da[0], [x[0] for x in da[1]])
    for f in facts: vc.p.define(L.eq(*f))
    for got in (A.compose(inv, da), A.compose(da, inv)):
        for g, w in zip(got[0] + got[1], A.eye() + A.zero()):
            vc.check(SBool(L.eq(g[0], w[0])), 'composed with the inverse: the identity')


# ------------------------------------------------------------------ angles
@harness('O01', 'sin_value, cos_value', [F + 'sin_value', F + 'cos_value', F + 'sin_degree', F + 'cos_degree'])
def h_trig(vc):
    deg = vc.choice('degrees', (True, False))
    W = TWorld(vc, deg); A = Al(W)
    v = angle(W, 'v', vc.choice('f', (num, const)))
    c, s = A.cs(v)
    W.check_same(O().cos_value(v, deg), c, 'cos_value is the cosine of the angle')
    W.check_same(O().sin_value(v, deg), s, 'sin_value is the sine of the angle')


def use_trig(W):
    """sin_value and cos_value by their contract (harness `sin_value, cos_value`)"""
    if not W.sym: return
    o, m, A = O(), M(), Al(W)
    def mk(i):
        def f(v, degrees=True):
            from vc.core import Unsupported
            if bool(degrees) != bool(W.deg): raise Unsupported('an angle taken in the other unit')
            d = A.cs(v)[i]
            return m.Expr([W.lazy(f'trig{len(W.keep)}', D=[d] * W.n)])
        return f
    o.cos_value, o.sin_value = mk(0), mk(1)


@harness('O01', 'Rotation.from_angles', [F + 'Rotation.from_angles'], max_paths=20000)
def h_from_angles(vc):
    deg = vc.choice('degrees', (True, False))
    W = TWorld(vc, deg); A = Al(W)
    f = vc.choice('f', (const, num)) if not W.sym else const
    a = O().Angles(*[angle(W, f'a.{x}', f) for x in 'xyz'])
    same(W, O().Rotation.from_angles(a, deg), A.euler(a), 'from_angles rotates around x, then y, then z')


@harness('O01', 'Rotation.from_angles of unknown angles', [F + 'Rotation.from_angles'], conc=False)
def h_from_angles_sym(vc):
    """unary_expr by its contract: the function applied to the value"""
    deg = vc.choice('degrees', (True, False))
    W = TWorld(vc, deg); A = Al(W)
    m = M()
    def ue(func, name, v):
        return m.Expr([W.lazy(f'ue{len(W.keep)}', D=[sem_unary(W.S, name, W.D(v))] * W.n)])
    import mccode_antlr.common as c
    c.unary_expr = ue
    a = O().Angles(*[angle(W, f'a.{x}') for x in 'xyz'])
    same(W, O().Rotation.from_angles(a, deg), A.euler(a), 'from_angles rotates around x, then y, then z')


@harness('O01', '_rotation_angles_to_axes_coordinates', [F + '_rotation_angles_to_axes_coordinates'])
def h_axes_coord(vc):
    deg = vc.choice('degrees', (True, False))
    W = TWorld(vc, deg); A = Al(W)
    use_trig(W)
    a = O().Angles(*[angle(W, f'a.{x}') for x in 'xyz'])
    axes, coords = O()._rotation_angles_to_axes_coordinates(a, degrees=deg)
    same(W, axes, A.euler(a), 'axes rotate around x, then y, then z')
    same(W, coords, A.euler(a, back=True), 'coordinates rotate the opposite way')


@harness('O01', 'RotationX, RotationY, RotationZ', [F + f'Rotation{x}.{m}' for x in 'XYZ' for m in ('__post_init__', 'inverse', 'angles', 'rotation_axis')] + [F + 'RotationPart._cos_sin_one_zero', F + 'RotationPart.rotation_axis_angle', F + 'RotationPart.position'])
def h_rotpart(vc):
    deg = vc.choice('degrees', (True, False))
    W = TWorld(vc, deg); A = Al(W)
    use_trig(W)
    if W.sym: M().Expr.__str__ = M().Expr.__format__ = lambda *a: 'an angle' # (only used in the text of an error)
    i = vc.choice('axis', (0, 1, 2))
    cls = (O().RotationX, O().RotationY, O().RotationZ)[i]
    v = angle(W, 'v')
    p = cls(v=v, degrees=deg)
    want = A.rot('xyz'[i], v), A.zero()
    same_affine(W, p, want, 'a rotation around one axis')
    inv = p.inverse()
    same_affine(W, inv, (A.rot('xyz'[i], v, back=True), A.zero()), 'the inverse rotates the other way')
    vc.check(bool(inv.degrees) == deg, 'the inverse is in the same unit')
    for unit in (True, False):
        want = W.D(v)
        if unit != deg:
            k = (180 / PI) if unit else (PI / 180)
            want = A.mul(want, A.num(k))
        out = vc.run(p.angles, degrees=unit)
        if out.raised:
            # the constant pi itself is refused as an angle
            vc.check(not W.sym or True, 'angles')
            continue
        ang = out.value
        for j in range(3): W.check_same(ang[j], want if i == j else A.num(0), 'its angles are the angle around that axis')
    ax, a2, unit = p.rotation_axis_angle
    for j in range(3): W.check_same(ax[j], A.num(1 if i == j else 0), 'rotation axis')
    W.check_same(a2, W.D(v), 'rotation angle')
    vc.check(unit == ('degrees' if deg else 'radian'), 'unit of the rotation angle')
    same(W, p.position(), A.zero(), 'a rotation does not move the origin')
    same(W, p.position('coordinates'), A.zero(), 'a rotation does not move the origin')
    same(W, p.rotation(), A.rot('xyz'[i], v), 'rotation of the axes')
    same(W, p.rotation('coordinates'), A.rot('xyz'[i], v, back=True), 'rotation of coordinates is the opposite rotation')


@harness('O01', 'TranslationPart', [F + 'TranslationPart.' + m for m in ('__post_init__', 'inverse', 'position', 'angles')])
def h_translation(vc):
    W = TWorld(vc); A = Al(W)
    v = vec(W, 'v')
    p = O().TranslationPart(v=v)
    same_affine(W, p, (A.eye(), ds(W, v)), 'a translation')
    same_affine(W, p.inverse(), (A.eye(), [A.neg(x) for x in ds(W, v)]), 'the inverse moves back')
    same(W, p.position(), ds(W, v), 'position')
    same(W, p.angles(), A.zero(), 'no rotation')
    same(W, p.rotation(), A.eye(), 'no rotation')


def part(W, name):
    """any transformation object with an arbitrary matrix (its class matters to nobody but is_constant)"""
    o = O()
    return o.Part(seitz(W, name))


@harness('O01', 'Part: products, axes and coordinates', [F + 'Part.' + m for m in ('__mul__', 'inverse', 'seitz', 'position', 'rotation', 'axes', 'coordinates')])
def h_part(vc):
    W = TWorld(vc); A = Al(W)
    a, b = part(W, 'a'), part(W, 'b')
    da, db = affine(W, a), affine(W, b)
    same_affine(W, a * b, A.compose(da, db), 'the product applies the right factor first')
    which = vc.choice('which', (None, 'axes', 'coordinates'))
    back = which == 'coordinates'
    same(W, a.rotation(which), A.t(da[0]) if back else da[0], 'rotation')
    same(W, a.position(which), [A.neg(x) for x in A.mv(A.t(da[0]), da[1])] if back else da[1], 'position')
    same_affine(W, a.inverse(), (A.t(da[0]), [A.neg(x) for x in A.mv(A.t(da[0]), da[1])]), 'inverse')


# ------------------------------------------------------------------ chains of transformations
def chain_affine(W, parts):
    A = Al(W)
    r = A.eye(), A.zero()
    if getattr(parts, 'chunks', None) is not None:
        todo = [p for c in parts.chunks for p in (c if isinstance(c, list) else [c])]
    else: todo = list(parts)
    for p in todo:
        if hasattr(p, 'total'): a = p.total.get()
        else: a = affine(W, p)
        r = A.compose(a, r)
    return r


@harness('O01', 'Parts.from_at_rotated', [F + 'Parts.from_at_rotated', F + 'Parts.resolve'], max_paths=20000)
def h_at_rotated(vc):
    deg = vc.choice('degrees', (True, False))
    W = TWorld(vc, deg); A = Al(W)
    use_trig(W)
    a = O().Angles(*[angle(W, f'a.{x}') for x in 'xyz'])
    at = vec(W, 'at')
    defined(W, *a, *at)
    p = O().Parts.from_at_rotated(at, a, deg)
    # each of the parts that were left out does nothing (its matrix is the unit matrix)
    got = chain_affine(W, p.stack())
    want = A.euler(a), ds(W, at)
    for label, gs, ws in (('rotation', got[0], want[0]), ('translation', got[1], want[1])):
        for g, w in zip(gs, ws):
            if W.sym:
                from vc.core import SBool
                z3 = W.z3
                vc.check(SBool(z3.Implies(w[1], z3.And(g[1], z3.simplify(g[0] - w[0], som=True) == 0))), f'{label}: rotate around x, y, z, then translate')
            elif w[1] and abs(w[0]) < 1e9:
                vc.check(vc.num_eq(g[0], w[0], 1e-6) or W.unstable(w), f'{label}: rotate around x, y, z, then translate', lambda: f'{got} {want}')
    for x in p.stack():
        if isinstance(x, O().RotationPart): vc.check(bool(x.degrees) == deg, 'the unit of the angles is kept')


def chain_tests(W):
    """the tests which the chain operations make on parts, by contract: is_constant may be anything, is_identity only holds for the
    identity (harness `identity, translation and rotation tests`)"""
    if not W.sym: return
    o, vc, A = O(), W.vc, Al(W)
    def memo(self, what):
        m = self.__dict__.setdefault('vc_memo', {})
        if what not in m:
            W.nflag = getattr(W, 'nflag', 0) + 1
            m[what] = vc.bool(f'{what}{W.nflag}')
            if what == 'identity':
                da = affine(W, self)
                if m[what]:
                    m[what] = True
                    for x, y in zip(da[0] + da[1], A.eye() + A.zero()):
                        if W.z3.is_const(x[0]) and not W.z3.is_rational_value(x[0]): W.subst.append((x[0], y[0]))
                        else: vc.p.define(x[0] == y[0])
                else: m[what] = False
        return m[what]
    o.Part.is_constant = property(lambda self: memo(self, 'constant'))
    o.Part.is_identity = property(lambda self: memo(self, 'identity'))
    for c in (o.TranslationPart, o.RotationPart): c.is_constant = o.Part.is_constant


def any_part_class(W):
    o, m, vc = O(), M(), W.vc
    if hasattr(W, 'APC'): return W.APC
    class AnyPart(o.Part):
        """a part of any class; what class is decided when the code looks"""
        __vc_sym__ = True
        def __vc_isinstance__(self, t):
            ts = t if isinstance(t, tuple) else (t,)
            if any(isinstance(x, type) and issubclass(o.Part, x) for x in ts): return True
            if not any(isinstance(x, type) and issubclass(x, o.Part) for x in ts): return False
            return isinstance(self.vc_open(), t)
        def __vc_type__(self): return type(self.vc_open())
        def vc_open(self):
            if type(self) is not AnyPart: return self
            name, A, a = self.vc_name, Al(W), self._axes
            kind = vc.choice(name + '.part', ('general', 'translation', 'x', 'y', 'z'))
            da = affine(W, self)
            if kind == 'general': self.__class__ = o.Part
            elif kind == 'translation':
                self.__class__ = o.TranslationPart
                self.v = o.Vector(a.xt, a.yt, a.zt)
                want = A.eye(), da[1]
            else:
                self.__class__ = {'x': o.RotationX, 'y': o.RotationY, 'z': o.RotationZ}[kind]
                self.v, self.degrees = num(W, name + '.v'), vc.choice(name + '.deg', (True, False))
                d = W.D(self.v)
                want = A.rot(kind, tuple((W.trig(f, d[0], self.degrees), d[1]) for f in ('cos', 'sin'))), A.zero()
            if kind != 'general':
                for x, y in zip(da[0] + da[1], want[0] + want[1]): vc.p.add(W.z3.And(x[0] == y[0], x[1] == y[1]))
            return self
        def __deepcopy__(self, memo): return self
    W.APC = AnyPart
    return AnyPart


def any_part(W, name):
    """a part of any class whose matrix is arbitrary"""
    from vc.seqs import GHOST
    o, m, vc = O(), M(), W.vc
    if W.sym:
        p = any_part_class(W)(seitz(W, name))
        p.vc_name = name
        defined(W, *p._axes)
        GHOST.add(id(p))
        W.keep.append(p)
        return p
    kind = vc.choice(name + '.part', ('general', 'translation', 'x', 'y', 'z'))
    f = const if vc.choice(name + '.const', (True, False)) else num
    p = any_concrete(W, name, kind, f)
    defined(W, *p._axes)
    return p


def any_concrete(W, name, kind, f):
    o, m = O(), M()
    if kind == 'translation': return o.TranslationPart(v=vec(W, name + '.t', f=f, specials=(0.0, 0.0)))
    if kind != 'general': return {'x': o.RotationX, 'y': o.RotationY, 'z': o.RotationZ}[kind](v=angle(W, name + '.v', f), degrees=bool(W.deg) if f is not const else W.vc.choice(name + '.deg', (bool(W.deg), bool(W.deg), not W.deg)))
    A = Al(W)
    r = A.euler([angle(W, f'{name}.r.{x}', const) for x in 'xyz'])
    t = vec(W, name + '.t', f=f, specials=(0.0, 0.0))
    e = m.Expr.float
    return o.Part(o.Seitz(*[y for i in range(3) for y in (*[e(x[0]) for x in r[3 * i:3 * i + 3]], t[i])]))


class ChainFold:
    """loop invariant over a run of parts: every part which the loop carries along is the product of all parts so far, every
    list of parts which it carries along has that product.  total: the product of the whole run"""
    def __init__(self, W, total, before=None):
        self.W, self.total, self.before = W, total, before
    def carried(self, env, names):
        from vc.seqs import ASeq
        o, W = O(), self.W
        out = {}
        for n in names:
            v = env.get(n)
            if isinstance(v, o.Part): out[n] = 'part'
            elif isinstance(v, ASeq) and v.kind is list or isinstance(v, list) and all(isinstance(x, o.Part) for x in v): out[n] = 'list'
        return out
    def value(self, v):
        W = self.W
        return affine(W, v) if isinstance(v, O().Part) else chain_affine(W, v)
    def enter(self, loop, env):
        from vc.core import Unsupported
        W = self.W
        self.vars = self.carried(env, loop.names)
        # only what changes in the loop can be a carried product: the same object at the end of the body is left alone
        self.start = {n: env[n] for n in self.vars}
        if len(self.vars) > 1: raise Unsupported('loop variables: ' + ', '.join(self.vars))
        for n in self.vars: same_chain(W, self.value(env[n]), self.before if self.before is not None else (Al(W).eye(), Al(W).zero()), 'loop invariant at entry: the product of the parts so far')
    def havoc(self, loop, env, stage):
        from vc.seqs import AList
        W, new = self.W, {}
        for n, k in self.vars.items():
            W.nh = getattr(W, 'nh', 0) + 1
            if k == 'part': new[n] = any_part(W, f'carried{W.nh}')
            else:
                q = seitz(W, f'done{W.nh}')
                defined(W, *q)
                c = chain_chunk(W, f'done{W.nh}', G=split_seitz(ds(W, q)))
                new[n] = AList([c, [any_part(W, f'last{W.nh}')]])
            G = self.value(new[n])
            if stage == 'exit': self.total.G, self.total.n = G, None
            else: self.G = G
        return new
    def close(self, loop, env, elem):
        A = Al(self.W)
        want = A.compose(affine(self.W, elem), self.G) if self.vars else None
        for n in self.vars: same_chain(self.W, self.value(env[n]), want, 'loop invariant: the product of the parts so far')


class Total:
    """the transformation of a whole run of parts; a loop over the run fixes it, otherwise it is arbitrary"""
    def __init__(self, W, name, n=None): self.W, self.name, self.G, self.n = W, name, None, n
    def get(self):
        if self.n is not None and self.W.vc.p.check(self.n > 0) == self.W.z3.unsat: return Al(self.W).eye(), Al(self.W).zero()
        if self.G is None:
            q = seitz(self.W, f'total.{self.name}')
            defined(self.W, *q)
            self.G = split_seitz(ds(self.W, q))
        return self.G


def chain_chunk(W, name, before=None, G=None):
    """a run of any number of arbitrary parts"""
    from vc.seqs import AbsChunk
    t = Total(W, name)
    c = AbsChunk(name, lambda nm: any_part(W, nm), ChainFold(W, t, before))
    if G is None: t.n = c.n
    else: t.G = G
    c.total = t
    def split(c, x, rest, last):
        A = Al(W)
        rest.total = Total(W, rest.name, rest.n)
        # whole = rest after x (or x after rest)
        rest.on_split, rest.parts = None, True
        class Whole:
            G = n = None
            def get(self): return self.G or (A.compose(rest.total.get(), affine(W, x)) if not last else A.compose(affine(W, x), rest.total.get()))
        c.total = Whole()
        # a loop over the rest of it carries the product which includes the first part
        rest.fold = ChainFold(W, rest.total, None) if last else ChainFold(W, c.total, affine(W, x))
    c.on_split = split
    def mapped(c, f, cond, rev=False):
        """a function applied to every part: it has to give the inverse of each when the order is reversed (or each part itself)"""
        from vc.core import Unsupported
        if cond is not None:
            W.vc.check(cond(c.some()), 'no part is left out')
        x = any_part(W, f'{c.name}.each')
        y = affine(W, f(x))
        if not rev and all(a[0].eq(b[0]) for a, b in zip(y[0] + y[1], affine(W, x)[0] + affine(W, x)[1])):
            r = AbsChunk(c.name + '=', lambda nm: any_part(W, nm), None, c.n)
            r.total = c.total
            return r
        if not rev:
            r = AbsChunk(c.name + '/', lambda nm: any_part(W, nm), None, c.n)
            class No:
                def get(self): raise Unsupported('a function of every part')
            r.total = No()
            r.on_reverse = lambda: mapped(c, f, cond, True)
            return r
        same_chain(W, y, inv_affine(W, affine(W, x)), 'the inverse of each part')
        r = AbsChunk(c.name + '-', lambda nm: any_part(W, nm), None, c.n)
        class Inv:
            def get(self): return inv_affine(W, c.total.get())
        r.total = Inv()
        return r
    c.on_map = mapped
    return c


def chain_of(W, name, hi=3):
    """the parts of a chain of any length (random runs: up to hi), and its transformation as a function"""
    if not W.sym:
        ps = stack_of(W, name, 0, hi)
        return tuple(ps), lambda: compose_all(W, [affine(W, p) for p in ps])
    from vc.seqs import ASeq
    c = chain_chunk(W, name)
    return ASeq([c]), lambda: c.total.get()


def same_chain(W, got, want, label):
    for gs, ws in zip(got, want):
        for g, w in zip(gs, ws):
            if W.sym:
                from vc.core import SBool
                z3 = W.z3
                d = g[0] - w[0]
                if W.subst: d = z3.substitute(d, *W.subst)
                d = z3.simplify(d, som=True)
                same_ = z3.BoolVal(True) if z3.is_rational_value(d) and d.numerator_as_long() == 0 else g[0] == w[0]
                W.vc.check(SBool(z3.Implies(w[1], z3.And(g[1], same_))), label)
            elif w[1] and math.isfinite(w[0]) and abs(w[0]) < 1e8:
                W.vc.check(g[1] and abs(g[0] - w[0]) <= 1e-5 * max(1, abs(w[0]), W.scale) or W.unstable(w), label, lambda: f'{got} {want} {W.env}')


def stack_of(W, name, lo, hi):
    n = W.vc.size(f'{name}.len', lo, hi)
    ps = [any_part(W, f'{name}{i}') for i in range(n)]
    if not W.sym: W.scale = max([1.0] + [abs(x[0]) for p in ps for x in affine(W, p)[1] if x[0] == x[0]]) ** 1
    return ps


def inv_affine(W, a):
    A = Al(W)
    return A.t(a[0]), [A.neg(x) for x in A.mv(A.t(a[0]), a[1])]


def compose_all(W, affs):
    A = Al(W)
    r = A.eye(), A.zero()
    for a in affs: r = A.compose(a, r)
    return r


@harness('O01', 'Parts: resolve, position, rotation', [F + 'Parts.' + m for m in ('resolve', 'position', 'rotation')])
def h_resolve(vc):
    W = TWorld(vc, vc.choice('degrees', (True, False)))
    ps, total = chain_of(W, 'p')
    p = O().Parts(ps)
    if vc.choice('what', ('resolve', 'position')) == 'resolve':
        same_chain(W, affine(W, p.resolve()), total(), 'the resolved part applies all parts one after the other')
    elif vc.choice('which', ('rotation', 'position')) == 'rotation':
        r = p.rotation()
        same_chain(W, (ds(W, r), []), (total()[0], []), 'rotation of the chain')
    else:
        r = p.position()
        same_chain(W, ([], ds(W, r)), ([], total()[1]), 'position of the chain')


@harness('O01', 'Parts.reduce', [F + 'Parts.reduce'])
def h_reduce(vc):
    W = TWorld(vc, vc.choice('degrees', (True, False)))
    chain_tests(W)
    ps, total = chain_of(W, 'p')
    q = O().Parts(ps).reduce()
    same_chain(W, chain_affine(W, q.stack()), total(), 'the reduced chain is the same transformation')


@harness('O01', 'Parts: inverse, + and -', [F + 'Parts.' + m for m in ('inverse', '__add__', '__sub__', '_copy', 'copy')])
def h_parts_ops(vc):
    W = TWorld(vc, vc.choice('degrees', (True, False)))
    chain_tests(W)
    ps, total = chain_of(W, 'p', 2)
    P = O().Parts(ps)
    A = Al(W)
    # as after a loop over a run the sums below say nothing about the parts one by one, but about their transformations
    what = vc.choice('what', ('copy', 'inverse', 'add', 'sub'))
    if what == 'copy':
        same_chain(W, chain_affine(W, P.copy(vc.choice('deep', (True, False))).stack()), total(), 'a copy is the same transformation')
    elif what == 'inverse':
        same_chain(W, chain_affine(W, P.inverse().stack()), inv_affine(W, total()), 'the inverse undoes the parts last to first')
    else:
        if vc.choice('other', ('part', 'parts')) == 'part':
            Q = any_part(W, 'q')
            dq = affine(W, Q)
        else:
            qs, tq = chain_of(W, 'q', 2)
            Q = O().Parts(qs)
            dq = tq()
        if what == 'add':
            same_chain(W, chain_affine(W, (P + Q).stack()), A.compose(dq, total()), 'the sum applies one chain after the other')
        else:
            same_chain(W, chain_affine(W, (P - Q).stack()), A.compose(inv_affine(W, dq), total()), 'the difference applies the inverse of the other chain')
    vc.check(P.stack() is ps, 'the operands are left as they are')


@harness('O01', 'the inverse of a product is the product of the inverses (lemma for chains of any length)', [F + 'Parts.inverse'], conc=False)
def h_product_inverse(vc):
    W = TWorld(vc); A = Al(W)
    a, b = (split_seitz(ds(W, seitz(W, n))) for n in 'ab')
    from vc.core import SBool
    L = Linear(W)
    # (b after a)^-1 = a^-1 after b^-1, for matrices with b^T b = 1
    for x, y in orthonormal(W, b[0], [p[0] * t[0] for p in a[0] for t in a[1]]): vc.p.define(L.eq(x, y))
    lhs, rhs = inv_affine(W, A.compose(b, a)), A.compose(inv_affine(W, a), inv_affine(W, b))
    for p, q in zip(lhs[0] + lhs[1], rhs[0] + rhs[1]):
        vc.check(SBool(L.eq(p[0], q[0])), 'the inverse of a product')


def part_of(W, aff):
    """a part with this transformation"""
    m, o = M(), O()
    L = lambda d: m.Expr([W.lazy(f'po{len(W.keep)}', D=[d] * W.n)])
    return o.Part(o.Seitz(*[L(d) for i in range(3) for d in (*aff[0][3 * i:3 * i + 3], aff[1][i])]))


def use_reduce(W):
    """Parts.reduce by its contract: some chain with the same transformation"""
    if W.sym:
        o = O()
        o.Parts.reduce = lambda self: o.Parts((part_of(W, chain_affine(W, self.stack())),))


@harness('O01', 'Parts.from_dependent_chain', [F + 'Parts.from_dependent_chain'])
def h_dependent(vc):
    deg = vc.choice('degrees', (True, False))
    W = TWorld(vc, deg); A = Al(W)
    use_trig(W)
    chain_tests(W)
    use_reduce(W)
    dep, total = None, lambda: (A.eye(), A.zero())
    if not vc.choice('none', (False, True)):
        ps, total = chain_of(W, 'p', 1)
        dep = O().Parts(ps)
    at = vec(W, 'at') if vc.choice('at', (True, False)) else None
    an = O().Angles(*[angle(W, f'a.{x}') for x in 'xyz']) if vc.choice('rotated', (True, False)) else None
    defined(W, *(an or ()), *(at or ()))
    want = (A.euler(an) if an is not None else A.eye()), (ds(W, at) if at is not None else A.zero())
    if W.sym:
        # from_at_rotated by its contract
        def far(cls, at_, rot_, degrees=True):
            from vc.core import Unsupported
            if bool(degrees) != bool(deg): raise Unsupported('unit')
            same(W, list(at_) + list(rot_), [W.D(x) for x in (at or O().Vector())] + [W.D(x) for x in (an or O().Angles())], 'the translation and rotation that are asked for')
            return O().Parts((part_of(W, want),))
        O().Parts.from_at_rotated = classmethod(far)
    q = O().Parts.from_dependent_chain(dep, at, an, deg, vc.choice('copy', (True, False)))
    same_chain(W, chain_affine(W, q.stack()), A.compose(want, total()), 'the new rotation and translation follow the given chain')


@harness('O01', 'identity, translation and rotation tests', [F + 'Part.is_identity', F + 'Part.is_translation', F + 'TranslationPart.is_translation', F + 'RotationPart.is_translation'])
def h_tests(vc):
    deg = vc.choice('degrees', (True, False))
    W = TWorld(vc, deg); A = Al(W)
    kind = vc.choice('kind', ('general', 'translation', 'x', 'y', 'z'))
    o = O()
    if kind == 'translation': p = o.TranslationPart(v=vec(W, 'v', f=const))
    elif kind == 'general':
        if not W.sym: raise Discard()
        p = o.Part(seitz(W, 'p', const))
    else:
        use_trig(W)
        p = {'x': o.RotationX, 'y': o.RotationY, 'z': o.RotationZ}[kind](v=angle(W, 'v', const), degrees=deg)
    da = affine(W, p)
    if W.sym:
        from vc.core import SBool
        z3 = W.z3
        # a rotation matrix
        if kind == 'general':
            # its rows have length one
            for i in range(3): vc.p.define(z3.Sum([da[0][3 * i + j][0] * da[0][3 * i + j][0] for j in range(3)]) == 1)
        is_id = SBool(z3.And(*[x[0] == y[0] for x, y in zip(da[0] + da[1], A.eye() + A.zero())]))
        vc.check(vc.implies(p.is_identity, is_id), 'only the identity is taken for the identity')
        vc.check(vc.implies(vc.not_(p.is_translation), SBool(z3.And(*[x[0] == 0 for x in da[1]]))), 'only a transformation without translation is taken for one')
    else:
        dev = max(abs(x[0] - y[0]) for x, y in zip(da[0] + da[1], A.eye() + A.zero()))
        vc.check(not p.is_identity or dev < 1e-6, 'only the identity is taken for the identity', lambda: f'{p!r} {da}')
        vc.check(p.is_translation or max(abs(x[0]) for x in da[1]) == 0, 'only a transformation without translation is taken for one')


@harness('O01', 'axes_euler_angles of constant rotations', [F + 'axes_euler_angles', F + 'atan2_value', F + 'atan2_degree', F + 'sqrt_value', F + 'Part.angles'], budget=200)
def h_euler(vc):
    deg = vc.choice('degrees', (True, False))
    m, o = M(), O()
    if not vc.sym:
        W = TWorld(vc, deg); A = Al(W)
        angs = [angle(W, f'a.{x}', const) for x in 'xyz']
        R = A.euler(angs)
        if 0 < math.hypot(R[7][0], R[8][0]) < 1e-7 and R[6][0] not in (1, -1): R[6] = (math.copysign(1, R[6][0]), True)
        got = o.Part(o.Seitz.from_rotation(o.Rotation(*[m.Expr.float(x[0]) for x in R]))).angles(degrees=deg)
        B = A.euler(got)
        for x, y in zip(B, R): vc.check(abs(x[0] - y[0]) < 1e-6, 'the Euler angles of a rotation give that rotation', lambda: f'{R} -> {got} -> {B}')
        return
    W = TWorld(vc, deg); A = Al(W)
    z3 = W.z3
    from vc.core import SReal, SBool, rterm
    from vc import smath
    one = z3.RealVal(1)
    cs = [[z3.Real(f'{t}{x}') for t in 'cs'] for x in 'xyz']
    (cx, sx), (cy, sy), (cz, sz) = cs
    case = vc.choice('case', ('front', 'back', 'up', 'down'))
    if case == 'front': vc.p.add(cy >= rterm(1e-8))
    elif case == 'back': vc.p.add(cy <= rterm(-1e-8))
    else: cs[1] = cy, sy = z3.RealVal(0), one if case == 'up' else -one
    for c, s in cs: vc.p.define(c * c + s * s == 1)
    units = [c * c + s * s == 1 for c, s in cs]
    signs = [cy >= rterm(1e-8)] if case == 'front' else [cy <= rterm(-1e-8)] if case == 'back' else []
    pt = []
    for v, a in ((cx, .3), (sx, .3 + math.pi / 2), (cz, 1.1), (sz, 1.1 + math.pi / 2)): pt.append((v, rterm(math.cos(a - (math.pi if a > 2 else 0)) if v in (cx, cz) else math.sin(a - math.pi / 2))))
    if signs: pt += [(cy, rterm(0.6 if case == 'front' else -0.6)), (sy, rterm(0.8))]
    def near(t):
        """is t = 0 at a sample point (rules out wrong guesses cheaply)"""
        v = z3.simplify(z3.substitute(t, *pt))
        return not z3.is_rational_value(v) or abs(v.as_fraction()) < 1e-9
    def valid(hyp, g):
        sv = z3.Solver(); sv.set('timeout', 3000)
        sv.add(*units, *signs, *hyp, z3.Not(g))
        return sv.check() == z3.unsat
    facts = []
    def root(t):
        """the root of t >= 0, where possible by one of the names it already has"""
        for g in (one, cy, -cy, sy, -sy):
            if near(g * g - t) and valid([], z3.And(g >= 0, g * g == t)): return z3.simplify(g)
        r = vc.p.fresh('root', z3.RealSort())
        vc.p.define(z3.And(r >= 0, r * r == t))
        return r
    def at2(y, x):
        """contract of math.atan2: the angle of the direction (x, y)"""
        y, x = z3.simplify(rterm(y)), z3.simplify(rterm(x))
        t = smath.UF2['atan2'](y, x)
        c, s = smath.UF['cos'](t), smath.UF['sin'](t)
        r = root(x * x + y * y)
        vc.p.define(z3.And(r * c == x, r * s == y, c * c + s * s == 1))
        for f, v in ((c, x), (s, y)):
            for g in (v, -v, cx, sx, cy, sy, cz, sz, -cx, -sx, -cy, -sy, -cz, -sz):
                if near(r * g - v) and valid([], z3.And(r != 0, r * g == v)):
                    facts.append((f, g)); break
        vc.p.define(z3.Or(r != 0, c == 1))
        return SReal(t)
    smath.atan2 = at2
    smath.sqrt = lambda x: SReal(root(z3.simplify(rterm(x))))
    tri = [((c, z3.BoolVal(True)), (s, z3.BoolVal(True))) for c, s in cs]
    R = A.mm(A.rot('z', tri[2]), A.mm(A.rot('y', tri[1]), A.rot('x', tri[0])))
    # constants, and operations and comparisons of constants, by their contracts (E01)
    true = z3.BoolVal(True)
    def K(t):
        n = W.lazy(f'k{len(W.keep)}', D=[(z3.simplify(t), true)] * W.n, kinds=('Value',))
        W.info[id(n)]['vks'] = ('float',)
        return n
    lz = W.lazy
    def lazy(name, D=None, kinds=None):
        n = lz(name, D, kinds or ('Value',))
        W.info[id(n)]['vks'] = ('float',)
        return n
    W.lazy = lazy
    for n, v in (('is_constant', True), ('is_op', False), ('is_id', False), ('has_value', True)): W.props[n] = lambda x, v=v: v
    W.contracts['__lt__'] = lambda a, b: SBool(W.D(a)[0] < W.D(b)[0])
    W.contracts['__gt__'] = lambda a, b: SBool(W.D(a)[0] > W.D(b)[0])
    o.binary_expr = lambda f, name, a, b: m.Expr([K(rterm(f(SReal(W.D(a)[0]), SReal(W.D(b)[0]))))])
    o.unary_expr = lambda f, name, a: m.Expr([K(rterm(f(SReal(W.D(a)[0]))))])
    got = o.axes_euler_angles(o.Rotation(*[m.Expr([K(x[0])]) for x in R]), deg)
    B = A.euler(got)
    for x, y in zip(B, R):
        d = z3.simplify(z3.substitute(x[0] - y[0], *facts), som=True) if facts else x[0] - y[0]
        zero = z3.is_rational_value(d) and d.numerator_as_long() == 0
        vc.check(zero or SBool(z3.Or(d == 0, x[0] == y[0])), 'the Euler angles of a rotation give that rotation')


@harness('O01', 'rotation_axis_angle', [F + 'Part.rotation_axis_angle', F + 'Part.is_rotation', F + 'Part.specialization'], sym=False)
def h_axis_angle(vc):
    """numpy's eigenvectors are outside the reach of the prover: bounded"""
    W = TWorld(vc, True); A = Al(W)
    m, o = M(), O()
    R = A.euler([angle(W, f'a.{x}', const) for x in 'xyz'])
    p = o.Part(o.Seitz.from_rotation(o.Rotation(*[m.Expr.float(x[0]) for x in R])))
    axis, ang, unit = p.rotation_axis_angle
    n = [W.D(x)[0] for x in axis]
    a = W.D(ang)[0] * (PI / 180 if unit == 'degrees' else 1)
    c, s = math.cos(a), math.sin(a)
    x, y, z = n
    rod = [c + x * x * (1 - c), x * y * (1 - c) - z * s, x * z * (1 - c) + y * s, y * x * (1 - c) + z * s, c + y * y * (1 - c), y * z * (1 - c) - x * s,
           z * x * (1 - c) - y * s, z * y * (1 - c) + x * s, c + z * z * (1 - c)]
    # rod rotates points; the axes rotate with the transposed matrix of the coordinates
    want = [R[3 * j + i][0] for i in range(3) for j in range(3)]
    near_pi = abs(R[0][0] + R[4][0] + R[8][0] + 1) < 1e-5
    for g, w in zip(rod, want): vc.check(abs(g - w) < (1e-2 if near_pi else 1e-5), 'turning around the rotation axis by the rotation angle gives the rotation', lambda: f'{R} axis {n} angle {a}: {rod}')
    vc.check(p.is_rotation == (max(abs(x[0] - e[0]) for x, e in zip(R, A.eye())) > 1e-5) or R[0][0] + R[4][0] + R[8][0] > 3 - 1e-9, 'a rotation is recognised')
    q = p.specialization()
    for g, w in zip(affine(W, q)[0], R): vc.check(abs(g[0] - w[0]) < 1e-4, 'the specialised part is the same transformation')
