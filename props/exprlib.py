"""Expression trees: the specification function `den` (what number an expression stands for), arbitrary trees as
inputs, and - in symbolic mode - trees of unknown shape that are unfolded only as far as the code looks at them.

Symbolic mode: a LazyNode is an arbitrary expression.  All that is known about it is its denotation in each "world"
(an assignment of the identifiers).  When the code looks at it, it becomes a node of an arbitrary kind whose children are
LazyNodes again, and the defining equation of its denotation is added to the path condition.  A recursive method called on
a LazyNode is replaced by that method's contract (the induction hypothesis of structural induction over the finite tree).
"""
import math
from vc.api import Discard

ORIG = {}
UNARY = ['-', '+', 'abs', 'round', '__group__', '__not__', 'sqrt', 'sin']
BINARY = ['+', '-', '*', '/', '//', '%', '<<', '>>', '__pow__', '__lt__', '__gt__', '__le__', '__ge__', '__eq__', '__neq__',
          '__and__', '__or__', '__getitem__', '__call__', '__struct_access__', '__pointer_access__', 'atan2']


ACCESS = ('__struct_access__', '__pointer_access__')


class Undefined(Exception):
    pass


def M():
    import mccode_antlr.common.expression as m
    return m


# ------------------------------------------------------------------ semantics
def sem_unary(S, op, x):
    """-> (value, defined)"""
    v, d = x
    t = S.fun1(op, v)
    for name, val in (('__not__', lambda: S.b2r(S.eq(v, 0))), ('__group__', lambda: v), ('abs', lambda: S.abs(v)),
                      ('+', lambda: v), ('-', lambda: S.neg(v))):
        t = S.ite_op(op, name, val, t)
    return t, d


def sem_binary(S, op, x, y):
    (a, da), (b, db) = x, y
    t = S.fun2(op, a, b)
    nz = S.neq0(b)
    for name, val in (('+', lambda: S.add(a, b)), ('-', lambda: S.sub(a, b)), ('*', lambda: S.mul(a, b)),
                      ('/', lambda: S.div(a, b)), ('//', lambda: S.floordiv(a, b)), ('__pow__', lambda: S.pow(a, b)),
                      ('__lt__', lambda: S.b2r(S.lt(a, b))), ('__gt__', lambda: S.b2r(S.lt(b, a))),
                      ('__le__', lambda: S.b2r(S.nb(S.lt(b, a)))), ('__ge__', lambda: S.b2r(S.nb(S.lt(a, b)))),
                      ('__eq__', lambda: S.b2r(S.eq(a, b))), ('__neq__', lambda: S.b2r(S.nb(S.eq(a, b)))),
                      ('__and__', lambda: S.b2r(S.andb(S.neq0(a), S.neq0(b)))),
                      ('__or__', lambda: S.b2r(S.orb(S.neq0(a), S.neq0(b))))):
        t = S.ite_op(op, name, val, t)
    d = S.andb(da, db)
    d = S.andb(d, S.ite_op(op, '/', lambda: nz, S.ite_op(op, '//', lambda: nz, S.true)))
    # pow: defined for a positive base, or a non-negative (integer) exponent
    d = S.andb(d, S.ite_op(op, '__pow__', lambda: S.pow_def(a, b), S.true))
    return t, d


def sem_trinary(S, c, x, y):
    (cv, cd), (a, da), (b, db) = c, x, y
    t = S.neq0(cv)
    return S.ite(t, a, b), S.andb(cd, S.iteb(t, da, db))


class CSem:
    """semantics over Python floats; `shaky` is set where a rounding error could have changed a discrete decision"""
    true = True
    shaky = False
    def near(self, d, scale):
        if d != 0 and abs(d) <= 1e-9 * max(1.0, abs(scale)): self.shaky = True
    def fun1(self, op, v):
        if v != v or v in (math.inf, -math.inf): return float('nan')
        if op == 'round':
            self.near(v + 0.5 - round(v + 0.5), v)
            if v + 0.5 == math.floor(v + 0.5): self.shaky = True  # ties: either neighbour
            return float(math.floor(v + 0.5))
        if op == 'sqrt': return math.sqrt(v) if v >= 0 else -math.sqrt(-v)
        if op == 'sin': return math.sin(v)
        if op == 'cos': return math.cos(v)
        h = sum(map(ord, op)) % 13
        return math.sin(v + h) * (h + 1)
    def fun2(self, op, a, b):
        h = sum(map(ord, op)) % 13
        return math.sin(a + 0.37 * b + h) * (h + 1)
    def ite_op(self, op, name, val, other):
        if op != name: return other
        try: return val()
        except (ZeroDivisionError, OverflowError, ValueError): return float('nan')
    def b2r(self, b): return 1.0 if b else 0.0
    def eq(self, a, b):
        self.near(a - b, max(abs(a), abs(b)))
        return a == b
    def lt(self, a, b):
        self.near(a - b, max(abs(a), abs(b)))
        return a < b
    def nb(self, b): return not b
    def neq0(self, a):
        self.near(a, 1)
        return a != 0
    def andb(self, a, b): return a and b
    def orb(self, a, b): return a or b
    def abs(self, a): return abs(a)
    def neg(self, a): return -a
    def add(self, a, b): return a + b
    def sub(self, a, b): return a - b
    def mul(self, a, b): return a * b
    def div(self, a, b): return a / b
    def floordiv(self, a, b):
        q = a / b
        if abs(q) > 1e9 or (q == round(q) and not (a == int(a) and b == int(b))): self.shaky = True
        self.near(q - round(q), q)
        return float(math.floor(q))
    def pow(self, a, b):
        r = a ** b
        return r if isinstance(r, (int, float)) else float('nan')
    def pow_def(self, a, b): return (a != 0 or b >= 0) and (a >= 0 or b == int(b)) and abs(b) < 50
    def ite(self, c, a, b): return a if c else b
    iteb = ite


def make_ssem():
    import z3
    from vc.core import SReal, SStr, rterm, bterm, mk_bool, SBool, str_eq, to_bool_term
    R, ST = z3.RealSort(), z3.StringSort()
    F1 = z3.Function('fun1', ST, R, R)
    F2 = z3.Function('fun2', ST, R, R, R)
    POW = z3.Function('powr', R, R, R)
    POWD = z3.Function('powdef', R, R, z3.BoolSort())
    POWD = z3.Function('powdef', R, R, z3.BoolSort())

    class SSem:
        """semantics over z3 terms (reals; booleans as z3 Bool)"""
        true = z3.BoolVal(True)
        def st(self, op): return z3.StringVal(op) if isinstance(op, str) else op.t
        def fun1(self, op, v): return F1(self.st(op), v)
        def fun2(self, op, a, b): return F2(self.st(op), a, b)
        def ite_op(self, op, name, val, other):
            if isinstance(op, str): return val() if op == name else other
            c = to_bool_term(op == name)
            if c is False: return other
            if c is True: return val()
            return z3.If(c, val(), other)
        def b2r(self, b): return z3.If(b, z3.RealVal(1), z3.RealVal(0))
        def eq(self, a, b): return a == b
        def lt(self, a, b): return a < b
        def nb(self, b): return z3.Not(b)
        def neq0(self, a): return a != 0
        def andb(self, a, b): return z3.And(a, b)
        def orb(self, a, b): return z3.Or(a, b)
        def abs(self, a): return z3.If(a >= 0, a, -a)
        def neg(self, a): return -a
        def add(self, a, b): return a + b
        def sub(self, a, b): return a - b
        def mul(self, a, b): return a * b
        def div(self, a, b): return a / b
        def floordiv(self, a, b): return z3.ToReal(z3.ToInt(a / b))
        def pow(self, a, b):
            # x^0 = 1, 1^y = 1, 0^y = 0 (y > 0), x^1 = x; otherwise unknown
            return z3.If(b == 0, z3.RealVal(1), z3.If(a == 1, z3.RealVal(1), z3.If(z3.And(a == 0, b > 0), z3.RealVal(0),
                   z3.If(b == 1, a, POW(a, b)))))
        def pow_def(self, a, b): return z3.And(z3.Or(a != 0, b >= 0), z3.Or(a >= 0, z3.IsInt(b)))
        def ite(self, c, a, b): return z3.If(c, a, b)
        iteb = ite
    return SSem()


# ------------------------------------------------------------------ the world of one harness run
class World:
    """identifier assignments sigma_0, sigma_1, ... ; input trees; denotation"""

    def __init__(self, vc, worlds=1, nested_expr=False, marks=True, occ=False, multi=0, members=False, ops=None):
        self.vc = vc
        self.members, self.binary = members, ops or BINARY
        self.occ, self.occ_name, self.multi, self.rule = occ, None, multi, None
        self.marks = marks
        self.on_open = None
        self.n = worlds
        self.nested = nested_expr
        self.sym = vc.sym
        self.info = {}
        self.keep = []
        self.ids = {}
        if self.sym:
            import z3
            self.z3 = z3
            self.S = make_ssem()
            self.ENV = [[z3.Function(f'env{i}', z3.StringSort(), z3.RealSort()), z3.Function(f'penv{i}', z3.StringSort(), z3.RealSort())] for i in range(worlds)]
            install_lazy(self)
        else:
            self.S = CSem()
            self.env = [dict() for _ in range(worlds)]
            self.by_D = {}

    # ---- input trees
    def node(self, name, depth=3, kinds=None):
        if self.sym:
            return self.lazy(name, kinds=kinds)
        return self.build(name, depth, kinds)

    KINDS = ('Value', 'UnaryOp', 'BinaryOp', 'TrinaryOp')
    VKINDS = ('float', 'int', 'id', 'parameter', 'undef')

    def build(self, name, depth, kinds=None):
        vc, m = self.vc, M()
        if vc.given is not None and f'{name}.kind' not in vc.given:
            # never looked at by the symbolic run: any tree with this denotation will do
            ds = tuple(float(vc.given.get(f'{name}.D{i}', 0.0)) for i in range(self.n))
            ident = self.by_D.setdefault(ds, 'u_' + ''.join(c if c.isalnum() else '_' for c in name))
            for i in range(self.n):
                self.env[i][ident, False] = ds[i]
            return m.Value(ident, m.DataType.undefined, m.ObjectType.identifier, m.ShapeType.scalar)
        opts = list(kinds or (self.KINDS + (('Expr',) if self.nested else ())))
        ks = opts
        if vc.given is None and depth <= 0 and 'Value' in opts:
            kind = 'Value'
            vc.values[f'{name}.kind'] = opts.index('Value')
        elif vc.given is None and 'Value' in opts and len(opts) > 1 and vc.rng.random() < 0.3:
            kind = 'Value'
            vc.values[f'{name}.kind'] = opts.index('Value')
        else:
            kind = vc.choice(f'{name}.kind', ks)
        if kind == 'Value':
            vk = vc.choice(f'{name}.vk', self.VKINDS)
            if vk == 'float': return m.Value(vc.real(f'{name}.val'), m.DataType.float)
            if vk == 'undef': return m.Value(vc.real(f'{name}.val'), m.DataType.undefined)
            if vk == 'int': return m.Value(vc.int(f'{name}.ival', -4, 6), m.DataType.int)
            nm = vc.ident(f'{name}.id', pool=('a', 'b', 'c', 'x', 'theta'))
            for i in range(self.n):
                par = self.marks and vk == 'parameter'
                if (nm, par) not in self.env[i]: self.env[i][nm, par] = vc.real(f'{name}.env{i}')
            ot = m.ObjectType.identifier if vk == 'id' else m.ObjectType.parameter
            dt = vc.choice(f'{name}.dt', (m.DataType.undefined, m.DataType.float, m.DataType.int))
            return m.Value(nm, dt, ot, m.ShapeType.scalar)
        if kind == 'UnaryOp':
            op = self.cop(f'{name}.op', UNARY)
            return m.UnaryOp(op, self.build(f'{name}.v', depth - 1))
        if kind == 'BinaryOp':
            op = self.cop(f'{name}.op', self.binary)
            l = self.build(f'{name}.l', depth - 1)
            r = self.build(f'{name}.r', depth - 1, ('Value',) if self.members and op in ACCESS else None)
            if self.members and op in ACCESS and (not r.is_id or isinstance(l, m.Value) and not l.is_id): raise Discard()
            if self.multi and op == '__call__':
                r = [r] + [self.build(f'{name}.r{j}', depth - 1, self.KINDS) for j in range(1, vc.size(f'{name}.nargs', 1, self.multi))]
            return m.BinaryOp(op, l, r)
        if kind == 'Expr':
            return m.Expr([self.build(f'{name}.e', depth - 1, self.KINDS)])
        a, b, c = (self.build(f'{name}.{x}', depth - 1) for x in 'abc')
        return m.TrinaryOp('__trinary__', a, b, c)

    def cop(self, name, ops):
        v = self.vc._get(name, lambda: self.vc.rng.choice(ops[:9] if self.vc.rng.random() < 0.6 else ops))
        return v

    # ---- symbolic trees
    def lazy(self, name, D=None, kinds=None):
        n = LazyNode.__new__(LazyNode)
        z3 = self.z3
        if D is None:
            D = []
            for i in range(self.n):
                t = z3.Real(f'{name}.D{i}')
                self.vc.p.names[f'{name}.D{i}'] = t
                D.append((t, z3.Bool(f'{name}.def{i}')))
        self.info[id(n)] = {'name': name, 'D': D, 'kinds': kinds, 'lazy': {}}
        if self.occ: self.info[id(n)]['occ'] = z3.Bool(f'{name}.occ')
        self.keep.append(n)
        n.__dict__['_w'] = self
        return n

    def materialise(self, n):
        if type(n) is not LazyNode: return
        vc, m, z3 = self.vc, M(), self.z3
        inf = self.info[id(n)]
        name = inf['name']
        kinds = list(inf['kinds'] or (self.KINDS + (('Expr',) if self.nested else ())))
        kind = vc.choice(f'{name}.kind', kinds) if len(kinds) > 1 else kinds[0]
        del n.__dict__['_w']
        from vc.core import SStr, Atom, SReal, SInt
        if kind == 'Value':
            n.__class__ = m.Value
            inf['lazy'] = {'_object', '_value', '_data', '_shape'}
            return
        if kind == 'Expr':
            n.__class__ = m.Expr
            c = self.lazy(f'{name}.e', D=inf['D'], kinds=self.KINDS)
            n.expr = [c]
            if self.occ: vc.p.add(inf['occ'] == self.info[id(c)]['occ'])
            if self.on_open is not None: self.on_open(n)
            return
        mk_op = lambda ops: self.symop(f'{name}.op', ops)
        if kind == 'UnaryOp':
            n.__class__ = m.UnaryOp
            n.op = mk_op(UNARY)
            c = self.lazy(f'{name}.v')
            n.value = [c]
            sem = lambda i: sem_unary(self.S, n.op, self.D(c, i))
        elif kind == 'BinaryOp':
            n.__class__ = m.BinaryOp
            n.op = mk_op(self.binary)
            l, r = self.lazy(f'{name}.l'), self.lazy(f'{name}.r')
            if self.members and any(n.op == o for o in ACCESS):
                self.info[id(r)]['kinds'] = ('Value',)
                self.info[id(r)]['vks'] = ('id', 'parameter')
            n.left, n.right = [l], [r]
            if self.multi and n.op == '__call__':
                n.right = [r] + [self.lazy(f'{name}.r{j}') for j in range(1, vc.size(f'{name}.nargs', 1, self.multi))]
            rs = list(n.right)
            sem = lambda i: sem_binary(self.S, n.op, self.D(l, i), self.D(rs, i))
        else:
            n.__class__ = m.TrinaryOp
            n.op = '__trinary__'
            a, b, c = (self.lazy(f'{name}.{x}') for x in 'abc')
            n.first, n.second, n.third = [a], [b], [c]
            sem = lambda i: sem_trinary(self.S, self.D(a, i), self.D(b, i), self.D(c, i))
        n.style = 'C'
        inf['lazy'] = {'data_type'}
        if 'dt' in inf:
            n.data_type = inf['dt']
            inf['lazy'] = set()
        if self.occ:
            kids = [y for f in ('value', 'left', 'right', 'first', 'second', 'third') if f in n.__dict__ for y in n.__dict__[f]]
            vc.p.add(inf['occ'] == z3.Or(*[self.info[id(y)]['occ'] for y in kids]))
        for i in range(self.n):
            v, d = sem(i)
            self.vc.p.define(inf['D'][i][0] == v)
            self.vc.p.define(inf['D'][i][1] == d)
        if self.on_open is not None: self.on_open(n)

    def symop(self, name, ops):
        from vc.core import SStr, Atom
        z3 = self.z3
        t = z3.String(name)
        self.vc.p.names[name] = t
        self.vc.p.add(z3.Or(*[t == z3.StringVal(o) for o in ops]))
        a = Atom(t, name, '', True, 'op')
        return OpStr([a], ops)

    def lazy_attr(self, n, attr):
        """a field of a materialised node which nobody looked at before"""
        inf = self.info.get(id(n))
        if inf is None or attr not in inf['lazy']: return NotImplemented
        vc, m, z3 = self.vc, M(), self.z3
        inf['lazy'].discard(attr)
        name = inf['name']
        if attr == 'data_type':
            v = vc.choice(f'{name}.dt', (m.DataType.undefined, m.DataType.float, m.DataType.int))
            n.__dict__[attr] = v
            return v
        if attr == '_data' and '_object' in n.__dict__:
            n._data = vc.choice(f'{name}.dt', (m.DataType.undefined, m.DataType.float, m.DataType.int))
            return n._data
        # the fields of a Value are fixed together
        inf['lazy'] -= {'_object', '_value', '_data', '_shape'}
        dt = inf.get('dt')
        vks = self.VKINDS if dt is None else tuple(v for v in self.VKINDS if v in ('id', 'parameter') or
                                                   {'float': m.DataType.float, 'int': m.DataType.int, 'undef': m.DataType.undefined}[v] == dt)
        vks = [v for v in vks if v in inf.get('vks', vks)]
        vk = vks[vc.p.choose(len(vks))]
        vc.p.names[f'{name}.vk'] = ('choice', self.VKINDS.index(vk))
        D = inf['D']
        n._shape = m.ShapeType.scalar
        if vk in ('float', 'undef'):
            n._object, n._data = m.ObjectType.value, (m.DataType.float if vk == 'float' else m.DataType.undefined)
            n._value = vc.real(f'{name}.val')
            for i in range(self.n): vc.p.add(D[i][0] == n._value.t); vc.p.add(D[i][1])
            if self.occ: vc.p.add(z3.Not(inf['occ']))
        elif vk == 'int':
            n._object, n._data = m.ObjectType.value, m.DataType.int
            n._value = vc.int(f'{name}.ival')
            for i in range(self.n): vc.p.add(D[i][0] == z3.ToReal(n._value.t)); vc.p.add(D[i][1])
            if self.occ: vc.p.add(z3.Not(inf['occ']))
        else:
            n._object = m.ObjectType.identifier if vk == 'id' else m.ObjectType.parameter
            n._value = vc.ident(f'{name}.id')
            for i in range(self.n):
                e, d = self.id_D(i, n._value, vk == 'parameter')
                vc.p.names.setdefault(f'{name}.env{i}', e)
                vc.p.add(D[i][0] == e); vc.p.add(D[i][1] == d)
            if self.occ: vc.p.add(inf['occ'] == (n._value.t == self.occ_name.t))
            if dt is None: inf['lazy'].add('_data')
            else: n._data = dt
        if self.on_open is not None: self.on_open(n)
        if attr == '_data' and '_data' in inf['lazy']:
            inf['lazy'].discard('_data')
            n._data = vc.choice(f'{name}.dt', (m.DataType.undefined, m.DataType.float, m.DataType.int))
        return n.__dict__[attr]

    def id_D(self, i, name, par):
        """(value, defined) of an identifier; instrument parameters and other identifiers have assignments of their own
        (when marks are on): losing the mark changes the meaning"""
        par = par and self.marks
        if self.sym:
            from vc.core import sterm
            z3, t = self.z3, sterm(name)
            true = z3.BoolVal(True)
            if i == 1 and self.rule == 'known':
                return z3.If(self.INMAP(t), self.KV(t), self.ENV[0][0](t)), z3.If(self.INMAP(t), self.KD(t), true)
            if i == 1 and self.rule == 'verify':
                return (self.ENV[0][1](t) if par else z3.If(self.INMAP(t), self.ENV[0][1](t), self.ENV[0][0](t))), true
            return self.ENV[i][1 if par else 0](t), true
        if i == 1 and self.rule == 'known':
            if name in self.known: return self.D(self.known[name], 0)
            i = 0
        if i == 1 and self.rule == 'verify':
            i, par = 0, par or name in self.known
        if (name, par) not in self.env[i]:
            self.env[i][name, par] = self.vc.real(f'late.{name}.{par}.env{i}')
        return self.env[i][name, par], True

    # ---- mappings / lists of names of any size
    def known_map(self):
        """any dict from names to expressions; world 1 is world 0 with those names replaced"""
        self.rule = 'known'
        if self.sym:
            z3 = self.z3
            self.INMAP = z3.Function('inmap', z3.StringSort(), z3.BoolSort())
            self.KV = z3.Function('known_v', z3.StringSort(), z3.RealSort())
            self.KD = z3.Function('known_d', z3.StringSort(), z3.BoolSort())
            return AnyMap(self)
        vc, self.known = self.vc, {}
        if vc.given is not None:
            k = 0
            while f'known{k}.key' in vc.given:
                key = vc.ident(f'known{k}.key')
                if vc.given.get(f'known{k}.in', True): self.known.setdefault(key, self.build(f'known{k}', 1, self.KINDS))
                k += 1
            return self.known
        for k in range(vc.rng.randint(0, 3)):
            key = vc.ident(f'known{k}.key', pool=('a', 'b', 'c', 'x', 'theta'))
            vc.values[f'known{k}.in'] = True
            e = self.build(f'known{k}', 1, self.KINDS)
            if vc.rng.random() < 0.5: e = M().Expr([e])
            self.known.setdefault(key, e)
        return self.known

    def name_list(self):
        """any list of names; world 1 reads these names as instrument parameters"""
        self.rule = 'verify'
        if self.sym:
            z3 = self.z3
            self.INMAP = z3.Function('inmap', z3.StringSort(), z3.BoolSort())
            return AnyMap(self)
        vc, self.known, k = self.vc, [], 0
        n = vc.rng.randint(0, 3) if vc.given is None else 10 ** 6
        while k < n:
            if vc.given is not None and f'known{k}.key' not in vc.given: break
            key = vc.ident(f'known{k}.key', pool=('a', 'b', 'c', 'x', 'theta'))
            if vc._get(f'known{k}.in', lambda: True): self.known.append(key)
            k += 1
        return self.known

    # ---- structure
    def open(self, n):
        """look at the top node (its own method is run, not its contract)"""
        if self.sym: self.materialise(n)
        return n

    def occurs(self, n):
        """does the identifier occ_name occur in n (specification)"""
        m = M()
        if self.sym and id(n) in self.info:
            from vc.core import SBool
            return SBool(self.info[id(n)]['occ'])
        if isinstance(n, (list, tuple)): return self.vc.or_(*[self.occurs(x) for x in n]) if n else False
        if isinstance(n, m.Expr): return self.occurs(n.expr)
        if isinstance(n, m.Value): return n.is_id and n.value == self.occ_name
        return self.occurs([y for f in ('value', 'left', 'right', 'first', 'second', 'third') if hasattr(n, f) for y in getattr(n, f)])

    def divides_by_zero(self, n, i):
        """does some division in n (even in a branch that is not taken) divide by zero in world i"""
        m = M()
        if isinstance(n, (list, tuple)): return any(self.divides_by_zero(x, i) for x in n)
        if isinstance(n, m.Expr): return self.divides_by_zero(n.expr, i)
        if isinstance(n, m.Value):
            return n.is_id and self.rule == 'known' and i == 1 and n.value in self.known and self.divides_by_zero(self.known[n.value], 0)
        if isinstance(n, m.BinaryOp) and n.op in ('/', '//'):
            v = self.D(n.right, i)[0]
            if v != v or abs(v) < 1e-9: return True
        return any(self.divides_by_zero(getattr(n, f), i) for f in ('value', 'left', 'right', 'first', 'second', 'third') if hasattr(n, f))

    def _nodes(self, n, out):
        if isinstance(n, (list, tuple)):
            if isinstance(n, list): out.add(id(n))
            for x in n: self._nodes(x, out)
            return out
        out.add(id(n))
        for f in ('value', 'left', 'right', 'first', 'second', 'third', 'expr'):
            v = n.__dict__.get(f)
            if isinstance(v, list): self._nodes(v, out)
        return out

    def shares(self, a, b):
        return bool(self._nodes(a, set()) & self._nodes(b, set()))

    def forget(self, n):
        """the denotation of n is to be computed from what it is now"""
        if self.sym: self.info.pop(id(n), None)

    # ---- denotation of any node (input, or built by the code) in world i: (value, defined)
    def D(self, n, i=0):
        m = M()
        if self.sym:
            from vc.core import SNum, SBool, rterm, bterm, SStr
            inf = self.info.get(id(n))
            if inf is not None: return inf['D'][i]
            if isinstance(n, SBool): return self.S.b2r(n.t), self.z3.BoolVal(True)
            if isinstance(n, (SNum, bool, int, float)): return rterm(n), self.z3.BoolVal(True)
        else:
            if isinstance(n, bool): return (1.0 if n else 0.0), True
            if isinstance(n, (int, float)): return float(n), True
        if isinstance(n, (list, tuple)):
            if len(n) == 0: raise Undefined('operand list')
            r = self.D(n[-1], i)
            for x in reversed(n[:-1]): # an argument list
                a = self.D(x, i)
                r = self.S.fun2(',', a[0], r[0]), self.S.andb(a[1], r[1])
            return r
        if isinstance(n, m.Expr): return self.D(n.expr, i)
        if isinstance(n, m.Value):
            v = n.value
            if n.is_id:
                return self.id_D(i, v, n.is_parameter)
            if self.sym: return rterm(v), self.z3.BoolVal(True)
            if not isinstance(v, (int, float)): raise Undefined(f'value {v!r}')
            return float(v), True
        if isinstance(n, m.UnaryOp): return sem_unary(self.S, n.op, self.D(n.value, i))
        if isinstance(n, m.BinaryOp): return sem_binary(self.S, n.op, self.D(n.left, i), self.D(n.right, i))
        if isinstance(n, m.TrinaryOp): return sem_trinary(self.S, self.D(n.first, i), self.D(n.second, i), self.D(n.third, i))
        raise Undefined(f'not an expression: {type(n)}')

    def env_value(self, v, i, par=False):
        par = par and self.marks
        if (v, par) not in self.env[i]:
            self.env[i][v, par] = self.vc.real(f'late.{v}.{par}.env{i}')
        return self.env[i][v, par]

    # ---- contracts in place of bodies
    def assume_op(self, op, a, b, name=None):
        """a fresh expression with the denotation of `a op b` (the contract of the operator)"""
        self.fresh = getattr(self, 'fresh', 0) + 1
        D = []
        for i in range(self.n):
            v, d = sem_binary(self.S, op, self.D(a, i), self.D(b, i))
            D.append((v, d))
        return self.lazy(f'res{self.fresh}', D=D)

    def same(self, n, name='same', kinds=None):
        """a fresh expression with the denotation of n in every world"""
        self.fresh = getattr(self, 'fresh', 0) + 1
        return self.lazy(f'{name}{self.fresh}', D=[self.D(n, i) for i in range(self.n)], kinds=kinds)

    def use_contracts(self, *names):
        """calls of these methods on an unknown subterm are replaced by their contracts"""
        if not self.sym: return
        for n in names:
            self.contracts[n] = getattr(self, '_c_' + n)

    def _c_as_type(self, n, dt):
        return self.same(n, 'ast')

    def _c_simplify(self, n):
        return self.same(n, 'smp', kinds=self.KINDS + ('Expr',))

    def _c_evaluate(self, n, known):
        # its value in world 1 (names replaced) is the value of the result in world 0
        self.fresh = getattr(self, 'fresh', 0) + 1
        d1 = self.D(n, 1)
        self.fresh += 1
        return self.lazy(f'ev{self.fresh}', D=[d1, (self.z3.Real(f'evx{self.fresh}'), self.z3.Bool(f'evy{self.fresh}'))], kinds=self.KINDS + ('Expr',))

    def _c_depends_on(self, n, name):
        from vc.core import SBool
        return SBool(self.info[id(n)]['occ'])

    def _c___contains__(self, n, name):
        from vc.core import SBool
        return SBool(self.info[id(n)]['occ'])

    def _c___eq__(self, a, b):
        from vc.core import SBool, is_num
        z3 = self.z3
        self.fresh = getattr(self, 'fresh', 0) + 1
        e = z3.Bool(f'eq{self.fresh}')
        for i in range(self.n):
            if not is_num(b) and id(b) not in self.info and not hasattr(b, 'is_op'): return False
            (x, dx), (y, dy) = self.D(a, i), self.D(b, i)
            self.vc.p.define(z3.Implies(e, z3.And(x == y, dx == dy)))
        return SBool(e)

    def _c_copy(self, n):
        c = self.same(n, 'cp')
        self.info[id(c)]['dt'] = n.data_type
        return c

    def _c_verify_parameters(self, n, names):
        # afterwards the node means in world 0 what it meant in world 1 before
        inf = self.info[id(n)]
        self.fresh = getattr(self, 'fresh', 0) + 1
        inf['D'] = [inf['D'][1], (self.z3.Real(f'vpx{self.fresh}'), self.z3.Bool(f'vpy{self.fresh}'))]
        inf['name'] += f'.vp{self.fresh}'

    def value_ops(self):
        """calls of + - * / on a Value or Expr are replaced by their contract (E01): the value of the operation, or a
        refusal where it is undefined"""
        if not self.sym: return
        m = M()
        def make(op):
            def f(a, b):
                from vc.core import SBool
                r = self.assume_op(op, a, b)
                if op in ('/', '//') and SBool(self.z3.Not(self.info[id(r)]['D'][0][1])):
                    e = RuntimeError('Division by zero'); e.vc_real = True
                    raise e
                return r
            return f
        for op, nm in (('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('/', 'truediv'), ('//', 'floordiv')):
            for c in (m.Value, m.Op, m.Expr): setattr(c, f'__{nm}__', make(op))
            self.contracts[f'__{nm}__'] = make(op)

    def induct(self, ops):
        """recursive use of Value.<op> on an unknown operand (always a proper subterm of the input): the induction
        hypothesis instead of the body.  Decreases: the height of the right operand."""
        if not self.sym: return
        m = M()
        for op, nm in ops.items():
            meth = f'__{nm}__'
            orig = ORIG.setdefault(('Value', meth), m.Value.__dict__[meth])
            def f(a, b, orig=orig, op=op):
                if self.depth > 0 and type(b) is LazyNode:
                    self.used_contract = True
                    return self.assume_op(op, a, b)
                self.depth += 1
                try: return orig(a, b)
                finally: self.depth -= 1
            setattr(m.Value, meth, f)
        self.depth = 0

    # ---- obligations
    def check_same(self, got, want, label, wi=0, only_if=None):
        """`got`: what the code returned (a node); `want` = (value, defined) by the specification.
        Wherever the specification is defined, the result is defined and has that value."""
        try:
            g = self.D(got, wi)
        except Undefined as e:
            self.vc.check(False, label, str(e)); return
        if self.sym:
            from vc.core import SBool
            z3 = self.z3
            # equal as polynomials: nothing left to prove about the values
            d = z3.simplify(g[0] - want[0], som=True)
            same = z3.BoolVal(True) if z3.is_rational_value(d) and d.numerator_as_long() == 0 else g[0] == want[0]
            goal = z3.Implies(want[1], z3.And(g[1], same))
            self.vc.check(SBool(goal), label)
        else:
            if not want[1] or not math.isfinite(want[0]) or abs(want[0]) > 1e12: return
            ok = g[1] and self.vc.num_eq(g[0], want[0], 1e-10 if self.vc.strict else 1e-6)
            if not ok and self.unstable(want): return
            self.vc.check(ok, label, lambda: f'got {got} = {g}, expected {want[0]} env={self.env}')

    def unstable(self, want):
        return self.S.shaky or any(v != v or abs(v) > 1e12 for v in (want[0],))


class AnyMap:
    """any dict from names to expressions / any list of names"""
    def __init__(self, W):
        self.W, self.k = W, 0
    def _key(self, s, into=None):
        from vc.core import sterm
        return sterm(s)
    def __vc_contains__(self, s):
        from vc.core import SBool, SStr
        if not isinstance(s, (str, SStr)): return False
        t = self._key(s)
        n = self.W.vc.p.names
        n.setdefault(f'known{self.k}.key', t)
        n.setdefault(f'known{self.k}.in', self.W.INMAP(t))
        self.k += 1
        return SBool(self.W.INMAP(t))
    def __contains__(self, s): return bool(self.__vc_contains__(s))
    def __getitem__(self, s):
        t = self._key(s)
        self.W.vc.assume(self.__vc_contains__(s))
        name = f'known{self.k - 1}'
        W = self.W
        D = [(W.KV(t), W.KD(t)), (W.z3.Real(name + '.w1'), W.z3.Bool(name + '.w1d'))]
        W.vc.p.names[f'{name}.D0'] = D[0][0]
        return W.lazy(name, D=D, kinds=W.KINDS + ('Expr',))
    def get(self, s, default=None):
        return self[s] if s in self else default


class LazyNode:
    """an arbitrary expression tree"""
    __vc_sym__ = True
    def __vc_isinstance__(self, t):
        m = M()
        ts = set(t) if isinstance(t, tuple) else {t}
        ts = {y for z in ts for y in (getattr(z, '__args__', (z,)) if not isinstance(z, type) else (z,))}
        w = self.__dict__['_w']
        inf = w.info[id(self)]
        nested = w.nested and not inf['kinds']
        nodes = {m.Value, m.UnaryOp, m.BinaryOp, m.TrinaryOp, m.Op}
        if not (ts & (nodes | {m.Expr})): return False
        if {m.Value, m.Op} <= ts or {m.Value, m.UnaryOp, m.BinaryOp, m.TrinaryOp} <= ts:
            if not nested or m.Expr in ts: return True
        if not (ts & nodes) and not nested: return False
        w.materialise(self)
        return isinstance(self, t)
    def __vc_hasattr__(self, n):
        self.__dict__['_w'].materialise(self)
        return hasattr(self, n)
    def __vc_type__(self):
        self.__dict__['_w'].materialise(self)
        return type(self)
    def __getattr__(self, n):
        if n.startswith('__') or n == '_w': raise AttributeError(n)
        w = self.__dict__['_w']
        if n == 'data_type':
            inf = w.info[id(self)]
            if 'dt' not in inf:
                m = M()
                inf['dt'] = w.vc.choice(inf['name'] + '.dt', (m.DataType.undefined, m.DataType.float, m.DataType.int))
            return inf['dt']
        c = w.contracts.get(n) if hasattr(w, 'contracts') else None
        if c is not None: return lambda *a, **k: c(self, *a, **k)
        c = w.props.get(n) if hasattr(w, 'props') else None
        if c is not None: return c(self)
        w.materialise(self)
        return getattr(self, n)
    def __hash__(self):
        from vc.core import Unsupported
        raise Unsupported('hash of an unknown expression')


def _dunder(name):
    def f(self, *a):
        w = self.__dict__['_w']
        c = w.contracts.get(name) if hasattr(w, 'contracts') else None
        if c is not None: return c(self, *a)
        w.materialise(self)
        meth = getattr(type(self), name, None)
        if meth is None: return NotImplemented
        return meth(self, *a)
    return f


for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__', '__floordiv__', '__rfloordiv__',
           '__pow__', '__rpow__', '__neg__', '__pos__', '__abs__', '__round__', '__lt__', '__le__', '__gt__', '__ge__', '__eq__', '__ne__', '__str__',
           '__format__', '__repr__', '__contains__', '__int__'):
    setattr(LazyNode, _n, _dunder(_n))


def opstr_class():
    from vc.core import SStr
    class OpStr(SStr):
        """an operator name out of a finite set"""
        __slots__ = ('ops',)
        def __init__(self, parts, ops):
            self.parts, self.ops = parts, ops
        def _any(self, pred):
            from vc.core import mk_bool
            import z3
            yes = [o for o in self.ops if pred(o)]
            if len(yes) == len(self.ops): return True
            if not yes: return False
            return mk_bool(z3.Or(*[self.parts[0].t == z3.StringVal(o) for o in yes]))
        def __eq__(self, o):
            if isinstance(o, str): return self._any(lambda x: x == o)
            return SStr.__eq__(self, o)
        def __ne__(self, o):
            from vc.core import snot
            r = self.__eq__(o)
            return r if r is NotImplemented else snot(r)
        def contains(self, s):
            if isinstance(s, str): return self._any(lambda x: s in x)
            return SStr.contains(self, s)
        def startswith(self, s, *a):
            return self._any(lambda x: x.startswith(s))
        def endswith(self, s, *a):
            return self._any(lambda x: x.endswith(s))
        def __hash__(self): return SStr.__hash__(self)
        def concrete(self):
            """fork over the possible names"""
            for o in self.ops[:-1]:
                if self == o: return o
            return self.ops[-1]
    return OpStr


class _OpStr:
    cls = None
    def __call__(self, *a):
        if self.cls is None: self.cls = opstr_class()
        return self.cls(*a)


OpStr = _OpStr()


def install_lazy(world):
    """fields nobody looked at yet are filled in on demand (instrumented package only)"""
    m = M()
    def ga(self, attr):
        r = world.lazy_attr(self, attr)
        if r is NotImplemented: raise AttributeError(f'{type(self).__name__!r} object has no attribute {attr!r}')
        return r
    m.Op.__getattr__ = ga
    m.Value.__getattr__ = ga
    world.contracts = {}
    world.props = {}
