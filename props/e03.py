"""E03: the printed text of an expression has the meaning of the expression, read as C and read as McCode"""
from vc.api import harness
from .exprlib import World, M, LazyNode, BINARY, ACCESS, Undefined
from .reader import Reader, Sub, Unreadable, C, MC
F = 'mccode_antlr/common/expression.py:'
KINDS = ('Value', 'UnaryOp', 'BinaryOp', 'TrinaryOp')
OPS = [o for o in BINARY if o != '//']   # printed as a C division: outside
PREFIX = '_instrument_var._parameters.'
MODES = {'str': None, 'repr': None, 'format-p': 'p', 'format-prefix': 'prefix:my_pars_'}


def level(W, n):
    """how tightly the text of this node holds together (see reader.py)"""
    m = M()
    if W.sym and id(n) in W.info: return lev_var(W, n)
    if isinstance(n, m.Expr): return level(W, n.expr[0])
    if isinstance(n, m.Value): return 5 if n.is_id or not n.value < 0 else 2
    if isinstance(n, m.UnaryOp): return 0 if n.op == '__not__' else 2 if n.op in '+-' else 5
    if isinstance(n, m.TrinaryOp): return 0
    if n.op == '__pow__': return 4
    if n.op in ('*', '/'): return min(3, level(W, n.left[0]))
    if n.op in ('__lt__', '__gt__', '__le__', '__ge__', '__eq__', '__neq__'): return 1
    if n.op in ('__and__', '__or__'): return 0
    return 5


def lev_var(W, n):
    from vc.core import SInt
    inf = W.info[id(n)]
    if 'lev' not in inf:
        inf['lev'] = W.z3.Int(inf['name'] + '.level')
        W.vc.p.add(W.z3.And(inf['lev'] >= 0, inf['lev'] <= 5))
    return SInt(inf['lev'])


def opened(W):
    """the same function, as a definition for nodes which the code has looked at"""
    from vc.core import bterm, to_bool_term
    z3 = W.z3
    def one(op, names):
        c = to_bool_term(op == names[0])
        for x in names[1:]: c = z3.Or(bt(c), bt(to_bool_term(op == x)))
        return bt(c)
    def bt(c): return z3.BoolVal(c) if isinstance(c, bool) else c
    def f(n):
        m = M()
        l = lev_var(W, n).t
        if isinstance(n, m.Expr): r = lev_var(W, n.expr[0]).t
        elif isinstance(n, m.Value):
            r = z3.IntVal(5) if n.is_id else z3.If(W.D(n)[0] < 0, z3.IntVal(2), z3.IntVal(5))
        elif isinstance(n, m.UnaryOp): r = z3.If(one(n.op, ('__not__',)), z3.IntVal(0), z3.If(one(n.op, ('-', '+')), z3.IntVal(2), z3.IntVal(5)))
        elif isinstance(n, m.TrinaryOp): r = z3.IntVal(0)
        else:
            ll = lev_var(W, n.left[0]).t
            r = z3.If(one(n.op, ('__pow__',)), z3.IntVal(4), z3.If(one(n.op, ('*', '/')), z3.If(ll < 3, ll, z3.IntVal(3)),
                z3.If(one(n.op, ('__lt__', '__gt__', '__le__', '__ge__', '__eq__', '__neq__')), z3.IntVal(1),
                      z3.If(one(n.op, ('__and__', '__or__')), z3.IntVal(0), z3.IntVal(5)))))
        W.vc.p.define(l == r)
    return f


def contracts(W, vc, mode):
    """the texts of the operands by contract"""
    from vc.core import SStr, Atom
    m = M()
    texts, depth = {}, [0]
    def text(n, spec):
        W.keep.append(n)
        t = W.z3.String(f'text{len(texts)}')
        a = Atom(t, f'text{len(texts)}', '', True, 'text')
        texts[id(a)] = (n, spec, a)
        return SStr([a])
    def patch(cls, meth, kind):
        orig = cls.__dict__.get(meth)
        if orig is None: return
        def f(self, *spec):
            if depth[0] or type(self) is LazyNode: return text(self, (kind,) + spec)
            depth[0] += 1
            try: return orig(self, *spec)
            finally: depth[0] -= 1
        setattr(cls, meth, f)
    for c in (m.Value, m.UnaryOp, m.BinaryOp, m.TrinaryOp, m.Expr, LazyNode):
        for meth in ('__str__', '__format__', '__repr__'): patch(c, meth, meth)
    if hasattr(m, '_tightness'):
        orig = m._tightness
        m._tightness = lambda x: level(W, x) if id(x) in W.info else orig(x)
    want = {'str': ('__str__',), 'repr': ('__repr__',), 'format-p': ('__format__', 'p'), 'format-prefix': ('__format__', 'prefix:my_pars_')}[mode]
    def sub(a):
        if id(a) in texts:
            n, spec, _ = texts[id(a)]
            if spec != want: raise Unreadable(f'operand printed by {spec}')
            return Sub(level(W, n), W.D(n, 0))
        if a.cls == 'op': return Sub(5, None, signed=False, fn=SStr([a]) if False else W.opname[id(a)])
        if a.cls == 'ident': return Sub(5, W.id_D(0, SStr([a]), False), ident=SStr([a]))
        if a.cls == 'num' and a.tag is not None:
            neg = a.tag < 0
            return Sub(2 if neg else 5, W.D(a.tag))
        raise Unreadable(f'text {a.name}')
    return sub


def produce(vc, n, mode):
    if mode == 'str': return vc.run(str_, n)
    if mode == 'repr': return vc.run(repr_, n)
    spec = MODES[mode]
    return vc.run(lambda: fmt(n, spec))


def str_(n): return type(n).__str__(n)
def repr_(n): return type(n).__repr__(n)
def fmt(n, spec): return type(n).__format__(n, spec)


for _k in KINDS + ('Expr',):
    for _mode in ('str', 'format-p', 'format-prefix', 'repr'):
        if _mode == 'repr' and _k in ('Value', 'Expr'): continue  # names type and shape, for people
        for _g in (C, MC):
            if _mode in ('repr', 'format-prefix') and _g == MC: continue
            @harness('E03', f'{_k} {_mode} read as {_g}', [F + f'{_k}.' + ('__str__' if _mode == 'str' else '__repr__' if _mode == 'repr' else '__format__'), F + f'{_k}._str_repr_', F + '_enclose'],
                     conc=_mode != 'repr', max_paths=9000, budget=120)
            def h(vc, k=_k, mode=_mode, g=_g):
                marks = mode.startswith('format')
                W = World(vc, marks=marks, members=True, ops=OPS)
                if vc.sym: W.on_open = opened(W)
                n = W.node('a', 3, kinds=(k,))
                W.open(n)
                atoms = None
                if vc.sym:
                    atoms = contracts(W, vc, mode)
                    W.opname = {}
                    if k in ('UnaryOp', 'BinaryOp'):
                        n.op = n.op.concrete()
                want = W.D(n)
                out = produce(vc, n, mode)
                vc.check(not out.raised and out.value is not None, 'every expression has a text', out)
                prefix = {'format-p': PREFIX, 'format-prefix': 'my_pars_'}.get(mode)
                try:
                    got, lev = Reader(W, g).read(out.value, prefix, atoms)
                except Unreadable as e:
                    vc.check(False, f'the text of {k} can be read as {g}', lambda: f'{out.value!s}: {e}')
                    return
                if vc.sym:
                    from vc.core import SBool
                    z3 = W.z3
                    vc.check(SBool(z3.And(want[1] == got[1], z3.Implies(want[1], want[0] == got[0]))), f'the text of {k} read as {g} means the expression')
                    vc.check(level_top(W, n) <= lev, f'aux: the text of {k} holds together as its level says')
                else:
                    if not want[1] or W.S.shaky: return
                    vc.check(got[1] and vc.num_eq(got[0], want[0], 1e-9) or W.unstable(want), f'the text of {k} read as {g} means the expression',
                             lambda: f'{out.value!s}: {got} != {want}')


def level_top(W, n):
    return level(W, n)


@harness('E03', '_tightness', [F + '_tightness'])
def h_t(vc):
    m = M()
    W = World(vc, members=True, ops=OPS)
    if not hasattr(m, '_tightness'): return vc.check(True, 'aux: no such function')
    if vc.sym: W.on_open = opened(W)
    n = W.node('a', 3)
    W.open(n)
    f = orig = m._tightness
    if vc.sym: m._tightness = lambda x: level(W, x) if x is not n and id(x) in W.info else orig(x)
    vc.check(f(n) == level(W, n), 'aux: the tightness of a node is the level of its text')


@harness('E03', 'a sign in front of a product', ['(lemma)'])
def h_lemma(vc):
    # the induction step of: a sign in front of a product or quotient is the sign of the product
    x, y = vc.real('x'), vc.real('y')
    nx = -x
    vc.check(vc.num_eq(nx * y, -(x * y)), 'the sign of the first factor is the sign of the product')
    vc.assume(vc.not_(vc.num_eq(y, 0)))
    vc.check(vc.num_eq(nx / y, -(x / y)), 'the sign of the first factor is the sign of the quotient')
