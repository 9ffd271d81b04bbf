"""E01: arithmetic on expressions keeps their numeric meaning"""
from vc.api import harness
from .exprlib import World, sem_unary, sem_binary, M, Undefined
import operator as o

F = 'mccode_antlr/common/expression.py:'
OPS = {'+': (o.add, 'add'), '-': (o.sub, 'sub'), '*': (o.mul, 'mul'), '/': (o.truediv, 'truediv'), '//': (o.floordiv, 'floordiv'),
       '__pow__': (o.pow, 'pow')}


def spec(W, op, a, b):
    return sem_binary(W.S, op, W.D(a), W.D(b))


def check_result(vc, W, out, op, want, label):
    if out.raised:
        import os
        if os.environ.get('VC_DBG'): import traceback; traceback.print_exception(out.exc)
        # the only reason to refuse is a division by zero: the meaning is undefined there
        if W.sym:
            from vc.core import SBool
            vc.check(SBool(W.z3.Not(want[1])), label + ': refused only where undefined')
        else:
            vc.check(not want[1], label + ': refused only where undefined', out)
        return
    W.check_same(out.value, want, label)


def make(op):
    f, nm = OPS[op]
    for kind in ('Value', 'UnaryOp', 'BinaryOp', 'TrinaryOp'):
        if op == '__pow__' and kind != 'Value': continue
        @harness('E01', f'{kind}.__{nm}__(node)', [F + f'Value.__{nm}__', F + f'Op.__{nm}__', F + 'BinaryOp.__init__', F + 'UnaryOp.__init__', F + 'Value.as_type'])
        def h(vc, f=f, op=op, kind=kind):
            W = World(vc)
            W.use_contracts('as_type')
            W.induct({'+': 'add', '-': 'sub'})
            a, b = W.node('a', 2, kinds=(kind,)), W.node('b', 2)
            want = spec(W, op, a, b)
            check_result(vc, W, vc.run(f, a, b), op, want, f'{kind} {op} node has the value of the operation')


for _op in OPS: make(_op)


# ------------------------------------------------------------------ operations with plain numbers
def number(vc, name):
    if vc.choice(name + '.numkind', ('float', 'int')) == 'int': return vc.int(name, -4, 6)
    return vc.real(name)


def make_num(op):
    f, nm = OPS[op]
    fns = [F + f'Value.__{nm}__', F + f'Op.__{nm}__', F + 'Value.best']
    nm_ = nm.strip('_')
    for kind in ('Value', 'UnaryOp', 'BinaryOp', 'TrinaryOp'):
        @harness('E01', f'{kind}.__{nm_}__(number)', fns, weight=0.4)
        def h(vc, f=f, op=op, kind=kind):
            W = World(vc)
            W.use_contracts('as_type')
            a, b = W.node('a', 2, kinds=(kind,)), number(vc, 'b')
            want = spec(W, op, a, b)
            check_result(vc, W, vc.run(f, a, b), op, want, f'{kind} {op} number has the value of the operation')


def contract_of(W, *names):
    """the operators on unknown nodes are replaced by their contracts (proved above, kind by kind)"""
    if not W.sym: return
    for o_, n in (('+', '__add__'), ('-', '__sub__'), ('*', '__mul__'), ('/', '__truediv__'), ('//', '__floordiv__'), ('__pow__', '__pow__')):
        W.contracts[n] = lambda a, b, o_=o_: W.assume_op(o_, a, b)
    for o_, n in (('-', '__neg__'), ('abs', '__abs__')):
        W.contracts[n] = lambda a, o_=o_: W.lazy(f'un{len(W.keep)}', D=[sem_unary(W.S, o_, W.D(a, i)) for i in range(W.n)])


def make_expr(op):
    f, nm = OPS[op]
    nm_ = nm.strip('_')

    @harness('E01', f'Expr.__{nm_}__(Expr or node)', [F + f'Expr.__{nm_}__', F + 'Expr._prep_numeric_operation'], weight=0.5)
    def h(vc, f=f, op=op):
        W = World(vc)
        contract_of(W)
        na, nb = W.node('a', 2), W.node('b', 2)
        want = spec(W, op, na, nb)
        m = M()
        a, b = m.Expr([na]), (m.Expr([nb]) if vc.choice('b.wrapped', (True, False)) else nb)
        out = vc.run(f, a, b)
        if not out.raised: vc.check(isinstance(out.value, m.Expr), 'an Expr operation gives an Expr')
        check_result(vc, W, out, op, want, f'Expr {op} Expr has the value of the operation')

    @harness('E01', f'Expr.__{nm_}__(number)', [F + f'Expr.__{nm_}__', F + 'Expr._prep_numeric_operation'], weight=0.4)
    def h2(vc, f=f, op=op):
        W = World(vc)
        contract_of(W)
        na, b = W.node('a', 2), number(vc, 'b')
        want = spec(W, op, na, b)
        check_result(vc, W, vc.run(f, M().Expr([na]), b), op, want, f'Expr {op} number has the value of the operation')

    @harness('E01', f'Expr.__r{nm_}__(number)', [F + f'Expr.__r{nm_}__', F + 'Expr._prep_rev_numeric_operation'], weight=0.4)
    def h3(vc, f=f, op=op):
        W = World(vc)
        W.use_contracts('as_type')
        W.induct({'+': 'add', '-': 'sub'})
        na, b = W.node('a', 2), number(vc, 'b')
        want = spec(W, op, b, na)
        out = vc.run(f, b, M().Expr([na]))
        if not out.raised: vc.check(isinstance(out.value, M().Expr), 'a reversed Expr operation gives an Expr')
        check_result(vc, W, out, op, want, f'number {op} Expr has the value of the operation')


for _op in OPS:
    make_num(_op)
    make_expr(_op)


# ------------------------------------------------------------------ unary operations
for _nm, _f, _sem in (('__neg__', o.neg, '-'), ('__abs__', abs, 'abs'), ('__pos__', o.pos, '+')):
    @harness('E01', f'{_nm} of any expression', [F + f'{k}.{_nm}' for k in ('Value', 'UnaryOp', 'Op', 'Expr')])
    def hu(vc, f=_f, sem=_sem):
        W = World(vc)
        n = W.node('a', 3)
        want = sem_unary(W.S, sem, W.D(n))
        wrapped = vc.choice('wrapped', (True, False))
        out = vc.run(f, M().Expr([n]) if wrapped else n)
        vc.check(not out.raised, f'{sem} of an expression is an expression', out)
        W.check_same(out.value, want, f'{sem} of an expression has the value of the operation')
        if wrapped: vc.check(isinstance(out.value, M().Expr), 'unary operation of an Expr gives an Expr')


@harness('E01', 'round of any expression', [F + 'Value.__round__', F + 'UnaryOp.__round__', F + 'BinaryOp.__round__', F + 'Expr.__round__'])
def h_round(vc):
    W = World(vc)
    m = M()
    n = W.node('a', 2, kinds=('Value', 'UnaryOp', 'BinaryOp'))
    vc.assume(n.data_type == m.DataType.float or n.data_type == m.DataType.undefined or isinstance(n, m.Value))
    want = W.D(n)
    out = vc.run(round, m.Expr([n]))
    vc.check(not out.raised and len(out.value.expr) == 1, 'round of an expression is an expression', out)
    r = out.value.expr[0]
    if isinstance(r, m.UnaryOp) and r is not n:
        vc.check(r.op == 'round', 'round of a non-constant is the round of it')
        W.check_same(r.value, want, 'round of a non-constant is the round of it')
    elif isinstance(n, m.Value) and n.data_type == m.DataType.int and not n.is_id:
        W.check_same(r, want, 'round of an integer is itself')
    elif isinstance(n, m.Value) and not n.is_id:
        got = r.value
        vc.check(vc.and_(got - n.value <= 0.5, n.value - got <= 0.5), 'round of a number is the nearest whole number')
        if vc.sym:
            from vc.core import SBool, rterm, SInt
            vc.check(isinstance(got, SInt) or SBool(W.z3.IsInt(rterm(got))), 'round of a number is a whole number')
        else:
            vc.check(got == int(got), 'round of a number is a whole number')
    else:
        vc.check(r is n and n.data_type == m.DataType.int, 'only an integer is left as it is')


# ------------------------------------------------------------------ comparisons
CMP = {'__lt__': o.lt, '__gt__': o.gt, '__le__': o.le, '__ge__': o.ge}
for _op, _f in CMP.items():
    @harness('E01', f'Value.{_op}', [F + f'Value.{_op}'], weight=0.5)
    def hc(vc, op=_op, f=_f):
        W = World(vc)
        a = W.node('a', 1, kinds=('Value',))
        b = W.node('b', 2) if vc.choice('b.isnode', (True, False)) else number(vc, 'bnum')
        want = spec(W, op, a, b)
        out = vc.run(f, a, b)
        vc.check(not out.raised, f'Value {op} is decided or becomes an expression', out)
        W.check_same(out.value, want, f'Value {op} node has the value of the comparison')

    @harness('E01', f'Expr.{_op} of numbers', [F + f'Expr.{_op}'], weight=0.3)
    def hx(vc, op=_op, f=_f):
        m = M()
        x, y = number(vc, 'x'), number(vc, 'y')
        a, b = m.Expr.best(x), (m.Expr.best(y) if vc.choice('wrapped', (True, False)) else y)
        out = vc.run(f, a, b)
        vc.check(not out.raised, 'numbers can be compared', out)
        vc.check(vc.iff(out.value, f(x, y)), f'Expr {op} of two numbers is their order')


# ------------------------------------------------------------------ function application
@harness('E01', 'unary_expr', [F + 'unary_expr'])
def h_ue(vc):
    m = M()
    W = World(vc)
    n = W.node('a', 2)
    name = vc.choice('fn', ('sin', 'cos', 'sqrt', 'tan'))
    # inverse pairs (acos of cos, ...) are outside: they agree up to the branch of the inverse function only
    if isinstance(n, m.UnaryOp): vc.assume(not (n.op == 'a' + name))
    func = (lambda x: W.S.fun1(name, x)) if not vc.sym else None
    if vc.sym:
        from vc.core import SReal, rterm
        func = lambda x: SReal(W.S.fun1(name, rterm(x)))
    want = sem_unary(W.S, name, W.D(n))
    out = vc.run(m.unary_expr, func, name, m.Expr([n]))
    vc.check(not out.raised, 'a function can be applied to any expression', out)
    W.check_same(out.value, want, 'a function of an expression has the value of the function')


@harness('E01', 'binary_expr', [F + 'binary_expr'])
def h_be(vc):
    m = M()
    W = World(vc)
    a, b = W.node('a', 2), W.node('b', 2)
    name = vc.choice('fn', ('atan2', 'fmod'))
    if isinstance(a, m.UnaryOp) and isinstance(b, m.UnaryOp): vc.assume(not vc.and_(a.op == 'sin', b.op == 'cos'))
    func = lambda x, y: W.S.fun2(name, x, y)
    if vc.sym:
        from vc.core import SReal, rterm
        func = lambda x, y: SReal(W.S.fun2(name, rterm(x), rterm(y)))
    want = sem_binary(W.S, name, W.D(a), W.D(b))
    out = vc.run(m.binary_expr, func, name, m.Expr([a]), m.Expr([b]))
    vc.check(not out.raised, 'a function can be applied to any two expressions', out)
    W.check_same(out.value, want, 'a function of two expressions has the value of the function')
