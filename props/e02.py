"""E02: rewriting expressions: simplify, evaluate, depends_on, ==, copy, verify_parameters"""
from vc.api import harness
from .exprlib import World, M, LazyNode, ORIG
F = 'mccode_antlr/common/expression.py:'
KINDS = ('Value', 'UnaryOp', 'BinaryOp', 'TrinaryOp')


def refused(vc, W, out, want, label, n, world=0):
    """the only reason to refuse is a division by zero"""
    if W.sym:
        from vc.core import SBool
        vc.check(SBool(W.z3.Not(want[1])), label + ': refused only where undefined')
    else:
        vc.check(W.divides_by_zero(n, world), label + ': refused only where undefined', out)


for _k in KINDS + ('Expr',):
    for _op in (('+', '-', '*', '/', 'other') if _k == 'BinaryOp' else ('',)):
        @harness('E02', f'{_k}.simplify {_op}'.strip(), [F + f'{_k}.simplify'], budget=150, max_paths=12000, weight=0.5 if _op else 1)
        def h_s(vc, k=_k, op=_op):
            W = World(vc, nested_expr=True)
            W.use_contracts('simplify', 'as_type')
            W.value_ops()
            n = W.node('a', 3, kinds=(k,))
            W.open(n)
            if op == 'other': vc.assume(not any(n.op == x for x in ('+', '-', '*', '/')))
            elif op: vc.assume(n.op == op)
            want = W.D(n)
            out = vc.run(lambda: n.simplify())
            if out.raised: return refused(vc, W, out, want, 'simplify', n)
            W.check_same(out.value, want, f'simplify of {k} keeps the value')

    @harness('E02', f'{_k}.evaluate', [F + f'{_k}.evaluate', F + 'Value.evaluate'], max_paths=12000)
    def h_e(vc, k=_k):
        # world 1 is world 0 with the known names replaced by the values of their expressions in world 0
        W = World(vc, worlds=2, nested_expr=True, marks=False)
        W.use_contracts('simplify', 'evaluate', 'as_type')
        known = W.known_map()
        n = W.node('a', 3, kinds=(k,))
        if W.sym:
            # the induction hypothesis covers proper subterms: simplification of the rebuilt node is its contract
            patch_simplify(W, k)
        want = W.D(n, 1)
        W.open(n)
        out = vc.run(lambda: n.evaluate(known))
        if out.raised: return refused(vc, W, out, want, 'evaluate', n, 1)
        W.check_same(out.value, want, f'evaluate of {k} is substitution of the known names')

    @harness('E02', f'{_k}.depends_on', [F + f'{_k}.depends_on'])
    def h_d(vc, k=_k):
        W = World(vc, nested_expr=True, occ=True)
        name = vc.ident('name', pool=('a', 'b', 'x'))
        W.occ_name = name
        W.use_contracts('depends_on')
        n = W.node('a', 3, kinds=(k,))
        want = W.occurs(n)
        W.open(n)
        out = vc.run(lambda: n.depends_on(name))
        vc.check(not out.raised, 'depends_on always answers', out)
        vc.check(vc.iff(out.value, want), f'depends_on({k}) is true exactly when the name occurs', lambda: f'{n} {name} {out}')

    @harness('E02', f'{_k}.__contains__', [F + f'{_k}.__contains__'])
    def h_c(vc, k=_k):
        W = World(vc, nested_expr=True, occ=True)
        name = vc.ident('name', pool=('a', 'b', 'x'))
        W.occ_name = name
        W.use_contracts('__contains__')
        n = W.node('a', 3, kinds=(k,))
        want = W.occurs(n)
        W.open(n)
        out = vc.run(lambda: name in n)
        vc.check(not out.raised, '`in` always answers', out)
        vc.check(vc.iff(out.value, want), f'name in {k} is true exactly when the name occurs', lambda: f'{n} {name} {out}')

    @harness('E02', f'{_k}.__eq__', [F + f'{_k}.__eq__'], max_paths=12000)
    def h_q(vc, k=_k):
        # equal expressions mean the same, and an expression equals its copy
        W = World(vc, nested_expr=False, marks=False)
        W.use_contracts('__eq__')
        a = W.node('a', 3, kinds=(k,))
        vc.mirror('b', 'a')
        b = W.node('b', 3, kinds=KINDS + (('Expr',) if k == 'Expr' else ()))
        if not vc.sym and vc.choice('related', (True, False)): b = a.copy()
        W.open(a)
        out = vc.run(lambda: a == b)
        vc.check(not out.raised, '== always answers', out)
        if out.value: W.check_same(b, W.D(a), f'{k} equal to a node has the same value')

    @harness('E02', f'{_k}.copy', [F + f'{_k}.copy'])
    def h_copy(vc, k=_k):
        W = World(vc, nested_expr=True)
        W.use_contracts('copy')
        n = W.node('a', 3, kinds=(k,))
        want = W.D(n)
        dt = n.data_type if k != 'Expr' else None
        W.open(n)
        out = vc.run(lambda: n.copy())
        vc.check(not out.raised, 'any expression can be copied', out)
        c = out.value
        W.check_same(c, want, f'copy of {k} keeps the value')
        vc.check(type(c).__name__ == k, 'the copy is of the same kind')
        if dt is not None: vc.check(c.data_type == dt, 'the copy has the same data type')
        vc.check(vc.not_(W.shares(n, c)), 'the copy shares no node with the original', lambda: f'{n!r}')

    @harness('E02', f'{_k}.verify_parameters', [F + f'{_k}.verify_parameters'])
    def h_v(vc, k=_k):
        # world 1: the names in the list are read as instrument parameters
        W = World(vc, worlds=2, nested_expr=True)
        names = W.name_list()
        W.use_contracts('verify_parameters')
        n = W.node('a', 3, kinds=(k,))
        want = W.D(n, 1)
        W.open(n)
        out = vc.run(lambda: n.verify_parameters(names))
        vc.check(not out.raised, 'marking parameters always succeeds', out)
        W.forget(n)
        W.check_same(n, want, f'verify_parameters marks exactly the listed names in {k}')


def patch_simplify(W, k):
    m = M()
    for c in (m.UnaryOp, m.BinaryOp, m.TrinaryOp, m.Expr):
        c.simplify = lambda self: W.same(self, 'smp', kinds=KINDS + ('Expr',))
