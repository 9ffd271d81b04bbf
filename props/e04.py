"""E04: the text of an expression is read as the expression it says.

Each method of the visitors is run on an arbitrary node of the parse tree: its parts are arbitrary expressions (the contract of visiting)."""
from vc.api import harness, Discard
from .exprlib import World, sem_unary, sem_binary, sem_trinary, M
from .e01 import contract_of
from .seqlib import some, seq, same, pieces_of
from .i03 import Ctx, Named, POOL

C = 'mccode_antlr/common/visitor.py:visitExpression'
F = 'mccode_antlr/common/expression.py:'


def visitors():
    import mccode_antlr.instr.visitor as iv, mccode_antlr.comp.visitor as cv
    return iv.InstrVisitor, cv.CompVisitor, iv.InstrParametersVisitor


def visitor(vc, state=None):
    cls = vc.choice('visitor', visitors())
    x = object.__new__(cls)
    x.__dict__.update(parent=None, filename='file', state=state, visit=lambda n: n)
    return x


# one syntactic form: the method, the tokens which are there, the operator it stands for
TOKENS = ('Plus', 'Minus', 'Star', 'Div', 'Mod', 'AndAnd', 'OrOr', 'Not', 'Caret')
BIN = {'+': ('BinaryPM', 'Plus'), '-': ('BinaryPM', 'Minus'), '*': ('BinaryMD', 'Star'), '/': ('BinaryMD', 'Div'), '__pow__': ('Exponentiation', 'Caret'), '%': ('BinaryMod', 'Mod'), '<<': ('BinaryLeftShift', None), '>>': ('BinaryRightShift', None),
       '__and__': ('BinaryLogic', 'AndAnd'), '__or__': ('BinaryLogic', 'OrOr'), '__neq__': ('BinaryNotEqual', None), '__eq__': ('BinaryEqual', None), '__le__': ('BinaryLessEqual', None), '__ge__': ('BinaryGreaterEqual', None),
       '__lt__': ('BinaryLess', None), '__gt__': ('BinaryGreater', None)}


def tokens(here): return {t: (t if t == here else None) for t in TOKENS}


def result(vc, W, o, want, label):
    m = M()
    if o.raised:
        if W.sym:
            from vc.core import SBool
            vc.check(SBool(W.z3.Not(want[1])), label + ': refused only where undefined', o)
        else: vc.check(not want[1], label + ': refused only where undefined', o)
        return
    vc.check(isinstance(o.value, m.Expr), 'a text gives an Expr', o)
    W.check_same(o.value, want, label)


def make_binary(op):
    meth, tok = BIN[op]

    @harness('E04', f'a {op.strip("_")} b', [C + meth, F + 'BinaryOp.__init__'], weight=0.5)
    def h(vc, op=op):
        W = World(vc)
        contract_of(W)
        a, b = W.node('a', 2), W.node('b', 2)
        want = sem_binary(W.S, op, W.D(a), W.D(b))
        m = M()
        o = vc.run(getattr(visitor(vc), 'visitExpression' + meth), Ctx(expr=[m.Expr(a), m.Expr(b)], **tokens(tok)))
        result(vc, W, o, want, f'{op} stands for its operation, operands in order')


for _op in BIN: make_binary(_op)

UN = {'-': ('UnaryPM', 'Minus'), '+': ('UnaryPM', 'Plus'), '__not__': ('UnaryLogic', 'Not'), '__group__': ('Grouping', None)}


def make_unary(op):
    meth, tok = UN[op]

    @harness('E04', {'-': '-a', '+': '+a', '__not__': '!a', '__group__': '(a)'}[op], [C + meth, F + 'UnaryOp.__init__'], weight=0.5)
    def h(vc, op=op):
        W = World(vc)
        contract_of(W)
        a = W.node('a', 3)
        want = sem_unary(W.S, op, W.D(a))
        o = vc.run(getattr(visitor(vc), 'visitExpression' + meth), Ctx(expr=M().Expr(a), **tokens(tok)))
        result(vc, W, o, want, f'{op} stands for its operation')


for _op in UN: make_unary(_op)


@harness('E04', 'a ? b : c', [C + 'TrinaryLogic', F + 'TrinaryOp.__init__'], weight=0.5)
def h_trinary(vc):
    W = World(vc)
    contract_of(W)
    a, b, c = (W.node(n, 2) for n in 'abc')
    want = sem_trinary(W.S, W.D(a), W.D(b), W.D(c))
    m = M()
    o = vc.run(visitor(vc).visitExpressionTrinaryLogic, Ctx(expr=[m.Expr(a), m.Expr(b), m.Expr(c)]))
    result(vc, W, o, want, 'the condition chooses between the second and the third')


@harness('E04', 'members, elements and calls', [C + n for n in ('PointerAccess', 'StructAccess', 'ArrayAccess', 'FunctionCall')], weight=0.5)
def h_access(vc):
    W = World(vc)
    contract_of(W)
    m = M()
    x = visitor(vc)
    nm = vc.ident('name', POOL)
    form = vc.choice('form', ('->', '.', '[]', '()'))
    if form == '()':
        n = vc.size('arguments', 0, 3)
        args = [W.node(f'arg{k}', 2) for k in range(n)]
        class Node(list):
            def getText(self): return 'text'
        class Arg(m.Expr):
            def getText(self): return 'text'
        class Nothing(m.Expr):
            def getText(self): return ''
        given = [Arg(a) for a in args] or [Nothing(m.Value('""', m.DataType.str))]
        o = vc.run(x.visitExpressionFunctionCall, Ctx(Identifier=nm, expr=given))
        vc.check(not o.raised, 'a call can be read', o)
        e = o.value.expr[0]
        vc.check(isinstance(o.value, m.Expr) and type(e) is m.BinaryOp and e.op == '__call__' and len(e.left) == 1 and isinstance(e.left[0], m.Value) and not e.left[0].is_str, 'a call is a call', o)
        vc.check(vc.eq(e.left[0].value, nm), 'a call is of the named function', o)
        vc.check(len(e.right) == len(args) and all(p is q for p, q in zip(e.right, args)), 'a call has its arguments in order', o)
        return
    b = W.node('b', 2)
    f, op = {'->': (x.visitExpressionPointerAccess, '__pointer_access__'), '.': (x.visitExpressionStructAccess, '__struct_access__'), '[]': (x.visitExpressionArrayAccess, '__getitem__')}[form]
    o = vc.run(f, Ctx(Identifier=nm, expr=m.Expr(b)))
    vc.check(not o.raised, 'an access can be read', o)
    e = o.value.expr[0]
    vc.check(isinstance(o.value, m.Expr) and type(e) is m.BinaryOp and e.op == op and len(e.left) == 1 and isinstance(e.left[0], m.Value) and e.left[0].is_id, 'an access is of its kind', o)
    vc.check(vc.eq(e.left[0].value, nm) and len(e.right) == 1 and e.right[0] is b, 'an access is to the stated part of the named thing', o)
    vc.check(e.left[0].is_vector == (form == '[]'), 'what has elements is a vector', o)


@harness('E04', 'names', [C + 'Identifier', 'mccode_antlr/instr/instr.py:Instr.get_parameter', 'mccode_antlr/comp/comp.py:Comp.get_parameter'])
def h_names(vc):
    m = M()
    from mccode_antlr.instr.instr import Instr
    from mccode_antlr.comp import Comp
    import mccode_antlr.common as c
    nm = vc.ident('name', POOL)
    other = lambda p: vc.not_(p.name == nm)
    comp = vc.choice('in', ('instrument', 'component')) == 'component'
    make = (lambda n: c.ComponentParameter(vc.ident(n, POOL), m.Expr.float(1))) if comp else (lambda n: c.InstrumentParameter(vc.ident(n, POOL), None, m.Expr.float(1)))
    known = vc.choice('known', (True, False))
    dt = vc.choice('type', (m.DataType.float, m.DataType.int, m.DataType.str))
    pieces = [some(vc, 'before', make, other)]
    if known:
        v = m.Expr(m.Value(None, dt))
        pieces += [[c.ComponentParameter(nm, v) if comp else c.InstrumentParameter(nm, None, v)], some(vc, 'after', make, other)]
    state = Comp(name='thing') if comp else Instr('thing')
    setattr(state, 'setting' if comp else 'parameters', seq(pieces))
    o = vc.run(visitor(vc, state).visitExpressionIdentifier, Ctx(Identifier=nm))
    vc.check(not o.raised and isinstance(o.value, m.Expr) and len(o.value.expr) == 1, 'a name can be read', o)
    v = o.value.expr[0]
    vc.check(type(v) is m.Value and vc.eq(v.value, nm), 'a name is itself', o)
    vc.check(v.is_id and v.is_parameter is known, 'a name is a parameter exactly if there is a parameter of that name', o)
    if known: vc.check(v.data_type == dt, 'a parameter has its type', o)


FLOATS = {'1.5': 1.5, '.5': .5, '2.': 2., '1e3': 1e3, '1E-3': 1e-3, '1.25e+2': 125., '0.0': 0., '3.5f': 3.5, '1.5L': 1.5, '12.5e1F': 125., '00.5': .5}
INTS = {'1': 1, '42': 42, '0x10': 16, '0XfF': 255, '010': 8, '017': 15, '0b101': 5, '10u': 10, '7UL': 7, '3ll': 3, '00': 0, '12345678901234567890': 12345678901234567890, '0x1fUL': 31, '08'[:1]: 0}


@harness('E04', 'numbers and texts', [C + n for n in ('Float', 'Integer', 'Zero', 'String')] + [F + 'Value.int', F + 'Value.float', F + 'Value.str'], bounded='sample literals of every form')
def h_literals(vc):
    m = M()
    x = visitor(vc)
    kind = vc.choice('kind', ('float', 'int', 'zero', 'text'))
    if kind == 'text':
        n = vc.size('pieces', 1, 3)
        ts = [vc.choice(f'text{k}', ('', 'abc', 'a b', r'say \"', r'\"x\"', r'\\', "'")) for k in range(n)]
        o = vc.run(x.visitExpressionString, Ctx(StringLiteral=['"' + t + '"' for t in ts]))
        vc.check(not o.raised and isinstance(o.value, m.Expr) and o.value.is_str, 'a text is a text', o)
        vc.check(o.value.expr[0].value == '"' + ''.join(ts) + '"', 'neighbouring texts are one text, with quotes', o)
        return
    if kind == 'zero': o, want, dt = vc.run(x.visitExpressionZero, Ctx()), 0, m.DataType.int
    else:
        t, want = vc.choice('literal ' + kind, tuple((FLOATS if kind == 'float' else INTS).items()))
        dt = m.DataType.float if kind == 'float' else m.DataType.int
        o = vc.run(x.visitExpressionFloat if kind == 'float' else x.visitExpressionInteger, Ctx(FloatingLiteral=t, IntegerLiteral=t))
    vc.check(not o.raised and isinstance(o.value, m.Expr) and len(o.value.expr) == 1, 'a literal can be read', o)
    v = o.value.expr[0]
    vc.check(v.data_type == dt and not v.is_id and type(v.value) is (float if kind == 'float' else int) and v.value == want, 'a literal is its number', o)


@harness('E04', '{a, b, ...}', ['mccode_antlr/common/visitor.py:visitInitializerlist'])
def h_list(vc):
    m = M()
    n = vc.size('elements', 1, 3)
    es = [m.Expr(m.Value(vc.ident(f'id{k}', POOL), m.DataType.undefined) if vc.choice(f'kind{k}', ('number', 'name')) == 'name' else m.Value(vc.real(f'v{k}'), m.DataType.float)) for k in range(n)]
    o = vc.run(visitor(vc).visitInitializerlist, Ctx(expr=es))
    vc.check(not o.raised and isinstance(o.value, m.Expr) and o.value.is_vector, 'a list is a vector', o)
    v = o.value.expr[0].value
    vc.check(len(v) == n and all(p is e.expr[0].value for p, e in zip(v, es)), 'a list has its elements in order', o)


# ------------------------------------------------------------------ whole texts, through the parser
LEVEL = {'+': 2, '-': 2, '*': 3, '/': 3, '__pow__': 4, '__lt__': 1, '__gt__': 1, '__le__': 1, '__ge__': 1, '__eq__': 1, '__neq__': 1}
TXT = {'__pow__': '^', '__lt__': '<', '__gt__': '>', '__le__': '<=', '__ge__': '>=', '__eq__': '==', '__neq__': '!=', '__and__': '&&', '__or__': '||'}


def draw(vc, W, name, depth):
    """(text, tightness, (value, defined)) of a random expression"""
    S = W.S
    leaf = lambda: vc.choice(name + '.leaf', ('a', 'b', 'x', '1', '2', '0.5', '3', '0x10', '1e1'))
    if depth <= 0 or vc.choice(name + '.end', (True, False, False)):
        t = leaf()
        if t[0].isdigit(): return t, 9, (float(int(t, 0)) if t.startswith('0x') else float(t), True)
        return t, 9, (W.env_value(t, 0), True)
    k = vc.choice(name + '.form', ('binary',) * 5 + ('-', '+', '!', '?', 'group', 'logic', 'paren'))
    sub = lambda n: draw(vc, W, f'{name}.{n}', depth - 1)
    par = lambda e: f'({e[0]})' if e[1] < 9 else e[0]
    sp = vc.choice(name + '.space', ('', ' '))
    if k == 'binary':
        op = vc.choice(name + '.op', tuple(LEVEL))
        l, r = sub('l'), sub('r')
        # comparisons are of one level in the grammar but two in C: operands of a comparison which are comparisons are enclosed
        lv = LEVEL[op]
        lt = l[0] if l[1] > lv or l[1] == lv and op != '__pow__' and lv > 1 else f'({l[0]})'
        rt = r[0] if r[1] > lv or r[1] == lv and op == '__pow__' else f'({r[0]})'
        return f'{lt}{sp}{TXT.get(op, op)}{sp}{rt}', lv, sem_binary(S, op, l[2], r[2])
    if k == 'logic':
        op = vc.choice(name + '.lop', ('__and__', '__or__'))
        l, r = sub('l'), sub('r')
        return f'({par(l)}{sp}{TXT[op]}{sp}{par(r)})', 9, sem_binary(S, op, l[2], r[2])
    if k == '?':
        c, a, b = sub('c'), sub('a'), sub('b')
        return f'({par(c)}{sp}?{sp}{par(a)}{sp}:{sp}{par(b)})', 9, sem_trinary(S, c[2], a[2], b[2])
    e = sub('e')
    if k in ('group', 'paren'): return f'({sp}{e[0]}{sp})', 9, e[2]
    return f'({k}{par(e)})', 9, sem_unary(S, {'!': '__not__'}.get(k, k), e[2])


@harness('E04', 'whole texts: precedence, association, parentheses', [F + 'Expr.parse', C[:-15] + 'getExpr'], sym=False)
def h_texts(vc):
    W = World(vc)
    text, _, want = draw(vc, W, 'e', 3)
    if not want[1]: raise Discard()
    o = vc.run(M().Expr.parse, text)
    vc.check(not o.raised, 'a text can be read', lambda: (text, o))
    W.check_same(o.value, want, 'a text stands for the number it stands for in C')
    vc.values['text'] = text


# what the grammar itself gets wrong (recorded findings: the parser is generated and cannot be made anew here)
GRAMMAR = {
    'E04-sign': (('7*-3', -21), ('2*-3', -6), ('8/-2', -4), ('5 - -1', 6), ('2^-1', .5), ('5*+3', 15)),
    'E04-mod': (('7+8%3', 9), ('8-5%3', 6), ('8%3+2', 4)),
    'E04-shift': (('1<<2>>1', 2), ('1<<3>>2', 2)),
    'E04-logic': (('1||0&&0', 1), ('1 || 1 && 0', 1)),
    'E04-not': (('!3>1', 0), ('!2==0', 1), ('!0<2', 1)),
    'E04-compare': (('2!=3>4', 1), ('2<1==0', 1), ('0==2<1', 1)),
}


@harness('E04', 'what the grammar gets wrong', [F + 'Expr.parse'], sym=False, weight=0.1)
def h_grammar(vc):
    W = World(vc)
    k = vc.choice('finding', tuple(GRAMMAR))
    text, want = vc.choice('text ' + k, GRAMMAR[k])
    o = vc.run(M().Expr.parse, text)
    got = None
    if not o.raised and len(o.value.expr) == 1:
        try: got = W.D(o.value.expr[0])
        except Exception: pass
    vc.known(k, got is not None and got[1] and abs(float(got[0]) - want) < 1e-9, 'a text stands for the number it stands for in C', lambda: (text, o))
