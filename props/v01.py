"""V01: the C code of components is read and put together: declarations, user variables, included libraries and files, simple assignments.

The visitors of declarations run on arbitrary nodes of the parse tree (tokens point into a text which is made of known and unknown pieces);
whole texts go through the real parser in the bounded search."""
import re
from vc.api import harness, Discard
from .seqlib import some, seq
from .i02 import bare

L = 'src/mccode_antlr/translators/c_listener.py '
D = L + 'DeclaresCVisitor.'
C = 'src/mccode_antlr/translators/c.py CTargetVisitor.'
POOL = ('a', 'n_1', 'x', 'Table', 'count')


def cl():
    import mccode_antlr.translators.c_listener as c
    return c


# ------------------------------------------------------------------ declarators
FORMS = ('plain', 'pointer', 'array', 'matrix', 'function', 'functions')


def declarator(vc, n, forms=FORMS):
    """an arbitrary declarator and what it says: (name, pointer, dims, dtype, init, modifiers, args, form)"""
    c = cl()
    form = vc.choice(n + '.form', forms)
    name = vc.ident(n + '.name', POOL)
    pointer = vc.choice(n + '.pointer', ('*', '* *')) if form == 'pointer' else vc.choice(n + '.ptr', (None, '*')) if form == 'function' else None
    dims = None
    if form in ('array', 'functions'): dims = (vc.int(n + '.d0', 1, 9),) if vc.choice(n + '.known', (True, False)) else (vc.ident(n + '.s0', ('N', 'MAX')),)
    if form == 'matrix': dims = (vc.int(n + '.d0', 1, 9), vc.int(n + '.d1', 1, 9))
    dtype = vc.ident(n + '.dtype', ('double', 'int', 'T'))
    init = vc.ident(n + '.init', ('x0', 'x1')) if vc.choice(n + '.has', (False, True)) else None
    args = mod = None
    if form in ('function', 'functions'):
        args = vc.ident(n + '.args', ('int', 'double'))
        mod = vc.choice(n + '.mod', (None, '__cdecl'))
        inner = c.CDeclarator(name, pointer='*', elements=dims)
        x = c.CDeclarator(c.CFuncPointer(inner, modifiers=mod, args=args), pointer=pointer, dtype=dtype, init=init)
    else: x = c.CDeclarator(name, pointer=pointer, elements=list(dims) if dims and vc.choice(n + '.list', (True, False)) else dims, dtype=dtype, init=init)
    return x, (name, pointer, dims, dtype, init, mod, args, form)


def one(vc, a, b):
    if a is None or b is None or isinstance(a, tuple) != isinstance(b, tuple): return a is b
    if isinstance(a, tuple): return len(a) == len(b) and vc.and_(*[one(vc, x, y) for x, y in zip(a, b)])
    if isinstance(a, str) != isinstance(b, str) and not (is_text(a) and is_text(b)): return False
    return vc.eq(a, b)


def is_text(x):
    if isinstance(x, str): return True
    from vc.core import SStr
    return isinstance(x, SStr)


def says(x):
    """what a declarator says, from its parts"""
    c = cl()
    if isinstance(x.declare, c.CFuncPointer):
        f = x.declare
        return (f.declare.declare, x.pointer, f.declare.elements, x.dtype, x.init, f.modifiers, f.args)
    return (x.declare, x.pointer, x.elements, x.dtype, x.init, None, None)


@harness('V01', 'declarations are the same exactly if all their parts are', [L + 'CDeclarator.__eq__', L + 'CFuncPointer.__eq__', L + 'CDeclarator.__hash__', L + 'CFuncPointer.__hash__', L + 'CDeclarator.__post_init__'], max_paths=60000, weight=2)
def h_equal(vc):
    c = cl()
    forms = ('plain', 'pointer', 'array', 'matrix', 'function')
    a, pa = declarator(vc, 'a', forms)
    b, pb = declarator(vc, 'b', forms)
    o = vc.run(lambda: a == b)
    same = vc.and_(*[one(vc, x, y) for x, y in zip(pa, pb)])
    vc.check(not o.raised and vc.iff(True if o.value is True else False if o.value is False else o.value, same), 'two declarations are the same exactly if their names, types, forms and initial values are', lambda: f'{a} {b} {o}')
    # how they are told apart in dictionaries: the same ones have the same text
    if vc.sym:
        if o.value is True or o.value is not False and bool(o.value): vc.check(vc.eq(a.__str__(), b.__str__()), 'same declarations are one in a dictionary')
    elif o.value: vc.check(hash(a) == hash(b), 'same declarations are one in a dictionary')


@harness('V01', 'name, kind and copies of a declaration', [L + 'CDeclarator.' + n for n in ('copy', 'name', 'is_pointer', 'is_array')] + [L + 'CFuncPointer.copy', L + 'CFuncPointer.name'])
def h_copy(vc):
    a, p = declarator(vc, 'a')
    form = p[-1]
    vc.check(vc.eq(a.name, p[0]), 'the name of a declaration')
    vc.check(bool(a.is_array) == (p[2] is not None), 'a declaration is that of an array', lambda: f'{a}')
    if form not in ('function', 'functions'): vc.check(bool(a.is_pointer) == (form == 'pointer'), 'a declaration is that of a pointer', lambda: f'{a}')
    suffix = vc.ident('suffix', ('1', '12')) if vc.choice('renamed', (True, False)) else None
    o = vc.run(a.copy, suffix) if suffix is not None else vc.run(a.copy)
    vc.check(not o.raised, 'a declaration can be copied', o)
    q = says(o.value)
    vc.check(vc.eq(q[0], p[0] + '_' + suffix if suffix is not None else p[0]), 'a copy has the name with its suffix', o)
    vc.check(vc.and_(*[one(vc, x, y) for x, y in zip(q[1:], p[1:7])]), 'a copy has everything else of its original', o)
    vc.check(vc.and_(*[one(vc, x, y) for x, y in zip(says(a), p[:7])]), 'copying leaves the original as it is')
    vc.check(o.value is not a, 'a copy is another declaration')
    if vc.sym: return
    o.value.extensions.append('x')
    vc.check(a.extensions == [], 'copying leaves the original as it is')


# ------------------------------------------------------------------ nodes of the parse tree
class Source:
    """a text of pieces, some of which may be unknown: a token covers one piece"""
    def __init__(self): self.pieces = []
    def put(self, x):
        self.pieces.append(x)
        return Tok(self, len(self.pieces) - 1)
    def getText(self, a, b):
        out = ''
        for p in self.pieces[max(a, 0):b + 1]: out = out + p
        return out


class Tok:
    def __init__(self, s, i): self.s, self.start, self.stop = s, i, i
    def getInputStream(self): return self.s


class Node:
    """a node: the method it is visited by, its first and last token, its parts"""
    def __init__(self, visit, start, stop, **parts): self.visited, self.start, self.stop, self.parts = visit, start, stop, parts
    def __getattr__(self, n):
        if n.startswith('__') or n not in self.__dict__.get('parts', {}): raise AttributeError(n)
        v = self.parts[n]
        return lambda *k: v[k[0]] if k else v
    def accept(self, visitor): return getattr(visitor, 'visit' + self.visited)(self)


def direct(s, first, name, **k):
    return dict(declarator=None, vcSpecificModifer=None, Identifier=None, directDeclarator=None) | k


def a_declarator(vc, n, s, inner=False):
    """a declarator in the source, and what it says: (name, pointer, dims, args of function or None, inner pointer and dims)"""
    forms = ('plain', 'array', 'matrix', 'cube') if inner else ('plain', 'array', 'matrix', 'cube', 'function')
    form = vc.choice(n + '.form', forms)
    space = vc.choice(n + '.space', ('', ' '))
    ptr, pt = None, None
    p = '*' if inner else vc.choice(n + '.ptr', (None, '*', '**'))
    if p is not None:
        t = s.put(p)
        ptr = Node('Pointer', t, t)
        if space: s.put(space)
    w = {'ptr': p, 'form': form, 'args': None, 'inner': None, 'dims': None}
    if form == 'function':
        t0 = s.put('(')
        d, w['inner'] = a_declarator(vc, n + '.in', s, True)
        t1 = s.put(')')
        dd = Node('DirectDeclarator', t0, t1, **direct(s, None, None, declarator=d))
        if space: s.put(space)
        u0 = s.put('(')
        args = vc.ident(n + '.args', ('int', 'double'))
        s.put(args)
        if vc.choice(n + '.two', (False, True)):
            s.put(', int k')
            args = args + ', int k'
        u1 = s.put(')')
        w['args'], w['name'] = args, w['inner']['name']
        dd = Node('DirectDeclarator', t0, u1, **direct(s, None, None, directDeclarator=dd))
    else:
        w['name'] = vc.ident(n + '.name', POOL)
        t0 = s.put(w['name'])
        dd = Node('DirectDeclarator', t0, t0, **direct(s, None, None, Identifier=w['name']))
        dims = ()
        for k in range({'plain': 0, 'array': 1, 'matrix': 2, 'cube': 3}[form]):
            kind = vc.choice(f'{n}.dim{k}', ('number', 'name', 'missing', 'sum') if k == 0 else ('number', 'name'))
            x = {'number': ('3', '16')[k % 2], 'name': None, 'missing': '', 'sum': None}[kind]
            if x is None:
                y = vc.choice(f'{n}.size{k}', ('MAX', 'N_2', w['name']))
                x = y if kind == 'name' else y + '+1'
            if space: s.put(space)
            s.put('[')
            if space: s.put(space)
            s.put(x)
            t1 = s.put(']')
            dims += (int(x) if kind == 'number' else 0 if kind == 'missing' else x,)
            dd = Node('DirectDeclarator', t0, t1, **direct(s, None, None, directDeclarator=dd))
        w['dims'] = dims or None
    return Node('Declarator', ptr.start if ptr else dd.start, dd.stop, pointer=ptr, directDeclarator=dd, gccDeclaratorExtension=[]), w


def visitor(typedefs=()):
    c = cl()
    x = c.DeclaresCVisitor(list(typedefs))
    x.visit = lambda n: n.accept(x)
    return x


def check_declarator(vc, x, w, label):
    c = cl()
    vc.check(isinstance(x, c.CDeclarator) and one(vc, x.pointer, w['ptr']), label + ': pointers', lambda: f'{x} {w}')
    vc.check(one(vc, x.name, w['name']), label + ': its name', lambda: f'{x} {w}')
    if w['form'] == 'function':
        vc.check(isinstance(x.declare, c.CFuncPointer) and one(vc, x.declare.args, w['args']) and x.elements is None, label + ': arguments of functions', lambda: f'{x} {w}')
        if isinstance(x.declare, c.CFuncPointer): check_declarator(vc, x.declare.declare, w['inner'], label)
    else:
        vc.check(one(vc, x.declare, w['name']), label + ': its name', lambda: f'{x} {w}')
        vc.check(one(vc, x.elements, w['dims']), label + ': sizes of arrays', lambda: f'{x.elements} {w}')


@harness('V01', 'declarators', [D + n for n in ('visitDeclarator', 'visitDirectDeclarator', 'visitPointer', 'visitInitDeclarator', 'visitInitializer')] + [L + 'literal_string', L + 'string_between_tokens'], max_paths=60000, weight=2)
def h_declarator(vc):
    s = Source()
    d, w = a_declarator(vc, 'd', s)
    init, it = None, None
    if vc.choice('init', (False, True)):
        s.put(' = ')
        init = vc.ident('init.text', ('x0', 'x1'))
        a = s.put(init)
        b = a
        if vc.choice('init.sum', (False, True)):
            b = s.put(' + 1')
            init = init + ' + 1'
        it = Node('Initializer', a, b)
    n = Node('InitDeclarator', d.start, it.stop if it else d.stop, declarator=d, initializer=it)
    s.put(';')
    o = vc.run(lambda: n.accept(visitor()))
    vc.check(not o.raised, 'a declarator can be read', o)
    x, i = o.value
    vc.check(one(vc, i, init), 'the initial value is as it is written', o)
    check_declarator(vc, x, w, 'a declarator')


def specifiers(vc, n, s):
    """the specifiers before the declarators: their nodes and texts"""
    k = vc.choice(n + '.kind', ('keyword', 'name', 'two', 'qualified'))
    out = []
    def add(visit, text, **parts):
        t = s.put(text)
        leaf = Node(visit, t, t)
        s.put(' ')
        out.append((leaf, text))
    none = dict(atomicTypeSpecifier=None, structOrUnionSpecifier=None, enumSpecifier=None, typedefName=None, constantExpression=None)
    def spec(text, named=False):
        t = s.put(text)
        nn = Node('TypedefName', t, t) if named else None
        out.append((Node('TypeSpecifier', t, t, **none | dict(typedefName=nn)), text))
        s.put(' ')
    def tname():
        nm = vc.ident(n + '.type', ('T', 'size_t'))
        vc.assume(vc.not_(vc.eq(nm, 'typedef')))
        return nm
    if k == 'keyword': spec('double')
    elif k == 'name': spec(tname(), True)
    elif k == 'two': spec('unsigned'); spec('long')
    else:
        t = s.put('volatile'); s.put(' ')
        out.append((Node('TypeQualifier', t, t), 'volatile'))
        spec(tname(), True)
    return [x for x, _ in out], [t for _, t in out]


KEEP = []


class Init:
    """a declarator whose visit has the contract of visitInitDeclarator"""
    def __init__(self, vc, n):
        c = cl()
        self.name, self.text = vc.ident(n + '.name', POOL), (vc.ident(n + '.init', ('x0', 'x1')) if vc.choice(n + '.has', (True, False)) else None)
        self.decl = c.CDeclarator(self.name, pointer=vc.choice(n + '.ptr', (None, '*')))
        if vc.sym:
            # it is the element's own: that the loop changes it is what its close looks at
            from vc.seqs import GHOST
            GHOST.add(id(self.decl)); KEEP.append(self.decl)
    def accept(self, v): return self.decl, self.text


class Grow:
    """a list of unknown content: what is added to it is recorded"""
    __vc_sym__ = True
    def __init__(self, vc): self.vc, self.new = vc, []
    def append(self, x): self.new.append(x)
    def __contains__(self, x): return self.vc.choice(f'known{len(self.vc.values)}', (False, True))
    __vc_contains__ = __contains__


def Found(vc, x, check):
    """the loop over declarators, from any state of what has been found so far: check says what one of them adds"""
    from vc.seqs import scratch
    class Fold:
        def enter(self, loop, env): vc.check(not grown(x.declares) and not grown(x.typedefs), 'aux: nothing has been added before the loop')
        def havoc(self, loop, env, stage):
            x.declares, x.typedefs = Grow(vc), Grow(vc)
            return scratch(loop)
        def close(self, loop, env, elem): check(x, elem)
    return Fold()


def grown(l): return l.new if isinstance(l, Grow) else l[1:]


@harness('V01', 'declarations: types of variables, aliases of types', [D + n for n in ('visitDeclaration', 'visitTypeSpecifier', 'visitTypedefName', 'visitTypeQualifier', 'visitStorageClassSpecifier')], max_paths=60000, weight=2)
def h_declaration(vc):
    c = cl()
    s = Source()
    x = visitor()
    old = [c.CDeclarator('before', dtype='int')]
    x.declares, x.typedefs = list(old), ['earlier']
    typedef = vc.choice('typedef', (False, True))
    nodes, texts = [], []
    if typedef:
        t = s.put('typedef'); s.put(' ')
        nodes.append(Node('StorageClassSpecifier', t, t)); texts.append('typedef')
    ns, ts = specifiers(vc, 's', s)
    form = vc.choice('form', ('declarators', 'nothing'))
    inits = []
    def each(x, e):
        # the element may be what visiting the declarator gives, or its name
        decl, text = (e.decl, e.text) if isinstance(e, Init) else e if isinstance(e, tuple) else (None, None)
        nm = e if decl is None else decl.declare
        d, t = grown(x.declares), grown(x.typedefs)
        if typedef: vc.check(not d and len(t) == 1 and one(vc, t[0], nm), 'a typedef names each of its aliases, and no variables', lambda: f'{d} {t}')
        else: vc.check(not t and len(d) == 1 and d[0] is decl and one(vc, decl.init, text) and one(vc, decl.dtype, want), 'each variable is found, with its type, form and initial value', lambda: f'{d} {t}')
    if form == 'declarators':
        inits = some(vc, 'd', lambda n: Init(vc, n), fold=Found(vc, x, each) if vc.sym else None)
        if vc.sym:
            from vc.core import SBool
            vc.assume(SBool(inits.n > 0))
            inits.mapped_fold, inits.deep_fold = inits.fold, True
            inits = seq([inits], list)
        elif not inits: raise Discard()
        il = Node('InitDeclaratorList', None, None, initDeclarator=inits)
    else: il = None   # names which might be types are read as specifiers
    last = None
    if form == 'nothing':
        last = vc.ident('last', POOL)
        vc.assume(vc.not_(vc.eq(last, 'typedef')))
        t = s.put(last)
        ns.append(Node('TypeSpecifier', t, t, **dict(atomicTypeSpecifier=None, structOrUnionSpecifier=None, enumSpecifier=None, typedefName=Node('TypedefName', t, t), constantExpression=None)))
    e = s.put(';')
    want = ts[0]
    for t in ts[1:]: want = want + ' ' + t
    ctx = Node('Declaration', Tok(s, 0), e, staticAssertDeclaration=None, declarationSpecifiers=Node('x', None, None, declarationSpecifier=nodes + ns), initDeclaratorList=il)
    o = vc.run(x.visitDeclaration, ctx)
    vc.check(not o.raised, 'a declaration can be read', o)
    if vc.sym and il: return vc.check(not grown(x.declares) and not grown(x.typedefs), 'nothing else is found')
    vc.check(x.declares[:1] == old and x.typedefs[:1] == ['earlier'], 'what has been found before stays')
    if il:
        got, names = (grown(x.typedefs), [i.name for i in inits]) if typedef else (grown(x.declares), inits)
        vc.check(not grown(x.declares if typedef else x.typedefs) and len(got) == len(names), 'each variable or alias is found, in order', lambda: f'{got} {names}')
        for a, b in zip(got, inits):
            if typedef: vc.check(a == b.name, 'each alias is found, in order', lambda: f'{got} {names}')
            else: vc.check(a is b.decl and a.init == b.text and a.dtype == want, 'each variable has its type, form and initial value', lambda: f'{got}')
    elif typedef: vc.check(not grown(x.declares) and len(x.typedefs) == 2 and one(vc, x.typedefs[1], last), 'a typedef names its alias, and no variable', lambda: f'{x.typedefs}')
    else:
        g = grown(x.declares)
        vc.check(not grown(x.typedefs) and len(g) == 1 and one(vc, g[0].name, last) and one(vc, g[0].dtype, want), 'a declaration of one variable', lambda: f'{g}')
        vc.check(g[0].init is None and g[0].pointer is None and g[0].elements is None, 'a declaration of one variable', lambda: f'{g}')


# ------------------------------------------------------------------ whole texts, through the real parser
BLANKS = ('', ' ', '  ', '\n', '/* c; int no; */', ' // int no;\n')
TYPES = ('double', 'int', 'unsigned long', 'char', 'FILE', 'size_t', 'struct S', 'T', 'MCNUM', 'long long')
VALUES = ('0', '-2.5', '1e-3', 'f(1, 2)', '(3+4)*2', 'x ? 1 : 2', 'NULL', '"a;b, c"', "'x'", 'a.b', '&q')


def flat(s): return re.sub(r'\s+', '', s)


def list_text(vc, n, dims, leaf):
    """an initializer of these dimensions: the first row is complete, later ones may not be"""
    b = lambda k: vc.choice(f'{n}.{k}', ('', ' '))
    def row(m, dims, full):
        if not dims: return leaf(m)
        k = dims[0] if full else vc.size(m + '.n', 1, dims[0])
        return '{' + b(m) + (',' + b(m + ',')).join(row(f'{m}.{j}', dims[1:], full and j == 0) for j in range(k)) + b(m + '}') + '}'
    return row(n, dims, True)


def variable(vc, n, names):
    """a declarator as it is written, and what is expected"""
    e = {}
    name = vc.ident(n + '.name', ('a', 'b', 'c', 'x1', 'tab', 'tab_max', 'N', 'i', 'arr', 'typ'))
    if name in names: raise Discard()
    names.add(name)
    b = lambda k: vc.choice(f'{n}.b{k}', BLANKS)
    form = vc.choice(n + '.form', ('plain', 'plain', 'pointer', 'array', 'array', 'parray', 'function', 'functions', 'text'))
    ptr = vc.choice(n + '.ptr', ('*', '**')) if form in ('pointer', 'parray') else vc.choice(n + '.fptr', ('', '*')) if form in ('function', 'functions') else ''
    dims, init, want = (), None, ()
    if form in ('array', 'parray', 'functions'):
        for k in range(vc.size(n + '.dims', 1, 3)): dims += (vc.choice(f'{n}.dim{k}', ('3', '12', 'N', 'tab_max', name + '_max', '2*N', name, '')) if k == 0 else vc.choice(f'{n}.dim{k}', ('2', '4', 'M')),)
        if dims[0] == '' and form == 'functions': raise Discard()
        want = dims
        if dims[0] == '':
            size = tuple(int(d) if d.isdigit() else 2 for d in (str(vc.size(n + '.first', 1, 4)),) + dims[1:])
            leaf = vc.choice(n + '.leaves', (0, 1, 2))
            init = list_text(vc, n + '.init', size, lambda m: ('1', '"a{,\\""', 'f(1,{2})' if False else 'f(1, 2)')[leaf])
            want = (str(size[0]),) + dims[1:]
            if leaf == 1 and form != 'parray': raise Discard()   # rows of characters: below
        elif vc.choice(n + '.has', (False, True)): init = '{1}'
    elif form == 'text':
        t = vc.choice(n + '.text', ('"abc"', '""', '"a\\n\\"b"', '"a" "bc"', '"\\x41\\101é"'))
        k = vc.choice(n + '.how', ('[]', '[20]', '[][20]'))
        dims = {'[]': ('',), '[20]': ('20',), '[][20]': ('', '20')}[k]
        init = t if len(dims) == 1 else '{' + t + ', "q"}'
        size = {'"abc"': 4, '""': 1, '"a\\n\\"b"': 5, '"a" "bc"': 4, '"\\x41\\101é"': 5}[t]
        want = {'[]': (str(size),), '[20]': ('20',), '[][20]': ('2', '20')}[k]
    elif form != 'function' and vc.choice(n + '.has', (False, True)): init = vc.choice(n + '.value', VALUES)
    d = ''.join(b(f'd{k}') + '[' + b(f'e{k}') + x + b(f'f{k}') + ']' for k, x in enumerate(dims))
    if form in ('function', 'functions'):
        args = vc.choice(n + '.args', ('', 'void', 'double, int*', 'char *a, T b'))
        text = ptr + b(0) + '(' + b(1) + '*' + b(2) + name + d + b(3) + ')' + b(4) + '(' + args + ')'
        member = ptr + '(*' + name + ''.join(f'[{x}]' for x in want) + ')(' + args + ')'
        if form == 'function' and vc.choice(n + '.has', (False, True)): init = vc.choice(n + '.value', ('NULL', 'g', '&g'))
    else:
        text = ptr + b(0) + name + d
        member = ptr + name + ''.join(f'[{x}]' for x in want)
    e = dict(name=name, pointer=ptr or None, elements=tuple(int(x) if x.isdigit() else 0 if x == '' else x for x in dims) or None if form not in ('function', 'functions') else None, init=init, member=member, form=form,
             array=bool(dims), args=args if form in ('function', 'functions') else None)
    if init is not None: text += b(5) + '=' + b(6) + init
    return text, e


def declarations(vc, n, names, types):
    """the text of some declarations: variables (what is expected) and aliases of types"""
    b = lambda k: vc.choice(f'{n}.b{k}', BLANKS)
    text, out, aliases = '', [], []
    for k in range(vc.size(n + '.n', 0, 4)):
        m = f'{n}.{k}'
        kind = vc.choice(m + '.kind', ('variables',) * 4 + ('typedef', 'struct', 'function', 'structvar'))
        if kind == 'variables':
            ty = vc.choice(m + '.type', TYPES)
            vs = [variable(vc, f'{m}.v{j}', names) for j in range(vc.size(m + '.vs', 1, 3))]
            text += ty + ' ' + b(f'{k}a') + (b(f'{k}b') + ',' + b(f'{k}c')).join(t for t, _ in vs) + b(f'{k}d') + ';' + b(f'{k}e')
            out += [e | dict(dtype=ty) for _, e in vs]
        elif kind == 'typedef':
            al = f'A{len(types)}_'
            types.append(al); aliases.append(al)
            text += vc.choice(m + '.alias', (f'typedef double {al};', f'typedef struct {{int q; double r[2];}} {al};', f'typedef struct S *{al};', f'typedef double (*{al})(int);', f'typedef int {al}[4];', f'typedef unsigned int {al};')) + b(f'{k}e')
        elif kind == 'struct': text += vc.choice(m + '.struct', ('struct S {int q; double r;};', 'union U {int q; float w[3];};', 'enum E {E1, E2 = 4};')) + b(f'{k}e')
        elif kind == 'structvar':
            nm = f's{k}'
            if nm in names: raise Discard()
            names.add(nm)
            ty = vc.choice(m + '.struct', ('struct {int q; double r;}', 'struct S2 {int q; double r[2];}', 'enum {E1, E2}'))
            text += f'{ty} {nm};' + b(f'{k}e')
            out.append(dict(name=nm, pointer=None, elements=None, init=None, member=nm, form='plain', array=False, args=None, dtype=ty))
        else: text += vc.choice(m + '.function', ('int fun(double x) { int y = 2; double z; return y; }', 'static void fun2(void) { typedef int L; char *s = "a;b"; }')) + b(f'{k}e')
    return b('0') + text, out, aliases


def check_variable(vc, x, e):
    c = cl()
    vc.check(x.name == e['name'] and flat(x.dtype) == flat(e['dtype']), 'a variable has its name and type', lambda: f'{x!r} {e}')
    vc.check((x.pointer or '').replace(' ', '') == (e['pointer'] or '') and x.elements == e['elements'] and bool(x.is_array) == e['array'], 'a variable has its form', lambda: f'{x!r} {e}')
    vc.check(x.init == e['init'], 'a variable has its initial value', lambda: f'{x!r} {e}')
    if e['args'] is not None: vc.check(isinstance(x.declare, c.CFuncPointer) and (x.declare.args or '') == e['args'], 'a pointer to a function has its arguments', lambda: f'{x!r} {e}')
    vc.check(flat(x.as_struct_member(max_array_length=16384)) == flat(e['dtype'] + ' ' + e['member']), 'as a member of a structure it has the same type, missing sizes being those of its initial value', lambda: f'{x.as_struct_member()} {e}')


@harness('V01', 'declarations in C', [L + n for n in ('extract_c_declared_variables_and_defined_types', 'extract_c_declared_variables', 'extract_c_defined_types', 'extract_c_defined_then_declared_variables', 'extract_initializer_size', 'CDeclarator.as_struct_member', 'CFuncPointer.as_struct_member')], sym=False, weight=3)
def h_text(vc):
    c = cl()
    names, types = set(), []
    text, want, aliases = declarations(vc, 't', names, types)
    o = vc.run(c.extract_c_declared_variables_and_defined_types, text, ['T', 'FILE'])
    vc.check(not o.raised, 'declarations can be read', lambda: f'{o} {text!r}')
    got, ty = o.value
    vc.check([x.name for x in got] == [e['name'] for e in want], 'all variables are found, in order, and nothing else', lambda: f'{text!r} {[x.name for x in got]}')
    for x, e in zip(got, want): check_variable(vc, x, e)
    vc.check(ty == ['T', 'FILE'] + aliases, 'all aliases of types are found', lambda: f'{text!r} {ty}')
    ways = vc.choice('way', (0, 1, 2))
    if ways == 0: vc.check([x.name for x in c.extract_c_declared_variables(text, user_types=['T'])] == [e['name'] for e in want], 'all variables are found, in order, and nothing else')
    if ways == 1: vc.check(c.extract_c_defined_types(text, user_types=['T']) == ['T'] + aliases, 'all aliases of types are found')
    if ways == 2: vc.check([x.name for x in c.extract_c_defined_then_declared_variables('typedef int T;', text)] == [e['name'] for e in want], 'all variables are found, in order, and nothing else')


# ------------------------------------------------------------------ user variables
def target(source, **k):
    import mccode_antlr.translators.c as tc
    x = object.__new__(tc.CTargetVisitor)
    x.__dict__.update(dict(source=source, typedefs=[], includes=[], verbose=False, config={'include_runtime': True}, warnings=0, output=None, component_declared_parameters={}, instrument_uservars=(), component_uservars={}, runtime={'project': 1, 'name': 'mcstas'}), **k)
    return x


def block(text, translated=True):
    from mccode_antlr.common import RawC
    b = RawC('file', 3, text)
    if translated: b.translated = text
    return b


def some_vars(vc, n, pool):
    """blocks of user variables: their texts, and (name, type, pointer) in order"""
    blocks, out = [], []
    for k in range(vc.size(n + '.blocks', 0, 2)):
        t = ''
        for j in range(vc.size(f'{n}.{k}.n', 0, 2)):
            v = vc.choice(f'{n}.{k}.{j}.name', pool), vc.choice(f'{n}.{k}.{j}.type', ('double', 'double', 'int')), vc.choice(f'{n}.{k}.{j}.form', ('', '', '*', '[3]'))
            t += v[1] + ' ' + (v[2] if v[2] == '*' else '') + v[0] + (v[2] if v[2] == '[3]' else '') + ';\n'
            out.append(v)
        blocks.append(block(t))
    return blocks, out


def clashes(vs):
    """the same name for different variables"""
    return any(a != b and a[0] == b[0] for a in vs for b in vs)


@harness('V01', 'user variables', [C + '_determine_uservars', C + '_instrument_and_component_uservars'], sym=False)
def h_uservars(vc):
    from mccode_antlr.comp import Comp
    from mccode_antlr.instr import Instr, Instance
    from mccode_antlr.common import Expr
    own, mine = some_vars(vc, 'own', ('a', 'b', 'a_1', 'b_2'))
    types, said = [], []
    for k in range(vc.size('types', 0, 2)):
        bs, vs = some_vars(vc, f't{k}', ('a', 'b', 'a_1'))
        types.append(Comp(name=f'T{k}', user=tuple(bs))); said.append(vs)
    order = [vc.choice(f'c{j}', (0, 1)) for j in range(vc.size('nc', 0, 3) if types else 0)]
    comps = [bare(Instance, name=f'c{j}', type=types[k % len(types)]) for j, k in enumerate(order)]
    used = [k % len(types) for k in order]
    x = target(bare(Instr, name='instrument', user=tuple(own), components=tuple(comps)))
    import io, contextlib
    o = vc.run(x._determine_uservars)
    firsts = list(dict.fromkeys(used))
    per = {f'T{k}': [(f'{v[0]}_{j + 1}', *v[1:]) for j, q in enumerate(used) if q == k for v in dict.fromkeys(said[k])] for k in firsts}
    everything = list(dict.fromkeys(mine)) + [v for vs in per.values() for v in vs]
    bad = clashes(mine) or any(clashes(said[k]) for k in firsts) or clashes(everything)
    vc.check(o.raised == bad, 'user variables are refused exactly if one name is given to different ones', lambda: f'{o} {mine} {said} {used}')
    if bad: return
    def tell(d): return d.name, d.dtype, '*' if d.is_pointer else '[3]' if d.is_array and d.elements == (3,) else ''
    vc.check([tell(d) for d in x.instrument_uservars] == list(dict.fromkeys(mine)), 'user variables of the instrument, in order, each once', lambda: f'{x.instrument_uservars} {mine}')
    vc.check({k: [tell(d) for d in v] for k, v in x.component_uservars.items()} == per, 'each component has its own user variables, which end in its number', lambda: f'{x.component_uservars} {per}')
    o = vc.run(x._instrument_and_component_uservars)
    vc.check(not o.raised and [tell(d) for d in o.value] == list(dict.fromkeys(everything)), 'the particle has all user variables, each once', o)


# ------------------------------------------------------------------ %include
def toks(s): return s.split()


def include_lines(vc, n, libs, files, most=3):
    """lines which include libraries and files: their text, and what they stand for in order: ('lib', name), ('file', name), ('text', mark)"""
    out, text = [], ''
    for k in range(vc.size(n + '.n', 0, most)):
        kind = vc.choice(f'{n}.{k}', ('lib', 'lib', 'file', 'text'))
        pool = {'lib': libs, 'file': files, 'text': None}[kind]
        if pool is not None and not pool: continue
        if kind == 'text': x = f'code_{re.sub(chr(92) + "W", "_", n)}_{k};'; text += vc.choice(f'{n}.{k}.b', ('', '  ')) + x + '\n'
        else:
            x = vc.choice(f'{n}.{k}.name', pool)
            text += vc.choice(f'{n}.{k}.b', ('', '  ')) + '%include' + vc.choice(f'{n}.{k}.c', (' ', '  ', '')) + f'"{x}"' + vc.choice(f'{n}.{k}.d', ('', ' ')) + '\n'
        out.append((kind, x))
    return text, out


@harness('V01', '%include', [C + n for n in ('_handle_raw_c_include', 'include_header', 'include_source', 'visit_declare', '__post_init__')] + ['src/mccode_antlr/translators/c.py sort_include_hierarchy'], sym=False, weight=2)
def h_include(vc):
    from mccode_antlr.comp import Comp
    from mccode_antlr.instr import Instr, Instance
    from mccode_antlr.common import Expr
    import mccode_antlr.translators.c as tc, mccode_antlr.translators.c_decls as cd
    contents, what, asked = {}, {}, set()
    nf, nl = vc.size('files', 0, 3), vc.size('libraries', 0, 5)
    files, libs = [f'f{k}.h' for k in range(nf)], [f'lib{vc.choice(f"l{k}", "pqrst")}{k}' for k in range(nl)]
    fsub = {}
    for k, f in enumerate(files):
        contents[f], what[f] = include_lines(vc, f, libs[:1], files[:k])
        contents[f] += f'text_{k};\n'; what[f].append(('text', f'text_{k};'))
    for k, l in enumerate(libs):
        for ext in '.h', '.c':
            n = l + ext
            contents[n], what[n] = include_lines(vc, n, libs[:k], files if k else [])
            contents[n] += f'mark_{ext[1]}_{l};\n'; what[n].append(('text', f'mark_{ext[1]}_{l};'))
    def expand(ws): return [y for kind, x in ws for y in ([] if kind == 'lib' else [x] if kind == 'text' else expand(what[x]))]
    def needs(ws): return [y for kind, x in ws for y in ([x] if kind == 'lib' else [] if kind == 'text' else needs(what[x]))]
    blocks = []
    def a_block(n):
        t, w = include_lines(vc, n, libs, files, 2)
        b = block(t, False)
        blocks.append((b, w))
        return b
    SI, ST = ('user', 'declare', 'initialize', 'save', 'final'), ('share', 'user', 'declare', 'initialize', 'trace', 'save', 'final', 'display')
    instr = bare(Instr, name='instrument', registries=(), **{s: tuple(a_block(f'{s}{k}') for k in range(vc.size(f'i.{s}', 0, 1))) for s in SI})
    types = [Comp(name=f'T{k}', **{s: tuple(a_block(f't{k}{s}{j}') for j in range(vc.size(f't{k}.{s}', 0, 1))) for s in ST if s != 'declare' and s != 'user'}) for k in range(vc.size('types', 0, 2))]
    instr.components = tuple(bare(Instance, name=f'c{k}', type=t, extend=tuple(a_block(f'e{k}') for _ in range(vc.size(f'extends{k}', 0, 1)))) for k, t in enumerate(types))
    x = target(instr)
    x._file_contents = lambda n, *a: contents[n]
    lines = []
    x.out = lambda *a: lines.append(' '.join(str(y) for y in a))
    x.info = lambda *a: None
    for k in ('_determine_uservars', '_parse_libraries_for_typedefs'): setattr(x, k, lambda: None)
    keep, cd.declarations_pre_libraries = cd.declarations_pre_libraries, lambda *a: ('', 0)
    keep2, tc.extract_c_declared_variables = tc.extract_c_declared_variables, lambda *a, **k: []
    try:
        o = vc.run(x.__post_init__)
        vc.check(not o.raised, 'libraries and files can be included', o)
        for b, w in blocks: vc.check(toks(b.translated) == expand(w), 'included files are where they are included, and includes of libraries vanish', lambda: f'{b.source!r} {b.translated!r}')
        first = [y.name for y in x.includes]
        p = vc.run(x.visit_declare)
    finally: cd.declarations_pre_libraries, tc.extract_c_declared_variables = keep, keep2
    vc.check(not p.raised, 'code is generated', p)
    # the libraries which are needed: by blocks, by headers, and by sources
    heads, todo = [], [y for b, w in blocks for y in needs(w)]
    while todo:
        y = todo.pop(0)
        if y not in heads: heads.append(y); todo += needs(what[y + '.h'])
    vc.check(sorted(first) == sorted(heads), 'exactly the libraries which are needed are included', lambda: f'{first} {heads}')
    every, todo = list(heads), list(heads)
    while todo:
        y = todo.pop(0)
        for z in needs(what[y + '.c']) + needs(what[y + '.h']):
            if z not in every: every.append(z); todo.append(z)
    out = toks(re.sub(r'/\*.*?\*/', ' ', '\n'.join(lines), flags=re.S))
    own = [t for t in out if t.startswith('mark_')]
    vc.check(sorted(own) == sorted(f'mark_{e}_{y}' + ';' for y in every for e in 'hc'), 'each library is included once, header and source', lambda: f'{own} {every}')
    at = {t: k for k, t in enumerate(out) if t.startswith('mark_')}
    if len(at) != len(own): return
    for y in every:
        for z in needs(what[y + '.h']): vc.check(at[f'mark_h_{z};'] < at[f'mark_h_{y};'], 'a library comes before those which include it', lambda: f'{z} {y} {out}')
        for z in [y] + needs(what[y + '.c']): vc.check(at[f'mark_h_{z};'] < at[f'mark_c_{y};'], 'the source of a library comes after the headers which it needs', lambda: f'{z} {y} {out}')


# ------------------------------------------------------------------ simple assignments
def arith(vc, n, known, ints, depth=2):
    """the text of an expression, and its value as a function of k"""
    pool = ('number', 'known', 'op', 'op', 'neg', 'group') if depth else ('number', 'known')
    kind = vc.choice(n, pool if not ints else pool + ()) if known else vc.choice(n, tuple(p for p in pool if p != 'known'))
    if kind == 'number':
        t = vc.choice(n + '.v', ('0', '1', '2', '3', '10', '7')) if ints else vc.choice(n + '.v', ('0.5', '2.0', '1e-1', '3', '1.25'))
        return t, lambda k: float(t)
    if kind == 'known':
        v = vc.choice(n + '.v', sorted(known))
        return v, known[v]
    if kind == 'op':
        op = vc.choice(n + '.o', ('+', '-', '*'))
        (a, fa), (b, fb) = arith(vc, n + 'l', known, ints, depth - 1), arith(vc, n + 'r', known, ints, depth - 1)
        return f'({a} {op} {b})', lambda k: {'+': fa(k) + fb(k), '-': fa(k) - fb(k), '*': fa(k) * fb(k)}[op]
    a, fa = arith(vc, n + 'l', known, ints, depth - 1)
    if kind == 'neg': return f'(0 - {a})', lambda k: -fa(k)
    return f'({a})', fa


@harness('V01', 'simple assignments', [L + n for n in ('evaluate_c_defined_variables', 'extract_c_declared_expressions', 'evaluate_c_defined_expressions', 'EvalCVisitor.visitAssignment', 'EvalCVisitor.visitExpressionIdentifier')], sym=False)
def h_assign(vc):
    c = cl()
    from mccode_antlr.common import Expr, DataType
    types, values, text = {}, {}, ''
    k = lambda v: v
    free = {'k': k} if vc.choice('unknown', (False, True)) else {}
    for v in ('a', 'b', 'c')[:vc.size('n', 1, 3)]:
        types[v] = vc.choice(v + '.type', ('int', 'double'))
        text += f'{types[v]} {v}'
        if vc.choice(v + '.has', (True, False)):
            t, f = arith(vc, v + '.init', {}, types[v] == 'int', 1)
            text += f' = {t}'
            values[v] = f
        text += ';\n'
    s = vc.choice('texts', (False, True))
    if s: text += 'char *s;\n'
    code, now = '', dict(values)
    for j in range(vc.size('statements', 0, 4)):
        m = f's{j}'
        v = vc.choice(m + '.to', sorted(types))
        usable = {q: f for q, f in now.items() if types[v] == 'double' or types[q] == 'int'} | (free if types[v] == 'double' else {})
        t, f = arith(vc, m + '.value', usable, types[v] == 'int')
        code += vc.choice(m + '.before', ('', '\n', ' // now; a = 7;\n', '/* b = 3; */')) + f'{v} = {t};'
        now[v] = f
        if s and vc.choice(m + '.text', (False, True)): code += ' s = "a; b = 2; // x";'
    code += vc.choice('end', ('', '\n', ' // done', '/* b = 1; */ '))
    o = vc.run(c.extract_c_declared_expressions, text)
    vc.check(not o.raised, 'initial values can be read', lambda: f'{o} {text!r}')
    given = {d.name: e for d, e in o.value.items()}
    vc.check(list(given) == list(types) + ['s'] * s, 'there is an expression for each variable', lambda: f'{given}')
    def same(e, f):
        try: return abs(eval(str(e), {'__builtins__': {}, 'k': 0.75}) - f(0.75)) <= 1e-9 * (1 + abs(f(0.75)))
        except Exception: return False
    for v, f in values.items(): vc.check(same(given[v], f), 'a variable has its initial value', lambda: f'{text!r} {given}')
    before = {v: (e, str(e), e.data_type) for v, e in given.items()}
    o = vc.run(c.evaluate_c_defined_expressions, given, code)
    vc.check(not o.raised, 'simple assignments can be evaluated', lambda: f'{o} {text!r} {code!r}')
    vc.check(list(o.value) == list(given), 'there is a value for each variable', o)
    for v, f in now.items():
        vc.check(same(o.value[v], f), 'a variable has the value which it is assigned last', lambda: f'{text!r} {code!r} {o}')
        if o.value[v].is_singular: vc.check(o.value[v].data_type == DataType.from_name(types[v]), 'a variable keeps its type', lambda: f'{text!r} {code!r} {v} {o.value[v].data_type}')
    vc.check(all(given.get(v) is e and str(e) == t and e.data_type == d for v, (e, t, d) in before.items()), 'evaluating leaves the given values as they are', lambda: f'{given} {before}')
