"""T02: what the generated C declares, initializes and runs in its sections.

The text which is generated is read as C (ctext) and run as far as it sets members of the structures, with symbolic names, texts and
numbers; the places which it has to set are those of the arbitrary parameter of an arbitrary component."""
import contextlib, copy, io, math, re
from vc.api import harness, Discard
from .ctext import Text, Parser, N, A, BadC
from .i02 import bare

CI = 'src/mccode_antlr/translators/c_initialise.py '
CD = 'src/mccode_antlr/translators/c_decls.py '
CF = 'src/mccode_antlr/translators/c_defines.py '
CM = 'src/mccode_antlr/translators/c_macros.py '
CT = 'src/mccode_antlr/translators/c_trace.py '
CL = 'src/mccode_antlr/translators/c_listener.py '
UT = 'src/mccode_antlr/common/utilities.py '
INAMES, PNAMES, CNAMES, TNAMES, DNAMES, XNAMES = ('x', 'ny', 'par_3'), ('p', 'q', 'file_name'), ('src', 'a_1', 'det'), ('Arm', 'T_x', 'PSD_mon'), ('arr', 'n_1', 'dec'), ('fn', 'gv', 'NX')


def mods():
    import mccode_antlr.common as m, mccode_antlr.common.expression, mccode_antlr.comp.comp as c, mccode_antlr.instr.instance as i, mccode_antlr.instr.instr as ii
    return m, c, i, ii


class TextOf(Text):
    """a generated text, some of which can be taken out"""
    def flat(self, rope):
        """how a rope reads in the flattened text (None if it is not in there)"""
        if isinstance(rope, str): return rope
        out = []
        for p in rope.parts:
            if isinstance(p, str): out.append(p); continue
            k = [i for i, a in enumerate(self.atoms) if a is p]
            if not k: return '\uffff' + str(p.name)
            out.append(chr(0xE000 + k[0]))
        return ''.join(out)
    def part(self, s):
        x = copy.copy(self)
        x.s = s
        return x
    def take(self, start, stop):
        """the lines from one which starts with start to the next which starts with stop (taken out of the text)"""
        out, rest, inside = [], [], False
        for l in self.s.split('\n'):
            if l.strip().startswith(start): inside = True
            (out if inside else rest).append(l)
            if inside and l.strip().startswith(stop): inside = False
        self.s = '\n'.join(rest)
        return self.part('\n'.join(out))


def strip(n): return strip(n.a[0]) if n.kind == 'paren' else n


def same_c(vc, t1, a, t2, b):
    """two expressions of C are the same but for parentheses and blanks"""
    a, b = strip(a) if isinstance(a, N) else a, strip(b) if isinstance(b, N) else b
    if isinstance(a, N) != isinstance(b, N): return False
    if isinstance(a, N):
        if a.kind != b.kind or len(a.a) != len(b.a): return False
        return vc.and_(*[same_c(vc, t1, x, t2, y) for x, y in zip(a.a, b.a)]) if a.a else True
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b): return False
        return vc.and_(*[same_c(vc, t1, x, t2, y) for x, y in zip(a, b)]) if len(a) else True
    if isinstance(a, str) and isinstance(b, str): return vc.eq(t1.rope(a), t2.rope(b))
    return a == b


def expr_is(vc, P, n, text):
    """the expression n of the text of P is the given one"""
    Q = Parser(TextOf(text))
    want = Q.expr()
    if Q.peek()[0] != 'end': raise BadC('what was expected')
    return same_c(vc, P.t, n, Q.t, want)


# ------------------------------------------------------------------ values of parameters
class Kind:
    """a parameter: its definition, its value, and what C has to make of it"""


NUM, STR, VEC = ('double', 'int'), ('string',), ('vector', 'ivector')
CTYPE = {'double': 'double', 'int': 'int', 'string': 'char', 'vector': 'double', 'ivector': 'int'}


def expr_of(m, ptype, value, obj='value', shape=None):
    dt = {'double': m.DataType.float, 'int': m.DataType.int, 'string': m.DataType.str, 'vector': m.DataType.float, 'ivector': m.DataType.int}[ptype]
    return m.Expr(m.Value(value, dt, getattr(m.ObjectType, obj), shape or (m.ShapeType.vector if ptype in VEC else m.ShapeType.scalar)))


def literal(vc, n, pool=('abc', '', 'a b', 'µm', 'c:\\\\data\\\\x', 'say \\"yes\\"', 'x{1,2}', '100%d')):
    """a text as it is written in a file: with its quotes, escapes kept"""
    t = vc.text(n, excl='"\\\n\r\t', pool=pool)
    if vc.sym:
        import z3
        from vc.core import SBool, utf8len
        vc.assume(SBool(utf8len(t.t) < 16000))
    return '"' + t + '"', t


def is_call(vc, m, n, iname):
    """a call with an instrument parameter as argument, and its text in C"""
    f = vc.ident(n + '.function', XNAMES)
    a = m.BinaryOp('__call__', m.Expr(m.Value(f, m.DataType.undefined, m.ObjectType.identifier)), m.Expr(m.Value(iname, m.DataType.float, m.ObjectType.parameter)))
    return m.Expr(a), f + '(_instrument_var._parameters.' + iname + ')'


def param(vc, m, n, inames, name=None, ptypes=NUM + STR + VEC, lists=None):
    k = Kind()
    k.name = vc.ident(n + '.name', PNAMES) if name is None else name
    k.ptype = vc.choice(n + '.type', ptypes)
    opts = {'double': ('number', 'none', 'id', 'parameter', 'op'), 'int': ('number', 'none', 'id', 'parameter', 'op'), 'string': ('text', 'none', 'zero', 'null', 'empty', 'id', 'parameter', 'op'),
            'vector': ('list', 'none', 'null', 'id', 'parameter', 'op'), 'ivector': ('list', 'none', 'null', 'id', 'parameter', 'op')}[k.ptype]
    if not inames: opts = tuple(o for o in opts if o not in ('parameter', 'op'))
    if lists is not None: opts = tuple(o for o in opts if (o == 'list') is lists)
    k.kind = vc.choice(n + '.kind', opts)
    ip = vc.choice(n + '.which', inames) if k.kind in ('parameter', 'op') else None
    k.missing = k.kind == 'none'
    if k.kind == 'number':
        v = vc.real(n + '.value') if k.ptype == 'double' else vc.int(n + '.value')
        k.value, k.want = expr_of(m, k.ptype, v), ('expr', vc.str(v))
    elif k.kind == 'none':
        k.value = expr_of(m, k.ptype, None)
        k.want = ('empty',) if k.ptype in STR else ('expr', 'NULL' if k.ptype in VEC else '0')
    elif k.kind in ('zero', 'null', 'empty'):
        k.value = expr_of(m, k.ptype, {'zero': '0', 'null': 'NULL', 'empty': '""'}[k.kind])
        k.want = ('empty',) if k.ptype in STR else ('expr', 'NULL')
    elif k.kind == 'text':
        t, inner = literal(vc, n + '.text')
        k.value, k.want = expr_of(m, k.ptype, t), ('text', t)
    elif k.kind == 'list':
        es, texts = [], []
        for j in range(vc.size(n + '.len', 1, 2 if vc.sym else 4)):
            e = vc.choice(f'{n}.e{j}', ('number', 'name', 'parameter') if inames else ('number', 'name'))
            if e == 'number':
                v = vc.real(f'{n}.v{j}') if k.ptype == 'vector' else vc.int(f'{n}.v{j}')
                es.append(v); texts.append(vc.str(v))
            elif e == 'name':
                v = vc.ident(f'{n}.v{j}', XNAMES)
                for x in inames: vc.assume(vc.not_(v == x))
                es.append(v); texts.append(v)
            else:
                v = vc.choice(f'{n}.i{j}', inames)
                es.append(v); texts.append('_instrument_var._parameters.' + v)
        k.value, k.want = expr_of(m, k.ptype, es), ('array', CTYPE[k.ptype], texts)
    elif k.kind in ('id', 'parameter'):
        if k.kind == 'id':
            v = vc.ident(n + '.id', XNAMES)
            for x in inames: vc.assume(vc.not_(v == x))
            k.value, text = expr_of(m, k.ptype, v, 'identifier'), v
        else: k.value, text = expr_of(m, k.ptype, ip, 'parameter'), '_instrument_var._parameters.' + ip
        k.want = ('copied' if k.ptype in STR else 'expr', text)
    elif k.ptype in NUM:
        v = vc.int(n + '.factor', lo=2)
        vc.assume(v >= 2)
        k.value = m.Expr(m.BinaryOp('*', m.Expr(m.Value(ip, m.DataType.float, m.ObjectType.parameter)), m.Expr(m.Value(v, m.DataType.int))))
        k.want = ('expr', '_instrument_var._parameters.' + ip + ' * ' + vc.str(v))
    else:
        k.value, text = is_call(vc, m, n, ip)
        k.want = ('copied' if k.ptype in STR else 'expr', text)
    return k


# ------------------------------------------------------------------ running the statements which set members
class Setter:
    """what a list of statements leaves in the members of one structure"""
    def __init__(self, vc, P, var):
        self.vc, self.P, self.var = vc, P, var
        self.at = {}        # member -> what it is
        self.other = []
        self.locals = {}
    def member(self, n):
        n = strip(n)
        if n.kind == 'mem' and n.a[0] == '.' and n.a[1].kind == 'mem' and n.a[1].a[0] == '.' and n.a[1].a[2] == '_parameters' and n.a[1].a[1] == N('id', self.var): return n.a[2]
        return None
    def run(self, stmts):
        for s in stmts: self.one(s)
    def one(self, s):
        if s.kind == 'empty': return
        if s.kind == 'block':
            old = dict(self.locals)
            self.run(s.a[0])
            self.locals = old
            return
        if s.kind == 'decl':
            for name, ptr, dims, init in s.a[1]: self.locals[name] = (s.a[0], ptr, dims, init)
            return
        if s.kind == 'if':
            # if (V && strlen(V)) copy it, else it is empty
            c, t, e = s.a
            a, b = Setter(self.vc, self.P, self.var), Setter(self.vc, self.P, self.var)
            a.run(t.a[0] if t.kind == 'block' else [t])
            b.run((e.a[0] if e.kind == 'block' else [e]) if e is not None else [])
            c = strip(c)
            if not (a.other or b.other) and list(a.at) == list(b.at) and len(a.at) == 1:
                (f, x), (_, y) = *a.at.items(), *b.at.items()
                if x[0] == 'copy' and y[0] == 'empty' and c.kind == 'bin' and c.a[0] == '&&' and strip(c.a[2]) == N('call', N('id', 'strlen'), [strip(c.a[1])]) and strip(c.a[1]) == x[1]:
                    self.at[f] = ('copied', x[1], x[2])
                    return
            self.other.append(s)
            return
        if s.kind == 'expr':
            x = s.a[0]
            if x.kind == 'assign' and x.a[0] == '=': return self.assign(s, x.a[1], x.a[2])
            if x.kind == 'call' and x.a[0].kind == 'id' and x.a[0].a[0] in ('stracpy', 'memcpy') and len(x.a[1]) == 3:
                f = self.member(x.a[1][0])
                if f is not None:
                    if x.a[0].a[0] == 'stracpy': self.at[f] = ('copy', strip(x.a[1][1]), x.a[1][2])
                    else:
                        src, size = strip(x.a[1][1]), x.a[1][2]
                        if src.kind != 'id' or src.a[0] not in self.locals or size.kind != 'sizeof' or size.a[0] != src.a[0]: raise BadC('memcpy of something else')
                        self.at[f] = ('local', *self.locals[src.a[0]])
                    return
        self.other.append(s)
    def assign(self, s, left, right):
        left = strip(left)
        if left.kind == 'idx':
            f = self.member(left.a[0])
            if f is not None:
                i = strip(left.a[1])
                if i.kind != 'num': raise BadC('an element which is not known')
                k = int(i.a[0])
                r = strip(right)
                if k == 0 and r.kind == 'chr' and r.a[0] == "'\\0'" and f not in self.at: self.at[f] = ('empty',)
                else:
                    old = self.at.get(f)
                    if old is None or old[0] != 'calloc': raise BadC('an element of what is not allocated')
                    if k in old[3] or k >= old[2]: raise BadC('an element twice or outside')
                    old[3][k] = right
                return
        f = self.member(left)
        if f is None: return self.other.append(s)
        r = strip(right)
        if r.kind == 'call' and r.a[0] == N('id', 'calloc'):
            x, y = [strip(z) for z in r.a[1]]
            if x.kind != 'sizeof': x, y = y, x
            if x.kind != 'sizeof' or y.kind != 'num': raise BadC('calloc')
            self.at[f] = ('calloc', x.a[0].strip(), int(y.a[0]), {})
        elif r.kind == 'id' and r.a[0] in self.locals: self.at[f] = ('local', *self.locals[r.a[0]])
        else: self.at[f] = ('expr', right)


def bytes_of(vc, lit):
    """the number of bytes of a text literal (an upper bound where it is unknown)"""
    if isinstance(lit, str): return len(decode_c(lit))
    from vc.core import SBytes
    return SBytes(lit).__vc_len__() - 2


def decode_c(lit):
    """what C makes of a text literal: bytes"""
    if len(lit) < 2 or lit[0] != '"' or lit[-1] != '"': raise BadC('not a text')
    s, out, i = lit[1:-1], bytearray(), 0
    while i < len(s):
        c = s[i]
        if c == '"' or c == '\n': raise BadC('text ends early')
        if c != '\\':
            out += c.encode(); i += 1; continue
        if i + 1 >= len(s): raise BadC('backslash at the end')
        d = s[i + 1]
        if d in '01234567':
            j = i + 1
            while j < len(s) and j < i + 4 and s[j] in '01234567': j += 1
            v = int(s[i + 1:j], 8)
        elif d == 'x':
            j = i + 2
            while j < len(s) and s[j] in '0123456789abcdefABCDEF': j += 1
            if j == i + 2: raise BadC('\\x')
            v = int(s[i + 2:j], 16)
        elif d in 'uU':
            j = i + (6 if d == 'u' else 10)
            v = int(s[i + 2:j], 16)
            if v < 0xa0 and v not in (0x24, 0x40, 0x60): raise BadC('a universal character name of a basic character')
            out += chr(v).encode(); i = j; continue
        elif d in 'abfnrtv\\\'"?': j, v = i + 2, {'a': 7, 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9, 'v': 11}.get(d, ord(d))
        else: raise BadC(f'escape \\{d}')
        if v > 255: raise BadC('an escape beyond one byte')
        out.append(v); i = j
    return bytes(out)


def check_set(vc, P, S, k, what):
    """the member of a parameter has its value"""
    f = P.t.flat(k.name)
    got = S.at.get(f)
    vc.check(got is not None and not S.other, f'{what} is set, and nothing else', lambda: f'{f} {S.at} {S.other}')
    if got is None or S.other: return
    vc.check(list(S.at) == [f], f'{what} is set, and nothing else', lambda: f'{f} {S.at}')
    w = k.want
    if w[0] == 'empty': vc.check(got[0] == 'empty' or got[0] == 'copy' and got[1] == N('str', '""'), f'{what}: a text without value is empty', lambda: f'{got}')
    elif w[0] == 'expr':
        vc.check(got[0] == 'expr' and expr_is(vc, P, got[1], w[1]), f'{what}: its value', lambda: f'{got} {w}')
    elif w[0] == 'text':
        if got[0] == 'empty': return vc.check(vc.eq(w[1], '""'), f'{what}: its text', lambda: f'{got} {w}')
        ok = got[0] == 'copy' and got[1].kind == 'str'
        vc.check(ok and vc.eq(P.t.rope(got[1].a[0]), w[1]), f'{what}: its text', lambda: f'{got} {w}')
        if ok:
            vc.check(got[2].kind in ('num', 'id', 'sizeof'), 'a size', lambda: f'{got}')
            if got[2].kind == 'sizeof': return vc.check(P.t.flat(w[1]) == got[2].a[0].strip(), f'{what}: all of its text is copied', lambda: f'{got}')
            n = number_of(vc, P.t.rope(got[2].a[0]))
            vc.check(vc.and_(n >= bytes_of(vc, w[1]) + 1, n <= 16384), f'{what}: all of its text is copied', lambda: f'{n} {w}')
    elif w[0] == 'copied':
        vc.check(got[0] == 'copied' and expr_is(vc, P, got[1], w[1]), f'{what}: the text of its value', lambda: f'{got} {w}')
        if got[0] == 'copied': vc.check(got[2] == N('num', '16384'), f'{what}: all of its text is copied', lambda: f'{got}')
    elif w[0] == 'array':
        vc.check(got[0] == 'calloc' and got[1] == w[1] and got[2] == len(w[2]) and sorted(got[3]) == list(range(len(w[2]))), f'{what}: one element for each of its vector', lambda: f'{got} {w}')
        if got[0] == 'calloc':
            for j, t in enumerate(w[2]): vc.check(j in got[3] and expr_is(vc, P, got[3][j], t), f'{what}: elements of its vector in order', lambda: f'{got} {w}')


def number_of(vc, text):
    """the number which a text denotes"""
    if isinstance(text, str): return int(text)
    from vc import hooks
    x = hooks.numeric_of(text)
    if x is None: raise BadC(f'a size which is no number: {text}')
    return x


def Lines_():
    from .t01 import Lines
    from vc.seqs import scratch
    class Loop(Lines):
        """a loop which adds lines for each element; names: what the first, second, ... such loop is called"""
        def __init__(self, S, names, one): super().__init__(S, None, one, lambda loop, env, stage: scratch(loop)); self.names = list(names)
        def name(self, loop, env, ls):
            from vc.core import Unsupported
            left = [n for n in self.names if n not in self.S.passed]
            if not left: raise Unsupported('one more loop')
            return left[0]
    return Loop


class By:
    """a dictionary by the names of component types"""
    __vc_sym__ = True
    def __init__(self, items): self.items_ = items
    def __getitem__(self, name):
        for t, v in self.items_:
            if name is t.name: return v
        from vc.core import Unsupported
        raise Unsupported('another component type')


class Spec:
    def __init__(self, vc): self.vc, self.passed, self.placeholder = vc, [], {}


def block_of(P, prog, what):
    """the block of the only function"""
    fs = [x for x in prog if x.kind == 'function']
    if len(fs) != 1 or any(x.kind not in ('function', 'pp') for x in prog): raise BadC(f'one function for {what}: {prog}')
    return fs[0]


# ------------------------------------------------------------------ private variables
def private(vc, n):
    """a variable of the DECLARE section of a component, and what it is set to (None if it is not)"""
    from mccode_antlr.translators.c_listener import CDeclarator
    k = Kind()
    k.name = vc.ident(n + '.name', DNAMES)
    k.dtype = vc.choice(n + '.dtype', ('double', 'int', 'struct two'))
    k.kind = vc.choice(n + '.kind', ('scalar', 'pointer', 'array', 'matrix', 'open'))
    has = vc.choice(n + '.has', {'scalar': ('no', 'name', 'braces'), 'pointer': ('no', 'name')}.get(k.kind, ('no', 'braces')))
    e = vc.ident(n + '.init', XNAMES)
    k.init = {'no': None, 'name': e, 'braces': '{' + e + '}'}[has]
    k.elements = {'array': (3,), 'matrix': (2, 5), 'open': (0,)}.get(k.kind)
    k.dec = CDeclarator(k.name, pointer='*' if k.kind == 'pointer' else None, elements=k.elements, dtype=k.dtype, init=k.init)
    return k


def check_private(vc, P, S, k):
    f = P.t.flat(k.name)
    got = S.at.get(f)
    what = 'a private variable'
    vc.check(not S.other and set(S.at) <= {f}, f'{what}: nothing else is set', lambda: f'{S.at} {S.other}')
    if k.kind == 'pointer' and k.init is None: return vc.check(got is not None and got[0] == 'expr' and expr_is(vc, P, got[1], 'NULL'), 'a pointer without initial value is NULL', lambda: f'{got}')
    if k.init is None: return vc.check(got is None, f'{what} without initial value is not set', lambda: f'{got}')
    if k.kind in ('scalar', 'pointer') and not (k.init if isinstance(k.init, str) else str(k.init.parts[0])).startswith('{'):
        return vc.check(got is not None and got[0] == 'expr' and expr_is(vc, P, got[1], k.init), f'{what} gets its initial value', lambda: f'{got}')
    ok = got is not None and got[0] == 'local'
    vc.check(ok, f'{what} gets its initial value', lambda: f'{got}')
    if not ok: return
    dtype, ptr, dims, init = got[1:]
    want = [str(n) for n in k.elements or ()]
    if k.kind == 'open': want = ['1'] if not vc.sym else None
    vc.check(dtype == k.dtype and ptr == 0 and len(dims) == len(k.elements or ()), 'the temporary variable has the type of the member', lambda: f'{got}')
    if want is not None: vc.check(all(d is not None and strip(d) == N('num', w) for d, w in zip(dims, want)), 'the temporary variable has the size of the member', lambda: f'{got}')
    vc.check(init is not None and expr_is(vc, P, init, k.init), 'the temporary variable gets the initial value', lambda: f'{got}')


# ------------------------------------------------------------------ _<name>_setpos
def in_sections(vc, n, params):
    """parameters are DEFINITION PARAMETERS or SETTING PARAMETERS"""
    if vc.sym and not isinstance(params, tuple): return {vc.choice(n + '.section', ('setting', 'define')): params}
    k = 0 if vc.sym else vc.choice(n + '.definition parameters', (0, 0, 1, 2, 4))
    return {'define': params[:k], 'setting': params[k:]}


def a_component(vc, n, params, tname=None):
    m, c, i, ii = mods()
    t = bare(c.Comp, name=vc.ident(n + '.type', TNAMES) if tname is None else tname, **in_sections(vc, n, params))
    return bare(i.Instance, name=vc.ident(n + '.name', CNAMES), type=t)


def check_setpos(vc, text, index, comp, settings, privates):
    """settings, privates: what is set (concrete), or None where a loop of any number of times is placed"""
    t = TextOf(text)
    nexus = t.take('#ifdef USE_NEXUS', '#endif')
    P = Parser(t, types=('struct two', 'two'))
    f = block_of(P, P.program(), '_setpos')
    vc.check(f.a[0] == 'int' and f.a[1] == '_' + t.flat(comp.name) + '_setpos' and f.a[2].strip() == 'void', 'the function _<name>_setpos', lambda: f'{f.a[:3]}')
    var = '_' + t.flat(comp.name) + '_var'
    S = Setter(vc, P, var)
    S.run(f.a[3].a[0])
    # the other statements
    name = type_ = index_ = 0
    counters, order, returned = {}, [], []
    place = lambda m: N('mem', '.', N('id', var), m)
    for s in S.other:
        if s.kind == 'pp': continue
        if s.kind == 'return':
            returned.append(strip(s.a[0]) if s.a[0] is not None else None)
            continue
        x = s.a[0] if s.kind == 'expr' else None
        if x is None: continue
        if x.kind == 'call' and x.a[0].kind == 'id':
            fn, args = x.a[0].a[0], x.a[1]
            if fn in ('SETTINGS', 'PRIVATE', 'POSITION', 'NEXUS'): order.append(fn)
            if fn == 'stracpy' and args[0] in (place('_name'), place('_type')):
                w = comp.name if args[0] == place('_name') else comp.type.name
                ok = args[1].kind == 'str' and args[2].kind == 'num' or isinstance(args[2].a[0], str)
                n = number_of(vc, P.t.rope(args[2].a[0]))
                vc.check(args[1].kind == 'str' and vc.and_(vc.eq(P.t.rope(args[1].a[0]), '"' + w + '"')), 'name and type of the component', lambda: f'{args}')
                from vc import hooks
                L = hooks.HOOKS.b_len(w) if vc.sym else len(w)
                vc.check(vc.or_(n >= L + 1, n >= 16384), 'name and type of the component are copied completely', lambda: f'{args}')
                if args[0] == place('_name'): name += 1
                else: type_ += 1
        # chains of assignments
        while x is not None and x.kind == 'assign':
            l = strip(x.a[1])
            if l == place('_index'): index_ += 1; last_ = value_of(x); vc.check(vc.and_(is_number(vc, P, last_, 1 + index)), 'number of the component', lambda: f'{s}')
            if l.kind == 'idx' and l.a[0].kind == 'mem' and l.a[0].a[2].startswith('counter_'):
                vc.check(is_number(vc, P, strip(l.a[1]), 1 + index) and strip(value_of(x)) == N('num', '0') and l.a[0].a[1] == N('id', 'instrument'), 'counters of the component are reset', lambda: f'{s}')
                counters[l.a[0].a[2]] = True
            x = x.a[2]
    for s in walk(f.a[3].a[0]):
        if s.kind == 'decl':
            for dn, ptr, dims, init in s.a[1]:
                x = init
                while x is not None and x.kind == 'assign':
                    if strip(x.a[1]) == place('_index'):
                        index_ += 1
                        vc.check(is_number(vc, P, strip(value_of(x)), 1 + index), 'number of the component', lambda: f'{s}')
                    x = x.a[2]
    vc.check(name == 1 and type_ == 1 and index_ == 1, 'name, type and number of the component are set', lambda: f'{name} {type_} {index_}')
    vc.check(set(counters) == {'counter_N', 'counter_P', 'counter_P2', 'counter_AbsorbProp'}, 'counters of the component are reset', lambda: f'{counters}')
    vc.check(returned == [N('num', '0')], 'the function returns 0', lambda: f'{returned}')
    return P, S, order, nexus


def walk(stmts):
    for s in stmts:
        yield s
        if s.kind == 'block': yield from walk(s.a[0])


def value_of(x):
    while x.kind == 'assign': x = x.a[2]
    return strip(x)


def is_number(vc, P, n, want):
    if n.kind not in ('num', 'id'): return False
    try: return vc.eq(number_of(vc, P.t.rope(n.a[0])), want)
    except ValueError: return False


def setpos_(vc, lists):
    from mccode_antlr.translators import c_initialise as ci, c_listener as cl
    import mccode_antlr.common.utilities as ut
    from vc.seqs import AbsChunk, ASeq
    m, c, i, ii = mods()
    inames = [vc.ident('i1'), vc.ident('i2')]
    vc.assume(vc.not_(inames[0] == inames[1]))
    S, Loop = Spec(vc), Lines_()
    params, privs = [], []
    def make(n):
        k = param(vc, m, n, inames, ptypes=VEC if lists else NUM + STR + VEC, lists=lists)
        params.append(k)
        return m.ComponentParameter(k.name, expr_of(m, k.ptype, None))
    def one(what, text, e):
        if what == 'NEXUS': return
        t = TextOf(text)
        P = Parser(t, types=('two',))
        Z = Setter(vc, P, '_' + t.flat(comp.name) + '_var')
        Z.run(P.program())
        if what == 'SETTINGS': check_set(vc, P, Z, params[-1], 'a parameter')
        else: check_private(vc, P, Z, privs[-1])
    def dec(n):
        privs.append(private(vc, n))
        return privs[-1].dec
    ch = AbsChunk('setting', make, Loop(S, ('SETTINGS', 'NEXUS'), one))
    ch2 = AbsChunk('private', dec, Loop(S, ('PRIVATE',), one))
    comp = a_component(vc, 'c', ASeq([ch]))
    instr = bare(ii.Instr, name='instrument', parameters=tuple(m.InstrumentParameter(x, None, m.Expr(m.Value(None, m.DataType.float))) for x in inames))
    def get_parameter(name, default=None):
        for k in params:
            if name is k.name: return m.ComponentParameter(k.name, k.value)
        from vc.core import Unsupported
        raise Unsupported('another parameter')
    comp.get_parameter = get_parameter
    index = vc.int('index')
    vc.assume(index >= 0)
    old = ci.cogen_comp_init_position, cl.extract_initializer_size, ut.escape_str_for_c
    placed = []
    try:
        ci.cogen_comp_init_position = lambda *a: placed.append(a) or 'POSITION();'
        cl.extract_initializer_size = lambda s: (vc.int('elements'),)
        ut.escape_str_for_c = lambda s: vc.text(f'escaped{next(vc.p.fresh_n)}', excl='"\\\n')
        out = vc.run(ci.cogen_comp_setpos, index, comp, None, instr, By([(comp.type, ASeq([ch2]))]))
    finally: ci.cogen_comp_init_position, cl.extract_initializer_size, ut.escape_str_for_c = old
    vc.check(not out.raised, 'code is generated', out)
    if out.raised: return
    from vc.hooks import HOOKS
    vc.check(len(placed) == 1 and placed[0][0] is index and placed[0][1] is comp and placed[0][3] is instr, 'the component is placed (O02)', lambda: f'{placed}')
    try: P, Z, order, nexus = check_setpos(vc, HOOKS.mcall('\n', 'join', out.value), index, comp, None, None)
    except BadC as e: return vc.check(False, 'the generated code can be run', str(e))
    vc.check(not Z.at and sorted(order) == ['POSITION', 'PRIVATE', 'SETTINGS'] and order.index('SETTINGS') < order.index('PRIVATE'), 'parameters, then private variables are set', lambda: f'{order} {Z.at}')


@harness('T02', '_setpos: any parameters and private variables', [CI + 'cogen_comp_setpos', CL + 'CDeclarator.as_struct_member', CL + 'CDeclarator.string'], conc=False, weight=4, max_paths=20000)
def h_setpos(vc): setpos_(vc, False)


@harness('T02', '_setpos: any number of parameters which are lists', [CI + 'cogen_comp_setpos', CL + 'CDeclarator.as_struct_member', CL + 'CDeclarator.string'], conc=False, weight=2, max_paths=20000)
def h_setpos_lists(vc): setpos_(vc, True)


@harness('T02', '_setpos: random components', [CI + 'cogen_comp_setpos', CL + 'extract_initializer_size'], sym=False)
def h_setpos_c(vc):
    from mccode_antlr.translators import c_initialise as ci
    m, c, i, ii = mods()
    inames = list(INAMES[:vc.size('ni', 0, 3)])
    ks, names = [], set()
    for j in range(vc.size('np', 0, 4)):
        k = param(vc, m, f'p{j}', inames)
        if k.name in names: raise Discard()
        names.add(k.name); ks.append(k)
    ps = []
    for j in range(vc.size('nd', 0, 2)):
        k = private(vc, f'd{j}')
        if k.name in names: raise Discard()
        names.add(k.name); ps.append(k)
    comp = a_component(vc, 'c', tuple(m.ComponentParameter(k.name, expr_of(m, k.ptype, None)) for k in ks))
    index = vc.int('index', lo=0)
    if index < 0: raise Discard()
    comp.parameters = tuple(m.ComponentParameter(k.name, k.value) for k in reversed(ks) if not k.missing)
    zero = m.Expr(m.Value(0.0, m.DataType.float))
    from mccode_antlr.instr.orientation import Vector, Angles
    comp.at_relative, comp.rotate_relative = (Vector(zero, zero, zero), None), (Angles(zero, zero, zero), None)
    instr = bare(ii.Instr, name='instrument', parameters=tuple(m.InstrumentParameter(x, None, m.Expr(m.Value(None, m.DataType.float))) for x in inames), components=(comp,))
    out = vc.run(ci.cogen_comp_setpos, index, comp, None, instr, {comp.type.name: [k.dec for k in ps]})
    vc.check(not out.raised, 'code is generated', out)
    try: P, Z, order, nexus = check_setpos(vc, '\n'.join(out.value), index, comp, ks, ps)
    except BadC as e: return vc.check(False, 'the generated code can be run', str(e))
    Z.other = []
    for k in ks:
        X = Setter(vc, P, Z.var)
        X.at = {f: v for f, v in Z.at.items() if f == k.name}
        check_set(vc, P, X, k, 'a parameter')
    for k in ps:
        X = Setter(vc, P, Z.var)
        X.at = {f: v for f, v in Z.at.items() if f == k.name}
        check_private(vc, P, X, k)
    vc.check(set(Z.at) <= names, 'nothing else is set', lambda: f'{Z.at}')
    check_nexus(vc, nexus.s, index, comp, ks)


def check_nexus(vc, text, index, comp, ks):
    """each parameter is written with its name and value"""
    calls = []
    for l in text.split('\n'):
        if 'mccomp_param_nexus' in l:
            try: calls.append(Parser(l).program()[0].a[0].a[1])
            except BadC as e: return vc.check(False, 'parameters are written to NeXus files', f'{e} {l}')
    vc.check(len(calls) == len(ks), 'parameters are written to NeXus files', lambda: f'{text}')
    if len(calls) != len(ks): return
    for k, a in zip(ks, calls):
        ok = len(a) == 6 and all(x.kind in ('id', 'str', 'call', 'mem', 'num') for x in a) and a[2] == N('str', f'"{k.name}"')
        if ok and k.kind == 'text': ok = a[4] == N('str', k.want[1])
        if ok and k.kind == 'number': ok = a[4].kind == 'str' and decode_c(a[4].a[0]).decode() == str(k.value)
        vc.check(ok and a[1] == N('str', f'"{index:04d}_{comp.name}"'), 'parameters are written to NeXus files', lambda: f'{a} {k.__dict__}')


# ------------------------------------------------------------------ sections of components and instrument
SECS = ('initialize', 'save', 'final', 'display')


def code(mark):
    m = mods()[0]
    b = m.RawC('file.comp', 7, mark + '();')
    b.translated = mark + '();'
    return b


def a_type(vc, n, name, blocks, sizes):
    """a component type with code in some sections.  blocks: section -> number of blocks; sizes: numbers of define, setting, output and private parameters"""
    m, c, i, ii = mods()
    from mccode_antlr.translators.c_listener import CDeclarator
    class Type(c.Comp):
        __hash__ = object.__hash__
        __eq__ = lambda self, o: self is o
    t = bare(Type, name=name)
    t.names, seen = [], []
    def fresh(k, pool):
        x = vc.ident(f'{n}.{k}', pool)
        for y in seen: vc.assume(vc.not_(x == y))
        seen.append(x)
        return x
    for sec, size, pool in zip(('define', 'setting', 'output'), sizes, (('d1', 'd2'), ('s1', 's2', 's3'), ('o1', 'o2'))):
        ps = tuple(m.ComponentParameter(fresh(f'{sec}{j}', pool), expr_of(m, 'double', None)) for j in range(size))
        setattr(t, sec, ps)
        t.names += [p.name for p in ps]
    t.declared = [CDeclarator(fresh(f'private{j}', DNAMES), dtype='double') for j in range(sizes[3])]
    t.names += [d.name for d in t.declared]
    for sec in SECS + ('trace', 'share'): setattr(t, sec, tuple(code(f'code_{name}_{sec}_{j}') for j in range(blocks.get(sec, 0))))
    return t


def some_components(vc, types, order):
    m, c, i, ii = mods()
    out = []
    for j, k in enumerate(order):
        x = bare(i.Instance, name=vc.ident(f'c{j}.name', CNAMES + ('b4', 'mono', 'slit')), type=types[k])
        for y in out: vc.assume(vc.not_(x.name == y.name))
        x.vectors = []
        out.append(x)
    return tuple(out)


def record(P, prog):
    """calls in the order of the text: (function, conditions, name, arguments, macros)"""
    out, macros, skip, after = [], {}, [0], []
    def go(stmts, f, conds):
        for s in stmts:
            if s.kind == 'pp':
                w = s.a[0].split(None, 2)
                if w[0] == '#ifdef' and w[1:2] == ['OPENACC']: skip[0] = 1
                elif w[0] == '#endif': skip[0] = 0
                elif skip[0]: pass
                elif w[0] == '#define': macros[w[1]] = w[2] if len(w) > 2 else ''
                elif w[0] == '#undef': macros.pop(w[1], None)
            elif s.kind == 'function':
                go(s.a[3].a[0], s.a[1], ())
                after.append((s.a[1], dict(macros)))
            elif s.kind == 'block': go(s.a[0], f, conds)
            elif s.kind == 'if':
                go([s.a[1]], f, conds + (s.a[0],))
                if s.a[2] is not None: go([s.a[2]], f, conds + (N('un', '!', s.a[0]),))
            elif s.kind == 'expr':
                x = s.a[0]
                if x.kind == 'call' and x.a[0].kind == 'id': out.append((f, conds, x.a[0].a[0], [strip(a) for a in x.a[1]], dict(macros)))
                else: out.append((f, conds, None, x, dict(macros)))
            elif s.kind == 'return': out.append((f, conds, 'return', strip(s.a[0]) if s.a[0] is not None else None, dict(macros)))
    go(prog, None, ())
    return out, macros, after


def macro_is(P, macros, name, base):
    """the macro name stands for a member: base is e.g. (('id', '_comp'), '->', '_parameters')"""
    f = P.t.flat(name)
    if f not in macros: return False
    Q = Parser(P.t.part(macros[f]))
    n = strip(Q.expr())
    return Q.peek()[0] == 'end' and n == N('mem', '.', N('mem', '->', N('id', base), '_parameters'), f)


KEEP = {'magnify', 'line', 'dashed_line', 'multiline', 'rectangle', 'box', 'circle', 'cylinder', 'sphere', 'cone', 'polygon', 'polyhedron'}


def only(P, macros, names, sec):
    have = {k.split('(')[0] for k in macros}
    return have - {P.t.flat(n) for n in names} <= ({'setpos_getdistance'} | (KEEP if sec == 'display' else set()))


QUIET = ('SIG_MESSAGE', 'DEBUG_INSTR', 'DEBUG_INSTR_END', 'stracpy', 'printf')


def check_class(vc, P, calls, t, sec, marks):
    suffix = {'final': 'finally'}.get(sec, sec)
    f = P.t.flat('class_' + t.name + '_' + suffix)
    mine = [c for c in calls if c[0] == f]
    if not marks: return vc.check(not mine, 'only component types with code have a function for the section', lambda: f'{mine}')
    got = [c for c in mine if c[2] not in QUIET + ('return',)]
    vc.check([c[2] for c in got] == marks and not any(c[1] for c in got), 'the code of a component type is run in order, once', lambda: f'{got}')
    for c in got: vc.check(all(macro_is(P, c[4], n, '_comp') for n in t.names) and only(P, c[4], t.names, sec), 'parameters are those of the component', lambda: f'{c}')
    if sec == 'display':
        pr = [c for c in mine if c[2] == 'printf']
        vc.check(len(pr) == 1 and mine.index(pr[0]) < mine.index(got[0]) and pr[0][3] == [N('str', '"MCDISPLAY: component %s\\n"'), N('mem', '->', N('id', '_comp'), '_name')], 'a component which is displayed is announced', lambda: f'{mine}')


def addr(P, c): return N('un', '&', N('id', '_' + P.t.flat(c.name) + '_var'))


def check_section(vc, text, instr, types, sec, marks):
    """text: of all of a section"""
    t = TextOf(text)
    t.take('#ifdef USE_NEXUS', '#endif')
    P = Parser(t)
    prog = P.program()
    calls, left, after = record(P, prog)
    for t in types: check_class(vc, P, calls, t, sec, [b.translated[:-3] for b in getattr(t, sec)])
    allnames = [n for t in types for n in t.names] + [p.name for p in instr.parameters]
    for f, mac in after: vc.check(only(P, mac, [], sec), 'parameters are defined around the code only', lambda: f'{f} {mac}')
    main = {'initialize': 'init', 'final': 'finally'}.get(sec, sec)
    got = [c for c in calls if c[0] == main and c[2] not in QUIET[:-1] and c[2] is not None]
    code_ = [c for c in got if c[2] in marks]
    vc.check([c[2] for c in code_] == marks and not any(c[1] for c in code_), 'the code of the instrument is run once, in order', lambda: f'{got}')
    for c in code_: vc.check(all(macro_is(P, c[4], p.name, 'instrument') for p in instr.parameters) and only(P, c[4], [p.name for p in instr.parameters], sec), 'instrument parameters are known to the code of the instrument', lambda: f'{c}')
    for c in got:
        if c not in code_: vc.check(only(P, c[4], [], sec), 'parameters are defined around the code only', lambda: f'{c}')
    # what is called, in order
    suffix = {'final': 'finally'}.get(sec, sec)
    want = []
    handle = (N('un', '!', N('id', 'handle')),)
    call = lambda c: ((), P.t.flat('class_' + c.type.name + '_' + suffix), [addr(P, c)])
    if sec == 'save': want.append((handle, 'siminfo_init', [N('id', 'NULL')]))
    if sec == 'final': want += [((), 'siminfo_init', [N('id', 'NULL')]), ((), 'save', [N('id', 'siminfo_file')])]
    if sec == 'display': want.append(((), 'printf', [N('str', '"MCDISPLAY: start\\n"')]))
    want += [((), m_, []) for m_ in marks]
    if sec == 'initialize': want += [((), '_' + P.t.flat(c.name) + '_setpos', []) for c in instr.components]
    for c in instr.components:
        var = N('id', '_' + P.t.flat(c.name) + '_var')
        if getattr(c.type, sec): want.append(call(c))
        elif sec == 'display': want.append(((), 'printf', [N('str', '"MCDISPLAY: component %s\\n"'), N('mem', '.', var, '_name')]))
        if sec == 'final':
            for v in c.vectors:
                place = N('mem', '.', N('mem', '.', var, '_parameters'), P.t.flat(v))
                want.append(((place,), 'free', [place]))
    if sec == 'initialize': want.append(((N('id', 'mcdotrace'),), 'display', []))
    if sec == 'save': want.append((handle, 'siminfo_close', []))
    if sec == 'final': want.append(((), 'siminfo_close', []))
    if sec == 'display': want.append(((), 'printf', [N('str', '"MCDISPLAY: end\\n"')]))
    want.append(((), 'return', N('num', '0')))
    have = [(tuple(strip(x) for x in c[1]), c[2], c[3]) for c in got]
    vc.check(have == want, 'all components in order, after the code of the instrument', lambda: f'{have}\n{want}')


def section_function(sec):
    import mccode_antlr.translators.c_initialise as a, mccode_antlr.translators.c_save as b, mccode_antlr.translators.c_finally as c, mccode_antlr.translators.c_display as d
    return {'initialize': lambda s, dp: a.cogen_initialize(s, dp, None), 'save': b.cogen_save, 'final': c.cogen_finally, 'display': d.cogen_display}[sec]


def run_section(vc, sec, types, comps, instr, marks):
    from mccode_antlr.translators import c_initialise as ci
    old = ci.cogen_comp_setpos
    try:
        if vc.sym: ci.cogen_comp_setpos = lambda index, comp, *a: []
        with contextlib.redirect_stdout(io.StringIO()): out = vc.run(section_function(sec), instr, {t.name: t.declared for t in types})
    finally: ci.cogen_comp_setpos = old
    vc.check(not out.raised, 'code is generated', out)
    if out.raised: return
    try: check_section(vc, out.value, instr, types, sec, marks)
    except BadC as e: vc.check(False, 'the generated code can be run', str(e))


def an_instrument(vc, sec, types, order, nmarks, npars):
    m, c, i, ii = mods()
    comps = some_components(vc, types, order)
    marks = [f'code_instr_{sec}_{j}' for j in range(nmarks)] if sec != 'display' else []
    pars = []
    for j in range(npars):
        x = vc.ident(f'ip{j}', INAMES)
        for y in pars: vc.assume(vc.not_(x == y))
        pars.append(x)
    instr = bare(ii.Instr, name='instrument', components=comps, parameters=tuple(m.InstrumentParameter(x, None, expr_of(m, 'double', None)) for x in pars))
    if sec != 'display': setattr(instr, sec, tuple(code(x) for x in marks))
    return comps, instr, marks


def add_parameters(vc, comps, ptypes, most):
    """parameters of components, vectors are remembered"""
    m = mods()[0]
    for j, x in enumerate(comps):
        ps, seen = [], []
        for l in range(vc.size(f'c{j}.np', 0, most)):
            k = param(vc, m, f'c{j}.p{l}', [], ptypes=ptypes)
            for y in seen: vc.assume(vc.not_(k.name == y))
            seen.append(k.name)
            ps.append(m.ComponentParameter(k.name, k.value))
            if k.kind == 'list': x.vectors.append(k.name)
        x.parameters = tuple(ps)


SECTIONS = {'initialize': [CI + 'cogen_initialize', CI + 'cogen_comp_initialize_class'], 'save': ['src/mccode_antlr/translators/c_save.py cogen_save', 'src/mccode_antlr/translators/c_save.py cogen_comp_save_class'],
            'final': ['src/mccode_antlr/translators/c_finally.py cogen_finally', 'src/mccode_antlr/translators/c_finally.py cogen_comp_finally_class'],
            'display': ['src/mccode_antlr/translators/c_display.py cogen_display', 'src/mccode_antlr/translators/c_display.py cogen_comp_display_class']}


def section_harness(sec):
    @harness('T02', f'section {sec}', SECTIONS[sec] + [CF + 'cogen_parameter_define', CF + 'cogen_parameter_undef'], conc=False, bounded='two component types with up to two blocks, up to three components')
    def h(vc, sec=sec):
        t = [a_type(vc, 't0', 'T0', {sec: vc.size('b0', 0, 2)}, (1, 1, 1, 1)), a_type(vc, 't1', 'T1', {sec: vc.size('b1', 0, 1)}, vc.choice('s1', ((0, 0, 0, 0), (0, 2, 0, 0))))]
        comps, instr, marks = an_instrument(vc, sec, t, vc.choice('order', ((), (0,), (1, 0), (0, 1, 0))), vc.size('nm', 0, 2), vc.choice('nip', (0, 2)))
        if sec == 'final' and len(comps) == 1 and len(marks) == 1 and not t[1].final and not instr.parameters: add_parameters(vc, comps, ('double', 'vector'), 1)
        run_section(vc, sec, [x for x in t if any(c.type is x for c in comps)], comps, instr, marks)
    @harness('T02', f'section {sec}: random', SECTIONS[sec], sym=False, weight=0.5)
    def h2(vc, sec=sec):
        n = vc.size('nt', 1, 3)
        t = [a_type(vc, f't{j}', f'T{j}', {s: vc.size(f'b{j}{s}', 0, 2) for s in SECS}, [vc.size(f's{j}{k}', 0, 2) for k in range(4)]) for j in range(n)]
        comps, instr, marks = an_instrument(vc, sec, t, [vc.size(f'o{j}', 0, n - 1) for j in range(vc.size('nc', 0, 4))], vc.size('nm', 0, 2), vc.size('nip', 0, 2))
        add_parameters(vc, comps, NUM + STR + VEC, 2)
        from mccode_antlr.instr.orientation import Vector, Angles
        zero = expr_of(mods()[0], 'double', 0.0)
        for c in comps: c.at_relative, c.rotate_relative = (Vector(zero, zero, zero), None), (Angles(zero, zero, zero), None)
        run_section(vc, sec, [x for x in t if any(c.type is x for c in comps)], comps, instr, marks)


for _s in SECS: section_harness(_s)


# ------------------------------------------------------------------ sections of any number of parameters, blocks and components
CLASSFN = {s: SECTIONS[s][1].split()[-1] for s in SECS}


def parameter_chunk(vc, S, q, make, base, keys=False):
    """parameters of which macros are made, all at once"""
    from vc.seqs import AbsChunk
    from vc.core import SBool
    ch = AbsChunk(q, make)
    def on_map(chunk, f, cond):
        if not truth_of(vc, SBool(chunk.n > 0)): return []
        x = chunk.some()
        v = f(x)
        if not plain_text(v).lstrip().startswith('#'): return [AbsChunk(f'{q} of', lambda nm: f(chunk.some()), None, chunk.n)]
        kept = cond is None or truth_of(vc, cond(x))
        vc.check(kept, 'all parameters are defined')
        return [macro_row(vc, v, x, base, q)]
    if keys: ch.key_map = on_map
    else: ch.on_map = on_map
    return ch


def plain_text(v):
    """the known part of a text"""
    if isinstance(v, str): return v
    return ''.join(x if isinstance(x, str) else '?' for x in v.parts) if hasattr(v, 'parts') else ''


def there_are(vc, chunks):
    """which of the sequences are not empty"""
    from vc.core import SBool
    return {q for q, s in chunks.items() if truth_of(vc, SBool(s.chunks[0].n > 0))}


def macro_row(vc, text, x, base, q):
    """the line which defines or undefines one parameter -> the one for all"""
    P = Parser(TextOf(text))
    prog = P.program()
    if len(prog) != 1 or prog[0].kind != 'pp': raise BadC('one macro')
    w = prog[0].a[0].split(None, 2)
    vc.check(w[0] in ('#define', '#undef') and w[1] == P.t.flat(x.name), 'the macro of a parameter has its name', lambda: f'{text}')
    if w[0] == '#undef': return f'#undef ALL_{q}'
    vc.check(len(w) == 3 and (macro_is(P, {w[1]: w[2]}, x.name, base) if base != '_particle' else strip(Parser(P.t.part(w[2])).expr()) == N('mem', '->', N('id', base), w[1])), 'the macro of a parameter is the parameter', lambda: f'{text}')
    return f'#define ALL_{q} 1'


def class_function(sec):
    import mccode_antlr.translators.c_initialise as a, mccode_antlr.translators.c_save as b, mccode_antlr.translators.c_finally as c, mccode_antlr.translators.c_display as d
    return {'initialize': a, 'save': b, 'final': c, 'display': d}[sec], CLASSFN[sec]


def code_chunk(vc, S, name, what):
    from vc.seqs import AbsChunk, ASeq
    n = [0]
    def make(k):
        n[0] += 1
        return code(f'code_{name}_{n[0]}')
    def one(w, text, b):
        calls, left, after = record(Parser(TextOf(text)), Parser(TextOf(text)).program())
        vc.check(len(calls) == 1 and calls[0][2] == b.translated[:-3] and not calls[0][4], 'the code is taken as it is', lambda: f'{text}')
    ch = AbsChunk(name, make, Lines_()(S, (what,), one))
    from vc.core import SBool
    vc.assume(SBool(ch.n >= 1))
    return ASeq([ch])


def blocks_of(seq):
    """the statements which stand for the blocks of code, in order (the first of them may be known)"""
    return [m_ for ch in getattr(seq, 'chunks', ()) for m_ in ([b.translated[:-3] for b in ch] if isinstance(ch, list) else ['CODE'])]


def class_harness(sec):
    @harness('T02', f'{sec} of a component type, any number of parameters and blocks', [SECTIONS[sec][1], CF + 'cogen_parameter_define', CF + 'cogen_parameter_undef'], conc=False)
    def h(vc, sec=sec):
        from vc.seqs import ASeq
        from vc.hooks import HOOKS
        from mccode_antlr.translators.c_listener import CDeclarator
        m, c, i, ii = mods()
        S = Spec(vc)
        t = bare(c.Comp, name=vc.ident('type', TNAMES))
        made = []
        def new(q):
            def make(k):
                made.append(vc.ident(f'{q}{len(made)}', PNAMES))
                return CDeclarator(made[-1], dtype='double') if q == 'private' else m.ComponentParameter(made[-1], expr_of(m, 'double', None))
            return make
        chunks = {q: ASeq([parameter_chunk(vc, S, q, new(q), '_comp')]) for q in ('define', 'setting', 'output', 'private')}
        for q in ('define', 'setting', 'output'): setattr(t, q, chunks[q])
        some = vc.choice('has code', (True, False))
        setattr(t, sec, code_chunk(vc, S, 'block', 'CODE') if some else ())
        mod, fn = class_function(sec)
        out = vc.run(getattr(mod, fn), t, chunks['private'])
        vc.check(not out.raised, 'code is generated', out)
        if out.raised: return
        if not some: return vc.check(len(out.value) == 0, 'only component types with code have a function for the section', out)
        try:
            P = Parser(TextOf(HOOKS.mcall('\n', 'join', out.value)))
            f = P.t.flat('class_' + t.name + '_' + {'final': 'finally'}.get(sec, sec))
            calls, left, after = record(P, P.program())
            got = [x for x in calls if x[2] not in QUIET + ('return',)]
            vc.check(all(x[0] == f for x in calls) and [x[2] for x in got] == blocks_of(getattr(t, sec)) and not any(x[1] for x in got), 'the code of a component type is run in order, once', lambda: f'{calls}')
            for x in got: vc.check(set(x[4]) == {f'ALL_{q}' for q in there_are(vc, chunks)}, 'parameters are those of the component', lambda: f'{got}')
            if not got: return
            vc.check(len(after) == 1 and not left, 'parameters are defined around the code only', lambda: f'{left}')
            if sec == 'display':
                pr = [x for x in calls if x[2] == 'printf']
                vc.check(len(pr) == 1 and calls.index(pr[0]) < calls.index(got[0]) and pr[0][3] == [N('str', '"MCDISPLAY: component %s\\n"'), N('mem', '->', N('id', '_comp'), '_name')], 'a component which is displayed is announced', lambda: f'{calls}')
        except BadC as e: vc.check(False, 'the generated code can be run', str(e))


def main_harness(sec):
    @harness('T02', f'{sec} of any number of components', [SECTIONS[sec][0]], conc=False)
    def h(vc, sec=sec):
        from vc.seqs import AbsChunk, ASeq
        from vc.core import SBool, Unsupported
        from vc.hooks import HOOKS
        m, c, i, ii = mods()
        S, Loop = Spec(vc), Lines_()
        suffix = {'final': 'finally'}.get(sec, sec)
        ids, pending, declared = [0], [], {}
        def number(): ids[0] += 1; return ids[0]
        # types, and their functions
        class Type(c.Comp):
            __hash__ = object.__hash__
            __eq__ = lambda self, o: self is o
        def make_type(k):
            t = bare(Type, name=vc.ident(f'type{number()}', TNAMES))
            setattr(t, sec, (code('code_t'),) if vc.choice(f'type{ids[0]} has code', (True, False)) else ())
            declared[id(t)] = (t, object())
            return t
        class Declared:
            __vc_sym__ = True
            def __getitem__(self, name):
                for t, d in declared.values():
                    if name is t.name: return d
                raise Unsupported('another component type')
        D = Declared()
        def class_stub(t, d):
            pending.append(('class', t, d))
            return [f'CLASS_{len(pending)}();']
        def setpos_stub(index, comp, last, source, dp):
            pending.append(('setpos', index, comp, source, dp))
            return [f'CLASS_{len(pending)}();']
        def marked(text):
            P = Parser(TextOf(text))
            calls, _, _ = record(P, P.program())
            vc.check(len(calls) == 1 and str(calls[0][2]).startswith('CLASS_') and not calls[0][4], 'one function for each', lambda: f'{text}')
            return pending[int(calls[0][2][6:]) - 1]
        def one_type(what, text, t):
            k, x, d = marked(text)
            vc.check(k == 'class' and x is t and d is declared[id(t)][1], 'the function of a component type', lambda: f'{text}')
        types = ASeq([AbsChunk('types', make_type, Loop(S, ('TYPES',), one_type))])
        S.placeholder['TYPES'] = 'void TYPES(void) {\n}'
        S.placeholder['FUNCTIONS'] = 'void FUNCTIONS(void) {\n}'
        # parameters of the instrument
        S.placeholder['DEFINE'], S.placeholder['UNDEF'] = '#define ALL_parameters 1', '#undef ALL_parameters'
        def one_par(what, text, x):
            line = macro_row(vc, text, x, 'instrument', 'parameters')
            vc.check(line == S.placeholder[what], 'parameters are defined around the code only', lambda: f'{what} {text}')
        pars = ASeq([AbsChunk('parameters', lambda k: m.InstrumentParameter(vc.ident(f'ip{number()}', INAMES), None, expr_of(m, 'double', None)), Loop(S, ('DEFINE', 'UNDEF'), one_par))])
        # components
        def make_comp(k):
            x = bare(i.Instance, name=vc.ident(f'comp{number()}', CNAMES), type=make_type(k))
            if sec == 'final':
                S2 = Spec(vc)
                def make_par(k):
                    q = param(vc, m, f'p{number()}', [], ptypes=('double', 'string', 'vector'))
                    z = m.ComponentParameter(q.name, q.value)
                    z.is_list = q.kind == 'list'
                    return z
                def one_free(what, text, z):
                    P = Parser(TextOf(text))
                    calls, _, _ = record(P, P.program())
                    have = [(tuple(strip(y) for y in w[1]), w[2], w[3]) for w in calls]
                    place = N('mem', '.', N('mem', '.', N('id', '_' + P.t.flat(x.name) + '_var'), '_parameters'), P.t.flat(z.name))
                    vc.check(have == ([((place,), 'free', [place])] if z.is_list else []), 'vectors of components are freed, once', lambda: f'{have}')
                x.parameters = ASeq([AbsChunk(f'pars{ids[0]}', make_par, Loop(S2, ('FREES',), one_free))])
            return x
        def one_comp(what, text, elem):
            k, x = elem if isinstance(elem, tuple) else (None, elem)
            if what == 'FUNCTIONS':
                g = marked(text)
                return vc.check(g[0] == 'setpos' and k is not None and truth_of(vc, vc.eq(g[1], k)) and g[2] is x and g[3] is instr and g[4] is D, 'the function which sets a component', lambda: f'{g}')
            P = Parser(TextOf(text))
            calls, _, _ = record(P, P.program())
            have = [(w[1], w[2], w[3]) for w in calls]
            if what == 'SETPOS': return vc.check(have == [((), '_' + P.t.flat(x.name) + '_setpos', [])], 'each component is set', lambda: f'{have}')
            want = []
            if getattr(x.type, sec): want.append(((), P.t.flat('class_' + x.type.name + '_' + suffix), [addr(P, x)]))
            elif sec == 'display': want.append(((), 'printf', [N('str', '"MCDISPLAY: component %s\\n"'), N('mem', '.', N('id', '_' + P.t.flat(x.name) + '_var'), '_name')]))
            if sec == 'final': want.append(((), 'FREES', []))
            vc.check(have == want, 'the code of each component is run, for itself', lambda: f'{have} {want}')
        ch = AbsChunk('components', make_comp, Loop(S, ('FUNCTIONS', 'SETPOS', 'CALLS') if sec == 'initialize' else ('CALLS',), one_comp))
        def on_map(chunk, f, cond):
            if not truth_of(vc, SBool(chunk.n > 0)): return []
            text = f(chunk.some())
            vc.check(isinstance(text, str) and text.startswith('#pragma acc update') or text.parts[0].startswith('#pragma acc update'), 'only pragmas are made of components elsewhere', lambda: f'{text}')
            return ['#pragma acc update']
        ch.on_map = on_map
        comps = ASeq([ch])
        some = sec != 'display' and vc.choice('the instrument has code', (True, False))
        instr = bare(ii.Instr, name='instrument', components=comps, parameters=pars)
        if sec != 'display': setattr(instr, sec, code_chunk(vc, S, 'block', 'CODE') if some else ())
        instr.component_types = lambda: types
        mod, fn = class_function(sec)
        import mccode_antlr.translators.c_initialise as ci
        old = getattr(mod, fn), ci.cogen_comp_setpos
        try:
            setattr(mod, fn, class_stub)
            ci.cogen_comp_setpos = setpos_stub
            with contextlib.redirect_stdout(io.StringIO()): out = vc.run(section_function(sec), instr, D)
        finally:
            setattr(mod, fn, old[0])
            ci.cogen_comp_setpos = old[1]
        vc.check(not out.raised, 'code is generated', out)
        if out.raised: return
        try:
            P = Parser(TextOf(out.value))
            calls, left, after = record(P, P.program())
            main = {'initialize': 'init', 'final': 'finally'}.get(sec, sec)
            fs = [f for f, _ in after]
            vc.check(sorted(fs) == sorted(['TYPES', main] + (['FUNCTIONS'] + [f for f in fs if 'getdistance' in f] if sec == 'initialize' else [])) and fs[-1] == main, 'each component type has its function, before it is used', lambda: f'{fs}')
            for f, mac in after:
                have = {k.split('(')[0] for k in mac}
                vc.check(have <= ({'setpos_getdistance'} | (KEEP if sec == 'display' else set())), 'parameters are defined around the code only', lambda: f'{f} {mac}')
                if sec == 'display' and f == 'TYPES': vc.check(all(mac.get(k) == 'mcdis_' + k for k in KEEP), 'figures are those of the runtime', lambda: f'{mac}')
                if sec == 'display' and f == main: vc.check(not have & KEEP, 'figures are those of the runtime', lambda: f'{mac}')
            got = [x for x in calls if x[0] == main and x[2] not in QUIET[:-1] and x[2] is not None]
            mine = blocks_of(getattr(instr, sec, ())) if sec != 'display' else []
            for x in got: vc.check(({'ALL_parameters'} if x[2] in mine else set()) == {k.split('(')[0] for k in x[4]} - {'setpos_getdistance'}, 'parameters are defined around the code only', lambda: f'{x}')
            handle = (N('un', '!', N('id', 'handle')),)
            want = []
            if sec == 'save': want.append((handle, 'siminfo_init', [N('id', 'NULL')]))
            if sec == 'final': want += [((), 'siminfo_init', [N('id', 'NULL')]), ((), 'save', [N('id', 'siminfo_file')])]
            if sec == 'display': want.append(((), 'printf', [N('str', '"MCDISPLAY: start\\n"')]))
            want += [((), x, []) for x in mine]
            if sec == 'initialize': want.append(((), 'SETPOS', []))
            want.append(((), 'CALLS', []))
            if sec == 'initialize': want.append(((N('id', 'mcdotrace'),), 'display', []))
            if sec == 'save': want.append((handle, 'siminfo_close', []))
            if sec == 'final': want.append(((), 'siminfo_close', []))
            if sec == 'display': want.append(((), 'printf', [N('str', '"MCDISPLAY: end\\n"')]))
            want.append(((), 'return', N('num', '0')))
            have = [(tuple(strip(y) for y in x[1]), x[2], x[3]) for x in got]
            vc.check(have == want, 'all components in order, after the code of the instrument', lambda: f'{have}\n{want}')
        except BadC as e: vc.check(False, 'the generated code can be run', str(e))


for _s in SECS:
    class_harness(_s)
    main_harness(_s)


# ------------------------------------------------------------------ TRACE
FLAGS_ = ('ABSORBED', 'SCATTERED', 'RESTORE')


@harness('T02', 'trace functions', [CT + 'cogen_trace_section', CT + 'cogen_comp_trace_class', CF + 'cogen_parameter_define', CF + 'cogen_parameter_undef'],
         bounded='two component types, up to three components with EXTEND')
def h_trace(vc):
    from mccode_antlr.translators import c_trace as ct
    from mccode_antlr.translators.c_listener import CDeclarator
    m, c, i, ii = mods()
    mcstas = vc.choice('mcstas', (True, False))
    n = 2 if vc.sym else vc.size('nt', 1, 3)
    sizes = lambda j: ((1, 1, 1, 1), (0, 0, 0, 0))[j] if vc.sym else [vc.size(f's{j}{k}', 0, 2) for k in range(4)]
    t = [a_type(vc, f't{j}', f'T{j}', {'trace': vc.size(f'b{j}', 0, (2, 1)[j] if vc.sym else 2)}, sizes(j)) for j in range(n)]
    order = vc.choice('order', ((0,), (1, 0), (0, 1, 0))) if vc.sym else [vc.size(f'o{j}', 0, n - 1) for j in range(vc.size('nc', 0, 4))]
    comps = some_components(vc, t, order)
    for j, x in enumerate(comps): x.extend = tuple(code(f'code_ext{j}_{k}') for k in range(vc.size(f'e{j}', 0, 1 if vc.sym else 2)))
    uservars = [CDeclarator(f'u{j}', dtype='double') for j in range(vc.size('nu', 0, 1))]
    types = [x for x in t if any(y.type is x for y in comps)]
    own = {x.name: [CDeclarator(f'w{j}_{x.name}', dtype='int') for j in range(1)] for x in types}
    instr = bare(ii.Instr, name='instrument', components=comps)
    out = vc.run(ct.cogen_trace_section, mcstas, instr, {x.name: x.declared for x in types}, uservars, own)
    vc.check(not out.raised, 'code is generated', out)
    if out.raised: return
    try: check_trace(vc, out.value, comps, types, uservars, own)
    except BadC as e: vc.check(False, 'the generated code can be run', str(e))


def check_trace(vc, text, comps, types, uservars, own):
    P = Parser(TextOf(text))
    prog = P.program()
    calls, left, after = record(P, prog)
    fs = [s for s in prog if s.kind == 'function']
    want = [x for x in types if x.trace or any(y.type is x and y.extend for y in comps)]
    vc.check(sorted(s.a[1] for s in fs) == sorted('class_' + x.name + '_trace' for x in want), 'component types with code have a TRACE function', lambda: f'{fs}')
    for f, mac in after: vc.check(not mac, 'parameters are defined around the code only', lambda: f'{f} {mac}')
    for x in want:
        mine = [y for y in calls if y[0] == 'class_' + x.name + '_trace']
        first = mine[0]
        ok, n, flags = first[2] is None and first[3].kind == 'assign', first[3], []
        while ok and n.kind == 'assign': flags.append(strip(n.a[1])); n = n.a[2]
        vc.check(ok and sorted(y.a[0] for y in flags if y.kind == 'id') == sorted(FLAGS_) and strip(n) == N('num', '0'), 'what happened to the particle is reset first', lambda: f'{first}')
        got = [y for y in mine if y[2] is not None and y[2].startswith('code_')]
        expect = [(b.translated[:-3], None) for b in x.trace]
        for k, y in enumerate(comps):
            if y.type is x: expect += [(b.translated[:-3], k) for b in y.extend]
        vc.check([y[2] for y in got] == [e[0] for e in expect], 'TRACE of the component type, then EXTEND of its components', lambda: f'{got} {expect}')
        uv = [v.name for v in uservars + own[x.name]]
        for y, (mark, k) in zip(got, expect):
            vc.check(all(macro_is(P, y[4], p, '_comp') for p in x.names), 'parameters are those of the component', lambda: f'{y}')
            have = {q.split('(')[0] for q in y[4]} - {P.t.flat(p) for p in x.names}
            if k is None: vc.check(not y[1] and not have, 'TRACE is run for all of its components', lambda: f'{y}')
            else:
                cond = [strip(q) for q in y[1]]
                ok = len(cond) == 1 and cond[0].kind == 'bin' and cond[0].a[0] == '=='
                if ok:
                    a, b = strip(cond[0].a[1]), strip(cond[0].a[2])
                    if a.kind == 'num': a, b = b, a
                    ok = a == N('mem', '->', N('id', '_comp'), '_index') and b == N('num', str(k + 1))
                vc.check(ok, 'EXTEND is run for its component only', lambda: f'{y}')
                vc.check(have == set(uv) and all(strip(Parser(y[4][v]).expr()) == N('mem', '->', N('id', '_particle'), v) for v in uv), 'user variables in EXTEND', lambda: f'{y}')
        last = mine[-1]
        vc.check([y[3] for y in mine if y[2] == 'return'] == [N('id', '_comp')] and last[2] == 'return' and not last[1], 'the component is returned', lambda: f'{last}')


@harness('T02', 'trace function of a component type, any number of components, parameters and blocks', [CT + 'cogen_comp_trace_class', CF + 'cogen_parameter_define', CF + 'cogen_parameter_undef'], conc=False, weight=3, max_paths=20000)
def h_trace_class(vc):
    from vc.seqs import AbsChunk, ASeq
    from vc.core import SBool
    from mccode_antlr.translators import c_trace as ct
    from mccode_antlr.translators.c_listener import CDeclarator
    m, c, i, ii = mods()
    S, Loop = Spec(vc), Lines_()
    class Type(c.Comp):
        __hash__ = object.__hash__
        __eq__ = lambda self, o: self is o
    t = bare(Type, name=vc.ident('type', TNAMES))
    ids = [0]
    def number(): ids[0] += 1; return ids[0]
    def new(q, pool):
        def make(k):
            x = vc.ident(f'{q}{number()}', pool)
            return m.ComponentParameter(x, expr_of(m, 'double', None)) if q in ('define', 'setting', 'output') else CDeclarator(x, dtype='double')
        return make
    chunks = {q: ASeq([parameter_chunk(vc, S, q, new(q, PNAMES), '_comp')]) for q in ('define', 'setting', 'output', 'private')}
    for q in ('define', 'setting', 'output'): setattr(t, q, chunks[q])
    user = {q: ASeq([parameter_chunk(vc, S, q, new(q, DNAMES), '_particle', True)]) for q in ('instr_user', 'comp_user')}
    some = vc.choice('has code', (True, False))
    t.trace = code_chunk(vc, S, 'block', 'CODE') if some else ()
    nested = {}
    def make_comp(k):
        j = number()
        mine = vc.choice(f'of this type {j}', (True, False))
        x = bare(i.Instance, name=vc.ident(f'comp{j}', CNAMES), type=t if mine else bare(Type, name=vc.ident(f'type{j}', TNAMES)))
        if not mine: vc.assume(vc.not_(vc.eq(x.type.name, t.name)))
        x.vc_spec = Spec(vc)
        x.extend = code_chunk(vc, x.vc_spec, f'ext{j}', 'EXT') if vc.choice(f'has EXTEND {j}', (True, False)) else ()
        return x
    def one_comp(what, text, elem):
        xs = [e for e in (elem if isinstance(elem, tuple) else (elem,)) if isinstance(e, i.Instance)]
        x = xs[0]
        P = Parser(TextOf(text))
        calls, left, _ = record(P, P.program())
        if x.type is not t or not x.extend: return vc.check(not calls, 'EXTEND is run for its component only', lambda: f'{text}')
        pos = [p for y, p in ch.positions if y is x]
        want = [b if b != 'CODE' else 'EXT' for b in blocks_of(x.extend)]
        vc.check([y[2] for y in calls] == want and not left and not any(y[4] for y in calls), 'EXTEND of a component', lambda: f'{calls}')
        for y in calls:
            cond = [strip(q) for q in y[1]]
            ok = len(cond) == 1 and cond[0].kind == 'bin' and cond[0].a[0] == '==' and len(pos) > 0
            if ok:
                a, b = strip(cond[0].a[1]), strip(cond[0].a[2])
                if b == N('mem', '->', N('id', '_comp'), '_index'): a, b = b, a
                ok = a == N('mem', '->', N('id', '_comp'), '_index') and is_number(vc, P, b, pos[-1] + 1)
            vc.check(ok, 'EXTEND is run for its component only', lambda: f'{y}')
    ch = AbsChunk('components', make_comp, Loop(S, ('EXTENDS',), one_comp))
    ch.mapped_fold, ch.positions = ch.fold, []
    instr = bare(ii.Instr, name='instrument', components=ASeq([ch]))
    out = vc.run(ct.cogen_comp_trace_class, vc.choice('mcstas', (True, False)), t, instr, chunks['private'], user['instr_user'], user['comp_user'])
    vc.check(not out.raised, 'code is generated', out)
    if out.raised: return
    def no_extend():
        if not truth_of(vc, SBool(ch.n > 0)): return
        x = getattr(ch, 'enumerated', ch).some()
        x = x[1] if isinstance(x, tuple) else x
        vc.check(x.type is not t or not x.extend, 'EXTEND of all components', out)
    if isinstance(out.value, str) and not out.value.strip():
        # then there is nothing to run
        if some:
            b = t.trace.first()
            return vc.check(False, 'component types with code have a TRACE function', out)
        return no_extend()
    try:
        if 'EXTENDS' not in S.passed: no_extend()
        check_trace_class(vc, S, out.value, t, chunks, user, some)
    except BadC as e: vc.check(False, 'the generated code can be run', str(e))


def check_trace_class(vc, S, text, t, chunks, user, some):
    P = Parser(TextOf(text))
    prog = P.program()
    calls, left, after = record(P, prog)
    f = P.t.flat('class_' + t.name + '_trace')
    vc.check([s.a[1] for s in prog if s.kind == 'function'] == [f], 'one function', lambda: f'{prog}')
    vc.check(not left and after == [(f, {})], 'parameters are defined around the code only', lambda: f'{left}')
    first = calls[0]
    ok, n, flags = first[2] is None and first[3].kind == 'assign', first[3], []
    while ok and n.kind == 'assign': flags.append(strip(n.a[1])); n = n.a[2]
    vc.check(ok and sorted(y.a[0] for y in flags if y.kind == 'id') == sorted(FLAGS_) and strip(n) == N('num', '0'), 'what happened to the particle is reset first', lambda: f'{first}')
    blocks = blocks_of(t.trace) if some else []
    got = [y for y in calls if y[2] in blocks or y[2] == 'EXTENDS']
    ext = [y for y in got if y[2] == 'EXTENDS']
    vc.check([y[2] for y in got] == blocks + ['EXTENDS'] * len(ext) and len(ext) <= 1 and (len(ext) or 'EXTENDS' not in S.passed), 'TRACE of the component type, then EXTEND of its components', lambda: f'{got}')
    have = {f'ALL_{q}' for q in there_are(vc, chunks)}
    for y in got:
        vc.check(not y[1], 'TRACE is run for all of its components', lambda: f'{y}')
        vc.check(set(y[4]) == have | ({f'ALL_{q}' for q in there_are(vc, user)} if y[2] == 'EXTENDS' else set()), 'parameters are those of the component, and user variables in EXTEND', lambda: f'{y}')
    last = calls[-1]
    vc.check([y[3] for y in calls if y[2] == 'return'] == [N('id', '_comp')] and last[2] == 'return' and not last[1], 'the component is returned', lambda: f'{last}')


@harness('T02', 'trace functions of any number of component types', [CT + 'cogen_trace_section'], conc=False)
def h_trace_types(vc):
    from vc.seqs import AbsChunk, ASeq
    from vc.core import SBool, Unsupported
    from mccode_antlr.translators import c_trace as ct
    m, c, i, ii = mods()
    S, Loop = Spec(vc), Lines_()
    class Type(c.Comp):
        __hash__ = object.__hash__
        __eq__ = lambda self, o: self is o
    ids, own = [0], {}
    def make(k):
        ids[0] += 1
        t = bare(Type, name=vc.ident(f'type{ids[0]}', TNAMES))
        own[id(t)] = (t, object(), object())
        return t
    class Of:
        __vc_sym__ = True
        def __init__(self, k): self.k = k
        def __getitem__(self, name):
            for v in own.values():
                if name is v[0].name: return v[self.k]
            raise Unsupported('another component type')
    mcstas, uservars, calls = object(), object(), []
    def stub(*args):
        calls.append(args)
        return f'CLASS_{len(calls)}();'
    def one(what, text, t):
        r, _, _ = record(*(lambda P: (P, P.program()))(Parser(TextOf(text))))
        vc.check(len(r) == 1 and str(r[0][2]).startswith('CLASS_'), 'one function for each', lambda: f'{text}')
        a = calls[int(r[0][2][6:]) - 1]
        vc.check(len(a) == 6 and a[0] is mcstas and a[1] is t and a[2] is instr and a[3] is own[id(t)][1] and a[4] is uservars and a[5] is own[id(t)][2], 'the function of a component type', lambda: f'{a}')
    ch = AbsChunk('types', make, Loop(S, ('TYPES',), one))
    def on_map(chunk, f, cond):
        if not truth_of(vc, SBool(chunk.n > 0)): return []
        t = chunk.some()
        vc.check(cond is None or truth_of(vc, cond(t)), 'each component type has its function')
        one('TYPES', f(t), t)
        S.passed.append('TYPES')
        return ['TYPES();']
    ch.on_map = on_map
    instr = bare(ii.Instr, name='instrument')
    instr.component_types = lambda: ASeq([ch])
    old = ct.cogen_comp_trace_class
    try:
        ct.cogen_comp_trace_class = stub
        out = vc.run(ct.cogen_trace_section, mcstas, instr, Of(1), uservars, Of(2))
    finally: ct.cogen_comp_trace_class = old
    vc.check(not out.raised, 'code is generated', out)
    if out.raised: return
    try:
        P = Parser(TextOf(out.value))
        r, left, _ = record(P, P.program())
    except BadC as e: return vc.check(False, 'the generated code can be run', str(e))
    vc.check([x[2] for x in r] == ['TYPES'] * len(S.passed) and not left, 'each component type has its function, once', lambda: f'{r}')
    if not S.passed: vc.check(not truth_of(vc, SBool(ch.n > 0)), 'each component type has its function, once')


# ------------------------------------------------------------------ lookups by name
class Look:
    """what a function of one name returns"""
    def __init__(self, vc, P, f, args):
        self.vc, self.P, self.f, self.args = vc, P, f, args
    def run(self, which):
        """which(text literal) -> is the name this one?"""
        var = self.args
        for s in self.f.a[3].a[0]:
            if s.kind == 'pp': continue
            if s.kind == 'return': return strip(s.a[0])
            if s.kind == 'if' and s.a[2] is None:
                c = strip(s.a[0])
                if c.kind == 'bin' and c.a[0] == '==' and strip(c.a[2]) == N('num', '0'): c = N('un', '!', c.a[1])
                if c.kind == 'un' and c.a[0] == '!' and strip(c.a[1]).kind == 'call' and strip(c.a[1]).a[0] == N('id', 'strcmp'):
                    a, b = [strip(q) for q in strip(c.a[1]).a[1]]
                    if a.kind == 'str': a, b = b, a
                    if a == N('id', var) and b.kind == 'str':
                        r = s.a[1]
                        if r.kind == 'block' and len(r.a[0]) == 1: r = r.a[0][0]
                        if r.kind != 'return': raise BadC('return')
                        if which(b.a[0]): return strip(r.a[0])
                        continue
            raise BadC(f'{s}')
        raise BadC('nothing is returned')


def plain_addr(n):
    while n.kind == 'cast': n = strip(n.a[1])
    return strip(n.a[1]) if n.kind == 'un' and n.a[0] == '&' else n


@harness('T02', 'lookups by name', [CM + 'cogen_getvarpars_fct', CM + 'cogen_getparticlevar_fct', CM + 'cogen_getcompindex_fct'], bounded='up to three components and user variables')
def h_lookup(vc):
    from mccode_antlr.translators import c_macros as cm
    from mccode_antlr.translators.c_listener import CDeclarator
    m, c, i, ii = mods()
    types = [a_type(vc, 't0', 'T0', {}, (0, 0, 0, 0))]
    comps = some_components(vc, types, [0] * vc.size('nc', 0, 3))
    instr = bare(ii.Instr, name='instrument', components=comps)
    uv = []
    for j in range(vc.size('nu', 0, 3)):
        x = vc.ident(f'u{j}', XNAMES + PNAMES)
        for y in uv: vc.assume(vc.not_(x == y.name))
        uv.append(CDeclarator(x, dtype='double'))
    for fn, arg, things, name in ((cm.cogen_getvarpars_fct, instr, comps, '_getvar_parameters'), (cm.cogen_getparticlevar_fct, uv, uv, '_get_particle_var'), (cm.cogen_getcompindex_fct, instr, comps, '_getcomp_index')):
        out = vc.run(fn, arg)
        vc.check(not out.raised, 'code is generated', out)
        if out.raised: return
        try:
            P = Parser(TextOf(out.value))
            f = block_of(P, P.program(), name)
            vc.check(f.a[1] == name, 'the function for names', lambda: f'{f}')
            L = Look(vc, P, f, f.a[2].replace('*', ' ').split(',')[0].split()[-1])
            for k, x in enumerate(list(things) + [None]):
                r = L.run(lambda lit: x is not None and truth_of(vc, vc.eq(P.t.rope(lit), '"' + x.name + '"')))
                if x is None: want = r == N('num', '0') or r == N('un', '-', N('num', '1')) and name == '_getcomp_index'
                elif name == '_getvar_parameters': want = plain_addr(r) == N('mem', '.', N('id', '_' + P.t.flat(x.name) + '_var'), '_parameters')
                elif name == '_get_particle_var': want = plain_addr(r) == N('mem', '->', N('id', 'p'), P.t.flat(x.name))
                else: want = r == N('num', str(1 + k))
                vc.check(want, 'names are found, others are not', lambda: f'{name} {x} {r}')
                if x is None and name == '_getcomp_index': vc.check(r != N('num', '0'), 'names are found, others are not')
        except BadC as e: vc.check(False, 'the generated code can be run', str(e))


def truth_of(vc, b): return True if b else False


@harness('T02', 'lookups by name, of any number of them', [CM + 'cogen_getvarpars_fct', CM + 'cogen_getparticlevar_fct', CM + 'cogen_getcompindex_fct'], conc=False)
def h_lookup_all(vc):
    from mccode_antlr.translators import c_macros as cm
    from mccode_antlr.translators.c_listener import CDeclarator
    from vc.seqs import AbsChunk, ASeq
    from vc.core import Unsupported
    from vc.hooks import HOOKS
    m, c, i, ii = mods()
    name = vc.choice('function', ('_getvar_parameters', '_get_particle_var', '_getcomp_index'))
    t = bare(c.Comp, name='T0')
    S = Spec(vc)
    join = lambda *ls: HOOKS.mcall('\n', 'join', list(ls))
    made = []
    def make(n):
        k = f'x{len(made)}'
        made.append(CDeclarator(vc.ident(k, XNAMES + PNAMES), dtype='double') if name == '_get_particle_var' else bare(i.Instance, name=vc.ident(k, CNAMES), type=t))
        return made[-1]
    HERE = '"all of them"'
    def argument(head): return head[:head.index('{')].split('(')[1].split(')')[0].replace('*', ' ').split(',')[0].split()[-1]
    def look(text, which):
        P = Parser(TextOf(text))
        f = block_of(P, P.program(), name)
        vc.check(f.a[1] == name, 'the function for names', lambda: f'{f}')
        return P, Look(vc, P, f, f.a[2].replace('*', ' ').split(',')[0].split()[-1]).run(lambda lit: truth_of(vc, which(P, lit)))
    def one(what, text, elem):
        k, x = elem if isinstance(elem, tuple) else (None, elem)
        whole = join(S.head, text, 'return OTHER;\n}')
        P, r = look(whole, lambda P, lit: vc.eq(P.t.rope(lit), '"' + x.name + '"'))
        if name == '_getvar_parameters': ok = plain_addr(r) == N('mem', '.', N('id', '_' + P.t.flat(x.name) + '_var'), '_parameters')
        elif name == '_get_particle_var': ok = plain_addr(r) == N('mem', '->', N('id', 'p'), P.t.flat(x.name))
        else: ok = k is not None and is_number(vc, P, r, 1 + k)
        vc.check(ok, 'names are found', lambda: f'{name} {x} {k} {r}')
        y = vc.ident('another name', XNAMES + PNAMES)
        vc.assume(vc.not_(y == x.name))
        P, r = look(whole, lambda P, lit: vc.eq(P.t.rope(lit), '"' + y + '"'))
        vc.check(r == N('id', 'OTHER'), 'others are not found', lambda: f'{name} {x} {r}')
    Base = Lines_()
    def start(head):
        S.head = head
        S.placeholder['ROWS'] = f'if (!strcmp({argument(head)}, {HERE})) return FOUND;'
    class Rows(Base):
        def enter(self, loop, env):
            super().enter(loop, env)
            if S.passed: raise Unsupported('one more loop')
            start('\n'.join(plain(x) for x in env[self.var]))
    from .t01 import plain
    ch = AbsChunk('thing', make, Rows(S, ('ROWS',), one))
    instr = bare(ii.Instr, name='instrument', components=ASeq([ch]))
    fn = {'_getvar_parameters': cm.cogen_getvarpars_fct, '_get_particle_var': cm.cogen_getparticlevar_fct, '_getcomp_index': cm.cogen_getcompindex_fct}[name]
    out = vc.run(fn, ASeq([ch]) if name == '_get_particle_var' else instr)
    vc.check(not out.raised, 'code is generated', out)
    if out.raised: return
    try:
        _, r = look(out.value, lambda P, lit: P.t.rope(lit) == HERE)
        vc.check(r == N('id', 'FOUND'), 'names are looked for', lambda: f'{r}')
        _, r = look(out.value, lambda P, lit: False)
        vc.check(r == N('un', '-', N('num', '1')) if name == '_getcomp_index' else r == N('num', '0'), 'others are not found', lambda: f'{r}')
    except BadC as e: vc.check(False, 'the generated code can be run', str(e))


@harness('T02', 'texts in C', [UT + ' escape_str_for_c'], sym=False, weight=0.5)
def h_escape(vc):
    from mccode_antlr.common.utilities import escape_str_for_c
    s = vc.text('text', pool=('a"b', 'c\\d', 'µ1', '\x01f', '日本7', 'two\nlines', 'tab\t', '\x7f0', 'x\r\ny', '??/', "it's", '%s'))
    out = vc.run(escape_str_for_c, s)
    vc.check(not out.raised, 'texts can be written', out)
    try: got = decode_c('"' + out.value + '"')
    except BadC as e: return vc.check(False, 'texts in C are the ones which are meant', str(e))
    vc.check(got == s.encode() and '\n' not in out.value, 'texts in C are the ones which are meant', lambda: f'{s!r} {out.value!r}')


# ------------------------------------------------------------------ declarations
def structs(text):
    """(structures: name -> [(type, name, dimensions)], the rest of the text)"""
    text = re.sub(r'/\*.*?\*/|//[^\n]*', ' ', text, flags=re.S)
    out = {}
    def one(m):
        if m[1] in out: raise BadC(f'struct {m[1]} twice')
        out[m[1]] = members(m[2])
        return f'struct {m[1]} {m[3]}'
    rest = re.sub(rf'struct\s+([\w{A}]+)\s*\{{(.*?)\}}([^;]*);', lambda m: one(m) + ';', text, flags=re.S)
    return out, rest


def members(body):
    out = []
    for d in body.split(';'):
        if not d.strip(): continue
        first, *more = [x.strip() for x in d.split(',')]
        m = re.fullmatch(rf'(.*?[\w{A}\s*])\s*([\w{A}]+)\s*((?:\[[^\]]*\])*)', first, re.S)
        if not m or not m[1].strip(): raise BadC(f'a member {d!r}')
        t = ' '.join(m[1].replace('*', ' * ').split())
        out.append((t, m[2], m[3].replace(' ', '')))
        for x in more:
            k = re.fullmatch(rf'(\**)\s*([\w{A}]+)\s*((?:\[[^\]]*\])*)', x)
            if not k: raise BadC(f'a member {d!r}')
            out.append((t.rstrip(' *') + (' ' + ' '.join(k[1]) if k[1] else ''), k[2], k[3].replace(' ', '')))
    if len({n for t, n, d in out}) != len(out): raise BadC(f'members with the same name: {out}')
    return out


MEMBER = {'double': ('double', ''), 'int': ('int', ''), 'string': ('char', '[16384]'), 'vector': ('double *', ''), 'ivector': ('int *', '')}


def rest_of_type(vc, T, ss, f, tn):
    mine = {n: (t_, d) for t_, n, d in ss[f'_struct_{f}']}
    fixed = {'_index': ('long', ''), '_position_absolute': ('Coords', ''), '_position_relative': ('Coords', ''), '_rotation_absolute': ('Rotation', ''), '_rotation_relative': ('Rotation', ''), '_rotation_is_identity': ('int', ''),
             '_position_relative_is_zero': ('int', ''), '_parameters': (f'_class_{f}_parameters', '')}
    vc.check(all(mine.get(k) == v for k, v in fixed.items()) and set(mine) == set(fixed) | {'_name', '_type'}, 'members of all components', lambda: f'{mine}')
    vc.check(mine['_name'] == ('char', '[256]') and mine['_type'][0] == 'char', 'members of all components', lambda: f'{mine}')
    from vc import hooks
    n = number_of(vc, T.rope(mine['_type'][1][1:-1]))
    vc.check(n >= (hooks.HOOKS.b_len(tn) if vc.sym else len(tn)) + 1, 'the name of the type has its place', lambda: f'{mine}')


@harness('T02', 'structure of a component type, any number of parameters and private variables', [CD + 'component_type_declaration', CL + 'CDeclarator.as_struct_member'], conc=False)
def h_typedecl_any(vc):
    from vc.seqs import AbsChunk, ASeq
    from vc.core import SBool
    from mccode_antlr.translators import c_decls as cd, c_listener as cl
    m, c, i, ii = mods()
    S = Spec(vc)
    tn = vc.ident('type', TNAMES)
    ids, types, kept = [0], {}, []
    def make_par(k):
        ids[0] += 1
        p = vc.choice(f'p{ids[0]}.type', NUM + STR + VEC)
        x = m.ComponentParameter(vc.ident(f'p{ids[0]}.name', PNAMES), expr_of(m, p, None))
        types[id(x)] = p
        kept.append(x)
        return x
    def members(text):
        T = TextOf('struct one {\n' + text + '\n};')
        return T, structs(T.s)[0]['one']
    def flat(ms): return [(t_.replace(' *', '*'), n, d) for t_, n, d in ms]
    def one_par(what, text, x):
        T, ms = members(text)
        p = types[id(x)]
        vc.check(flat(ms) == flat([(MEMBER[p][0], T.flat(x.name), MEMBER[p][1])]), 'members for all parameters', lambda: f'{ms}')
    made = {}
    def make_private(k):
        ids[0] += 1
        x = private(vc, f'd{ids[0]}')
        made[id(x.dec)] = x
        return x.dec
    setting = AbsChunk('setting', make_par, Lines_()(S, ('SETTING',), one_par))
    S.placeholder['SETTING'] = 'struct all SETTING;'
    private_ = AbsChunk('private', make_private)
    def on_map(chunk, f, cond):
        if not truth_of(vc, SBool(chunk.n > 0)): return []
        d = chunk.some()
        vc.check(cond is None or truth_of(vc, cond(d)), 'members for all private variables')
        k = made[id(d)]
        T, ms = members(f(d))
        size = '7' if k.init is not None else '16384'
        dims = ''.join(f'[{x or size}]' for x in k.elements or ())
        vc.check(flat(ms) == flat([(k.dtype + (' *' if k.kind == 'pointer' else ''), T.flat(k.name), dims)]), 'members for all private variables', lambda: f'{ms}')
        S.passed.append('PRIVATE')
        return ['struct all PRIVATE;']
    private_.on_map = on_map
    t = bare(c.Comp, name=tn, **in_sections(vc, 't', ASeq([setting])))
    old = cl.extract_initializer_size
    try:
        cl.extract_initializer_size = lambda s: (7,)
        out = vc.run(cd.component_type_declaration, t, [], ASeq([private_]))
    finally: cl.extract_initializer_size = old
    vc.check(not out.raised, 'code is generated', out)
    if out.raised: return
    T = TextOf(out.value)
    try: ss, rest = structs(T.s)
    except BadC as e: return vc.check(False, 'structures can be read', str(e))
    f = T.flat(tn)
    vc.check(set(ss) == {f'_struct_{f}_parameters', f'_struct_{f}'}, 'structures of a component type', lambda: f'{ss}')
    if set(ss) != {f'_struct_{f}_parameters', f'_struct_{f}'}: return
    defs = [' '.join(x.split()) for x in rest.split(';')]
    vc.check(f'typedef struct _struct_{f}_parameters _class_{f}_parameters' in defs and f'typedef struct _struct_{f} _class_{f}' in defs, 'structures of a component type', lambda: f'{defs}')
    got = [n for t_, n, d in ss[f'_struct_{f}_parameters']]
    none = not truth_of(vc, SBool(setting.n > 0)) and not truth_of(vc, SBool(private_.n > 0))
    vc.check([x for x in got if x in ('SETTING', 'PRIVATE')] == S.passed and (none or len(got) == len(S.passed)), 'members for all parameters and private variables', lambda: f'{got}')
    if truth_of(vc, SBool(setting.n > 0)): vc.check('SETTING' in got, 'members for all parameters', lambda: f'{got}')
    if truth_of(vc, SBool(private_.n > 0)): vc.check('PRIVATE' in got, 'members for all private variables', lambda: f'{got}')
    if none: vc.check(len(set(got) - {'SETTING', 'PRIVATE'}) == 1, 'a structure without parameters is not empty', lambda: f'{got}')
    rest_of_type(vc, T, ss, f, tn)


@harness('T02', 'structure of a component type', [CD + 'component_type_declaration', CD + 'component_instance_declaration'], bounded='up to two parameters, one private variable')
def h_typedecl(vc):
    from mccode_antlr.translators import c_decls as cd, c_listener as cl
    m, c, i, ii = mods()
    tn = vc.ident('type', TNAMES)
    pars, privs, seen = [], [], []
    np_, nd = vc.choice('n', ((0, 0), (1, 1), (2, 0), (0, 1))) if vc.sym else (vc.size('np', 0, 3), vc.size('nd', 0, 3))
    for j in range(np_):
        pars.append((vc.ident(f'p{j}.name', PNAMES), vc.choice(f'p{j}.type', NUM + STR + VEC)))
        seen.append(pars[-1][0])
    for j in range(nd):
        privs.append(private(vc, f'd{j}'))
        seen.append(privs[-1].name)
    for j, x in enumerate(seen):
        for y in seen[:j]: vc.assume(vc.not_(x == y))
    t = bare(c.Comp, name=tn, **in_sections(vc, 't', tuple(m.ComponentParameter(n, expr_of(m, p, None)) for n, p in pars)))
    comp = bare(i.Instance, name=vc.ident('comp', CNAMES), type=t)
    old = cl.extract_initializer_size
    try:
        if vc.sym: cl.extract_initializer_size = lambda s: (7,)
        out = vc.run(cd.component_type_declaration, t, [], [k.dec for k in privs])
        out2 = vc.run(cd.component_instance_declaration, comp, vc.int('index', lo=0))
    finally: cl.extract_initializer_size = old
    vc.check(not out.raised and not out2.raised, 'code is generated', lambda: f'{out} {out2}')
    if out.raised or out2.raised: return
    T = TextOf(out.value)
    try: ss, rest = structs(T.s)
    except BadC as e: return vc.check(False, 'structures can be read', str(e))
    f = T.flat(tn)
    vc.check(set(ss) == {f'_struct_{f}_parameters', f'_struct_{f}'}, 'structures of a component type', lambda: f'{ss}')
    if set(ss) != {f'_struct_{f}_parameters', f'_struct_{f}'}: return
    defs = [' '.join(x.split()) for x in rest.split(';')]
    vc.check(f'typedef struct _struct_{f}_parameters _class_{f}_parameters' in defs and f'typedef struct _struct_{f} _class_{f}' in defs, 'structures of a component type', lambda: f'{defs}')
    want = [(MEMBER[p][0], T.flat(n), MEMBER[p][1]) for n, p in pars]
    for k in privs:
        size = '7' if vc.sym and k.init is not None else '1' if k.init is not None else '16384'
        dims = ''.join(f'[{x or size}]' for x in k.elements or ())
        want.append((k.dtype + (' *' if k.kind == 'pointer' else ''), T.flat(k.name), dims))
    got = ss[f'_struct_{f}_parameters']
    if not want: vc.check(len(got) == 1, 'a structure without parameters is not empty', lambda: f'{got}')
    else: vc.check([(t_.replace(' *', '*'), n, d) for t_, n, d in got] == [(t_.replace(' *', '*'), n, d) for t_, n, d in want], 'members for all parameters and private variables', lambda: f'{got} {want}')
    rest_of_type(vc, T, ss, f, tn)
    U = TextOf(out2.value)
    decl = ' '.join(re.sub(r'/\*.*?\*/|#[^\n]*', ' ', U.s, flags=re.S).split())
    vc.check(decl == f'_class_{U.flat(tn)} _{U.flat(comp.name)}_var;', 'a variable for each component', lambda: f'{decl}')


@harness('T02', 'declarations', [CD + 'declarations_pre_libraries', CD + 'component_type_declaration', CD + 'component_instance_declaration', UT + ' escape_str_for_c'], sym=False)
def h_decls(vc):
    from mccode_antlr.translators import c_decls as cd
    m, c, i, ii = mods()
    from mccode_antlr.common.metadata import MetaData
    n = vc.size('nt', 1, 2)
    t = [a_type(vc, f't{j}', f'T{j}', {'share': vc.size(f'b{j}', 0, 2)}, [vc.size(f's{j}{k}', 0, 1) for k in range(4)]) for j in range(n)]
    comps = some_components(vc, t, [vc.size(f'o{j}', 0, n - 1) for j in range(vc.size('nc', 0, 4))])
    types = [x for x in t if any(y.type is x for y in comps)]
    groups = {}
    for j, x in enumerate(comps):
        if vc.choice(f'c{j}.split', (False, True)): x.split = expr_of(m, 'int', 2)
        g = vc.choice(f'c{j}.group', (None, 'g1', 'g2'))
        if g: groups[g] = x.group = g
    pars = []
    UNITS, TEXTS = (None, 'm', '"AA"', '1/"s"', 'µm', ''), ('"abc"', '"a \\"q\\" b"', '""', '"µ"')
    for j in range(vc.size('nip', 0, 3)):
        p = Kind()
        p.name, p.ptype, p.unit = INAMES[j], vc.choice(f'ip{j}.type', ('double', 'int', 'string')), vc.choice(f'ip{j}.unit', UNITS)
        kind = vc.choice(f'ip{j}.kind', ('none', 'value'))
        v = None if kind == 'none' else vc.choice(f'ip{j}.text', TEXTS) if p.ptype == 'string' else vc.int(f'ip{j}.int') if p.ptype == 'int' else vc.choice(f'ip{j}.real', (0.0, 1.5, -2e-7, 1e20))
        p.value, p.par = v, m.InstrumentParameter(p.name, p.unit, expr_of(m, p.ptype, v))
        pars.append(p)
    metas = []
    def meta(nm, source, kind):
        x = (source, vc.text(nm + '.name', pool=('cfg', '"my name"', 'a b')), vc.choice(nm + '.mime', ('json', 'text/plain', '"app/x"')), vc.text(nm + '.value', pool=('{"a": "b\\n"}', 'two\nlines', 'µ', '??/')))
        return x, MetaData.from_instance_tokens(source=source, name=x[1], mimetype=x[2], value=x[3]) if kind == 'i' else MetaData.from_instrument_tokens(source, x[2], x[1], x[3])
    instr = bare(ii.Instr, name='instrument', components=comps, parameters=tuple(p.par for p in pars), groups=groups)
    cms = []
    for j in range(vc.size('nm', 0, 2)):
        x, y = meta(f'm{j}', 'instrument', 'x')
        metas.append((x, y)); cms.append(y)
    instr.metadata = tuple(cms)
    out = vc.run(cd.declarations_pre_libraries, instr, [], {x.name: x.declared for x in types})
    vc.check(not out.raised, 'code is generated', out)
    text = out.value[0]
    try:
        ss, rest = structs_safe(text)
        got = ss.get('_struct_instrument_parameters')
        want = [({'double': 'double', 'int': 'int', 'string': 'char*'}[p.ptype], p.name, '') for p in pars]
        vc.check(len(got) == 1 if not want else [(a.replace(' *', '*'), b, d) for a, b, d in got] == want, 'the structure of instrument parameters', lambda: f'{got} {want}')
        logic = {b: a for a, b, d in ss.get('instrument_logic_struct', [])}
        lw = {f'Group_{g}': 'long' for g in groups}
        for x in comps:
            if x.split: lw |= {f'Split_{x.name}': 'long', f'Split_{x.name}_particle': '_class_particle'}
        vc.check(logic == lw, 'places for GROUP and SPLIT', lambda: f'{logic} {lw}')
        var = {b: (a, d) for a, b, d in ss['_instrument_struct']}
        num = f'[{len(comps) + 1}]'
        vc.check(all(var.get(k) == v for k, v in {**{k: ('double', num) for k in ('counter_AbsorbProp', 'counter_N', 'counter_P', 'counter_P2')}, '_trajectory': ('_class_particle', num), '_position_relative': ('Coords', num),
                     '_position_absolute': ('Coords', num), '_parameters': ('_class_instrument_parameters', '')}.items()) and (('logic' in var) == bool(lw)), 'the structure of the instrument has a place for each component', lambda: f'{var}')
        vc.check([k for k in ss if k.endswith('_parameters') and k != '_struct_instrument_parameters'] and True or not types, 'structures of component types')
        for x in types: vc.check(f'_struct_{x.name}' in ss and f'_struct_{x.name}_parameters' in ss, 'structures of component types', lambda: f'{list(ss)}')
        # tables
        rows = table(text, 'mcinputtable')
        vc.check(len(rows) == len(pars) + 1 and rows[-1][:2] == [N('id', 'NULL')] * 2, 'the table of instrument parameters', lambda: f'{rows}')
        for p, r in zip(pars, rows):
            ok = len(r) == 5 and r[0] == N('str', f'"{p.name}"') and plain_addr(r[1]) == N('mem', '.', N('mem', '.', N('id', '_instrument_var'), '_parameters'), p.name) and r[2] == N('id', 'instr_type_' + p.ptype)
            vc.check(ok, 'the table of instrument parameters', lambda: f'{r}')
            d = decode_c(r[3].a[0]).decode()
            if p.value is None: vc.check(d == '', 'an instrument parameter without default', lambda: f'{r}')
            elif p.ptype == 'string': vc.check(d == decode_c(p.value).decode(), 'the default of an instrument parameter', lambda: f'{r}')
            else: vc.check(float(d) == p.value, 'the default of an instrument parameter', lambda: f'{r}')
            u = '' if p.unit is None else p.unit
            if len(u) > 1 and u[0] == '"' == u[-1]: u = u[1:-1]
            vc.check(decode_c(r[4].a[0]).decode() == u, 'the unit of an instrument parameter', lambda: f'{r} {u}')
        rows = table(text, 'metadata_table')
        vc.check(len(rows) == len(metas) + 1, 'the table of metadata', lambda: f'{rows}')
        for (x, y), r in zip(metas, rows):
            vc.check([decode_c(z.a[0]).decode() for z in r] == [str(z) for z in (y.source.name, y.name, y.mimetype, y.value)] and y.value == x[3], 'the table of metadata', lambda: f'{r} {x}')
        for k, v in {'numipar': len(pars), 'num_metadata': len(metas), 'mcNUMCOMP': len(comps)}.items():
            vc.check(re.findall(rf'\bint {k} = (\d+);', text) == [str(v)], 'numbers of parameters, metadata and components', lambda: f'{k}')
    except BadC as e: return vc.check(False, 'declarations can be read', str(e))
    decl = re.findall(r'^_class_(\w+) (\w+);', text, re.M)
    vc.check(decl == [(x.type.name, f'_{x.name}_var') for x in comps], 'a variable for each component', lambda: f'{decl}')
    marks = re.findall(r'\bcode_\w+(?=\(\))', text)
    vc.check(sorted(marks) == sorted(b.translated[:-3] for x in types for b in x.share), 'SHARE of each component type once', lambda: f'{marks}')
    for x in types:
        at = [text.index(b.translated) for b in x.share]
        vc.check(at == sorted(at), 'SHARE of each component type once')


def structs_safe(text): return structs(re.sub(r'\{[^{}]*\}(?=\s*,|\s*\n\s*\};)', '0', re.sub(r'"(?:[^"\\\n]|\\.)*"', '""', text)))


def table(text, name):
    m = re.search(rf'\b{name}\[\] = (\{{)', text)
    if not m: raise BadC(f'no {name}')
    s, i, toks = text, m.start(1), 0
    # until the brace is closed, texts aside
    depth = 0
    for t in re.finditer(r'"(?:[^"\\\n]|\\.)*"|[{}]', s[i:]):
        depth += {'{': 1, '}': -1}.get(t.group(), 0)
        if depth == 0: break
    else: raise BadC(f'{name} is not closed')
    n = Parser(s[i:i + t.end()]).expr()
    return [[strip(y) for y in x.a[0]] for x in n.a[0]]


# ------------------------------------------------------------------ the particle
CH = 'src/mccode_antlr/translators/c_header.py '
PHYS = {True: ('x', 'y', 'z', 'vx', 'vy', 'vz', 'sx', 'sy', 'sz', 't', 'p'), False: ('x', 'y', 'z', 'kx', 'ky', 'kz', 'phi', 'Ex', 'Ey', 'Ez', 't', 'p')}


@harness('T02', 'the particle and its user variables', [CH + 'header_pre_runtime', 'src/mccode_antlr/translators/c_particle.py'], sym=False)
def h_particle(vc):
    from mccode_antlr.translators.c_header import header_pre_runtime
    from mccode_antlr.translators.c_listener import CDeclarator
    from mccode_antlr.instr.jump import Jump
    m, c, i, ii = mods()
    mcstas = vc.choice('mcstas', (True, False))
    t = [a_type(vc, 't0', 'T0', {}, (0, 0, 0, 0))]
    comps = some_components(vc, t, [0] * vc.size('nc', 0, 3))
    jumps = []
    for j, x in enumerate(comps):
        js = []
        for k in range(vc.size(f'c{j}.nj', 0, 1)):
            js.append(Jump(comps[-1].name, 0, vc.choice(f'c{j}.it', (True, False)), expr_of(m, 'int', 1)))
            if js[-1].iterate: jumps.append(f'Jump_{x.name}_{js[-1].target}')
        x.jump = tuple(js)
    us = []
    for j in range(vc.size('nu', 0, 3)):
        k = Kind()
        k.name, k.dtype, k.kind = f'u{j}', vc.choice(f'u{j}.dtype', ('double', 'int', 'MCNUM', 'long')), vc.choice(f'u{j}.kind', ('scalar', 'pointer', 'array'))
        k.init = vc.choice(f'u{j}.init', (None, '3', 'f(2)')) if k.kind == 'scalar' else None
        k.dec = CDeclarator(k.name, pointer='*' if k.kind == 'pointer' else None, elements=(4,) if k.kind == 'array' else None, dtype=k.dtype, init=k.init)
        us.append(k)
    instr = bare(ii.Instr, name='instrument', components=comps, source='file.instr')
    with contextlib.redirect_stdout(io.StringIO()):
        out = vc.run(header_pre_runtime, mcstas, instr, {'name': 'mcstas', 'fancy': 'McStas', 'url': 'u'}, {'output': 'o.c'}, [k.dec for k in us])
    vc.check(not out.raised, 'code is generated', out)
    text = re.sub(r'/\*.*?\*/|//[^\n]*', ' ', out.value, flags=re.S)
    try: ss, rest = structs(text)
    except BadC as e: return vc.check(False, 'the particle can be read', str(e))
    mine = {n: (a.replace(' *', '*'), d) for a, n, d in ss['_struct_particle']}
    for n in PHYS[mcstas]: vc.check(mine.get(n) == ('double', ''), 'the particle has its physical state', lambda: f'{n} {mine}')
    for k in us: vc.check(mine.get(k.name) == (k.dtype + ('*' if k.kind == 'pointer' else ''), '[4]' if k.kind == 'array' else ''), 'user variables are members of the particle', lambda: f'{k.name} {mine}')
    logic = [n for a, n, d in ss['particle_logic_struct'] if n != 'dummy']
    vc.check(sorted(logic) == sorted(jumps), 'a counter for each JUMP ITERATE', lambda: f'{logic} {jumps}')
    def body(name):
        b = [k.end() for k in re.finditer(rf'\b{name}\([^)]*\)\s*\{{', text)]
        if len(b) != 1: raise BadC(name)
        depth = 1
        for k in re.finditer('[{}]', text[b[0]:]):
            depth += 1 if k.group() == '{' else -1
            if not depth: return ''.join(text[b[0]:b[0] + k.start()].split())
        raise BadC(name)
    try:
        b = body('particle_getvar_void')
        got = re.findall(r'"(\w+)",name\)\)\{rval=\(void\*\)&\(p->(\w+)\);s=0;\}', b)
        vc.check(all(x == y for x, y in got) and {x for x, y in got} >= set(PHYS[mcstas]) | {k.name for k in us}, 'variables of the particle are found by name', lambda: f'{got}')
        b = body('particle_getvar')
        got = re.findall(r'"(\w+)",name\)\)\{rval=\*\(\(double\*\)\(&\(p->(\w+)\)\)\);s=0;\}', b)
        vc.check(all(x == y for x, y in got) and {x for x, y in got} >= set(PHYS[mcstas]) | {k.name for k in us if k.dtype == 'double' and k.kind == 'scalar'}, 'variables of the particle are found by name', lambda: f'{got}')
        b = body('particle_setvar_void')
        got = {x: (y, s) for x, y, s in re.findall(r'"(\w+)",name\)\)\{memcpy\(&\(p->(\w+)\),value,sizeof\(([^)]*)\)\);rval=0;\}', b)}
        want = {**{n: (n, 'double') for n in PHYS[mcstas]}, **{k.name: (k.name, k.dtype) for k in us if k.kind == 'scalar'}}
        vc.check(all(got.get(x) == y for x, y in want.items()) and not any(k.name in got for k in us if k.kind != 'scalar'), 'variables of the particle are set by name', lambda: f'{got}')
        b = body('particle_setvar_void_array')
        got = {x: (y, s) for x, y, s in re.findall(r'"(\w+)",name\)\)\{memcpy\(&\(p->(\w+)\),value,elements\*sizeof\(([^)]*)\)\);rval=0;\}', b)}
        vc.check(all(got.get(k.name) == (k.name, k.dtype) for k in us if k.kind == 'array'), 'arrays of the particle are set by name', lambda: f'{got}')
        b = body('particle_restore')
        got = re.findall(r'p->(\w+)=p0->(\w+);', b)
        vc.check(all(x == y for x, y in got) and {x for x, y in got} == set(PHYS[mcstas]), 'restoring sets the physical state', lambda: f'{got}')
        b = body('particle_getuservar_byid')
        got = re.findall(r'case(\d+):\{rval=\*\(\(double\*\)\(&\(p->(\w+)\)\)\);s=0;break;\}', b)
        vc.check(got == [(str(j), k.name) for j, k in enumerate(us)], 'user variables are found by number', lambda: f'{got}')
        b = body('particle_uservar_init')
        got = dict(re.findall(r'p->(\w+)=([^;]*);', b))
        want = {k.name: k.init or '0' for k in us if k.kind == 'scalar' and (k.init is not None or k.dtype != 'long')}
        vc.check(all(got.get(x) == y for x, y in want.items()) and set(got) <= {k.name for k in us}, 'user variables of a new particle', lambda: f'{got} {want}')
    except BadC as e: vc.check(False, 'the particle can be read', str(e))


# --- whole programs ----------------------------------------------------------------------------------------------------------------
def a_program(vc):
    """an instrument of components which print what they see -> (what it says, its text, its model)"""
    from props import crun
    n = vc.choice('components', (1, 2, 3, 4, 5, 6))
    pars = [('e', 'double ', ('1.5', '2', '0.25')), ('k', 'int ', ('2', '3')), ('word', 'string ', ('"abc"', '"a b c"', '"x%d"')), ('d', '', ('0.5', '1'))]
    head, given = [], {}
    for name, ty, vals in pars:
        d = vc.choice(f'{name} default', vals)
        g = vc.choice(f'{name} given', (None, None, *vals))
        given[name] = (d.strip('"'), None if g is None else g.strip('"'), {'double ': 0, '': 0, 'int ': 1, 'string ': 2}[ty])
        head.append(f'{ty}{name}={d}')
    now = {q: (g or d) for q, (d, g, _) in given.items()}
    e, k, dd, word = float(now['e']), int(now['k']), float(now['d']), now['word']
    num = [('0', 0), ('1', 1), ('-1.5', -1.5), ('0.25', .25), ('e', e), ('2*e', 2 * e), ('d', dd), ('e + d', e + dd), ('e * k', e * k)]
    ang = [('0', 0), ('30', 30), ('-45', -45), ('90', 90), ('e', e), ('10*k', 10 * k)]
    ints = [('3', 3), ('k', k), ('k + 1', k + 1), ('0', 0)]
    insts = []
    jumpy = vc.choice('jumps', (False, False, True))
    splits = not jumpy and vc.choice('splits', (False, True))
    group = None
    for i in range(1, n + 1):
        f = lambda what, opts: vc.choice(f'{i} {what}', tuple(opts))
        c = crun.Inst(f('name', (f'c{i}', f'Comp_{i}', f'x_{i}a')), f('kind', ('M', 'M', 'M', 'K', 'Z')))
        before = [b.name for b in insts]
        refs = ['ABSOLUTE'] + (['RELATIVE PREVIOUS'] if before else []) + [f'RELATIVE {b}' for b in before[-3:]]
        c.at = tuple(f(f'at {q}', num) for q in 'xyz'), f('at ref', refs)
        if f('rotated', (False, True)): c.rot = tuple(f(f'rot {q}', ang) for q in 'xyz'), f('rot ref', refs)
        if c.kind == 'M':
            for q, opts in (('a', num), ('n', ints), ('dx', num), ('scat', [('0', 0), ('2', 2), ('k', k)]), ('absorb', [('4', 4), ('k', k)]),
                            ('s', [('"own text"', 'own text'), ('word', word), ('"1.5"', '1.5')]), ('v', [('{1,2,3}', (1, 2, 3)), ('{0.5,-1,2e3}', (.5, -1, 2000))])):
                if f(f'has {q}', (False, True) if q != 'absorb' else (False, False, False, True)): c.params[q] = f(q, opts)
        else:
            for q, opts in {'K': (('w', num), ('dummy', ints)), 'Z': (('q', num),)}[c.kind]:
                if f(f'has {q}', (False, True)): c.params[q] = f(q, opts)
        # a GROUP: neighbours of each other
        where = f('group', ('no', 'no', 'new', 'same', 'same'))
        group = f'g{i}' if where == 'new' else group if where == 'same' else None
        c.group = group
        if f('when', (False, False, True)):
            c.when = f('condition', [('(k > 2)', lambda st: k > 2), ('(e < 1.8)', lambda st: e < 1.8), ('(cnt >= 2)', lambda st: st['cnt'] >= 2), ('flag', lambda st: st['flag'])])
        if f('extend', (False, True)): c.extend = f'uv += {i}; flag = SCATTERED;'
        if splits and where != 'same' and f('split', (False, False, True)): c.split = f('split by', [(None, 10), ('2', 2), ('3', 3), ('k', k)])
        for j in range(f('metadata', (0, 0, 0, 1, 2))):
            c.meta.append((f'text/{j}', f'm{j}', f(f'metadata {j}', ('one', 'line 1\nline 2', 'say "this"', 'back\\slash', '100%', '', ' {"a": [1, 2]} ', "it's ?"))))
        insts.append(c)
    model = crun.Model(insts)
    if jumpy:
        for c in insts:
            f = lambda what, opts: vc.choice(f'{c.index} {what}', tuple(opts))
            if c.kind != 'M' or c.when or c.group or not f('jump', (False, True)): continue
            to = [b for b in insts if not b.group]
            to = f('jump to', to)
            inside = insts[min(to.index, c.index):max(to.index, c.index)]
            if any(b.group for b in inside): continue
            how = {to.name: to.name}
            if to is c: how['MYSELF'] = c.name
            if to.index == c.index + 1: how['NEXT'] = to.name
            if to.index == c.index - 1: how['PREVIOUS'] = to.name
            if to.index > c.index: how[f'NEXT({to.index - c.index})'] = to.name
            if to.index < c.index: how[f'PREVIOUS({c.index - to.index})'] = to.name
            w = f('jump by', sorted(how))
            what = f('jump if', [('ITERATE', ('2', 2)), ('ITERATE', ('k', k)), ('WHEN', ('(cnt < 4)', lambda st: st['cnt'] < 4)), ('WHEN', ('(k > 2 )', None))])
            if what[1][1] is None:
                if to.index <= c.index: continue
                what = 'WHEN', ('(k > 2)', lambda st: k > 2)
            c.jumps.append((w, to.name, *what))
    metas = [('text/p', 'top', vc.choice('metadata', ('a', 'b\n"c"')))] if vc.choice('has metadata', (False, False, True)) else []
    text = 'DEFINE INSTRUMENT thing(' + ', '.join(head) + ')\n'
    text += ''.join(f'METADATA "{ty}" {q} %{{{v}%}}\n' for ty, q, v in metas)
    text += 'DECLARE %{\ndouble total;\nint twice(int q) { return 2 * q; }\n%}\nUSERVARS %{ int cnt; double uv; int flag; %}\nINITIALIZE %{ total = e * twice(k); printf("INS %.9g %.9g %s\\n", total, d, word); %}\nTRACE\n'
    text += '\n'.join(c.text() for c in insts)
    text += '\nSAVE %{ printf("SAVEINS %.9g\\n", e); %}\nFINALLY %{ printf("FININS %.9g %d\\n", total, k);\n'
    for c in insts: text += f'printf("AT {c.name} %d %.9g\\n", _getcomp_index("{c.name}"), getdistance("{insts[0].name}", "{c.name}"));\n'
    for c in insts:
        if c.kind == 'M': text += f'printf("OF {c.name} %.9g %s\\n", ((_class_M_parameters *)_getvar_parameters("{c.name}"))->a, ((_class_M_parameters *)_getvar_parameters("{c.name}"))->s);\n'
    text += 'if (_getcomp_index("nobody") != -1 || _getvar_parameters("nobody")) printf("AT nobody\\n");\n%}\nEND\n'
    return given, now, metas, insts, model, text


@harness('T02', 'whole programs: compiled and run', ['src/mccode_antlr/translators/c.py CTargetVisitor', 'src/mccode_antlr/translators/target.py TargetVisitor.contents', CI + 'cogen_initialize', 'src/mccode_antlr/translators/c_raytrace.py cogen_raytrace', CT + 'cogen_trace_section', CH + 'header_pre_runtime', CD + 'declarations_pre_libraries'], sym=False, weight=3)
def h_programs(vc):
    from props import crun
    from pathlib import Path
    import contextlib, io, shutil, tempfile
    given, now, metas, insts, model, text = a_program(vc)
    jumps = any(c.jumps for c in insts)
    split = any(c.split for c in insts)
    try: want = model.ray(jumps=True)
    except RecursionError: raise Discard()
    if len(want) > 300: raise Discard()
    funnel = not jumps and not split and vc.choice('funnel', (False, False, True))
    count = vc.choice('particles', (1, 1, 2)) if not funnel else 1
    display = vc.choice('display', (False, True))
    d = Path(tempfile.mkdtemp(prefix='crun'))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            try: ins, c = crun.translate(d, text, crun.COMPS)
            except Exception as ex: return vc.check(False, 'an instrument can be translated', lambda: f'{type(ex).__name__}: {ex}\n{text}')
        if len(ins.components) != len(insts): raise Discard()
        prog, err = crun.compile_(d, c, funnel, vc.choice('sanitize', (False, False, False, True)))
        vc.check(prog is not None, 'the program compiles', lambda: f'{err[:1500]}\n{text}')
        code, out, err = crun.run(prog, [f'{q}={g}' for q, (_, g, _) in given.items() if g is not None], count, display)
    finally: shutil.rmtree(d)
    about = lambda: f'{text}\n--- prints:\n{out}\n{err[:1500]}\n--- wanted: {want}'
    vc.check(code == 0, 'the program runs', about)
    lines = out.split('\n')
    pick = lambda *w: [l for l in lines if l.split(' ', 1)[0] in w]
    def same(label, got, expected):
        vc.check(len(got) == len(expected) and all(crun.line(g, w) for g, w in zip(got, expected)), label, lambda: f'{got}\nwanted {expected}\n{about()}')
    e, k = float(now['e']), int(now['k'])
    same('the parameters of the instrument are in the table, with defaults', pick('PAR'), [['PAR', q, ty, g or dflt] for q, (dflt, g, ty) in given.items()])
    same('the program knows its name and components', pick('NAME'), [['NAME', 'thing', len(insts)]])
    hexed = lambda s: ''.join(f'{b:02x}' for b in s.encode())
    meta = [['META', 'thing', q, ty, hexed(v)] for ty, q, v in metas] + [['META', c.name, q, ty, hexed(v)] for c in insts for ty, q, v in c.meta]
    vc.check(sorted(pick('META')) == sorted(' '.join(m) for m in meta), 'metadata is in the program', lambda: f'{pick("META")}\nwanted {meta}\n{about()}')
    same('components are where the instrument says', [l.replace('| ', '') for l in pick('PLACE')], [['PLACE', c.name, *c.pos, *(q for r in c.R for q in r)] for c in insts])
    val = lambda c, q, dflt: c.params[q][1] if q in c.params else dflt
    ms, zs = [c for c in insts if c.kind == 'M'], [c for c in insts if c.kind == 'Z']
    same('INITIALIZE of the instrument', pick('INS'), [['INS', e * 2 * k, float(now['d']), now['word']]])
    same('INITIALIZE of components, in order', pick('INIT', 'INITZ'), [['INIT', c.name, 2 * val(c, 'a', 1.5), val(c, 'n', 2), 7, val(c, 'n', 2) + 1] if c.kind == 'M' else ['INITZ', c.name, val(c, 'q', 1)] for c in insts if c.kind != 'K'])
    same('particles are traced through the components', pick('TR', 'TRK', 'SEEN', 'VAR'), want * count)
    same('components are found by name', pick('AT'), [['AT', c.name, c.index, math.dist(c.pos, insts[0].pos)] for c in insts])
    same('components are found by name', pick('OF'), [['OF', c.name, c.params['a'][1] if 'a' in c.params else 1.5, c.params['s'][1] if 's' in c.params else 'as it is'] for c in insts if c.kind == 'M'])
    same('SAVE of components, in order', pick('SAVE', 'SAVEZ'), [['SAVE', c.name, 2 * val(c, 'a', 1.5), val(c, 's', 'as it is')] if c.kind == 'M' else ['SAVEZ', c.name, val(c, 'q', 1) + 1] for c in insts if c.kind != 'K'])
    same('SAVE of the instrument', pick('SAVEINS'), [['SAVEINS', e]])
    same('FINALLY of components, in order', pick('FIN'), [['FIN', c.name, val(c, 'n', 2) + 1] for c in ms])
    same('FINALLY of the instrument', pick('FININS'), [['FININS', e * 2 * k, k]])
    if display:
        shown = [l for l in pick('SHOW', 'LINE', 'MCDISPLAY:') if l not in ('MCDISPLAY: start', 'MCDISPLAY: end')]
        wanted = []
        for c in insts:
            wanted.append(['MCDISPLAY:', 'component', c.name])
            if c.kind != 'Z': wanted.append(['SHOW', c.name])
            if c.kind == 'M': wanted.append(['LINE', val(c, 'a', 1.5), val(c, 'n', 2)])
        same('components are displayed, in order', shown, wanted)
        vc.check('MCDISPLAY: start' in lines and 'MCDISPLAY: end' in lines, 'components are displayed, in order', about)
    firsts = [next((i for i, l in enumerate(lines) if l.split(' ', 1)[0] in w), None) for w in (('NAME',), ('INS',), ('PLACE',), ('INIT', 'INITZ'), ('TR', 'TRK'), ('SAVE', 'SAVEZ', 'SAVEINS'), ('FIN', 'FININS'))]
    firsts = [q for q in firsts if q is not None]
    vc.check(firsts == sorted(firsts), 'the parts of the program are run in order', about)
