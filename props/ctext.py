"""Reading the generated C: a parser for the subset of C that the translators emit, over plain text or over ropes of literal pieces and
unknown texts (which stand for a name or for a complete expression)."""
import re


class BadC(Exception):
    pass


class Text:
    """a flattened text: every unknown piece is one private character"""
    def __init__(self, text):
        self.atoms = []
        if isinstance(text, str): self.s = text
        else:
            out, ids = [], {}
            for p in text.parts:
                if isinstance(p, str): out.append(p)
                else:
                    if id(p) not in ids:
                        ids[id(p)] = chr(0xE000 + len(self.atoms))
                        self.atoms.append(p)
                    out.append(ids[id(p)])
            self.s = ''.join(out)
    def atom(self, ch): return self.atoms[ord(ch) - 0xE000]
    def rope(self, s):
        """the original text of a part of the flattened one"""
        if not any('\ue000' <= c <= '\uf8ff' for c in s): return s
        from vc.core import SStr
        parts, cur = [], ''
        for c in s:
            if '\ue000' <= c <= '\uf8ff':
                if cur: parts.append(cur)
                parts.append(self.atom(c)); cur = ''
            else: cur += c
        if cur: parts.append(cur)
        return SStr(parts)


A = '\ue000-\uf8ff'
TOK = re.compile(rf'''(?P<ws>\s+|//[^\n]*|/\*.*?\*/)|(?P<pp>\#[^\n]*)|(?P<num>(?:0[xX][0-9a-fA-F]+|\d+\.\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|\d+(?:[eE][-+]?\d+)?)[uUlLfF]*)
 |(?P<id>[A-Za-z_{A}][\w{A}]*)|(?P<str>"(?:[^"\\\n]|\\.)*")|(?P<chr>'(?:[^'\\\n]|\\.)+')
 |(?P<op><<=|>>=|\.\.\.|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|%=|&=|\|=|[-+*/%^<>!?:(),.\[\]{{}};=&|~])''', re.S | re.X)
BIN = {'*': 12, '/': 12, '%': 12, '+': 11, '-': 11, '<<': 10, '>>': 10, '<': 9, '>': 9, '<=': 9, '>=': 9, '==': 8, '!=': 8, '&': 7, '^': 6, '|': 5, '&&': 4, '||': 3}
ASSIGN = ('=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '<<=', '>>=')
TYPEWORDS = {'int', 'long', 'double', 'float', 'char', 'void', 'unsigned', 'static', 'struct', 'const', 'Coords', 'Rotation', 'randstate_t', 'MCNUM'}


class N:
    """a node: kind, its parts, and where it is in the text"""
    def __init__(self, kind, *a, span=None): self.kind, self.a, self.span = kind, a, span
    def __repr__(self): return f'({self.kind} {" ".join(map(repr, self.a))})'
    def __eq__(self, o): return isinstance(o, N) and self.kind == o.kind and self.a == o.a
    __hash__ = None


class Parser:
    """types: further names of types; expr: texts which are one unknown expression each"""
    def __init__(self, text, types=()):
        self.t = text if isinstance(text, Text) else Text(text)
        self.types = TYPEWORDS | set(types)
        self.toks = []
        s, i = self.t.s, 0
        while i < len(s):
            if s.startswith('/*', i) and s.find('*/', i + 2) < 0: raise BadC('comment without end')
            m = TOK.match(s, i)
            if not m: raise BadC(f'no token at {s[i:i + 30]!r}')
            if m.lastgroup == 'pp':
                # a directive goes to the end of its line, and has to be the first on it
                if s[:i].rsplit('\n', 1)[-1].strip(): raise BadC(f'a directive inside a line: {m.group()!r}')
            if m.lastgroup != 'ws': self.toks.append((m.lastgroup, m.group(), i, m.end()))
            i = m.end()
        self.i = 0

    def peek(self, k=0): return self.toks[self.i + k] if self.i + k < len(self.toks) else ('end', '', len(self.t.s), len(self.t.s))
    def next(self):
        x = self.peek()
        self.i += 1
        return x
    def at(self, s): return self.peek()[1] == s and self.peek()[0] in ('op', 'id')
    def eat(self, s):
        x = self.next()
        if x[1] != s: raise BadC(f'{s!r} expected, {x[1]!r} found: ...{self.t.s[max(0, x[2] - 60):x[3] + 20]!r}')
        return x
    def src(self, n): return self.t.rope(self.t.s[n.span[0]:n.span[1]])

    # ---- statements
    def program(self):
        out = []
        while self.peek()[0] != 'end': out.append(self.statement())
        return out

    def block(self):
        self.eat('{')
        out = []
        while not self.at('}'):
            if self.peek()[0] == 'end': raise BadC('block without end')
            out.append(self.statement())
        self.eat('}')
        return N('block', out)

    def is_type(self):
        k, v = self.peek()[:2]
        return k == 'id' and (v in self.types or v.startswith('_class_'))

    def statement(self):
        k, v, b, e = self.peek()
        if k == 'pp':
            self.next()
            return N('pp', v.rstrip())
        if v == '{': return self.block()
        if v == ';':
            self.next()
            return N('empty')
        if k == 'id':
            if v == 'if':
                self.next(); self.eat('(')
                c = self.expr(); self.eat(')')
                t = self.body()
                el = None
                j = self.i
                pps = []
                while self.peek()[0] == 'pp': pps.append(self.next()[1])
                if self.at('else'):
                    self.next()
                    el = self.body()
                    if pps: raise BadC('directives before else')
                else: self.i = j
                return N('if', c, t, el)
            if v == 'while':
                self.next(); self.eat('(')
                c = self.expr(); self.eat(')')
                return N('while', c, self.body())
            if v == 'do':
                self.next()
                bd = self.body()
                self.eat('while'); self.eat('(')
                c = self.expr(); self.eat(')')
                if self.at(';'): self.next()
                return N('do', bd, c)
            if v == 'for':
                self.next(); self.eat('(')
                init = self.statement()
                c = None if self.at(';') else self.expr()
                self.eat(';')
                step = None if self.at(')') else self.expr()
                self.eat(')')
                return N('for', init, c, step, self.body())
            if v == 'return':
                self.next()
                r = None if self.at(';') else self.expr()
                self.eat(';')
                return N('return', r)
            if v in ('break', 'continue'):
                self.next(); self.eat(';')
                return N(v)
            if self.is_type(): return self.declaration()
        n = self.expr(comma=True)
        if self.at(';'): self.next()
        elif n.kind != 'call' or not re.fullmatch('[A-Z_]+', n.a[0].a[0] if n.a[0].kind == 'id' else ''): self.eat(';')
        return N('expr', n, span=n.span)

    def body(self):
        while self.peek()[0] == 'pp': self.next()
        return self.statement()

    def declaration(self):
        ty = []
        while self.is_type() or (ty and ty[-1] == 'struct'): ty.append(self.next()[1])
        out = []
        while True:
            ptr = 0
            while self.at('*'):
                self.next(); ptr += 1
            name = self.next()
            if name[0] != 'id': raise BadC(f'name expected, {name[1]!r} found')
            if self.at('('):   # a function
                args, depth, a0 = [], 0, self.peek()[3]
                while True:
                    x = self.next()
                    if x[0] == 'end': raise BadC('parameter list without end')
                    if x[1] == '(': depth += 1
                    if x[1] == ')':
                        depth -= 1
                        if not depth: break
                ps = self.t.s[a0:x[2]]
                if self.at(';'):
                    self.next()
                    return N('proto', ' '.join(ty), name[1], ps)
                return N('function', ' '.join(ty) + '*' * ptr, name[1], ps, self.block())
            dims = []
            while self.at('['):
                self.next()
                dims.append(None if self.at(']') else self.expr())
                self.eat(']')
            init = None
            if self.at('='):
                self.next()
                init = self.expr()
            out.append((name[1], ptr, dims, init))
            if self.at(','):
                self.next()
                continue
            break
        self.eat(';')
        return N('decl', ' '.join(ty), out)

    # ---- expressions
    def expr(self, comma=False):
        n = self.assignment()
        while comma and self.at(','):
            self.next()
            n = N('comma', n, self.assignment())
        return n

    def assignment(self):
        b = self.peek()[2]
        left = self.conditional()
        if self.peek()[0] == 'op' and self.peek()[1] in ASSIGN:
            o = self.next()[1]
            r = self.assignment()
            return N('assign', o, left, r, span=(b, self.toks[self.i - 1][3]))
        return left

    def conditional(self):
        b = self.peek()[2]
        c = self.binary(0)
        if self.at('?'):
            self.next()
            x = self.expr(); self.eat(':')
            y = self.conditional()
            return N('cond', c, x, y, span=(b, self.toks[self.i - 1][3]))
        return c

    def binary(self, bp):
        b = self.peek()[2]
        left = self.unary()
        while self.peek()[0] == 'op' and self.peek()[1] in BIN and BIN[self.peek()[1]] > bp:
            o = self.next()[1]
            r = self.binary(BIN[o])
            left = N('bin', o, left, r, span=(b, self.toks[self.i - 1][3]))
        return left

    def unary(self):
        k, v, b, e = self.peek()
        if k == 'op' and v in ('-', '+', '!', '~', '*', '&', '++', '--'):
            self.next()
            x = self.unary()
            return N('un', v, x, span=(b, self.toks[self.i - 1][3]))
        if v == '(' and self.peek(1)[1] in self.types and self.peek(2)[1] in (')', '*'):
            self.next()
            ty = self.next()[1]
            while self.at('*'): ty += self.next()[1]
            self.eat(')')
            return N('cast', ty, self.unary(), span=(b, self.toks[self.i - 1][3]))
        return self.postfix()

    def postfix(self):
        k, v, b, e = self.next()
        if k == 'num': n = N('num', v)
        elif k == 'str':
            n = N('str', v)
            while self.peek()[0] == 'str': n = N('str', n.a[0][:-1] + self.next()[1][1:])
        elif k == 'chr': n = N('chr', v)
        elif k == 'id':
            if v == 'sizeof' and self.at('('):
                self.next()
                d, a0 = 1, self.peek()[2]
                while d:
                    x = self.next()
                    if x[0] == 'end': raise BadC('sizeof')
                    d += (x[1] == '(') - (x[1] == ')')
                n = N('sizeof', self.t.s[a0:x[2]])
            else: n = N('id', v)
        elif v == '(':
            n = self.expr(comma=True)
            self.eat(')')
            n = N('paren', n)
        elif v == '{':
            es = []
            while not self.at('}'):
                es.append(self.expr())
                if self.at(','): self.next()
            self.eat('}')
            n = N('init', es)
        else: raise BadC(f'unexpected {v!r}: ...{self.t.s[max(0, b - 60):e + 20]!r}')
        n.span = (b, self.toks[self.i - 1][3])
        while True:
            v = self.peek()[1] if self.peek()[0] == 'op' else None
            if v == '(':
                self.next()
                args = []
                while not self.at(')'):
                    args.append(self.expr())
                    if not self.at(')'): self.eat(',')
                self.eat(')')
                n = N('call', n, args)
            elif v == '[':
                self.next()
                i = self.expr(comma=True)
                self.eat(']')
                n = N('idx', n, i)
            elif v in ('.', '->'):
                self.next()
                m = self.next()
                if m[0] != 'id': raise BadC('member')
                n = N('mem', v, n, m[1])
            elif v in ('++', '--'):
                self.next()
                n = N('post', v, n)
            else: return n
            n.span = (b, self.toks[self.i - 1][3])


def lvalue(n):
    """the name of a place: a.b->c[i] with the index as an expression"""
    if n.kind == 'paren': return lvalue(n.a[0])
    if n.kind == 'id': return n.a[0]
    if n.kind == 'mem': return lvalue(n.a[1]) + n.a[0] + n.a[2]
    if n.kind == 'idx': return lvalue(n.a[0]) + '[]'
    raise BadC(f'not a place: {n}')
