"""The specification of reading expression text: an operator-precedence reader for two grammars, C and McCode.

It reads plain text (concrete mode) or a rope of literal pieces and unknown texts (symbolic mode).  An unknown text is the text of
a subexpression; its contract is that it means what the subexpression means and that it holds together at least as tightly
as its level says:
   5 name, number, call, index, member or anything in parentheses; 4 power; 3 product/quotient; 2 anything starting with a
   sign; 1 comparison; 0 logical operation, negation or conditional
"""
import re

C, MC = 'C', 'McCode'
INFIX = {
    C: {'*': 12, '/': 12, '%': 12, '+': 11, '-': 11, '<<': 10, '>>': 10, '<': 9, '>': 9, '<=': 9, '>=': 9, '==': 8, '!=': 8,
        '&&': 3, '||': 2, '^': 14},
    # as listed in McCommon.g4, tightest first; a leading sign is read as the operator after an empty operand
    MC: {'^': 15, '*': 14, '/': 14, '+': 13, '-': 13, '%': 12, '>>': 11, '<<': 10, '!=': 9, '==': 8, '<=': 7, '>=': 6, '<': 5, '>': 4,
         '&&': 2, '||': 2},
}
RIGHT = {'^'}
SIGN = {C: 13, MC: 13}
NOT = {C: 13, MC: 3}
# loosest operator at the top of a text of this level
LOOSEST = {C: {5: 99, 4: 14, 3: 12, 2: 12, 1: 8, 0: 1}, MC: {5: 99, 4: 15, 3: 14, 2: 13, 1: 4, 0: 1}}
NAMES = {'*': '*', '/': '/', '%': '%', '+': '+', '-': '-', '<<': '<<', '>>': '>>', '<': '__lt__', '>': '__gt__', '<=': '__le__', '>=': '__ge__',
         '==': '__eq__', '!=': '__neq__', '&&': '__and__', '||': '__or__', '^': '__pow__'}
LEVEL = {'*': 3, '/': 3, '^': 4, '+': -1, '-': -1, '%': -1, '<<': -1, '>>': -1, '<': 1, '>': 1, '<=': 1, '>=': 1, '==': 1, '!=': 1, '&&': 0, '||': 0}
FUNCTIONS = ('abs', 'round', 'sqrt', 'sin', 'cos', 'atan2')
TOK = re.compile(r'\s*(?:(?P<num>(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?)|(?P<id>[A-Za-z_]\w*)|(?P<op><<|>>|<=|>=|==|!=|&&|\|\||->|--|\+\+|[-+*/%^<>!?:(),.\[\]]))')


class Unreadable(Exception):
    pass


class Sub:
    """an unknown text"""
    def __init__(self, level, D, signed=None, fn=None, ident=None):
        self._level, self.D, self.fn, self.ident, self._signed = level, D, fn, ident, signed
    @property
    def level(self):
        if not isinstance(self._level, int):
            self._level = next((k for k in (5, 4, 3, 2, 1) if self._level == k), 0)
        return self._level
    @property
    def signed(self):
        """may it begin with a sign"""
        return self._signed if self._signed is not None else self.level <= 2


class Reader:
    """read(tokens) -> (value, defined), level"""
    def __init__(self, W, grammar, world=0):
        self.W, self.g, self.world = W, grammar, world
        self.S = W.S

    # ---- tokens
    def tokens(self, text, prefix=None, atoms=None):
        out = []
        parts = [text] if isinstance(text, str) else text.parts
        for i, p in enumerate(parts):
            if not isinstance(p, str):
                if out and out[-1] in ('-', '+', '--') and not getattr(self, 'gap', False) and atoms(p).signed: raise Unreadable('sign directly after a sign')
                out.append(atoms(p)); self.gap = False
                continue
            self.gap = False
            j = 0
            while j < len(p):
                if p[j:].strip() == '':
                    self.gap = True
                    break
                if p[j].isspace():
                    j += 1
                    continue
                if prefix and p.startswith(prefix, j):
                    out.append('@par'); j += len(prefix); self.gap = False
                    continue
                m = TOK.match(p, j)
                if not m: raise Unreadable(f'no token at {p[j:j + 12]!r}')
                j = m.end()
                self.gap = False
                if m.group('num'): out.append(('num', float(m.group('num'))))
                elif m.group('id'): out.append(('id', m.group('id')))
                else: out.append(m.group('op'))
        return out

    def read(self, text, prefix=None, atoms=None):
        self.t = self.tokens(text, prefix, atoms)
        self.i = 0
        r, lev = self.expr(0)
        if self.i != len(self.t): raise Unreadable(f'left over after {self.i} tokens of {self.t}')
        return r, lev

    def peek(self): return self.t[self.i] if self.i < len(self.t) else None
    def next(self):
        x = self.peek()
        if x is None: raise Unreadable('ends early')
        self.i += 1
        return x
    def expect(self, x):
        y = self.next()
        if y != x: raise Unreadable(f'{x} expected, {y} found')

    # ---- Pratt
    def expr(self, bp):
        left, lev, loosest = self.prefix(bp)
        while True:
            x = self.peek()
            if not isinstance(x, str): break
            if x == '?':
                if bp > 1: break
                self.next()
                a, _ = self.expr(0)
                self.expect(':')
                b, _ = self.expr(1)
                from .exprlib import sem_trinary
                left, lev, loosest = sem_trinary(self.S, left, a, b), 0, 1
                continue
            if x not in INFIX[self.g]: break
            lbp = INFIX[self.g][x]
            # McCode: -a * b reads as -(a * b), which is (-a) * b (lemma: a sign in front of a product)
            through = self.g == MC and lev == 2 and x in ('*', '/')
            if lbp > loosest and not through or (lbp == loosest and x in RIGHT): raise Unreadable(f'{x} would take the end of the text before it')
            if lbp < bp or (lbp == bp and x not in RIGHT): break
            self.next()
            b, _ = self.expr(lbp)
            from .exprlib import sem_binary
            signed = lev == 2
            left = sem_binary(self.S, NAMES[x], left, b)
            lev = LEVEL[x]
            if lev == 3 and signed: lev = 2
            loosest = 99  # what was read is complete: only operators no tighter than the last one can follow
        return left, lev

    def prefix(self, bp):
        from .exprlib import sem_unary
        x = self.next()
        if isinstance(x, Sub):
            nx = self.peek()
            if x.fn is not None or nx in ('(', '[', '.', '->'):
                return self.postfix(x, bp)
            if LOOSEST[self.g][x.level] <= bp and x.level != 5:
                raise Unreadable(f'the operator before would take the beginning of the text (level {x.level})')
            if x.signed and self.g == MC and bp >= SIGN[MC]: raise Unreadable('a sign after an operator which is tighter')
            return x.D, x.level, LOOSEST[self.g][x.level]
        if isinstance(x, tuple) or x in ('(', '@par'):
            return self.postfix(x, bp)
        if x in ('-', '+'):
            if self.g == MC and bp >= SIGN[MC]: raise Unreadable('a sign after an operator which is tighter')
            y = self.peek()
            if isinstance(y, Sub) and y.level == 3 and self.g == C and not y.signed:
                # the sign belongs to the first factor: (-a)*b = -(a*b), (-a)/b = -(a/b)
                self.next()
                d, lo = y.D, LOOSEST[C][3]
            else:
                d, _ = self.expr(SIGN[self.g])
                lo = 99
            return sem_unary(self.S, x, d), 2, lo
        if x == '!':
            d, _ = self.expr(NOT[self.g])
            return sem_unary(self.S, '__not__', d), 0, 99
        raise Unreadable(f'unexpected {x}')

    def args(self, close):
        out = [self.expr(0)[0]]
        while self.peek() == ',':
            self.next()
            out.append(self.expr(0)[0])
        self.expect(close)
        return out

    def fold(self, args):
        r = args[-1]
        for a in reversed(args[:-1]):
            r = self.S.fun2(',', a[0], r[0]), self.S.andb(a[1], r[1])
        return r

    def postfix(self, x, bp):
        from .exprlib import sem_unary, sem_binary
        W, S = self.W, self.S
        fn = None
        if isinstance(x, Sub):
            if x.fn is not None: fn, d = x.fn, None
            else:
                if x.level != 5: raise Unreadable(f'a call, index or member of a text of level {x.level}')
                d = x.D
        elif x == '(':
            d, _ = self.expr(0)
            self.expect(')')
        elif x == '@par':
            y = self.next()
            if isinstance(y, Sub) and y.ident is not None: d = W.id_D(self.world, y.ident, True)
            elif isinstance(y, tuple) and y[0] == 'id': d = W.id_D(self.world, y[1], True)
            else: raise Unreadable('prefix before something which is not a name')
        elif x[0] == 'num':
            d = (x[1] if not W.sym else W.D(x[1])[0]), S.true
        else:
            if self.peek() == '(' and x[1] in FUNCTIONS: fn, d = x[1], None
            else: d = W.id_D(self.world, x[1], False)
        while True:
            y = self.peek()
            if y == '(':
                self.next()
                args = self.args(')')
                if fn is not None:
                    if len(args) == 1: d = sem_unary(S, fn, args[0])
                    elif len(args) == 2: d = sem_binary(S, fn, *args)
                    else: raise Unreadable('too many arguments')
                    fn = None
                else: d = sem_binary(S, '__call__', d, self.fold(args))
            elif fn is not None: raise Unreadable('function name without arguments')
            elif y == '[':
                self.next()
                d = sem_binary(S, '__getitem__', d, self.fold(self.args(']')))
            elif y in ('.', '->'):
                self.next()
                z = self.next()
                if isinstance(z, Sub):
                    if z.level != 5: raise Unreadable(f'member text of level {z.level}')
                    r = z.D
                elif z == '(':
                    r, _ = self.expr(0)
                    self.expect(')')
                elif isinstance(z, tuple) and z[0] == 'id': r = W.id_D(self.world, z[1], False)
                elif isinstance(z, tuple): r = W.D(z[1], self.world)
                elif z == '@par': 
                    z = self.next()
                    r = W.id_D(self.world, z[1] if isinstance(z, tuple) else z.ident, True)
                else: raise Unreadable('member')
                d = sem_binary(S, '__struct_access__' if y == '.' else '__pointer_access__', d, r)
            else: break
        return d, 5, 99
