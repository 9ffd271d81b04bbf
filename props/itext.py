"""Reading what is written of an instrument: the grammar of instr files, over plain text or over ropes with unknown names, texts and expressions.
The values of expressions are the tokens between the words which end them."""
import re
from .ctext import Text

A = '\ue000-\uf8ff'
TOK = re.compile(rf'''(?P<ws>\s+|//[^\n]*|/\*.*?\*/)|(?P<block>%\{{.*?%\}})|(?P<str>"(?:[^"\\\n]|\\.)*")|(?P<num>(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)
 |(?P<id>[A-Za-z_{A}][\w{A}]*)|(?P<op>->|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%^<>!?:(),.\[\]{{}}=])''', re.S | re.X)
WORDS = {'ABSOLUTE', 'AT', 'COMPONENT', 'USERVARS', 'DEFINE', 'DECLARE', 'END', 'FINALLY', 'INITIALIZE', 'INSTRUMENT', 'RELATIVE', 'ROTATED', 'PREVIOUS', 'TRACE', 'EXTEND', 'GROUP', 'SAVE', 'JUMP',
         'WHEN', 'NEXT', 'ITERATE', 'MYSELF', 'COPY', 'SPLIT', 'REMOVABLE', 'CPU', 'DEPENDENCY', 'SHELL', 'SEARCH', 'METADATA', 'NULL', 'int', 'double', 'string', 'char', 'vector'}


class Bad(Exception): pass


class P:
    def __init__(self, text):
        self.t = Text(text)
        self.toks, i, s = [], 0, self.t.s
        while i < len(s):
            m = TOK.match(s, i)
            if not m: raise Bad(f'no token at {s[i:i+30]!r}')
            i = m.end()
            if m.lastgroup != 'ws': self.toks.append((m.lastgroup, m.group()))
        self.i = 0

    def peek(self, k=0): return self.toks[self.i + k][1] if self.i + k < len(self.toks) else None
    def kind(self): return self.toks[self.i][0] if self.i < len(self.toks) else None
    def take(self, want=None, kind=None):
        k, v = self.toks[self.i] if self.i < len(self.toks) else (None, None)
        if v is None or want is not None and v != want or kind is not None and k != kind or kind == 'id' and v in WORDS: raise Bad(f'{want or kind} expected, not {v!r}')
        self.i += 1
        return v
    def opt(self, want):
        if self.peek() != want: return False
        self.i += 1
        return True
    def end(self):
        if self.i != len(self.toks): raise Bad(f'{self.peek()!r} is left')

    def expr(self, *stops):
        """the tokens of an expression: up to one of these outside of brackets"""
        out, depth = [], 0
        while True:
            v = self.peek()
            if depth == 0 and (v is None or v in stops or self.kind() == 'block'): break
            if v is None: raise Bad('an open bracket')
            if v in WORDS and v not in ('MYSELF', 'PREVIOUS', 'NULL'): raise Bad(f'{v} in an expression')
            depth += (v in '([{') - (v in ')]}') if len(v) == 1 else 0
            if depth < 0: raise Bad('closing bracket')
            out.append(self.take())
        if not out: raise Bad(f'an expression is missing before {self.peek()}')
        return out

    # ---- the parts
    def unquoted(self): return self.take(kind='str')[1:-1]

    def parameter(self):
        d = dict(type=None, unit=None, value=None)
        if self.peek() in ('int', 'double', 'string'): d['type'] = self.take()
        d['name'] = self.take(kind='id')
        if self.opt('/'): d['unit'] = self.take(kind='str')
        if self.opt('='):
            d['value'] = self.expr(',', ')')
            if d['type'] == 'string' and not (len(d['value']) == 1 and (d['value'][0] in ('NULL', '0') or d['value'][0].startswith('"'))): raise Bad('value of a string parameter')
        return d

    def metadata(self):
        self.take('METADATA')
        word = lambda: self.unquoted() if self.kind() == 'str' else self.take(kind='id')
        return dict(mimetype=word(), name=word(), value=self.take(kind='block')[2:-2])

    def jump(self):
        self.take('JUMP')
        name, n = self.peek(), None
        if name in ('PREVIOUS', 'NEXT'):
            self.take(); n = '1'
            if self.opt('('):
                n = self.take(); self.take(')')
        elif name == 'MYSELF': self.take()
        else: self.take(kind='id')
        how = self.take()
        if how not in ('WHEN', 'ITERATE'): raise Bad(how)
        return dict(target=name, n=n, iterate=how == 'ITERATE', condition=self.expr('JUMP', 'METADATA', 'COMPONENT', 'REMOVABLE', 'CPU', 'SPLIT', 'SAVE', 'FINALLY', 'END'))

    def triplet(self):
        self.take('(')
        x = self.expr(','); self.take(',')
        y = self.expr(','); self.take(',')
        z = self.expr(')'); self.take(')')
        if self.opt('ABSOLUTE'): return [x, y, z], None
        self.take('RELATIVE')
        return [x, y, z], None if self.opt('ABSOLUTE') else self.take(kind='id')

    def instance(self):
        d = dict(removable=self.opt('REMOVABLE'), cpu=self.opt('CPU'), split=None, when=None, rotated=None, group=None, extend=None, jump=[], metadata=[], parameters=[])
        if self.opt('SPLIT'): d['split'] = self.expr('COMPONENT') if self.peek() != 'COMPONENT' else ['10']
        self.take('COMPONENT')
        d['name'] = self.take(kind='id'); self.take('=')
        d['type'] = self.take(kind='id')
        if self.opt('('):
            while not self.opt(')'):
                if d['parameters']: self.take(',')
                d['parameters'].append(self.setting())
        if self.opt('WHEN'): d['when'] = self.expr('AT')
        self.take('AT'); d['at'] = self.triplet()
        if self.opt('ROTATED'): d['rotated'] = self.triplet()
        if self.opt('GROUP'): d['group'] = self.take(kind='id')
        if self.opt('EXTEND'): d['extend'] = self.take(kind='block')[2:-2]
        while self.peek() == 'JUMP': d['jump'].append(self.jump())
        while self.peek() == 'METADATA': d['metadata'].append(self.metadata())
        return d

    def setting(self):
        n = self.take(kind='id'); self.take('=')
        return n, self.expr(',', ')')

    def instrument(self):
        self.take('DEFINE'); self.take('INSTRUMENT')
        d = dict(name=self.take(kind='id'), parameters=[], metadata=[], flags=None, components=[])
        self.take('(')
        while not self.opt(')'):
            if d['parameters']: self.take(',')
            d['parameters'].append(self.parameter())
        while self.peek() == 'METADATA': d['metadata'].append(self.metadata())
        if self.opt('DEPENDENCY'): d['flags'] = self.unquoted()
        def section(w): d[w] = self.take(kind='block')[2:-2] if self.opt(w) else None
        for w in ('DECLARE', 'USERVARS', 'INITIALIZE'): section(w)
        self.take('TRACE')
        while self.peek() in ('REMOVABLE', 'CPU', 'SPLIT', 'COMPONENT'): d['components'].append(self.instance())
        for w in ('SAVE', 'FINALLY'): section(w)
        self.take('END')
        self.end()
        return d

    def same(self, toks, text):
        """these tokens are those of this text"""
        q = P(text)
        a, b = bare([toks] if isinstance(toks, str) else toks), bare([v for _, v in q.toks])
        return len(a) == len(b) and all(self.same_str(x, q, y) for x, y in zip(a, b))

    def same_str(self, a, q, b):
        if len(a) != len(b): return False
        for x, y in zip(a, b):
            ux, uy = '\ue000' <= x <= '\uf8ff', '\ue000' <= y <= '\uf8ff'
            if ux != uy: return False
            if not ux:
                if x != y: return False
            elif not self.t.atom(x).t.eq(q.t.atom(y).t): return False
        return True

    def is_text(self, s, text):
        """a part of the text (a name, what is inside of a block) is this text"""
        return self.same_str(s, Q(text), Q(text).t.s)


def bare(toks):
    """without brackets around the whole"""
    toks = list(toks)
    while len(toks) > 2 and toks[0] == '(' and toks[-1] == ')':
        d, n = 0, 0
        for n, t in enumerate(toks):
            d += (t == '(') - (t == ')')
            if d == 0: break
        if n != len(toks) - 1: break
        toks = toks[1:-1]
    return toks


class Q:
    def __init__(self, text): self.t = Text(text)
