"""W01: an instrument which is written reads back as the same instrument.

Each method which writes runs on arbitrary parts (names, texts and expressions are unknown); what it writes is read with the grammar of instr
files (itext) and says exactly what the part is.  The bounded search writes whole instruments and reads them with the real reader."""
from vc.api import harness, Discard
from .itext import P, Bad
from .seqlib import some, seq
from .i02 import bare

W = 'src/mccode_antlr/common/textwrap.py TextWrapper.'
PM = 'src/mccode_antlr/common/parameters.py '
IN = 'src/mccode_antlr/instr/instance.py '
IR = 'src/mccode_antlr/instr/instr.py '
POOL = ('a', 'b', 'x_1', 'Det', 'lambda0')
TEXTS = ('file.dat', '', 'a b', 'µm', 'c:\\\\x', 'say \\"yes\\"', 'a, b = {1}', '/* x */', '%d')


class Sink:
    """a file: what has been written"""
    def __init__(self): self.text = ''
    def write(self, x): self.text = self.text + x
    def getvalue(self): return self.text


def wrapper():
    from mccode_antlr.common import TextWrapper
    return TextWrapper()


def written(vc, f):
    """what f(sink) writes"""
    s = Sink()
    if not vc.sym:
        import io
        s = io.StringIO()
    o = vc.run(f, s)
    vc.check(not o.raised, 'it can be written', o)
    return s.getvalue() if not vc.sym else s.text


def reads(vc, text, how, detail=''):
    """what the text says"""
    try:
        p = P(text)
        d = how(p)
        p.end()
        return p, d
    except Bad as e:
        vc.check(False, 'what is written can be read', f'{e} in {text} {detail}')
        raise Discard()


def stringio(vc):
    """while the code runs: unknown texts can be collected"""
    if not vc.sym: return
    import io
    io.StringIO = Sink


# ------------------------------------------------------------------ values
def quoted(vc, n, pool=TEXTS):
    """a text in quotes: its characters are escaped already"""
    return '"' + vc.text(n, excl='"\\\n', pool=[x for x in pool if '"' not in x and '\\' not in x] if vc.sym else pool) + '"' if vc.sym else '"' + vc.choice(n, pool) + '"'


def value(vc, n, kinds, dtype=None):
    """(expression, its text: made of the texts of its parts)"""
    from mccode_antlr.common import Expr, Value, DataType
    k = vc.choice(n + '.kind', kinds)
    make = {'int': Expr.int, 'str': Expr.str}.get(dtype, Expr.float)
    if k == 'none': return make(None), None
    if k == 'NULL': return Expr.str('NULL'), 'NULL'
    if k == 'text':
        t = quoted(vc, n + '.text')
        return Expr.str(t), t
    if k == 'number':
        if dtype == 'int' or dtype is None and vc.choice(n + '.int', (False, True)): v, make = vc.int(n + '.v', -5, 1000), Expr.int
        else: v, make = vc.real(n + '.v'), Expr.float
        return make(v), text_of(vc, v)
    if k == 'name':
        t = vc.ident(n + '.id', POOL)
        from mccode_antlr.common.expression import ObjectType
        x = Expr(Value(t, object_type=ObjectType.identifier))
        return (make(x) if dtype else x), t
    if k == 'sum':
        a, b = vc.ident(n + '.id', POOL), vc.ident(n + '.id2', POOL)
        from mccode_antlr.common.expression import BinaryOp, ObjectType
        i = lambda t: Value(t, object_type=ObjectType.identifier)
        x = Expr(BinaryOp('+', i(a), i(b)))
        return (make(x) if dtype else x), a + ' + ' + b
    if k == 'call':
        from mccode_antlr.common.expression import BinaryOp, ObjectType
        a, b = vc.ident(n + '.id', POOL), vc.ident(n + '.id2', POOL)
        return Expr(BinaryOp('__call__', Value(a, object_type=ObjectType.function), [Value(b, object_type=ObjectType.identifier)])), a + '(' + b + ')'
    # a list of values
    from mccode_antlr.common.expression import ObjectType, ShapeType
    vs, ts = [], []
    for j in range(vc.size(n + '.n', 1, 3)):
        w = vc.choice(f'{n}.{j}', ('int', 'real', 'name'))
        v = vc.int(f'{n}.{j}.v', -5, 1000) if w == 'int' else vc.real(f'{n}.{j}.v') if w == 'real' else vc.ident(f'{n}.{j}.v', POOL)
        vs.append(v)
        ts.append(v if w == 'name' else text_of(vc, v))
    out = '{' + ts[0]
    for t in ts[1:]: out = out + ',' + t
    x = Expr(Value(vs, data_type=DataType.float, object_type=ObjectType.initializer_list, shape_type=ShapeType.vector))
    return x, out + '}'


def text_of(vc, v):
    if not vc.sym: return str(v)
    from vc.hooks import HOOKS
    return HOOKS.b_str(v)


def is_value(vc, p, toks, text, label, detail=''):
    vc.check((toks is None) == (text is None), label, detail)
    if text is not None: vc.check(p.same(toks, text), label, detail)


# ------------------------------------------------------------------ parameters
def a_parameter(vc, n):
    from mccode_antlr.common import InstrumentParameter
    ty = vc.choice(n + '.type', ('double', 'int', 'string'))
    v, t = value(vc, n + '.value', ('none', 'NULL', 'text') if ty == 'string' else ('none', 'number', 'name', 'sum'), {'int': 'int', 'string': 'str', 'double': 'float'}[ty])
    u = quoted(vc, n + '.unit') if vc.choice(n + '.units', (False, True)) else None
    nm = vc.ident(n + '.name', POOL)
    return InstrumentParameter(nm, u, v), (nm, ty, u, t)


def check_parameter(vc, p, d, want):
    nm, ty, u, t = want
    vc.check(p.is_text(d['name'], nm), 'a parameter has its name', lambda: f'{d}')
    vc.check((d['type'] or 'double') == ty, 'a parameter has its type', lambda: f'{d} {want}')
    vc.check((u is None) == (d['unit'] is None) and (u is None or p.is_text(d['unit'], u)), 'a parameter has its unit', lambda: f'{d} {want}')
    is_value(vc, p, d['value'], t, 'a parameter has its value', lambda: f'{d} {want}')


@harness('W01', 'parameters of instruments', [PM + 'InstrumentParameter.to_file', PM + 'InstrumentParameter.to_string'] + [W + n for n in ('datatype', 'parameter', 'unit', 'value')])
def h_parameter(vc):
    x, want = a_parameter(vc, 'p')
    text = written(vc, lambda s: x.to_file(s, wrapper()))
    p, d = reads(vc, text, lambda p: p.parameter())
    check_parameter(vc, p, d, want)
    stringio(vc)
    o = vc.run(x.to_string, wrapper())
    vc.check(not o.raised, 'it can be written', o)
    p, d = reads(vc, o.value, lambda p: p.parameter())
    check_parameter(vc, p, d, want)


KINDS = ('number', 'text', 'NULL', 'name', 'sum', 'call', 'list')


def a_setting(vc, n, kinds=KINDS):
    from mccode_antlr.common import ComponentParameter
    v, t = value(vc, n + '.value', kinds)
    nm = vc.ident(n + '.name', POOL)
    return ComponentParameter(nm, v), (nm, t)


def check_setting(vc, p, d, want):
    vc.check(p.is_text(d[0], want[0]), 'a parameter has its name', lambda: f'{d}')
    is_value(vc, p, d[1], want[1], 'a parameter has its value', lambda: f'{d} {want}')


@harness('W01', 'parameters of instances', [PM + 'ComponentParameter.to_file', PM + 'ComponentParameter.to_string', 'src/mccode_antlr/common/expression.py Value._str_repr_'])
def h_setting(vc):
    x, want = a_setting(vc, 'p')
    text = written(vc, lambda s: x.to_file(s, wrapper()))
    p, d = reads(vc, text, lambda p: p.setting())
    check_setting(vc, p, d, want)
    stringio(vc)
    o = vc.run(x.to_string, wrapper())
    vc.check(not o.raised, 'it can be written', o)
    p, d = reads(vc, o.value, lambda p: p.setting())
    check_setting(vc, p, d, want)


# ------------------------------------------------------------------ JUMP
def a_jump(vc, n):
    from mccode_antlr.instr.jump import Jump
    k = vc.choice(n + '.target', ('PREVIOUS', 'PREVIOUS_n', 'NEXT', 'NEXT_n', 'MYSELF', 'name'))
    c, t = value(vc, n + '.if', ('number', 'name', 'sum', 'call'))
    it = vc.choice(n + '.iterate', (False, True))
    if k.endswith('_n'):
        m = vc.int(n + '.n', 1, 12)
        vc.assume(m >= 1)
        nm, rel = k[:-1] + text_of(vc, m), (-m if k[0] == 'P' else m)
    elif k == 'name':
        nm, rel = vc.ident(n + '.name', POOL + ('NEXT_one', 'PREVIOUS_b', 'NEXT', 'MYSELF_1', 'PREVIOUSLY')[:2] + ('PREVIOUSLY', 'NEXTONE')), 0
        for w in ('PREVIOUS', 'NEXT', 'MYSELF'): vc.assume(vc.not_(vc.eq(nm, w)))
    else: nm, rel = k, {'P': -1, 'N': 1, 'M': 0}[k[0]]
    return Jump(nm, rel, it, c, vc.int(n + '.absolute', -1, 9)), (nm if k == 'name' else None, rel, k, it, t)


def check_jump(vc, p, d, want):
    nm, rel, k, it, t = want
    if nm is not None: vc.check(d['n'] is None and p.is_text(d['target'], nm), 'a JUMP has its target', lambda: f'{d} {want}')
    elif k == 'MYSELF': vc.check(d['target'] == 'MYSELF', 'a JUMP has its target', lambda: f'{d} {want}')
    else:
        n = abs(rel) if not vc.sym else None
        ok = d['target'] == k.split('_')[0] and d['n'] is not None
        vc.check(ok, 'a JUMP has its target', lambda: f'{d} {want}')
        if not ok: return
        if not vc.sym: vc.check(int(d['n']) == n, 'a JUMP has its target', lambda: f'{d} {want}')
        else:
            want_n = rel if k[0] == 'N' else -rel
            if d['n'].isdigit(): vc.check(vc.eq(want_n, int(d['n'])), 'a JUMP has its target', lambda: f'{d} {want}')
            else:
                from vc.hooks import numeric_of
                got = numeric_of(p.t.rope(d['n']))
                vc.check(got is not None and vc.eq(got, want_n), 'a JUMP has its target', lambda: f'{d} {want}')
    vc.check(d['iterate'] == it, 'a JUMP is WHEN or ITERATE', lambda: f'{d} {want}')
    is_value(vc, p, d['condition'], t, 'a JUMP has its condition', lambda: f'{d} {want}')


def closed(vc, text):
    """what follows does not run into it"""
    last = text if isinstance(text, str) else text.parts[-1]
    vc.check(isinstance(last, str) and last[-1:].isspace(), 'what follows is apart', lambda: f'{text!r}')


@harness('W01', 'JUMP', ['src/mccode_antlr/instr/jump.py Jump.to_file', W + 'line'])
def h_jump(vc):
    x, want = a_jump(vc, 'j')
    text = written(vc, lambda s: x.to_file(s, wrapper()))
    p, d = reads(vc, text, lambda p: p.jump())
    check_jump(vc, p, d, want)
    closed(vc, text)


# ------------------------------------------------------------------ METADATA
def a_metadata(vc, n):
    from mccode_antlr.common import MetaData
    mime = vc.ident(n + '.mime', ('text', 'json')) if vc.choice(n + '.plain', (False, True)) else vc.text(n + '.mime', excl='"\\\n') if vc.sym else vc.choice(n + '.mime', ('text/plain', 'application/json', 'a b'))
    name = vc.ident(n + '.name', POOL + ('END', 'string')) if vc.choice(n + '.simple', (False, True)) else vc.text(n + '.name', excl='"\\\n') if vc.sym else vc.choice(n + '.name', ('my-name', 'a b', 'x.y', '1'))
    v = vc.text(n + '.value', excl='%}', pool=('', '{"a": [1, 2]}', 'hello\n world\n', '"; DROP', '/* x */'))
    return MetaData(None, name, mime, v), (name, mime, v)


def check_metadata(vc, p, d, want):
    for k, w in zip(('name', 'mimetype', 'value'), want): vc.check(p.is_text(d[k], w), f'metadata has its {k}', lambda: f'{d} {want}')


@harness('W01', 'METADATA', ['src/mccode_antlr/common/metadata.py MetaData.to_file', W + 'metadata_group'])
def h_metadata(vc):
    x, want = a_metadata(vc, 'm')
    if not vc.sym and vc.choice('quoted', (False, True)):
        # as it is read: names with blanks in them keep their quotes
        from mccode_antlr.common import MetaData
        x = MetaData.from_instance_tokens('inst', want[1], want[0], want[2])
    text = written(vc, lambda s: x.to_file(s, wrapper()))
    p, d = reads(vc, text, lambda p: p.metadata())
    check_metadata(vc, p, d, want)
    closed(vc, text)


# ------------------------------------------------------------------ instances
class Writes:
    """the invariant of a loop which writes each of its elements: one(text, element); all of them are what mark stands for"""
    def __init__(self, sink, one, mark): self.sink, self.one, self.mark = sink, one, mark
    def enter(self, loop, env): self.before = self.sink().text
    def havoc(self, loop, env, stage):
        from vc.seqs import scratch
        self.sink().text = self.before + self.mark if stage == 'exit' else ''
        return scratch(loop)
    def close(self, loop, env, elem):
        self.one(self.sink().text, elem)


class Ref:
    """another instance: only its name is used"""
    def __init__(self, name): self.name = name


def code(vc, n):
    from mccode_antlr.common import RawC
    t = vc.text(n, excl='%}', pool=('here();', ' x = 1; // y\n', '#define A 2', ''))
    return RawC('file', 3, t), t


def joins(vc, mark, one, inner):
    """texts of any number of elements are joined: each is right, the text between them too"""
    def on_join(sep, c):
        x = inner.some()
        one(sep, c.f(x), x)
        return mark
    return on_join


def many(vc, n, make, one, sink, mark, join=None):
    """none, one or any number of elements: (sequence, what is expected, None: as marked)"""
    if not vc.sym:
        got = [make(f'{n}{j}') for j in range(vc.size(n + '.n', 0, 3))]
        return tuple(x for x, _ in got), [w for _, w in got]
    if vc.choice(n + '.none', (False, True)): return (), []
    wants = {}
    def elem(k):
        x, w = make(k)
        wants[id(x)] = (x, w)
        return x
    c = some(vc, n, elem, fold=Writes(sink, lambda text, x: one(text, wants[id(x)][1]), mark))
    c.probe = False
    if join: c.on_join = lambda sep, r: (join(sep, *(lambda x: (r.f(x), wants[id(x)][1]))(c.some())), mark)[1]
    from vc.core import SBool
    vc.assume(SBool(c.n > 0))
    return seq([c]), None


def joined_codes(sep, text, want, vc):
    vc.check('\n' in sep, 'blocks of code are on lines of their own', lambda: repr(sep))
    vc.check(Pq(text, want), 'each block of code is written', lambda: f'{text} {want}')


def Pq(text, want):
    q = P('')
    from .itext import Text
    q.t = Text(text)
    return q.same_str(q.t.s.strip(), *(lambda r: (r, r.t.s.strip()))(type('R', (), {'t': Text(want)})()))


def is_code(vc, p, got, wants, mark, label):
    """a block: all the code, in order, each on lines of its own"""
    if wants == []:
        vc.check(got is None, label, lambda: f'{got!r}')
        return
    vc.check(got is not None, label)
    if wants is None: vc.check(got.strip() == mark.strip(), label, lambda: f'{got!r}')
    elif vc.sym: vc.check(Pq(p.t.rope(got), wants[0]) if len(wants) == 1 else False, label)
    else: vc.check('\n'.join(w.strip() for w in wants).split() == got.split() and ('\n'.join(wants)).strip() == got.strip(), label, lambda: f'{got!r} {wants}')


def place(vc, n, cls):
    """(vector, texts)"""
    vs, ts = zip(*[value(vc, f'{n}.{k}', ('number',) if k == 'y' else ('number', 'name') if k == 'x' else ('number', 'sum'), 'float') for k in 'xyz']) if not vc.choice(n + '.zero', (False, True)) else zero()
    return cls(*vs), ts


def zero():
    from mccode_antlr.common import Expr
    return zip(*[(Expr.int(0), '0')] * 3)


def a_ref(vc, n, other=None):
    k = vc.choice(n + '.ref', ('none', 'ref') + (('same',) if other is not None else ()))
    if k == 'same': return other
    return None if k == 'none' else Ref(vc.ident(n + '.refname', POOL))


def check_place(vc, p, got, ts, ref, label):
    for g, t in zip(got[0], ts): is_value(vc, p, g, t, label, lambda: f'{got} {ts}')
    vc.check((got[1] is None) == (ref is None) and (ref is None or p.is_text(got[1], ref.name)), label, lambda: f'{got}')


@harness('W01', 'instances', [IN + 'Instance.to_file', IN + '_triplet_ref_str'] + [W + n for n in ('block', 'line', 'bold', 'escape', 'hide', 'br')] + ['src/mccode_antlr/instr/orientation.py Vector.__str__', 'src/mccode_antlr/instr/orientation.py Vector.is_null'], max_paths=60000, weight=2)
def h_instance(vc):
    from mccode_antlr.instr import Instance
    from mccode_antlr.instr.orientation import Vector, Angles
    from mccode_antlr.comp import Comp
    hold = [Sink()]
    sink = lambda: hold[0]
    stringio(vc)
    def one_setting(sep, text, want):
        vc.check(sep.strip() == ',', 'parameters are separated by commas')
        p, d = reads(vc, text, lambda p: p.setting())
        check_setting(vc, p, d, want)
    def one(parse, check):
        def f(text, want):
            p, d = reads(vc, text, parse)
            check(vc, p, d, want)
            closed(vc, text)
        return f
    what = vc.choice('what', ('keywords', 'parameters', 'place', 'rest'))   # the parts do not depend on each other
    params, wp = many(vc, 'p', lambda n: a_setting(vc, n, ('number', 'name', 'list')), None, sink, 'xparamsx=1', one_setting) if what == 'parameters' or not vc.sym else ((), [])
    jumps, wj = many(vc, 'j', lambda n: a_jump(vc, n), one(lambda p: p.jump(), check_jump), sink, 'JUMP xjumpsx WHEN 1\n') if what == 'rest' or not vc.sym else ((), [])
    meta, wm = many(vc, 'm', lambda n: a_metadata(vc, n), one(lambda p: p.metadata(), check_metadata), sink, 'METADATA "a" "xmetax" %{%}\n') if what == 'rest' or not vc.sym else ((), [])
    ext, we = many(vc, 'e', lambda n: code(vc, n), None, sink, 'xextendx();', lambda s, t, w: joined_codes(s, t, w, vc)) if what == 'rest' or not vc.sym else ((), [])
    k = dict(removable=False, cpu=False, split=None, when=None, group=None)
    ts = tw = None
    if what != 'place' or not vc.sym:
        k['group'] = vc.ident('group', POOL) if vc.choice('grouped', (False, True)) else None
    if what == 'keywords' or not vc.sym:
        k['removable'], k['cpu'] = vc.choice('removable', (False, True)), vc.choice('cpu', (False, True))
        if vc.choice('has split', (False, True)): k['split'], ts = value(vc, 'split', ('number', 'name', 'sum'))
        if vc.choice('has when', (False, True)): k['when'], tw = value(vc, 'when', ('name', 'sum', 'call', 'number'))
    ref = a_ref(vc, 'at') if what == 'place' or not vc.sym else Ref(vc.ident('ref', POOL))
    at, ta = place(vc, 'at', Vector) if what == 'place' or not vc.sym else (lambda z: (Vector(*z[0]), z[1]))(list(zero()))
    rref = a_ref(vc, 'rot', ref) if what == 'place' or not vc.sym else ref
    rot, tr = place(vc, 'rot', Angles) if what == 'place' or not vc.sym else (lambda z: (Angles(*z[0]), z[1]))(list(zero()))
    name, ty = vc.ident('name', POOL), vc.ident('type', POOL)
    x = bare(Instance, name=name, type=bare(Comp, name=ty), at_relative=(at, ref), rotate_relative=(rot, rref), parameters=params, jump=jumps, metadata=meta, extend=ext, **k)
    def go(s):
        hold[0] = s
        x.to_file(s, wrapper())
    text = written(vc, go)
    p, d = reads(vc, text, lambda p: p.instance())
    closed(vc, text)
    vc.check(p.is_text(d['name'], name) and p.is_text(d['type'], ty), 'an instance has its name and type', lambda: text)
    vc.check(d['removable'] == k['removable'] and d['cpu'] == k['cpu'], 'an instance is REMOVABLE or CPU', lambda: text)
    is_value(vc, p, d['split'], ts, 'an instance has its SPLIT', lambda: text)
    is_value(vc, p, d['when'], tw, 'an instance has its WHEN', lambda: text)
    vc.check((d['group'] is None) == (k['group'] is None) and (k['group'] is None or p.is_text(d['group'], k['group'])), 'an instance has its GROUP', lambda: text)
    check_place(vc, p, d['at'], ta, ref, 'an instance has its place')
    if d['rotated'] is not None: check_place(vc, p, d['rotated'], tr, rref, 'an instance has its rotation')
    else:
        vc.check(rref is ref, 'an instance without ROTATED is rotated like its place', lambda: text)
        for e in rot: vc.check(vc.eq(e.expr[0].value, 0) if e.is_constant else False, 'an instance without ROTATED is not rotated', lambda: text)
    if wp is None: vc.check(len(d['parameters']) == 1 and d['parameters'][0] == ('xparamsx', ['1']), 'an instance has its parameters', lambda: text)
    else:
        vc.check(len(d['parameters']) == len(wp), 'an instance has its parameters', lambda: text)
        for g, w in zip(d['parameters'], wp): check_setting(vc, p, g, w)
    if wj is None: vc.check([j['target'] for j in d['jump']] == ['xjumpsx'], 'an instance has its JUMPs', lambda: text)
    else:
        vc.check(len(d['jump']) == len(wj), 'an instance has its JUMPs', lambda: text)
        for g, w in zip(d['jump'], wj): check_jump(vc, p, g, w)
    if wm is None: vc.check([m['name'] for m in d['metadata']] == ['xmetax'], 'an instance has its metadata', lambda: text)
    else:
        vc.check(len(d['metadata']) == len(wm), 'an instance has its metadata', lambda: text)
        for g, w in zip(d['metadata'], wm): check_metadata(vc, p, g, w)
    is_code(vc, p, d['extend'], we, 'xextendx();', 'an instance has its EXTEND')


# ------------------------------------------------------------------ instruments
NL = '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'   # a text in quotes is in one line


class Part:
    """a component or registry: it writes itself"""
    def __init__(self, vc, n, text): self.name, self.text = vc.ident(n + '.name', POOL), text
    def to_file(self, output=None, wrapper=None): output.write(self.text)


def blocks(vc, n, mark, sink, some_):
    if some_: return many(vc, n, lambda k: code(vc, k), None, sink, mark, lambda s, t, w: joined_codes(s, t, w, vc))
    return (), []


SECTIONS = dict(declare='DECLARE', user='USERVARS', initialize='INITIALIZE', save='SAVE', final='FINALLY')


@harness('W01', 'instruments', [IR + 'Instr.to_file', IR + '_join_rawc_tuple'] + [W + n for n in ('start_block_comment', 'end_block_comment', 'line', 'quoted_line', 'block', 'start_list', 'end_list', 'start_list_item', 'end_list_item')], max_paths=60000)
def h_instrument(vc):
    from mccode_antlr.instr import Instr
    hold = [Sink()]
    sink = lambda: hold[0]
    stringio(vc)
    what = vc.choice('what', ('parameters', 'flags', 'metadata', 'components') + tuple(SECTIONS)) if vc.sym else None
    def has(w): return what is None or what == w
    def one_parameter(sep, text, want):
        vc.check(sep.strip() == ',', 'parameters are separated by commas')
        p, d = reads(vc, text, lambda p: p.parameter())
        check_parameter(vc, p, d, want)
    def one_metadata(text, want):
        p, d = reads(vc, text, lambda p: p.metadata())
        check_metadata(vc, p, d, want)
    def component(n):
        nm = vc.ident(n + '.name', POOL)
        return (lambda c: (c, nm))(Part(vc, n + '.part', 'COMPONENT ' + nm + ' = T() AT (0, 0, 0) ABSOLUTE\n'))
    def one_component(text, want):
        p, d = reads(vc, text, lambda p: p.instance())
        vc.check(p.is_text(d['name'], want), 'each instance writes itself', lambda: text)
        closed(vc, text)
    params, wp = many(vc, 'p', lambda n: a_parameter(vc, n), None, sink, 'xparamsx=1', one_parameter) if has('parameters') else ((), [])
    meta, wm = many(vc, 'm', lambda n: a_metadata(vc, n), one_metadata, sink, 'METADATA "a" "xmetax" %{%}\n') if has('metadata') else ((), [])
    comps, wc = many(vc, 'c', component, one_component, sink, 'COMPONENT xcomponentsx = T() AT (0, 0, 0) ABSOLUTE\n') if has('components') else ((), [])
    bl = {k: blocks(vc, k, f'x{k}x();', sink, has(k)) for k in SECTIONS}
    flags = [quoted(vc, f'flag{k}', ('-lfoo', '', '-DX=\\"1\\"', '-I/usr/include -g', 'None'))[1:-1] if not vc.sym else vc.text(f'flag{k}', excl='"\\' + NL) for k in range(vc.size('flags', 0, 3))] if has('flags') else []
    name = vc.ident('name', POOL)
    source = (vc.ident('source', ('x.instr', '/tmp/a b/x.instr')) if vc.sym else vc.choice('source', ('x.instr', '/tmp/a b/x.instr'))) if vc.choice('from file', (False, True)) else None
    inc = [vc.ident(f'inc{k}', POOL) for k in range(vc.size('included', 0, 2))] if not vc.sym or what == 'flags' else []
    regs = [Part(vc, f'reg{k}', 'Registry<>\n') for k in range(vc.size('registries', 0, 2))] if not vc.sym or what == 'flags' else []
    x = bare(Instr, name=name, source=source, parameters=params, metadata=meta, components=comps, included=tuple(inc), flags=tuple(flags), registries=tuple(regs), **{k: v[0] for k, v in bl.items()})
    def go(s):
        hold[0] = s
        x.to_file(s, wrapper())
    text = written(vc, go)
    p, d = reads(vc, text, lambda p: p.instrument())
    vc.check(p.is_text(d['name'], name), 'an instrument has its name', lambda: text)
    def items(key, wants, mark, check):
        if wants is None: vc.check(len(d[key]) == 1 and (d[key][0]['name'] if isinstance(d[key][0], dict) else d[key][0]) == mark, f'an instrument has its {key}', lambda: text)
        else:
            vc.check(len(d[key]) == len(wants), f'an instrument has its {key}', lambda: text)
            for g, w in zip(d[key], wants): check(vc, p, g, w)
    items('parameters', wp, 'xparamsx', check_parameter)
    items('metadata', wm, 'xmetax', check_metadata)
    items('components', wc, 'xcomponentsx', lambda vc, p, g, w: vc.check(p.is_text(g['name'], w), 'an instrument has its components', lambda: text))
    for k, w in SECTIONS.items(): is_code(vc, p, d[w], bl[k][1], f'x{k}x();', f'an instrument has its {w}')
    want = flags[0] if flags else ''
    for f in flags[1:]: want = want + ' ' + f
    if not vc.sym: vc.check((d['flags'] or '').split() == want.split(), 'an instrument has its flags', lambda: f'{d["flags"]!r} {flags}')
    elif not flags: vc.check(d['flags'] is None or not d['flags'].strip(), 'an instrument has its flags', lambda: text)
    else:
        got = p.t.rope(d['flags'] or '')
        vc.check(no_blanks(vc, got, want), 'an instrument has its flags', lambda: f'{got} {want}')


def no_blanks(vc, a, b):
    """the same text"""
    a, b = [x if not isinstance(x, str) else vc_str(x) for x in (a, b)]
    return vc.eq(a, b)


def vc_str(x):
    from vc.core import SStr
    return SStr([x]) if x else x


# ------------------------------------------------------------------ whole instruments, read and written by the real code
COMPS = {
    'A': 'DEFINE COMPONENT A SETTING PARAMETERS (double p=1, int n=2, string s="d", vector v={1,2}, double q=0) TRACE %{ x %} END',
    'Slit_0': 'DEFINE COMPONENT Slit_0 SETTING PARAMETERS (double p, string s=0, vector v=NULL, int n=0, q=-1) TRACE %{ x %} END',
    'Bare': 'DEFINE COMPONENT Bare TRACE %{ x %} END',
}
NUMS = ('0', '1', '2.5', '-1', '1e3', '1.23456789012345e-7', '-0.125', '12345678.5', '1e-20', '1000000', '0.1')
EXPRS = NUMS + ('a', 'a+1', 'a*2', '(a+1)*2', 'sin(PI)', 'a/b', 'a-b-1', 'a-(b-1)', 'a/(b/2)', 'arr[3]', 'f(a,b)', '-a', 'a*-1', 'sqrt(a*a+b*b)', 'g1', 'a ? b : 2', 'st.x', 'st->x', 'a^2')
CONDS = ('a', 'a > 1', 'a > 1 && b < 2', 'a == 1 || b == 2', '1', '0', '2.5', 'n', 'f(a)', '!a', 'flag[2]', 'a <= b', 'a != 2')
STRINGS = ('"text"', '"a b"', '"file.dat"', '""', '"say \\"yes\\""', '"c:\\\\x"', '"µ"', '"/* x */"', '"a, b"', '"{1}"', '"None"')
CODE = ('int g1;', '', '\n  x = 1; // y\n  if (a) { b(); }\n', '#define A 2\n', '"%include"', ' /* x */ ', 'f("a\\n");')


def an_instr(vc):
    """the text of an instrument"""
    c, some_ = vc.choice, lambda n, p=2: vc.choice(n, (True,) + (False,) * (p - 1))
    out = []
    def par(n, nm):
        ty = c(n + '.type', ('double ', '', 'int ', 'string '))
        t = ty + nm
        if some_(n + '.unit', 3): t += '/' + c(n + '.u', ('"m"', '"1/AA"', '"µm"', '""'))
        if some_(n + '.value'): t += ' = ' + (c(n + '.v', STRINGS + ('NULL', '0')) if ty == 'string ' else c(n + '.v', ('1', '-5', '3')) if ty == 'int ' else c(n + '.v', NUMS + ('2*3', 'PI', '1/3')))
        return t
    def metas(n):
        return ''.join(f'METADATA {c(f"{n}.mime{k}", ("text", "\"text/plain\"", "\"a b\""))} {c(f"{n}.name{k}", (f"m{k}", f"\"my {k}\"", f"string{k}"))} %{{{c(f"{n}.text{k}", ("", "hi", " a\n b\n", "{\"x\": [1]}"))}%}}\n' for k in range(vc.size(n + '.metas', 0, 2)))
    def block(w, n, p=2): return f'{w} %{{{c(n, CODE)}%}}\n' if some_(n + '?', p) else ''
    pars = ', '.join(par(f'p{k}', nm) for k, nm in enumerate(('a', 'b', 'n', 'file', 'Lambda')[:vc.size('pars', 0, 5)]))
    out.append(f'DEFINE INSTRUMENT {c("name", ("main", "x_1", "Test"))}({pars})\n')
    out.append(metas('i'))
    for k in range(vc.size('deps', 0, 2)): out.append(f'DEPENDENCY "{c(f"dep{k}", ("-lfoo", "-DX=\\\"1\\\" ", "", "-I/usr/include -g"))}"\n') if not k else None
    out += [block('DECLARE', 'declare'), block('USERVARS', 'user'), block('INITIALIZE', 'init'), 'TRACE\n']
    names = []
    def triple(n, sp=NUMS): return '(' + ', '.join(c(f'{n}.{k}', sp + EXPRS if k == 'y' else ('0', '0', '1.5') + sp) for k in 'xyz') + ')'
    def ref(n):
        if not names or some_(n + '.abs', 4): return c(n + '.word', ('ABSOLUTE', 'RELATIVE ABSOLUTE'))
        if some_(n + '.prev', 2): return 'RELATIVE PREVIOUS' + (f'({vc.size(n + ".n", 1, len(names))})' if some_(n + '.many') else '')
        return 'RELATIVE ' + c(n + '.ref', names)
    grp = 0
    for k in range(vc.size('components', 1, 5)):
        n, t = f'c{k}', ''
        if some_(n + '.removable', 4): t += 'REMOVABLE '
        if some_(n + '.cpu', 4): t += 'CPU '
        if some_(n + '.split', 4): t += 'SPLIT ' + c(n + '.splitn', ('', '20 ', 'n ', '2*n '))
        nm = c(n + '.name', (f'c{k}', f'NEXT_{k}', f'PREVIOUS{k}', f'm{k}_y'))
        ty = c(n + '.comp', tuple(COMPS))
        copied = names and some_(n + '.copy', 5)
        if copied: ty = None
        t += f'COMPONENT {nm} = ' + (f'COPY({c(n + ".orig", names)})' if copied else ty)
        if ty != 'Bare' and not copied:
            ps = [f'{p}={c(f"{n}.{p}", pool)}' for p, pool in (('p', EXPRS), ('n', ('1', '-2', 'n', '2')), ('s', STRINGS + ('NULL', 'file')), ('v', ('{1,2,3}', '{1.5}', '"NULL"', 'g1', '{0,-1,2e-5}')), ('q', EXPRS)) if (p == 'p' and ty == 'Slit_0') or some_(f'{n}.has {p}')]
            if ps or some_(n + '.parens'): t += f'({", ".join(ps)})'
        elif ty == 'Bare' and some_(n + '.parens'): t += '()'
        if some_(n + '.when', 3): t += ' WHEN ' + c(n + '.cond', tuple(x if x.isalnum() else f'({x})' for x in CONDS))
        t += f'\n AT {triple(n + ".at")} {ref(n + ".at")}'
        if some_(n + '.rotated'): t += f'\n ROTATED {triple(n + ".rot", ("90", "-45.5", "0"))} {ref(n + ".rot")}'
        names.append(nm)
        if some_(n + '.group', 3): t += f'\n GROUP {c(n + ".groupname", ("g", "h"))}'
        t += '\n' + block('EXTEND', n + '.extend', 3)
        for j in range(vc.size(n + '.jumps', 0, 2)):
            t += 'JUMP ' + c(f'{n}.jump{j}', (names[0], 'MYSELF', 'PREVIOUS', 'NEXT', 'NEXT(2)', 'PREVIOUS(2)', nm, 'c9')) + c(f'{n}.how{j}', (' WHEN ', ' ITERATE ')) + c(f'{n}.jcond{j}', CONDS + ('3',)) + '\n'
        out.append(t + metas(n))
    out += [block('SAVE', 'save', 3), block('FINALLY', 'final', 3), 'END\n']
    return ''.join(out)


def contents(i):
    """what an instrument says"""
    def ex(x):
        if x is None: return None
        return [val(y) for y in (x.expr if hasattr(x, 'expr') else [x])]
    def val(y):
        if hasattr(y, '_value'):
            v, t = y.value, getattr(y.data_type, 'name', '')
            if isinstance(v, (list, tuple)): v = [val(z) if hasattr(z, '_value') or hasattr(z, 'op') else z for z in v]
            return ('v', float(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v)
        if hasattr(y, 'op'):
            parts = [p for n in ('first', 'second', 'third', 'left', 'right', 'value', 'values') for p in ([getattr(y, n)] if hasattr(y, n) else [])]
            if y.op == '__group__' and len(parts) == 1:   # parentheses: only the order of evaluation matters
                g = parts[0]
                return val(g[0]) if isinstance(g, (list, tuple)) and len(g) == 1 else val(g)
            return (y.op,) + tuple(tuple(val(z) for z in p) if isinstance(p, (list, tuple)) else val(p) for p in parts)
        return y
    def typed(x): return (ex(x),) + ((x.data_type.name, x.shape_type.name) if type(x.expr[0]).__name__ == 'Value' else ())
    def code_(cs): return '\n'.join(str(x.source).strip() for x in cs).strip()
    def metas(ms): return [(m.name, m.mimetype, m.value) for m in ms]
    def vec(v): return [ex(v.x), ex(v.y), ex(v.z)]
    def ref(r): return None if r is None else r.name
    index = {c.name: k for k, c in enumerate(i.components)}
    def jump(k, j):
        return (j.relative_target if j.relative_target or j.target == 'MYSELF' else j.target, bool(j.iterate), ex(j.condition))
    d = dict(name=i.name, parameters=[(p.name, p.unit, *typed(p.value)) for p in i.parameters], metadata=metas(i.metadata), flags=' '.join(i.flags).split(),
             **{k: code_(getattr(i, k)) for k in SECTIONS}, groups={k: [ref(m) for m in g.members] for k, g in i.groups.items()})
    for k, c in enumerate(i.components):
        d[f'component {k}'] = dict(name=c.name, type=c.type.name, at=vec(c.at_relative[0]), at_ref=ref(c.at_relative[1]), rot=vec(c.rotate_relative[0]), rot_ref=ref(c.rotate_relative[1]),
                                   parameters={p.name: typed(p.value) for p in c.parameters}, removable=c.removable, cpu=c.cpu, split=ex(c.split), when=ex(c.when), group=c.group, extend=code_(c.extend),
                                   jump=[jump(k, j) for j in c.jump], metadata=metas(c.metadata))
    return d


def read_text(text):
    """the real reader, in a directory of its own"""
    import os, tempfile, shutil
    from mccode_antlr.reader import Reader
    from mccode_antlr.reader.registry import InMemoryRegistry
    r = InMemoryRegistry('memory')
    for n, t in COMPS.items(): r.add_comp(n, t)
    d, old = tempfile.mkdtemp(), os.getcwd()
    os.chdir(d)
    try:
        with open('x.instr', 'w', encoding='utf-8') as f: f.write(text)
        return Reader(registries=[r]).get_instrument('x.instr')
    finally:
        os.chdir(old)
        shutil.rmtree(d)


@harness('W01', 'instruments: read, written and read again', [IR + 'Instr.to_file', IR + 'Instr.to_string', IR + 'Instr.__str__', IN + 'Instance.to_file', 'src/mccode_antlr/reader/reader.py Reader.get_instrument'], sym=False, weight=6)
def h_round(vc):
    text = an_instr(vc)
    try: i = read_text(text)
    except Exception: raise Discard()
    o = vc.run(str, i)
    vc.check(not o.raised, 'an instrument can be written', lambda: f'{o}\n{text}')
    out = o.value
    o = vc.run(read_text, out)
    vc.check(not o.raised, 'a written instrument can be read', lambda: f'{o}\n{text}\n--- written:\n{out}')
    a, b = contents(i), contents(o.value)
    for k in a: vc.check(k in b and a[k] == b[k], 'a written instrument reads back as the same', lambda: f'{k}:\n{a[k]}\n{b.get(k)}\n{text}\n--- written:\n{out}')
    vc.check(a.keys() == b.keys(), 'a written instrument reads back as the same', lambda: out)
    o = vc.run(str, o.value)
    vc.check(not o.raised, 'an instrument can be written', lambda: f'{o}')
