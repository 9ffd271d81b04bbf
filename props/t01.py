"""T01: the generated TRACE code sends a particle through the components as SPLIT, WHEN, GROUP, JUMP and RESTORE say"""
import zlib
from vc.api import harness, Discard
from .ctext import Parser, Text, BadC, lvalue, N

R = 'mccode_antlr/translators/c_raytrace.py:'
T = 'mccode_antlr/translators/target.py:'


def RT():
    import mccode_antlr.translators.c_raytrace as r
    return r


def H(*a): return zlib.crc32(repr(a).encode())


class Part:
    """a particle.  pos, wt: its physical state and its weight (opaque); frame: in whose coordinates pos is given (ghost)"""
    F = ('pos', 'wt', 'frame', 'index', 'absorbed', 'scattered', 'restore', 'flag', 'rand')
    def __init__(self, **k):
        for f in self.F: setattr(self, f, k.get(f))
        self.cnt = dict(k.get('cnt', {}))
    def assign(self, o):
        for f in self.F: setattr(self, f, getattr(o, f))
        self.cnt = dict(o.cnt)
        return self
    def copy(self): return Part().assign(self)


class Return(BaseException): pass


PLACES = {'ABSORBED': 'absorbed', '_particle->_absorbed': 'absorbed', 'SCATTERED': 'scattered', '_particle->_scattered': 'scattered', 'RESTORE': 'restore', '_particle->_restore': 'restore',
          '_particle->_index': 'index', '_particle->flag_nocoordschange': 'flag', 'p': 'wt', '_particle->p': 'wt', '_particle->randstate': 'rand'}
BOOLS = ('absorbed', 'scattered', 'restore', 'flag')


class Machine:
    """runs the generated statements.  What they call is under contract: class_X_trace by `trace`, mccoordschange and coords_* are changes of the frame,
    particle_restore(a, b) gives a the physical state of b and clears its ABSORBED and RESTORE flags"""
    def __init__(self, P, part):
        self.P, self.part = P, part
        self.structs, self.vars = {}, {}
        self.steps = 0

    # to be defined: expr_value(text), trace(type, var, part), frame_of(var, place), set_flag_off(part), truth(x)
    def truth(self, x): return bool(x)

    def call_other(self, name, args): raise BadC(f'unknown function {name}')

    def place(self, n):
        k = lvalue(n)
        if k in self.vars: return ('var', k)
        if k in PLACES: return ('part', PLACES[k])
        if k.startswith('_particle->_logic.'): return ('cnt', k[len('_particle->_logic.'):])
        return ('struct', k)

    def read(self, n):
        kind, k = self.place(n)
        if kind == 'var': return self.vars[k]
        if kind == 'part': return getattr(self.part, k)
        if kind == 'cnt': return self.counter(self.part, k)
        raise BadC(f'unknown name {k}')

    def counter(self, part, k):
        if k not in part.cnt: raise BadC(f'{k} is used before it has a value')
        return part.cnt[k]

    def write(self, n, v):
        kind, k = self.place(n)
        if kind == 'var': self.vars[k] = v
        elif kind == 'cnt': self.part.cnt[k] = v
        elif kind == 'part':
            if k in BOOLS: v = v if isinstance(v, bool) else (v != 0)
            if k == 'flag' and v is False: self.flag_off(self.part)
            setattr(self.part, k, v)
        else: raise BadC(f'unknown place {k}')

    def flag_off(self, part): pass

    def struct(self, n):
        """the particle which an expression of struct type is"""
        if n.kind == 'paren': return self.struct(n.a[0])
        if n.kind == 'un' and n.a[0] == '*' and n.a[1].kind == 'id' and n.a[1].a[0] == '_particle': return self.part
        if n.kind == 'id' and n.a[0] in self.structs: return self.structs[n.a[0]]
        return None

    def pointer(self, n):
        if n.kind == 'id' and n.a[0] == '_particle': return self.part
        if n.kind == 'un' and n.a[0] == '&': return self.struct(n.a[1])
        raise BadC(f'not a particle: {n}')

    # ---- expressions
    def ev(self, n):
        k = n.kind
        if k == 'paren': return self.ev(n.a[0])
        if k == 'num': return int(n.a[0]) if n.a[0].isdigit() else float(n.a[0])
        if k == 'id' and any('\ue000' <= c <= '\uf8ff' for c in n.a[0]):
            return self.unknown(n.a[0])
        if k in ('id', 'mem'):
            if lvalue(n).startswith('_instrument_var._parameters.'): return self.parameter(lvalue(n)[len('_instrument_var._parameters.'):])
            if k == 'mem' and n.a[2] in ('_rotation_is_identity', '_position_relative_is_zero'): return self.fact(lvalue(n.a[1]), n.a[2])
            if k == 'id' and self.place(n)[0] == 'struct' and n.a[0] not in self.structs: return self.free(n.a[0])
            return self.read(n)
        if k == 'un':
            o = n.a[0]
            if o == '!': return self.not_(self.as_bool(self.ev(n.a[1])))
            if o == '-': return -self.ev(n.a[1])
            if o == '+': return self.ev(n.a[1])
            if o in ('++', '--'):
                v = self.inc(n.a[1], o)
                return v
            if o == '*': return self.read(n.a[1])   # the first element of an array
        if k == 'bin':
            o = n.a[0]
            if o in ('&&', '||'):
                a = self.truth(self.ev(n.a[1]))
                if o == '&&': return self.truth(self.ev(n.a[2])) if a else False
                return True if a else self.truth(self.ev(n.a[2]))
            for x in n.a[1:]:
                if x.kind == 'id' and len(x.a[0]) == 1 and self.is_expression(x.a[0]): raise BadC('an expression as an operand needs parentheses')
            a, b = self.ev(n.a[1]), self.ev(n.a[2])
            if o == '==': return a == b
            if o == '!=': return a != b
            if o == '<': return a < b
            if o == '>': return a > b
            if o == '<=': return a <= b
            if o == '>=': return a >= b
            if o == '+': return a + b
            if o == '-': return a - b
            if o == '*': return a * b
        if k == 'cond': return self.ev(n.a[1]) if self.truth(self.ev(n.a[0])) else self.ev(n.a[2])
        raise BadC(f'expression {n}')

    def is_expression(self, ch): return False
    def not_(self, x): return not x
    def as_bool(self, v): return v

    def inc(self, n, o):
        v = self.ev(n)
        if isinstance(v, bool) or self.place(n) in (('part', b) for b in BOOLS): v = True if o == '++' else None
        else: v = v + 1 if o == '++' else v - 1
        if v is None: raise BadC('--')
        self.write(n, v)
        return v

    # ---- statements
    def run(self, ss):
        for s in ss: self.stmt(s)

    def stmt(self, s):
        self.steps += 1
        k = s.kind
        if k in ('pp', 'empty'): return
        if k == 'block': return self.run(s.a[0])
        if k == 'if':
            if self.truth(self.ev(s.a[0])): self.stmt(s.a[1])
            elif s.a[2] is not None: self.stmt(s.a[2])
            return
        if k == 'while':
            while self.truth(self.ev(s.a[0])): self.stmt(s.a[1])
            return
        if k == 'for': return self.for_(s)
        if k == 'return': raise Return()
        if k == 'decl': return self.decl(s)
        if k == 'expr': return self.exprst(s.a[0])
        raise BadC(f'{k} statement')

    def for_(self, s):
        self.stmt(s.a[0])
        while s.a[1] is None or self.truth(self.ev(s.a[1])):
            self.stmt(s.a[3])
            if s.a[2] is not None: self.exprst(s.a[2])

    def decl(self, s):
        for name, ptr, dims, init in s.a[1]:
            if s.a[0] == '_class_particle' and not ptr:
                self.structs[name] = self.blank()
                if init is not None:
                    v = self.struct(init)
                    if v is None: raise BadC(f'{init}')
                    self.structs[name].assign(v)
            elif s.a[0] == 'randstate_t' or init is None: self.vars[name] = self.ev(init) if init is not None else None
            else: self.vars[name] = self.ev(init)

    def blank(self): return Part(pos='undefined', wt='undefined', frame='undefined', index=0, absorbed=False, scattered=False, restore=False, flag=False, rand='undefined')

    def exprst(self, n):
        k = n.kind
        if k == 'comma':
            for x in n.a: self.exprst(x)
            return
        if k == 'assign':
            o, l, r = n.a
            dst = self.struct(l)
            if dst is not None and o == '=':
                src = self.struct(r)
                if src is None: raise BadC(f'{r}')
                dst.assign(src)
                return
            if l.kind == 'un' and l.a[0] == '*': l = l.a[1]
            if o == '=': return self.write(l, self.value_of(r))
            if o == '/=' and self.place(l) == ('part', 'wt'):
                self.part.wt = self.divided(self.part.wt, self.ev(r))
                return
            if o in ('+=', '-='): return self.write(l, self.ev(l) + (self.ev(r) if o == '+=' else -self.ev(r)))
            raise BadC(f'{n}')
        if k in ('post', 'un') and n.a[0] in ('++', '--'):
            self.inc(n.a[1], n.a[0])
            return
        if k == 'call' and n.a[0].kind == 'id': return self.call(n.a[0].a[0], n.a[1])
        raise BadC(f'{n}')

    def value_of(self, r): return self.ev(r)

    def call(self, f, args):
        if f.startswith('DEBUG_'): return
        if f == 'mccoordschange':
            p = self.pointer(args[2])
            v = self.comp_var(args[0], '_position_relative')
            if v != self.comp_var(args[1], '_rotation_relative'): raise BadC('position and rotation of different components')
            return self.transform(p, v, False)
        if f == 'coords_get':
            # coords_get(coords_add(coords_set(x, y, z), _c_var._position_relative), &x, &y, &z)
            a = args[0]
            xyz = [('&' + c) for c in 'xyz']
            ok = (a.kind == 'call' and a.a[0].a[0] == 'coords_add' and a.a[1][0].kind == 'call' and a.a[1][0].a[0].a[0] == 'coords_set'
                  and [lvalue(x) for x in a.a[1][0].a[1]] == ['x', 'y', 'z'] and [x.kind == 'un' and x.a[0] + lvalue(x.a[1]) for x in args[1:]] == xyz)
            if not ok: raise BadC('coords_get')
            return self.transform(self.part, self.comp_var(a.a[1][1], '_position_relative'), True)
        if f == 'particle_restore':
            a, b = self.pointer(args[0]), self.pointer(args[1])
            a.pos, a.wt, a.frame = b.pos, b.wt, b.frame
            a.absorbed = a.restore = False
            return
        if f.startswith('class_') and f.endswith('_trace'):
            if not (args[0].kind == 'un' and args[0].a[0] == '&'): raise BadC('class_..._trace')
            return self.trace(f[6:-6], self.var_name(lvalue(args[0].a[1])), self.pointer(args[1]))
        return self.call_other(f, args)

    def comp_var(self, n, member):
        if n.kind != 'mem' or n.a[2] != member: raise BadC(f'{member} expected, not {n}')
        return self.var_name(lvalue(n.a[1]))

    def var_name(self, k):
        if not (k.startswith('_') and k.endswith('_var')): raise BadC(f'not a component: {k}')
        return k[1:-4]


def function_named(P, name):
    """the body of a function of the text"""
    for i, (k, v, b, e) in enumerate(P.toks):
        if k == 'id' and v == name and i + 1 < len(P.toks) and P.toks[i + 1][1] == '(' and i and (P.toks[i - 1][1] in P.types or P.toks[i - 1][1] == '*'):
            j = i
            while j and (P.toks[j - 1][1] == '*' or P.toks[j - 1][1] in P.types or P.toks[j - 1][1].startswith('_class_')): j -= 1
            P.i = j
            f = P.declaration()
            if f.kind == 'function': return f
    raise BadC(f'no function {name}')


# ------------------------------------------------------------------ what the keywords mean
class Rules:
    """the meaning of one component for one particle, as the manual has it.  w: w.cond(c, p, then, otherwise) is `if`"""
    def __init__(self, w): self.w = w

    def component(self, c, p):
        """c: index, code, group (None, or (is_last, last index)), with what they do: c.arrive(p), c.when_value(p), c.trace(p), c.jump(p)"""
        w = self.w
        w.cond(w.and_(w.not_(p.absorbed), p.index == c.index + 1), p, lambda p: self.inside(c, p))

    def inside(self, c, p):
        w = self.w
        c.arrive(p)
        p.flag = False
        before = p.pos, p.wt, p.frame
        def back(p):
            p.pos, p.wt, p.frame = before
            p.absorbed = p.restore = False
        if c.group is not None: p.scattered = False
        def trace(p):
            c.trace(p)
            w.cond(p.restore, p, back)
        if c.code: w.cond(True if not c.when else c.when_value(p), p, trace)
        c.jump(p)
        if c.group is not None:
            last, lid = c.group
            def leave(p): p.index = lid + 1
            def absorb(p): p.absorbed = True
            w.cond(p.scattered, p, leave, absorb if last else back)
        p.index = p.index + 1


class Plain:
    def cond(self, c, p, then, otherwise=None):
        if c: then(p)
        elif otherwise is not None: otherwise(p)
    def and_(self, a, b): return a and b
    def not_(self, a): return not a


# ------------------------------------------------------------------ instruments made at random: the generated function against the rules
class Sim(Machine):
    def __init__(self, P, part, world):
        super().__init__(P, part)
        self.w = world
    def stmt(self, s):
        if self.steps > 6000: raise Discard()
        super().stmt(s)
    def parameter(self, name): return self.w.par(name, self.part)
    def free(self, name): return self.w.par(name, self.part)
    def fact(self, var, what):
        c = self.w.by[self.var_name(var)]
        return c.ident if what == '_rotation_is_identity' else c.zero
    def transform(self, p, v, shift_only):
        c = self.w.by[v]
        if c.ident and c.zero: return
        f = self.w.canon(c.L)
        if p.frame != f or shift_only and not c.ident: p.pos, p.frame = H('mangled', p.pos), c.index
        else: p.frame = c.index
    def flag_off(self, p):
        if self.truth(p.flag): self.w.reinterpret(p, p.index - 1)
    def trace(self, ty, var, p):
        c = self.w.by[var]
        if c.inst.type.name != ty: raise BadC(f'{ty} is not the type of {var}')
        self.w.reinterpret(p, c.index)
        self.w.trace(c, p)
    def divided(self, w, n): return w / n
    def call_other(self, f, args): raise BadC(f'unknown function {f}')
    def counter(self, part, k): return part.cnt[k]


class World:
    def __init__(self, comps, skip, table, seed):
        self.comps, self.skip, self.table, self.seed = comps, skip, table, seed
        self.by = {c.inst.name: c for c in comps}
        self.log = []
        last = -1
        for i, c in enumerate(comps):
            c.L, c.index = last, i
            if not skip[i]: last = i
        self.fr = {}
        for c in comps: self.fr[c.index] = self.canon(c.L) if c.ident and c.zero else c.index
        self.fr[-1] = -1
    def canon(self, i): return self.fr[i] if i in self.fr else -1
    def par(self, name, p):
        t = self.table.get(name)
        if t is None: raise BadC(f'unknown name {name}')
        if t == 'state': return H(self.seed, name, p.pos) % 2
        return t
    def reinterpret(self, p, i):
        """the numbers are taken for coordinates of component i"""
        if p.frame != self.canon(i):
            p.pos, p.frame = H('as', p.frame, self.canon(i), p.pos), self.canon(i)
    def trace(self, c, p):
        self.log.append((c.inst.name, p.pos, p.wt, p.rand))
        if len(self.log) > 300: raise Discard()
        h = H(self.seed, c.inst.name, p.pos, p.rand)
        p.pos, p.rand = H('t', h), H('r', p.rand)
        p.absorbed, p.scattered, p.restore = h % 9 == 0, (h >> 4) % 2 == 0, (h >> 8) % 6 == 0
        if p.absorbed: p.restore = False


class CInfo: pass


def make_types():
    from mccode_antlr.comp.comp import Comp
    from mccode_antlr.common import RawC
    block = lambda t: (RawC('x.comp', 1, t),)
    return [Comp(name='Source', trace=block('x += 1;')), Comp(name='Slit', trace=block('y += 1;')), Comp(name='Arm')]


def random_instrument(vc, jumps=True, splits=True):
    from mccode_antlr.instr.instr import Instr
    from mccode_antlr.instr.instance import Instance
    from mccode_antlr.instr.jump import Jump
    from mccode_antlr.common import Expr, RawC, InstrumentParameter
    from mccode_antlr.instr.orientation import Vector, Angles
    types = make_types()
    n = vc.size('n', 1, 7)
    table, comps = {}, []
    pars = []
    def par(name, value):
        table[name] = value
        pars.append(name)
        return name
    groups, g, cur = [], 0, None
    for i in range(n):
        k = f'c{i}'
        t = types[vc.choice(f'{k}.type', (0, 1, 1, 2))]
        inst = Instance(k, t, (Vector(), None), (Angles(), None))
        if vc.choice(f'{k}.extend', (False, False, True)): inst.EXTEND(RawC('x.instr', 2, 'z += 1;'))
        grp = vc.choice(f'{k}.group', ('no', 'no', 'same', 'new'))
        if grp == 'new' or grp == 'same' and cur is None: g += 1; cur = f'g{g}' if grp == 'new' or vc.bool(f'{k}.lone') else None
        elif grp == 'no': cur = None
        inst.group = cur
        groups.append(cur)
        comps.append(inst)
    for i, inst in enumerate(comps):
        k = inst.name
        w = vc.choice(f'{k}.when', ('no', 'no', 'parameter', 'state', 'or'))
        if w == 'parameter': inst.when = Expr.parse(par(f'w{i}', vc.choice(f'{k}.w', (0, 1))))
        elif w == 'state':
            table[f's{i}'] = 'state'
            inst.when = Expr.parse(f's{i}')
        elif w == 'or':
            table[f's{i}'] = 'state'
            inst.when = Expr.parse(f'{par(f"w{i}", vc.choice(f"{k}.w", (0, 1)))} > 0 || s{i}')
    has_jump = [False] * n
    if jumps:
        for i, inst in enumerate(comps):
            if inst.group is not None: continue
            js = []
            for q in range(vc.choice(f'c{i}.jumps', (0, 0, 0, 1, 1, 2))):
                k = f'c{i}.j{q}'
                to = vc.size(f'{k}.to', 0, n - 1)
                if comps[to].group is not None and to and comps[to - 1].group == comps[to].group: continue
                it = vc.bool(f'{k}.iterate')
                if it:
                    kind = vc.choice(f'{k}.cond', ('number', 'parameter', 'choice'))
                    v = vc.choice(f'{k}.n', (0, 1, 2, 3))
                    cond = str(v) if kind == 'number' else par(f'n{i}{q}', v) if kind == 'parameter' else f'{par(f"n{i}{q}", v % 2)} ? {v} : 1'
                else:
                    if vc.bool(f'{k}.state') or to <= i:
                        table[f'k{i}{q}'] = 'state'
                        cond = f'k{i}{q}'
                    else: cond = par(f'k{i}{q}', vc.choice(f'{k}.value', (0, 1)))
                style = vc.choice(f'{k}.style', ('name', 'relative'))
                rel = to - i
                if style == 'name' and rel: js.append(Jump(comps[to].name, 0, it, Expr.parse(cond)))
                elif rel == 0: js.append(Jump('MYSELF', 0, it, Expr.parse(cond)))
                else: js.append(Jump(f'PREVIOUS_{-rel}' if rel < 0 else f'NEXT_{rel}', rel, it, Expr.parse(cond)))
                if it and any(x.iterate and x.target == js[-1].target for x in js[:-1]): js.pop()
            inst.jump = tuple(js)
    if splits:
        for i, inst in enumerate(comps):
            if i and comps[i - 1].group is not None and comps[i - 1].group == inst.group: continue
            if any(j.relative_target <= 0 and (j.target == 'MYSELF' or j.relative_target < 0 or [c.name for c in comps].index(j.target) <= q)
                   for q in range(i, n) for j in comps[q].jump): continue
            s = vc.choice(f'c{i}.split', ('no', 'no', 'no', 'number', 'parameter'))
            if s == 'number': inst.split = Expr.parse(str(vc.choice(f'c{i}.splitn', (1, 2, 3))))
            elif s == 'parameter': inst.split = Expr.parse(par(f'm{i}', vc.choice(f'c{i}.splitn', (0, 1, 2, 3))))
    instr = Instr('ins', 'ins.instr')
    for p in pars: instr.add_parameter(InstrumentParameter.parse(f'int {p}'), ignore_repeated=True)
    for inst in comps: instr.add_component(inst)
    instr.verify_instance_parameters()
    for inst in comps:
        for e in [inst.when, inst.split] + [j.condition for j in inst.jump]:
            if e is not None: e.verify_parameters(pars)
    return instr, table


def reference(instr, world, part, jumps=True):
    """the rules, for a whole instrument"""
    R_ = Rules(Plain())
    comps, n = instr.components, len(instr.components)
    names = [c.name for c in comps]
    val = lambda e, p: world.value(e, p)
    infos = []
    for i, inst in enumerate(comps):
        c = CInfo()
        c.index, c.inst = i, inst
        c.code = bool(len(inst.type.trace) or len(inst.extend))
        c.when = inst.when is not None
        members = [q for q in range(n) if inst.group is not None and comps[q].group == inst.group]
        c.group = None if inst.group is None else (i == members[-1], members[-1])
        def arrive(p, i=i):
            if p.flag: world.reinterpret(p, i)
            elif not world.skip[i]: p.frame = world.canon(i)
        c.arrive = arrive
        c.when_value = lambda p, inst=inst: val(inst.when, p) != 0
        c.trace = lambda p, i=i: world.trace(world.comps[i], p)
        def jump(p, i=i, inst=inst):
            if not jumps: return
            for j in inst.jump:
                to = names.index(j.target) if j.target in names else i + j.relative_target
                key = i, j.target
                if j.iterate:
                    p.cnt[key] = p.cnt.get(key, 0) + 1
                    if p.cnt[key] < val(j.condition, p): p.index, p.flag = to, True
                    else: p.cnt[key] = 0
                elif val(j.condition, p): p.index, p.flag = to, True
        c.jump = jump
        infos.append(c)
    def go(p, i):
        while i < n:
            if comps[i].split is not None and not p.absorbed:
                base, m = p.copy(), val(comps[i].split, p)
                for _ in range(m):
                    r = p.rand
                    p.assign(base)
                    p.rand = r
                    p.wt = p.wt / m
                    R_.component(infos[i], p)
                    go(p, i + 1)
                return
            R_.component(infos[i], p)
            i += 1
    steps = 0
    while not part.absorbed:
        go(part, 0)
        steps += 1
        if steps > 60: raise Discard()
        if part.index > n: part.absorbed = True


def value_of_expr(world, e, p):
    """an expression of the random instrument (names, numbers, >, ||, ?:)"""
    t = str(e).replace('||', ' or ')
    if '?' in t:
        a, b = t.split('?')
        x, y = b.split(':')
        t = f'(({x}) if ({a}) else ({y}))'
    import re
    env = {k: world.par(k, p) for k in set(re.findall(r'[A-Za-z_]\w*', t)) if k in world.table}
    return int(eval(t, {}, env))


def reworked(vc, instr):
    """the same instrument, by another way"""
    how = vc.choice('how', ('made', 'copied', 'second part', 'translated before'))
    from mccode_antlr.translators.target import TargetVisitor
    if how == 'copied': return instr.copy()
    if how == 'translated before':
        v = TargetVisitor(instr); v.translate()
        return instr
    if how == 'second part':
        v = TargetVisitor(instr); v.translate()
        k = vc.size('part', 0, len(instr.components) - 1)
        names = [c.name for c in instr.components]
        for i, c in enumerate(instr.components):
            if i >= k and any((names.index(j.target) if j.target in names else i + j.relative_target) < k for j in c.jump): raise Discard()
        return instr.split(instr.components[k].name)[1]
    return instr


@harness('T01', 'raytrace: random instruments', [R + 'cogen_raytrace', T + 'TargetVisitor.set_jump_absolute_targets', T + 'TargetVisitor.detect_skipable_transforms', T + 'TargetVisitor.translate',
                                             'mccode_antlr/instr/instr.py:Instr.determine_groups', 'mccode_antlr/instr/group.py:Group'], sym=False)
def h_random(vc):
    random_run(vc, False)


@harness('T01', 'funnel: random instruments', [R + 'cogen_funnel'], sym=False)
def h_random_funnel(vc):
    random_run(vc, True)


def quiet(f, *a):
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()): return f(*a)


def random_run(vc, funnel):
    from fractions import Fraction
    from mccode_antlr.translators.target import TargetVisitor
    r = RT()
    instr, table = random_instrument(vc, jumps=not funnel, splits=not funnel)
    if funnel:
        for c in instr.components: c.cpu = vc.bool(f'{c.name}.cpu')
    instr = reworked(vc, instr)
    def gen():
        v = TargetVisitor(instr)
        v.translate()
        return v.ok_to_skip, (r.cogen_funnel if funnel else r.cogen_raytrace)(instr, v.ok_to_skip)
    out = vc.run(quiet, gen)
    vc.check(not out.raised, 'code is generated', out)
    skip, text = out.value
    def world():
        infos = []
        for c in instr.components:
            i = CInfo()
            i.inst = c
            i.ident, i.zero = facts[c.name]
            infos.append(i)
        w = World(infos, skip, table, seed)
        w.value = lambda e, p: value_of_expr(w, e, p)
        return w
    facts = {c.name: (vc.bool(f'{c.name}.ident'), vc.bool(f'{c.name}.zero')) for c in instr.components}
    seed = vc.int('seed', 0, 10 ** 6)
    start = lambda: Part(pos=1, wt=Fraction(1), frame=-1, index=1, absorbed=False, scattered=bool(seed % 2), restore=False, flag=False, rand=7)
    w1, w2 = world(), world()
    reference(instr, w2, start())
    try:
        P = Parser(text, types=('_class_particle',))
        f = function_named(P, 'raytrace_all_funnel' if funnel else 'raytrace')
        if funnel:
            m = Sim(P, start(), w1)
            m.vars['multicore'] = 0
            run_funnel(m, f)
        else:
            m = Sim(P, start(), w1)
            for c in instr.components:
                for j in c.jump: m.part.cnt[f'Jump_{c.name}_{j.target}'] = 99
            try: m.run(f.a[3].a[0])
            except Return: pass
    except BadC as e:
        vc.check(False, 'the generated code can be run', str(e))
        return
    vc.check(w1.log == w2.log, 'the components see the particles which the rules send to them, in that order', lambda: f'{w1.log} {w2.log}\n{text[:9000]}')


class FunnelSim(Sim): pass


def run_funnel(m, f):
    """the loops over particles, for one particle"""
    def loops(n):
        out = []
        for s in n:
            if s.kind == 'for' and s.a[0].kind == 'decl' and s.a[0].a[1][0][0] == 'pidx': out.append(s)
            elif s.kind in ('for',): out += loops([s.a[3]])
            elif s.kind == 'block': out += loops(s.a[0])
        return out
    ls = loops(f.a[3].a[0])
    if not ls: raise BadC('no loops over particles')
    for s in ls[1:]:   # the first one makes the particles
        c = s.a[1]
        if not (c.kind == 'bin' and c.a[0] == '<' and lvalue(c.a[2]) == 'livebatchsize'): raise BadC('the loop is over all particles')
        body = s.a[3].a[0]
        got = False
        for b in body:
            if b.kind == 'decl' and b.a[1][0][0] == '_particle':
                i = b.a[1][0][3]
                if not (i.kind == 'un' and i.a[0] == '&' and i.a[1].kind == 'idx' and lvalue(i.a[1].a[0]) == 'particles' and lvalue(i.a[1].a[1]) == 'pidx'): raise BadC('_particle')
                got = True
                continue
            if not got: raise BadC('_particle is not set')
            m.stmt(b)


# ------------------------------------------------------------------ proofs: the code of one arbitrary component, of one arbitrary jump, and what is around them
class ExprText:
    """an expression by the contract of its printing (E03): a text which is one operand, with its value as a function of the state of the particle"""
    __vc_sym__ = True
    def __init__(self, S, name, real=True): self.S, self.name, self.real = S, name, real
    def __format__(self, spec):
        from vc.core import SStr, Atom
        k = len(self.S.exprs)
        a = Atom(self.S.z3.String(f'{self.name}.text{k}'), f'{self.name}.text{k}', '', True, 'text')
        self.S.exprs[id(a)] = (self, spec, a)
        return SStr([a])
    def __vc_type__(self):
        from mccode_antlr.common import Expr
        return Expr
    def __vc_isinstance__(self, t):
        from mccode_antlr.common import Expr
        return t is Expr or isinstance(t, tuple) and Expr in t
    def value(self, p): return (self.S.fnr if self.real else self.S.fn)('value_' + self.name, p.pos, p.wt, self.S.cf(p.frame))
    def __str__(self): return self.__format__('')
    def __repr__(self): return f'<{self.name}>'


class SymSpec:
    """one harness run: functions for what components and expressions do, the component under consideration; conditions are merged, not followed one by one"""
    def __init__(self, vc):
        import z3
        self.vc, self.z3 = vc, z3
        self.exprs, self.guards, self.log, self.comp, self.passed, self.made, self.jmade = {}, [], [], None, [], [], []
        self.calls, self.indexed, self.count, self.placeholder = {}, [], 0, {}
    # terms
    def t(self, a):
        z3 = self.z3
        if isinstance(a, bool): return z3.BoolVal(a)
        if isinstance(a, int): return z3.IntVal(a)
        from fractions import Fraction
        if isinstance(a, (float, Fraction)): return z3.RealVal(str(a))
        return a.t if hasattr(a, 't') else a
    def f(self, name, out, *args):
        t = [self.t(a) for a in args]
        return self.z3.Function('f_' + name, *[x.sort() for x in t], out)(*t)
    def fn(self, name, *a):
        from vc.core import SInt
        return SInt(self.f(name, self.z3.IntSort(), *a))
    def fnr(self, name, *a):
        from vc.core import SReal
        return SReal(self.f(name, self.z3.RealSort(), *a))
    def fnb(self, name, *a):
        from vc.core import SBool
        return SBool(self.f(name, self.z3.BoolSort(), *a))
    def and_(self, *a): return self.vc.and_(*a)
    def or_(self, *a): return self.vc.or_(*a)
    def not_(self, a): return self.vc.not_(a)
    def bool(self, a):
        from vc.core import SBool
        return a if isinstance(a, (bool, SBool)) else a != 0
    def ite(self, c, a, b):
        from vc.core import SInt, SReal, SBool
        if a is b: return a
        x, y = self.t(a), self.t(b)
        if x.sort() != y.sort():
            z3 = self.z3
            if not {x.sort(), y.sort()} <= {z3.IntSort(), z3.RealSort()}: raise BadC('a value of another type')
            x, y = [z3.ToReal(q) if z3.is_int(q) else q for q in (x, y)]
        r = self.z3.simplify(self.z3.If(self.t(c), x, y))
        return SBool(r) if self.z3.is_bool(r) else SInt(r) if self.z3.is_int(r) else SReal(r)
    def part(self, nm, restore=False):
        from vc.core import SInt, SBool, SReal
        z3 = self.z3
        self.count += 1
        nm = f'{nm}{self.count}'
        I, B = (lambda k: SInt(z3.Int(f'{nm}.{k}'))), (lambda k: SBool(z3.Bool(f'{nm}.{k}')))
        return Part(pos=I('pos'), wt=SReal(z3.Real(f'{nm}.wt')), frame=I('frame'), index=I('index'), absorbed=B('absorbed'), scattered=B('scattered'), restore=B('restore') if restore else False,
                    flag=B('flag'), rand=I('rand'), cnt={'*': I('counters')})
    def merge(self, c, a, b):
        r = Part(**{k: self.ite(c, getattr(a, k), getattr(b, k)) for k in Part.F})
        if set(a.cnt) != set(b.cnt): raise BadC('counters')
        r.cnt = {k: self.ite(c, a.cnt[k], b.cnt[k]) for k in a.cnt}
        return r
    def decided(self, c):
        """a condition which is no longer open"""
        if isinstance(c, bool): return c
        t = self.z3.simplify(self.t(c))
        return True if self.z3.is_true(t) else False if self.z3.is_false(t) else None
    def guard(self): return self.and_(True, *self.guards)
    def cond(self, c, p, then, otherwise=None):
        """if, for the rules"""
        c = self.bool(c)
        d = self.decided(c)
        if d is not None:
            if d: then(p)
            elif otherwise is not None: otherwise(p)
            return
        q = p.copy()
        self.guards.append(c); then(p); self.guards.pop()
        if otherwise is not None:
            self.guards.append(self.not_(c)); otherwise(q); self.guards.pop()
        p.assign(self.merge(c, p, q))
    def check(self, c, label): self.vc.check(self.vc.implies(self.guard(), c), label)
    # what things do
    def cf(self, frame):
        """the frame of a component without shift and rotation is that of the component before"""
        c = self.comp
        return self.ite(self.and_(frame == c.index, c.ident, c.zero), c.L, frame)
    def taken_for(self, p, i):
        """the numbers are taken for coordinates of component i"""
        p.pos, p.frame = self.ite(self.cf(p.frame) == self.cf(i), p.pos, self.fn('as', p.pos, self.cf(p.frame), i)), i
    def trace(self, p):
        self.log.append((self.guard(), p.pos, p.wt, p.rand))
        a = p.pos, p.wt, p.rand
        p.pos, p.rand, p.wt = self.fn('trace_pos', *a), self.fn('trace_rand', *a), self.fnr('trace_wt', *a)
        p.absorbed, p.scattered, p.restore = (self.fnb('trace_' + k, *a) for k in ('absorbed', 'scattered', 'restore'))
        p.restore = self.and_(p.restore, self.not_(p.absorbed))
    def jumps(self, p):
        """what the JUMPs of the component do together: nothing, or another component is next (harness: each jump)"""
        a = p.pos, p.wt, self.cf(p.frame), p.cnt['*'], p.index
        to, go = self.fn('jump_to', *a), self.fnb('jump_go', *a)
        self.vc.assume(self.and_(to >= 0, to != self.ghost))
        p.cnt = {**p.cnt, '*': self.fn('jump_counters', *a)}
        p.index, p.flag = self.ite(go, to, p.index), self.or_(go, p.flag)


class SymMachine(Machine):
    def __init__(self, P, part, S):
        super().__init__(P, part)
        self.S, self.rest = S, []
    def truth(self, x): raise BadC('a condition where there should be none')
    def atom(self, name):
        if len(name) != 1: raise BadC(f'unknown name {name!r}')
        return self.P.t.atom(name)
    def is_expression(self, ch): return len(ch) == 1 and '\ue000' <= ch <= '\uf8ff' and id(self.P.t.atom(ch)) in self.S.exprs
    def unknown(self, name):
        if name in self.vars: return self.vars[name]
        a = self.atom(name)
        if id(a) in self.S.exprs:
            e, spec, _ = self.S.exprs[id(a)]
            if spec != 'p': raise BadC(f'an expression printed with {spec!r}: parameters need their prefix')
            return e.value(self.part)
        if a.cls in ('num', 'int') and a.tag is not None:
            from vc.core import SInt
            return a.tag if not hasattr(a.tag, 'sort') else SInt(a.tag)
        raise BadC(f'unknown text {a.name}')
    def spells(self, key, *names):
        """does the text consist of these?"""
        out = ''
        for s in names:
            for x in ([s] if isinstance(s, str) else s.parts):
                if isinstance(x, str): out += x
                else:
                    k = [chr(0xE000 + i) for i, a in enumerate(self.P.t.atoms) if a is x]
                    if not k: return False
                    out += k[0]
        return key == out
    def check_comp(self, v):
        if self.S.comp is None or not self.spells(v, self.S.comp.inst.name): raise BadC(f'{v!r} is not the component')
    def fact(self, var, what):
        self.check_comp(self.var_name(var))
        return self.S.comp.ident if what == '_rotation_is_identity' else self.S.comp.zero
    def parameter(self, name): raise BadC(name)
    def free(self, name): raise BadC(f'unknown name {name}')
    def transform(self, p, v, shift_only):
        self.check_comp(v)
        S, c = self.S, self.S.comp
        ok = S.cf(p.frame) == S.cf(c.L)
        if shift_only: ok = S.and_(ok, c.ident)
        p.frame = S.ite(ok, c.index, -99)
    def trace(self, ty, var, p):
        S, c = self.S, self.S.comp
        self.check_comp(var)
        if not self.spells(ty, c.inst.type.name): raise BadC(f'{ty!r} is not the type of the component')
        if p is not self.part: raise BadC('the component is given another particle')
        S.check(S.cf(p.frame) == S.cf(c.index), 'the component sees the particle in its own coordinates')
        S.trace(p)
    def blank(self): return self.S.part('blank', True)
    def cnt_key(self, k):
        c = self.S.comp
        if c.jump is None or not self.spells(k, 'Jump_', c.inst.name, '_', c.jump.target): raise BadC(f'the counter {k!r}')
        return 'it'
    def counter(self, part, k): return part.cnt[self.cnt_key(k)]
    def write(self, n, v):
        kind, k = self.place(n)
        S = self.S
        if kind == 'part' and k in BOOLS:
            v = S.bool(v)
            if k == 'flag':
                d = S.decided(v)
                if d is None: raise BadC('flag')
                if not d: self.flag_off(self.part)
        if kind == 'part': setattr(self.part, k, v)
        elif kind == 'cnt': self.part.cnt = {**self.part.cnt, self.cnt_key(k): v}
        else: super().write(n, v)
    def flag_off(self, p):
        S = self.S
        if S.comp is None: return
        def as_target(p): S.taken_for(p, S.comp.index)
        S.cond(p.flag, p, as_target)
    def inc(self, n, o):
        kind, k = self.place(n)
        if kind == 'part' and k in BOOLS:
            if o != '++': raise BadC('--')
            self.write(n, True)
            return True
        v = self.ev(n)
        v = v + 1 if o == '++' else v - 1
        self.write(n, v)
        return v
    def ev(self, n):
        S = self.S
        if n.kind == 'bin' and n.a[0] in ('&&', '||'):
            if self.changes(n.a[2]): raise BadC('a change inside a condition')
            a, b = S.bool(self.ev(n.a[1])), S.bool(self.ev(n.a[2]))
            return S.and_(a, b) if n.a[0] == '&&' else S.or_(a, b)
        if n.kind == 'cond': return S.ite(S.bool(self.ev(n.a[0])), self.ev(n.a[1]), self.ev(n.a[2]))
        if n.kind == 'un' and n.a[0] == '!': return S.not_(S.bool(self.ev(n.a[1])))
        if n.kind == 'bin' and n.a[0] in ('==', '!='):
            a, b = self.ev(n.a[1]), self.ev(n.a[2])
            from vc.core import SBool
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (bool, SBool)) and not isinstance(y, (bool, SBool)):
                    if y not in (0, 1): raise BadC('a flag compared')
                    r = x if y == 1 else S.not_(x)
                    return r if n.a[0] == '==' else S.not_(r)
            return a == b if n.a[0] == '==' else S.not_(a == b)
        return super().ev(n)
    def changes(self, n):
        if not isinstance(n, N): return False
        if n.kind in ('assign', 'post') or n.kind == 'un' and n.a[0] in ('++', '--') or n.kind == 'call': return True
        return any(self.changes(x) for x in n.a)
    def state(self): return self.part.copy(), {k: v.copy() for k, v in self.structs.items()}, dict(self.vars)
    def stmt(self, s):
        S = self.S
        if s.kind == 'if':
            c = S.bool(self.ev(s.a[0]))
            d = S.decided(c)
            if d is not None:
                if d: self.stmt(s.a[1])
                elif s.a[2] is not None: self.stmt(s.a[2])
                return
            before = self.state()
            S.guards.append(c); self.stmt(s.a[1]); S.guards.pop()
            then = self.state()
            self.part.assign(before[0])
            for k, v in before[1].items(): self.structs[k].assign(v)
            self.vars = dict(before[2])
            if s.a[2] is not None:
                S.guards.append(S.not_(c)); self.stmt(s.a[2]); S.guards.pop()
            self.part.assign(S.merge(c, then[0], self.part))
            for k in list(self.structs):
                if k in before[1]: self.structs[k].assign(S.merge(c, then[1][k], self.structs[k]))
                else: del self.structs[k]
            self.vars = {k: S.ite(c, then[2][k], self.vars[k]) for k in before[2]}
            return
        if s.kind == 'while': return self.while_(s)
        super().stmt(s)
    def value_of(self, r): return self.ev(r)
    def divided(self, w, n):
        from vc.core import SReal, rterm
        return SReal(rterm(w) / rterm(n))
    def call_other(self, f, args):
        if f == 'REST': return self.rest.append((self.S.guard(), self.part.copy(), self.structs['_particle_save'].copy()))
        if f == 'JUMPS': return self.S.jumps(self.part)
        if f in self.S.calls: return self.S.calls[f](self)
        raise BadC(f'unknown function {f}')
    def decl(self, s):
        super().decl(s)
        for name, ptr, dims, init in s.a[1]:
            if s.a[0] == 'int' and init is not None:
                from vc.core import SReal
                if isinstance(self.vars.get(name), (SReal, float)): raise BadC('a number of copies with a fraction')
    def for_(self, s):
        """SPLIT: one arbitrary copy"""
        from vc.core import SInt
        S, z3 = self.S, self.S.z3
        self.stmt(s.a[0])
        if s.a[0].kind != 'decl' or len(s.a[0].a[1]) != 1 or s.a[1] is None or s.a[2] is None: raise BadC('for')
        var = s.a[0].a[1][0][0]
        S.check(self.vars[var] == 0, 'the first copy has number 0')
        k = SInt(z3.Int('copy'))
        self.vars[var] = k
        S.vc.assume(k >= 0)
        S.check(S.vc.iff(S.bool(self.ev(s.a[1])), k < S.copies), 'there are as many copies as SPLIT says')
        S.vc.assume(k < S.copies)
        before = {n: p.copy() for n, p in self.structs.items() if n != '_particle_save'}
        vars_ = dict(self.vars)
        self.part.assign(S.part('copied'))
        self.structs['_particle_save'].assign(S.part('copied_save', True))
        S.rand = self.part.rand
        self.stmt(s.a[3])
        for n, p in before.items():
            q = self.structs.get(n)
            if q is None or any(getattr(p, f) is not getattr(q, f) for f in Part.F): raise BadC(f'{n} is changed while it is copied')
        for n, v in vars_.items():
            if n != var and self.vars.get(n) is not v: raise BadC(f'{n} is changed while it is copied')
        self.exprst(s.a[2])
        S.check(self.vars[var] == k + 1, 'the next copy has the next number')


def CompClass():
    from mccode_antlr.instr.instance import Instance
    class Lazy(Instance):
        """an arbitrary component: what it has is chosen when it is asked for"""
        def __init__(self, S, nm, options):
            from mccode_antlr.comp.comp import Comp
            d = self.__dict__
            d['S'], d['nm'], d['got'], d['options'] = S, nm, {}, options
            d['name'] = S.vc.ident(nm + '.name')
            t = CompType()
            t.c = self
            t.name = S.vc.ident(nm + '.type')
            d['type'] = t
        __repr__ = lambda self: self.__dict__['nm']
        __eq__ = lambda self, o: self is o
        __hash__ = object.__hash__
        def get(self, k, f):
            if k not in self.got: self.got[k] = f()
            return self.got[k]
        def choice(self, k, o): return self.get(k, lambda: self.S.vc.choice(f'{self.nm}.{k}', o))
        @property
        def vc_skip(self): return False if self.options.get('free') else self.choice('skip', (True, False))
        @property
        def vc_code(self): return 'none' if self.vc_skip else self.choice('code', (self.options['code'],) if 'code' in self.options else ('none', 'TRACE', 'EXTEND', 'both'))
        @property
        def vc_kind(self): return 'none' if self.vc_skip else self.choice('group', ('none', 'only', 'first', 'middle', 'last'))
        @property
        def extend(self): return BLOCK() if self.vc_code in ('EXTEND', 'both') else ()
        @property
        def when(self): return self.get('when', lambda: ExprText(self.S, self.nm + '.when') if self.choice('has_when', (False, True)) else None)
        @property
        def group(self): return self.get('groupname', lambda: self.S.vc.ident(self.nm + '.groupname') if self.vc_kind != 'none' else None)
        @property
        def split(self): return self.get('split', lambda: ExprText(self.S, self.nm + '.split', False)
                                         if self.options['splits'] and self.vc_kind in ('none', 'only', 'first') and self.choice('has_split', (False, True)) else None)
        @property
        def cpu(self): return self.choice('cpu', (False, True)) if self.options['cpu'] else False
        @property
        def jump(self): return self.get('jump', self.make_jump)
        def make_jump(self):
            from vc.seqs import ASeq
            if not self.options['jumps'] or self.S.phase == 'blocks' and (self.vc_skip or self.vc_kind != 'none'): return ()
            return ASeq([self.S.jumps_of(self)])
    import vc.hooks
    return Lazy


def BLOCK():
    from mccode_antlr.common import RawC
    return (RawC('x', 1, 'a;'),)


class CompType:
    @property
    def trace(self): return BLOCK() if self.c.vc_code in ('TRACE', 'both') else ()
    @property
    def acc(self): return self.c.choice('acc', (True, False)) if self.c.options['cpu'] else True


class GroupOf:
    """a GROUP by its contract: the numbers of its first and of its last member, which are those of the component when it is one of them"""
    __vc_sym__ = True
    def __init__(self, S, c, index):
        from vc.core import SInt
        z3, vc = S.z3, S.vc
        self.name, self.index = c.group, SInt(z3.Int('group.number'))
        k = c.vc_kind
        self.first_id = index if k in ('only', 'first') else SInt(z3.Int('group.first'))
        self.last_id = index if k in ('only', 'last') else SInt(z3.Int('group.last'))
        if k in ('middle', 'last'): vc.assume(vc.and_(self.first_id < index, self.first_id >= 0))
        if k in ('middle', 'first'): vc.assume(self.last_id > index)
        class M_:
            def __init__(s, w): s.name = vc.ident(f'group.{w}name')
        self.first = c if k in ('only', 'first') else M_('first')
        self.last = c if k in ('only', 'last') else M_('last')
        self.vc_len = SInt(z3.Int('group.members'))
        vc.assume(self.vc_len >= 1)
        me = self
        class Ids:
            __vc_sym__ = True
            def __vc_len__(s): return me.vc_len
        self.ids = Ids()
    def is_leader(self, i): return i == self.first_id


class Lines:
    """a loop which adds lines to the text.  one(lines, element): what it may add for one element"""
    def __init__(self, S, name, one, extra=None): self.S, self.name_, self.one, self.extra = S, name, one, extra
    def name(self, loop, env, ls): return self.name_
    def enter(self, loop, env):
        from vc.core import Unsupported
        vs = [n for n in loop.names if isinstance(env.get(n), list) or type(env.get(n)).__name__ == 'AList']
        if len(vs) != 1: raise Unsupported(f'no single list of lines in {loop.names}')
        self.var = vs[0]
        ls = env[self.var]
        if not isinstance(ls, list): raise Unsupported('lines')
        self.what = self.name(loop, env, ls)
    def havoc(self, loop, env, stage):
        new = dict(self.extra(loop, env, stage)) if self.extra else {}
        new[self.var] = list(env[self.var]) + [self.S.placeholder.get(self.what, f'{self.what}();')] if stage == 'exit' else ['BEFORE();']
        if stage == 'exit': self.S.passed.append(self.what)
        return new
    def close(self, loop, env, elem):
        from vc.core import Unsupported
        from vc.hooks import HOOKS
        ls = env[self.var]
        ls = [x for c in ls.chunks for x in c] if hasattr(ls, 'chunks') else list(ls)
        if not ls or ls[0] is not loop.pending[self.var][0]: raise Unsupported('lines are changed, not added')
        text = HOOKS.mcall('\n', 'join', ls[1:])
        try: self.one(self.what, text, elem)
        except BadC as e: self.S.vc.check(False, f'the code for one {"component" if self.what in ("BLOCKS", "CLOSINGS") else "jump"} can be run', str(e) or 'BadC')


def plain(x): return x if isinstance(x, str) else ''.join(p for p in x.parts if isinstance(p, str))


def balance(text, vc, want):
    """of the text which is left out when NOSPLIT is defined: how many blocks it opens"""
    P = Parser(text)
    inside, n, other = [], 0, 0
    for k, v, b, e in P.toks:
        if k == 'pp':
            w = v.split()
            if w[0] in ('#ifdef', '#ifndef', '#if'): inside.append(w)
            elif w[0] == '#endif':
                if not inside: raise BadC('#endif')
                inside.pop()
            continue
        d = (v == '{') - (v == '}')
        if ['#ifndef', 'NOSPLIT'] in inside: n += d
        else: other += d
    if inside: raise BadC('#if without end')
    vc.check(n == want and other == 0, 'what SPLIT opens it closes, also when NOSPLIT leaves it out')


def components(S, options, one, extra=None):
    """the components of an arbitrary instrument"""
    from vc.seqs import AbsChunk, ASeq
    from vc.core import SInt, SBool, Unsupported
    vc, z3 = S.vc, S.z3
    cls = CompClass()
    S.phase = 'start'
    def elem(nm):
        c = cls(S, f'c{len(S.made)}', options)
        S.made.append(c)
        return c
    def jumps_of(c):
        from mccode_antlr.instr.jump import Jump
        def make(nm):
            k = f'j{len(S.jmade)}'
            j = Jump(vc.ident(k + '.target'), vc.int(k + '.relative'), vc.choice(k + '.iterate', (True, False)), ExprText(S, k + '.condition'), vc.int(k + '.absolute'))
            S.jmade.append((c, j))
            return j
        class JumpLines(Lines):
            def name(self, loop, env, ls):
                self.name_ = 'JUMPS' if S.phase == 'blocks' else 'RESETS' if S.phase == 'counters' else None
                if self.name_ is None: raise Unsupported('a loop over JUMPs here')
                return self.name_
        ch = AbsChunk(f'jumps{len(S.jmade)}of{S.made.index(c)}', make, JumpLines(S, 'JUMPS', one))
        def on_map(chunk, f, cond, rev=False):
            j = chunk.some()
            kept = True if cond is None else True if cond(j) else False
            vc.check(kept or not j.iterate, 'every counter of a JUMP ITERATE is set before')
            if not kept: return []
            return [f(j)]
        ch.on_map = on_map
        return ch
    S.jumps_of = jumps_of
    class CompLines(Lines):
        def name(self, loop, env, ls):
            text = '\n'.join(map(plain, ls))
            if 'BLOCKS' in S.passed: S.phase, r = 'closings', 'CLOSINGS'
            elif 'while (' in text: S.phase, r = 'blocks', 'BLOCKS'
            elif 'flag_nocoordschange' not in text and 'raytrace(' in text: S.phase, r = 'counters', 'COUNTERS'
            else: raise Unsupported('a loop over components here')
            return r
    if options.get('lines'): CompLines = options['lines']
    class Seq(ASeq):
        def __getitem__(self, k):
            if isinstance(k, int) and k == 0: return self.chunks[0].some()
            return super().__getitem__(k)
        def __vc_enumerate__(self, start=0):
            r = super().__vc_enumerate__(start)
            for ch in r.chunks:
                el = ch.elem
                def make(n, el=el):
                    i, c = el(n)
                    S.indexed.append((i - start, c))
                    if S.new_index: S.new_index(i - start, c)
                    return i, c
                ch.elem = make
                ch.known += [(i + start, c) for i, c in S.pairs]
                ch.flat_fold = getattr(ch.of, 'flat_fold', None)
                if options.get('on_map'): ch.on_map = options['on_map']
            return r
        def __vc_flat__(self, kind, f, cond):
            S.phase, old = 'counters', S.phase
            if cond is not None: raise Unsupported('some components are left out')
            r = super().__vc_flat__(kind, f, cond)
            return r
        def __vc_reversed__(self): return Seq([back()])
        def __vc_comp__(self, kind, f, cond):
            if options.get('comp'): return options['comp'](f, cond)
            return super().__vc_comp__(kind, f, cond)
    S.new_index, S.pairs = None, []
    def chunk(name, n=None):
        c = AbsChunk(name, elem, CompLines(S, None, one, extra), n)
        c.flat_fold = Lines(S, 'COUNTERS', one)
        return c
    c = chunk('components')
    def back(): return chunk('components~', c.n)
    S.n = SInt(c.n)
    return Seq([c])


class Skip:
    """ok_to_skip"""
    __vc_sym__ = True
    def __init__(self, S): self.S = S
    def __getitem__(self, k):
        from vc.core import Unsupported
        for i, c in self.S.indexed:
            if k is i or S_same(self.S, k, i): return c.vc_skip
        raise Unsupported('another component')


def S_same(S, a, b): return S.z3.eq(S.z3.simplify(S.t(a)), S.z3.simplify(S.t(b)))


def make_source(S, comps):
    from mccode_antlr.instr.instr import Instr
    from vc.core import Unsupported
    src = object.__new__(Instr)
    src.name, src.components = S.vc.ident('instrument'), comps
    groups = {}
    class Groups:
        __vc_sym__ = True
        def __getitem__(self, g):
            for i, c in S.indexed:
                if g is c.got.get('groupname'):
                    if id(c) not in groups: groups[id(c)] = GroupOf(S, c, i)
                    return groups[id(c)]
            raise Unsupported('a group')
    src.groups = Groups()
    return src


def component_at(S, i, c):
    """what is known of the component and of the particle before it"""
    from vc.core import SInt, SBool
    z3, vc = S.z3, S.vc
    k = S.comp = CInfo()
    k.index, k.inst, k.jump = i, c, None
    k.L, k.ident, k.zero = SInt(z3.Int('L')), SBool(z3.Bool('ident')), SBool(z3.Bool('zero'))
    k.code, k.when, k.kind = c.vc_code != 'none', c.when is not None, c.vc_kind
    vc.assume(vc.and_(k.L < i, k.L >= -1))
    # some component which is not the first of its GROUP
    S.ghost = SInt(z3.Int('ghost'))
    vc.assume(S.ghost > i)
    if k.kind in ('none', 'only', 'last'): vc.assume(S.ghost != i + 1)
    k.group = None
    if k.kind != 'none':
        last = k.kind in ('only', 'last')
        lid = i if last else c.S.src.groups[c.group].last_id
        vc.assume(S.ghost != lid + 1)
        k.group = last, lid
    def arrive(p):
        def jumped(p): S.taken_for(p, i)
        def normal(p):
            if not c.vc_skip: p.frame = i
        S.cond(p.flag, p, jumped, normal)
    k.arrive = arrive
    k.when_value = lambda p: c.when.value(p)
    k.trace = S.trace
    k.jump_ = isinstance(c.jump, tuple)
    k.do_jump = lambda p: None if k.jump_ else S.jumps(p)
    return k


def before_component(S, k, p, save, funnel):
    """what holds of every particle before the code of a component"""
    vc, i = S.vc, k.index
    at = vc.and_(vc.not_(p.absorbed), p.index == i + 1)
    vc.assume(vc.or_(p.absorbed, p.flag, vc.and_(p.frame == k.L, p.index >= i + 1)))
    vc.assume(vc.or_(p.absorbed, p.index != S.ghost + 1))
    if k.kind in ('first', 'middle'): vc.assume(vc.or_(p.absorbed, p.index != i + 2))   # the same for the next one, which is not the first of its GROUP either
    if k.inst.vc_skip: vc.assume(vc.not_(vc.and_(p.flag, p.index == i + 1)))
    if funnel: vc.assume(vc.not_(p.flag))
    if k.kind in ('middle', 'last'):
        vc.assume(vc.implies(at, vc.not_(p.flag)))
        if not funnel: vc.assume(vc.implies(at, vc.and_(save.pos == p.pos, save.wt == p.wt, save.frame == p.frame)))
    vc.assume(p.wt == p.wt)


def compare(S, k, g, p, save, q, funnel):
    """the particle after the code, and after what the rules say"""
    vc, i = S.vc, k.index
    S.guards.append(g)
    chk = S.check
    chk(vc.iff(p.absorbed, q.absorbed), 'the particle is absorbed when the rules say so')
    alive = vc.not_(p.absorbed)
    S.guards.append(alive)
    chk(p.pos == q.pos, 'state of the particle after the component')
    chk(p.wt == q.wt, 'weight of the particle after the component')
    chk(p.index == q.index, 'the component which is next')
    chk(p.rand == q.rand, 'random numbers go on')
    if not funnel:
        chk(vc.iff(p.flag, q.flag), 'a JUMP takes the coordinates along, nothing else does')
        chk(p.cnt['*'] == q.cnt['*'], 'counters of ITERATE')
    chk(vc.not_(p.restore), 'RESTORE is over')
    after = k.L if k.inst.vc_skip else i
    chk(vc.or_(p.flag, S.cf(p.frame) == S.cf(after)), 'coordinates are those of the last component which has code')
    chk(vc.or_(vc.not_(p.flag), S.cf(p.frame) == S.cf(q.frame)), 'coordinates of a particle which jumps')
    chk(vc.or_(p.flag, p.index >= i + 2), 'a particle goes forward but for JUMPs')
    if k.kind in ('first', 'middle'): S.vc.assume(S.ghost != i + 1)
    chk(p.index != S.ghost + 1, 'members of a GROUP but the first are reached from the one before only')
    if k.kind in ('first', 'middle') and not funnel:
        S.guards.append(p.index == i + 2)
        chk(vc.and_(vc.not_(p.flag), save.pos == p.pos, save.wt == p.wt, S.cf(save.frame) == S.cf(p.frame)), 'the next member of the GROUP has the state before the GROUP to go back to')
        S.guards.pop()
    S.guards.pop(); S.guards.pop()


def same_log(S, a, b):
    vc = S.vc
    if len(a) > 1 or len(b) > 1: raise BadC('TRACE is run more than once')
    ga, gb = (x[0][0] if x else False for x in (a, b))
    vc.check(vc.iff(ga, gb), 'TRACE is run when the rules say so')
    if a and b: vc.check(vc.implies(ga, vc.and_(*[x == y for x, y in zip(a[0][1:], b[0][1:])])), 'TRACE is run with the particle which the rules send to it')


def check_block(S, text, i, c, funnel=False, wrapped=None):
    vc = S.vc
    k = component_at(S, i, c)
    split = c.split is not None and not funnel
    if not funnel: balance(text, vc, 2 if split else 0)
    p, save = S.part('p'), S.part('save', True)
    before_component(S, k, p, save, funnel)
    k.jump = None
    P = Parser(text + ('\nREST();' + ('}}' if split else '')) if not funnel else wrapped(text), types=('_class_particle',))
    m = SymMachine(P, p.copy(), S)
    m.structs['_particle_save'] = save.copy()
    S.copies = c.split.value(p) if split else None
    if split: vc.assume(S.copies >= 1)
    S.log = []
    prog = P.program()
    if funnel: run_wrapped(S, m, prog)
    else: m.run(prog)
    mine, S.log = S.log, []
    vc.check(len(m.rest) == 1, 'there is one way to the next component')
    g, after, asave = m.rest[0]
    q = p.copy()
    alive = vc.not_(p.absorbed)
    if split:
        from vc.core import SReal, rterm
        q.rand, q.wt = S.rand, SReal(rterm(p.wt) / rterm(S.copies))
        vc.check(vc.iff(g, alive), 'the next component gets every copy, and no particle which is absorbed')
        S.guards.append(alive)
    else: vc.check(vc.iff(g, True), 'the next component gets every particle')
    rk = CInfo()
    rk.__dict__.update(k.__dict__)
    rk.jump = k.do_jump if not funnel else (lambda p: None)
    Rules(S).component(rk, q)
    if split: S.guards.pop()
    same_log(S, mine, S.log)
    compare(S, k, g, after, asave, q, funnel)


def check_jump(S, text, c, j):
    from vc.core import SInt, SReal, SBool
    vc, z3 = S.vc, S.z3
    i = S.indexed[-1][0]
    if S.indexed[-1][1] is not c: raise BadC('a JUMP of another component')
    k = component_at(S, i, c)
    k.jump = j
    p = S.part('p')
    p.cnt = {'it': SInt(z3.Int('counter'))}
    P = Parser(text, types=('_class_particle',))
    m = SymMachine(P, p.copy(), S)
    S.log = []
    m.run(P.program())
    q = p.copy()
    if j.iterate:
        n = p.cnt['it'] + 1
        go = n < j.condition.value(p)
        q.cnt = {'it': S.ite(go, n, 0)}
    else: go = j.condition.value(p) != 0
    q.index, q.flag = S.ite(go, j.absolute_target, p.index), S.or_(go, p.flag)
    r = m.part
    vc.check(r.index == q.index, 'a JUMP leads to its target, when its condition holds')
    vc.check(vc.iff(r.flag, q.flag), 'a JUMP takes the coordinates along')
    vc.check(r.cnt['it'] == q.cnt['it'], 'ITERATE counts, and starts again when it goes on')
    vc.check(vc.and_(*[getattr(r, f) == getattr(q, f) for f in ('pos', 'wt', 'frame', 'rand')], *[vc.iff(getattr(r, f), getattr(q, f)) for f in ('absorbed', 'scattered', 'restore')]), 'a JUMP changes nothing else')
    if S.log: raise BadC('TRACE in a JUMP')


def check_reset(S, text, c, j):
    """before the first component: the counter of a JUMP ITERATE is 0"""
    from vc.core import SInt
    vc = S.vc
    if text == '' :
        vc.check(not j.iterate, 'every counter of a JUMP ITERATE is set before')
        return
    S.comp = k = CInfo()
    k.inst, k.jump = c, j
    p = S.part('p')
    p.cnt = {'it': SInt(S.z3.Int('counter'))}
    P = Parser(text, types=('_class_particle',))
    m = SymMachine(P, p.copy(), S)
    m.run(P.program())
    S.comp = None
    vc.check(m.part.cnt['it'] == 0, 'counters start at 0')
    if any(getattr(m.part, f) is not getattr(p, f) for f in Part.F): raise BadC('more than a counter is changed')


def check_closing(S, text, c):
    split = c.split is not None
    P = Parser(text)
    S.vc.check([t[1] for t in P.toks if t[0] != 'pp'] == (['}', '}'] if split else []), 'the end of SPLIT')
    balance_closing(text, S.vc, split)


def balance_closing(text, vc, split):
    balance(text, vc, -2 if split else 0)


def check_frame(S, text):
    """what is around the code of the components"""
    vc = S.vc
    vc.check(S.passed == ['COUNTERS', 'BLOCKS', 'CLOSINGS'], 'counters, components and the ends of SPLIT, in that order')
    S.comp = None
    P = Parser(text, types=('_class_particle',))
    f = function_named(P, 'raytrace')
    p = S.part('p')
    p.absorbed = False
    m = SymMachine(P, p.copy(), S)
    seen = []
    S.calls['COUNTERS'] = lambda m: seen.append('COUNTERS')
    def blocks(m):
        seen.append('BLOCKS')
        m.part.assign(S.part('b'))
        S.after_blocks = m.part.copy()
    def closings(m):
        seen.append('CLOSINGS')
        if any(getattr(m.part, f) is not getattr(S.after_blocks, f) for f in Part.F): raise BadC('something is between the last component and the ends of SPLIT')
    S.calls['BLOCKS'], S.calls['CLOSINGS'] = blocks, closings
    def loop(s):
        vc.check(seen == ['COUNTERS'] and '_particle_save' in m.structs, 'counters start before the first component')
        vc.check(vc.and_(vc.not_(m.part.flag), *[getattr(m.part, f) == getattr(p, f) for f in ('pos', 'wt', 'frame', 'index', 'rand')], vc.not_(m.part.absorbed)), 'the particle comes to the first component as it is')
        m.part.assign(S.part('any'))
        vc.check(vc.iff(S.bool(m.ev(s.a[0])), vc.not_(m.part.absorbed)), 'it goes on as long as the particle is there')
        m.part.absorbed = False
        before = m.part.copy()
        n = len(seen)
        def first(mm):
            if any(getattr(m.part, f) is not getattr(before, f) for f in Part.F): raise BadC('something is before the first component')
            blocks(mm)
        S.calls['BLOCKS'] = first
        m.stmt(s.a[1])
        vc.check(seen[n:] == ['BLOCKS', 'CLOSINGS'], 'each round is one time through all components')
        b, r = S.after_blocks, m.part
        vc.check(vc.iff(r.absorbed, vc.or_(b.absorbed, b.index > S.n)), 'after the last component it is over, and only then')
        vc.check(vc.implies(vc.not_(r.absorbed), vc.and_(*[getattr(r, f) == getattr(b, f) for f in ('pos', 'wt', 'frame', 'index', 'rand')], vc.iff(r.flag, b.flag))), 'nothing is changed between two rounds')
        m.part.assign(S.part('end'))
        m.part.absorbed = True
        seen.append('LOOP')
        S.calls.clear()
    m.while_ = loop
    try: m.run(f.a[3].a[0])
    except Return: pass
    vc.check(seen == ['COUNTERS', 'BLOCKS', 'CLOSINGS', 'LOOP'], 'one loop goes through all components')


@harness('T01', 'raytrace: any component, any jump', [R + 'cogen_raytrace'], conc=False, weight=6, unroll=10)
def h_raytrace(vc):
    S = SymSpec(vc)
    def one(what, text, e):
        if what == 'BLOCKS': check_block(S, text, *e)
        elif what == 'JUMPS': check_jump(S, text, *S.jmade[-1])
        elif what == 'RESETS' or what == 'COUNTERS' and S.jmade: check_reset(S, text, *S.jmade[-1])
        elif what == 'COUNTERS': S.vc.check([t[1] for t in Parser(text).toks] in ([], ['RESETS', '(', ')', ';']), 'counters')
        elif what == 'CLOSINGS': check_closing(S, text, e[1] if isinstance(e, tuple) else e)
        else: raise BadC(what)
    comps = components(S, dict(jumps=True, splits=True, cpu=False), one)
    S.src = make_source(S, comps)
    out = vc.run(RT().cogen_raytrace, S.src, Skip(S))
    vc.check(not out.raised, 'code is generated', out)
    try: check_frame(S, out.value)
    except BadC as e: vc.check(False, 'the generated code can be run', str(e))


def run_wrapped(S, m, prog):
    """loops over all particles, for one of them"""
    vc = S.vc
    S.calls['PREV'] = lambda m: None
    for st in prog:
        if st.kind == 'pp': continue
        if st.kind != 'for': raise BadC('something outside of the loops over particles')
        body = st.a[3].a[0]
        if st.a[1] is not None:
            init, c, step = st.a[:3]
            ok = (init.kind == 'decl' and len(init.a[1]) == 1 and init.a[1][0][3] is not None and init.a[1][0][3].kind == 'num' and init.a[1][0][3].a[0] == '0' and c.kind == 'bin' and c.a[0] == '<'
                  and lvalue(c.a[1]) == init.a[1][0][0] and lvalue(c.a[2]) == 'livebatchsize' and step.kind in ('post', 'un') and step.a[0] == '++' and lvalue(step.a[1]) == init.a[1][0][0])
            if not ok: raise BadC('the loop is over all particles')
            d = [x for x in body if x.kind != 'pp'][0]
            k = d.a[1][0][3] if d.kind == 'decl' and len(d.a[1]) == 1 and d.a[1][0][0] == '_particle' else None
            if k is None or not (k.kind == 'un' and k.a[0] == '&' and k.a[1].kind == 'idx' and lvalue(k.a[1].a[0]) == 'particles' and lvalue(k.a[1].a[1]) == init.a[1][0][0]): raise BadC('_particle')
            body = [x for x in body if x is not d]
            m.structs = {}
            m.vars = {}
        elif m.rest: raise BadC('REST')
        m.run(body)


def check_funnel_frame(S, text):
    vc = S.vc
    P = Parser(text, types=('_class_particle',))
    f = function_named(P, 'raytrace_all_funnel')
    outer = [s for s in f.a[3].a[0] if s.kind == 'for']
    vc.check(len(outer) == 1, 'one loop over the batches')
    inner = [s for s in outer[0].a[3].a[0] if s.kind == 'for']
    vc.check(len(inner) == 2 and inner[1].a[1] is None and [x.kind for x in inner[1].a[3].a[0]] == ['expr'], 'particles are made, and all of them go through all components')
    vc.check(inner[0].a[1] is not None and lvalue(inner[0].a[1].a[2]) == 'livebatchsize', 'every particle of a batch is made')


def funnel_any(vc, code):
    S = SymSpec(vc)
    S.placeholder['BLOCKS'] = 'for(;;){BLOCKS();'
    def wrapped(text):
        i = S.indexed[-1][0]
        return ('for(;;){PREV();\n' if i > 0 else '') + text + '\nREST();}'
    def one(what, text, e):
        if what == 'BLOCKS': check_block(S, text, *e, funnel=True, wrapped=wrapped)
        elif what == 'WARN':
            P = Parser(text)
            if any(s.kind != 'expr' or s.a[0].kind != 'call' or s.a[0].a[0].a[0] != 'printf' for s in P.program()): raise BadC('a warning')
        else: raise BadC(what)
    from vc.core import Unsupported
    from vc.seqs import AbsChunk
    class FunnelLines(Lines):
        def name(self, loop, env, ls):
            text = '\n'.join(map(plain, ls))
            if 'BLOCKS' in S.passed: raise Unsupported('a second loop over components')
            if 'iterate components' in text or 'mcgenstate' in text: S.phase, r = 'blocks', 'BLOCKS'
            else: S.phase, r = 'warn', 'WARN'
            return r
    def extra(loop, env, stage):
        S.count += 1
        return {n: vc.choice(f'{n}{S.count}', (False, True)) for n in loop.names if isinstance(env.get(n), bool)}
    def on_map(chunk, f, cond, rev=False):
        def el(n):
            x = chunk.some()
            if cond is not None: vc.assume(True if cond(x) else False)
            return f(x)
        r = AbsChunk(chunk.name + '*', el, Lines(S, 'WARN', one))
        return [r]
    import mccode_antlr.common.utilities as U
    real = U.escape_str_for_c
    def escape(x):
        # of a text with names in it: names stay as they are
        if not hasattr(x, 'parts'): return real(x)
        from vc.core import SStr
        return SStr([real(q) if isinstance(q, str) else q for q in x.parts])
    U.escape_str_for_c = escape
    comps = components(S, dict(jumps=True, splits=False, cpu=True, code=code, lines=FunnelLines, on_map=lambda *a, **k: __import__('vc.seqs', fromlist=['ASeq']).ASeq(on_map(*a, **k))), one, extra)
    vc.assume(S.n >= 1)
    S.src = make_source(S, comps)
    out = vc.run(RT().cogen_funnel, S.src, Skip(S))
    vc.check(not out.raised, 'code is generated', out)
    try: check_funnel_frame(S, out.value)
    except BadC as e: vc.check(False, 'the generated code can be run', str(e))


for _code in ('none', 'TRACE', 'EXTEND', 'both'):
    harness('T01', f'funnel: any component, code: {_code}', [R + 'cogen_funnel'], conc=False, weight=4, unroll=10)(lambda vc, c=_code: funnel_any(vc, c))


# ------------------------------------------------------------------ which shifts of coordinates may be left out, and the targets of JUMPs
class Ignore:
    """a loop without invariant"""
    def enter(self, loop, env): pass
    def havoc(self, loop, env, stage): return {}
    def close(self, loop, env, elem): pass


def unique_names(S, at, c):
    """components have different names; `at` is the index of c"""
    def new_index(i, x):
        if x is c: S.vc.assume(i == at)
        else: S.vc.assume(S.vc.iff(x.name == c.name, i == at))
    S.new_index = new_index
    S.pairs.append((at, c))


@harness('T01', 'set_jump_absolute_targets', [T + 'TargetVisitor.set_jump_absolute_targets'], conc=False)
def h_targets(vc):
    from mccode_antlr.translators.target import TargetVisitor
    from vc.core import SInt
    S = SymSpec(vc)
    comps = components(S, dict(jumps=True, splits=False, cpu=False), None)
    S.phase = 'blocks'
    chunk = comps.chunks[0]
    at = vc.int('target')
    vc.assume(vc.and_(at >= 0, at < S.n))
    goal = chunk.some()
    unique_names(S, at, goal)
    named = vc.choice('how', ('by name', 'relative', 'MYSELF'))
    class Each(Ignore):
        def havoc(self, loop, env, stage):
            if stage == 'iter':
                # the jump of this round
                (c, j), i = S.jmade[-1], S.indexed[-1][0]
                assert S.indexed[-1][1] is c
                self.c, self.j, self.i = c, j, i
                j.relative_target = 0 if named != 'relative' else j.relative_target
                j.target = goal.name if named == 'by name' else 'MYSELF' if named == 'MYSELF' else j.target
                if named == 'by name':
                    # MYSELF is not the name of a component
                    vc.assume(S.not_(low(j.target) == 'myself'))
                if named == 'relative': vc.assume(j.relative_target != 0)
                from vc.seqs import GHOST
                GHOST.add(id(j))
                self.old = {k: v for k, v in j.__dict__.items() if k != 'absolute_target'}
            return {}
        def close(self, loop, env, elem):
            want = at if named == 'by name' else self.i if named == 'MYSELF' else self.i + self.j.relative_target
            if any(self.j.__dict__.get(k) is not v for k, v in self.old.items()):
                from vc.core import Unsupported
                raise Unsupported('the JUMP is changed')
            vc.check(self.j.absolute_target == want, 'a JUMP leads to the component which it names')
    def low(t):
        from vc.hooks import HOOKS
        return HOOKS.mcall(t, 'lower')
    chunk.flat_fold = Each()
    for ch in (chunk,): ch.fold = None
    v = object.__new__(TargetVisitor)
    v.source = S.src = make_source(S, comps)
    out = vc.run(v.set_jump_absolute_targets)
    vc.check(not out.raised, 'targets are set', out)


class Flags:
    """a list of truth values, of which one is looked at: that of component `at`"""
    __vc_sym__ = True
    def __init__(self, S, at, value): self.S, self.at, self.value = S, at, value
    def __setitem__(self, k, v): self.value = self.S.ite(k == self.at, v, self.value)
    def __getitem__(self, k):
        self.S.vc.assume(k == self.at)
        return self.value
    def __vc_len__(self): return self.S.n


@harness('T01', 'detect_skipable_transforms', [T + 'TargetVisitor.detect_skipable_transforms'], conc=False)
def h_skip(vc):
    from mccode_antlr.translators.target import TargetVisitor
    from vc.core import SInt, SBool, Unsupported
    S = SymSpec(vc)
    z3 = S.z3
    at, other = vc.int('at'), vc.int('jump.absolute')
    class Fold(Ignore):
        def enter(self, loop, env):
            fl = [v for v in env.values() if isinstance(v, Flags)]
            if len(fl) != 1: raise Unsupported('flags')
            self.f, self.start = fl[0], fl[0].value
        def havoc(self, loop, env, stage):
            self.was = SBool(z3.Bool(f'flag.{stage}'))
            vc.assume(vc.implies(self.was, self.start))
            if stage == 'exit': vc.assume(vc.implies(other == at, vc.not_(self.was)))
            self.f.value = self.was
            return {}
        def close(self, loop, env, elem):
            vc.check(vc.implies(self.f.value, self.was), 'what is to be done stays so')
            vc.check(vc.implies(S.jmade[-1][1].absolute_target == at, vc.not_(self.f.value)), 'the coordinates of a component which is jumped to are made')
    comps = components(S, dict(jumps=True, splits=True, cpu=False, free=True, comp=lambda f, cond: Flags(S, at, f(goal)) if cond is None else fail()), None)
    def fail(): raise Unsupported('a filter')
    chunk = comps.chunks[0]
    chunk.flat_fold, chunk.fold = Fold(), None
    goal = chunk.some()
    v = object.__new__(TargetVisitor)
    v.source = S.src = make_source(S, comps)
    out = vc.run(v.detect_skipable_transforms)
    vc.check(not out.raised, 'flags are set', out)
    ok = v.ok_to_skip
    if not isinstance(ok, Flags): raise Unsupported('ok_to_skip')
    skip = S.bool(ok.value)
    vc.check(vc.implies(skip, vc.and_(goal.vc_code == 'none', goal.group is None)), 'a component which is skipped has no code and is in no GROUP')
    from vc.hooks import HOOKS
    vc.check(vc.implies(skip, HOOKS.b_len(goal.jump) == 0), 'a component which is skipped has no JUMP')
    vc.check(vc.implies(skip, other != at), 'no JUMP leads to a component which is skipped')
