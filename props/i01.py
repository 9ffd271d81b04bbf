"""I01: what an instrument contains.

Components, parameters, blocks, groups, copies, parts of an instrument and the Assembler; for any number of components, parameters and blocks."""
from vc.api import harness, Discard
from props.seqlib import some, seq, same, pieces_of
from props.i02 import bare, Token, POOL

N = 'src/mccode_antlr/instr/instr.py Instr.'
A = 'src/mccode_antlr/assembler/assembler.py Assembler.'
G = 'src/mccode_antlr/instr/group.py Group.'
SECTIONS = ('USERVARS', 'DECLARE', 'INITIALIZE', 'SAVE', 'FINALLY')
FIELD = dict(zip(SECTIONS, ('user', 'declare', 'initialize', 'save', 'final')))


class Named:
    def __init__(self, name, removable=False, group=None, of=None): self.name, self.removable, self.group, self.of = name, removable, group, of
    def copy(self): return Named(self.name, self.removable, self.group, self)
    def __repr__(self): return f'<{self.name}>'


def mods():
    import mccode_antlr.instr.instr as i, mccode_antlr.common as m
    return i, m


def named(vc, name, nm, present, make=None):
    """a sequence of named things, with one called nm or without; (sequence, that thing, pieces)"""
    make = make or (lambda n: Named(vc.ident(n, POOL)))
    other = lambda x: vc.not_(x.name == nm)
    if not present: ps, t = [some(vc, name, make, other)], None
    else:
        t = make(name + '.it')
        t.name = nm
        ps = [some(vc, name + '.before', make, other), [t], some(vc, name + '.after', make, other)]
    return seq(ps), t, ps


def instr(**k):
    i, m = mods()
    x = i.Instr('thing', 'thing.instr')
    for n, v in k.items(): setattr(x, n, v)
    return x


def rest(x, but):
    """nothing else is changed"""
    i, m = mods()
    y = i.Instr('thing', 'thing.instr')
    return all(getattr(x, n) == getattr(y, n) for n in y.__dict__ if n not in but)


# ------------------------------------------------------------------ adding
@harness('I01', 'add_component: appended, unless there is one of its name', [N + 'add_component'])
def h_add(vc):
    nm = vc.ident('name', POOL)
    present = vc.choice('present', (False, True))
    cs, _, ps = named(vc, 'components', nm, present)
    x = instr(components=cs)
    a = Named(nm)
    o = vc.run(x.add_component, a)
    if present:
        vc.check(o.raised, 'a second component of the same name is refused', o)
        vc.check(same(x.components, ps), 'a refused component changes nothing')
    else:
        vc.check(not o.raised, 'a component can be added', o)
        vc.check(same(x.components, [*ps, [a]]), 'a component is added behind those which are there')
    vc.check(rest(x, ('components',)), 'nothing else is changed')


@harness('I01', 'add_parameter: appended, unless there is one of its name', [N + 'add_parameter', 'src/mccode_antlr/common/parameters.py parameter_name_present'])
def h_add_par(vc):
    i, m = mods()
    nm = vc.ident('name', POOL)
    present, ignore = vc.choice('present', (False, True)), vc.choice('ignore', (None, False, True))
    cs, _, ps = named(vc, 'parameters', nm, present)
    x = instr(parameters=cs)
    a = m.InstrumentParameter(nm, None, m.Expr.float(1))
    o = vc.run(x.add_parameter, a, **({} if ignore is None else {'ignore_repeated': ignore}))
    if present:
        vc.check(o.raised is (not ignore), 'a second parameter of the same name is refused, or ignored if that is asked for', o)
        vc.check(same(x.parameters, ps), 'a repeated parameter changes nothing')
    else:
        vc.check(not o.raised, 'a parameter can be added', o)
        vc.check(same(x.parameters, [*ps, [a]]), 'a parameter is added behind those which are there')
    vc.check(rest(x, ('parameters',)), 'nothing else is changed')


@harness('I01', 'finding parameters and components by name', [N + 'get_parameter', N + 'has_parameter', N + 'get_component', N + 'has_component_named'])
def h_find(vc):
    nm = vc.ident('name', POOL)
    vc.assume(vc.not_(nm == 'PREVIOUS'))
    present = vc.choice('present', (False, True))
    what = vc.choice('what', ('parameter', 'component'))
    xs, t, ps = named(vc, what, nm, present)
    default = Token('default')
    if what == 'parameter':
        x = instr(parameters=xs)
        o = vc.run(x.get_parameter, nm, default)
        vc.check(not o.raised and o.value is (t if present else default), 'the parameter of that name, or else the default', o)
        o = vc.run(x.has_parameter, nm)
    else:
        x = instr(components=xs)
        o = vc.run(x.get_component, nm)
        vc.check(o.raised is (not present) and (o.raised or o.value is t), 'the component of that name', o)
        o = vc.run(x.has_component_named, nm)
    vc.check(not o.raised and vc.iff(o.value, present), 'whether there is one of that name', o)


@harness('I01', 'PREVIOUS and last_component', [N + 'last_component', N + 'get_component'])
def h_last(vc):
    free = vc.choice('removable count', (True, False))
    make = lambda n: Named(vc.ident(n, POOL), vc.bool(n + '.removable'), vc.choice('group of ' + n, (None, 'g')))
    a, b = make('last'), make('second last')
    n = vc.choice('n', (1, 2))
    have = vc.choice('have', (0, 1, 2))
    removable = lambda x: x.removable
    if free:
        before = some(vc, 'before', make) if have == 2 else []
        x = instr(components=seq([before, [b, a][2 - have:]]))
        o = vc.run(x.last_component, *([] if n == 1 else [n]))
    else:
        # only those which are not REMOVABLE count
        vc.assume(vc.not_(a.removable)); vc.assume(vc.not_(b.removable))
        ps = [some(vc, 'before', make, None if have == 2 else removable)]
        if have == 2: ps += [[b], some(vc, 'between', make, removable)]
        if have: ps += [[a], some(vc, 'behind', make, removable)]
        x = instr(components=seq(ps))
        o = vc.run(x.last_component, n, removable_ok=False)
    if n > have: vc.check(o.raised, 'there are not as many', o)
    else: vc.check(not o.raised and o.value is (a if n == 1 else b), 'the n-th last component', o)
    if free and have:
        o = vc.run(x.get_component, 'PREVIOUS')
        vc.check(not o.raised and o.value is a, 'PREVIOUS is the last component', o)


@harness('I01', 'blocks, flags and included names are appended in order', [N + k for k in SECTIONS] + [N + 'DEPENDENCY', N + 'add_included', 'src/mccode_antlr/common/block.py blocks_to_raw_c', 'src/mccode_antlr/common/block.py RawC.from_tuple', A + 'declare', A + 'user_vars', A + 'initialize', A + 'save', A + 'final'])
def h_sections(vc):
    i, m = mods()
    from mccode_antlr.assembler.assembler import Assembler
    which = vc.choice('section', SECTIONS)
    by = vc.choice('by', ('blocks', 'assembler'))
    before = some(vc, 'before', lambda n: Token(n))
    x = instr(**{FIELD[which]: seq([before])})
    if by == 'blocks':
        n = vc.choice('n', (0, 1, 2) if vc.sym else (0, 1, 2, 3))
        texts = [vc.choice(f'text{k}', ('int a;', ' \n\t ') if vc.sym else ('int a;', ' b = 2;\n', '', ' \n\t ')) for k in range(n)]
        forms = [vc.choice(f'form{k}', ('text', 'block', 'tuple', 'pair')) for k in range(n)] if n else []
        bs = [{'text': t, 'block': m.RawC('f', k, t), 'tuple': ('f', k, t), 'pair': (k, t)}[f] for k, (t, f) in enumerate(zip(texts, forms))]
        o = vc.run(getattr(x, which), *bs)
        want = [(('' if f in ('text', 'pair') else 'f'), (-1 if f == 'text' else k), t) for k, (t, f) in enumerate(zip(texts, forms)) if t.strip()]
    else:
        a = object.__new__(Assembler)
        a.instrument = x
        t = vc.choice('text', ('int a;', 'x = 1;\n'))
        o = vc.run(getattr(a, {'USERVARS': 'user_vars', 'DECLARE': 'declare', 'INITIALIZE': 'initialize', 'SAVE': 'save', 'FINALLY': 'final'}[which]), t, 'f', 7)
        want = [('f', 7, t)]
    vc.check(not o.raised, 'blocks can be added', o)
    got = pieces_of(getattr(x, FIELD[which]))
    new = got[-1][-len(want):] if want and got and isinstance(got[-1], list) else []
    vc.check(len(new) == len(want) and same(getattr(x, FIELD[which]), [before, new]), 'blocks are added behind those which are there', lambda: (got, want))
    vc.check([(q.filename, q.line, q.source) for q in new] == want, 'blocks have their text and where it comes from; empty ones are left out', lambda: (new, want))
    vc.check(rest(x, (FIELD[which],)), 'nothing else is changed')
    flags, incl = some(vc, 'flags', lambda n: vc.ident(n, POOL)), some(vc, 'included', lambda n: vc.ident(n, POOL))
    y = instr(flags=seq([flags]), included=seq([incl]))
    f1, f2, nm = 'first flag', 'second flag', 'included name'
    o1, o2 = vc.run(y.DEPENDENCY, f1, f2), vc.run(y.add_included, nm)
    vc.check(not o1.raised and not o2.raised and same(y.flags, [flags, [f1, f2]]) and same(y.included, [incl, [nm]]) and rest(y, ('flags', 'included')), 'flags and names are added behind those which are there', o1)


# ------------------------------------------------------------------ groups, types, metadata
class GroupsGhost:
    """the groups so far: any, of any names; the group of the name which is asked for may be there or not"""
    def __init__(self, vc): self.vc, self.count, self.there, self.added, self.group = vc, vc.int('groups so far', 0, 9), None, None, None
    def has(self, g):
        if self.there is None:
            self.there = self.vc.choice('is there', (False, True))
            if self.there: self.group = OneGroup(g)
        return self.there or self.added is not None
    def __contains__(self, g): return self.has(g)
    def __getitem__(self, g):
        if not self.has(g): raise KeyError(g)
        return self.group if self.added is None else self.added
    def __setitem__(self, g, v): self.added, self.under = v, g
    def get(self, g, d=None): return self[g] if self.has(g) else d
    def setdefault(self, g, d):
        if not self.has(g): self[g] = d
        return self[g]
    def __len__(self): return self.count
    __vc_len__ = __len__


class OneGroup:
    def __init__(self, name): self.name, self.calls = name, []
    def add(self, id, inst): self.calls.append((id, inst))


@harness('I01', 'determine_groups: members in order, groups in order of their first member', [N + 'determine_groups'], sym=True)
def h_groups(vc):
    i, m = mods()
    x = instr()
    made = []
    class Grp(OneGroup):
        def __init__(self, name, index, *a):
            super().__init__(name); self.index = index
            made.append(self)
    keep, i.Group = i.Group, Grp
    st = {}
    class Each:
        def enter(self, loop, env):
            vc.check(x.groups == {}, 'aux: loop invariant at entry: there are no groups')
        def havoc(self, loop, env, stage):
            x.groups = st['ghost'] = GroupsGhost(vc) if stage == 'iter' else Token('all groups')
            st['count'] = getattr(x.groups, 'count', None)
            made.clear()
            return {}
        def close(self, loop, env, e):
            k, c = e
            g = st['ghost']
            if c.group is None:
                vc.check(g.added is None and (g.group is None or not g.group.calls), 'a component without a group is in no group')
                return
            t = g.added if g.added is not None else g.group
            vc.check(t is not None and (g.there or len(made) == 1), 'a group is made for its first member')
            if g.added is not None: vc.check(not g.there and g.under is c.group and g.added.name is c.group and vc.num_eq(g.added.index, st['count']), 'a new group has its name and the next number')
            vc.check(t is not None and len(t.calls) == 1 and t.calls[0][0] is k and t.calls[0][1] is c, 'a component is added to its group, with its index')
    def make(n): return Named(vc.ident(n, POOL), False, None if vc.choice(n + '.in group', (False, True)) is False else vc.ident(n + '.group', ('g', 'h', 'k')))
    cs = some(vc, 'components', make, fold=Each(), most=6)
    x.components = seq([cs])
    try: o = vc.run(x.determine_groups)
    finally: i.Group = keep
    vc.check(not o.raised, 'groups can be determined', o)
    if vc.sym:
        vc.check(isinstance(x.groups, (dict, Token)), 'the groups are those of the components')
        return
    names = list(dict.fromkeys(c.group for c in cs if c.group))
    vc.check(list(x.groups) == names and [g.index for g in x.groups.values()] == list(range(len(names))) and all(g.name == n for n, g in x.groups.items()), 'groups are numbered in order of their first member', lambda: x.groups)
    for n, g in x.groups.items(): vc.check(g.calls == [(k, c) for k, c in enumerate(cs) if c.group == n], 'a group has its members in order')


@harness('I01', 'Group: first and last member', [G + n for n in ('add', 'is_leader', 'first_id', 'last_id', 'first', 'last', 'copy')], bounded='up to 4 members')
def h_group(vc):
    from mccode_antlr.instr.group import Group
    n = vc.size('n', 1, 4)
    g = Group('g', 0)
    ids, k = [], -1
    ms = [Named(f'm{j}') for j in range(n)]
    for j in range(n):
        d = vc.int(f'gap{j}', 1, 4)
        vc.assume(d >= 1)
        k = k + d
        ids.append(k)
        o = vc.run(g.add, k, ms[j])
        vc.check(not o.raised, 'a member can be added', o)
    for attr, want in (('first_id', ids[0]), ('last_id', ids[-1])): vc.check(vc.num_eq(vc.run(lambda: getattr(g, attr)).value, want), 'the ids of the first and the last member', attr)
    o1, o2 = vc.run(lambda: g.first), vc.run(lambda: g.last)
    vc.check(o1.value is ms[0] and o2.value is ms[-1], 'the first and the last member', (o1, o2))
    q = vc.int('q', 0, 9)
    o = vc.run(g.is_leader, q)
    vc.check(not o.raised and vc.iff(o.value, q == ids[0]), 'the first member leads', o)
    c = vc.run(g.copy)
    vc.check(not c.raised and c.value.name == 'g' and c.value.index == 0 and all(p is q for p, q in zip(c.value.members, ms)), 'a copy has the same members', c)
    c.value.add(99, Named('more'))
    vc.check(len(g.members) == n and len(g.ids) == n, 'adding to a copy leaves the original as it is')


@harness('I01', 'component types and metadata of an instrument', [N + 'component_types', N + 'collect_metadata', N + 'get_component_names_by_category'], bounded='up to 4 components of 3 types')
def h_types(vc):
    i, m = mods()
    n = vc.size('n', 0, 4)
    T = [type('T', (), {'category': c}) for c in ('sources', 'optics', 'monitors')]
    def tokened(n):
        """metadata of several components can have the same name"""
        t = Token(n)
        t.name, t.mimetype, t.value = 'md', 'text/plain', n
        return t
    cs = []
    for k in range(n):
        c = Named(f'c{k}')
        c.type = vc.choice(f'type{k}', T)
        c.md = [tokened(f'm{k}{j}') for j in range(vc.size(f'md{k}', 0, 2) if not vc.sym else k % 3)]
        c.collect_metadata = lambda c=c: tuple(c.md)
        cs.append(c)
    own = [tokened('own1'), tokened('own2')][:vc.size('own', 0, 2)]
    x = instr(components=tuple(cs), metadata=tuple(own))
    o = vc.run(x.component_types)
    vc.check(not o.raised and list(o.value) == list(dict.fromkeys(c.type for c in cs)), 'each type once, in order of the first component of it', o)
    o = vc.run(x.collect_metadata)
    vc.check(not o.raised and list(o.value) == [q for c in cs for q in c.md] + own, 'the metadata of all components and of the instrument', o)
    o = vc.run(x.get_component_names_by_category, 'optics')
    vc.check(not o.raised and list(o.value) == [c.name for c in cs if c.type is T[1]], 'the components of a category', o)


@harness('I01', 'component types of any number of components', [N + 'component_types'])
def h_types_any(vc):
    """dict.fromkeys by contract (each element once, in order of its first occurrence)"""
    kinds = (Token('A'), Token('B'))
    def component(n):
        c = Named(n)
        c.type = Token(n + ' type') if vc.sym else vc.choice(n + ' type', kinds)
        return c
    cs, one, more = some(vc, 'many', component), component('one'), some(vc, 'more', component)
    x = instr(components=seq([cs, [one], more]))
    o = vc.run(x.component_types)
    vc.check(not o.raised, 'the component types are known', o)
    label = 'each type once, in order of the first component of it'
    if not vc.sym: return vc.check(list(o.value) == list(dict.fromkeys(c.type for c in (*cs, one, *more))), label, o)
    got = pieces_of(o.value)
    src = getattr(got[0], 'distinct', None) if len(got) == 1 else None
    vc.check(src is not None, label, o)
    got = pieces_of(src)
    vc.check(len(got) == 3 and [getattr(g, 'base', None) for g in got] == [cs, None, more] and got[1] == [one.type], label, o)
    for g, c in ((got[0], cs), (got[2], more)):
        vc.check(getattr(g, 'cond', None) is None, label, o)
        y = c.some()
        vc.check(g.f(y) is y.type, label, o)


# ------------------------------------------------------------------ use of parameters
class Used:
    """an instance or a block: the name occurs or not"""
    def __init__(self, used): self.used = used
    def parameter_used(self, name): return self.used
    def __contains__(self, name): return bool(self.used)
    def __vc_contains__(self, name): return self.used


@harness('I01', 'parameter_used: in any component or block', [N + 'parameter_used'])
def h_used(vc):
    x = instr()
    ks = ('components', 'declare', 'initialize', 'save', 'final')
    k = vc.choice('where', ks + ('nowhere',))
    no = lambda n: Used(False)
    for q in ks: setattr(x, q, seq([some(vc, q, no)]))
    if k != 'nowhere':
        w = Used(vc.bool('used'))
        any_ = lambda n: Used(vc.bool(n))
        setattr(x, k, seq([some(vc, 'before', no), [w], some(vc, 'after', no if vc.choice('others', (False, True)) else any_, lambda e: vc.implies(e.used, w.used))]))
    o = vc.run(x.parameter_used, 'name')
    vc.check(not o.raised and vc.iff(o.value, w.used if k != 'nowhere' else False), 'a name is used if it occurs in a component or a block', o)


@harness('I01', 'check_instrument_parameters: only what is not used is removed', [N + 'check_instrument_parameters'], bounded='up to 4 parameters')
def h_unused(vc):
    n = vc.size('n', 0, 4)
    ps = [Named(f'p{k}') for k in range(n)]
    used = {p.name: vc.choice('used ' + p.name, (False, True)) for p in ps}
    x = instr(parameters=tuple(ps))
    x.parameter_used = lambda name: used[name]
    remove = vc.choice('remove', (None, False, True))
    o = vc.run(x.check_instrument_parameters, *([] if remove is None else [remove]))
    vc.check(not o.raised and o.value == sum(1 for p in ps if not used[p.name]), 'the number of parameters which are not used', o)
    want = [p for p in ps if used[p.name] or not remove]
    vc.check(len(x.parameters) == len(want) and all(a is b for a, b in zip(x.parameters, want)), 'exactly those which are not used are removed, if that is asked for')
    vc.check(rest(x, ('parameters', 'parameter_used')), 'nothing else is changed')


@harness('I01', 'metadata of any number of components', [N + 'collect_metadata'])
def h_collected(vc):
    """the metadata of all components, each with any number of them, and of the instrument"""
    def component(n):
        c = Named(n)
        c.md = [some(vc, f'{n} metadata', lambda k: Token(k), most=2)] if vc.sym else [[Token(f'{n}{j}') for j in range(2)]]
        c.collect_metadata = lambda: seq(c.md)
        return c
    a, b = component('first'), component('second')
    own = some(vc, 'own', lambda n: Token(n), most=2)
    many, more = some(vc, 'many', component, most=2), some(vc, 'more', component, most=2)
    x = instr(components=seq([many, [a], more, [b]]), metadata=seq([own]))
    o = vc.run(x.collect_metadata)
    vc.check(not o.raised, 'metadata can be collected', o)
    label = 'the metadata of all components and of the instrument'
    if vc.sym:
        got, of = pieces_of(o.value), lambda k: getattr(k, 'of', None)
        want = [many, *a.md, more, *b.md, own]
        vc.check(len(got) == len(want), label, o)
        for g, w in zip(got, want):
            vc.check((of(g) if w in (many, more) else g) is w, label, o)
            if w in (many, more): vc.check(isinstance(g.some(), Token), label, o)
    else: vc.check([m for m in o.value] == [m for c in (*many, a, *more, b) for p in c.md for m in p] + own, label, o)


# ------------------------------------------------------------------ copies and parts
FIELDS = ('parameters', 'metadata', 'included', 'user', 'declare', 'initialize', 'save', 'final', 'flags', 'registries')


def full_instr(vc, components):
    """an instrument with any number of everything; pieces by field"""
    P = {}
    for f in FIELDS:
        P[f] = some(vc, f, lambda n: Token(n), most=2)
    x = instr(components=components, **{f: seq([P[f]]) for f in FIELDS})
    return x, P


def copied(vc, s, pieces):
    """the sequence has copies of these pieces, in order"""
    got = pieces_of(s)
    if not vc.sym:
        flat, want = [x for p in got for x in p], [x for p in pieces for x in p]
        return len(flat) == len(want) and all(a is b or getattr(a, 'log', getattr(a, 'of', None)) is b for a, b in zip(flat, want))
    want = pieces_of(seq(pieces)) if any(not isinstance(p, list) for p in pieces) else [[x for p in pieces for x in p]]
    want = [p for p in want if not isinstance(p, list) or p]
    if len(got) != len(want): return False
    for a, b in zip(got, want):
        if isinstance(a, list) != isinstance(b, list): return False
        if isinstance(a, list):
            if len(a) != len(b) or not all(p is q or getattr(p, 'log', getattr(p, 'of', None)) is q for p, q in zip(a, b)): return False
        elif a is not b:
            if a.n is not b.n or getattr(a, 'base', None) is not b: return False
            e = a.certain(lambda q: True)[1]
            if getattr(e, 'log', getattr(e, 'of', None)) is None: return False
    return True


@harness('I01', 'Instr.copy: everything of the original, or a range of its components', [N + 'copy'])
def h_copy(vc):
    make = lambda n: Named(vc.ident(n, POOL))
    cs = [some(vc, k, make) for k in ('before', 'within', 'behind')]
    x, P = full_instr(vc, seq(cs))
    lens = [c.n if vc.sym else len(c) for c in cs]
    if vc.sym:
        from vc.core import SInt
        at = lambda k: SInt(sum(lens[:k])) if k else 0
    else: at = lambda k: sum(lens[:k])
    how = vc.choice('range', ('all', 'from', 'up to', 'both', 'end', 'from, end'))
    end = -1 - (SInt(lens[2]) if vc.sym else lens[2])   # -1 is behind the last one
    kw = {'all': {}, 'from': {'first': at(1)}, 'up to': {'last': at(2)}, 'both': {'first': at(1), 'last': at(2)}, 'end': {'last': end}, 'from, end': {'first': at(1), 'last': end}}[how]
    asked = []
    i, m = mods()
    keep, i.Instr.determine_groups = i.Instr.determine_groups, lambda self: asked.append((self, self.components))
    try: o = vc.run(x.copy, **kw)
    finally: i.Instr.determine_groups = keep
    vc.check(not o.raised and type(o.value) is i.Instr and o.value is not x, 'an instrument can be copied', o)
    y = o.value
    vc.check(y.name == 'thing' and y.source == 'thing.instr', 'a copy has the name of the original')
    for f in FIELDS: vc.check(copied(vc, getattr(y, f), [P[f]]), f'a copy has the {f} of the original', lambda: getattr(y, f))
    want = {'all': cs, 'from': cs[1:], 'up to': cs[:2], 'both': cs[1:2], 'end': cs[:2], 'from, end': cs[1:2]}[how]
    vc.check(copied(vc, y.components, want), 'a copy has the components of the range, in order', lambda: y.components)
    if not vc.sym: vc.check(all(a.of is not None for a in y.components), 'components are copied, not shared')
    vc.check(any(s is y and (c is y.components or copied(vc, c, want)) for s, c in asked), 'its groups are those of its components')
    vc.check(same(x.components, cs) and all(same(getattr(x, f), [P[f]]) for f in FIELDS), 'the original stays as it is')


def locals_(vc):
    """a loop over the elements, with variables of its own"""
    if not vc.sym: return None
    from vc.seqs import Scan, scratch
    class Locals(Scan):
        def havoc(self, loop, env, stage): return scratch(loop)
    return Locals()


@harness('I01', 'Instr.split: the two parts', [N + 'split'])
def h_split(vc):
    i, m = mods()
    from mccode_antlr.instr.instance import Instance
    class Inst(Instance):
        def __init__(self, name): self.name = name
        __eq__ = object.__eq__
        __hash__ = object.__hash__
    by = vc.choice('by', ('name', 'object'))
    remove = vc.choice('remove', (None, False, True))
    nm = vc.ident('name', POOL)
    other = lambda e: vc.not_(e.name == nm)
    present = vc.choice('present', ('once', 'never', 'twice')) if by == 'name' else 'once'
    make = lambda n: Inst(vc.ident(n, POOL))
    t = Inst(nm)
    b, a = some(vc, 'before', make, other), some(vc, 'after', make, other)
    cs = [b, [t], a] if present == 'once' else [b, a] if present == 'never' else [b, [t], [Inst(nm)], a]
    x = instr(components=seq(cs))
    log = []
    # one of the components of the second part, placed relative to ones which are in that part (near) or not (far)
    REF = (None, 'near1', 'near2', 'far')
    refs = [vc.choice(w + ' relative', REF) for w in ('at', 'rotated')]
    old, new = {n: Inst(n) for n in REF if n}, {n: Inst(n) for n in REF if n}
    def component(n):
        c = Inst(vc.ident(n, POOL))
        c.at_relative, c.rotate_relative = (Token('at'), None), (Token('rotated'), None)
        return c
    it = component('it')
    it.at_relative, it.rotate_relative = [(Token(w), old.get(r)) for w, r in zip(('at', 'rotated'), refs)]
    given = it.at_relative, it.rotate_relative
    class Where:
        def position(self): return 'its absolute position'
        def angles(self): return 'its absolute angles'
    it.orientation = Where()
    def copy(first=0, last=-1):
        y = i.Instr('thing', 'thing.instr')
        y.components = ()
        if not (isinstance(first, int) and first == 0 and not (isinstance(last, int) and last == -1)):
            y.components = seq([some(vc, 'earlier', component, fold=locals_(vc)), [it], some(vc, 'later', component, fold=locals_(vc))])
        y.check_instrument_parameters = lambda remove=False: (log.append(('check', y, remove)), 0)[1]
        y.has_component_named = lambda n: n in ('near1', 'near2')
        y.get_component = lambda n: new[n]
        log.append(('copy', y, first, last))
        return y
    x.copy = copy
    o = vc.run(x.split, nm if by == 'name' else t, *([] if remove is None else [remove]))
    if present != 'once':
        vc.check(o.raised, 'a name which is not that of exactly one component is refused', o)
        return
    vc.check(not o.raised and len(o.value) == 2, 'an instrument can be split', o)
    p, q = o.value
    k = len(b) if not vc.sym else b.n
    if vc.sym:
        from vc.core import SInt
        k = SInt(k)
    cp = {id(e[1]): e for e in log if e[0] == 'copy'}
    vc.check(id(p) in cp and id(q) in cp and p is not q, 'both parts are copies')
    f, s = cp.get(id(p)), cp.get(id(q))
    minus = lambda v: isinstance(v, int) and v == -1
    n = vc.run(lambda: len(x.components)).value if not vc.sym else None
    vc.check(not minus(f[3]) and vc.and_(vc.num_eq(f[2], 0), vc.num_eq(f[3], k + 1)), 'the first part has the components up to the one it is split at, which is included')
    vc.check((minus(s[3]) or n is not None and s[3] == n) and vc.num_eq(s[2], k), 'the second part has the components from the one it is split at')
    vc.check(p.name == 'thing_first' and q.name == 'thing_second', 'the parts are named after the instrument')
    for got, was, abs_, w in zip((it.at_relative, it.rotate_relative), given, ('its absolute position', 'its absolute angles'), ('placed', 'rotated')):
        r = was[1] and was[1].name
        if r is None: vc.check(got[0] is was[0] and got[1] is None, f'a component which is {w} absolutely stays so')
        elif r == 'far': vc.check(got == (abs_, None), f'a component which is {w} relative to one that is not in the second part is {w} absolutely', lambda: got)
        else: vc.check(got[0] is was[0] and got[1] is new[r], f'a component which is {w} relative to one in the second part stays so', lambda: got)
    for y, what in ((p, 'first'), (q, 'second')):
        ch = [e[2] for e in log if e[0] == 'check' and e[1] is y]
        vc.check(any(ch) is bool(remove), f'parameters which the {what} part does not use are removed exactly if that is asked for', lambda: log)
    vc.check(same(x.components, cs) and x.name == 'thing', 'the original stays as it is')


# ------------------------------------------------------------------ making instances
def placing(vc):
    """the contract of Orient.from_dependent_orientations (O02): some orientation"""
    import mccode_antlr.instr.instance as n
    class Orient:
        made = []
        @staticmethod
        def from_dependent_orientations(*a):
            Orient.made.append((a, Token('orientation')))
            return Orient.made[-1][1]
    keep, n.Orient = n.Orient, Orient
    return Orient, lambda: setattr(n, 'Orient', keep)


def triple(m, o, kind, label): return getattr(o, kind)(*[m.Expr(m.Value(f'{label}{k}', m.DataType.undefined)) for k in 'xyz'])


@harness('I01', 'make_instance: the instance has what was asked for', [N + 'make_instance'])
def h_make(vc):
    i, m = mods()
    import mccode_antlr.instr.orientation as orient, mccode_antlr.reader as reader
    from mccode_antlr.comp import Comp
    nm = vc.ident('name', POOL)
    present = vc.choice('present', (False, True))
    cs, _, ps = named(vc, 'components', nm, present)
    flags, regs = some(vc, 'flags', lambda n: Token(n)), [Token('registry')]
    x = instr(components=cs, flags=seq([flags]), registries=tuple(regs))
    comp = Comp(name='Thing', acc=vc.choice('acc', (True, False)))
    by = vc.choice('by', ('name', 'type'))
    class Reader:
        seen = []
        def __init__(self, registries=None): Reader.seen.append(registries); self.c_flags = ['-lnew']
        def get_component(self, name): Reader.seen.append(name); return comp
    at, rot = (triple(m, orient, 'Vector', 'at'), vc.choice('reference', (None, Named('ref')))), (triple(m, orient, 'Angles', 'rot'), None)
    if at[1] is not None: at[1].orientation = Token('of reference')
    kw = {}
    if vc.choice('orientation', (False, True)): kw['orientation'] = Token('given')
    pars = (Token('p1'), Token('p2'))
    if vc.choice('parameters', (False, True)): kw['parameters'] = pars
    if vc.choice('group', (False, True)): kw['group'] = 'grp'
    if vc.choice('removable', (False, True)): kw['removable'] = True
    O, undo = placing(vc)
    keep, reader.Reader = reader.Reader, Reader
    try: o = vc.run(x.make_instance, nm, 'Thing' if by == 'name' else comp, at, rot, **kw)
    finally:
        undo(); reader.Reader = keep
    if present:
        vc.check(o.raised, 'a second instance of the same name is refused', o)
        vc.check(same(x.components, ps) and same(x.flags, [flags]), 'a refused instance changes nothing')
        return
    vc.check(not o.raised, 'an instance can be made', o)
    got = pieces_of(x.components)
    a = got[-1][-1] if got and isinstance(got[-1], list) else None
    vc.check(a is not None and same(x.components, [*ps, [a]]), 'the instance is added behind those which are there')
    vc.check(a.name is nm and a.type is comp and a.at_relative is at and a.rotate_relative is rot, 'the instance has its name, type and placement')
    vc.check(a.orientation is kw['orientation'] if 'orientation' in kw else any(a.orientation is t for _, t in O.made), 'the instance has the orientation which is given, or that of its placement')
    vc.check(tuple(a.parameters) == tuple(kw.get('parameters', ())), 'the instance has its parameters')
    vc.check(a.group == kw.get('group') and a.removable is kw.get('removable', False) and a.cpu is (not comp.acc), 'the instance has its group, and is removable if that is asked for', lambda: (a.group, a.removable, a.cpu, kw))
    vc.check(a.when is None and a.split is None and a.extend == () and a.jump == () and a.metadata == (), 'the instance has nothing else')
    if by == 'name':
        vc.check(Reader.seen[0] == regs and Reader.seen[1] == 'Thing', 'the type is looked up in the registries of the instrument', lambda: Reader.seen)
        vc.check(same(x.flags, [flags, ['-lnew']]), 'the flags of the type are kept')
    else: vc.check(same(x.flags, [flags]), 'flags stay as they are')


@harness('I01', 'mcpl_split: an output at the end of the first part, an input at the start of the second', [N + 'mcpl_split'])
def h_mcpl(vc):
    i, m = mods()
    make = lambda n: Named(vc.ident(n, POOL))
    x = instr()
    a, b = some(vc, 'first', make), some(vc, 'second', make)
    fc, sc = Named('cut'), Named('cut')
    for c in (fc, sc):
        c.type = type('T', (), {'name': 'Arm'})
        c.at_relative, c.rotate_relative, c.orientation = (Token('at'), None), (Token('rot'), None), Token('orientation')
    p, q = instr(components=seq([a, [fc]])), instr(components=seq([[sc], b]))
    p.name, q.name = 'one', 'two'
    asked, made, pars = [], [], []
    x.split = lambda after, remove_unused_parameters=False: (asked.append((after, remove_unused_parameters)), (p, q))[1]
    def maker(y):
        def make_instance(name, component, at_relative=None, rotate_relative=None, orientation=None, parameters=None, group=None, removable=False):
            made.append((y, name, component, at_relative, rotate_relative, orientation, tuple(parameters or ()), group, removable))
            y.components = y.components + (made[-1],)
        return make_instance
    for y in (p, q):
        y.make_instance = maker(y)
        y.add_parameter = lambda par, ignore_repeated=False, y=y: pars.append((y, par))
    class Parsed:
        def __init__(self, s): self.s = s
        @staticmethod
        def parse(s): return Parsed(s)
    CP = lambda n: m.ComponentParameter(n, m.Expr.float(1))
    kw, want = {}, {}
    if vc.choice('file', (False, True)): kw['filename'] = vc.choice('filename', ('f.mcpl', '"g.mcpl"', '"h.mcpl'))
    if vc.choice('removing', (False, True)): kw['remove_unused_parameters'] = True
    for k, d in (('output', 'MCPL_output'), ('input', 'MCPL_input')):
        if vc.choice(k + ' type', (False, True)): kw[k + '_component'] = 'My_' + k
        want[k, 'type'] = kw.get(k + '_component', d)
        how = vc.choice(k + ' parameters', ('default', 'others', 'filename', 'verbose'))
        if how != 'default': kw[k + '_parameters'] = tuple(CP(n) for n in {'others': ('u', 'v'), 'filename': ('u', 'filename'), 'verbose': ('verbose', 'w')}[how])
        want[k, 'pars'] = kw.get(k + '_parameters', ())
    keep, i.InstrumentParameter = i.InstrumentParameter, Parsed
    try: o = vc.run(x.mcpl_split, 'cut', **kw)
    finally: i.InstrumentParameter = keep
    vc.check(not o.raised and len(o.value) == 2 and o.value[0] is p and o.value[1] is q, 'both parts are given', o)
    vc.check(asked == [('cut', kw.get('remove_unused_parameters', False))], 'the instrument is split at the component')
    fn = kw.get('filename', 'thing.mcpl')
    fn = fn if fn[0] == '"' == fn[-1] else '"' + fn + '"'
    vc.check([(y, t.s) for y, t in pars] == [(p, f'string mcpl_filename = {fn}'), (q, f'string mcpl_filename = {fn}')], 'both parts have the name of the file as a parameter', lambda: [(y.name, t.s) for y, t in pars])
    mk = {id(e[0]): e for e in made}
    vc.check(len(made) == 2 and len(mk) == 2, 'one output and one input are made')
    out, inp = mk[id(p)], mk[id(q)]
    vc.check(same(p.components, [a, [out]], lambda u, v: u is v) and same(q.components, [[inp], b]), 'the output replaces the last component of the first part, the input the first of the second')
    for e, c, k in ((out, fc, 'output'), (inp, sc, 'input')):
        vc.check(e[1] == 'cut' and e[2] == want[k, 'type'] and e[3] is c.at_relative and e[4] is c.rotate_relative, f'the {k} has name and placement of what it replaces', e)
        given = want[k, 'pars']
        vc.check(all(any(g is r for r in e[6]) for g in given), f'the {k} has the parameters which are given', e)
        names = [r.name for r in e[6]]
        need = ['filename'] + (['verbose'] if k == 'input' else [])
        vc.check(sorted(names) == sorted(set([g.name for g in given] + need)), f'the {k} has the name of the file once, and nothing else', lambda: names)
        for r in e[6]:
            if r.name == 'filename' and not any(r is g for g in given):
                v = r.value.expr[0]
                vc.check(v.is_parameter and v.value == 'mcpl_filename', 'the file is the one which the parameter says', r)


# ------------------------------------------------------------------ the Assembler
def assembler(x, **k):
    from mccode_antlr.assembler.assembler import Assembler
    a = object.__new__(Assembler)
    a.instrument = x
    a.__dict__.update(k)
    return a


@harness('I01', 'Assembler.component: placement, reference, flags, parameters', [A + n for n in ('component', '_handle_at', '_handle_rotate', '_handle_at_rotate')] + [N + 'add_component', N + 'get_component'], max_paths=20000)
def h_assemble(vc):
    i, m = mods()
    import mccode_antlr.instr.instance as inst, mccode_antlr.instr.orientation as orient
    from mccode_antlr.comp import Comp
    nm = vc.ident('name', POOL)
    other = lambda e: vc.not_(e.name == nm)
    # the placement and everything else are varied in turn
    vary = vc.choice('vary', ('placement', 'rest')) if vc.sym else 'all'
    pick = lambda what, name, options, default: vc.choice(name, options) if vary in (what, 'all') else default
    ref = Named('target')
    ref.orientation = Token('of reference')
    present = pick('rest', 'present', (False, True), False)
    two = Named(nm)
    vc.assume(vc.not_(nm == 'target')); vc.assume(vc.not_(nm == 'PREVIOUS'))
    notref = lambda e: vc.and_(vc.not_(e.name == 'target'), vc.not_(e.name == 'nobody'), other(e))
    vc.assume(vc.not_(nm == 'nobody'))
    make = lambda n: Named(vc.ident(n, POOL))
    ps = [some(vc, 'before', make, notref), [ref], some(vc, 'behind', make, notref), [two] if present else []]
    fl = some(vc, 'flags', lambda n: vc.ident(n, ('-la', '-lb')), most=1) if not vc.sym else ['-la']
    x = instr(components=seq(ps), flags=seq([fl]))
    checked = []
    def check_expr(e):
        checked.append((e, m.Expr(m.Value(f'checked{len(checked)}', m.DataType.undefined))))
        return checked[-1][1]
    x.check_expr = check_expr
    class Ref(inst.Instance):
        def __init__(self): self.name, self.orientation = 'object', Token('of object')
    robj = Ref()
    comp = Comp(name=pick('rest', 'found', ('Thing', 'Other'), 'Thing'), acc=True)
    class Reader:
        c_flags = pick('rest', 'new flags', ([], ['-lnew', '-la', '-lnew']), [])
        def get_component(self, name): return comp
    a = assembler(x, reader=Reader())
    def placing_arg(which, forms):
        """(argument, values, reference)"""
        k = pick('placement', which, forms, 'name' if which == 'at' else 'none')
        v = [Token(f'{which}{c}') for c in 'xyz'] if pick('rest', which + ' list', (False, True), False) else tuple(Token(f'{which}{c}') for c in 'xyz')
        return {'none': (None, None, None), 'values': (v, v, None), 'no reference': ((v, None), v, None), 'absolute': ((v, vc_abs(vc, which)), v, 'absolute'), 'name': ((v, 'target'), v, ref), 'object': ((v, robj), v, robj), 'unknown': ((v, 'nobody'), v, 'error'),
                'too few': ((v[:2], 'target'), v, 'error'), 'not a pair': (5, v, 'error')}[k]
    at, atv, atr = placing_arg('at', ('none', 'values', 'no reference', 'absolute', 'name', 'object', 'unknown', 'too few', 'not a pair'))
    rot, rotv, rotr = placing_arg('rotate', ('none', 'no reference', 'absolute', 'name', 'object', 'unknown') if atr != 'error' else ('none',))
    kw = {}
    pars = {'u': 1.0, 'v': 'text'} if pick('rest', 'parameters', (False, True), True) else None
    if pick('rest', 'keywords', (False, True), True): kw = dict(when=m.Expr(m.Value('w', m.DataType.undefined)), group='grp', removable=True)
    sets = []
    keep, inst.Instance.set_parameter = inst.Instance.set_parameter, lambda self, name, value, **k: sets.append((self, name, value))
    O, undo = placing(vc)
    try: o = vc.run(a.component, nm, 'Thing', at=at, rotate=rot, parameters=pars, **kw)
    finally:
        undo(); inst.Instance.set_parameter = keep
    if comp.name != 'Thing' or present or 'error' in (atr, rotr):
        vc.check(o.raised, 'a component which is not found, whose name is taken, or whose placement makes no sense is refused', o)
        vc.check(same(x.components, ps) and sets == [], 'a refused component changes nothing')
        return
    vc.check(not o.raised, 'a component can be added', o)
    c = o.value
    vc.check(same(x.components, [*ps, [c]]), 'the component is added behind those which are there, and given back')
    vc.check(c.name is nm and c.type is comp, 'its name and type are those which are given')
    def vals(got, v, kind):
        got = got[0]
        if type(got) is not kind: return False
        if v is None: return all(e.is_constant and e.value == 0 for e in (got.x, got.y, got.z))
        ch = {id(e): t for t, e in checked}
        return all(ch.get(id(g)) is t for g, t in zip((got.x, got.y, got.z), v))
    real = lambda r: None if r in (None, 'absolute') else r
    vc.check(vals(c.at_relative, atv, orient.Vector) and c.at_relative[1] is real(atr), 'it is placed where it says', lambda: c.at_relative)
    want = None if rotr == 'absolute' else real(rotr) if rotr is not None else real(atr)
    vc.check(vals(c.rotate_relative, rotv, orient.Angles) and c.rotate_relative[1] is want, 'it is rotated as it says, relative to what it is placed relative to if nothing is said', lambda: c.rotate_relative)
    vc.check(sets == [(c, n, v) for n, v in (pars or {}).items()], 'it is given its parameters', lambda: sets)
    vc.check(c.group == kw.get('group') and c.when is kw.get('when') and c.removable is kw.get('removable', False), 'it has its keywords')
    fs = list(fl)
    vc.check(list(x.flags) == (list(dict.fromkeys(fs + Reader.c_flags)) if Reader.c_flags else fs), 'each flag of the component types is kept, once', lambda: x.flags)


def vc_abs(vc, which): return vc.choice(which + ' absolute', ('ABSOLUTE', 'absolute'))


@harness('I01', 'check_expr: names of instrument parameters are marked', [N + 'check_expr'], max_paths=20000)
def h_check_expr(vc):
    i, m = mods()
    nm = vc.ident('name', POOL)
    present = vc.choice('present', (False, True))
    cs, _, ps = named(vc, 'parameters', nm, present)
    x = instr(parameters=cs)
    kind = vc.choice('kind', ('expression', 'text', 'number', 'float'))
    v = {'expression': lambda: m.Expr(m.Value(nm, m.DataType.undefined)), 'text': lambda: nm, 'number': lambda: 3, 'float': lambda: 2.5}[kind]()
    if kind == 'text' and vc.sym: vc.assume(vc.not_(nm == ''))
    o = vc.run(x.check_expr, v)
    vc.check(not o.raised and isinstance(o.value, m.Expr) and len(o.value.expr) == 1, 'an expression is given', o)
    e = o.value.expr[0]
    if kind in ('expression', 'text'):
        vc.check(vc.eq(e.value, nm) and vc.iff(e.is_parameter, present), 'a name is marked as a parameter exactly if there is a parameter of that name', o)
    else: vc.check(not e.is_id and e.value == v, 'a number is itself', o)
    vc.check(same(x.parameters, ps), 'the parameters stay as they are')


@harness('I01', 'Assembler.parameter, parameters', [A + 'parameter', A + 'parameters', N + 'add_parameter'], bounded='up to 2 parameters in one call')
def h_asm_pars(vc):
    i, m = mods()
    import mccode_antlr.assembler.assembler as asm
    x = instr()
    log = []
    x.add_parameter = lambda p, ignore_repeated=False: log.append((p, ignore_repeated))
    a = assembler(x)
    IP = m.InstrumentParameter
    parsed = []
    class Par(IP):
        @staticmethod
        def parse(s):
            parsed.append((s, Par(s, None, None)))
            return parsed[-1][1]
    obj = Par('obj', 'm', m.Expr.float(1))
    keep, asm.InstrumentParameter = asm.InstrumentParameter, Par
    single = vc.choice('one', (True, False))
    def arg(n): return 'double q = 1' if vc.choice(n, ('text', 'object')) == 'text' else obj
    def pair(n):
        v = vc.choice(n + '.value', ('number', 'expression', 'text', 'list'))
        v = {'number': 3.5, 'expression': m.Expr(m.Value('e', m.DataType.undefined)), 'text': 'abc', 'list': 7}[v]
        k = vc.choice(n + '.form', ('value', 'unit', 'list', 'dict', 'object'))
        return {'value': (v, '', v), 'unit': ((v, 'meV'), 'meV', v), 'list': ([v, 'K'], 'K', v), 'dict': ({'unit': 'AA', 'value': v}, 'AA', v), 'object': (obj, None, obj)}[k]
    try:
        if single:
            p, ig = arg('p'), vc.choice('ignore', (None, False, True))
            o = vc.run(a.parameter, p, **({} if ig is None else {'ignore_repeated': ig}))
            want = [(obj if p is obj else parsed[0][1] if parsed else None, bool(ig))]
            vc.check(not o.raised and len(log) == 1 and log[0][0] is want[0][0] and log[0][1] is want[0][1], 'a parameter is added', lambda: (o, log, want))
            return
        ps = [arg(f'p{k}') for k in range(vc.size('n', 0, 2))]
        prs = {f'k{k}': pair(f'k{k}') for k in range(vc.size('pairs', 0, 2))}
        o = vc.run(a.parameters, *ps, **{k: v[0] for k, v in prs.items()})
    finally: asm.InstrumentParameter = keep
    vc.check(not o.raised and len(log) == len(ps) + len(prs) and not any(g for _, g in log), 'all parameters are added, and repeated ones refused', lambda: (o, log))
    for (g, _), p in zip(log, ps): vc.check(g is obj if p is obj else any(g is q for _, q in parsed), 'parameters are added in order')
    for (g, _), (k, (given, unit, v)) in zip(log[len(ps):], prs.items()):
        if given is obj: vc.check(g is obj, 'a parameter is itself')
        else: vc.check(g.name == k and g.unit == unit and (g.value is v if isinstance(v, m.Expr) else isinstance(g.value, m.Expr) and g.value.expr[0].value == v), 'a parameter has its name, unit and value', g)


@harness('I01', 'Assembler.ensure_user_var, declare_array, metadata', [A + 'ensure_user_var', A + 'declare_array', A + 'metadata'], sym=False)
def h_asm_c(vc):
    i, m = mods()
    x = instr()
    a = assembler(x)
    T = ('int', 'double', 'char')
    have = {}
    for k in range(vc.size('blocks', 0, 3)):
        ds = []
        for j in range(vc.size(f'decls{k}', 1, 2)):
            n, t = vc.choice(f'n{k}{j}', ('u', 'v', 'w', 'uu')), vc.choice(f't{k}{j}', T)
            if n in have: continue
            have[n] = t
            ds.append(f'{t} {n};')
        if ds: a.user_vars('\n'.join(ds))
    before = [b.source for b in x.user]
    n, t = vc.choice('name', ('u', 'v', 'w', 'uu')), vc.choice('type', T)
    o = vc.run(a.ensure_user_var, f'{t} {n};')
    vc.check(not o.raised, 'a variable can be asked for', o)
    want = before if n in have else before + [f'{t} {n};']
    vc.check([b.source for b in x.user] == want, 'a variable is declared once', lambda: [b.source for b in x.user])
    o = vc.run(a.declare_array, 'double', 'arr', [1, 2.5, -3])
    vc.check(not o.raised and x.declare[-1].source.replace(' ', '') == 'doublearr[]={1,2.5,-3};', 'an array is declared with its values', lambda: x.declare)
    o = vc.run(a.metadata, 'md', 'text/plain', 'content')
    vc.check(not o.raised and len(x.metadata) == 1 and (x.metadata[0].name, x.metadata[0].mimetype, x.metadata[0].value) == ('md', 'text/plain', 'content'), 'metadata has its name, type and content', lambda: x.metadata)
