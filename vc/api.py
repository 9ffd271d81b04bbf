"""Harness API.  One harness = one contract obligation family, written once and run in three modes:

  sym     inputs are symbolic, every `check` is a proof obligation for the solver (instrumented package)
  replay  inputs come from a counter-model or a replay file (the plain package, plain CPython)
  random  inputs are drawn at random (the plain package): the bounded stand-in / counterexample search
"""
import math, random, string as _string, traceback

HARNESSES = {}


class Harness:
    def __init__(self, fn, prop, name, functions, sym, conc, weight, budget, bounded, max_paths, note, unroll):
        self.fn, self.prop, self.name, self.functions = fn, prop, name, functions
        self.sym, self.conc, self.weight, self.budget, self.bounded, self.max_paths = sym, conc, weight, budget, bounded, max_paths
        self.note = note
        self.unroll = unroll


def harness(prop, name, functions=(), sym=True, conc=True, weight=1.0, budget=90, bounded=None, max_paths=6000, note='', unroll=6):
    """bounded: text naming the bound when the symbolic run itself is bounded (then never counted as proved)"""
    def deco(fn):
        key = f'{prop}:{name}'
        assert key not in HARNESSES, key
        HARNESSES[key] = Harness(fn, prop, name, list(functions), sym, conc, weight, budget, bounded, max_paths, note, unroll)
        return fn
    return deco


class Discard(BaseException):
    """random/replay input outside of the precondition"""


class Failed(BaseException):
    def __init__(self, label, detail=''):
        self.label, self.detail = label, detail


class Out:
    """outcome of running the code under contract"""
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc
    @property
    def raised(self): return self.exc is not None
    def __repr__(self): return f'Out(raised {type(self.exc).__name__}: {self.exc})' if self.raised else f'Out({self.value!r})'


SPECIAL = [0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 3.0, 10.0, 90.0, 180.0, -90.0, 45.0, 30.0, 1e-3, 7.25, -3.5]


def open_findings(memo=[]):
    if not memo:
        import json, os
        with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')) as f:
            memo.append({k['id'] for k in json.load(f)['findings'] if 'id' in k and k.get('status') == 'open'})
    return memo[0]


class Base:
    sym = False
    def implies(self, a, b): return self.or_(self.not_(a), b)
    def iff(self, a, b): return self.and_(self.implies(a, b), self.implies(b, a))
    def run(self, f, *a, **k):
        try:
            return Out(f(*a, **k))
        except Exception as e:
            return Out(exc=e)


class Concrete(Base):
    """values: dict name -> value (replay), or None with an rng (random)"""
    def __init__(self, rng, values=None):
        self.rng = rng
        self.given = values
        self.values = {}
        self.checks = 0
        self.notes = []
        self.tol = 1e-7
        self.like = None
        self.hits = set()     # recorded findings met
        self.strict = False   # replaying a counter-model of the solver: less rounding to allow for

    def known(self, finding, cond, label, detail=''):
        """a check of one specific input which is recorded as an open finding in known_findings.json under this id"""
        if not cond and finding in open_findings(): self.hits.add(finding)
        else: self.check(cond, label, detail)

    def _get(self, name, draw):
        if name in self.values:
            raise RuntimeError(f'input {name} made twice')
        if self.given is not None and name in self.given:
            v = self.given[name]
        else:
            v = self._mirrored(name) if self.like is not None else None
            if v is None: v = draw()
        self.values[name] = v
        return v

    def mirror(self, dst, src):
        """random inputs called dst.* are mostly those called src.* again, with operands exchanged here and there"""
        if self.given is None and self.rng.random() < 0.6:
            self.like = (dst, src, {}, self.rng.choice((0, 0.02, 0.1)), self.rng.choice((0, 0.2, 1)))

    def _mirrored(self, name):
        dst, src, swaps, change, swap = self.like
        segs = name.split('.')
        if segs[0] != dst or self.rng.random() < change: return None
        out = [src]
        for i in range(1, len(segs)):
            x = segs[i]
            if x in ('l', 'r') and i < len(segs) - 1:
                k = '.'.join(segs[:i])
                if k not in swaps: swaps[k] = self.rng.random() < swap
                if swaps[k]: x = 'r' if x == 'l' else 'l'
            out.append(x)
        return self.values.get('.'.join(out))

    def real(self, name, lo=None, hi=None, specials=()):
        def draw():
            r = self.rng
            sp = [x for x in list(specials) * 3 + SPECIAL if (lo is None or x >= lo) and (hi is None or x <= hi)]
            if sp and r.random() < 0.5: return float(r.choice(sp))
            a, b = (-10 if lo is None else lo), (10 if hi is None else hi)
            if r.random() < 0.3: return float(round(r.uniform(a, b)))
            return r.uniform(a, b)
        v = self._get(name, draw)
        v = float(v)
        if (lo is not None and v < lo) or (hi is not None and v > hi): raise Discard()
        self.values[name] = v
        return v

    def int(self, name, lo=-5, hi=8, specials=()):
        def draw():
            if specials and self.rng.random() < 0.4: return self.rng.choice(list(specials))
            return self.rng.randint(lo, hi)
        v = int(self._get(name, draw))
        self.values[name] = v
        return v

    def bool(self, name):
        return bool(self._get(name, lambda: self.rng.random() < 0.5))

    def choice(self, name, options):
        options = list(options)
        i = self._get(name, lambda: self.rng.randrange(len(options)))
        if not isinstance(i, int) or i >= len(options): raise Discard()
        return options[i]

    def size(self, name, lo, hi):
        """a structural size; sym mode explores every value lo..hi"""
        return int(self._get(name, lambda: self.rng.randint(lo, hi)))

    def ident(self, name, pool=('a', 'b', 'c', 'x', 'det', 'arm1', 'A', 'xx')):
        v = self._get(name, lambda: self.rng.choice(list(pool)))
        if not isinstance(v, str): raise Discard()
        if not v.isidentifier() or not v.isascii():
            v = 'id_' + v.encode().hex()  # a counter-model names identifiers freely
            self.values[name] = v
        return v

    def text(self, name, excl='', nonempty=False, pool=None):
        def draw():
            if pool and self.rng.random() < 0.7: return self.rng.choice(list(pool))
            al = [c for c in 'abzXY019 _-+.,;:=<>/*\'"\\\n\t#%&$!?()[]{}~^|@' if c not in excl]
            return ''.join(self.rng.choice(al) for _ in range(self.rng.randint(1 if nonempty else 0, 6)))
        v = self._get(name, draw)
        if any(c in v for c in excl) or (nonempty and not v): raise Discard()
        return v

    def assume(self, c):
        if not c: raise Discard()

    def check(self, c, label, detail=''):
        if label.startswith('aux:'): return   # not the property itself, only what its proof leans on
        self.checks += 1
        if not c:
            raise Failed(label, detail() if callable(detail) else detail)

    def and_(self, *a): return all(bool(x) for x in a)
    def or_(self, *a): return any(bool(x) for x in a)
    def not_(self, a): return not a
    def ite(self, c, a, b): return a if c else b
    def num_eq(self, a, b, tol=None):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if a == b: return True
            if math.isnan(a) or math.isnan(b): return math.isnan(a) and math.isnan(b)
            return abs(a - b) <= (tol or self.tol) * max(1.0, abs(a), abs(b))
        return a == b
    def eq(self, a, b): return a == b
    def str(self, x): return str(x)
    def text_length(self, x): return len(x)
    def uf(self, fn, *args):
        """an arbitrary function: in concrete mode a fixed smooth pseudo function of its name"""
        h = sum((i + 1) * ord(c) for i, c in enumerate(fn)) % 97
        r = 0.3 + h / 97
        for i, a in enumerate(args):
            r += math.sin(float(a) * (1.0 + 0.1 * i) + h) * (i + 1)
        return r
    def cover(self, label): pass
    def imprecise(self): pass


import z3
from . import core
from .core import SBool, SInt, SReal, SStr, Atom, mk_bool, bterm, rterm, iterm, is_num, to_bool_term

IDENT_EXCL = ''.join(chr(c) for c in range(1, 128) if not (chr(c).isalnum() or chr(c) == '_'))


class Symbolic(Base):
    sym = True
    def mirror(self, dst, src): pass
    def __init__(self, path):
        self.p = path
        self.values = path.names

    def _reg(self, name, t):
        if name in self.p.names: raise RuntimeError(f'input {name} made twice')
        self.p.names[name] = t

    def real(self, name, lo=None, hi=None, specials=()):
        t = z3.Real(name)
        self._reg(name, t)
        if lo is not None: self.p.add(t >= rterm(lo))
        if hi is not None: self.p.add(t <= rterm(hi))
        return SReal(t)

    def int(self, name, lo=None, hi=None, specials=()):
        """lo/hi bound the random search only"""
        t = z3.Int(name)
        self._reg(name, t)
        return SInt(t)

    def bool(self, name):
        t = z3.Bool(name)
        self._reg(name, t)
        return SBool(t)

    def choice(self, name, options):
        options = list(options)
        if name in self.p.names: raise RuntimeError(f'input {name} made twice')
        return options[self.p.choose(len(options), name)]

    def size(self, name, lo, hi):
        i = self.p.choose(hi - lo + 1)
        self.p.names[name] = ('choice', lo + i)
        self.p.ex.bounds.add(f'{name} in {lo}..{hi}')
        return lo + i

    def ident(self, name, pool=()):
        t = z3.String(name)
        self._reg(name, t)
        self.p.add(t != z3.StringVal(''))
        return SStr([Atom(t, name, IDENT_EXCL, True, 'ident')])

    def text(self, name, excl='', nonempty=False, pool=None):
        t = z3.String(name)
        self._reg(name, t)
        for c in excl: self.p.add(z3.Not(z3.Contains(t, z3.StringVal(c))))
        if nonempty: self.p.add(z3.Length(t) > 0)
        return SStr([Atom(t, name, excl, nonempty)])

    def assume(self, c): self.p.assume(to_bool_term(c))

    def check(self, c, label, detail=''):
        return self.p.prove(to_bool_term(c), label)

    def and_(self, *a):
        if not any(isinstance(x, SBool) for x in a): return all(bool(x) for x in a)
        return mk_bool(z3.And(*[bterm(x) for x in a]))
    def or_(self, *a):
        if not any(isinstance(x, SBool) for x in a): return any(bool(x) for x in a)
        return mk_bool(z3.Or(*[bterm(x) for x in a]))
    def not_(self, a): return core.snot(a)
    def ite(self, c, a, b):
        c = to_bool_term(c)
        if isinstance(c, bool): return a if c else b
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)): return SBool(z3.If(c, bterm(a), bterm(b)))
        return SReal(z3.If(c, rterm(a), rterm(b)))
    def num_eq(self, a, b, tol=None):
        if not is_num(a) or not is_num(b):
            return False
        return mk_bool(rterm(a) == rterm(b))
    def eq(self, a, b): return a == b
    def str(self, x):
        from . import hooks
        return hooks.num_text(x) if isinstance(x, core.SNum) else str(x)
    def text_length(self, x): return SInt(z3.Length(x.t)) if isinstance(x, SStr) else len(x)
    def uf(self, fn, *args):
        f = z3.Function('uf_' + fn, *([z3.RealSort()] * (len(args) + 1)))
        return SReal(f(*[rterm(a) for a in args]))
    def cover(self, label): self.p.ex.covered.add(label)
    def imprecise(self): self.p.imprecise = True
