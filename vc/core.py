"""The verification-condition generator: path exploration, symbolic values, obligations."""
import time, itertools, fractions
import os, sys
import z3

DEBUG = bool(os.environ.get('VC_DBG'))

RealSort, IntSort, StrSort = z3.RealSort(), z3.IntSort(), z3.StringSort()


class PathEnd(BaseException):
    """this path is finished or infeasible"""


class Unsupported(BaseException):
    """the code left the subset the generator can reason about"""


class Ambiguous(BaseException):
    """a probe has no certain answer"""


class Budget(BaseException):
    """the harness used up its path or time budget"""


def real(e):
    """an exception CPython would raise as well (as opposed to an artifact of symbolic values)"""
    e.vc_real = True
    return e


CUR = None  # the running Path


def cur():
    if CUR is None:
        raise RuntimeError('symbolic value used outside of a harness')
    return CUR


class Path:
    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.trace = []          # decisions taken: (kind, value)
        self.alts = []           # alternatives to schedule
        self.solver = z3.Solver()
        self.solver.set('timeout', ex.decide_ms)
        self.solver.set('random_seed', 1)
        self.pc = []
        self.names = {}          # name -> z3 term or ('choice', value)
        self.fresh_n = itertools.count()
        self.imprecise = False   # an over-approximation was used: a model need not be real
        self.obls = []
        self.lits = {}
        self.probing = 0         # only what is certain counts, nothing forks
        self.defs = []           # definitional constraints: only used when a proof needs them

    # -- names
    def fresh(self, base, sort):
        return z3.Const(f'{base}!{next(self.fresh_n)}', sort)

    # -- path condition
    def add(self, t):
        self.pc.append(t)
        self.solver.add(t)

    def define(self, t):
        """an equation for an otherwise unconstrained constant: never makes a path infeasible by itself, so it is left
        out of the feasibility queries (which may only explore more paths) and given to the proofs"""
        self.defs.append(t)

    def assume(self, t):
        t = to_bool_term(t)
        if t is True:
            return
        if t is False:
            raise PathEnd()
        self.add(t)
        if self.check() == z3.unsat:
            raise PathEnd()

    def check(self, *extra):
        t0 = time.time()
        r = self.solver.check(*extra)
        self.ex.solver_s += time.time() - t0
        if DEBUG and time.time() - t0 > 0.2: print('SLOW', file=sys.stderr) or print('SLOW', round(time.time() - t0, 1), r, extra, '\n   PC:', self.solver.assertions(), file=sys.stderr)
        self.ex.queries += 1
        return r

    def decide(self, t):
        """fork on a boolean term"""
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        self.ex.tick()
        if self.probing:
            if self.check(t) == z3.unsat: return False
            if self.check(z3.Not(t)) == z3.unsat: return True
            raise Ambiguous()
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k]
            self.trace.append(v)
            self.add(t if v else z3.Not(t))
            return v
        rt = self.check(t)
        rf = self.check(z3.Not(t)) if rt != z3.unsat else z3.sat
        if rt == z3.unsat:
            self.trace.append(False)
            self.add(z3.Not(t))
            return False
        if rf == z3.unsat:
            self.trace.append(True)
            self.add(t)
            return True
        self.alts.append(self.trace + [False])
        self.trace.append(True)
        self.add(t)
        return True

    def choose(self, n, name=None):
        """fork over n alternatives"""
        self.ex.tick()
        if self.probing: raise Ambiguous()
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            v = 0
            for i in range(1, n):
                self.alts.append(self.trace + [i])
        self.trace.append(v)
        if name is not None:
            self.names[name] = ('choice', v)
        return v

    # -- obligations
    def prove(self, t, label):
        t = to_bool_term(t)
        self.ex.n_obl += 1
        ob = self.ex.obl(label)
        ob['vcs'] += 1
        if t is True:
            ob['ok'] += 1
            return True
        neg = z3.BoolVal(True) if t is False else z3.Not(t)
        r = None
        stages = [(self.ex.prove_ms, None, True), (self.ex.prove_ms, 'tactic', True)]
        if self.defs: stages.insert(0, (self.ex.prove_ms // 3, None, False))
        for ms, fac, defs in stages:
            s = z3.Solver() if fac is None else z3.Then('simplify', 'propagate-values', 'solve-eqs', 'smt').solver()
            s.set('timeout', ms)
            for c in self.pc:
                s.add(c)
            if defs:
                for c in self.defs: s.add(c)
            s.add(neg)
            t0 = time.time()
            r = s.check()
            self.ex.solver_s += time.time() - t0
            self.ex.queries += 1
            if DEBUG and time.time() - t0 > 0.2: print('SLOWP', label, round(time.time() - t0, 1), r, s.assertions(), file=sys.stderr)
            if r == z3.unsat or (r == z3.sat and (defs or not self.defs)):
                break
        if r == z3.unsat:
            ob['ok'] += 1
            return True
        if r == z3.sat:
            ob['sat'] += 1
            if label.startswith('aux:'):
                if len(self.ex.notes) < 20: self.ex.notes.append(f'{label}: refuted, so the contracts of the operands do not carry over')
            elif len(self.ex.cex) < 12:
                self.ex.cex.append({'label': label, 'model': self.model(s.model()), 'precise': not self.imprecise,
                                    'trace': list(self.trace), 'goal': str(t)[:600]})
            return False
        ob['unknown'] += 1
        self.ex.notes.append(f'{label}: solver returned unknown ({s.reason_unknown()})')
        return False

    def model(self, m):
        out = {}
        for n, t in self.names.items():
            if isinstance(t, tuple):
                out[n] = t[1]
                continue
            v = m.eval(t, model_completion=True)
            out[n] = pyval(v)
        return out


def pyval(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        f = fractions.Fraction(v.numerator_as_long(), v.denominator_as_long())
        return float(f)
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(fractions.Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_string_value(v):
        return v.py_value() if hasattr(v, 'py_value') else v.as_string()
    return str(v)


class Explorer:
    def __init__(self, name, fn, budget_s=120, max_paths=4000, decide_ms=2000, prove_ms=10000):
        self.name, self.fn = name, fn
        self.budget_s, self.max_paths = budget_s, max_paths
        self.decide_ms, self.prove_ms = decide_ms, prove_ms
        self.solver_s = 0.0
        self.queries = 0
        self.n_obl = 0
        self.obls = {}
        self.cex = []
        self.notes = []
        self.paths = 0
        self.complete = False
        self.status = None
        self.covered = set()
        self.bounds = set()
        self.steps = 0

    def obl(self, label):
        return self.obls.setdefault(label, {'vcs': 0, 'ok': 0, 'sat': 0, 'unknown': 0})

    def tick(self):
        self.steps += 1
        if time.time() - self.t0 > self.budget_s:
            raise Budget()

    def run(self, make_vc):
        global CUR
        self.t0 = time.time()
        work = [[]]
        ended = 0
        try:
            while work:
                if self.paths >= self.max_paths or time.time() - self.t0 > self.budget_s:
                    self.notes.append('path/time budget exhausted')
                    return self
                prefix = work.pop()
                p = Path(self, prefix)
                CUR = p
                self.paths += 1
                try:
                    self.fn(make_vc(p))
                    ended += 1
                except PathEnd:
                    pass
                except Unsupported as e:
                    self.notes.append(f'unsupported: {e}')
                    self.unsupported = True
                    return self
                except RecursionError as e:
                    self.notes.append('recursion limit')
                    return self
                except Budget:
                    self.notes.append('time budget exhausted')
                    return self
                finally:
                    CUR = None
                work.extend(reversed(p.alts))
            self.complete = True
            self.ended = ended
        finally:
            CUR = None
        return self

    def verdict(self):
        # an auxiliary obligation (an invariant the other contracts lean on) is not itself the property
        if any(o['sat'] for l, o in self.obls.items() if not l.startswith('aux:')):
            return 'refuted' if not any(o['sat'] for l, o in self.obls.items() if l.startswith('aux:')) else 'undecided'
        if any(o['sat'] for o in self.obls.values()):
            return 'undecided'
        if not self.complete or any(o['unknown'] for o in self.obls.values()):
            return 'undecided'
        if self.n_obl == 0:
            return 'vacuous'
        return 'proved'


# ------------------------------------------------------------------ symbolic scalars
def to_bool_term(x):
    if isinstance(x, bool):
        return x
    if isinstance(x, SBool):
        return x.t
    if z3.is_expr(x):
        return x
    return bool(x)


class Sym:
    __slots__ = ()
    def __hash__(self):
        raise Unsupported(f'hash of a symbolic {type(self).__name__}')


class SBool(Sym):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __bool__(self): return cur().decide(self.t)
    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool(self.t == bterm(o))
        if isinstance(o, (int, float)):
            return SInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0))) == o
        return NotImplemented
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)
    __hash__ = Sym.__hash__
    def __and__(self, o): return SBool(z3.And(self.t, bterm(o)))
    def __or__(self, o): return SBool(z3.Or(self.t, bterm(o)))
    __rand__, __ror__ = __and__, __or__
    def __xor__(self, o): return SBool(z3.Xor(self.t, bterm(o)))
    def __invert__(self): return SBool(z3.Not(self.t))
    def __repr__(self): return f'SBool({self.t})'


def bterm(x):
    t = to_bool_term(x)
    return z3.BoolVal(t) if isinstance(t, bool) else t


def snot(x):
    t = to_bool_term(x)
    return (not t) if isinstance(t, bool) else SBool(z3.Not(t))


def mk_bool(t):
    t = z3.simplify(t)
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return SBool(t)


def is_num(x):
    return isinstance(x, (SInt, SReal)) or (isinstance(x, (int, float)))


def toreal(t):
    """ToReal pushed through + - * (so that equal integer and real polynomials are syntactically equal)"""
    if z3.is_int_value(t): return z3.RealVal(t.as_long())
    k = t.decl().kind() if z3.is_app(t) else None
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        cs = [toreal(c) for c in t.children()]
        if k == z3.Z3_OP_UMINUS: return -cs[0]
        r = cs[0]
        for c in cs[1:]: r = r + c if k == z3.Z3_OP_ADD else r * c if k == z3.Z3_OP_MUL else r - c
        return r
    if k == z3.Z3_OP_ITE:
        c = t.children()
        return z3.If(c[0], toreal(c[1]), toreal(c[2]))
    if k == z3.Z3_OP_TO_INT and False: pass
    return z3.ToReal(t)


def _angle_literals():
    # the doubles next to pi/180 and 180/pi stand for exactly that quotient of the double math.pi: multiplying with one
    # and dividing by the other is the same thing in the reals
    import math
    q = z3.RealVal(str(fractions.Fraction(math.pi)))
    out = {}
    for s in (1, -1):
        out[s * math.pi / 180] = z3.simplify(s * q / 180)
        out[s * 180 / math.pi] = z3.simplify(s * 180 / q)
    return out


ANGLES = _angle_literals()


def rterm(x):
    """as a z3 Real"""
    if isinstance(x, SReal): return x.t
    if isinstance(x, SInt): return toreal(x.t)
    if isinstance(x, SBool): return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, bool): return z3.RealVal(int(x))
    if isinstance(x, int): return z3.RealVal(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('nan/inf meets a symbolic number')
        if x in ANGLES: return ANGLES[x]
        f = fractions.Fraction(x)
        return z3.RealVal(str(f))
    if isinstance(x, fractions.Fraction):
        return z3.RealVal(str(x))
    raise Unsupported(f'not a number: {type(x)}')


def iterm(x):
    if isinstance(x, SInt): return x.t
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, SBool): return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported(f'not an int: {type(x)}')


def is_integral(x):
    return isinstance(x, (SInt, int, SBool))  # bool is an int


def _arith(op):
    def f(self, o):
        if not is_num(o) and not isinstance(o, SBool):
            return NotImplemented
        return num_op(op, self, o)
    def r(self, o):
        if not is_num(o) and not isinstance(o, SBool):
            return NotImplemented
        return num_op(op, o, self)
    return f, r


def wrap_r(t):
    return SReal(z3.simplify(t))


def wrap_i(t):
    t = z3.simplify(t)
    return SInt(t)


def num_op(op, a, b):
    if is_integral(a) and is_integral(b) and op in ('+', '-', '*', '//', '%'):
        x, y = iterm(a), iterm(b)
        if op == '+': return wrap_i(x + y)
        if op == '-': return wrap_i(x - y)
        if op == '*': return wrap_i(x * y)
        if cur().decide(y == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        # Python floor division; z3 div is Euclidean for positive divisors only
        q = z3.If(y > 0, x / y, (-x) / (-y)) if z3.is_int_value(y) else z3.ToInt(toreal(x) / toreal(y))
        if op == '//': return wrap_i(q)
        return wrap_i(x - y * q)
    x, y = rterm(a), rterm(b)
    if op == '+': return wrap_r(x + y)
    if op == '-': return wrap_r(x - y)
    if op == '*': return wrap_r(x * y)
    if op in ('/', '//', '%'):
        if cur().decide(y == 0):
            raise ZeroDivisionError('division by zero')
        if op == '/': return wrap_r(x / y)
        q = z3.ToReal(z3.ToInt(x / y))
        if op == '//': return SReal(q)
        return SReal(x - y * q)
    raise Unsupported(f'number operator {op}')


def _cmp(op):
    def f(self, o):
        if not is_num(o) and not isinstance(o, SBool):
            if op == '==': return False if not hasattr(type(o), '__eq__') or type(o).__eq__ is object.__eq__ or isinstance(o, (str, list, tuple, dict, type(None), SStr)) else NotImplemented
            if op == '!=': return True if not hasattr(type(o), '__eq__') or type(o).__eq__ is object.__eq__ or isinstance(o, (str, list, tuple, dict, type(None), SStr)) else NotImplemented
            return NotImplemented
        if isinstance(o, float) and o in (float('inf'), float('-inf')):
            pos = o > 0
            return {'==': False, '!=': True, '<': pos, '<=': pos, '>': not pos, '>=': not pos}[op]
        if is_integral(self) and is_integral(o):
            x, y = iterm(self), iterm(o)
        else:
            x, y = rterm(self), rterm(o)
        t = {'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
        return mk_bool(t)
    return f


class SNum(Sym):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    __add__, __radd__ = _arith('+')
    __sub__, __rsub__ = _arith('-')
    __mul__, __rmul__ = _arith('*')
    __truediv__, __rtruediv__ = _arith('/')
    __floordiv__, __rfloordiv__ = _arith('//')
    __mod__, __rmod__ = _arith('%')
    __eq__, __ne__, __lt__, __le__, __gt__, __ge__ = (_cmp(o) for o in ('==', '!=', '<', '<=', '>', '>='))
    __hash__ = Sym.__hash__
    def __bool__(self): return cur().decide(self.t != 0)
    def __pos__(self): return self
    def __neg__(self): return type(self)(z3.simplify(-self.t))
    def __abs__(self): return type(self)(z3.If(self.t >= 0, self.t, -self.t))
    def __pow__(self, o):
        if not is_num(o) and not isinstance(o, SBool): return NotImplemented
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o): r = r * self
            return r
        raise Unsupported('power')
    def __rpow__(self, o): raise Unsupported('power')
    def __str__(self): raise Unsupported('str of a symbolic number')
    def __format__(self, s): raise Unsupported('format of a symbolic number')
    def __repr__(self): return f'{type(self).__name__}({self.t})'
    def __int__(self): raise Unsupported('int() of a symbolic number outside of instrumented code')
    __float__ = __int__


class SInt(SNum):
    __slots__ = ()
    def __index__(self):
        return concretise_int(self)
    def __round__(self, n=None): return self
    def __and__(self, o): raise Unsupported('bit operation')
    __or__ = __rand__ = __ror__ = __xor__ = __lshift__ = __rshift__ = __rlshift__ = __rrshift__ = __and__
    def is_integer(self): return True


def rt_round(t):
    f = z3.ToInt(t)
    fr = t - z3.ToReal(f)
    half = z3.RealVal('1/2')
    return z3.If(fr < half, f, z3.If(fr > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))


class SReal(SNum):
    __slots__ = ()
    def is_integer(self): return mk_bool(z3.IsInt(self.t))
    def __round__(self, n=None):
        if n is None:
            return SInt(rt_round(self.t))
        if isinstance(n, int) and -30 < n < 30:
            scale = z3.RealVal(f'1/{10 ** -n}') if n < 0 else z3.RealVal(10 ** n)
            return SReal(z3.ToReal(rt_round(self.t * scale)) / scale)
        raise Unsupported('round to digits')


def concretise_int(x, limit=64):
    """fork over the (finitely many) values of a symbolic int; more than `limit` is unsupported"""
    p = cur()
    if z3.is_int_value(x.t):
        return x.t.as_long()
    for _ in range(limit):
        # is it decided already?
        if p.check() != z3.sat:
            raise PathEnd()
        # a deterministic enumeration: try values near zero first
        m = p.solver.model().eval(x.t, model_completion=True).as_long() if len(p.trace) >= len(p.prefix) else None
        if m is None:
            # replaying: the chosen value was recorded in the trace as a raw int decision
            v = p.prefix[len(p.trace)]
            p.trace.append(v)
            kind, val = v
            if kind == 'is':
                p.add(x.t == val)
                return val
            p.add(x.t != val)
            continue
        if p.check(x.t != m) == z3.unsat:
            p.trace.append(('is', m))
            p.add(x.t == m)
            return m
        p.alts.append(p.trace + [('not', m)])
        p.trace.append(('is', m))
        p.add(x.t == m)
        return m
    raise Unsupported('unbounded symbolic int used as a concrete index')


# ------------------------------------------------------------------ symbolic strings
class Atom:
    """an unknown piece of text; `excl`: characters which it is known not to contain"""
    __slots__ = ('t', 'name', 'excl', 'nonempty', 'cls', 'tag')
    def __init__(self, t, name, excl='', nonempty=False, cls=None, tag=None):
        self.t, self.name, self.excl, self.nonempty, self.cls, self.tag = t, name, frozenset(excl), nonempty, cls, tag


def _norm(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p: continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    return out


def utf8len(t):
    """the number of bytes of a text in UTF-8: an arbitrary number which is at least that of its characters"""
    f = z3.Function('utf8len', z3.StringSort(), z3.IntSort())
    cur().define(z3.And(f(t) >= z3.Length(t), f(t) <= 4 * z3.Length(t)))
    return f(t)


class SBytes(Sym):
    """the bytes of a text, of which only the number is known"""
    __slots__ = ('s',)
    def __init__(self, s): self.s = s
    __hash__ = None
    def __vc_len__(self):
        n = z3.IntVal(0)
        for p in self.s.parts: n = n + (len(p.encode()) if isinstance(p, str) else utf8len(p.t))
        return SInt(z3.simplify(n))
    def __len__(self): raise Unsupported('native len of symbolic bytes')


class SStr(Sym):
    """a rope of literal pieces and atoms"""
    __slots__ = ('parts',)
    def __init__(self, parts): self.parts = _norm(parts)

    @property
    def t(self):
        ts = [z3.StringVal(p) if isinstance(p, str) else p.t for p in self.parts]
        if not ts: return z3.StringVal('')
        return ts[0] if len(ts) == 1 else z3.Concat(*ts)

    __hash__ = Sym.__hash__
    def __str__(self): raise Unsupported('native str() of a symbolic string')
    def __format__(self, s): raise Unsupported('native format of a symbolic string')
    def __repr__(self): return 'SStr' + repr([p if isinstance(p, str) else '<' + p.name + '>' for p in self.parts])
    def __len__(self): raise Unsupported('native len of a symbolic string')
    def __bool__(self):
        if any(isinstance(p, str) or p.nonempty for p in self.parts): return True
        return cur().decide(self.t != z3.StringVal(''))
    def __add__(self, o):
        if isinstance(o, str): return SStr(self.parts + [o])
        if isinstance(o, SStr): return SStr(self.parts + o.parts)
        return NotImplemented
    def __radd__(self, o):
        if isinstance(o, str): return SStr([o] + self.parts)
        return NotImplemented
    def __eq__(self, o):
        if isinstance(o, (str, SStr)): return str_eq(self, o)
        if isinstance(o, (int, float, list, tuple, dict, type(None), SInt, SReal, SBool)): return False
        return NotImplemented
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)
    def __lt__(self, o): return mk_bool(z3.StrLT(self.t, sterm(o))) if hasattr(z3, 'StrLT') else mk_bool(self.t < sterm(o))
    def __gt__(self, o): return mk_bool(sterm(o) < self.t)
    def __le__(self, o): return mk_bool(self.t <= sterm(o))
    def __ge__(self, o): return mk_bool(sterm(o) <= self.t)
    def __contains__(self, x): raise Unsupported('native in on symbolic string')
    def __iter__(self): raise Unsupported('iteration over a symbolic string')
    def __mul__(self, n):
        if isinstance(n, int) and not isinstance(n, bool): return mk_str(self.parts * n)
        if isinstance(n, (float, SReal)): raise real(TypeError("can't multiply sequence by non-int of type 'float'"))
        raise Unsupported('repeat of a symbolic string')
    __rmul__ = __mul__
    def __round__(self, n=None): raise real(TypeError("type str doesn't define __round__ method"))
    def __abs__(self): raise real(TypeError("bad operand type for abs(): 'str'"))
    def __neg__(self): raise real(TypeError("bad operand type for unary -: 'str'"))
    def __sub__(self, o):
        if isinstance(o, (str, SStr, int, float, SNum)): raise real(TypeError("unsupported operand type(s) for -: 'str'"))
        return NotImplemented
    __rsub__ = __truediv__ = __rtruediv__ = __floordiv__ = __rfloordiv__ = __sub__

    # --- methods, decided on the rope where the exclusions allow it
    def _has_char(self, c):
        """True / False / None"""
        r = False
        for p in self.parts:
            if isinstance(p, str):
                if c in p: return True
            elif c not in p.excl:
                r = None
        return r

    def lower(self):
        """of what is unknown: a function of it without upper case"""
        cur().imprecise = True
        f = z3.Function('str_lower', z3.StringSort(), z3.StringSort())
        up = frozenset('ABCDEFGHIJKLMNOPQRSTUVWXYZ')
        return SStr([p.lower() if isinstance(p, str) else Atom(f(p.t), p.name + '.lower', p.excl | up, p.nonempty, p.cls) for p in self.parts])

    def contains(self, s):
        if isinstance(s, str):
            if s == '': return True
            if any(isinstance(p, str) and s in p for p in self.parts): return True
            # every char of s somewhere possible?
            if len(s) == 1:
                h = self._has_char(s)
                if h is not None: return h
            elif all(not isinstance(p, str) and any(ch in p.excl for ch in s) or isinstance(p, str) for p in self.parts) \
                    and not self._cross(s):
                return False
        return mk_bool(z3.Contains(self.t, sterm(s)))

    def _cross(self, s):
        """could an occurrence of s cross a boundary?  conservative"""
        if len(self.parts) <= 1: return False
        # a char of s which is in no atom and in no literal kills it
        for ch in s:
            if all((ch in p.excl) if not isinstance(p, str) else (ch not in p) for p in self.parts): return False
        return True

    def isdecimal(self):
        if self.parts and (self.parts[0][0].isalpha() or self.parts[0][0] == '_' if isinstance(self.parts[0], str) else self.parts[0].cls == 'ident'): return False   # names do not start with a digit
        raise Unsupported('isdecimal of an unknown text')
    isdigit = isnumeric = isdecimal

    def startswith(self, pre, *a):
        if a: raise Unsupported('startswith with bounds')
        if isinstance(pre, tuple):
            return any(self.startswith(x) for x in pre)
        if isinstance(pre, str):
            if not self.parts: return pre == ''
            p0 = self.parts[0]
            if isinstance(p0, str):
                if p0.startswith(pre): return True
                if not pre.startswith(p0): return False
            elif pre and p0.nonempty and pre[0] in p0.excl:
                return False
        return mk_bool(z3.PrefixOf(sterm(pre), self.t))

    def endswith(self, suf, *a):
        if a: raise Unsupported('endswith with bounds')
        if isinstance(suf, tuple):
            return any(self.endswith(x) for x in suf)
        if isinstance(suf, str):
            if not self.parts: return suf == ''
            p0 = self.parts[-1]
            if isinstance(p0, str):
                if p0.endswith(suf): return True
                if not suf.endswith(p0): return False
            elif suf and p0.nonempty and suf[-1] in p0.excl:
                return False
        return mk_bool(z3.SuffixOf(sterm(suf), self.t))

    def partition(self, sep):
        if not isinstance(sep, str) or not sep: raise Unsupported('partition')
        for i, p in enumerate(self.parts):
            if isinstance(p, str):
                if sep in p:
                    a, s, b = p.partition(sep)
                    return mk_str(self.parts[:i] + [a]), sep, mk_str([b] + self.parts[i + 1:])
            elif not set(sep) <= p.excl:   # no occurrence may begin or end in it
                raise Unsupported(f'partition of unknown text at {sep!r}')
        return self, '', ''

    def rpartition(self, sep):
        if not isinstance(sep, str) or not sep: raise Unsupported('rpartition')
        for i in range(len(self.parts) - 1, -1, -1):
            p = self.parts[i]
            if isinstance(p, str):
                if sep in p:
                    a, s, b = p.rpartition(sep)
                    return mk_str(self.parts[:i] + [a]), sep, mk_str([b] + self.parts[i + 1:])
            elif not set(sep) <= p.excl:
                raise Unsupported(f'rpartition of unknown text at {sep!r}')
        return '', '', self

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            ws = ' \t\n\r\x0b\x0c'
            for p in self.parts:
                if not isinstance(p, str) and not (set(ws) <= p.excl): raise Unsupported('split of unknown text')
            if maxsplit != -1: raise Unsupported('split maxsplit')
            out, curp = [], []
            for p in self.parts:
                if isinstance(p, str):
                    toks = []
                    w = ''
                    for ch in p:
                        if ch in ws:
                            if w: curp.append(w); w = ''
                            if curp: out.append(curp); curp = []
                        else: w += ch
                    if w: curp.append(w)
                else:
                    if not p.nonempty: raise Unsupported('split with possibly empty text')
                    curp.append(p)
            if curp: out.append(curp)
            return [mk_str(x) for x in out]
        out, rest, n = [], self, 0
        while maxsplit < 0 or n < maxsplit:
            if not isinstance(rest, SStr):
                out.extend(rest.split(sep, maxsplit - n if maxsplit >= 0 else -1)); return out
            a, s, b = rest.partition(sep)
            if not s: break
            out.append(a); rest = b; n += 1
        out.append(rest)
        return out

    def splitlines(self, keepends=False):
        nl = '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'
        if keepends:
            lines = [[]]
            for p in self.parts:
                if not isinstance(p, str):
                    if not set(nl) <= p.excl and p.cls not in ('ident', 'num'): raise Unsupported('splitlines of unknown text')
                    lines[-1].append(p)
                    continue
                ls = p.splitlines(True)
                lines[-1].append(ls[0])
                lines += [[l] for l in ls[1:]]
                if ls[-1][-1] in nl: lines.append([])
            if '\r' in ''.join(p for p in self.parts if isinstance(p, str)): raise Unsupported('splitlines with carriage returns')
            if not lines[-1]: lines.pop()
            elif all(not isinstance(q, str) and not q.nonempty for q in lines[-1]): raise Unsupported('splitlines with a possibly empty end')
            return [mk_str(l) for l in lines]
        lines = [[]]
        for p in self.parts:
            if not isinstance(p, str):
                if not set(nl) <= p.excl and p.cls not in ('ident', 'num'): raise Unsupported('splitlines of unknown text')
                lines[-1].append(p)
                continue
            ls = p.replace('\r\n', '\n')
            for ch in nl: ls = ls.replace(ch, '\n')
            ls = ls.split('\n')
            lines[-1].append(ls[0])
            lines += [[l] for l in ls[1:]]
        out = [mk_str([q for q in l if q != '']) for l in lines]
        last = self.parts[-1]
        if lines[-1] == [''] or lines[-1] == []: out.pop()
        elif not isinstance(last, str) and not last.nonempty and all(not isinstance(q, str) and not q.nonempty or q == '' for q in lines[-1]): raise Unsupported('splitlines with a possibly empty end')
        return out

    def _strip(self, chars, left, right):
        ch = ' \t\n\r\x0b\x0c' if chars is None else chars
        parts = list(self.parts)
        while left and parts:
            p = parts[0]
            if isinstance(p, str):
                q = p.lstrip(ch)
                if q: parts[0] = q; break
                parts.pop(0)
            else:
                if not (set(ch) <= p.excl): raise Unsupported('strip of unknown text')
                if p.nonempty or cur().decide(z3.Length(p.t) > 0): break
                parts.pop(0)
        while right and parts:
            p = parts[-1]
            if isinstance(p, str):
                q = p.rstrip(ch)
                if q: parts[-1] = q; break
                parts.pop()
            else:
                if not (set(ch) <= p.excl): raise Unsupported('strip of unknown text')
                if p.nonempty or cur().decide(z3.Length(p.t) > 0): break
                parts.pop()
        return mk_str(parts)

    def strip(self, c=None): return self._strip(c, True, True)
    def lstrip(self, c=None): return self._strip(c, True, False)
    def rstrip(self, c=None): return self._strip(c, False, True)

    def replace(self, a, b, n=-1):
        if n != -1 or not isinstance(a, str): raise Unsupported('replace')
        out = []
        for p in self.parts:
            if isinstance(p, str): out.append(p.replace(a, b) if isinstance(b, str) else p.replace(a, b))
            elif any(ch in p.excl for ch in a): out.append(p)
            else: raise Unsupported('replace in unknown text')
        if len(a) > 1 and self._cross(a): raise Unsupported('replace across pieces')
        return mk_str(out)

    def removeprefix(self, p):
        if self.startswith(p):
            q = self.parts[0]
            if isinstance(q, str) and q.startswith(p): return mk_str([q[len(p):]] + self.parts[1:])
            raise Unsupported('removeprefix')
        return self

    def encode(self, encoding='utf-8', errors='strict'):
        if encoding not in ('utf-8', 'utf8', 'UTF-8') or errors != 'strict': raise Unsupported('encode')
        return SBytes(self)
    def upper(self): raise Unsupported("upper")

    def getitem(self, k):
        if isinstance(k, slice):
            if k.step is not None: raise Unsupported('string slice step')
            parts = list(self.parts)
            lo, hi = k.start, k.stop
            if lo not in (None, 0):
                if isinstance(lo, int) and lo > 0 and parts and isinstance(parts[0], str) and len(parts[0]) >= lo:
                    parts[0] = parts[0][lo:]
                else: raise Unsupported('string slice')
            if hi is not None:
                if isinstance(hi, int) and hi < 0 and parts and isinstance(parts[-1], str) and len(parts[-1]) >= -hi:
                    parts[-1] = parts[-1][:hi]
                else: raise Unsupported('string slice')
            return mk_str(parts)
        if isinstance(k, int):
            if k >= 0:
                if self.parts and isinstance(self.parts[0], str) and len(self.parts[0]) > k: return self.parts[0][k]
                if not self:
                    raise IndexError('string index out of range')
                if k != 0: raise Unsupported('string index')
                c = cur().fresh('chr', StrSort)
                cur().add(c == z3.SubString(self.t, 0, 1))
                ex = self.parts[0].excl
                return SStr([Atom(c, 'chr', ex, True)])
            if self.parts and isinstance(self.parts[-1], str) and len(self.parts[-1]) >= -k: return self.parts[-1][k]
            if k == -1:
                if not self: raise IndexError('string index out of range')
                c = cur().fresh('chr', StrSort)
                cur().add(c == z3.SubString(self.t, z3.Length(self.t) - 1, 1))
                return SStr([Atom(c, 'chr', self.parts[-1].excl, True)])
        raise Unsupported('string index')


def mk_str(parts):
    parts = _norm(parts)
    if not parts: return ''
    if len(parts) == 1 and isinstance(parts[0], str): return parts[0]
    return SStr(parts)


def sterm(x):
    if isinstance(x, SStr): return x.t
    if isinstance(x, str): return z3.StringVal(x)
    raise Unsupported(f'not a string: {type(x)}')


def str_eq(a, b):
    pa = list(a.parts) if isinstance(a, SStr) else ([a] if a else [])
    pb = list(b.parts) if isinstance(b, SStr) else ([b] if b else [])
    # strip common ends
    def strip_front(x, y):
        while x and y:
            p, q = x[0], y[0]
            if isinstance(p, str) and isinstance(q, str):
                n = min(len(p), len(q))
                if p[:n] != q[:n]: return False
                x[0], y[0] = p[n:], q[n:]
                if not x[0]: x.pop(0)
                if not y[0]: y.pop(0)
            elif not isinstance(p, str) and not isinstance(q, str) and p.t.eq(q.t):
                x.pop(0); y.pop(0)
            else: break
        return True
    def strip_back(x, y):
        while x and y:
            p, q = x[-1], y[-1]
            if isinstance(p, str) and isinstance(q, str):
                n = min(len(p), len(q))
                if p[-n:] != q[-n:]: return False
                x[-1], y[-1] = p[:-n], q[:-n]
                if not x[-1]: x.pop()
                if not y[-1]: y.pop()
            elif not isinstance(p, str) and not isinstance(q, str) and p.t.eq(q.t):
                x.pop(); y.pop()
            else: break
        return True
    if not strip_front(pa, pb) or not strip_back(pa, pb): return False
    if not pa and not pb: return True
    if not pa or not pb:
        r = pa or pb
        if any(isinstance(p, str) or p.nonempty for p in r): return False
    # a literal against atoms which exclude its characters
    for x, y in ((pa, pb), (pb, pa)):
        if all(isinstance(p, str) for p in x):
            lit = ''.join(x)
            if len(y) == 1 and not isinstance(y[0], str):
                if any(c in y[0].excl for c in lit): return False
                if y[0].nonempty and not lit: return False
                if y[0].cls == 'ident' and not lit.isidentifier(): return False
            chars = ''.join(p for p in y if isinstance(p, str))
            if any(chars.count(c) > lit.count(c) for c in set(chars)): return False
            for c in set(lit):
                if lit.count(c) > chars.count(c) and all(isinstance(p, str) or c in p.excl for p in y): return False
    else:
        # both symbolic: count characters that no atom may contain
        atoms = [p for p in pa + pb if not isinstance(p, str)]
        la, lb = ''.join(p for p in pa if isinstance(p, str)), ''.join(p for p in pb if isinstance(p, str))
        for c in set(la + lb):
            if all(c in p.excl for p in atoms) and la.count(c) != lb.count(c): return False
    return mk_bool(SStr(pa).t == SStr(pb).t)


SYMS = (SBool, SInt, SReal, SStr)


def is_sym(x):
    return isinstance(x, Sym) or hasattr(type(x), '__vc_sym__')
