"""math for instrumented code: uninterpreted on symbolic arguments, with the axioms listed in AXIOMS"""
import math as _m
import z3
from .core import SReal, SInt, SNum, rterm, cur, Unsupported

pi = _m.pi
e, inf, nan, tau = _m.e, _m.inf, _m.nan, _m.tau
R = z3.RealSort()
FUN1 = z3.Function('fun1', z3.StringSort(), R, R)      # the same functions that expressions denote (props/exprlib)
FUN2 = z3.Function('fun2', z3.StringSort(), R, R, R)
UF = {n: (lambda x, n=n: FUN1(z3.StringVal(n), x)) for n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log')}
UF2 = {n: (lambda x, y, n=n: FUN2(z3.StringVal(n), x, y)) for n in ('atan2',)}
AXIOMS = ['sin(x)^2+cos(x)^2=1', 'sqrt(x)>=0 and sqrt(x)^2=x for x>=0', 'otherwise uninterpreted']


def _u(n):
    def f(x):
        if isinstance(x, SNum):
            t = z3.simplify(rterm(x))
            if n in ('sin', 'cos'):
                p = cur()
                p.add(UF['sin'](t) * UF['sin'](t) + UF['cos'](t) * UF['cos'](t) == 1)
            return SReal(UF[n](t))
        return getattr(_m, n)(x)
    return f


sin, cos, tan, asin, acos, atan, exp, log = (_u(n) for n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log'))


def atan2(y, x):
    if isinstance(x, SNum) or isinstance(y, SNum):
        return SReal(UF2['atan2'](rterm(y), rterm(x)))
    return _m.atan2(y, x)


def sqrt(x):
    if isinstance(x, SNum):
        t = rterm(x)
        p = cur()
        if p.decide(t < 0):
            raise ValueError('math domain error')
        r = p.fresh('sqrt', R)
        p.add(z3.And(r >= 0, r * r == t))
        return SReal(r)
    return _m.sqrt(x)


def floor(x):
    if isinstance(x, SInt): return x
    if isinstance(x, SNum): return SInt(z3.ToInt(x.t))
    return _m.floor(x)


def ceil(x):
    if isinstance(x, SInt): return x
    if isinstance(x, SNum): return SInt(-z3.ToInt(-x.t))
    return _m.ceil(x)


def radians(x):
    return x * (pi / 180) if isinstance(x, SNum) else _m.radians(x)


def degrees(x):
    return x * (180 / pi) if isinstance(x, SNum) else _m.degrees(x)


def isclose(a, b, **k):
    if isinstance(a, SNum) or isinstance(b, SNum): raise Unsupported('isclose')
    return _m.isclose(a, b, **k)


def prod(xs, *, start=1):
    from .hooks import HOOKS
    r = start
    for x in HOOKS.iter(xs): r = r * x
    return r


def trunc(x):
    if isinstance(x, SInt): return x
    if isinstance(x, SNum): return SInt(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))
    return _m.trunc(x)


def __getattr__(n):
    f = getattr(_m, n)
    if callable(f):
        def g(*a, **k):
            if any(isinstance(x, SNum) for x in a): raise Unsupported('math.' + n)
            return f(*a, **k)
        return g
    return f
