"""setup: does the engine tell valid obligations from invalid ones, and does the concrete mode agree?  (no build products are needed)"""
import sys
from . import env as E
sys.path.append(E.VTSITE)
import z3
from .core import Explorer
from . import api


def run(fn, name='t'):
    ex = Explorer(name, fn, budget_s=30, max_paths=500)
    ex.run(lambda p: api.Symbolic(p))
    return ex.verdict()


def good(vc):
    x, y = vc.real('x'), vc.real('y')
    m = x if x > y else y
    vc.check(vc.and_(m >= x, m >= y), 'max')


def bad(vc):
    x, y = vc.real('x'), vc.real('y')
    m = x if x > y + 1 else y
    vc.check(vc.and_(m >= x, m >= y), 'max')


def text(vc):
    a = vc.ident('a')
    vc.check(a + '' == a, 'same')


def bad_text(vc):
    a, b = vc.ident('a'), vc.ident('b')
    vc.check(a == b, 'same')


want = {good: 'proved', bad: 'refuted', text: 'proved', bad_text: 'refuted'}
ok = True
for f, w in want.items():
    g = run(f)
    if g != w: print('selftest:', f.__name__, g, 'expected', w); ok = False
env, cleanup = E.setup()
cleanup()
print('selftest', 'passed' if ok else 'FAILED', z3.get_version_string())
sys.exit(0 if ok else 1)
