"""What the instrumented text calls.  With concrete operands: exactly the CPython operation."""
import builtins
import sys
import z3
from . import core, seqs
from .core import (SBool, SInt, SReal, SStr, SNum, Sym, Atom, Unsupported, mk_str, mk_bool, is_sym, cur, rterm,
                   str_eq, sterm, wrap_i)


class BRef:
    """a builtin used as a value in instrumented text"""
    def __init__(self, name):
        self.name = name
        self.type = getattr(builtins, name)
    def __call__(self, *a, **k): return getattr(HOOKS, 'b_' + self.name)(*a, **k)
    def __eq__(self, o): return self.type == (o.type if isinstance(o, BRef) else o)
    def __hash__(self): return hash(self.type)
    def __or__(self, o): return self.type | unref(o)
    def __ror__(self, o): return unref(o) | self.type
    def __getattr__(self, n): return getattr(self.type, n)


def unref(x):
    if isinstance(x, BRef): return x.type
    if type(x) is tuple: return tuple(unref(y) for y in x)
    return x


REFS = {n: BRef(n) for n in ('str', 'repr', 'len', 'int', 'float', 'abs', 'bool')}


def has_sym(x, depth=3):
    if is_sym(x): return True
    if depth and type(x) in (list, tuple, set, frozenset):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and type(x) is dict:
        return any(has_sym(y, depth - 1) for y in x.keys())
    return False


class SDict(dict):
    """a dict some of whose keys are symbolic: an association list in insertion order"""
    __vc_sym__ = False
    def __init__(self, *a, **k):
        super().__init__()
        self._k, self._v = [], []
        for x in a:
            for kk, vv in (x.items() if hasattr(x, 'items') else x): self[kk] = vv
        for kk, vv in k.items(): self[kk] = vv
    def _find(self, key):
        for i, k in enumerate(self._k):
            if k is key or HOOKS.eq(k, key): return i
        return -1
    def __getitem__(self, key):
        i = self._find(key)
        if i < 0: raise KeyError(key)
        return self._v[i]
    def __setitem__(self, key, v):
        i = self._find(key)
        if i < 0: self._k.append(key); self._v.append(v)
        else: self._v[i] = v
    def __delitem__(self, key):
        i = self._find(key)
        if i < 0: raise KeyError(key)
        del self._k[i]; del self._v[i]
    def __contains__(self, key): return self._find(key) >= 0
    def get(self, key, d=None):
        i = self._find(key)
        return d if i < 0 else self._v[i]
    def pop(self, key, *d):
        i = self._find(key)
        if i < 0:
            if d: return d[0]
            raise KeyError(key)
        v = self._v[i]
        del self._k[i]; del self._v[i]
        return v
    def setdefault(self, key, d=None):
        i = self._find(key)
        if i < 0:
            self[key] = d
            return d
        return self._v[i]
    def update(self, *a, **k):
        for x in a:
            for kk, vv in (list(x.items()) if hasattr(x, 'items') else x): self[kk] = vv
        for kk, vv in k.items(): self[kk] = vv
    def keys(self): return list(self._k)
    def values(self): return list(self._v)
    def items(self): return list(zip(self._k, self._v))
    def __iter__(self): return iter(list(self._k))
    def __len__(self): return len(self._k)
    def __bool__(self): return len(self._k) > 0
    def copy(self):
        d = SDict(); d._k, d._v = list(self._k), list(self._v); return d
    def __eq__(self, o):
        if not isinstance(o, dict) or len(o) != len(self): return False
        for k, v in self.items():
            if not HOOKS.contains(k, o): return False
            if not HOOKS.eq(v, HOOKS.getitem(o, k)): return False
        return True
    def __or__(self, o):
        d = self.copy(); d.update(o); return d
    def __ror__(self, o):
        d = SDict(o); d.update(self); return d
    def clear(self): self._k, self._v = [], []
    def popitem(self):
        v = self._v.pop(); return self._k.pop(), v
    def __repr__(self): return f'SDict({list(zip(self._k, self._v))})'
    __hash__ = None


class SSet:
    """a set some of whose elements are symbolic"""
    def __init__(self, it=()):
        self._e = []
        for x in it: self.add(x)
    def add(self, x):
        if x not in self: self._e.append(x)
    def __contains__(self, x): return any(y is x or HOOKS.eq(y, x) for y in self._e)
    def __iter__(self): return iter(list(self._e))
    def __len__(self): return len(self._e)
    def discard(self, x):
        for i, y in enumerate(self._e):
            if y is x or HOOKS.eq(y, x):
                del self._e[i]; return
    def remove(self, x):
        if x not in self: raise KeyError(x)
        self.discard(x)
    def __or__(self, o): return SSet(list(self._e) + list(o))
    __ror__ = __or__
    def union(self, *os):
        r = self
        for o in os: r = r | o
        return r
    def __and__(self, o): return SSet(x for x in self._e if HOOKS.contains(x, o))
    def __sub__(self, o): return SSet(x for x in self._e if not HOOKS.contains(x, o))
    def __rsub__(self, o): return SSet(x for x in o if x not in self)
    difference, intersection = __sub__, __and__
    def update(self, *os):
        for o in os:
            for x in o: self.add(x)
    def issubset(self, o): return all(HOOKS.contains(x, o) for x in self._e)
    __le__ = issubset
    def __eq__(self, o): return len(self) == len(o) and all(HOOKS.contains(x, o) for x in self._e)
    def copy(self): return SSet(self._e)
    def pop(self): return self._e.pop()
    def clear(self): self._e = []
    __hash__ = None


class FlatGen:
    """a generator expression with more than one generator"""
    def __init__(self, parts): self.parts = parts
    def __iter__(self):
        for r in self.parts(): yield from r
    def whole(self): return seqs.flatten(list(self.parts()), 'gen')
    def __next__(self):
        if not hasattr(self, 'it'): self.it = iter(self)
        return next(self.it)


class StarMark:
    def __init__(self, s): self.s = s


class Hooks:
    SDict, SSet = SDict, SSet

    @staticmethod
    def bref(n): return REFS[n]

    # ---------- equality used by container searches
    @staticmethod
    def eq(a, b):
        r = a == b
        return r if isinstance(r, bool) else bool(r)

    # ---------- *args
    @staticmethod
    def starcall(f, parts, **kw):
        args = []
        for star, x in parts:
            if star and type(x) is FlatGen: x = x.whole()
            if not star: args.append(x)
            elif isinstance(x, (seqs.ASeq, seqs.AbsChunk)) and not (isinstance(x, seqs.ASeq) and x.concrete()):
                g = getattr(f, '__func__', f)
                c = getattr(g, '__code__', None)
                if c is None or not c.co_flags & 4 or c.co_name == '<lambda>' or not (g.__module__ or '').startswith('mccode_antlr') or len(args) + (g is not f) < c.co_argcount:
                    raise Unsupported('a sequence of unknown length passed on as *args')
                args.append(StarMark(x))
            else: args += list(HOOKS.iter(x))
        return f(*args, **kw)
    @staticmethod
    def display(kind, parts):
        out = []
        for star, x in parts:
            if not star: out.append([x])
            else:
                x = x.whole() if hasattr(x, 'whole') else x
                if isinstance(x, (seqs.ASeq, seqs.AbsChunk)): out += seqs.ASeq.of(x).chunks
                elif isinstance(x, seqs.ISeq): raise Unsupported('unknown sequences put together')
                else: out.append(list(Hooks.iter(x)))
        if all(isinstance(c, list) for c in out): return (list if kind == 'list' else tuple)(x for c in out for x in c)
        return (seqs.AList if kind == 'list' else seqs.ASeq)(out)
    @staticmethod
    def vararg(args):
        if not any(type(a) is StarMark for a in args): return args
        out = []
        for a in args: out += seqs.ASeq.of(a.s).chunks if type(a) is StarMark else [[a]]
        return seqs.ASeq(out)

    # ---------- builtins
    @staticmethod
    def b_len(x):
        if isinstance(x, SStr): return SInt(z3.Length(x.t))
        f = getattr(type(x), '__vc_len__', None)
        if f: return f(x)
        if type(x).__module__.startswith('mccode_antlr') and '__len__' in type(x).__dict__:
            n = type(x).__len__(x)
            if isinstance(n, SInt):
                if not n >= 0: raise core.real(ValueError('__len__() should return >= 0'))
                return n
        return len(x)

    @staticmethod
    def b_isinstance(x, t):
        t = unref(t)
        f = getattr(type(x), '__vc_isinstance__', None)
        if f: return f(x, t)
        if isinstance(x, Sym):
            ts = t if isinstance(t, tuple) else (t,)
            ts = [y for z in ts for y in (getattr(z, '__args__', (z,)) if not isinstance(z, type) else (z,))]
            pt = {SBool: bool, SInt: int, SReal: float, SStr: str}[type(x)]
            return any(isinstance(y, type) and issubclass(pt, y) for y in ts)
        if isinstance(x, SSet):
            ts = t if isinstance(t, tuple) else (t,)
            return set in ts
        if not isinstance(x, (str, int, float)) and t in (list, tuple) and hasattr(type(x), '__vc_list__'):
            return t is list
        return isinstance(x, t)

    @staticmethod
    def b_hasattr(x, n):
        f = getattr(type(x), '__vc_hasattr__', None)
        if f: return f(x, n)
        if isinstance(x, SStr) and n == '__len__': return True
        return hasattr(x, n)

    @staticmethod
    def b_type(*a):
        if len(a) == 1:
            x = a[0]
            f = getattr(type(x), '__vc_type__', None)
            if f: return f(x)
            if isinstance(x, Sym): return {SBool: bool, SInt: int, SReal: float, SStr: str}[type(x)]
            if isinstance(x, SDict): return dict
            if isinstance(x, SSet): return set
        return type(*a)

    @staticmethod
    def b_str(*a):
        if not a: return ''
        if len(a) > 1: return str(*a)
        x = a[0]
        if isinstance(x, SStr): return x
        if isinstance(x, SNum):
            return num_text(x)
        if isinstance(x, SBool): return 'True' if x else 'False'
        if isinstance(x, (str, int, float, type(None), bool, bytes)): return str(x)
        if isinstance(x, (list, tuple, dict, set, SSet)) and type(x).__str__ in (object.__str__, dict.__str__) :
            if has_sym(x, 6): raise Unsupported('str of a container of symbolic values')
            return str(x)
        s = type(x).__str__
        if s is object.__str__:
            return Hooks.b_repr(x)
        return s(x)

    @staticmethod
    def b_repr(x):
        if isinstance(x, (SStr, SNum, SBool)):
            if isinstance(x, SNum): return num_text(x)
            raise Unsupported('repr of a symbolic value')
        if isinstance(x, (str, int, float, type(None), bool, bytes)): return repr(x)
        if isinstance(x, (list, tuple, dict, set, SSet)) and type(x).__repr__ in (list.__repr__, tuple.__repr__, dict.__repr__, set.__repr__):
            if has_sym(x, 6): raise Unsupported('repr of a container of symbolic values')
            return repr(x)
        return type(x).__repr__(x)

    @staticmethod
    def b_format(x, spec=''):
        if isinstance(x, Sym):
            if spec in ('', 's'): return Hooks.b_str(x)
            if isinstance(x, SInt) and spec == 'd': return num_text(x)
            if isinstance(x, SNum) : return num_text(x, spec)
            raise Unsupported(f'format {spec!r} of a symbolic value')
        if isinstance(spec, SStr) and isinstance(x, str): raise Unsupported('symbolic format spec')
        if isinstance(x, (str, int, float, bytes, type(None))) or type(x) in (list, tuple, dict): return format(x, spec)
        fn = type(x).__format__
        if fn is object.__format__:
            if isinstance(spec, str) and spec: return format(x, spec)
            return Hooks.b_str(x)
        return fn(x, spec)

    @staticmethod
    def fstr(*parts):
        out = []
        for p in parts:
            if isinstance(p, (str, SStr)):
                out.append(p); continue
            v, conv, spec = p
            if conv == 114: v = Hooks.b_repr(v)
            elif conv == 115: v = Hooks.b_str(v)
            elif conv == 97: v = ascii(v)
            out.append(Hooks.b_format(v, spec))
        return concat(out)

    @staticmethod
    def mod(fmt, args):
        if not has_sym(args): return fmt % args
        args = list(args) if isinstance(args, tuple) else [args]
        out, i = [], 0
        import re
        for m in re.finditer(r'%(%|[sd]|[^%a-zA-Z]*[a-zA-Z])', fmt):
            out.append(fmt[i:m.start()]); i = m.end()
            if m.group(1) == '%': out.append('%')
            elif m.group(1) in ('s', 'd'): out.append(Hooks.b_str(args.pop(0)))
            else: raise Unsupported('percent format')
        out.append(fmt[i:])
        return concat(out)

    @staticmethod
    def b_int(*a, **k):
        if a and isinstance(a[0], Sym):
            x = a[0]
            if isinstance(x, SInt): return x
            if isinstance(x, SBool): return SInt(core.iterm(x))
            if isinstance(x, SReal): return SInt(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))
            nt = numeric_of(x)
            if nt is not None:
                if isinstance(nt, SInt): return nt
                raise ValueError('invalid literal for int()')
            if ident_like(x): raise ValueError('invalid literal for int()')
            raise Unsupported('int() of unknown text')
        if a and hasattr(type(a[0]), '__vc_int__'): return a[0].__vc_int__()
        if a and not isinstance(a[0], (str, int, float, bytes)) and hasattr(type(a[0]), '__int__'):
            return type(a[0]).__int__(a[0])
        return int(*a, **k)

    @staticmethod
    def b_float(*a):
        if a and isinstance(a[0], Sym):
            x = a[0]
            if isinstance(x, SReal): return x
            if isinstance(x, (SInt, SBool)): return SReal(rterm(x))
            nt = numeric_of(x)
            if nt is not None: return SReal(rterm(nt))
            if ident_like(x): raise ValueError('could not convert string to float')
            raise Unsupported('float() of unknown text')
        return float(*a)

    @staticmethod
    def b_bool(*a):
        if not a: return False
        return True if a[0] else False

    @staticmethod
    def b_round(x, n=None):
        if isinstance(x, SNum): return x.__round__(n)
        if n is None: return round(x)
        return round(x, n)

    @staticmethod
    def b_abs(x): return abs(x)

    @staticmethod
    def b_pow(*a): return pow(*a)

    @staticmethod
    def b_hash(x):
        if is_sym(x): raise Unsupported('hash')
        return hash(x)

    @staticmethod
    def b_id(x): return id(x)

    @staticmethod
    def _mm(lt, *a, key=None, **k):
        d = 'default' in k
        dv = k.pop('default', None)
        xs = list(Hooks.iter(a[0])) if len(a) == 1 else list(a)
        if not xs:
            if d: return dv
            raise ValueError('empty sequence')
        if not has_sym(xs) and key is None:
            return (min if lt else max)(xs)
        if all(isinstance(x, (SNum, int, float)) for x in xs) and key is None:
            allint = all(isinstance(x, (int, SInt)) for x in xs)
            tm = core.iterm if allint else rterm
            r = tm(xs[0])
            for x in xs[1:]:
                t = tm(x)
                r = z3.If(t < r if lt else t > r, t, r)
            return (SInt if allint else SReal)(z3.simplify(r))
        best, bk = xs[0], key(xs[0]) if key else xs[0]
        for x in xs[1:]:
            kx = key(x) if key else x
            if (kx < bk) if lt else (kx > bk): best, bk = x, kx
        return best

    @staticmethod
    def b_min(*a, **k): return Hooks._mm(True, *a, **k)

    @staticmethod
    def b_max(*a, **k): return Hooks._mm(False, *a, **k)

    @staticmethod
    def b_sum(xs, start=0):
        r = start
        for x in Hooks.iter(xs): r = r + x
        return r

    @staticmethod
    def b_any(xs):
        f = getattr(type(xs), '__vc_any__', None)
        if f: return f(xs)
        for x in Hooks.iter(xs):
            if x: return True
        return False

    @staticmethod
    def b_all(xs):
        f = getattr(type(xs), '__vc_all__', None)
        if f: return f(xs)
        for x in Hooks.iter(xs):
            if not x: return False
        return True

    @staticmethod
    def b_sorted(xs, key=None, reverse=False):
        xs = list(Hooks.iter(xs))
        return sorted(xs, key=key, reverse=reverse)

    @staticmethod
    def b_range(*a):
        if any(isinstance(x, SInt) for x in a):
            return SRange(*a)
        return range(*a)

    @staticmethod
    def b_enumerate(xs, start=0):
        f = getattr(type(xs), '__vc_enumerate__', None)
        if f: return f(xs, start)
        return enumerate(Hooks.iter(xs), start)

    @staticmethod
    def b_zip(*xs, **k):
        for x in xs:
            f = getattr(type(x), '__vc_zip__', None)
            if f: return f(xs)
        if any(seqs.ISeq.of(x) is not None for x in xs): return seqs.ISeq.__vc_zip__(xs)
        return zip(*[Hooks.iter(x) for x in xs], **k)

    @staticmethod
    def b_reversed(xs):
        f = getattr(type(xs), '__vc_reversed__', None)
        if f: return f(xs)
        return reversed(xs)

    @staticmethod
    def b_map(f, *xs): return map(f, *[Hooks.iter(x) for x in xs])

    @staticmethod
    def b_filter(f, xs): return filter(f, Hooks.iter(xs))

    @staticmethod
    def b_next(*a):
        f = getattr(type(a[0]), '__vc_next__', None)
        if f: return f(*a)
        return next(*a)

    @staticmethod
    def b_iter(x, *a):
        return iter(Hooks.iter(x)) if not a else iter(x, *a)

    @staticmethod
    def b_list(*a):
        if not a: return []
        f = getattr(type(a[0]), '__vc_tolist__', None)
        if f: return f(a[0])
        return list(Hooks.iter(a[0]))

    @staticmethod
    def b_tuple(*a):
        if a and hasattr(type(a[0]), '__vc_totuple__'): return a[0].__vc_totuple__()
        return tuple(Hooks.iter(a[0])) if a else ()

    @staticmethod
    def b_set(*a):
        if not a: return set()
        xs = list(Hooks.iter(a[0]))
        return SSet(xs) if has_sym(xs) else set(xs)

    @staticmethod
    def b_frozenset(*a): return Hooks.b_set(*a)

    @staticmethod
    def b_dict(*a, **k):
        if not a: return dict(**k)
        x = a[0]
        if isinstance(x, SDict):
            d = x.copy(); d.update(k); return d
        if isinstance(x, dict): return dict(x, **k)
        xs = [tuple(y) for y in Hooks.iter(x)]
        if any(has_sym(y[0]) for y in xs): return SDict(xs, **k)
        return dict(xs, **k)

    @staticmethod
    def b_print(*a, sep=' ', end='\n', file=None, flush=False):
        if file is None or file in (sys.stdout, sys.stderr): return None
        text = concat_join(' ' if sep is None else sep, [Hooks.b_str(x) for x in a]) + ('\n' if end is None else end)
        if isinstance(text, SStr) and type(file).__module__ in ('_io', 'io'): raise Unsupported('an unknown text is written to a file')
        file.write(text)

    @staticmethod
    def b_ord(x):
        if isinstance(x, SStr): raise Unsupported('ord')
        return ord(x)

    @staticmethod
    def b_chr(x): return chr(x)

    @staticmethod
    def b_hex(x):
        if isinstance(x, Sym): raise Unsupported('hex')
        return hex(x)

    # ---------- operators
    @staticmethod
    def contains(x, c):
        f = getattr(type(c), '__vc_contains__', None)
        if f: return f(c, x)
        if isinstance(c, SStr): return c.contains(x)
        if isinstance(c, str):
            if isinstance(x, SStr):
                if len(x.parts) == 1 and not isinstance(x.parts[0], str) and x.parts[0].cls == 'ident' and len(c) < 2 and not c.isidentifier():
                    return False
                return mk_bool(z3.Contains(z3.StringVal(c), x.t))
            return x in c
        if isinstance(c, SSet): return x in c
        if isinstance(c, SDict): return x in c
        if isinstance(c, (dict, set, frozenset)) or type(c).__name__ in ('dict_keys', 'dict_values', 'dict_items'):
            if has_sym(x) or has_sym(c) or is_sym(x):
                for k in list(c):
                    if k is x or Hooks.eq(k, x): return True
                return False
            return x in c
        if isinstance(c, (list, tuple)):
            cont = type(c).__contains__
            if cont in (list.__contains__, tuple.__contains__):
                for k in c:
                    if k is x or Hooks.eq(k, x): return True
                return False
        return x in c

    @staticmethod
    def slice(a, b, c): return slice(a, b, c)

    @staticmethod
    def getitem(o, k):
        k = unref(k)
        if isinstance(o, SStr): return o.getitem(k)
        if isinstance(o, SDict): return o[k]
        if isinstance(o, dict) and has_sym(k):
            for kk in list(o):
                if kk is k or Hooks.eq(kk, k): return dict.__getitem__(o, kk)
            if hasattr(type(o), '__missing__'): return o.__missing__(k)
            raise KeyError(k)
        if isinstance(o, BRef): o = o.type
        if isinstance(k, slice) and isinstance(o, (list, tuple, str)):
            n = [concrete_index(x) for x in (k.start, k.stop, k.step)]
            return o[slice(*n)]
        return o[k]

    @staticmethod
    def setitem(o, k, v):
        if type(o) is dict and has_sym(k):
            # a native dict gets its first symbolic key: turn it into an association list in place
            for kk in list(o):
                if Hooks.eq(kk, k):
                    o[kk] = v
                    return
            o[KeyWrap(k)] = v
            return
        o[k] = v

    @staticmethod
    def mcall(o, name, *a, **k):
        if isinstance(o, str):
            if has_sym(a):
                if name == 'join': return concat_join(o, joined(o, a[0]))
                if name == 'format': raise Unsupported('str.format')
                if name in ('startswith', 'endswith', 'replace', 'partition', 'split', 'removeprefix', 'removesuffix', 'count', 'index', 'strip', 'find'):
                    return getattr(SStr([o]), name)(*a, **k)
                raise Unsupported(f'str.{name} with symbolic arguments')
            if name == 'join':
                xs = joined(o, a[0])
                return concat_join(o, xs)
            return getattr(o, name)(*a, **k)
        if type(o) is dict and (a and has_sym(a[0])) and name in ('get', 'pop', 'setdefault'):
            for kk in list(o):
                if Hooks.eq(kk, a[0]):
                    return getattr(o, name)(kk, *a[1:])
            if name == 'get': return a[1] if len(a) > 1 else k.get('default')
            if name == 'pop':
                if len(a) > 1: return a[1]
                raise KeyError(a[0])
            d = a[1] if len(a) > 1 else None
            Hooks.setitem(o, a[0], d)
            return d
        if type(o) is dict and name == 'update' and (a and isinstance(a[0], dict) and has_sym(a[0])):
            for kk, vv in a[0].items(): Hooks.setitem(o, kk, vv)
            return None
        if type(o) is set and name in ('add', 'discard', 'remove') and has_sym(a[0]):
            raise Unsupported('symbolic element put in a native set')
        if o is dict and name == 'fromkeys':
            if isinstance(a[0], seqs.ASeq) and not a[0].concrete(): return seqs.AKeys(a[0])
            xs = list(Hooks.iter(a[0]))
            if has_sym(xs): return SDict([(x, a[1] if len(a) > 1 else None) for x in xs])
            return dict.fromkeys(xs, *a[1:])
        if type(o) is list and name in ('index', 'count', 'remove') and a:
            if name == 'count': return sum(1 for x in o if Hooks.eq(x, a[0]))
            for i, x in enumerate(o):
                if x is a[0] or Hooks.eq(x, a[0]):
                    if name == 'index': return i
                    del o[i]
                    return None
            raise ValueError('not in list')
        if type(o) is list and name == 'extend': a = (list(Hooks.iter(a[0])),)
        return getattr(o, name)(*a, **k)

    @staticmethod
    def loop(x, targets, names, stored=()):
        f = getattr(type(x), '__vc_loop__', None)
        if f:
            lp = f(x)
            lp.targets, lp.names, lp.stored = targets, names, stored
            return lp
        return seqs.Loop(Hooks.iter(x))

    @staticmethod
    def flat(kind, it, f, cond, star):
        """a comprehension with further generators: f gives the elements which they make"""
        m = getattr(type(it), '__vc_flat__', None)
        if m:
            f_, c_ = f, cond
            return m(it, kind, (lambda x: f_(*x)) if star else f, cond if cond is None or not star else (lambda x: c_(*x)))
        def inner(x): return f(*x) if star else f(x)
        def parts():
            for x in Hooks.iter(it):
                if cond is None or (cond(*x) if star else cond(x)): yield inner(x)
        if kind == 'gen': return FlatGen(parts)
        out = list(parts())
        if any(isinstance(r, (seqs.ASeq, FlatGen)) for r in out): return seqs.flatten(out, 'list')
        return [y for r in out for y in r]

    @staticmethod
    def comp(kind, it, f, cond, star):
        m = getattr(type(it), '__vc_comp__', None)
        if m:
            if star:
                f_, c_ = f, cond
                f = lambda x: f_(*x)
                cond = None if cond is None else (lambda x: c_(*x))
            return m(it, kind, f, cond)
        it = Hooks.iter(it)
        if star:
            if cond is None: g = (f(*x) for x in it)
            else: g = (f(*x) for x in it if cond(*x))
        elif cond is None: g = (f(x) for x in it)
        else: g = (f(x) for x in it if cond(x))
        return list(g) if kind == 'list' else g

    @staticmethod
    def iter(x):
        f = getattr(type(x), '__vc_iter__', None)
        if f: return f(x)
        if isinstance(x, SStr): raise Unsupported('iteration over symbolic text')
        s = None if isinstance(x, (list, tuple, dict)) else seqs.ISeq.of(x)
        return x if s is None else s


class KeyWrap(SStr):
    """a symbolic key stored in a native dict (identity hash; every lookup goes through the hooks)"""
    __slots__ = ()
    def __init__(self, k):
        if not isinstance(k, SStr): raise Unsupported('non-string symbolic key')
        self.parts = k.parts
    def __hash__(self): return 0


def concrete_index(x):
    if isinstance(x, SInt): return core.concretise_int(x)
    return x


class SRange:
    def __init__(self, *a):
        if len(a) == 1: self.start, self.stop, self.step = 0, a[0], 1
        elif len(a) == 2: self.start, self.stop, self.step = a[0], a[1], 1
        else: self.start, self.stop, self.step = a
    def __vc_len__(self):
        if not (isinstance(self.step, int) and self.step == 1): raise Unsupported('len of symbolic range with step')
        d = self.stop - self.start
        return Hooks.b_max(d, 0)
    def __vc_iter__(self):
        if not isinstance(self.step, int): raise Unsupported('symbolic range step')
        def gen():
            i = self.start
            n = 0
            lim = cur().ex.unroll
            while (i < self.stop) if self.step > 0 else (i > self.stop):
                yield i
                i = i + self.step
                n += 1
                if n >= lim:
                    cur().ex.bounds.add(f'range unrolled {lim} times')
                    raise core.PathEnd()
        return gen()
    def __iter__(self): return self.__vc_iter__()
    def __vc_comp__(self, kind, f, cond):
        if not (isinstance(self.step, int) and self.step == 1): raise Unsupported('symbolic range step')
        n = self.__vc_len__()
        return seqs.ISeq(n.t if isinstance(n, SInt) else n, lambda i: self.start + i).__vc_comp__(kind, f, cond)


core.Explorer.unroll = 6


def concat(xs):
    parts = []
    for x in xs:
        if isinstance(x, SStr): parts.extend(x.parts)
        elif isinstance(x, str): parts.append(x)
        else: raise TypeError(f'expected str, got {type(x)}')
    return mk_str(parts)


def joined(sep, xs):
    """the texts to be joined; any number of them: what the harness says stands for them all"""
    if isinstance(xs, seqs.ASeq) and len(xs.chunks) == 1 and isinstance(xs.chunks[0], seqs.AbsChunk):
        c = xs.chunks[0]
        f = getattr(getattr(c, 'base', c), 'on_join', None)
        if f is not None: return [f(sep, c)]
    return list(Hooks.iter(xs))


def concat_join(sep, xs):
    out = []
    for i, x in enumerate(xs):
        if i: out.append(sep)
        if not isinstance(x, (str, SStr)): raise TypeError('sequence item: expected str instance')
        out.append(x)
    return concat(out)


NUM_TEXT = {}


def num_text(x, spec=''):
    """the decimal text of a symbolic number: an atom that remembers the number.
    Assumed contract of CPython: str/repr of a number is read back by int()/float() as the same number."""
    p = cur()
    t = z3.simplify(x.t)
    key = ('numtext', spec, t.get_id())
    memo = p.lits
    if key not in memo:
        neg = None
        a = Atom(p.fresh('numtext', core.StrSort), 'numtext', excl=' \t\n\r\x0b\x0c"\'(){}[]<>=,;:/*%&|^!~?@#$_\\' + 'bcdghjklmopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ',
                 nonempty=True, cls='num', tag=x if not spec else None)
        p.add(z3.Length(a.t) > 0)
        memo[key] = a
    return SStr([memo[key]])


def numeric_of(s):
    if len(s.parts) == 1 and not isinstance(s.parts[0], str) and s.parts[0].cls == 'num' and s.parts[0].tag is not None:
        return s.parts[0].tag
    return None


def ident_like(s):
    """is the text certainly not a number? (starts with an identifier, or a quote)"""
    p = s.parts[0]
    if isinstance(p, str): return p[0] in '"\'' or p[0].isalpha() or p[0] == '_'
    return p.cls == 'ident'


HOOKS = Hooks()
