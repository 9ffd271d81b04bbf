"""Sequences of any length, and the loop rule.

An ASeq is made of concrete pieces and of AbsChunks: runs of unknown length whose elements are arbitrary members of a
class the harness describes.  A `for` statement which reaches a chunk is cut there: the chunk's invariant is checked for the
values at loop entry, then either one arbitrary iteration is executed from arbitrary values that satisfy it, and it is checked
again at the end, or the loop is left with arbitrary values that satisfy it for the whole chunk.  A variable or object which the body
changes and the invariant does not mention makes the proof fail as `unsupported` (the frame condition).
any/all/next/in over a chunk: either there is a witness (an arbitrary element for which it holds), or no element, known or met later, has the property.
"""
import sys
import z3
from .core import SInt, SBool, Unsupported, PathEnd, Ambiguous, cur, mk_bool, is_sym, to_bool_term, bterm, snot


def truth(x): return True if x else False


class AbsChunk:
    """a run of elements of unknown length"""
    def __init__(self, name, elem, fold=None, n=None, split=None, mapped=None):
        self.name, self.elem, self.fold, self.on_split, self.on_map = name, elem, fold, split, mapped
        p = cur()
        self.n = z3.Int(name + '.len') if n is None else n
        p.add(self.n >= 0)
        self.known, self.facts, self.k = [], [], 0

    def some(self):
        """an arbitrary element"""
        cur().assume(self.n > 0)
        x = self.elem(f'{self.name}[{self.k}]')
        self.k += 1
        self.admit(x)
        return x

    def admit(self, x):
        for f in self.facts: cur().assume(to_bool_term(f(x)))
        self.known.append(x)

    def forall(self, f):
        """from now on: f holds for every element"""
        for x in self.known: cur().assume(to_bool_term(f(x)))
        self.facts.append(f)

    probe = False
    def certain(self, cond):
        """True: cond holds for every element, False: for none, None: neither is certain; and what it was tried with"""
        p = cur()
        # what is said about the element which is tried is forgotten: there may be none
        p.solver.push()
        n = len(p.pc)
        p.probing += 1
        try:
            x = self.elem(f'{self.name}?{next(p.fresh_n)}')
            for f in self.facts:
                p.add(bterm(f(x)))
            t = to_bool_term(cond(x))
            if t is True or t is False: return t, x
            if p.check(z3.Not(t)) == z3.unsat: return True, x
            if p.check(t) == z3.unsat: return False, x
            return None, x
        except Ambiguous: return None, None
        finally:
            p.probing -= 1
            p.solver.pop()
            del p.pc[n:]

    def split(self, last):
        """(one end element, the rest): only when it is not empty"""
        x = self.some()
        rest = AbsChunk(self.name + ("'" if last else '"'), self.elem, self.fold, z3.simplify(self.n - 1), self.on_split, self.on_map)
        rest.facts = self.facts
        before, after = getattr(self, 'part_of', ((), ()))
        rest.part_of = (before, (x,) + after) if last else (before + (x,), after)
        for k in ('mapped_fold', 'flat_fold', 'deep_fold', 'key_map', 'parts'):
            if hasattr(self, k): setattr(rest, k, getattr(self, k))
        if self.on_split is not None: self.on_split(self, x, rest, last)
        return x, rest


def whole(pieces, i):
    """what is said of all elements of a sequence is not said of a part of it: the element which was split off is there, too"""
    c = pieces[i]
    if not hasattr(c, 'part_of') or getattr(c, 'parts', False): return
    before, after = c.part_of
    lb = pieces[i - 1][-len(before):] if before and i > 0 and isinstance(pieces[i - 1], list) else []
    la = pieces[i + 1][:len(after)] if after and i + 1 < len(pieces) and isinstance(pieces[i + 1], list) else []
    if len(lb) != len(before) or len(la) != len(after): raise Unsupported('a part of an unknown sequence')
    if hasattr(c, 'f'): return
    for y, x in list(zip(lb, before)) + list(zip(la, after)):
        if y is not x and not (isinstance(y, tuple) and any(z is x for z in y)): raise Unsupported('a part of an unknown sequence')


class ASeq:
    __vc_sym__ = True
    def __init__(self, chunks=(), kind=tuple):
        self.chunks, self.kind = [], kind
        for c in chunks:
            if isinstance(c, AbsChunk): self.chunks.append(c)
            elif c:
                if self.chunks and isinstance(self.chunks[-1], list): self.chunks[-1] += list(c)
                else: self.chunks.append(list(c))

    @classmethod
    def of(cls, x, kind=None):
        if isinstance(x, ASeq): return x
        if isinstance(x, AbsChunk): return ASeq([x], kind or tuple)
        return ASeq([list(x)], kind or type(x))

    def concrete(self): return all(isinstance(c, list) for c in self.chunks)

    def __vc_len__(self):
        k = sum(len(c) for c in self.chunks if isinstance(c, list))
        t = [c.n for c in self.chunks if isinstance(c, AbsChunk)]
        return k if not t else SInt(z3.simplify(z3.Sum([z3.IntVal(k), *t])))
    def __len__(self):
        n = self.__vc_len__()
        if isinstance(n, int): return n
        raise Unsupported('length of an unknown sequence')
    def __bool__(self):
        if any(isinstance(c, list) for c in self.chunks): return True
        n = self.__vc_len__()
        return truth(n > 0) if not isinstance(n, int) else n > 0
    def __vc_isinstance__(self, t):
        ts = t if isinstance(t, tuple) else (t,)
        return self.kind in ts or object in ts or ASeq in ts
    def __vc_type__(self): return self.kind
    def __vc_hasattr__(self, n): return hasattr(self.kind, n)

    def first(self, last=False):
        """the end element (forks over empty chunks); the sequence is rewritten so that it is concrete"""
        while self.chunks:
            i = -1 if last else 0
            c = self.chunks[i]
            if isinstance(c, list):
                if c: return c[i]
                self.chunks.pop(i)
                continue
            if truth(SBool(c.n > 0)):
                x, rest = c.split(last)
                self.chunks[i:] = [rest, [x]] if last else [[x], rest] + self.chunks[1:]
                return x
            self.chunks.pop(i)
        e = IndexError('index out of range'); e.vc_real = True
        raise e

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step is not None and k.step != 1:
                if k == slice(None, None, -1): return self.__vc_reversed__()
                raise Unsupported('slice step over an unknown sequence')
            if isinstance(k.start, SInt) or isinstance(k.stop, SInt) or isinstance(k.stop, int) and k.stop >= 0: return self.between(0 if k.start is None else k.start, k.stop)
            out = ASeq(self.chunks, self.kind)
            if isinstance(k.start, int) and k.start > 0:
                for _ in range(k.start):
                    try: out.first()
                    except IndexError: break
                    out.chunks[0] = out.chunks[0][1:]
            elif k.start not in (None, 0): raise Unsupported('slice of an unknown sequence')
            if isinstance(k.stop, int) and k.stop < 0:
                for _ in range(-k.stop):
                    try: out.first(True)
                    except IndexError: break
                    out.chunks[-1] = out.chunks[-1][:-1]
            elif k.stop is not None: raise Unsupported('slice of an unknown sequence')
            return ASeq(out.chunks, self.kind)
        if isinstance(k, int) and k in (0, -1): return self.first(k == -1)
        if isinstance(k, int) and k > 0: return self[k:].first()
        if isinstance(k, int): return self[:k + 1].first(True)
        raise Unsupported('index into an unknown sequence')

    def between(self, start, stop):
        """the slice between two positions which are certainly at ends of pieces (or between elements of the concrete ones)"""
        def at(k):
            t, pos = (k.t if isinstance(k, SInt) else z3.IntVal(k)), z3.IntVal(0)
            is_ = lambda p: cur().check(p != t) == z3.unsat
            for i, c in enumerate(self.chunks):
                if isinstance(c, list):
                    for j in range(len(c)):
                        if is_(pos + j): return i, j
                    pos = pos + len(c)
                else:
                    if is_(pos): return i, 0
                    pos = pos + c.n
            if is_(pos) or cur().check(pos > t) == z3.unsat: return len(self.chunks), 0
            raise Unsupported('slice of an unknown sequence')
        a, b = at(start), at(stop) if stop is not None else (len(self.chunks), 0)
        if a > b: return ASeq([], self.kind)
        cs = list(self.chunks[a[0]:b[0] + (b[1] > 0)])
        if b[1]: cs[-1] = cs[-1][:b[1]]
        if a[1]: cs[0] = cs[0][a[1]:]
        return ASeq(cs, self.kind)

    def __add__(self, o):
        if not isinstance(o, (list, tuple, ASeq)): return NotImplemented
        return ASeq(self.chunks + ASeq.of(o).chunks, self.kind)
    def __radd__(self, o):
        if not isinstance(o, (list, tuple, ASeq)): return NotImplemented
        return ASeq(ASeq.of(o).chunks + self.chunks, self.kind)
    def __iter__(self):
        if self.concrete(): return iter([x for c in self.chunks for x in c])
        raise Unsupported('iteration over an unknown sequence')
    def __vc_iter__(self):
        return self.__iter__()
    def __vc_tolist__(self): return AList(self.chunks)
    def __vc_totuple__(self): return ASeq(self.chunks, tuple)
    def __vc_reversed__(self):
        out = []
        for c in reversed(self.chunks):
            if isinstance(c, list): out.append(c[::-1])
            elif getattr(c, 'on_reverse', None): out.append(c.on_reverse())
            else:
                r = AbsChunk(c.name + '~', lambda n, c=c: c.some(), None, c.n, None, None)
                r.rev = c
                if c.on_map is not None: r.on_map = lambda chunk, f, cond, rev=False, c=c: c.on_map(c, f, cond, not rev)
                out.append(r)
        return ASeq(out, self.kind)
    def __eq__(self, o):
        if isinstance(o, ASeq) and o.chunks == self.chunks and all(isinstance(c, AbsChunk) for c in self.chunks): return True
        raise Unsupported('comparing unknown sequences')
    __hash__ = None

    # ---- loops
    def __vc_loop__(self): return CutLoop(self.chunks)
    def __vc_enumerate__(self, start=0):
        out, k = [], start
        for c in self.chunks:
            if isinstance(c, list):
                out.append([(k + i, x) for i, x in enumerate(c)])
                k = k + len(c)
            else:
                c.positions = []
                def el(n, c=c, k=k):
                    i = cur().fresh('index', z3.IntSort())
                    cur().add(z3.And(i >= 0, i < c.n))
                    x = c.some()
                    c.positions.append((x, SInt(i) + k - start))
                    return (SInt(i) + k, x)
                e = AbsChunk(c.name + '#', el, c.fold, c.n)
                e.of = c
                c.enumerated = e
                if hasattr(c, 'part_of'): e.part_of = c.part_of
                if hasattr(c, 'mapped_fold'): e.mapped_fold = c.mapped_fold
                out.append(e)
                k = SInt(c.n) + k
        return ASeq(out, self.kind)

    def __vc_comp__(self, kind, f, cond):
        out = []
        for i, c in enumerate(self.chunks):
            if isinstance(c, list): out.append([f(x) for x in c if cond is None or cond(x)])
            elif c.on_map is not None:
                whole(self.chunks, i)
                out += ASeq.of(c.on_map(c, f, cond)).chunks
            else:
                n, sure = c.n, None
                if c.probe:
                    sure, x = c.certain((lambda x: True) if cond is None else cond)
                    if sure is False: continue
                    if sure and f(x) is x:
                        out.append(c)
                        continue
                if cond is not None and not sure:
                    # none of them is kept, or there is one which is
                    if cur().choose(2) == 0:
                        c.forall(lambda x: snot(cond(x)))
                        continue
                    w = c.some()
                    if not cond(w): raise PathEnd()
                    n = cur().fresh('count', z3.IntSort())
                    cur().add(z3.And(n >= 1, n <= c.n))
                def el(n, c=c):
                    x = c.some()
                    if cond is not None: cur().assume(to_bool_term(cond(x)))
                    return f(x)
                r = AbsChunk(c.name + '*', el, getattr(c, 'mapped_fold', None), n)
                r.base, r.f, r.cond = c, f, cond
                if hasattr(c, 'part_of'): r.part_of = c.part_of
                if getattr(c, 'deep_fold', False): r.mapped_fold, r.deep_fold = c.mapped_fold, True
                out.append(r)
        return (AList if kind == 'list' else ASeq)(out)

    def __vc_flat__(self, kind, f, cond):
        """[y for x in self for y in f(x)]"""
        def of(r): return r.whole() if hasattr(r, 'whole') else r
        out = []
        for c in self.chunks:
            if isinstance(c, list):
                for x in c:
                    if cond is None or cond(x): out += ASeq.of(of(f(x)), list).chunks
                continue
            def el(n, c=c):
                x = c.some()
                if cond is not None: cur().assume(to_bool_term(cond(x)))
                return ASeq.of(of(f(x)), list).member()
            r = AbsChunk(cur_name(c.name + '**'), el, getattr(c, 'flat_fold', None))
            r.of = c
            if hasattr(c, 'part_of'): r.part_of = c.part_of
            out.append(r)
        return (AList if kind == 'list' else ASeq)(out)

    def member(self):
        """an arbitrary element"""
        from .core import cur
        cs = [x for c in self.chunks for x in (c if isinstance(c, list) else [c])]
        if not cs: raise PathEnd()
        x = cs[cur().choose(len(cs))] if len(cs) > 1 else cs[0]
        return x.some() if isinstance(x, AbsChunk) else x

    # ---- quantifiers
    def search(self, pred):
        """fork: an element for which pred holds, or None when there is none"""
        for c in self.chunks:
            if isinstance(c, list):
                for x in c:
                    if pred(x): return (x,)
                continue
            base, cnd, f = getattr(c, 'base', c), getattr(c, 'cond', None), getattr(c, 'f', None)
            g = (lambda x: f(x)) if f is not None else (lambda x: x)
            test = (lambda x: truth(cnd(x)) and truth(pred(g(x)))) if cnd is not None else (lambda x: truth(pred(g(x))))
            if cur().choose(2) == 0:
                x = base.some()
                if not test(x): raise PathEnd()
                return (g(x),)
            base.forall(lambda x: not test(x))
        return None
    def __vc_any__(self): return self.search(lambda x: truth(x)) is not None
    def __vc_all__(self): return self.search(lambda x: not truth(x)) is None
    def __vc_contains__(self, y):
        from .hooks import HOOKS
        return self.search(lambda x: x is y or HOOKS.eq(x, y)) is not None
    def __vc_next__(self, *default):
        r = self.search(lambda x: True)
        if r is not None: return r[0]
        if default: return default[0]
        e = StopIteration(); e.vc_real = True
        raise e
    def index(self, y, *a):
        from .hooks import HOOKS
        if a: raise Unsupported('index in an unknown sequence')
        pos = 0
        is_ = lambda x: x is y or HOOKS.eq(x, y)
        for c in self.chunks:
            if isinstance(c, list):
                for j, x in enumerate(c):
                    if truth(is_(x)): return pos + j
                pos = pos + len(c)
            else:
                if c.certain(is_)[0] is not False: raise Unsupported('index in an unknown sequence')
                pos = SInt(z3.simplify(c.n)) + pos
        e = ValueError('not in sequence'); e.vc_real = True
        raise e
    def count(self, *a): raise Unsupported('count in an unknown sequence')


class AKeys:
    """dict.fromkeys of an unknown sequence: its elements, each once, in order of their first occurrence, then the keys put in later"""
    __vc_sym__ = True
    def __init__(self, src): self.src, self.more = src, []
    def __vc_isinstance__(self, t): return t is dict or isinstance(t, tuple) and dict in t
    def __vc_type__(self): return dict
    def __vc_contains__(self, y):
        from .hooks import HOOKS
        return any(x is y or truth(HOOKS.eq(x, y)) for x in self.more) or self.src.__vc_contains__(y)
    def __setitem__(self, k, v):
        if not self.__vc_contains__(k): self.more.append(k)
    def setdefault(self, k, v=None): self[k] = v
    def keys(self): return self.whole()
    def whole(self, kind=list):
        if not hasattr(self, 'chunk'):
            n = cur().fresh('distinct', z3.IntSort())
            t = self.src.__vc_len__()
            t = t.t if isinstance(t, SInt) else z3.IntVal(t)
            cur().add(z3.And(n >= 0, n <= t, (n > 0) == (t > 0)))
            self.chunk = AbsChunk(cur_name('distinct'), lambda nm: self.src.member(), None, n)
            self.chunk.distinct = self.src
            cs = [c for c in self.src.chunks if isinstance(c, AbsChunk)]
            if cs and all(hasattr(c, 'key_map') for c in cs):
                # what is made of each of the keys is made of each element of the sequences they come from
                def on_map(chunk, f, cond):
                    out = []
                    for c in self.src.chunks: out += [f(x) for x in c if cond is None or cond(x)] if isinstance(c, list) else c.key_map(c, f, cond)
                    return out
                self.chunk.on_map = on_map
        return (AList if kind is list else ASeq)([self.chunk, list(self.more)])
    def __vc_tolist__(self): return self.whole(list)
    def __vc_totuple__(self): return self.whole(tuple)
    def __vc_iter__(self): return self.whole(tuple)
    def __iter__(self): raise Unsupported('iteration over an unknown dictionary')
    def __vc_loop__(self): return self.whole(tuple).__vc_loop__()
    def __vc_len__(self): return self.whole().__vc_len__()
    def __vc_comp__(self, kind, f, cond): return self.whole(tuple).__vc_comp__(kind, f, cond)
    def __bool__(self): return bool(self.more) or bool(self.src)
    def __getattr__(self, n):
        if n.startswith('__vc') or n == 'chunk': raise AttributeError(n)
        raise Unsupported(f'dict.{n} of unknown keys')


def cur_name(base): return f'{base}{next(cur().fresh_n)}'


def flatten(parts, kind):
    out = []
    for r in parts:
        r = r.whole() if hasattr(r, 'whole') else r
        out += ASeq.of(r, list).chunks
    r = (AList if kind == 'list' else ASeq)(out)
    return r if not r.concrete() else [x for c in r.chunks for x in c] if kind == 'list' else iter([x for c in r.chunks for x in c])


class AList(ASeq):
    def __init__(self, chunks=()): super().__init__(chunks, list)
    def append(self, x):
        if self.chunks and isinstance(self.chunks[-1], list): self.chunks[-1] = self.chunks[-1] + [x]
        else: self.chunks.append([x])
    def extend(self, xs):
        self.chunks = ASeq(self.chunks + ASeq.of(xs).chunks).chunks
    def __iadd__(self, xs):
        self.extend(xs)
        return self
    def pop(self, k=-1):
        x = self[k]
        if k not in (0, -1): raise Unsupported('pop')
        self.chunks[k] = self.chunks[k][1:] if k == 0 else self.chunks[k][:-1]
        if not self.chunks[k]: self.chunks.pop(k)
        return x
    def __setitem__(self, k, v):
        if k not in (0, -1): raise Unsupported('assignment into an unknown sequence')
        self[k]
        c = list(self.chunks[k]); c[k] = v
        self.chunks[k] = c
    def insert(self, i, x):
        if i != 0: raise Unsupported('insert')
        self.chunks = ASeq([[x]] + self.chunks).chunks
    def copy(self): return AList(self.chunks)


class Scan:
    """the invariant of a loop which only looks at the elements: a path leaves it from an arbitrary element, or none does"""
    def enter(self, loop, env): pass
    def havoc(self, loop, env, stage): return {}
    def close(self, loop, env, elem): pass


class ISeq:
    """a sequence of any length whose element at each index is known as a function of the index; n None: without end"""
    __vc_sym__ = True
    def __init__(self, n, at, kind=list, fold=None):
        self.n, self.at, self.kind, self.fold = n, at, kind, fold

    @staticmethod
    def of(x):
        """x as such a sequence: its own iterator says so"""
        if isinstance(x, ISeq): return x
        if isinstance(x, (list, tuple, str)): return None
        f = getattr(type(x), '__iter__', None)
        if f is None or not type(x).__module__.startswith('mccode_antlr'): return None
        r = f(x)
        return r if isinstance(r, ISeq) else None

    def __vc_len__(self):
        if self.n is None: raise Unsupported('length of an endless sequence')
        return SInt(self.n) if not isinstance(self.n, int) else self.n
    def __len__(self): raise Unsupported('length of an unknown sequence')
    def __bool__(self): return self.n is None or truth(SBool(self.n > 0))
    def __vc_isinstance__(self, t):
        ts = t if isinstance(t, tuple) else (t,)
        return self.kind in ts or object in ts or ISeq in ts
    def __vc_type__(self): return self.kind
    def __vc_hasattr__(self, n): return hasattr(self.kind, n)
    def __vc_tolist__(self): return ISeq(self.n, self.at, list, self.fold)
    def __vc_totuple__(self): return ISeq(self.n, self.at, tuple, self.fold)
    def __vc_iter__(self): return self
    def __iter__(self): return ISeqIt(self)
    def __getitem__(self, k):
        if isinstance(k, slice): raise Unsupported('slice of an unknown sequence')
        t = k.t if isinstance(k, SInt) else z3.IntVal(k)
        if truth(SBool(z3.And(t >= 0, t < self.n))): return self.at(SInt(t))
        if truth(SBool(z3.And(t < 0, t >= -self.n))): return self.at(SInt(t + self.n))
        e = IndexError('index out of range'); e.vc_real = True
        raise e
    def __vc_enumerate__(self, start=0): return ISeq(self.n, lambda k: (k + start, self.at(k)), self.kind, self.fold)
    def __vc_comp__(self, kind, f, cond):
        if cond is not None: raise Unsupported('a filtered sequence')
        return ISeq(self.n, lambda k: f(self.at(k)), list, self.fold)
    @staticmethod
    def __vc_zip__(xs):
        ss = [ISeq.of(x) for x in xs]
        if any(s is None for s in ss):
            # concrete pieces among them: as long as the shortest of these
            if any(s is not None and s.n is None for s in ss) or not any(isinstance(x, (list, tuple)) for x in xs): raise Unsupported('zip')
            k = min(len(x) for x, s in zip(xs, ss) if s is None)
            ss = [s if s is not None else ISeq(k, lambda i, x=x: x[i] if isinstance(i, int) else pick(x, i)) for x, s in zip(xs, ss)]
        n = None
        for s in ss:
            if s.n is None: continue
            t = z3.IntVal(s.n) if isinstance(s.n, int) else s.n
            n = t if n is None else z3.If(t < n, t, n)
        return ISeq(n if n is None else z3.simplify(n), lambda k: tuple(s.at(k) for s in ss), list, next((s.fold for s in ss if s.fold), None))
    def __vc_loop__(self):
        def el(nm):
            i = cur().fresh('index', z3.IntSort())
            cur().add(z3.And(i >= 0, *([] if self.n is None else [i < self.n])))
            return self.at(SInt(i))
        if self.n is None: raise Unsupported('a loop over an endless sequence')
        return CutLoop([AbsChunk(f'indexed{next(cur().fresh_n)}', el, self.fold, self.n)])


def pick(x, i):
    for k in range(len(x) - 1):
        if truth(SBool(i.t == k)): return x[k]
    return x[-1]


class ISeqIt:
    def __init__(self, s): self.s, self.k = s, 0
    def __iter__(self): return self
    def __next__(self):
        if self.s.n is not None and not truth(SBool(self.s.n > self.k) if not isinstance(self.s.n, int) else self.s.n > self.k): raise StopIteration
        self.k += 1
        if self.k > cur().ex.unroll:
            cur().ex.bounds.add(f'iteration unrolled {cur().ex.unroll} times')
            raise PathEnd()
        return self.s.at(SInt(z3.IntVal(self.k - 1)))


# ------------------------------------------------------------------ the loop rule
class Loop:
    """an ordinary loop"""
    cut = False
    def __init__(self, it): self.it = it
    def __iter__(self): return iter(self.it)


class CutLoop:
    cut = True
    def __init__(self, chunks):
        self.pieces = [c for c in chunks]
        self.i, self.state, self.queue = 0, 'start', []
        self.new = {}
    def __iter__(self): return self

    def __next__(self):
        env = sys._getframe(1).f_locals
        if self.state == 'in':
            self.frame_check(env)
            self.handler.close(self, env, self.elem)
            raise PathEnd()
        if self.queue: return self.queue.pop(0)
        while self.i < len(self.pieces):
            c = self.pieces[self.i]; self.i += 1
            if isinstance(c, list):
                self.queue = list(c)
                if self.queue: return self.queue.pop(0)
                continue
            h = c.fold
            if h is None: raise Unsupported('a loop over an unknown sequence without an invariant')
            whole(self.pieces, self.i - 1)
            # values carried into this chunk (after an earlier chunk they are still to be assigned)
            env = {**env, **{k: v for k, v in self.new.items()}}
            self.handler = h
            self.chunk = c
            if cur().choose(2) == 0:
                h.enter(self, env)
                self.elem = c.some()
                self.state, self.stage = 'in', 'iter'
                self.env0 = env
                self.pending = h.havoc(self, env, 'iter')
                return self.elem
            h.enter(self, env)
            self.new.update(h.havoc(self, env, 'exit'))
            self.stage = 'exit'
        raise StopIteration

    def havoc(self, env):
        """called at the top of the body and after the loop: the values to assign"""
        if self.state == 'in':
            self.new = self.pending
            self.before = snapshot({k: v for k, v in env.items() if k not in self.new})
        new, self.out = self.new, self.new
        if self.state != 'in': self.new = {}
        return new

    def frame_check(self, env):
        b = self.before
        for k, (v, s) in b.items():
            if k not in env or env[k] is not v:
                if k in self.targets: continue
                raise Unsupported(f'the loop changes {k}, which its invariant does not mention')
            if s is not None and fingerprint(v) != s: raise Unsupported(f'the loop changes what {k} refers to, which its invariant does not mention')

    targets = ()


class Scratch:
    """the value of a variable which only the body of a cut loop uses: every use before it is assigned again is refused"""
    def _no(self, *a, **k): raise Unsupported('the loop uses a variable from an earlier iteration, which its invariant does not mention')
    __bool__ = __iter__ = __len__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __call__ = __str__ = __getitem__ = __contains__ = __int__ = __float__ = __neg__ = __truediv__ = __rtruediv__ = __and__ = __rand__ = __or__ = __ror__ = _no
    __hash__ = None
    def __getattr__(self, n):
        if n.startswith('__vc_'): raise AttributeError(n)
        self._no()


def scratch(loop): return {k: Scratch() for k in loop.stored}


def fingerprint(v, depth=4, seen=None):
    """the identities of what is reachable through plain containers and objects of the package"""
    seen = {} if seen is None else seen
    if depth == 0 or id(v) in seen or is_sym(v) or isinstance(v, (str, int, float, bool, type(None), type, z3.ExprRef)): return id(v) if not isinstance(v, (str, int, float)) else v
    seen[id(v)] = v
    if isinstance(v, ASeq):
        return (id(v), tuple(fingerprint(c, depth - 1, seen) if isinstance(c, list) else id(c) for c in v.chunks)) if isinstance(v, AList) else id(v)
    if getattr(v, '__vc_sym__', False) and not hasattr(v, '__vc_entries__'): return id(v)
    if isinstance(v, (list, tuple)): return (id(v) if isinstance(v, list) else 0, *[fingerprint(x, depth - 1, seen) for x in v])
    if isinstance(v, dict): return (id(v), *[(fingerprint(k, 1, seen), fingerprint(x, depth - 1, seen)) for k, x in v.items()])
    if isinstance(v, (set, frozenset)): return (id(v), *sorted(map(id, v)))
    if type(v).__module__.startswith('mccode_antlr') and hasattr(v, '__dict__') and not callable(v):
        if id(v) in GHOST: return id(v)
        return (id(v), *[(k, fingerprint(x, depth - 1, seen)) for k, x in sorted(v.__dict__.items()) if not k.startswith('vc_')])
    return id(v)


GHOST = set()


def snapshot(env): return {k: (v, fingerprint(v)) for k, v in env.items() if not k.startswith('_vc')}
