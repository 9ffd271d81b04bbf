"""Sequences of any length in harnesses: pieces are chunks of arbitrary elements (symbolic) or short lists (concrete)."""


def some(vc, name, make, fact=None, fold=None, most=3):
    """a piece: any number of elements made by make(name), each of which satisfies fact"""
    if vc.sym:
        from vc.seqs import AbsChunk, Scan
        c = AbsChunk(name, make, fold or Scan())
        c.probe = True
        if fact is not None: c.forall(fact)
        return c
    out = [make(f'{name}{i}') for i in range(vc.size(f'{name}.n', 0, most))]
    if fact is not None:
        for x in out: vc.assume(fact(x))
    return out


def seq(pieces, kind=tuple):
    if any(not isinstance(p, (list, tuple)) for p in pieces):
        from vc.seqs import ASeq, AList
        return (AList if kind is list else ASeq)([p if not isinstance(p, tuple) else list(p) for p in pieces])
    return kind(x for p in pieces for x in p)


def pieces_of(s):
    """the pieces of a sequence, neighbouring lists joined, what is certainly empty left out"""
    from vc.seqs import ASeq
    def empty(c):
        import z3
        from vc.core import cur
        return cur().check(c.n > 0) == z3.unsat
    cs = s.chunks if isinstance(s, ASeq) else [list(s)]
    out = []
    for c in cs:
        if not isinstance(c, (list, tuple)):
            if not empty(c): out.append(c)
        elif c:
            if out and isinstance(out[-1], list): out[-1] = out[-1] + list(c)
            else: out.append(list(c))
    return out


def same(s, pieces, is_same=lambda a, b: a is b):
    """the sequence has exactly these pieces, in order"""
    from vc.seqs import ASeq
    a, b = pieces_of(s), pieces_of(ASeq([list(p) if isinstance(p, tuple) else p for p in pieces]))
    if len(a) != len(b): return False
    for x, y in zip(a, b):
        if isinstance(x, list) != isinstance(y, list): return False
        if not isinstance(x, list):
            if x is not y: return False
        elif len(x) != len(y) or not all(is_same(p, q) for p, q in zip(x, y)): return False
    return True
