"""D01: compiling: the compiler, the flags of the target and the flags the components depend on."""
from vc.api import harness, Discard
from props.seqlib import some, seq, same, pieces_of
from props.i01 import instr, Named, rest
from props.i02 import Token

N = 'src/mccode_antlr/instr/instr.py Instr.'
B = 'src/mccode_antlr/compiler/c.py '
KEYS = ('ENV', 'GETPATH', 'CMD')
FREE = 'ENVGTPAHCMD()'


# ------------------------------------------------------------------ flags of an instrument
@harness('D01', 'unique_flags: each flag once, in order of first statement', [N + 'unique_flags'], bounded='up to 5 flags, up to 3 components')
def h_unique(vc):
    F = ('-la', '-lb', '-lc -ld')
    fl = [vc.choice(f'f{k}', F) for k in range(vc.size('n', 0, 5 if not vc.sym else 4))]
    cs = []
    for k in range(vc.size('components', 0, 3 if not vc.sym else 2)):
        cs.append(Named(f'c{k}'))
        cs[-1].cpu = vc.choice(f'cpu{k}', (False, True))
    x = instr(flags=tuple(fl), components=tuple(cs))
    o = vc.run(lambda: x.unique_flags)
    vc.check(not o.raised, 'the flags are known', o)
    got = list(o.value)
    vc.check(sorted(got) == sorted(set(fl) | ({'-DFUNNEL'} if any(c.cpu for c in cs) else set())), 'each flag once, and -DFUNNEL exactly if a component runs on the CPU', lambda: (got, fl))
    if '-DFUNNEL' in got: got.remove('-DFUNNEL')
    vc.check(got == list(dict.fromkeys(fl)), 'flags keep their order (that of libraries matters for linking)', lambda: (got, fl))


@harness('D01', 'unique_flags: -DFUNNEL for any component which runs on the CPU', [N + 'unique_flags'])
def h_funnel(vc):
    make = lambda n: Token(n)
    def comp(n):
        c = Named(n)
        c.cpu = vc.bool(n + '.cpu')
        return c
    where = vc.choice('cpu', (False, True))
    off = lambda c: vc.not_(c.cpu)
    w = comp('it')
    vc.assume(vc.iff(w.cpu, where))
    x = instr(flags=('-la', '-lb', '-la'), components=seq([some(vc, 'before', comp, off), [w], some(vc, 'behind', comp)] if where else [some(vc, 'before', comp, off), [w]]))
    o = vc.run(lambda: x.unique_flags)
    vc.check(not o.raised and sorted(o.value) == sorted(['-la', '-lb'] + (['-DFUNNEL'] if where else [])), '-DFUNNEL exactly if a component runs on the CPU', o)


@harness('D01', 'unique_flags: any number of flags', [N + 'unique_flags'])
def h_unique_any(vc):
    """dict.fromkeys by contract (each element once, in order of its first occurrence)"""
    def comp(n):
        c = Named(n)
        c.cpu = vc.bool(n + '.cpu')
        return c
    POOL = ('lfoo', 'lbar', 'FUNNEL')
    flags = some(vc, 'flags', lambda n: vc.ident(n, POOL), lambda f: vc.not_(f == '-DFUNNEL'))
    cs = some(vc, 'components', comp)
    there = vc.choice('there', (False, True))
    x = instr(flags=seq([flags, ['-DFUNNEL'] if there else []]), components=seq([cs]))
    o = vc.run(lambda: x.unique_flags)
    vc.check(not o.raised, 'the flags are known', o)
    label = 'each flag once, in order, and -DFUNNEL behind them if a component runs on the CPU'
    if not vc.sym:
        want = list(dict.fromkeys(flags))
        return vc.check(list(o.value) == want + (['-DFUNNEL'] if there or any(c.cpu for c in cs) else []), label, lambda: o.value)
    got = pieces_of(o.value)
    if got and not isinstance(got[0], list):
        src = getattr(got[0], 'distinct', None)
        vc.check(src is not None, label, lambda: got)
        vc.check(same(src, [flags, ['-DFUNNEL'] if there else []], lambda p, q: p == q), label, lambda: got)
        got = got[1:]
    else: vc.check(not there and same(seq([flags]), []), label, lambda: got)
    vc.check(got in ([], [['-DFUNNEL']]), label, lambda: got)
    if there: vc.check(got == [], label, lambda: got)
    elif got == []: vc.check(vc.not_(cs.some().cpu), label, lambda: got)
    else: vc.check(vc.or_(False, *[c.cpu for c in cs.known]), label, lambda: got)


@harness('D01', 'ENV, GETPATH and CMD are replaced by what they stand for', [N + '_replace_env_getpath_cmd'], bounded='up to 2 directives, of any text', max_paths=20000)
def h_replace(vc):
    import os, subprocess
    x = instr()
    n = vc.choice('n', (0, 1, 2))
    text, want, asked = vc.text('t0', excl=FREE, pool=('-I', '-lfoo ', ' ')), [], []
    kinds, args, outs, pieces = [], [], [], [text]
    nl = vc.choice('newline', ('', '\n'))
    for k in range(n):
        key = vc.choice(f'key{k}', KEYS)
        a = vc.text(f'a{k}', excl=FREE, pool=('HOME', 'xlib', 'f.h'))
        for b in args: vc.assume(vc.not_(a == b))
        t = vc.text(f't{k + 1}', excl=FREE, pool=(' -lx', ''))
        r = vc.text(f'r{k}', excl=FREE + ' \n\t\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029', nonempty=True, pool=('/usr/lib', 'val'))
        kinds.append(key); args.append(a); outs.append(r); pieces += [r, t]
        text = text + key + '(' + a + ')' + t
    def answer(key, a):
        for q, b, r in zip(kinds, args, outs):
            if q == key and vc.eq(a, b): return r
        asked.append((key, a))
        return 'unknown'
    class Env:
        def get(self, k, d=None): return answer('ENV', k)
        def __getitem__(self, k): return answer('ENV', k)
    class Path:
        def __init__(self, n): self.n = n
        def as_posix(self): return answer('GETPATH', self.n)
    class Proc:
        def __init__(self, a): self.stdout = answer('CMD', a) + nl
    def run(cmd, *a, **k):
        if not k.get('shell'): raise RuntimeError('not a shell command')
        return Proc(cmd)
    x._getpath = lambda n: Path(n)
    keep = os.environ, subprocess.run
    os.environ, subprocess.run = Env(), run
    try: o = vc.run(x._replace_env_getpath_cmd, text)
    finally: os.environ, subprocess.run = keep
    vc.check(not o.raised, 'flags can be read', o)
    out = pieces[0]
    for p in pieces[1:]: out = out + p
    vc.check(asked == [] and vc.eq(o.value, out), 'each is replaced by what it stands for, everything else stays', lambda: (o, out, asked))


@harness('D01', 'CMD must give one line; GETPATH finds files in the registries', [N + '_replace_env_getpath_cmd', N + '_getpath'], bounded='up to 3 registries')
def h_cmd(vc):
    import subprocess
    from pathlib import PurePosixPath, Path
    x = instr()
    lines = vc.choice('lines', ([], ['a'], ['', 'a', '  '], ['a', 'b']))
    fail = vc.choice('fails', (0, 1, -9))
    class P:
        stdout, returncode = '\n'.join(lines), fail
        def check_returncode(self):
            if fail: raise subprocess.CalledProcessError(fail, '')
    def run(cmd, check=False, **k):
        if fail and check: raise subprocess.CalledProcessError(fail, cmd)
        return P()
    keep, subprocess.run = subprocess.run, run
    try: o = vc.run(x._replace_env_getpath_cmd, '-I CMD(what) -l')
    finally: subprocess.run = keep
    ls = [l for l in lines if l.strip()]
    if fail or len(ls) > 1: vc.check(o.raised, 'a command which fails, or gives more than one line, is an error', o)
    else: vc.check(not o.raised and o.value == f'-I {"".join(ls)} -l', 'a command stands for the line it gives', o)
    regs = []
    for k in range(vc.size('registries', 0, 3)):
        class R:
            there = vc.choice(f'known{k}', (False, True))
            where = f'/registry{k}'
            def known(self, n): return self.there
            def path(self, n): return Path(self.where) / n
        regs.append(R())
    x.registries = tuple(regs)
    o = vc.run(x._getpath, 'lib/x.h')
    first = next((r for r in regs if r.there), None)
    vc.check(not o.raised and str(o.value) == (f'{first.where}/lib/x.h' if first else '.'), 'a file is that of the first registry which has it', o)
    bad = vc.choice('bad', ('ENV HOME', 'CMD(x', 'GETPATH(a ENV'))
    o = vc.run(x._replace_env_getpath_cmd, '-l' + bad)
    vc.check(o.raised, 'what is not closed is an error', o)


@harness('D01', 'GETPATH: any number of registries', [N + '_getpath'])
def h_getpath_any(vc):
    from pathlib import Path
    class R:
        def __init__(self, n): self.n, self.there, self.asked = n, vc.bool(n + '.knows'), []
        def known(self, name):
            self.asked.append(name)
            return self.there
        def path(self, name): return Path('/' + self.n.replace(' ', '')) / name
    before, it, behind = some(vc, 'before', R, lambda r: vc.not_(r.there)), R('it'), some(vc, 'behind', R)
    x = instr(registries=seq([before, [it], behind] if vc.choice('known', (False, True)) else [before]))
    known = not isinstance(x.registries, tuple) and len(x.registries.chunks) == 3 or isinstance(x.registries, tuple) and it in x.registries
    if known: vc.assume(it.there)
    o = vc.run(x._getpath, 'lib/x.h')
    vc.check(not o.raised and str(o.value) == ('/it/lib/x.h' if known else '.'), 'a file is that of the first registry which has it', o)
    if known: vc.check(it.asked == ['lib/x.h'], 'registries are asked for the file', it.asked)


class Conf:
    """configuration: nested values"""
    def __init__(self, v): self.v = v
    def __getitem__(self, k): return Conf(self.v[k])
    def __contains__(self, k): return isinstance(self.v, dict) and k in self.v
    def as_str_expanded(self): return self.v
    def as_str(self): return self.v
    def get(self, *a): return self.v
    def exists(self): return self.v is not None


def with_config(v, f):
    import mccode_antlr.config as c
    keep, c.config = c.config, Conf(v)
    try: return f()
    finally: c.config = keep


@harness('D01', 'keywords in flags', [N + '_replace_keywords'], sym=False)
def h_keywords(vc):
    x = instr()
    import io, contextlib
    conf = {'flags': {'nexus': '-DUSE_NEXUS -lNeXus', 'gsl': vc.choice('gsl', ('-lgsl -lgslcblas', '-L/x/y -lgsl', '-LC:\\new -lgsl')), 'cc': '-O2'}}
    W = {'@NEXUSFLAGS@': conf['flags']['nexus'], '@MCCODE_LIB@': '.', '@GSLFLAGS@': conf['flags']['gsl'], '@gslflags@': conf['flags']['gsl'], '@CCFLAGS@': '-O2', '@FOOFLAGS@': '-lfoo', '@unknown@': '@unknown@', '-I': '-I', ' ': ' ', '-lm': '-lm', '/share': '/share'}
    n = vc.size('n', 0, 5)
    ks = [vc.choice(f'w{k}', tuple(W)) for k in range(n)]
    text, want = '', ''
    for k in ks:
        text += k + ' '
        want += W[k] + ' '
    with contextlib.redirect_stdout(io.StringIO()): o = with_config(conf, lambda: vc.run(x._replace_keywords, text))
    vc.check(not o.raised and o.value == want, 'each keyword is replaced by the flags it stands for, everything else stays', lambda: (text, want, o))


@harness('D01', 'decoded_flags: keywords, then directives, of each flag', [N + 'decoded_flags'])
def h_decoded(vc):
    i = __import__('mccode_antlr.instr.instr', fromlist=['x'])
    it = Token('it')
    fl = seq([some(vc, 'before', Token), [it], some(vc, 'behind', Token)], list)
    class I(i.Instr):
        unique_flags = fl
        def _replace_keywords(self, f): return 'k', f
        def _replace_env_getpath_cmd(self, f): return 'd', f
    x = object.__new__(I)
    x.components, x.flags = (), ('it',)
    o = vc.run(x.decoded_flags)
    vc.check(not o.raised, 'the flags can be decoded', o)
    if vc.sym:
        got = pieces_of(o.value)
        vc.check([len(p) for p in got if isinstance(p, list)] == [1], 'as many flags as there are')
        k = [n for n, p in enumerate(got) if isinstance(p, list)][0]
        vc.check(k == len(got) - k - 1 and got[k][0][0] == 'd' and got[k][0][1][0] == 'k' and got[k][0][1][1] is it, 'each flag is decoded, keywords first')
    else: vc.check(list(o.value) == [('d', ('k', f)) for f in fl], 'each flag is decoded, keywords first, in order', o)


# ------------------------------------------------------------------ the target
CONFIG = {'cc': 'gcc', 'acc': 'nvc', 'ext': '.out', 'machinefile': None, 'mpi': {'cc': 'mpicc', 'run': 'mpirun'},
          'flags': {'cc': '-cc1 -cc2', 'acc': '-acc1 -acc2', 'ld': '-lm -lx', 'mpi': '-mpi1 -mpi2', 'nexus': '-nx1 -nx2'}}


def target(vc, c, name='target'):
    k = {n: vc.choice(f'{name}.{n}', (False, True)) for n in ('mpi', 'acc', 'nexus')}
    return c.CBinaryTarget(count=vc.int(name + '.count', 0, 8), **k), k


@harness('D01', 'targets: compiler and flags', [B + 'CBinaryTarget.' + n for n in ('__init__', 'update', 'compiler', 'flags', 'linker_flags', 'extra_flags')])
def h_target(vc):
    import mccode_antlr.compiler.c as c
    t, k = target(vc, c)
    count = t.count
    if vc.choice('update', (False, True)):
        d = {n: vc.choice('new ' + n, (False, True)) for n in ('mpi', 'acc', 'nexus') if vc.choice('set ' + n, (False, True))}
        n = vc.int('new count', 0, 8)
        if vc.choice('set count', (False, True)):
            d['count'] = n
            count = n
        o = vc.run(t.update, d)
        vc.check(not o.raised, 'a target can be changed', o)
        k.update({n: d[n] for n in ('mpi', 'acc', 'nexus') if n in d})
    T = c.CBinaryTarget.Type
    vc.check(vc.num_eq(t.count, count), 'the number of processes is that which is stated')
    for n, b in (('mpi', T.mpi), ('acc', T.acc), ('nexus', T.nexus)): vc.check(bool(t.type & b) is k[n], f'{n} is as stated', lambda: (t.type, k))
    vc.check(bool(t.type & T.single) is not (k['mpi'] or k['acc']), 'neither MPI nor OpenACC is single')
    o = with_config(CONFIG, lambda: [vc.run(lambda: getattr(t, n)) for n in ('compiler', 'flags', 'linker_flags', 'extra_flags')])
    vc.check(o[0].value == ('nvc' if k['acc'] else 'mpicc' if k['mpi'] else 'gcc'), 'the compiler is that of the target', o[0])
    vc.check(o[1].value == (['-acc1', '-acc2'] if k['acc'] else ['-cc1', '-cc2']), 'the flags are those of the compiler', o[1])
    vc.check(o[2].value == ['-lm', '-lx'], 'the linker flags are those of the configuration', o[2])
    vc.check(o[3].value == (['-mpi1', '-mpi2'] if k['mpi'] else []) + (['-nx1', '-nx2'] if k['nexus'] else []), 'MPI and NeXus add their flags', o[3])


def decoded(fl): return type('I', (), {'decoded_flags': lambda self: list(fl), 'name': 'thing'})()


@harness('D01', 'linux: flags of the target, then those of the components, and the command', [B + 'linux_split_flags', B + 'linux_compile'], bounded='up to 3 flags')
def h_linux(vc):
    import mccode_antlr.compiler.c as c, subprocess
    t, k = target(vc, c)
    fl = [vc.choice(f'f{j}', ('-lfoo -L/x', '  -lbar ', '-DNeXus', '')) for j in range(vc.size('n', 0, 3))]
    openacc, nexus = vc.choice('OpenACC flag', (False, True)), vc.choice('NeXus flag', (False, True))
    config = {**CONFIG, 'flags': {**CONFIG['flags'], **({'acc': '-acc1 -DOPENACC'} if openacc else {}), **({'nexus': '-nx1 -lNeXus'} if nexus else {})}}
    o = with_config(config, lambda: vc.run(c.linux_split_flags, decoded(fl), t))
    vc.check(not o.raised, 'the flags are known', o)
    cf, lf = o.value
    want = (['-acc1', '-DOPENACC' if openacc else '-acc2'] if k['acc'] else ['-cc1', '-cc2']) + (['-mpi1', '-mpi2'] if k['mpi'] else []) + (['-nx1', '-lNeXus' if nexus else '-nx2'] if k['nexus'] else [])
    vc.check([f for f in cf if f != '-D__GNUC__'] == want, 'the compiler has the flags of the target', lambda: (cf, want))
    vc.check(cf.count('-D__GNUC__') == (openacc and nexus and k['acc'] and k['nexus']), 'NeXus with OpenACC is compiled as for GNU C, nothing else', lambda: cf)
    vc.check(lf == ['-lm', '-lx'] + [w for f in fl for w in f.split()], 'the linker has its flags, then the words of those of the components', lambda: lf)
    calls = []
    keep, subprocess.run = subprocess.run, lambda cmd, **kw: calls.append((cmd, kw)) or 'result'
    try: o = vc.run(c.linux_compile, 'gcc', cf, 'dir/thing.out', lf, 'the source')
    finally: subprocess.run = keep
    vc.check(not o.raised and o.value[1] == 'result' and len(calls) == 1 and calls[0][0] == o.value[0] == ['gcc', *cf, '-o', 'dir/thing.out', '-', *lf], 'the source is compiled with these flags, libraries behind it', lambda: (o, calls))
    vc.check(calls[0][1].get('input') == 'the source' and calls[0][1].get('text'), 'the source is that which is given', lambda: calls)


@harness('D01', 'linux: the words of all flags of the components, in order', [B + 'linux_split_flags'])
def h_linux_any(vc):
    """any number of flags, each of any number of words; those of the target by contract"""
    import mccode_antlr.compiler.c as c
    own = some(vc, 'linker', Token, most=2)
    class Target:
        flags, extra_flags = property(lambda self: ['-cc1', '-cc2']), property(lambda self: ['-mpi1', '-mpi2'])
        linker_flags = property(lambda self: seq([own], list))
    class Flag:
        """a text which has any words"""
        def __init__(self, n): self.words = [some(vc, n + ' words', Token, most=2)]
        def split(self, *a): return seq(self.words, list)
    many, one, more = some(vc, 'many', Flag, most=2), Flag('one'), some(vc, 'more', Flag, most=2)
    instrument = type('I', (), {'decoded_flags': lambda self: seq([many, [one], more], list), 'name': 'thing'})()
    o = vc.run(c.linux_split_flags, instrument, Target())
    vc.check(not o.raised, 'the flags are known', o)
    cf, lf = o.value
    vc.check(cf == ['-cc1', '-cc2', '-mpi1', '-mpi2'], 'the compiler has the flags of the target', lambda: cf)
    label = 'the linker has its flags, then the words of those of the components'
    if vc.sym:
        got = pieces_of(lf)
        vc.check(len(got) == 4 and got[0] is own and getattr(got[1], 'of', None) is many and got[2] is one.words[0] and getattr(got[3], 'of', None) is more, label, lambda: got)
        for g in (got[1], got[3]): vc.check(isinstance(g.some(), Token), label, lambda: got)
    else: vc.check(lf == own + [w for f in (*many, one, *more) for p in f.words for w in p], label, lambda: lf)


@harness('D01', 'windows: which flags are for the compiler', [B + 'windows_split_flags'], bounded='up to 3 flags')
def h_windows(vc):
    import mccode_antlr.compiler.c as c
    t, k = target(vc, c)
    COMP = {'-DUSE_X': '-DUSE_X', '/DUSE_Y=1': '/DUSE_Y=1', '-std=c99': '-std:c99', '-UFOO': '-UFOO'}
    LINK = ('/DYNAMICBASE', '-lfoo', 'foo.lib', '/LIBPATH:x', 'plain', '-pthread')
    fl = [vc.choice(f'f{j}', tuple(COMP) + LINK) for j in range(vc.size('n', 0, 3 if not vc.sym else 2))]
    o = with_config(CONFIG, lambda: vc.run(c.windows_split_flags, decoded([f' {f} ' for f in fl]), t))
    vc.check(not o.raised, 'the flags are known', o)
    cf, lf = o.value
    base = (['-acc1', '-acc2'] if k['acc'] else ['-cc1', '-cc2']) + (['-mpi1', '-mpi2'] if k['mpi'] else []) + (['-nx1', '-nx2'] if k['nexus'] else [])
    vc.check(cf == base + [COMP[f] for f in fl if f in COMP], 'definitions and the standard are for the compiler', lambda: (fl, cf))
    vc.check(lf == ['-lm', '-lx'] + [f for f in fl if f in LINK], 'everything else is for the linker', lambda: (fl, lf))


# ------------------------------------------------------------------ compiling
@harness('D01', 'compiling an instrument', [B + '_compile_instrument', B + 'instrument_source', B + 'compile_instrument'])
def h_compile(vc):
    import mccode_antlr.compiler.c as c, os, platform
    t, k = target(vc, c)
    there = vc.choice('binary', ('none', 'old'))
    replace = vc.choice('replace', (False, True))
    code = vc.choice('compiler', ('works', 'fails', 'makes nothing'))
    how = vc.choice('output', ('none', 'directory', 'file', 'text'))
    bad = vc.int('code', -64, 255, (1, -9))  # negative: ended by a signal
    vc.assume(bad != 0)
    log = []
    state = {'exists': there == 'old'}
    class Out:
        """a path: a directory or the binary"""
        def __init__(self, n, d=False): self.n, self.d = n, d
        def is_dir(self): return self.d
        def joinpath(self, n): return Out(self.n + '/' + n)
        def with_suffix(self, s): return Out(self.n + s)
        def exists(self): return state['exists']
        def __fspath__(self): return self.n
        def __str__(self): return self.n
    class Res:
        returncode = bad if code == 'fails' else 0
        stdout, stderr = vc.choice('what it says', (('some output', 'some error'), (b'some output', b''), ('', '')))
    def compiler(cmp, cf, tgt, lf, src):
        log.append((cmp, cf, str(tgt), lf, src))
        if code == 'works': state['exists'] = True
        return ['cmd'], Res
    saved = {n: getattr(c, n) for n in ('Path', 'linux_compile', 'linux_split_flags', 'windows_compile', 'windows_split_flags', 'CTargetVisitor')}
    seen = []
    class Visitor:
        def __init__(self, ins, generate=None, config=None, verbose=False): seen.append((ins, generate, config))
        def contents(self): return 'generated source'
    acc, system = os.access, platform.system
    isinst = {'none': None, 'directory': Out('dir', True), 'file': Out('b.out'), 'text': 'b.out'}[how]
    ins = decoded([])
    win = vc.choice('system', ('Linux', 'Windows')) == 'Windows'
    split = lambda i, t_: (['cflags'], ['lflags']) if i is ins and t_ is t else ([], [])
    never = lambda *a: log.append('the wrong system')
    c.CTargetVisitor = Visitor
    class Made(type):
        def __call__(cls, *a): return Out(str(a[0])) if a else Out('.', True)
        def __instancecheck__(cls, x): return isinstance(x, Out)
    class P(metaclass=Made): pass
    c.Path = P
    c.linux_compile, c.linux_split_flags = (never, never) if win else (compiler, split)
    c.windows_compile, c.windows_split_flags = (compiler, split) if win else (never, never)
    os.access, platform.system = lambda *a: True, lambda: 'Windows' if win else 'Linux'
    try: o = with_config(CONFIG, lambda: vc.run(c._compile_instrument, ins, t, isinst, replace, generator='gen', config={'x': 1}))
    finally:
        for n, v in saved.items(): setattr(c, n, v)
        os.access, platform.system = acc, system
    name = {'none': './thing.out', 'directory': 'dir/thing.out', 'file': 'b.out', 'text': 'b.out'}[how]
    if there == 'old' and not replace:
        vc.check(not o.raised and log == [] and str(o.value) == name, 'a binary which is there is kept', lambda: (o, log))
        return
    vc.check(len(log) == 1 and log[0][1:] == (['cflags'], name, ['lflags'], 'generated source'), 'the generated source is compiled once, with its flags', lambda: log)
    vc.check(log[0][0] == ('nvc' if k['acc'] else 'mpicc' if k['mpi'] else 'gcc'), 'by the compiler of the target', lambda: log)
    vc.check(seen == [(ins, 'gen', {'x': 1})], 'the source is that of the instrument', lambda: seen)
    if code == 'fails' or code == 'makes nothing' and there == 'none': vc.check(o.raised, 'a compiler which fails, or makes nothing, is an error', o)
    else: vc.check(not o.raised and str(o.value) == name, 'the binary is given', o)


@harness('D01', 'compile_instrument: by the check of its target', [B + 'compile_instrument'])
def h_dispatch(vc):
    import mccode_antlr.compiler.c as c
    t, k = target(vc, c)
    log = []
    keep = {n: getattr(c, n) for n in ('compile_acc_instrument', 'compile_mpi_instrument', 'compile_c_instrument')}
    for n in keep: setattr(c, n, lambda *a, n=n, **kw: log.append((n, a, kw)) or 'binary')
    out, rep, dump = Token('output'), vc.choice('replace', (False, True)), vc.choice('dump', (False, True))
    ins = Token('instrument')
    try: o = vc.run(c.compile_instrument, ins, t, out, rep, dump, generator='g', config={})
    finally:
        for n, v in keep.items(): setattr(c, n, v)
    want = 'compile_acc_instrument' if k['acc'] else 'compile_mpi_instrument' if k['mpi'] else 'compile_c_instrument'
    vc.check(not o.raised and o.value == 'binary' and len(log) == 1 and log[0][0] == want, 'a target needs its own compiler', lambda: (o, log))
    vc.check(log[0][1] == (ins, t, out, rep, dump) and log[0][2] == {'generator': 'g', 'config': {}}, 'with everything that is given', lambda: log)


@harness('D01', 'running a binary', [B + 'run_compiled_instrument'])
def h_run(vc):
    import mccode_antlr.compiler.c as c, subprocess
    t, k = target(vc, c)
    exists, dry, cap = (vc.choice(n, (False, True)) for n in ('exists', 'dry run', 'capture'))
    rc = vc.int('code', -64, 255, (0, 0, 1, -9, -11))  # negative: ended by a signal
    mf = vc.choice('machinefile', (None, 'hosts'))
    class Bin:
        def resolve(self): return self
        def exists(self): return exists
        def __str__(self): return '/abs/thing.out'
    calls = []
    class Res: returncode, stdout, stderr = rc, b'out', b'err'
    keep, subprocess.run = subprocess.run, lambda cmd, **kw: calls.append((cmd, kw)) or Res
    import io, contextlib
    try:
        with contextlib.redirect_stdout(io.StringIO()): o = with_config({**CONFIG, 'machinefile': mf}, lambda: vc.run(c.run_compiled_instrument, Bin(), t, '-n 100 par=1', capture=cap, dry_run=dry))
    finally: subprocess.run = keep
    if k['acc'] and k['mpi']:
        vc.check(o.raised and calls == [], 'several GPUs are not implemented', o)
        return
    if not exists:
        vc.check(o.raised and calls == [], 'a binary which does not exist cannot be run', o)
        return
    if dry:
        vc.check(not o.raised and calls == [] and o.value == '', 'a dry run runs nothing', o)
        return
    vc.check(len(calls) == 1 and calls[0][1].get('capture_output') is cap, 'the binary is run once', lambda: calls)
    cmd = calls[0][0]
    tail = ['/abs/thing.out', '-n', '100', 'par=1']
    vc.check(cmd[-4:] == tail, 'with the words of its options', lambda: cmd)
    head = cmd[:-4]
    if not k['mpi']: vc.check(head == [], 'directly', lambda: cmd)
    else:
        vc.check(head[:1] == ['mpirun'], 'by MPI', lambda: cmd)
        rest_ = head[1:]
        if mf:
            vc.check(rest_[-2:] == ['-machinefile', 'hosts'], 'on the machines of the file', lambda: cmd)
            rest_ = rest_[:-2]
        if len(rest_) == 0: vc.check(t.count == 0, 'with as many processes as stated', lambda: cmd)
        else: vc.check(len(rest_) == 2 and rest_[0] == '-np' and vc.eq(rest_[1], vc.str(t.count)), 'with as many processes as stated', lambda: cmd)
    vc.check(o.raised if rc != 0 else not o.raised, 'a run which fails is an error', o)
    if not o.raised: vc.check(o.value == (b'outerr' if cap else ''), 'what it writes is given if that is asked for', o)


K = 'src/mccode_antlr/compiler/check.py '


@harness('D01', 'only what a working compiler can compile is compiled', [K + 'compiled', K + 'gpu_only', K + 'mpi_only', B + 'compile_acc_instrument', B + 'compile_mpi_instrument', B + 'compile_c_instrument'])
def h_gate(vc):
    import mccode_antlr.compiler.c as c, mccode_antlr.compiler.check as ck
    works = {n: vc.choice(n, (False, True)) for n in ('cc', 'acc', 'mpi/cc')}
    which = vc.choice('which', ('compile_c_instrument', 'compile_acc_instrument', 'compile_mpi_instrument'))
    log = []
    keep = ck.simple_instr_compiles, c._compile_instrument
    ck.simple_instr_compiles, c._compile_instrument = lambda n: works[n], lambda *a, **k: log.append((a, k)) or 'binary'
    try: o = vc.run(getattr(c, which), 'instr', 'target', replace=True)
    finally: ck.simple_instr_compiles, c._compile_instrument = keep
    if works[{'compile_c_instrument': 'cc', 'compile_acc_instrument': 'acc', 'compile_mpi_instrument': 'mpi/cc'}[which]]:
        vc.check(not o.raised and o.value == 'binary' and log == [(('instr', 'target'), {'replace': True})], 'what a working compiler can compile is compiled as stated', lambda: (o, log))
    else: vc.check(o.raised and log == [], 'nothing is compiled without a compiler', lambda: (o, log))


@harness('D01', 'whether a compiler works', [K + 'compiles'])
def h_compiles(vc):
    import mccode_antlr.compiler.c as c, mccode_antlr.compiler.check as ck, platform, os
    import mccode_antlr.config as conf
    which = vc.choice('compiler', ('cc', 'acc', 'mpi/cc'))
    code, made = vc.int('code', -64, 255, (0, 0, 1, -9)), vc.choice('makes it', (False, True))
    log = []
    class Res: returncode, stderr = code, 'error'
    def split(ins, t): return ['cf'], ['lf']
    def comp(compiler, cf, binary, lf, source):
        log.append((compiler, cf, lf, source))
        if made:
            with open(binary, 'w') as f: f.write('x')
        return 'command', Res
    keep = {n: getattr(c, n) for n in ('instrument_source', 'linux_split_flags', 'linux_compile')}
    system = platform.system
    c.instrument_source, c.linux_split_flags, c.linux_compile = lambda ins, **k: 'the source', split, comp
    platform.system = lambda: 'Linux'
    try: o = with_config(CONFIG, lambda: vc.run(ck.compiles, which, Token('instrument')))
    finally:
        for n, v in keep.items(): setattr(c, n, v)
        platform.system = system
    vc.check(not o.raised and o.value is (True if code == 0 and made else False), 'a compiler works if it makes a binary', o)
    vc.check(log == [({'cc': 'gcc', 'acc': 'nvc', 'mpi/cc': 'mpicc'}[which], ['cf'], ['lf'], 'the source')], 'it is that which is asked for', lambda: log)


@harness('D01', 'windows: the source is written and compiled', [B + 'windows_compile'], sym=False)
def h_wincompile(vc):
    import mccode_antlr.compiler.c as c, subprocess, tempfile
    from pathlib import Path
    lf = vc.choice('linker', (['a.lib'], ['/link', 'a.lib'], []))
    given = list(lf)
    deep = vc.choice('directory', ('', 'new/deep'))
    calls = []
    with tempfile.TemporaryDirectory() as d:
        tgt = Path(d) / deep / 'thing.exe'
        keep, subprocess.run = subprocess.run, lambda cmd, **kw: calls.append(cmd) or 'result'
        try: o = vc.run(c.windows_compile, 'cl.exe', ['/DX'], tgt, lf, 'the source\nof two lines')
        finally: subprocess.run = keep
        vc.check(not o.raised and o.value == (calls[0], 'result'), 'the result is that of the compiler', o)
        src = tgt.with_suffix('.c')
        vc.check(src.read_text() == 'the source\nof two lines', 'the source is written beside the binary')
        cmd = calls[0]
        vc.check(cmd[0] == 'cl.exe' and '/DX' in cmd[:cmd.index(str(src))] and cmd[-1] == f'/out:{tgt}', 'with its flags and binary', lambda: cmd)
        vc.check([x for x in cmd[cmd.index('/link'):-1] if x != '/link'] == [x for x in given if x != '/link'] and cmd.count('/link') == 1, 'linker flags are behind /link', lambda: cmd)
