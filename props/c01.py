"""C01: the command line programs do what they are asked, and nothing is removed or written elsewhere."""
from vc.api import harness, Discard

M = 'src/mccode_antlr/cli/management.py '
C = 'src/mccode_antlr/cli/commands.py '
ANSWERS = ('y', 'Y', 'yes', 'YES', 'Yes', '', 'n', 'no', 'N', 'yess', 'ye', 'cache', ' ')
YES = ('y', 'Y', 'yes', 'YES', 'Yes')


class Patch:
    """names of modules replaced while the code runs"""
    def __init__(self, *what): self.what, self.was = what, []
    def __enter__(self):
        for o, n, v in self.what:
            self.was.append((o, n, getattr(o, n), n in vars(o)))
            setattr(o, n, v)
        return self
    def __exit__(self, *a):
        for o, n, v, there in reversed(self.was): setattr(o, n, v) if there else delattr(o, n)


# ------------------------------------------------------------------ removing caches
class Folder:
    """a path of which only is known how it was made; where it leads is any answer"""
    def __init__(self, vc, parent, name): self.vc, self.parent, self.name, self.links = vc, parent, name, {}
    def joinpath(self, *names):
        x = self
        for n in names: x = Folder(self.vc, x, n)
        return x
    __truediv__ = joinpath
    def resolve(self, strict=False): return self
    absolute = expanduser = resolve
    def up(self):
        x, out = self, []
        while x.parent is not None: x = x.parent; out.append(x)
        return out
    def within(self, other):
        """strictly inside of the folder which it was joined to"""
        if other is self: return False
        if other not in self.up(): raise_unsupported('how two folders are related')
        if other not in self.links: self.links[other] = self.vc.bool(f'{self.name} within {other.name}')
        if other is not self.parent:  # what is inside of a folder which is inside of another is inside of that
            self.vc.assume(self.vc.implies(self.vc.and_(self.within(self.parent), self.parent.within(other)), self.links[other]))
        return self.links[other]
    @property
    def parents(self): return Parents(self)
    def is_relative_to(self, other):
        if self is other: return True
        w = self.within(other)
        return self.vc.or_(w, self.same(other))
    def relative_to(self, other):
        if not self.is_relative_to(other): raise ValueError('is not in the subpath of')
        return self
    def same(self, other):
        if self is other: return True
        k = ('same', other)
        w = self.within(other)
        if k not in self.links:
            self.links[k] = self.vc.bool(f'{self.name} is {other.name}')
            self.vc.assume(self.vc.not_(self.vc.and_(w, self.links[k])))
        return self.links[k]
    def __eq__(self, other): return bool(self.same(other) if isinstance(other, Folder) and other in self.up() else other.same(self) if isinstance(other, Folder) and self in other.up() else self is other)
    def __ne__(self, other): return not self == other
    def __hash__(self): return id(self)
    def __str__(self): return f'<{self.name}>'
    def exists(self): return True
    is_dir = exists
    def is_symlink(self): return False


class Parents:
    def __init__(self, f): self.f = f
    def __contains__(self, x): return bool(self.f.within(x))


def raise_unsupported(m):
    from vc.core import Unsupported
    raise Unsupported(m)


@harness('C01', 'removing a cache: nothing outside of what was named', [M + 'cache_remove'], weight=0.3)
def h_remove(vc):
    import builtins, shutil, pooch
    from mccode_antlr.cli import management as m
    root, removed, asked = Folder(vc, None, 'the cache'), [], []
    name, version = vc.choice('what', ((None, None), ('name', None), ('name', 'version')))
    force = vc.choice('force', (True, False))
    answer = None if force else vc.choice('answer', ANSWERS)
    def ask(*a):
        asked.append(a)
        return answer
    with Patch((pooch, 'os_cache', lambda p: root), (shutil, 'rmtree', lambda p, *a, **k: removed.append(p))):
        had = builtins.input
        builtins.input = ask
        try: o = vc.run(m.cache_remove, name, version, force)
        finally: builtins.input = had
    inside, path = True, root
    for n in (name, version):
        if n is not None:
            if removed: q = [x for x in [removed[0]] + removed[0].up() if x.name == n]
            inside = vc.and_(inside, q[0].within(q[0].parent)) if removed and q else inside
    vc.check(len(removed) <= 1, 'at most one folder is removed')
    vc.check(not removed or force or answer in YES, 'nothing is removed without force or the answer yes')
    vc.check(not removed or inside, 'only a folder inside of the cache is removed')
    if removed:
        got = [x.name for x in reversed([removed[0]] + removed[0].up())]
        vc.check(got == ['the cache'] + [n for n in (name, version) if n is not None], 'the folder which was named is removed')
    elif not o.raised: vc.check(not force and answer not in YES, 'what was named is removed, or refused with an error')
    elif name is None: vc.check(False, 'all caches are removed without an error')


NAMES = ('a', 'b', 'é x', '', '.', '..', 'a/..', '../mccode', 'a/../b', './a', 'a/1.0', '../../x', 'a/../../../y', 'none', 'link', 'abs', '../mccode_antlr', '../mccode_antlr/a', 'a/.')
VERSIONS = ('1.0', 'v2', '..', '.', '', '../b', '../../other', 'none', '1.0/deep', 'abs')


def tree(d):
    """a folder of caches, below folders enough that no name leads out of them"""
    from pathlib import Path
    top = Path(d).resolve().joinpath(*'12345678')
    for n in ('mccode_antlr/a/1.0/deep', 'mccode_antlr/a/v2', 'mccode_antlr/b/1.0', 'mccode_antlr/é x', 'mccode', 'mccode_antlr-libc', 'other/1.0'): (top / n).mkdir(parents=True)
    (top / 'mccode_antlr' / 'file').write_text('x')
    (top / 'mccode_antlr' / 'link').symlink_to(top / 'other')
    (top / 'keep').write_text('keep')
    return top, top / 'mccode_antlr'


@harness('C01', 'removing and listing caches in folders', [M + 'cache_remove', M + 'cache_list'], sym=False)
def h_folders(vc):
    import builtins, contextlib, io, os, shutil, sys, tempfile, pooch
    from mccode_antlr.cli import management as m
    d = tempfile.mkdtemp()
    rmtree = shutil.rmtree
    try:
        top, root = tree(d)
        removed = []
        name = vc.choice('name', (None,) + NAMES)
        version = vc.choice('version', (None,) * 6 + VERSIONS) if name is not None else None
        name, version = (str(top / 'other') if n == 'abs' else n for n in (name, version))
        # what is meant: each a folder in the one before, never the one before itself
        want, ok = root, True
        for n in (name, version):
            if n is not None:
                up, want = want, want / n
                r = want.resolve()
                ok = ok and up.resolve() in r.parents
        listing = vc.choice('what', ('remove', 'list')) == 'list'
        def ask(*a): return answer
        force, answer = vc.choice('force', (True, False)), vc.choice('answer', ANSWERS)
        out, had = io.StringIO(), (builtins.input, sys.argv)
        long = vc.choice('long', (False, True))
        if listing: version = None
        argv = ['mccode-antlr', 'cache', 'list' if listing else 'remove'] + (['-l'] if listing and long else []) + (['-f'] if not listing and force else []) + [n for n in (name, version) if n is not None]
        if listing: ok = name is None or root.resolve() in (root / name).resolve().parents
        if listing: want = root if name is None else root / name
        builtins.input, sys.argv = ask, argv
        before = sorted(str(p) for p in top.rglob('*'))
        try:
            with Patch((pooch, 'os_cache', lambda p: top / p), (shutil, 'rmtree', lambda p, *a, **k: removed.append(p))), contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                o = vc.run(m.mccode_management)
        finally: builtins.input, sys.argv = had
        vc.check(sorted(str(p) for p in top.rglob('*')) == before, 'nothing is removed otherwise', lambda: argv)
        if listing:
            vc.check(not removed, 'a list removes nothing')
            if not ok: vc.check(o.raised, 'folders outside of the cache are not listed', lambda: (argv, out.getvalue()))
            elif want.is_dir():
                vc.check(not o.raised, 'a cache is listed', lambda: (argv, o))
                dirs = sorted(p.name for p in want.iterdir() if p.is_dir())
                text = out.getvalue().rstrip('\n').split('\n')
                got = [x.strip() for x in text[1:] if x.strip()]
                vc.check(got == [str(want / n) if long else n for n in dirs], 'the list of caches has each of them', lambda: (argv, text))
                vc.check(text[0].split()[0] == str(len(dirs)), 'the list of caches has their number')
            return
        vc.check(len(removed) <= 1, 'at most one folder is removed', lambda: argv)
        vc.check(not removed or force or answer in YES, 'nothing is removed without force or the answer yes', lambda: (argv, answer))
        if removed:
            vc.check(ok, 'only a folder inside of the cache is removed', lambda: (argv, removed))
            vc.check(os.path.realpath(removed[0]) == os.path.realpath(want), 'the folder which was named is removed', lambda: (argv, removed))
        elif ok and want.is_dir() and (force or answer in YES): vc.check(False, 'the folder which was named is removed', lambda: (argv, answer, o))
        elif not o.raised and (force or answer in YES): vc.check(False, 'what was named is removed, or refused with an error', lambda: argv)
    finally: rmtree(d)


# ------------------------------------------------------------------ configuration
SCHEMA = {'cc': None, 'ext': None, 'flags': {'cc': None, 'ld': None, 'deep': {'x': None, 'y': None}}, 'mpi': {'run': None, 'nodes': None}, 'list': None, 'MCSTAS': {'name': None}}
VALUES = ('gcc', '', 'yes', 'null', '1', '1.5', ' a: b', 'x\ny', 'µ', '"q"', "it's", '#c', '-g -O2', '%x', '{a}', '[1]', '@', '2020-01-01', '=', '~', 'a' * 200 + ' ' + 'b' * 100, 0, 1, -2.5, True, False, None, ['a', 1], [])


def layer(vc, n, schema=SCHEMA):
    out = {}
    for k, s in schema.items():
        if vc.choice(f'{n}.{k}?', (True, True, False)):
            v = vc.choice(f'{n}.{k}', VALUES) if s is None else layer(vc, f'{n}.{k}', s)
            if s is None or v or vc.choice(f'{n}.{k} empty', (False, True)): out[k] = v
    return out


def merged(layers):
    out = {}
    for x in layers:  # the first has most to say
        for k, v in x.items():
            if isinstance(v, dict): out[k] = merged([out.get(k, {}), v])
            elif k not in out: out[k] = v
    return out


def asked(vc, argv, layers, folder=None):
    """what the program prints"""
    import contextlib, io, sys, confuse, importlib
    from mccode_antlr.cli import management as m
    config = importlib.import_module('mccode_antlr.config')
    class View(confuse.RootView):
        def config_dir(self): return folder
        def user_config_path(self): return f'{folder}/config.yaml'
    c = View([confuse.ConfigSource.of(x) for x in layers])
    out, had = io.StringIO(), sys.argv
    sys.argv = ['mccode-antlr', 'config'] + argv
    try:
        with Patch((config, 'config', c)), contextlib.redirect_stdout(out): o = vc.run(m.mccode_management)
    finally: sys.argv = had
    vc.check(not o.raised, 'the program answers without an error', lambda: (argv, o))
    return out.getvalue(), c


@harness('C01', 'configuration: what is printed and saved is what is used', [M + 'config_list', M + 'config_get', M + 'config_save', M + 'config_dump', M + 'config_set'], sym=False)
def h_config(vc):
    import os, re, shutil, tempfile, yaml
    layers = [layer(vc, f'layer {k}') for k in range(vc.size('layers', 1, 3))]
    whole = merged(layers)
    what = vc.choice('what', ('list', 'get', 'get', 'save', 'set'))
    if what == 'list':
        rx = vc.choice('regex', (None, 'cc', 'm', '^m', 's$', '.*', '[A-Z]', 'x'))
        text, c = asked(vc, ['list'] + ([rx] if rx is not None else []), layers)
        want = {k: v for k, v in whole.items() if rx is None or re.search(rx, k)}
        vc.check((yaml.safe_load(text) or {}) == want, 'the listed configuration is what is used', lambda: (text, want))
    elif what == 'get':
        key = vc.choice('key', (None, 'cc', 'flags', 'flags.cc', 'flags.deep', 'flags.deep.x', 'mpi.run', 'none', 'flags.none', 'cc.x', 'flags.cc.x', 'list', 'MCSTAS.name', 'mcstas'))
        verbose = vc.choice('verbose', (False, True))
        text, c = asked(vc, ['get'] + (['-v'] if verbose else []) + ([key] if key else []), layers)
        v = whole
        for k in (key or '').split('.') if key else ():
            v = v[k] if isinstance(v, dict) and k in v else Discard
            if v is Discard: break
        if v is Discard: vc.check(bool(text.strip()) == verbose, 'a key which is not known has no value', lambda: (key, text))
        else: vc.check((yaml.safe_load(text) or {}) == ({key: v} if key else v), 'the value of a key is what is used', lambda: (key, text, v))
    elif what == 'save':
        d = tempfile.mkdtemp()
        try:
            with open(f'{d}/other', 'w') as f: f.write('x')
            os.mkdir(f'{d}/sub')
            if vc.choice('saved before', (False, True)):
                for w in (d, f'{d}/sub'):
                    with open(f'{w}/config.yaml', 'w') as f: f.write('old: 1\ncc: old\n' + '# x\n' * 800 + 'older: 2\n')
            given = vc.choice('path', (True, False))
            text, c = asked(vc, ['save'] + ([f'{d}/sub'] if given else []), layers, d)
            where = f'{d}/sub/config.yaml' if given else f'{d}/config.yaml'
            vc.check(os.path.exists(where), 'the configuration is saved where it was asked for')
            with open(where, encoding='utf-8') as f:
                try: got = yaml.safe_load(f.read()) or {}
                except yaml.YAMLError as e: got = f'not YAML: {e}'
            vc.check(got == whole, 'the saved configuration is what is used', lambda: (got, whole))
            vc.check(sorted(os.listdir(d)) == sorted(['other', 'sub'] + ([] if given and not os.path.exists(f'{d}/config.yaml') else ['config.yaml'])) and open(f'{d}/other').read() == 'x' and (not given or not os.path.exists(f'{d}/config.yaml') or 'old: 1' in open(f'{d}/config.yaml').read()), 'no other file is written')
        finally: shutil.rmtree(d)
    else:
        key, value = vc.choice('key', ('cc', 'flags.cc', 'flags.new', 'new.a.b')), vc.choice('new value', tuple(x for x in VALUES if isinstance(x, str) and not x.startswith('-')))
        text, c = asked(vc, ['set', key, value], layers, '/nonexistent')
        v = c
        for k in key.split('.'): v = v[k]
        vc.check(v.get() == value, 'a value which is set is used', lambda: (key, value, v.get()))
        rest = dict(c.flatten())
        def drop(x, ks):
            x = {k: v for k, v in x.items()}
            if len(ks) == 1: x.pop(ks[0], None)
            elif ks[0] in x: x[ks[0]] = drop(x[ks[0]], ks[1:])
            if len(ks) > 1 and not x.get(ks[0]): x.pop(ks[0], None)
            return x
        vc.check(drop(rest, key.split('.')) == drop(whole, key.split('.')), 'setting a value changes no other', lambda: (key, rest, whole))


@harness('C01', 'configuration: values are set and unset', [M + 'config_set', M + 'config_unset'], sym=False, weight=0.05)
def h_lasting(vc):
    import os, shutil, subprocess, sys, tempfile
    import mccode_antlr
    src = os.path.dirname(os.path.dirname(mccode_antlr.__file__))
    vc.int('again', 0, 10 ** 6)
    d = tempfile.mkdtemp()
    try:
        env = {**os.environ, 'HOME': d, 'MCCODEANTLRDIR': d, 'PYTHONPATH': os.pathsep.join([src] + [p for p in sys.path if p])}
        def run(*a):
            p = subprocess.run([sys.executable, '-c', 'from mccode_antlr.cli.management import mccode_management as m; m()', 'config', *a], env=env, capture_output=True, text=True, cwd=d)
            return p.stdout
        key, value = vc.choice('key', ('verif', 'verif.key', 'flags.verif')), vc.choice('value', ('value', 'a value'))
        run('set', key, value)
        vc.known('C01-set', value in run('get', key), 'a value which is set is there the next time', key)
        with open(f'{d}/config.yaml', 'w') as f: f.write((key.replace('.', ':\n  ') if '.' in key else key) + f': {value}\n')
        vc.check(value in run('get', key), 'a value of the configuration file is used', key)
        run('unset', key)
        vc.known('C01-unset', value not in run('get', key), 'a value which is unset is not there the next time', key)
    finally: shutil.rmtree(d)


# ------------------------------------------------------------------ from an instrument to C
class Made:
    def __init__(self, log, what, *a, **k): self.what, self.a, self.k = what, a, k; log.append(self)


@harness('C01', 'translating an instrument: the options', [C + 'mccode', C + 'mccode_script_parse'], max_paths=20000)
def h_translate(vc):
    import contextlib, importlib, io, sys
    from pathlib import Path
    log = []
    class Token:
        pass
    instrument, registry, generator = Token(), Token(), Token()
    class Reader(Made):
        def __init__(self, registries=None): super().__init__(log, 'reader', list(registries))
        def get_instrument(self, name, destination=None, mode=None):
            log.append(('read', name, mode))
            return instrument
    class Local(Made):
        def __init__(self, name, root, priority=10): super().__init__(log, 'local', name, root, priority)
    class Visitor(Made):
        def __init__(self, instr, generate=None, config=None, verbose=False): super().__init__(log, 'visitor', instr, generate, dict(config), verbose)
        def save(self, filename=None): log.append(('save', filename))
    def load(name):
        log.append(('load', name))
        return instrument
    commands = importlib.import_module('mccode_antlr.cli.commands')
    reader, cm, io5 = importlib.import_module('mccode_antlr.reader'), importlib.import_module('mccode_antlr.translators.c'), importlib.import_module('mccode_antlr.io')
    patches = [(reader, 'Reader', Reader), (reader, 'LocalRegistry', Local), (cm, 'CTargetVisitor', Visitor), (io5, 'load_hdf5', load)]
    patches += [(commands, n, v) for _, n, v in list(patches) if hasattr(commands, n)]
    c, argv = vc.choice, []
    flags = {}
    case = c('case', ('flags', 'files', 'stop'))
    for n, short, long in (('trace', '-t', '--trace'), ('portable', '-p', '--portable'), ('source', None, '--source'), ('no_main', None, '--no-main'), ('no_runtime', None, '--no-runtime'), ('verbose', None, '--verbose')):
        flags[n] = c(n, (False, True)) if case == 'flags' else False
        if flags[n]: argv.append(c(f'{n} as', (short, long)) if short else long)
    name = c('file', ('x.instr', 'a.b.instr', 'sub/x.instr', 'x.h5', 'X.H5', '/abs/x', 'x.c.instr')) if case == 'files' else 'x.instr'
    out = c('output', (None, 'y.c', 'sub/z.out')) if case == 'files' else None
    dirs = [c(f'dir {k}', ('lib', '/abs/lib.d', '.')) for k in range(c('dirs', (0, 1, 2)))] if case == 'files' else []
    args = [] if out is None else [c('output as', ('-o', '--output-file')), out]
    for d in dirs: args += ['-I', d]
    stop = c('stop', ('version', 'no file')) if case == 'stop' else None
    if stop == 'version': argv.append('-v')
    argv = argv + args + ([] if stop == 'no file' else [name])
    had = sys.argv
    sys.argv = ['mcstas-antlr'] + argv
    stopped = None
    try:
        with Patch(*patches), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            try: o = vc.run(commands.mccode, 'mcstas', registry, generator)
            except SystemExit as e: stopped = e
    finally: sys.argv = had
    if stop:
        vc.check(stopped is not None and not log, 'without a file, or asked for the version, the program stops and does nothing')
        if stop == 'no file': vc.check(stopped is not None and stopped.code not in (0, None), 'a missing file is an error')
        return
    vc.check(stopped is None and not o.raised, 'an instrument is translated', lambda: f'{argv} {stopped or o}')
    path = Path(name).resolve()
    h5 = path.suffix.lower() == '.h5'
    acts = [x for x in log if isinstance(x, tuple)]
    from mccode_antlr.common import Mode
    vc.check(acts[:1] == ([('load', path)] if h5 else [('read', path, Mode.minimal)]), 'the file which was named is read', lambda: f'{argv} {acts}')
    want = Path(out) if out is not None else path.with_suffix('.c')
    vc.check(len(acts) == 2 and acts[1][0] == 'save' and Path(acts[1][1]) == want, 'the C source is written where it was asked for, or beside the instrument, and nothing else', lambda: f'{argv} {acts}')
    vs = [x for x in log if isinstance(x, Visitor)]
    vc.check(len(vs) == 1 and vs[0].a[0] is instrument and vs[0].a[1] is generator, 'the instrument which was read is translated, for the right program')
    k = vs[0].a[2]
    expect = dict(default_main=not flags['no_main'], enable_trace=flags['trace'], portable=flags['portable'], include_runtime=not flags['no_runtime'], embed_instrument_file=flags['source'], verbose=flags['verbose'])
    for n, v in expect.items(): vc.check(k.get(n) is v, f'the option {n} is the one given', lambda: f'{argv} {k}')
    vc.check(Path(k.get('output')) == want, 'the name of the output is the one given')
    vc.check(bool(vs[0].a[3]) == flags['verbose'], 'the program is verbose when asked')
    if not h5:
        rs = [x for x in log if isinstance(x, Reader)]
        vc.check(len(rs) == 1, 'the instrument is read once')
        got = rs[0].a[0]
        vc.check(len(got) == 2 + len(dirs) and got[0] is registry, 'components are searched for in the library')
        vc.check([Path(str(x.a[1])) for x in got[1:] if isinstance(x, Local)] == [Path(d).resolve() for d in dirs] + [Path().resolve()], 'components are searched for in the given folders, in their order, and in the working directory', lambda: f'{argv} {[x.a for x in got[1:]]}')
        vc.check(len({x.a[2] for x in got[1:]}) == 1, 'the given folders are of the same priority')


@harness('C01', 'translating an instrument: the programs', [C + 'mcstas', C + 'mcxtrace'], weight=0.05)
def h_programs(vc):
    import importlib
    commands = importlib.import_module('mccode_antlr.cli.commands')
    reader, target = importlib.import_module('mccode_antlr.reader'), importlib.import_module('mccode_antlr.translators.target')
    which = vc.choice('which', ('mcstas', 'mcxtrace'))
    calls = []
    with Patch((commands, 'mccode', lambda *a, **k: calls.append((a, k)))): o = vc.run(getattr(commands, which))
    vc.check(not o.raised and len(calls) == 1, 'each program translates once')
    a, k = calls[0]
    a = a + tuple(k[n] for n in ('flavor', 'registry', 'generator')[len(a):])
    vc.check(a[0] == which and a[1] is getattr(reader, f'{which.upper()}_REGISTRY') and a[2] is getattr(target, f'{which.upper()}_GENERATOR'), 'each program has the components and the generator of its own', lambda: a)
