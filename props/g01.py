"""G01: which file a name stands for.

Registries are asked in their order; the first which has a file of that name gives it, and a name which no registry has is refused."""
from vc.api import harness, Discard
from props.seqlib import some, seq
from props.i02 import bare, Token, POOL

RD = 'src/mccode_antlr/reader/reader.py Reader.'
RG = 'src/mccode_antlr/reader/registry.py '
RR, LR, MR, GR = (RG + c for c in ('RemoteRegistry.', 'LocalRegistry.', 'InMemoryRegistry.', 'GitHubRegistry.'))


class Reg:
    """a registry: whether it has the file is any answer, what it gives is its own"""
    def __init__(self, name, has, log, priority=0):
        self.name, self.has, self.log, self.priority = name, has, log, priority
        self.given = Token('given')
    def asked(self, kind, name, ext, strict=None): self.log.append((self, kind, name, ext, strict))
    def known(self, name, ext=None, strict=False):
        self.asked('known', name, ext, strict)
        return self.has
    def unique(self, name): return self.has
    def path(self, name, ext=None): return (self, 'path', name, ext)
    def contents(self, name, ext=None): return (self, 'contents', name, ext)
    def fullname(self, name, ext=None): return (self, 'fullname', name, ext)


def reader(registries):
    from mccode_antlr.reader import Reader
    return bare(Reader, registries=registries, components={}, c_flags=[])


@harness('G01', 'the first registry which has a file gives it', [RD + n for n in ('locate', 'contents', 'fullname', 'known', 'contain')])
def h_first(vc):
    log = []
    has = vc.choice('has', (True, False))
    what = vc.choice('what', ('locate', 'contents', 'fullname', 'known'))
    make = lambda n: Reg(vc.ident(n + '.name', POOL), vc.bool(n + '.has'), log)
    hasnot = lambda r: vc.not_(r.has)
    ps = [some(vc, 'before', make, hasnot)]
    if vc.sym: ps[0].on_join = lambda sep, c: 'their names'
    t = None
    if has:
        t = make('it')
        t.has = True
        ps += [[t], some(vc, 'behind', make)]
    which = None
    if vc.choice('named', (False, True)):
        # only registries of that name
        which = vc.ident('which', POOL)
        a, b = make('other'), make('last')
        for r in (a, b): vc.assume(vc.not_(r.name == which))
        ps = [[a]]
        if has: t.name = which; ps.append([t])
        ps.append([b])
        which = vc.choice('form', (which, [which], (which,)))
    x = reader(seq(ps, list))
    name, ext = vc.ident('file', POOL), vc.choice('ext', (None, '.comp'))
    strict = vc.choice('strict', (False, True))
    k = dict(which=which, strict=strict)
    if what != 'known': k['ext'] = ext
    else: ext = None
    o = vc.run(getattr(x, what), name, **k)
    if what == 'known': vc.check(not o.raised and vc.iff(o.value, has), 'a file is known if a registry has it', o)
    elif not has: vc.check(o.raised and isinstance(o.exc, RuntimeError), 'a file which no registry has is refused', o)
    else:
        want = {'locate': 'path'}.get(what, what)
        vc.check(not o.raised and isinstance(o.value, tuple) and o.value[0] is t, 'the first registry which has the file gives it', o)
        vc.check(o.value[1] == want and o.value[2] is name and o.value[3] == ext, 'it is asked for that file', o)
    for r, kind, n, e, s in log: vc.check(n is name and e == ext and vc.iff(s, strict), 'registries are asked for that file', lambda: f'{log}')


@harness('G01', 'the order of registries', [RG + 'ordered_registries', RD + '__post_init__', RD + 'prepend_registry', RD + 'append_registry'], sym=False, weight=0.4)
def h_order(vc):
    from mccode_antlr.reader import Reader
    from mccode_antlr.reader.registry import Registry
    class R(Registry): pass
    rs = []
    for k in range(vc.size('n', 1, 5)):
        rs.append(R())
        rs[-1].name, rs[-1].priority = f'r{k}', vc.choice(f'priority{k}', (0, 10, -10, 100, 5))
    o = vc.run(Reader, registries=list(rs))
    vc.check(not o.raised, 'a reader of registries', o)
    got = o.value.registries
    want = [r for p in sorted({r.priority for r in rs}, reverse=True) for r in rs if r.priority == p]
    vc.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), 'those of higher priority are first, then as given', lambda: f'{[(r.name, r.priority) for r in got]}')
    a, b = R(), R()
    if vc.choice('prepend', (True, False)):
        o.value.prepend_registry(a); want = [a] + want
    if vc.choice('append', (True, False)):
        o.value.append_registry(b); want = want + [b]
    vc.check(len(o.value.registries) == len(want) and all(x is y for x, y in zip(o.value.registries, want)), 'one which is added is first or last', '')


# ------------------------------------------------------------------ files of registries
STEMS = ('Arm', 'MyArm', 'Arm2', 'read_table-lib', 'table-lib', 'Arm.v2', 'x')
DIRS = ('', 'optics', 'MyArm', 'contrib/optics', 'share', 'optics/sub', 'Arm')
EXTS = ('.comp', '.h', '.c', '', '.comp.in', '.instr')


def files(vc):
    out = []
    for k in range(vc.size('files', 0, 5)):
        f = (lambda d: d + '/' if d else '')(vc.choice(f'dir{k}', DIRS)) + vc.choice(f'stem{k}', STEMS) + vc.choice(f'ext{k}', EXTS)
        if f not in out and not any(g.startswith(f + '/') or f.startswith(g + '/') for g in out): out.append(f)
    return out


def nearby(vc, fs, want):
    """often also files of the asked name, in a folder before or behind one which is in none"""
    out = list(fs)
    def add(f, first):
        if f not in out and not any(g.startswith(f + '/') or f.startswith(g + '/') for g in out): out.insert(0 if first else len(out), f)
    for k in range(vc.size('nearby', 0, 2)): add(vc.choice(f'near{k}', ('', 'lib/', 'optics/', 'lib/x')) + want, vc.choice(f'first{k}', (True, False)))
    return out


def asked(vc):
    n = vc.choice('dir', ('', '', 'optics/')) + vc.choice('stem', STEMS)
    e = vc.choice('ext', (None, '.comp', '.h'))
    if vc.choice('with', (False, True)): n += vc.choice('own', ('.comp', '.h'))
    return n, e


def full(n, e): return n if e is None or n.endswith(e) else n + e


def ends(f, n): return f == n or f.endswith('/' + n)


class Pooch:
    def __init__(self, files): self.registry_files, self.fetched = list(files), []
    def fetch(self, f):
        self.fetched.append(f)
        return '/cache/' + f
    path, base_url = 'p', 'u'


@harness('G01', 'files of remote registries', [RR + n for n in ('known', 'fullname', 'path', 'filenames', 'is_available', 'unique')] + [RG + '_name_plus_suffix', RG + 'Registry.search', RG + 'Registry.match'], sym=False, weight=2)
def h_remote(vc):
    import re
    from pathlib import Path
    from mccode_antlr.reader.registry import RemoteRegistry
    n, e = asked(vc)
    want = full(n, e)
    fs = nearby(vc, files(vc), want)
    r = RemoteRegistry('r', 'https://x', 'v1', None, 3)
    r.pooch = Pooch(fs)
    strict = vc.choice('strict', (True, False))
    named = [f for f in fs if ends(f, want)]
    o = vc.run(r.known, n, e, strict=strict)
    vc.check(not o.raised, 'whether a file is known', o)
    bare_ = [f for f in fs if ends(Path(f).with_suffix('').as_posix(), want)] if e is None else []
    if named: vc.check(o.value is True, 'a file which is there is known', lambda: f'{fs} {n} {e}')
    elif bare_: vc.check(o.value is True, 'a file is known without its extension', lambda: f'{fs} {n} {e}')
    elif strict: vc.check(o.value is False, 'a file of another name is not taken for it', lambda: f'{fs} {n} {e} {o}')
    else: vc.check(o.value == any(n in f for f in fs), 'otherwise any file with the name in its name is known', lambda: f'{fs} {n} {e} {o}')
    o = vc.run(r.path, n, e)
    if named:
        vc.check(not o.raised and o.value == Path('/cache/' + (want if want in fs else named[0])) and r.pooch.fetched == [o.value.as_posix()[7:]], 'the file of that name is fetched', lambda: f'{fs} {n} {e} {o}')
        o = vc.run(r.fullname, n, e)
        vc.check(not o.raised and o.value == (want if want in fs else named[0]), 'the file of that name', lambda: f'{fs} {n} {e} {o}')
    else:
        near = [f for f in fs if n in f]
        if len(near) != 1: vc.check(o.raised, 'nothing is fetched if it is not clear what', lambda: f'{fs} {n} {e} {o}')
    vc.check(list(r.filenames()) == fs, 'all files of a registry', '')
    p = vc.choice('pattern', ('Arm', 'opt', '.*Arm', r'\.comp$', '^x', 'r[me]'))
    p2 = re.compile(p) if vc.choice('compiled', (False, True)) else p
    vc.check(r.search(p2) == [f for f in fs if re.search(p, f)], 'searching for files', lambda: f'{fs} {p}')
    vc.check(r.match(p2) == [f for f in fs if re.match(p, f)], 'files which match', lambda: f'{fs} {p}')
    if e is not None:
        o = vc.run(r.is_available, n, e)
        vc.check(not o.raised and bool(o.value) == bool(named), 'a file is available if it is there', lambda: f'{fs} {n} {e} {o}')
    o = vc.run(r.unique, n)
    vc.check(not o.raised and o.value == (sum(n in f for f in fs) == 1), 'a name is unique if one file has it', o)


class Folder:
    """a directory with these files, while in use the working directory is elsewhere"""
    def __init__(self, **dirs): self.dirs = dirs
    def __enter__(self):
        import os, tempfile
        from pathlib import Path
        self.top, self.old = Path(tempfile.mkdtemp()).resolve(), os.getcwd()
        for d, fs in self.dirs.items():
            (self.top / d).mkdir()
            for f, t in fs.items():
                (self.top / d / f).parent.mkdir(parents=True, exist_ok=True)
                (self.top / d / f).write_text(t)
        os.chdir(self.top)
        return self.top
    def __exit__(self, *a):
        import os, shutil
        os.chdir(self.old)
        shutil.rmtree(self.top)


@harness('G01', 'files of local registries', [LR + n for n in ('known', 'fullname', 'path', 'filenames', 'is_available', 'unique')] + [RG + '_name_plus_suffix', RG + 'Registry.contents', RG + 'Registry.search', RG + 'Registry.match'], sym=False, weight=2)
def h_local(vc):
    import re
    from pathlib import Path
    from mccode_antlr.reader.registry import LocalRegistry
    n, e = asked(vc)
    want = full(n, e)
    fs = nearby(vc, files(vc), want)
    with Folder(a={f: 'text of ' + f for f in fs}, b={}) as top:
        r = LocalRegistry('l', str(top / 'a') if vc.choice('absolute', (True, False)) else 'a')
        dirs = [d.relative_to(top / 'a').as_posix() for d in (top / 'a').rglob('*') if d.is_dir()]
        named = [f for f in fs if ends(f, want)]
        if any(ends(d, want) for d in dirs) or len(named) != 1 and any(ends(d, n) for d in dirs): raise Discard()
        o = vc.run(r.known, n, e, strict=vc.choice('strict', (True, False)))
        vc.check(not o.raised and bool(o.value) == bool(named), 'a file is known if it is there', lambda: f'{fs} {n} {e} {o}')
        o = vc.run(r.is_available, n, e)
        vc.check(not o.raised and bool(o.value) == bool(named), 'a file is available if it is there', lambda: f'{fs} {n} {e} {o}')
        o = vc.run(r.path, n, e)
        if want in fs or len(named) == 1:
            f = want if want in fs else named[0]
            vc.check(not o.raised and o.value.resolve() == (top / 'a' / f), 'the file of that name', lambda: f'{fs} {n} {e} {o}')
            o = vc.run(r.contents, n, e)
            vc.check(not o.raised and o.value == 'text of ' + f, 'its contents', o)
        elif not named and not [f for f in fs if ends(f, n)]: vc.check(o.raised, 'a file which is not there is refused', lambda: f'{fs} {n} {e} {o}')
        elif len(named) > 1 and not [f for f in fs if f == n] and len([f for f in fs if ends(f, n)]) != 1: vc.check(o.raised, 'it is not clear which file', lambda: f'{fs} {n} {e} {o}')
        vc.check(sorted(r.filenames()) == sorted(fs), 'all files of a registry', lambda: f'{fs} {r.filenames()}')
        p = vc.choice('pattern', ('Arm', 'opt', '.*Arm', r'\.comp$', '^x', 'r[me]'))
        vc.check(sorted(r.search(p)) == sorted(f for f in fs if re.search(p, f)), 'searching for files', lambda: f'{fs} {p}')
        vc.check(sorted(r.match(p)) == sorted(f for f in fs if re.match(p, f)), 'files which match', lambda: f'{fs} {p}')


@harness('G01', 'files in memory', [MR + n for n in ('__init__', 'add', 'add_comp', 'add_instr', 'filenames', 'fullname', 'known', 'contents', 'path')], sym=False, weight=0.6)
def h_memory(vc):
    from mccode_antlr.reader.registry import InMemoryRegistry
    given = {n: f'text {n}' for n in ('Arm', 'Slit.comp', 'X.COMP')[:vc.size('given', 0, 3)]}
    o = vc.run(InMemoryRegistry, 'm', vc.choice('priority', (100, 3)), **given)
    vc.check(not o.raised, 'a registry in memory', o)
    r = o.value
    have = {n if n.lower().endswith('.comp') else n + '.comp': t for n, t in given.items()}
    for k in range(vc.size('added', 0, 3)):
        how = vc.choice(f'how{k}', ('add', 'add_comp', 'add_instr'))
        n = vc.choice(f'name{k}', ('Arm', 'Slit', 'B', 'main', 'B.comp', 'main.instr', 'data.h'))
        t = f'added {k}'
        o = vc.run(getattr(r, how), n, t)
        e = {'add': '', 'add_comp': '.comp', 'add_instr': '.instr'}[how]
        have[n if n.endswith(e) else n + e] = t
        vc.check(not o.raised, 'it can be added', o)
    vc.check(sorted(r.filenames()) == sorted(have), 'all files of a registry', lambda: f'{have} {r.filenames()}')
    n, e = vc.choice('name', ('Arm', 'Slit', 'B', 'main', 'B.comp', 'Arm.comp', 'data.h', 'rm')), vc.choice('ext', (None, '.comp', '.instr'))
    want = full(n, e)
    o = vc.run(r.known, n, e, strict=vc.choice('strict', (True, False)))
    vc.check(not o.raised and bool(o.value) == (want in have), 'a file is known if it is there', lambda: f'{have} {n} {e} {o}')
    o = vc.run(r.contents, n, e)
    vc.check(o.value == have[want] if want in have else o.raised, 'its contents', lambda: f'{have} {n} {e} {o}')
    if want in have:
        vc.check(r.fullname(n, e) == want, 'its name', '')
        o = vc.run(r.path, n, e)
        vc.check(not o.raised and o.value is not None and o.value.name == want, 'its path', o)


@harness('G01', 'files of registries on GitHub', [GR + '__init__', GR + 'file_contents', GR + 'registry', RR + 'file_contents', RR + '__eq__'], sym=False, weight=0.6)
def h_github(vc):
    import shutil, tempfile, requests
    from pathlib import Path
    from mccode_antlr.reader import registry as m
    fs = {f: f'md5:{k:032x}' for k, f in enumerate(files(vc))}
    top, asked_ = Path(tempfile.mkdtemp()), []
    old = m.pooch.os_cache, requests.get
    end = vc.choice('end', ('', '\n'))
    okay = vc.choice('ok', (True, True, False))
    class Answer:
        def __init__(self, url): self.url, self.ok, self.reason, self.text = url, okay, 'no', '\n'.join(f'{k} {v}' for k, v in fs.items()) + end
    def get(url):
        asked_.append(url)
        return Answer(url)
    m.pooch.os_cache, requests.get = lambda p: top / p, get
    try:
        form = vc.choice('form', ('dict', 'url', 'none'))
        v = vc.choice('version', ('v1.2', 'main'))
        fn = vc.choice('filename', (None, 'list.txt'))
        reg = {'dict': dict(fs), 'url': 'https://github.com/o/list', 'none': None}[form]
        prio = vc.choice('priority', (0, -10))
        make = lambda: m.GitHubRegistry('name', 'https://github.com/o/p', v, fn, registry=reg, priority=prio)
        o = vc.run(make)
        file = fn or 'name-registry.txt'
        if form != 'dict': vc.check(asked_ == [f'https://github.com/o/{"list" if form == "url" else "p"}/raw/{v}/{file}'], 'the list of files is asked for', lambda: f'{asked_}')
        else: vc.check(not asked_, 'a list which is given is not asked for', lambda: f'{asked_}')
        if o.raised:
            vc.check(form != 'dict' and not okay, 'a registry', o)
            vc.check(not [p for p in top.rglob('*') if p.is_file()], 'nothing is kept of what failed', '')
            return
        r, asked_[:] = o.value, []
        vc.check(sorted(r.filenames()) == sorted(fs) and dict(r.pooch.registry) == fs, 'all files of a registry', lambda: f'{fs} {r.filenames()}')
        vc.check(r.pooch.base_url == f'https://github.com/o/p/raw/{v}/', 'where its files are', r.pooch.base_url)
        vc.check(r.file_contents() == dict(name='name', url='https://github.com/o/p', version=v, filename=file, registry=reg if form == 'url' else ''), 'what it is made of', lambda: f'{r.file_contents()}')
        o = vc.run(make)
        vc.check(not o.raised and not asked_ and dict(o.value.pooch.registry) == fs, 'the list of files is kept', lambda: f'{o} {asked_} {o.value and o.value.pooch.registry}')
        vc.check(r == o.value, 'it is the same registry', '')
        v2, fs2 = vc.choice('version 2', ('v1.3', 'next')), {'only2.comp': 'md5:9'}
        o = vc.run(m.GitHubRegistry, 'name', 'https://github.com/o/p', v2, fn, registry=fs2)
        vc.check(not o.raised and dict(o.value.pooch.registry) == fs2, 'each version has its own files', lambda: f'{o} {o.value and o.value.pooch.registry}')
        o = vc.run(m.GitHubRegistry, 'other', 'https://github.com/o/p', v, fn, registry=dict(fs))
        vc.check(not o.raised and not (r == o.value), 'it is another registry', '')
    finally:
        m.pooch.os_cache, requests.get = old
        shutil.rmtree(top)


# ------------------------------------------------------------------ specifications
@harness('G01', 'SEARCH: what a specification stands for', [RG + 'registry_from_specification', RG + 'registries_match', RG + 'simple_url_validator', RD + 'handle_search_keyword'], sym=False, weight=1)
def h_spec(vc):
    import contextlib, io
    from mccode_antlr.reader import registry as m
    made = []
    old = m.ModuleRemoteRegistry, m.GitHubRegistry
    m.ModuleRemoteRegistry = lambda *a: made.append(('module',) + a) or m.InMemoryRegistry('made')
    m.GitHubRegistry = lambda *a: made.append(('github',) + a) or m.InMemoryRegistry('made')
    try:
        with Folder(here={'sub/A.comp': 'x', 'list.txt': 'A.comp md5:1\n'}, there={}) as top:
            where = vc.choice('where', ('here', 'here/sub', str(top / 'there'), 'nowhere', 'https://x.org/y', 'x.org/y', 'file:///tmp/x', 'http:///y'))
            name = vc.choice('name', (None, 'mine'))
            third = vc.choice('third', (None, 'here/list.txt', 'v1.2')) if name else None
            fourth = vc.choice('fourth', (None, 'r.txt')) if third else None
            q = vc.choice('quotes', (False, True))
            parts = [p for p in (name, where, third, fourth) if p is not None]
            spec = vc.choice('blank', (' ', '  ')).join(f'"{p}"' if q else p for p in parts)
            held = m.LocalRegistry('held', str(top / 'there'))
            far = m.RemoteRegistry('far', 'https://x.org/y', 'v1', None)
            far.pooch = Pooch(['A.comp'])
            far.pooch.base_url = vc.choice('other url', ('https://x.org/y/raw/v1/', 'https://x.org', 'http://x.org/y', 'https://x.org/yz'))
            x = reader([held, far] if vc.choice('far', (False, True)) else [held])
            all_ = list(x.registries)
            with contextlib.redirect_stdout(io.StringIO()): o = vc.run(x.handle_search_keyword, spec)
            isdir = where in ('here', 'here/sub', str(top / 'there'))
            url = '://' in where and where != 'http:///y'
            new = [r for r in x.registries if r is not held and r is not far]
            if isdir:
                same = where == str(top / 'there') and (not q) and len(parts) < 3
                vc.check(not o.raised, 'a folder is a registry', o)
                if same: vc.check(len(x.registries) == len(all_) and all(a is b for a, b in zip(x.registries, all_)), 'one which is there is not added', lambda: f'{x.registries}')
                else:
                    vc.check(len(new) == 1 and x.registries[0] is new[0] and len(x.registries) == len(all_) + 1 and all(a is b for a, b in zip(x.registries[1:], all_)), 'it is the first', lambda: f'{x.registries}')
                    vc.check(isinstance(new[0], m.LocalRegistry) and new[0].root == (top / where).resolve() and new[0].name == (name or where), 'a folder is a local registry', lambda: f'{new[0].name} {new[0].root}')
            elif url and third == 'here/list.txt': vc.check(not o.raised and made == [('module', name, where, str(top / third))] and len(new) == 1 and x.registries[0] is new[0], 'files of an url', lambda: f'{o} {made}')
            elif url and fourth: vc.check(not o.raised and made == [('github', name, where, third, fourth)] and len(new) == 1 and x.registries[0] is new[0], 'files on GitHub', lambda: f'{o} {made}')
            else: vc.check(o.raised and isinstance(o.exc, RuntimeError) and len(x.registries) == len(all_), 'what is no registry is refused', lambda: f'{o} {spec}')
    finally: m.ModuleRemoteRegistry, m.GitHubRegistry = old


def comp(name, n): return f'DEFINE COMPONENT {name} SETTING PARAMETERS (int id={n}) TRACE %{{ %}} END\n'


@harness('G01', 'definitions of components and instruments', [RD + n for n in ('get_component', 'add_component', 'get_instrument', 'locate', 'contents')] + ['src/mccode_antlr/instr/visitor.py InstrVisitor.visitSearchPath', 'src/mccode_antlr/instr/visitor.py InstrVisitor.visitSearchShell'], sym=False, weight=3)
def h_definitions(vc):
    import contextlib, io
    from pathlib import Path
    from mccode_antlr.reader import Reader
    from mccode_antlr.reader.registry import InMemoryRegistry, LocalRegistry, RemoteRegistry
    names = ('Arm', 'MyArm', 'Arm2')
    def have(k): return {n: f'{k}{j}' for j, n in enumerate(names) if vc.choice(f'{n}{k}', (True, False))}
    loc, mem, rem, sea = (have(k) for k in (1, 2, 3, 4))
    d = lambda h, sub='': {sub + n + '.comp': comp(n, i) for n, i in h.items()}
    deep = vc.choice('folder', ('samples/', 'samples/', 'samples/powder/'))
    with Folder(loc=d(loc, 'optics/'), rem=d(rem, deep), sea=d(sea), work={}) as top:
        a = LocalRegistry('loc', str(top / 'loc'), vc.choice('p1', (10, 0, 200)))
        b = InMemoryRegistry('mem', vc.choice('p2', (100, 5, 0)))
        for n, i in mem.items(): b.add_comp(n, comp(n, i))
        c = RemoteRegistry('rem', 'https://x', 'v1', None, vc.choice('p3', (0, 20, 300)))
        c.pooch = Pooch([f'{deep}{n}.comp' for n in rem])
        c.pooch.fetch = lambda f: str(top / 'rem' / f)
        order = [(a, loc, 'UNKNOWN'), (b, mem, 'UNKNOWN'), (c, rem, 'samples')]
        order = [r for p in sorted({r[0].priority for r in order}, reverse=True) for r in order if r[0].priority == p]
        x = Reader(registries=[a, b, c])
        used = [n for n in names if vc.choice('use ' + n, (True, False))]
        search = vc.choice('search', (None, 'path', 'named', 'shell', 'trace'))
        head = {None: '', 'path': f'SEARCH "{top}/sea"\n', 'named': f'SEARCH "more {top}/sea"\n', 'shell': f'SEARCH SHELL "echo {top}/sea; echo more {top}/sea"\n', 'trace': ''}[search]
        text = f'DEFINE INSTRUMENT main()\n{head}TRACE\n' + ''.join((f'SEARCH "{top}/sea"\n' if search == 'trace' and not k else '') + f'COMPONENT c{k} = {n}() AT (0,0,{k}) ABSOLUTE\n' for k, n in enumerate(used)) + 'END\n'
        if search in ('trace',) and not used: raise Discard()
        if search: order = [(None, sea, 'UNKNOWN')] + order
        Path('work').mkdir(exist_ok=True)
        called = vc.choice('file', ('main', 'main', 'main.v2'))
        if vc.choice('instr', ('here', 'memory')) == 'here': Path(called + '.instr').write_text(text)
        else: b.add_instr(called, text)
        found = {n: next(((h[n], cat) for r, h, cat in order if n in h), None) for n in used}
        with contextlib.redirect_stdout(io.StringIO()): o = vc.run(x.get_instrument, called + vc.choice('called', ('', '.instr')))
        if any(v is None for v in found.values()): vc.check(o.raised, 'a component which no registry has is refused', lambda: f'{o} {found}')
        else:
            vc.check(not o.raised, 'components of registries', lambda: f'{o} {found} {text}')
            for inst, n in zip(o.value.components, used):
                p = inst.type.get_parameter('id')
                vc.check(inst.type.name == n and str(p.value) == found[n][0], 'the definition is that of the first registry which has it', lambda: f'{n} {p} {found}')
                vc.check(inst.type.category == found[n][1], 'its category is its folder in the registry', lambda: f'{inst.type.category} {found}')
                o2 = vc.run(x.get_component, n)
                vc.check(not o2.raised and o2.value is inst.type, 'a definition is read once', o2)
