"""offline environment of the package (importing it asks git for tags and needs cached file lists)"""
import os, subprocess, tempfile, shutil, atexit, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
VTSITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup():
    """create the scratch environment; returns (env dict, cleanup)"""
    off = tempfile.mkdtemp(prefix='vc_off_')
    env = dict(os.environ)
    env['PATH'] = '/opt/venv/bin:' + env.get('PATH', '/usr/bin:/bin')
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', GIT_TERMINAL_PROMPT='0',
               XDG_CACHE_HOME=f'{off}/cache', XDG_CONFIG_HOME=f'{off}/config', HOME=f'{off}/home',
               MCCODEANTLR_MCCODE_POOCH__REGISTRY=f'{off}/empty.git', MCCODEANTLR_MCCODE_POOCH__TAG='v0.0.0',
               VC_OFF=off, VC_SCRATCH=f'{off}/scratch')
    for d in ('config', 'home', 'scratch'):
        os.makedirs(f'{off}/{d}')
    run = lambda *a, **k: subprocess.run(a, check=True, capture_output=True, text=True, env=env, **k).stdout.strip()
    run('git', 'init', '-q', '--bare', '-b', 'main', f'{off}/empty.git')
    tree = run('git', '-C', f'{off}/empty.git', 'mktree', input='')
    commit = run('git', '-C', f'{off}/empty.git', '-c', 'user.name=offline', '-c', 'user.email=offline@localhost',
                 'commit-tree', tree, '-m', 'empty')
    run('git', '-C', f'{off}/empty.git', 'tag', 'v0.0.0', commit)
    for n in ('mcstas', 'mcxtrace', 'libc'):
        d = f'{off}/cache/mccode_antlr/{n}/v0.0.0'
        os.makedirs(d)
        open(f'{d}/{n}-registry.txt', 'w').close()
    env['PYTHONPATH'] = ROOT + os.pathsep + env.get('VC_REPO_SRC', '/repo/src')
    return env, (lambda: shutil.rmtree(off, ignore_errors=True))
