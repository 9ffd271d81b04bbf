"""Whole C programs: an instrument is written, read by the real reader and translated by the real translator; the program is compiled
with gcc, with a small runtime (RUNTIME) in place of the McStas one, and run.  What it prints is compared with a model of the
instrument (Model), which knows nothing of the generated text.  Bounded: these are concrete runs, never counted as proved."""
import math, os, shutil, subprocess, tempfile
from pathlib import Path

HEADER = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#ifndef MCCODE_BASE_TYPES
#error "base types"
#endif
typedef unsigned long randstate_t;
enum instr_formal_types {instr_type_int, instr_type_string, instr_type_char, instr_type_vector, instr_type_double};
struct mcinputtable_struct { char *name; void *par; enum instr_formal_types type; char *val; char *unit; };
struct metadata_table_struct { char *source; char *name; char *type; char *value; };
extern struct mcinputtable_struct mcinputtable[];
extern struct metadata_table_struct metadata_table[];
extern int num_metadata; extern int numipar; extern int mcNUMCOMP;
extern char instrument_name[], instrument_source[], *instrument_exe, instrument_code[];
extern int traceenabled, defaultmain;
int mcgravitation = 0; int mcdotrace = 0; int mcMagnet = 0;
unsigned long long gpu_innerloop = 2147483647;
FILE *siminfo_file = NULL;
int init(void); int save(FILE *); int finally(void); int display(void);
int _getcomp_index(char *); void *_getvar_parameters(char *); void *_get_particle_var(char *, _class_particle *);
#define DEG2RAD (3.14159265358979323846/180.0)
#define SIG_MESSAGE(msg)
#define DEBUG_INSTR()
#define DEBUG_INSTR_END()
#define DEBUG_COMPONENT(name, c, t) printf("PLACE %s %.9g %.9g %.9g | %.9g %.9g %.9g %.9g %.9g %.9g %.9g %.9g %.9g\n", name, (c).x, (c).y, (c).z, (t)[0][0], (t)[0][1], (t)[0][2], (t)[1][0], (t)[1][1], (t)[1][2], (t)[2][0], (t)[2][1], (t)[2][2]);
#define DEBUG_ENTER()
#define DEBUG_COMP(c)
#define DEBUG_ABSORB()
#define DEBUG_SCATTER()
#define DEBUG_STATE() ;
#define DEBUG_LEAVE() ;
#define MPI_MASTER(statement) { statement; }
#define MAGNET_OFF do { } while (0)
#define SCATTER do { DEBUG_SCATTER(); SCATTERED++; } while (0)
#define POS_A_COMP_INDEX(index) (instrument->_position_absolute[index])
'''

FUNCTIONS = r'''
char *stracpy(char *d, char *s, int n) { int i; for (i = 0; i < n; i++) { d[i] = s[i]; if (!s[i]) break; } return d; }
Coords coords_set(MCNUM x, MCNUM y, MCNUM z) { Coords a; a.x = x; a.y = y; a.z = z; return a; }
Coords coords_get(Coords a, MCNUM *x, MCNUM *y, MCNUM *z) { *x = a.x; *y = a.y; *z = a.z; return a; }
Coords coords_add(Coords a, Coords b) { return coords_set(a.x + b.x, a.y + b.y, a.z + b.z); }
Coords coords_sub(Coords a, Coords b) { return coords_set(a.x - b.x, a.y - b.y, a.z - b.z); }
Coords coords_neg(Coords a) { return coords_set(-a.x, -a.y, -a.z); }
double coords_len(Coords a) { return sqrt(a.x * a.x + a.y * a.y + a.z * a.z); }
int coords_test_zero(Coords a) { return a.x == 0 && a.y == 0 && a.z == 0; }
Coords rot_apply(Rotation t, Coords a) { return coords_set(t[0][0] * a.x + t[0][1] * a.y + t[0][2] * a.z, t[1][0] * a.x + t[1][1] * a.y + t[1][2] * a.z, t[2][0] * a.x + t[2][1] * a.y + t[2][2] * a.z); }
void rot_set_rotation(Rotation t, double px, double py, double pz) {
  double cx = cos(px), sx_ = sin(px), cy = cos(py), sy_ = sin(py), cz = cos(pz), sz_ = sin(pz);
  t[0][0] = cy * cz; t[0][1] = sx_ * sy_ * cz + cx * sz_; t[0][2] = sx_ * sz_ - cx * sy_ * cz;
  t[1][0] = -cy * sz_; t[1][1] = cx * cz - sx_ * sy_ * sz_; t[1][2] = sx_ * cz + cx * sy_ * sz_;
  t[2][0] = sy_; t[2][1] = -sx_ * cy; t[2][2] = cx * cy;
}
int rot_test_identity(Rotation t) { int i, j; for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) if (t[i][j] != (i == j)) return 0; return 1; }
void rot_mul(Rotation a, Rotation b, Rotation c) { int i, j; for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) c[i][j] = a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j]; }
void rot_copy(Rotation d, Rotation s) { memcpy(d, s, sizeof(Rotation)); }
void rot_transpose(Rotation s, Rotation d) { int i, j; for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) d[i][j] = s[j][i]; }
void mccoordschange(Coords a, Rotation t, _class_particle *q) {
  Coords b = rot_apply(t, coords_set(q->x, q->y, q->z)); b = coords_add(b, a); q->x = b.x; q->y = b.y; q->z = b.z;
  b = rot_apply(t, coords_set(q->vx, q->vy, q->vz)); q->vx = b.x; q->vy = b.y; q->vz = b.z;
}
_class_particle mcsetstate(double x, double y, double z, double vx, double vy, double vz, double t, double sx, double sy, double sz, double p, int g, void *m, int b) {
  _class_particle q; memset(&q, 0, sizeof q);
  q.x = x; q.y = y; q.z = z; q.vx = vx; q.vy = vy; q.vz = vz; q.t = t; q.p = p; q.mcgravitation = g; q.mcMagnet = m; q.allow_backprop = b; q._index = 1; return q;
}
_class_particle mcgetstate(_class_particle q, double *x, double *y, double *z, double *vx, double *vy, double *vz, double *t, double *sx, double *sy, double *sz, double *p) { *x = q.x; *y = q.y; *z = q.z; return q; }
unsigned long _hash(unsigned long a) { return a; }
void siminfo_init(FILE *f) { }
void siminfo_close(void) { }
void mcset_ncount(unsigned long long n) { gpu_innerloop = n; }
long sort_absorb_last(_class_particle *particles, _class_particle *pbuffer, long len, long buffer_len, long flag_split, long *mult) {
  long n = 0; for (long i = 0; i < len; i++) if (!particles[i]._absorbed) particles[n++] = particles[i];
  for (long i = n; i < buffer_len; i++) particles[i]._absorbed = 1;
  *mult = 1; return n;
}
void mcdis_magnify(char *w) {} void mcdis_line(double a, double b, double c, double d, double e, double f) { printf("LINE %g %g\n", a, f); }
'''

MAIN = r'''
int mccode_main(int argc, char *argv[]) {
  for (int i = 0; i < numipar; i++) {
    char *w = mcinputtable[i].val;
    for (int k = 1; k < argc; k++) { size_t n = strlen(mcinputtable[i].name); if (!strncmp(argv[k], mcinputtable[i].name, n) && argv[k][n] == '=') w = argv[k] + n + 1; }
    printf("PAR %s %d %s\n", mcinputtable[i].name, mcinputtable[i].type == instr_type_double ? 0 : mcinputtable[i].type == instr_type_int ? 1 : 2, w);
    if (mcinputtable[i].type == instr_type_double) *(double *)mcinputtable[i].par = strtod(w, NULL);
    else if (mcinputtable[i].type == instr_type_int) *(int *)mcinputtable[i].par = (int)strtol(w, NULL, 10);
    else *(char **)mcinputtable[i].par = strdup(w);
  }
  if (mcinputtable[numipar].name) printf("PAR more\n");
  for (int i = 0; i < num_metadata; i++) { printf("META %s %s %s ", metadata_table[i].source, metadata_table[i].name, metadata_table[i].type); for (char *q = metadata_table[i].value; *q; q++) printf("%02x", (unsigned char)*q); printf("\n"); }
  printf("NAME %s %d\n", instrument_name, mcNUMCOMP);
  init();
  long ncount = getenv("NCOUNT") ? atol(getenv("NCOUNT")) : 1;
#ifdef FUNNEL
  gpu_innerloop = ncount; raytrace_all_funnel(ncount, 0);
#else
  raytrace_all(ncount, 0);
#endif
  if (getenv("MCDIS")) display();
  finally();
  return 0;
}
'''

def runtime(d):
    """a registry of the small runtime, in directory d"""
    from mccode_antlr.reader.registry import LocalRegistry
    d.mkdir()
    for n, t in (('mccode-r.h.in', HEADER), ('mcstas-r.h', ''), ('mccode-r.c', FUNCTIONS), ('mcstas-r.c', ''), ('metadata-r.c', ''), ('mccode_main.c', MAIN), ('mccode-r.h', '')):
        (d / n).write_text(t)
    reg = LocalRegistry('libc', str(d))
    reg.version = '3.5.20'
    return reg

def translate(d, instr, comps):
    """the C program of an instrument (a text) with components {name: text}: the real reader, the real translator"""
    import mccode_antlr.translators.c as tc
    from mccode_antlr.loader.loader import parse_mccode_instr
    from mccode_antlr.reader.registry import InMemoryRegistry
    mem = InMemoryRegistry('mem')
    for n, t in comps.items(): mem.add(n + '.comp', t)
    keep = tc.LIBC_REGISTRY
    tc.LIBC_REGISTRY = runtime(d / 'runtime')
    try:
        ins = parse_mccode_instr(instr, [mem])
        v = tc.CTargetVisitor(ins, config=dict(default_main=True, enable_trace=False, portable=False, include_runtime=True, embed_instrument_file=False))
        return ins, v.contents()
    finally: tc.LIBC_REGISTRY = keep

def compile_(d, text, funnel=False, sanitize=False):
    """-> (program, '') or (None, what the compiler says)"""
    (d / 'o.c').write_text(text)
    r = subprocess.run(['gcc', '-std=gnu99', '-w', '-Werror=implicit-function-declaration', '-Werror=incompatible-pointer-types', '-Werror=int-conversion', '-Werror=return-type', *(['-fsanitize=address,undefined', '-fno-sanitize-recover=all'] if sanitize else []), *(['-DFUNNEL'] if funnel else []), '-o', str(d / 'prog'), str(d / 'o.c'), '-lm'], capture_output=True, text=True)
    return (d / 'prog', '') if r.returncode == 0 else (None, r.stderr)

def run(prog, args=(), n=1, display=False):
    env = {'PATH': os.environ['PATH'], 'NCOUNT': str(n), 'ASAN_OPTIONS': 'detect_leaks=0', **({'MCDIS': '1'} if display else {})}
    r = subprocess.run(['bash', '-c', 'ulimit -t 20; set -o pipefail; timeout 30 "$@" | head -c 1000000', 'run', str(prog), *args], capture_output=True, text=True, errors='replace', env=env, cwd=str(prog.parent))
    return r.returncode, r.stdout, r.stderr[:3000]


# --- components whose programs print what they see ------------------------------------------------------------------------------
M_COMP = r'''DEFINE COMPONENT M
SETTING PARAMETERS (double a=1.5, int n=2, string s="as it is", vector v={4,5,6}, dx=0, int scat=-1, int absorb=-1)
SHARE %{
int shared_M(int q) { return q + 1; }
%}
USERVARS %{ int seen; %}
DECLARE %{
  double priv;
  int tab[3];
%}
INITIALIZE %{
  priv = a * 2; tab[0] = n; tab[1] = 7; tab[2] = shared_M(n);
  printf("INIT %s %.9g %d %d %d\n", _comp->_name, priv, tab[0], tab[1], tab[2]);
%}
TRACE %{
  _particle->cnt++;
  printf("TR %s %d %.9g %.9g %.9g %.9g %.9g %.9g %.9g %d %d %.9g %.9g %.9g %.9g %.9g %d %.9g %s\n", _comp->_name, (int)_comp->_index, x, y, z, vx, vy, vz, p, _particle->cnt, (int)_particle->flag, _particle->uv, a, v[0], v[1], v[2], n, priv, s);
  { char nm[99]; int one = 5, bad = 9; sprintf(nm, "seen_%d", (int)_comp->_index);
    int *was = particle_getvar_void(_particle, nm, &bad); if (bad) printf("VAR get\n");
    int *also = _get_particle_var(nm, _particle); if (was != also) printf("VAR other %s\n", nm);
    one += *was; if (particle_setvar_void(_particle, nm, &one) || *was != one) printf("VAR set\n");
    printf("SEEN %s %d\n", _comp->_name, one);
    if (particle_getvar(_particle, "uv", &bad) != _particle->uv || bad) printf("VAR double\n");
    particle_getvar_void(_particle, "seen_99", &bad); if (!bad || !particle_setvar_void(_particle, "seen_99", &one)) printf("VAR unknown\n");
    if (particle_getvar(_particle, "x", &bad) != x || bad || _get_particle_var("seen_99", _particle)) printf("VAR x\n"); }
  x += dx; t += 1;
  if (_particle->cnt == scat || scat == 0) SCATTER;
  if (_particle->cnt == absorb) ABSORB;
%}
SAVE %{ printf("SAVE %s %.9g %s\n", _comp->_name, priv, s); %}
FINALLY %{ printf("FIN %s %d\n", _comp->_name, tab[2]); %}
MCDISPLAY %{ printf("SHOW %s\n", _comp->_name); line(a, 0, 0, 0, 0, n); %}
END
'''

K_COMP = r'''DEFINE COMPONENT K
SETTING PARAMETERS (w=2, int dummy=1)
%SNOACC
SHARE %{
static int shared_K = 3;
%}
TRACE %{
  _particle->cnt++;
  printf("TRK %s %d %.9g %.9g %.9g %.9g %.9g %d\n", _comp->_name, (int)_comp->_index, x, y, z, p, w, shared_K + dummy);
  SCATTER;
%}
MCDISPLAY %{ printf("SHOW %s\n", _comp->_name); %}
END
'''

Z_COMP = '''DEFINE COMPONENT Z
SETTING PARAMETERS (q=1)
INITIALIZE %{ printf("INITZ %s %.9g\\n", _comp->_name, q); q = q + 1; %}
SAVE %{ printf("SAVEZ %s %.9g\\n", _comp->_name, q); %}
END
'''

COMPS = {'M': M_COMP, 'K': K_COMP.replace('%SNOACC\n', ''), 'Z': Z_COMP}


# --- linear algebra of the runtime -----------------------------------------------------------------------------------------------
ONE = ((1, 0, 0), (0, 1, 0), (0, 0, 1))
def rot(ax, ay, az):
    x, y, z = (math.radians(q) for q in (ax, ay, az))
    cx, sx, cy, sy, cz, sz = math.cos(x), math.sin(x), math.cos(y), math.sin(y), math.cos(z), math.sin(z)
    # a turn about x, then the turned y, then the turned z
    rx, ry, rz = ((1, 0, 0), (0, cx, sx), (0, -sx, cx)), ((cy, 0, -sy), (0, 1, 0), (sy, 0, cy)), ((cz, sz, 0), (-sz, cz, 0), (0, 0, 1))
    return mul(rz, mul(ry, rx))
def mul(a, b): return tuple(tuple(sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)) for i in range(3))
def app(a, u): return tuple(sum(a[i][k] * u[k] for k in range(3)) for i in range(3))
def tr(a): return tuple(zip(*a))
def add(u, w): return tuple(p + q for p, q in zip(u, w))
def sub(u, w): return tuple(p - q for p, q in zip(u, w))


class Inst:
    """what the instrument says about one component: values of expressions are (text, value) pairs"""
    def __init__(self, name, kind):
        self.name, self.kind, self.params, self.at, self.rot, self.when, self.split, self.group, self.extend, self.jumps, self.meta = name, kind, {}, None, None, None, None, None, None, [], []

    def text(self):
        def c(u): return '(' + ', '.join(t for t, _ in u) + ')'
        t = ('SPLIT ' + ('' if self.split[0] is None else self.split[0] + ' ') if self.split else '') + f'COMPONENT {self.name} = {self.kind}'
        t += '(' + ', '.join(f'{k}={v[0]}' for k, v in self.params.items()) + ')'
        if self.when: t += f' WHEN {self.when[0]}'
        t += f' AT {c(self.at[0])} {self.at[1]}'
        if self.rot: t += f' ROTATED {c(self.rot[0])} {self.rot[1]}'
        if self.group: t += f' GROUP {self.group}'
        if self.extend: t += f'\nEXTEND %{{ {self.extend} %}}'
        for how, to, kind, e in self.jumps: t += f'\nJUMP {how} {kind} {e[0]}'
        for ty, n, v in self.meta: t += f'\nMETADATA "{ty}" {n} %{{{v}%}}'
        return t


class Model:
    """the run of one particle through the instrument, in absolute coordinates"""
    def __init__(self, insts):
        self.insts, self.by, prev = insts, {}, None
        for i, c in enumerate(insts, 1):
            c.index = i
            ref = lambda how: None if how == 'ABSOLUTE' else prev if how == 'RELATIVE PREVIOUS' else self.by[how.split()[1]]
            r = ref(c.at[1])
            u = tuple(v for _, v in c.at[0])
            c.pos = u if r is None else add(r.pos, app(tr(r.R), u))
            ang, q = ((0, 0, 0), r) if c.rot is None else (tuple(v for _, v in c.rot[0]), ref(c.rot[1]))
            c.R = rot(*ang) if q is None else mul(rot(*ang), q.R)
            self.by[c.name], prev = c, c

    def ray(self, jumps=True, split=True):
        """the lines printed by TRACE"""
        out = []
        st = dict(g=(0.0, 0.0, 0.0), v=(0.0, 0.0, 1.0), t=0.0, p=1.0, cnt=0, flag=0, uv=0.0, absorbed=False, iters={}, seen={})
        self.go(st, 1, out, jumps, split, budget=[400])
        return out

    def go(self, st, i, out, jumps, split, budget):
        """one pass over the components from i on: each is run when it is its turn"""
        n = len(self.insts)
        while True:
            budget[0] -= 1
            if budget[0] < 0: raise RecursionError
            if i > n or st['absorbed']: break
            c = self.insts[i - 1]
            if split and c.split and not c.__dict__.get('_in'):
                k = 10 if c.split[0] is None else c.split[1]
                keep = dict(st, iters=dict(st['iters']))
                for _ in range(k):
                    st.clear(); st.update(keep, iters=dict(keep['iters']))
                    st['p'] /= k
                    c._in = True
                    try: self.go(st, i, out, jumps, split, budget)
                    finally: c._in = False
                return
            i = self.step(c, st, out, jumps)

    def step(self, c, st, out, jumps):
        """one component; which is next"""
        first = c.group is None or not any(d.group == c.group and d.index < c.index for d in self.insts)
        if first: st['save'] = {k: st[k] for k in ('g', 'v', 't', 'p')}
        st['scattered'] = 0
        if c.when is None or c.when[1](st): self.trace(c, st, out)
        last = max((d.index for d in self.insts if d.group == c.group), default=0) if c.group else 0
        nxt = c.index + 1
        if c.group:
            if st['scattered']: nxt = last + 1
            elif c.index < last: st.update(st['save'], absorbed=False)
            else: st['absorbed'] = True
        if st['absorbed'] or not jumps: return nxt
        for how, to, kind, e in c.jumps:
            go = False
            if kind == 'WHEN': go = e[1](st)
            else:
                key = (c.name, to)
                st['iters'][key] = st['iters'].get(key, 0) + 1
                if st['iters'][key] < e[1]: go = True
                else: st['iters'][key] = 0
            if go:
                d = self.by[to]
                st['g'] = add(d.pos, app(tr(d.R), app(c.R, sub(st['g'], c.pos))))
                st['v'] = app(tr(d.R), app(c.R, st['v']))
                nxt = d.index
        return nxt

    def trace(self, c, st, out):
        x = app(c.R, sub(st['g'], c.pos))
        v = app(c.R, st['v'])
        val = lambda k, d: c.params[k][1] if k in c.params else d
        if c.kind == 'M':
            st['cnt'] += 1
            a, vv, n = val('a', 1.5), val('v', (4, 5, 6)), val('n', 2)
            seen = st['seen'] = {**st['seen'], c.index: st['seen'].get(c.index, 0) + 5}
            out.append(['TR', c.name, c.index, *x, *v, st['p'], st['cnt'], st['flag'], st['uv'], a, *vv, n, a * 2, val('s', 'as it is')])
            out.append(['SEEN', c.name, seen[c.index]])
            st['g'] = add(c.pos, app(tr(c.R), add(x, (val('dx', 0), 0, 0))))
            st['t'] += 1
            if val('scat', -1) in (0, st['cnt']): st['scattered'] += 1
            if val('absorb', -1) == st['cnt']: st['absorbed'] = True; return
        elif c.kind == 'K':
            st['cnt'] += 1
            out.append(['TRK', c.name, c.index, *x, st['p'], val('w', 2), 3 + val('dummy', 1)])
            st['scattered'] += 1
        if c.extend:
            st['uv'] += c.index
            st['flag'] = st['scattered']


def line(words, typed):
    """a printed line against what is expected: numbers nearly equal, words equal, a text last"""
    w = words.split(' ')
    if len(w) < len(typed): return False
    *head, last = typed
    if isinstance(last, str): w = w[:len(head)] + [' '.join(w[len(head):])]
    if len(w) != len(typed): return False
    for a, b in zip(w, typed):
        if isinstance(b, str):
            if a != b: return False
        elif abs(float(a) - b) > 1e-6 * max(1, abs(b)): return False
    return True
