"""Mechanical extraction of the verified text.

Every module of the package under /repo/src/mccode_antlr (except the ANTLR generated
grammar) is loaded from its *current source file* through this importer.  The AST of the
file is kept as it is, except that a fixed list of operations which CPython would execute
natively (and so could not be given symbolic operands) is routed through hook functions:

  * calls of a builtin by name (len, isinstance, str, ...)      -> __vc__.b_<name>(...)
  * calls of a few container/str methods (join, split, get ...) -> __vc__.mcall(obj, name, ...)
  * f-strings                                                   -> __vc__.fstr(parts)
  * ``a in b`` / ``a not in b``                                 -> __vc__.contains(a, b)
  * ``a[b]`` load / store                                       -> __vc__.getitem / setitem
  * ``'..' % x``                                                -> __vc__.mod
  * the iterable of ``for`` statements and comprehensions       -> __vc__.loop / comp / iter; a ``for`` over a sequence of unknown length is
                                                                   cut at its invariant (vc/seqs.py)
  * ``f(*xs)``, ``def f(*xs)``                                  -> __vc__.starcall / vararg
  * ``import math`` / ``from math import``                      -> vc.smath
  * ``logger`` of loguru                                        -> a logger that drops everything

With concrete operands every hook does exactly what CPython would have done.
Nothing else is added, dropped or reordered, and no line of /repo is written.
"""
import ast, sys, importlib.abc, importlib.machinery, importlib.util, os, symtable

SRC = os.environ.get('VC_REPO_SRC', '/repo/src')
PKG = 'mccode_antlr'

HOOKED_BUILTINS = {
    'len', 'isinstance', 'str', 'int', 'float', 'bool', 'round', 'min', 'max', 'sum', 'any', 'all', 'sorted',
    'range', 'enumerate', 'zip', 'list', 'tuple', 'set', 'dict', 'repr', 'format', 'type', 'hash', 'abs',
    'reversed', 'print', 'map', 'filter', 'frozenset', 'ord', 'hasattr', 'next', 'iter', 'hex', 'chr', 'id', 'pow',
}
HOOKED_METHODS = {
    'join', 'split', 'rsplit', 'partition', 'rpartition', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith',
    'replace', 'get', 'pop', 'setdefault', 'update', 'format', 'index', 'count', 'remove', 'find', 'rfind', 'upper', 'lower',
    'add', 'discard', 'fromkeys', 'extend', 'union', 'difference', 'intersection', 'issubset', 'removeprefix',
    'removesuffix', 'splitlines', 'encode', 'isidentifier', 'isdigit', 'isspace', 'isalnum', 'isalpha', 'append', 'insert', 'isupper', 'islower',
    'zfill', 'ljust', 'rjust', 'isnumeric', 'isdecimal', 'capitalize', 'title', 'translate', 'casefold', 'difference_update',
}


class Xform(ast.NodeTransformer):
    def __init__(self, module_names):
        self.scopes = [set(module_names)]
        self.fdepth, self.loops = 0, 0

    # ---- scope tracking so that a locally bound name never is taken for the builtin
    @staticmethod
    def _bound(node):
        out = set()
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            out.add(x.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        stack = list(body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(n.name)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    out.add((al.asname or al.name).split('.')[0])
            stack.extend(ast.iter_child_nodes(n))
        return out

    def is_builtin(self, name):
        return name in HOOKED_BUILTINS and not any(name in s for s in self.scopes)

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self._visit_args(node.args)
        self.scopes.append(self._bound(node))
        self.fdepth += 1
        body = []
        for s in node.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r]
        if node.args.vararg is not None:
            v = node.args.vararg.arg
            doc = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
            body.insert(doc, ast.copy_location(ast.Assign(targets=[ast.Name(id=v, ctx=ast.Store())], value=self._hook('vararg', [ast.Name(id=v, ctx=ast.Load())], node)), node))
        node.body = body
        self.fdepth -= 1
        self.scopes.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def _visit_args(self, a):
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        return a

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target) if not isinstance(node.target, ast.Name) else node.target
        return node

    def visit_Lambda(self, node):
        node.args = self._visit_args(node.args)
        self.scopes.append(self._bound(node))
        node.body = self.visit(node.body)
        self.scopes.pop()
        return node

    @staticmethod
    def _hook(name, args, node, kws=None):
        return ast.copy_location(ast.Call(
            func=ast.Attribute(value=ast.Name(id='__vc__', ctx=ast.Load()), attr=name, ctx=ast.Load()),
            args=args, keywords=kws or []), node)

    def visit_Expr(self, node):
        # messages to people: dropped, with what is formatted for them
        v = node.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id == 'logger':
            return ast.copy_location(ast.Pass(), node)
        return self.generic_visit(node)

    def visit_Call(self, node):
        f = node.func
        node.args = [self.visit(a) for a in node.args]
        node.keywords = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in node.keywords]
        if isinstance(f, ast.Name):
            if self.is_builtin(f.id):
                return self._hook('b_' + f.id, node.args, node, node.keywords)
            return self._starcall(node) if f.id != 'super' else node
        if isinstance(f, ast.Attribute) and f.attr in HOOKED_METHODS and not f.attr.startswith('__'):
            if isinstance(f.value, ast.Name) and self.is_builtin(f.value.id):
                pass  # dict.fromkeys etc: keep the builtin type as receiver
            else:
                f.value = self.visit(f.value)
            return self._hook('mcall', [f.value, ast.Constant(f.attr)] + node.args, node, node.keywords)
        node.func = self.visit(f)
        return self._starcall(node)

    def _display(self, node, kind):
        """[*xs, y] may have unknown sequences in it"""
        if not isinstance(node.ctx, ast.Load) or not any(isinstance(e, ast.Starred) for e in node.elts): return self.generic_visit(node)
        parts = [ast.Tuple(elts=[ast.Constant(isinstance(e, ast.Starred)), self.visit(e.value if isinstance(e, ast.Starred) else e)], ctx=ast.Load()) for e in node.elts]
        return self._hook('display', [ast.Constant(kind), ast.Tuple(elts=parts, ctx=ast.Load())], node)
    def visit_List(self, node): return self._display(node, 'list')
    def visit_Tuple(self, node): return self._display(node, 'tuple')

    def _starcall(self, node):
        if any(isinstance(a, ast.Starred) for a in node.args):
            # a sequence of unknown length can be passed on as *args
            parts = [ast.Tuple(elts=[ast.Constant(isinstance(a, ast.Starred)), a.value if isinstance(a, ast.Starred) else a], ctx=ast.Load()) for a in node.args]
            return self._hook('starcall', [node.func, ast.Tuple(elts=parts, ctx=ast.Load())], node, node.keywords)
        return node

    def visit_Name(self, node):
        # a hooked builtin used as a value (e.g. map(str, xs), _comb(str, xs)); types stay types in isinstance()
        if isinstance(node.ctx, ast.Load) and self.is_builtin(node.id) and node.id in ('str', 'repr', 'len', 'int', 'float', 'abs', 'bool'):
            return self._hook('bref', [ast.Constant(node.id)], node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return self._hook('fstr', parts, node)

    def visit_Compare(self, node):
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = self._hook('contains', [self.visit(node.left), self.visit(node.comparators[0])], node)
            if isinstance(node.ops[0], ast.NotIn):
                return ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=c), node)
            return c
        self.generic_visit(node)
        return node

    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load):
            if isinstance(node.slice, ast.Slice):
                self.generic_visit(node)
                return self._hook('getitem', [node.value, self._slice(node.slice)], node)
            return self._hook('getitem', [self.visit(node.value), self.visit(node.slice)], node)
        node.value = self.visit(node.value)
        node.slice = self.visit(node.slice)
        return node

    @staticmethod
    def _slice(s):
        n = lambda x: x if x is not None else ast.Constant(None)
        return ast.Call(func=ast.Attribute(value=ast.Name(id='__vc__', ctx=ast.Load()), attr='slice', ctx=ast.Load()),
                        args=[n(s.lower), n(s.upper), n(s.step)], keywords=[])

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(self._hook('setitem', [self.visit(t.value), self.visit(t.slice), self.visit(node.value)], node)), node)
        self.generic_visit(node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return self._hook('mod', [node.left, node.right], node)
        return node

    # ---- iteration
    def visit_For(self, node):
        """the loop rule of vc.seqs for sequences of unknown length; with any other iterable an ordinary loop"""
        if not self.fdepth:
            self.generic_visit(node)
            node.iter = self._hook('iter', [node.iter], node)
            return node
        names = {n.id for b in node.body for n in ast.walk(b) if isinstance(n, ast.Name)}
        targets = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
        stored = {n.id for b in node.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        stored = tuple(sorted((stored & self.scopes[-1]) - targets))
        names = sorted((names & self.scopes[-1]) - targets)
        self.generic_visit(node)
        self.loops += 1
        lp = f'_vc_l{self.loops}'
        L = lambda: ast.Name(id=lp, ctx=ast.Load())
        loc = lambda s: ast.fix_missing_locations(ast.copy_location(s, node))
        def put():
            out = [f'if {lp}.cut:', f'    _vc_n = {lp}.havoc(locals())']
            for n in names: out.append(f'    if {n!r} in _vc_n: {n} = _vc_n[{n!r}]')
            m = ast.parse('\n'.join(out)).body[0]
            for x in ast.walk(m):
                if hasattr(x, 'lineno'): ast.copy_location(x, node)
            return m
        start = ast.Assign(targets=[ast.Name(id=lp, ctx=ast.Store())], value=self._hook('loop', [node.iter, ast.Constant(tuple(sorted(targets))), ast.Constant(tuple(names)), ast.Constant(stored)], node))
        node.iter = L()
        node.body = [put()] + node.body
        node.orelse = [put()] + node.orelse
        return [loc(start), node]

    def visit_comprehension(self, node):
        self.generic_visit(node)
        return node

    def _comp(self, node):
        flat = lambda t: isinstance(t, ast.Name) or isinstance(t, ast.Tuple) and all(isinstance(x, ast.Name) for x in t.elts)
        if (all(flat(g.target) and not g.is_async for g in node.generators) and self.fdepth
                and not any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(node))):
            return self._comp_hook('list' if isinstance(node, ast.ListComp) else 'gen', node.generators, node.elt, node)
        self.generic_visit(node)
        for g in node.generators:
            g.iter = self._hook('iter', [g.iter], node)
        return node

    def _comp_hook(self, kind, generators, elt, node):
        """comp(kind, iterable, element, condition, is it a tuple target); with further generators the element is what they make, and flat is set"""
        g = generators[0]
        names = [g.target.id] if isinstance(g.target, ast.Name) else [x.id for x in g.target.elts]
        it = self.visit(g.iter)
        self.scopes.append(set(names))
        elt = self._comp_hook('gen', generators[1:], elt, node) if generators[1:] else self.visit(elt)
        ifs = [self.visit(x) for x in g.ifs]
        self.scopes.pop()
        lam = lambda body: ast.copy_location(ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body), node)
        cond = ast.Constant(None) if not ifs else lam(ifs[0] if len(ifs) == 1 else ast.BoolOp(op=ast.And(), values=ifs))
        return self._hook('flat' if generators[1:] else 'comp', [ast.Constant(kind), it, lam(elt), cond, ast.Constant(isinstance(g.target, ast.Tuple))], node)

    def visit_SetComp(self, node):
        gen = ast.copy_location(ast.GeneratorExp(elt=node.elt, generators=node.generators), node)
        return self._hook('b_set', [self.visit(gen)], node)

    def visit_DictComp(self, node):
        gen = ast.copy_location(ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators), node)
        return self._hook('b_dict', [self.visit(gen)], node)

    visit_ListComp = visit_GeneratorExp = _comp

    # ---- imports
    def visit_ImportFrom(self, node):
        if node.module == 'math' and node.level == 0:
            node.module = 'vc.smath'
        if node.module == 'loguru' and node.level == 0:
            node.module = 'vc.nolog'
        return node

    def visit_Import(self, node):
        out = []
        for al in node.names:
            if al.name == 'math':
                al = ast.alias(name='vc.smath', asname=al.asname or 'math')
            out.append(al)
        node.names = out
        return node

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        # names bound in a class body do not shadow builtins inside its methods, but do in the class body itself
        own = {n.name for n in node.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
        body = []
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                body.append(self.visit(s))
            elif isinstance(s, (ast.AnnAssign,)):
                body.append(self.visit_AnnAssign(s))
            else:
                self.scopes.append(own)
                body.append(self.visit(s))
                self.scopes.pop()
        node.body = body
        return node


def transform_source(src, filename):
    tree = ast.parse(src, filename)
    names = set()
    for n in tree.body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
        for m in ast.walk(n) if isinstance(n, (ast.Assign, ast.Import, ast.ImportFrom, ast.AnnAssign, ast.If, ast.Try)) else []:
            if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                names.add(m.id)
            if isinstance(m, (ast.Import, ast.ImportFrom)):
                for al in m.names:
                    names.add((al.asname or al.name).split('.')[0])
    tree = Xform(names).visit(tree)
    # the hook object; after the docstring and __future__ imports
    k = 0
    while k < len(tree.body) and ((isinstance(tree.body[k], ast.Expr) and isinstance(tree.body[k].value, ast.Constant))
                                  or (isinstance(tree.body[k], ast.ImportFrom) and tree.body[k].module == '__future__')):
        k += 1
    tree.body.insert(k, ast.ImportFrom(module='vc.hooks', names=[ast.alias(name='HOOKS', asname='__vc__')], level=0))
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, encoding='utf-8') as f:
            return transform_source(f.read(), path)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != PKG and not fullname.startswith(PKG + '.'):
            return None
        if fullname.startswith(PKG + '.grammar'):
            return None
        rel = fullname.replace('.', '/')
        for cand, ispkg in ((f'{SRC}/{rel}/__init__.py', True), (f'{SRC}/{rel}.py', False)):
            if os.path.isfile(cand):
                return importlib.util.spec_from_file_location(
                    fullname, cand, loader=Loader(fullname, cand),
                    submodule_search_locations=[os.path.dirname(cand)] if ispkg else None)
        return None


def install():
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    sys.meta_path.insert(0, Finder())
