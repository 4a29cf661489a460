"""Mechanical AST instrumentation of pdfmajor modules (import hook).

Only function bodies are rewritten; each rewrite is semantics-preserving on ordinary values and routes the operation
through `_vc` so that it also works on symbolic proxies.  Nothing is dropped.  Module-level code runs unmodified.
"""
import ast, sys, os, importlib.abc, importlib.machinery, importlib.util

REPO = os.environ.get('VERIF_REPO', '/repo')


class Names(ast.NodeVisitor):
    """names assigned in a statement list (not inside nested functions)"""
    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names and not n.startswith('_vc'):
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    visit_AsyncFunctionDef = visit_FunctionDef
    def visit_ClassDef(self, n): self.add(n.name)
    def visit_Lambda(self, n): pass
    def visit_ListComp(self, n): pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split('.')[0])

    visit_ImportFrom = visit_Import


def assigned(stmts):
    v = Names()
    for s in stmts:
        v.visit(s)
    return v.names


def has_loop_jump(stmts):
    """break/continue belonging to the enclosing loop"""
    class F(ast.NodeVisitor):
        found = False
        def visit_Break(self, n): self.found = True
        visit_Continue = visit_Break
        def visit_For(self, n): [self.visit(s) for s in n.orelse]
        visit_While = visit_For
        def visit_FunctionDef(self, n): pass
        def visit_Lambda(self, n): pass
    f = F()
    for s in stmts:
        f.visit(s)
    return f.found


def vc(name):
    return ast.Attribute(ast.Name('_vc', ast.Load()), name, ast.Load())


def call(name, *args):
    return ast.Call(vc(name), list(args), [])


def const(x):
    return ast.Constant(x)


ALL_KEYS = set()


class Instr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []         # qualname parts
        self.infunc = 0
        self.loopno = {}
        self.tmp = 0
        self.globals_ = [set()]

    # ---- scopes
    def visit_Module(self, node):
        node.body = [self.visit(s) for s in node.body]
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        sv = self.infunc
        self.infunc = 0
        node.body = [self.visit(s) for s in node.body]
        self.infunc = sv
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        self.infunc += 1
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
            a.annotation = None
        self.infunc -= 1
        self.stack.pop()
        return node

    def visit_Lambda(self, node):
        if not self.infunc:
            return node
        self.stack.append('<lambda>')
        node.body = self.visit(node.body)
        self.stack.pop()
        return node

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out

    def generic_visit(self, node):
        # outside functions leave code alone except for nested defs
        if not self.infunc and not isinstance(node, (ast.Module,)):
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(node, f, None)
                if isinstance(b, list):
                    setattr(node, f, [self.visit(s) for s in b])
            for h in getattr(node, 'handlers', []) or []:
                h.body = [self.visit(s) for s in h.body]
            return node
        return super().generic_visit(node)

    # ---- expressions
    def visit_Call(self, node):
        if not self.infunc:
            return node
        if isinstance(node.func, ast.Name) and node.func.id in ('super', 'locals', 'vars', 'globals'):
            return self.generic_visit(node)
        self.generic_visit(node)
        args = [ast.Starred(call('star', a.value), ast.Load()) if isinstance(a, ast.Starred) else a for a in node.args]
        return ast.copy_location(ast.Call(vc('call'), [node.func] + args, node.keywords), node)

    def _index(self, s):
        if isinstance(s, ast.Slice):
            n = lambda x: x if x is not None else const(None)
            return ast.Call(ast.Name('slice', ast.Load()), [n(s.lower), n(s.upper), n(s.step)], [])
        return s

    def visit_Subscript(self, node):
        if not self.infunc:
            return node
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(call('getitem', node.value, self._index(node.slice)), node)
        return node

    def visit_Compare(self, node):
        if not self.infunc:
            return node
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            l, r = node.left, node.comparators[0]
            m = {ast.In: 'contains', ast.NotIn: 'ncontains', ast.Is: 'is_', ast.IsNot: 'isnot', ast.Eq: 'eq',
                 ast.NotEq: 'ne'}.get(type(op))
            if m:
                return ast.copy_location(call(m, l, r), node)
        return node

    def visit_BinOp(self, node):
        if not self.infunc:
            return node
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(call('mod', node.left, node.right), node)
        return node

    def visit_UnaryOp(self, node):
        if not self.infunc:
            return node
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(call('not_', node.operand), node)
        return node

    def visit_JoinedStr(self, node):
        if not self.infunc:
            return node
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                e = self.visit(v.value)
                spec = v.format_spec
                if spec is not None:
                    spec = self.visit(spec)
                parts.append(ast.Tuple([e, const(v.conversion), spec if spec is not None else const('')], ast.Load()))
            else:
                parts.append(v)
        return ast.copy_location(call('fstr', *parts), node)

    def visit_List(self, node):
        if not self.infunc:
            return node
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(call('mklist', ast.Tuple(node.elts, ast.Load())), node)
        return node

    def visit_Dict(self, node):
        if not self.infunc:
            return node
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            parts = []
            for k, v in zip(node.keys, node.values):
                parts.append(ast.Tuple([const(True), v], ast.Load()) if k is None else
                             ast.Tuple([const(False), ast.Tuple([k, v], ast.Load())], ast.Load()))
            return ast.copy_location(call('mkdict2', *parts), node)
        return ast.copy_location(call('mkdict', *[ast.Tuple([k, v], ast.Load())
                                                  for k, v in zip(node.keys, node.values)]), node)

    def visit_Set(self, node):
        if not self.infunc:
            return node
        self.generic_visit(node)
        return ast.copy_location(call('mkset', ast.Tuple(node.elts, ast.Load())), node)

    def _comp(self, node, kind):
        if not self.infunc:
            return node
        gens = node.generators
        if len(gens) == 1 and not gens[0].is_async and isinstance(gens[0].target, (ast.Name, ast.Tuple)):
            g = gens[0]
            it = self.visit(g.iter)
            arg = '_vcx'

            def lam(body):
                # lambda over the target names
                if isinstance(g.target, ast.Name):
                    a = [ast.arg(g.target.id)]
                    star = False
                else:
                    if not all(isinstance(e, ast.Name) for e in g.target.elts):
                        return None
                    a = [ast.arg(e.id) for e in g.target.elts]
                return ast.Lambda(ast.arguments([], a, None, [], [], None, []), body)
            if isinstance(g.target, ast.Tuple) and not all(isinstance(e, ast.Name) for e in g.target.elts):
                self.generic_visit(node)
                return node
            nt = const(None) if isinstance(g.target, ast.Name) else const(len(g.target.elts))
            if kind == 'dict':
                body = ast.Tuple([self.visit(node.key), self.visit(node.value)], ast.Load())
            else:
                body = self.visit(node.elt)
            conds = [self.visit(c) for c in g.ifs]
            cond = const(None) if not conds else lam(conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds))
            return ast.copy_location(call('comp', const(kind), nt, lam(body), cond, it), node)
        for g in gens:
            g.iter = ast.Call(vc('iter_'), [g.iter], [])
        self.generic_visit(node)
        w = {'list': 'mklist', 'set': 'mkset', 'dict': 'fromdict'}.get(kind)
        return ast.copy_location(call(w, node), node) if w else node

    def visit_ListComp(self, node): return self._comp(node, 'list')
    def visit_SetComp(self, node): return self._comp(node, 'set')
    def visit_DictComp(self, node): return self._comp(node, 'dict')
    def visit_GeneratorExp(self, node): return self._comp(node, 'gen')

    # ---- statements
    def visit_AnnAssign(self, node):
        if not self.infunc:
            return node
        if node.value is None:
            return ast.copy_location(ast.Pass(), node)
        return self.visit(ast.copy_location(ast.Assign([node.target], node.value), node))

    def visit_Assign(self, node):
        if not self.infunc:
            return node
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            val = self.visit(node.value)
            # Python evaluates the value first
            return self._setitem(t, val, node)
        if len(node.targets) == 1 and isinstance(node.targets[0], (ast.Tuple, ast.List)) and not any(
                isinstance(e, ast.Starred) for e in node.targets[0].elts):
            t = node.targets[0]
            self.generic_visit(node)
            node.value = call('unpack', node.value, const(len(t.elts)))
            return node
        self.generic_visit(node)
        return node

    def _setitem(self, t, val, node):
        self.tmp += 1
        v = '_vct%d' % self.tmp
        s1 = ast.Assign([ast.Name(v, ast.Store())], val)
        s2 = ast.Expr(call('setitem', self.visit(t.value), self.visit(self._index(t.slice)), ast.Name(v, ast.Load())))
        return [ast.copy_location(ast.fix_missing_locations(ast.copy_location(s, node)), node) for s in (s1, s2)]

    def visit_AugAssign(self, node):
        if not self.infunc:
            return node
        if isinstance(node.target, ast.Subscript):
            self.tmp += 1
            o, i = '_vco%d' % self.tmp, '_vci%d' % self.tmp
            L = lambda n: ast.Name(n, ast.Load())
            cur = call('getitem', L(o), L(i))
            val = self.visit(node.value)
            res = call('mod', cur, val) if isinstance(node.op, ast.Mod) else call(
                'augop', const(type(node.op).__name__), cur, val)
            ss = [ast.Assign([ast.Name(o, ast.Store())], self.visit(node.target.value)),
                  ast.Assign([ast.Name(i, ast.Store())], self.visit(self._index(node.target.slice))),
                  ast.Expr(call('setitem', L(o), L(i), res))]
            return [ast.fix_missing_locations(ast.copy_location(s, node)) for s in ss]
        self.generic_visit(node)
        return node

    def visit_Delete(self, node):
        if not self.infunc:
            return node
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                s = ast.Expr(call('delitem', self.visit(t.value), self.visit(self._index(t.slice))))
            else:
                s = ast.Delete([t])
            out.append(ast.fix_missing_locations(ast.copy_location(s, node)))
        return out

    def visit_ExceptHandler(self, node):
        if not self.infunc:
            return self.generic_visit(node)
        if node.type is None:
            node.type = ast.copy_location(vc('PyExc'), node)
        else:
            node.type = self.visit(node.type)
        node.body = self.block(node.body)
        return node

    def visit_If(self, node):
        if not self.infunc:
            return self.generic_visit(node)
        node.test = self.visit(node.test)
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse)
        return node

    def visit_Try(self, node):
        if not self.infunc:
            return self.generic_visit(node)
        node.body = self.block(node.body)
        node.handlers = [self.visit(h) for h in node.handlers]
        node.orelse = self.block(node.orelse)
        node.finalbody = self.block(node.finalbody)
        return node

    def visit_With(self, node):
        if not self.infunc:
            return self.generic_visit(node)
        for i in node.items:
            i.context_expr = self.visit(i.context_expr)
        node.body = self.block(node.body)
        return node

    def _key(self):
        q = '.'.join(self.stack)
        n = self.loopno.get(q, 0)
        self.loopno[q] = n + 1
        k = '%s:%s#%d' % (self.mod, q, n)
        ALL_KEYS.add(k)
        return k

    def _loop(self, node, isfor):
        key = self._key()
        names = assigned(node.body + ([ast.Expr(node.target)] if False else []))
        if isfor:
            v = Names()
            v.visit(node.target)
            for n in v.names:
                if n not in names:
                    names.append(n)
        self.tmp += 1
        L = '_vcL%d' % self.tmp
        S = '_vcS%d' % self.tmp
        ld = lambda n: ast.Name(n, ast.Load())
        it = self.visit(node.iter) if isfor else const(None)
        test = None if isfor else self.visit(node.test)
        target = node.target if isfor else None
        body = self.block(node.body)
        orelse = self.block(node.orelse)
        if has_loop_jump(node.orelse):
            orelse = [ast.Expr(call('unsupported', const('break in loop else')))]
        pre = ast.Assign([ast.Name(L, ast.Store())],
                         call('loop', const(key), const(isfor), it, ast.Tuple([const(n) for n in names], ast.Load())))
        locs = ast.Call(ast.Name('locals', ast.Load()), [], [])
        inner = []
        # if L.cut: S = L.head(locals()); if 'x' in S: x = S['x'] ...
        hv = [ast.Assign([ast.Name(S, ast.Store())], ast.Call(ast.Attribute(ld(L), 'head', ast.Load()), [locs], []))]
        for n in names:
            hv.append(ast.If(ast.Compare(const(n), [ast.In()], [ld(S)]),
                             [ast.Assign([ast.Name(n, ast.Store())],
                                         ast.Subscript(ld(S), const(n), ast.Load()))], []))
        inner.append(ast.If(ast.Attribute(ld(L), 'cut', ast.Load()), hv, []))
        if isfor:
            cond = ast.Call(ast.Attribute(ld(L), 'more', ast.Load()), [], [])
        else:
            cond = ast.Call(ast.Attribute(ld(L), 'test', ast.Load()), [test], [])
        inner.append(ast.If(ast.UnaryOp(ast.Not(), cond), orelse + [ast.Break()], []))
        if isfor:
            cur = ast.Call(ast.Attribute(ld(L), 'cur', ast.Load()), [], [])
            if isinstance(target, (ast.Tuple, ast.List)):
                cur = call('unpack', cur, const(len(target.elts)))
            inner.append(ast.Assign([target], cur))
        inner.extend(body)
        w = ast.While(const(True), inner, [])
        return [ast.fix_missing_locations(ast.copy_location(s, node)) for s in (pre, w)]

    def visit_For(self, node):
        if not self.infunc:
            return self.generic_visit(node)
        return self._loop(node, True)

    def visit_While(self, node):
        if not self.infunc:
            return self.generic_visit(node)
        return self._loop(node, False)


def instrument_source(src, filename, modname):
    tree = ast.parse(src, filename)
    tree = Instr(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        import warnings
        path = self.get_filename(fullname)
        with open(path, 'rb') as f:
            src = importlib.util.decode_source(f.read())
        big = path.endswith(('glyphlist.py', 'latin_enc.py', 'fontmetrics.py'))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if big:
                return compile(src, path, 'exec')
            return instrument_source(src, path, fullname)

    def exec_module(self, module):
        from . import hooks
        module.__dict__['_vc'] = hooks
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, repo):
        self.repo = repo

    def find_spec(self, name, path, target=None):
        if name != 'pdfmajor' and not name.startswith('pdfmajor.'):
            return None
        rel = name.replace('.', '/')
        base = os.path.join(self.repo, rel)
        for p, pkg in ((os.path.join(base, '__init__.py'), True), (base + '.py', False)):
            if os.path.isfile(p):
                return importlib.util.spec_from_file_location(
                    name, p, loader=Loader(name, p), submodule_search_locations=[base] if pkg else None)
        return None


def install(repo=None):
    sys.path[:] = [p for p in sys.path]
    sys.meta_path.insert(0, Finder(repo or REPO))
    vp = '/opt/venv/lib/python3.12/site-packages'
    if vp not in sys.path:
        sys.path.append(vp)
    sys.dont_write_bytecode = True


def install_pristine(repo=None):
    sys.path.insert(0, repo or REPO)
    vp = '/opt/venv/lib/python3.12/site-packages'
    if vp not in sys.path:
        sys.path.append(vp)
    sys.dont_write_bytecode = True
