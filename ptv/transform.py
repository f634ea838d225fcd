"""Mechanical AST translation of /repo/src/ptwt for symbolic execution.

Kept: every statement and expression.  Dropped: annotations and docstrings.
Changed (meaning preserving): locals live in frame objects; loops,
comprehensions, list displays, `and/or/not/in` call the verifier runtime.
"""
import ast


class Scope:
    def __init__(self, kind, locals_=(), frame=None, parent=None, globs=(), nonloc=()):
        self.kind, self.locals, self.frame, self.parent = kind, set(locals_), frame, parent
        self.globs = set(globs)
        self.nonloc = set(nonloc)


def collect_locals(node):
    """Names bound in a function body (not in nested scopes)."""
    out, globs, nonloc = set(), set(), set()

    class Vis(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)
            for d in n.decorator_list:
                self.visit(d)
        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def _comp(self, n):
            for g in n.generators:
                for x in ast.walk(g.iter):
                    if isinstance(x, ast.NamedExpr):
                        out.add(x.target.id)
        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

        def visit_Global(self, n):
            globs.update(n.names)

        def visit_Nonlocal(self, n):
            nonloc.update(n.names)

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                out.add(a.asname or a.name)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_MatchAs(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)
    v = Vis()
    for s in node.body:
        v.visit(s)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
        out.add(x.arg)
    return out - globs - nonloc, globs, nonloc


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def vc(attr):
    return ast.Attribute(name('__vc__'), attr, ast.Load())


def call(attr, *args, **kw):
    return ast.Call(vc(attr), list(args), [ast.keyword(k, v) for k, v in kw.items()])


def lam(args, body):
    return ast.Lambda(ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), body)


class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.scope = None
        self.n = 0
        self.loops = 0
        self.qual = []

    def fresh(self):
        self.n += 1
        return self.n

    # ---- names
    def visit_Name(self, n):
        s = self.scope
        first = True
        while s is not None:
            if s.kind == 'class':
                if first and n.id in s.locals:
                    return n
            elif n.id in s.globs:
                return n
            elif n.id in s.locals:
                if s.frame is None:
                    return n
                return ast.copy_location(ast.Attribute(name(s.frame), n.id, n.ctx), n)
            first = False
            s = s.parent
        return n

    # ---- functions
    def _args(self, a):
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            x.annotation = None
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]

    def visit_FunctionDef(self, n):
        if any(isinstance(x, ast.Yield) or isinstance(x, ast.YieldFrom) for x in ast.walk(n)) and False:
            pass
        decs = [self.visit(d) for d in n.decorator_list]
        self._args(n.args)
        n.returns = None
        loc, globs, nonloc = collect_locals(n)
        fr = f'__f{self.fresh()}__'
        outer = self.scope
        isover = any(isinstance(d, ast.Name) and d.id == 'overload' for d in n.decorator_list)
        self.scope = Scope('func', loc, fr, outer, globs, nonloc)
        self.qual.append(n.name)
        q = '.'.join(self.qual)
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            body = body[1:]
        new = []
        for s in body:
            r = self.visit(s)
            if r is None:
                continue
            new.extend(r if isinstance(r, list) else [r])
        a = n.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        init = ast.Assign([name(fr, ast.Store())], call('frame', ast.Constant(f'{self.mod}.{q}'), ast.Dict([ast.Constant(p) for p in params], [name(p) for p in params])))
        n.body = [init] + (new or [ast.Pass()])
        self.scope = outer
        self.qual.pop()
        inner = call('fn', ast.Constant(f'{self.mod}.{q}'), ast.Constant(n.lineno))
        isprop = any(isinstance(d, ast.Name) and d.id in ('property', 'overload', 'staticmethod', 'classmethod') for d in n.decorator_list)
        n.decorator_list = decs + ([] if isover else [inner])
        _ = isprop
        if outer is not None and outer.kind == 'func':
            return [n, ast.Assign([ast.Attribute(name(outer.frame), n.name, ast.Store())], name(n.name))]
        return n

    def visit_Lambda(self, n):
        self._args(n.args)
        a = n.args
        ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])}
        outer = self.scope
        self.scope = Scope('lambda', ps, None, outer)
        n.body = self.visit(n.body)
        self.scope = outer
        return n

    def visit_ClassDef(self, n):
        decs = [self.visit(d) for d in n.decorator_list]
        n.bases = [self.visit(b) for b in n.bases]
        outer = self.scope
        loc = set()
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                loc.add(s.name)
            for x in ast.walk(s) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else ():
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    loc.add(x.id)
        self.scope = Scope('class', loc, None, outer)
        self.qual.append(n.name)
        body = []
        for s in n.body:
            if isinstance(s, ast.AnnAssign):
                body.append(s)
                if s.value is not None:
                    s.value = self.visit(s.value)
                continue
            r = self.visit(s)
            if r is not None:
                body.extend(r if isinstance(r, list) else [r])
        n.body = body or [ast.Pass()]
        self.qual.pop()
        self.scope = outer
        n.decorator_list = decs
        if outer is not None and outer.kind == 'func':
            return [n, ast.Assign([ast.Attribute(name(outer.frame), n.name, ast.Store())], name(n.name))]
        return n

    # ---- statements
    def visit_AnnAssign(self, n):
        if n.value is None:
            return None
        return ast.copy_location(ast.Assign([self.visit(n.target)], self.visit(n.value)), n)

    def _import(self, n):
        if self.scope is not None and self.scope.kind == 'func':
            out = [n]
            for a in n.names:
                nm = (a.asname or a.name).split('.')[0]
                out.append(ast.Assign([ast.Attribute(name(self.scope.frame), nm, ast.Store())], name(nm)))
            return out
        return n
    visit_Import = visit_ImportFrom = _import

    def visit_Nonlocal(self, n):
        return None

    def visit_ExceptHandler(self, n):
        if n.name and self.scope is not None and self.scope.kind == 'func':
            nm = n.name
            n.name = '__exc__'
            n.type = self.visit(n.type) if n.type else None
            body = [ast.Assign([ast.Attribute(name(self.scope.frame), nm, ast.Store())], name('__exc__'))]
            for s in n.body:
                r = self.visit(s)
                body.extend(r if isinstance(r, list) else [r] if r is not None else [])
            n.body = body
            return n
        return self.generic_visit(n)

    def _modnames(self, stmts):
        f = ast.parse('def g(): pass').body[0]
        f.body = stmts
        loc, _, _ = collect_locals(f)
        return sorted(loc)

    def _block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out or [ast.Pass()]

    @staticmethod
    def _leaves(stmts):
        """whether the loop with this body can be left early"""
        for s in stmts:
            if isinstance(s, (ast.Break, ast.Return)):
                return True
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            inner = isinstance(s, (ast.For, ast.While))
            for f in ('body', 'orelse', 'finalbody', 'handlers', 'cases'):
                sub = getattr(s, f, None)
                if not isinstance(sub, list):
                    continue
                sub = [x for h in sub for x in (h.body if hasattr(h, 'body') and not isinstance(h, ast.stmt) else [h])]
                if inner and f == 'body':
                    if any(isinstance(x, ast.Return) for t in sub for x in ast.walk(t)):
                        return True
                elif T._leaves(sub):
                    return True
        return False

    def visit_For(self, n):
        if self.scope is None or self.scope.kind != 'func':
            return self.generic_visit(n)
        self.loops += 1
        lid = f'{self.mod}.{".".join(self.qual)}#{self.loops}'
        mods = self._modnames([ast.Assign([n.target], ast.Constant(0))] + n.body) + (['!leaves'] if self._leaves(n.body) else [])
        it = self.visit(n.iter)
        tgt = self.visit(n.target)
        tnames = [x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)] if False else []
        new = ast.For(tgt, call('loop', ast.Constant(lid), it, name(self.scope.frame), ast.Constant(tuple(mods))), self._block(n.body), self._block(n.orelse) if n.orelse else [])
        _ = tnames
        return ast.copy_location(new, n)

    def visit_While(self, n):
        if self.scope is None or self.scope.kind != 'func':
            return self.generic_visit(n)
        self.loops += 1
        lid = f'{self.mod}.{".".join(self.qual)}#{self.loops}'
        mods = self._modnames(n.body + [ast.Expr(n.test)])
        new = ast.For(name('__w__', ast.Store()), call('while_', ast.Constant(lid), lam([], self.visit(n.test)), name(self.scope.frame), ast.Constant(tuple(mods))),
                      self._block(n.body), self._block(n.orelse) if n.orelse else [])
        return ast.copy_location(new, n)

    # ---- expressions
    def visit_List(self, n):
        if isinstance(n.ctx, ast.Store):
            return self.generic_visit(n)
        return self._display('mklist', n)

    def visit_Tuple(self, n):
        if isinstance(n.ctx, ast.Store) or not any(isinstance(e, ast.Starred) for e in n.elts):
            return self.generic_visit(n)
        return self._display('mktuple', n)

    def _display(self, f, n):
        args = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                args.append(ast.Tuple([ast.Constant(1), self.visit(e.value)], ast.Load()))
            else:
                args.append(ast.Tuple([ast.Constant(0), self.visit(e)], ast.Load()))
        return ast.copy_location(call(f, *args), n)

    def _comp(self, n):
        kind = {ast.ListComp: 'list', ast.SetComp: 'set', ast.DictComp: 'dict', ast.GeneratorExp: 'gen'}[type(n)]
        outer = self.scope
        its, tg = [], []
        its.append(lam([], self.visit(n.generators[0].iter)))
        params = []
        for k, g in enumerate(n.generators):
            nm = f'__t{k}__'
            if k > 0:
                its.append(self._wrap(params, self.visit(g.iter)))
            params.append((nm, g.target))
            self.scope = Scope('lambda', [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)], None, self.scope)
        conds = [c for g in n.generators for c in g.ifs]
        cond = ast.Constant(None)
        if conds:
            e = conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds)
            cond = self._wrap(params, self.visit(e))
        if kind == 'dict':
            elt = ast.Tuple([self.visit(n.key), self.visit(n.value)], ast.Load())
        else:
            elt = self.visit(n.elt)
        elt = self._wrap(params, elt)
        self.scope = outer
        _ = tg
        return ast.copy_location(call('comp', ast.Constant(kind), ast.Tuple(its, ast.Load()), cond, elt), n)

    def _wrap(self, params, body):
        """lambda __t0, __t1: body with the targets unpacked"""
        args = []
        for nm, t in params:
            if isinstance(t, ast.Name):
                args.append(t.id if t.id not in args else nm)
            else:
                args.append(nm)
        for nm, t in reversed(params):
            if isinstance(t, ast.Tuple):
                if not all(isinstance(e, ast.Name) for e in t.elts):
                    # nested targets
                    sub = [f'{nm}{i}__' for i in range(len(t.elts))]
                    inner = body
                    for s, e in reversed(list(zip(sub, t.elts))):
                        if isinstance(e, ast.Name):
                            inner = ast.Call(lam([e.id], inner), [name(s)], [])
                        elif isinstance(e, ast.Tuple):
                            inner = ast.Call(lam([x.id for x in e.elts], inner), [ast.Starred(name(s), ast.Load())], [])
                    body = ast.Call(lam(sub, inner), [ast.Starred(name(nm), ast.Load())], [])
                else:
                    body = ast.Call(lam([e.id for e in t.elts], body), [ast.Starred(name(nm), ast.Load())], [])
        return lam(args, body)
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_BoolOp(self, n):
        if self.scope is None:
            return self.generic_visit(n)
        f = 'and_' if isinstance(n.op, ast.And) else 'or_'
        return ast.copy_location(call(f, *[lam([], self.visit(v)) for v in n.values]), n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not) and self.scope is not None:
            return ast.copy_location(call('not_', self.visit(n.operand)), n)
        return self.generic_visit(n)

    def visit_Compare(self, n):
        if self.scope is None:
            return self.generic_visit(n)
        if len(n.ops) == 1:
            if isinstance(n.ops[0], (ast.In, ast.NotIn)):
                c = call('in_', self.visit(n.left), self.visit(n.comparators[0]))
                return ast.copy_location(c if isinstance(n.ops[0], ast.In) else call('not_', c), n)
            return self.generic_visit(n)
        vals = [n.left] + n.comparators
        if all(isinstance(v, (ast.Name, ast.Constant, ast.Attribute, ast.UnaryOp, ast.BinOp, ast.Subscript, ast.Call)) for v in vals[1:-1]):
            parts = [ast.Compare(vals[i], [n.ops[i]], [vals[i + 1]]) for i in range(len(n.ops))]
            import copy
            return self.visit(ast.copy_location(ast.BoolOp(ast.And(), [copy.deepcopy(p) for p in parts]), n))
        return self.generic_visit(n)

    def visit_Attribute(self, n):
        n = self.generic_visit(n)
        if n.attr == 'join' and isinstance(n.ctx, ast.Load) and self.scope is not None:
            return ast.copy_location(call('joiner', n.value), n)
        return n

    def visit_JoinedStr(self, n):
        # messages only: formatted lazily, never inspected
        return self.generic_visit(n)


def transform(src, modname):
    tree = ast.parse(src)
    # drop module docstring, keep __future__
    t = T(modname)
    tree = t.visit(tree)
    ast.fix_missing_locations(tree)
    return tree
