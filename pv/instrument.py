"""Mechanical extraction: loads the real sources of /repo/src/csvw and rewrites function bodies so
that every operation that may meet a symbolic value goes through the engine (`VC_`).

Nothing of the code is dropped.  What changes:
  * calls, subscripts, `in`/`is`, `%`, f-strings, displays and comprehensions -> engine dispatch with
    the same evaluation order (the engine performs the native operation when all operands are concrete);
  * `for`/`while` -> the same loop with an engine-controlled head (unrolled for concrete iterables,
    cut with inductive invariants for symbolic ones);
  * a bare `except:` -> `except Exception:` (so that the engine's control exceptions pass).
Annotations, decorators, class bodies and module level code run natively and unchanged.
"""
import ast
import os
import sys
import importlib.abc
import importlib.util

REPO = os.environ.get('PV_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'csvw')


def name(id_, store=False):
    return ast.Name(id=id_, ctx=ast.Store() if store else ast.Load())


def vc(attr_, *args, **kw):
    return ast.Call(
        func=ast.Attribute(value=name('VC_'), attr=attr_, ctx=ast.Load()),
        args=list(args), keywords=[ast.keyword(arg=k, value=v) for k, v in kw.items()])


class Assigned(ast.NodeVisitor):
    """Names bound in a statement list (this scope only)."""

    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.add(node.id)

    def visit_FunctionDef(self, node):
        self.add(node.name)

    def visit_ClassDef(self, node):
        self.add(node.name)

    def visit_Lambda(self, node):
        pass

    def visit_ExceptHandler(self, node):
        # the name is unbound again at the end of the handler
        for s in node.body:
            self.visit(s)

    def visit_ListComp(self, node):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_Import(self, node):
        for a in node.names:
            self.add((a.asname or a.name).split('.')[0])

    visit_ImportFrom = visit_Import


class Body(ast.NodeTransformer):
    """Rewrites the body of one function."""

    def __init__(self, qual, nonlocals=()):
        self.qual = qual
        self.loops = 0
        self.comps = 0
        self.skip = set(nonlocals)

    # -- scopes ---------------------------------------------------------
    def visit_FunctionDef(self, node):
        return instrument_function(node, self.qual + '.<locals>.' + node.name)

    def visit_Lambda(self, node):
        sub = Body(self.qual + '.<lambda>')
        node.args = self._args(node.args)
        node.body = sub.visit(node.body)
        return node

    def _args(self, args):
        args.defaults = [self.visit(d) for d in args.defaults]
        args.kw_defaults = [d and self.visit(d) for d in args.kw_defaults]
        return args

    def visit_ClassDef(self, node):
        return Module(self.qual + '.<locals>.').visit(node)

    # -- expressions ----------------------------------------------------
    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in ('super', 'locals') and not node.args:
            return node
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in node.keywords]
        star = any(k.arg is None for k in kws) or any(isinstance(a, ast.Starred) for a in args)
        if star:
            pos = ast.Tuple(elts=[
                ast.Tuple(elts=[ast.Constant('*'), a.value], ctx=ast.Load()) if isinstance(a, ast.Starred)
                else ast.Tuple(elts=[ast.Constant(''), a], ctx=ast.Load()) for a in args], ctx=ast.Load())
            kwt = ast.Tuple(elts=[
                ast.Tuple(elts=[ast.Constant(k.arg), k.value], ctx=ast.Load()) for k in kws], ctx=ast.Load())
            if isinstance(f, ast.Attribute):
                res = vc('xmeth', self.visit(f.value), ast.Constant(f.attr), pos, kwt)
            else:
                res = vc('xcall', self.visit(f), pos, kwt)
        elif isinstance(f, ast.Attribute):
            res = vc('meth', self.visit(f.value), ast.Constant(f.attr), *args)
            res.keywords = kws
        else:
            res = vc('call', self.visit(f), *args)
            res.keywords = kws
        return ast.copy_location(res, node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            n = {ast.In: 'in_', ast.NotIn: 'not_in', ast.Is: 'is_', ast.IsNot: 'is_not',
                 ast.Eq: 'eq', ast.NotEq: 'ne'}.get(type(op))
            if n:
                return ast.copy_location(vc(n, node.left, node.comparators[0]), node)
            return node
        # a < b < c: evaluated as (a < b) and (b < c) with b evaluated once
        names, vals = [], [node.left] + node.comparators
        parts = []
        for i, op in enumerate(node.ops):
            left = vals[0] if i == 0 else name('VCM_%d' % i)
            right = vals[i + 1]
            if i + 1 < len(node.ops):
                right = ast.NamedExpr(target=name('VCM_%d' % (i + 1), True), value=right)
            n = {ast.In: 'in_', ast.NotIn: 'not_in', ast.Is: 'is_', ast.IsNot: 'is_not',
                 ast.Eq: 'eq', ast.NotEq: 'ne'}.get(type(op))
            parts.append(vc(n, left, right) if n else
                         ast.Compare(left=left, ops=[op], comparators=[right]))
        return ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Slice):
                sl = vc('slice', *[x if x is not None else ast.Constant(None)
                                   for x in (sl.lower, sl.upper, sl.step)])
            return ast.copy_location(vc('getitem', node.value, sl), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        n = {ast.Mod: 'mod', ast.Add: 'add', ast.Sub: 'sub', ast.BitOr: 'bor'}.get(type(node.op))
        if n:
            return ast.copy_location(vc(n, node.left, node.right), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec else ast.Constant('')
                parts.append(ast.Tuple(elts=[
                    self.visit(v.value), ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(vc('fstr', *parts), node)

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(vc('mklist', node), node)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(vc('mkset', ast.List(elts=node.elts, ctx=ast.Load())), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        items = [ast.Tuple(elts=[k if k is not None else ast.Constant(Ellipsis), v], ctx=ast.Load())
                 for k, v in zip(node.keys, node.values)]
        return ast.copy_location(vc('mkdict', ast.List(elts=items, ctx=ast.Load())), node)

    # -- comprehensions ---------------------------------------------------
    def _comp(self, node, kind, elt):
        self.comps += 1
        cid = '%s#c%d' % (self.qual, self.comps)
        g = node.generators[0]
        first = self.visit(g.iter)
        inner_iter = name('VCI_')
        gens = []
        for i, gg in enumerate(node.generators):
            it = inner_iter if i == 0 else vc('iterable', self.visit(gg.iter))
            gens.append(ast.comprehension(
                target=gg.target, iter=it, ifs=[vc('truth', self.visit(c)) for c in gg.ifs], is_async=0))
        body = ast.ListComp(elt=elt, generators=gens)
        fn = ast.Lambda(
            args=ast.arguments(posonlyargs=[], args=[ast.arg(arg='VCI_')], kwonlyargs=[],
                               kw_defaults=[], defaults=[]), body=body)
        filt = ast.Constant(any(gg.ifs for gg in node.generators) or len(node.generators) > 1)
        return ast.copy_location(vc('comp', ast.Constant(kind), ast.Constant(cid), fn, first, filt), node)

    def visit_ListComp(self, node):
        return self._comp(node, 'list', self.visit(node.elt))

    def visit_SetComp(self, node):
        return self._comp(node, 'set', self.visit(node.elt))

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'gen', self.visit(node.elt))

    def visit_DictComp(self, node):
        return self._comp(node, 'dict', ast.Tuple(
            elts=[self.visit(node.key), self.visit(node.value)], ctx=ast.Load()))

    # -- statements -------------------------------------------------------
    def _rebind(self, lv, names):
        res = []
        for n in names:
            if n in self.skip:
                continue
            res.append(ast.If(
                test=ast.Call(func=ast.Attribute(value=name(lv), attr='has', ctx=ast.Load()),
                              args=[ast.Constant(n)], keywords=[]),
                body=[ast.Assign(
                    targets=[name(n, True)],
                    value=ast.Call(func=ast.Attribute(value=name(lv), attr='get', ctx=ast.Load()),
                                   args=[ast.Constant(n)], keywords=[]))],
                orelse=[]))
        return res

    def _loop(self, node, it, cond):
        self.loops += 1
        k = self.loops
        lv = 'VCL_%d' % k
        a = Assigned()
        if it is not None:
            a.visit(node.target)
        for s in node.body:
            a.visit(s)
        names = [n for n in a.names if not n.startswith('VC')]
        orelse = [self.visit(s) for s in node.orelse]
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        flat_else = []
        for r in orelse:
            flat_else.extend(r if isinstance(r, list) else [r])
        lid = '%s#%d' % (self.qual, k)
        init = ast.Assign(targets=[name(lv, True)], value=vc(
            'loop', ast.Constant(lid), it if it is not None else ast.Constant(None),
            ast.Constant(it is not None), ast.Constant(tuple(names))))
        head = ast.Assign(targets=[name('VCC_%d' % k, True)], value=ast.Call(
            func=ast.Attribute(value=name(lv), attr='head', ctx=ast.Load()),
            args=[ast.Call(func=name('locals'), args=[], keywords=[])], keywords=[]))
        stop = ast.If(
            test=ast.UnaryOp(op=ast.Not(), operand=(
                name('VCC_%d' % k) if it is not None else cond)),
            body=flat_else + [ast.Break()], orelse=[])
        get = []
        if it is not None:
            elem = ast.Call(
                func=ast.Attribute(value=name(lv), attr='elem', ctx=ast.Load()), args=[], keywords=[])
            if isinstance(node.target, (ast.Tuple, ast.List)) and \
                    not any(isinstance(e, ast.Starred) for e in node.target.elts):
                elem = vc('unpack', elem, ast.Constant(len(node.target.elts)))
            get = [ast.Assign(targets=[node.target], value=elem)]
        loop = ast.While(test=ast.Constant(True),
                         body=[head] + self._rebind(lv, names) + [stop] + get + body, orelse=[])
        return [ast.copy_location(init, node), ast.copy_location(loop, node)]

    def visit_For(self, node):
        it = self.visit(node.iter)
        return self._loop(node, it, None)

    def visit_While(self, node):
        return self._loop(node, None, self.visit(node.test))

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            return self._setitem(node, node.targets[0], node.value)
        node.targets = [self.visit(t) for t in node.targets]
        if len(node.targets) == 1 and isinstance(node.targets[0], (ast.Tuple, ast.List)):
            t = node.targets[0]
            if not any(isinstance(e, ast.Starred) for e in t.elts):
                node.value = vc('unpack', node.value, ast.Constant(len(t.elts)))
        return node

    def _setitem(self, node, t, value):
        sl = self.visit(t.slice)
        if isinstance(t.slice, ast.Slice):
            sl = vc('slice', *[x if x is not None else ast.Constant(None)
                               for x in (sl.lower, sl.upper, sl.step)])
        return ast.copy_location(ast.Expr(vc('setitem', value, self.visit(t.value), sl)), node)

    def visit_AugAssign(self, node):
        value = self.visit(node.value)
        t = node.target
        if isinstance(t, ast.Subscript):
            return ast.copy_location(ast.Expr(vc(
                'augitem', ast.Constant(type(node.op).__name__), self.visit(t.value),
                self.visit(t.slice), value)), node)
        if isinstance(t, ast.Name):
            return ast.copy_location(ast.Assign(targets=[t], value=vc(
                'aug', ast.Constant(type(node.op).__name__), name(t.id), value)), node)
        if isinstance(t, ast.Attribute):
            return ast.copy_location(ast.Expr(vc(
                'augattr', ast.Constant(type(node.op).__name__), self.visit(t.value),
                ast.Constant(t.attr), value)), node)
        node.value = value
        return node

    def visit_Delete(self, node):
        res = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                res.append(ast.copy_location(ast.Expr(
                    vc('delitem', self.visit(t.value), self.visit(t.slice))), node))
            else:
                res.append(ast.copy_location(ast.Delete(targets=[t]), node))
        return res

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = name('Exception')
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node


def instrument_function(node, qual):
    nl = []
    for s in ast.walk(node):
        if isinstance(s, (ast.Global,)):
            nl.extend(s.names)
    b = Body(qual, nl)
    node.args = b._args(node.args)
    body = []
    for s in node.body:
        r = b.visit(s)
        body.extend(r if isinstance(r, list) else [r])
    node.body = body
    return node


class Module(ast.NodeTransformer):
    """Walks module and class bodies; instruments functions and class-level lambdas."""

    def __init__(self, prefix=''):
        self.prefix = prefix

    def visit_FunctionDef(self, node):
        return instrument_function(node, self.prefix + node.name)

    def visit_ClassDef(self, node):
        sub = Module(self.prefix + node.name + '.')
        node.body = [sub.visit(s) for s in node.body]
        return node

    def visit_Lambda(self, node):
        b = Body(self.prefix + '<lambda>')
        node.args = b._args(node.args)
        node.body = b.visit(node.body)
        return node


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, runtime):
        self.runtime = runtime
        self.sources = {}

    def find_spec(self, fullname, path=None, target=None):
        if fullname == 'csvw':
            return importlib.util.spec_from_file_location(
                fullname, os.path.join(SRC, '__init__.py'), loader=self,
                submodule_search_locations=[SRC])
        if fullname.startswith('csvw.'):
            fn = os.path.join(SRC, *fullname.split('.')[1:])
            for cand in (fn + '.py', os.path.join(fn, '__init__.py')):
                if os.path.exists(cand):
                    return importlib.util.spec_from_file_location(
                        fullname, cand, loader=self,
                        submodule_search_locations=[fn] if cand.endswith('__init__.py') else None)

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.origin
        with open(fn, encoding='utf8') as f:
            src = f.read()
        self.sources[module.__name__] = src
        tree = ast.parse(src, fn)
        tree = Module(module.__name__ + '.').visit(tree)
        ast.fix_missing_locations(tree)
        module.__dict__['VC_'] = self.runtime
        exec(compile(tree, fn, 'exec'), module.__dict__)


def install(runtime):
    f = Finder(runtime)
    assert 'csvw' not in sys.modules
    sys.meta_path.insert(0, f)
    return f
