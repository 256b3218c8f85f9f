"""
Mechanical instrumentation of a function's current source.

Every construct keeps its Python meaning; what is rewritten only adds a hook
where native Python could not handle a symbolic value:
  calls, `in`, subscript loads, loops, comprehensions.
Decorators are dropped (the undecorated function is what is verified).
"""
import ast
import copy
import inspect
import sys
import textwrap
import types

_SRC = {}      # filename -> (text, tree, {lineno: [FunctionDef...]})
NOHOOK = {"super", "locals", "globals", "vars", "eval", "exec", "dir", "__import__"}


def file_tree(fn):
    ent = _SRC.get(fn)
    if ent is None:
        with open(fn, encoding="utf-8") as f:
            text = f.read()
        ent = _SRC[fn] = (text, ast.parse(text))
    return ent


class NoSource(Exception):
    pass


def find_node(func):
    """the AST of a function object, in the file it was loaded from"""
    code = func.__code__
    try:
        text, tree = file_tree(code.co_filename)
    except (OSError, SyntaxError) as ex:
        raise NoSource("%s: %s" % (code.co_filename, ex))
    best = []
    for n in ast.walk(tree):
        if code.co_name == "<lambda>":
            if isinstance(n, ast.Lambda) and n.lineno == code.co_firstlineno:
                best.append(n)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == code.co_name:
            first = min([n.lineno] + [d.lineno for d in n.decorator_list])
            if first == code.co_firstlineno:
                best.append(n)
    if len(best) > 1 and code.co_name == "<lambda>":
        pos = next(iter(code.co_positions()), None)
        argn = code.co_varnames[:code.co_argcount]
        cand = [n for n in best if tuple(a.arg for a in n.args.args) == argn]
        # several lambdas on a line: match by column of the body
        cols = [p[2] for p in code.co_positions() if p[2] is not None and p[0] == p[1]]
        cand2 = [n for n in cand if cols and
                 any(n.body.col_offset <= c <= n.body.end_col_offset for c in cols)
                 and min(cols) >= n.body.col_offset and max(cols) <= n.body.end_col_offset]
        best = cand2 or cand
    if len(best) != 1:
        raise NoSource("cannot locate the source of %s" % code.co_qualname)
    return best[0]


def assigned_names(nodes):
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        visit_ClassDef = visit_FunctionDef
        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name and n.name not in out:
                out.append(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                nm = (a.asname or a.name).split(".")[0]
                if nm not in out:
                    out.append(nm)

        visit_ImportFrom = visit_Import

    v = V()
    for n in nodes:
        v.visit(n)
    return out


def _rt(attr):
    return ast.Attribute(ast.Name("__pyvc__", ast.Load()), attr, ast.Load())


def _call(fn, *args, keywords=()):
    return ast.Call(fn, list(args), list(keywords))


class Rewriter(ast.NodeTransformer):
    def __init__(self, tag):
        self.tag = tag
        self.n = 0
        self.loops = []       # enclosing loop variables, innermost last

    # nested scopes start with no enclosing loop
    def _scope(self, node):
        saved, self.loops = self.loops, []
        node.body = self._block(node.body)
        # defaults are evaluated outside, visit them too
        self.loops = saved
        node.args = self.visit(node.args)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.returns = None
        return node

    visit_FunctionDef = _scope

    def visit_Lambda(self, node):
        saved, self.loops = self.loops, []
        node.body = self.visit(node.body)
        self.loops = saved
        node.args = self.visit(node.args)
        return node

    def visit_ClassDef(self, node):
        saved, self.loops = self.loops, []
        node = self.generic_visit(node)
        self.loops = saved
        return node

    def _block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out or [ast.Pass()]

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in NOHOOK:
            return self.generic_visit(node)
        self.generic_visit(node)
        for k in node.keywords:
            if k.arg is None:
                k.value = _call(_rt("kwstar"), k.value)
        if any(isinstance(a, ast.Starred) for a in node.args):
            pairs = ast.Tuple([ast.Tuple([ast.Constant(isinstance(a, ast.Starred)),
                                          a.value if isinstance(a, ast.Starred) else a],
                                         ast.Load()) for a in node.args], ast.Load())
            return ast.Call(_rt("callx"), [node.func, pairs], node.keywords)
        return ast.Call(_rt("call"), [node.func] + node.args, node.keywords)

    def visit_Try(self, node):
        """code that catches all exceptions must not catch ours"""
        self.generic_visit(node)
        if node.handlers:
            node.handlers.insert(0, ast.ExceptHandler(_rt("Unsupported"), None, [ast.Raise()]))
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            if isinstance(op, ast.In):
                return _call(_rt("contains"), node.left, node.comparators[0])
            if isinstance(op, ast.NotIn):
                return _call(_rt("not_contains"), node.left, node.comparators[0])
            if isinstance(op, (ast.Is, ast.IsNot)):
                return _call(_rt("is_" if isinstance(op, ast.Is) else "is_not"),
                             node.left, node.comparators[0])
        elif any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in node.ops) and \
                all(isinstance(m, (ast.Name, ast.Constant)) for m in node.comparators[:-1]):
            # a chain over plain names: the conjunction of its links
            xs = [node.left] + node.comparators
            return ast.BoolOp(ast.And(), [
                self._link(ast.Compare(copy.deepcopy(a), [o], [copy.deepcopy(b)]))
                for a, o, b in zip(xs, node.ops, xs[1:])])
        return node

    def _link(self, n):
        op = n.ops[0]
        k = {ast.In: "contains", ast.NotIn: "not_contains", ast.Is: "is_", ast.IsNot: "is_not"}.get(type(op))
        return _call(_rt(k), n.left, n.comparators[0]) if k else n

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return _call(_rt("mod"), node.left, node.right)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Slice):
                sl = _call(ast.Name("__pyvc_slice__", ast.Load()),
                           sl.lower or ast.Constant(None), sl.upper or ast.Constant(None),
                           sl.step or ast.Constant(None))
            elif isinstance(sl, ast.Tuple):
                els = []
                for e in sl.elts:
                    if isinstance(e, ast.Slice):
                        e = _call(ast.Name("__pyvc_slice__", ast.Load()),
                                  e.lower or ast.Constant(None), e.upper or ast.Constant(None),
                                  e.step or ast.Constant(None))
                    els.append(e)
                sl = ast.Tuple(els, ast.Load())
            return _call(_rt("getitem"), node.value, sl)
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if not node.elts and isinstance(node.ctx, ast.Load):
            return _call(_rt("newlist"), ast.Constant("%s:%d:%d" % (self.tag, node.lineno, node.col_offset)))
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        site = ast.Constant("%s:%d:%d" % (self.tag, node.lineno, node.col_offset))
        if not node.keys:
            return _call(_rt("newdict"), site)
        if any(k is None for k in node.keys):
            return _call(_rt("dictx"), site, ast.Tuple([
                ast.Tuple([ast.Constant(k is None),
                           v if k is None else ast.Tuple([k, v], ast.Load())], ast.Load())
                for k, v in zip(node.keys, node.values)], ast.Load()))
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) \
                and not isinstance(node.targets[0].slice, (ast.Slice, ast.Tuple)):
            t = node.targets[0]
            return ast.Expr(_call(_rt("setitem"), t.value, t.slice, node.value))
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) \
                and not isinstance(node.targets[0].slice, (ast.Slice, ast.Tuple)):
            t = node.targets[0]
            return ast.Expr(_call(_rt("delitem"), t.value, t.slice))
        return node

    def visit_JoinedStr(self, node):
        node = self.generic_visit(node)
        return node

    # -- loops
    def _names_sync(self, lv, names, meth):
        out = []
        for nm in names:
            out.append(ast.If(
                _call(ast.Attribute(ast.Name(lv, ast.Load()), "has", ast.Load()), ast.Constant(nm)),
                [ast.Assign([ast.Name(nm, ast.Store())],
                            _call(ast.Attribute(ast.Name(lv, ast.Load()), "val", ast.Load()),
                                  ast.Constant(nm)))], []))
        return out

    def _sync_if(self, test, lv, names):
        if not names:
            return [ast.Expr(test)]
        return [ast.If(test, self._names_sync(lv, names, "val"), [])]

    def visit_For(self, node):
        self.n += 1
        lid = "%s#%d" % (self.tag, self.n)
        lv = "__pyvc_L%d" % self.n
        ev = "__pyvc_e%d" % self.n
        names = assigned_names(node.body)
        tnames = assigned_names([node.target])
        it = self.visit(node.iter)
        self.loops.append(lv)
        body = self._block(node.body)
        self.loops.pop()
        orelse = self._block(node.orelse) if node.orelse else []
        allnames = [n for n in names]
        begin = ast.Assign([ast.Name(lv, ast.Store())], _call(
            _rt("for_loop"), ast.Constant(lid), it,
            ast.Constant(tuple(allnames)), ast.Constant(tuple(tnames)), ast.Constant(node.lineno)))
        L = ast.Name(lv, ast.Load())
        sync = self._sync_if(_call(ast.Attribute(L, "enter_iter", ast.Load())), lv, names)
        bind = ast.Assign([node.target], ast.Name(ev, ast.Load()))
        fin = self._sync_if(_call(ast.Attribute(L, "enter_exit", ast.Load())), lv, names + [
            t for t in tnames if t not in names])
        loop = ast.For(ast.Name(ev, ast.Store()), L, sync + [bind] + body, fin + orelse)
        return [begin, loop]

    def visit_While(self, node):
        self.n += 1
        lid = "%s#%d" % (self.tag, self.n)
        lv = "__pyvc_L%d" % self.n
        names = assigned_names([ast.Expr(node.test)] + node.body)
        test = self.visit(node.test)
        self.loops.append(lv)
        body = self._block(node.body)
        self.loops.pop()
        orelse = self._block(node.orelse) if node.orelse else []
        begin = ast.Assign([ast.Name(lv, ast.Store())], _call(
            _rt("while_loop"), ast.Constant(lid), ast.Constant(tuple(names)),
            ast.Constant(node.lineno)))
        L = ast.Name(lv, ast.Load())
        sync = self._sync_if(_call(ast.Attribute(L, "top", ast.Load())), lv, names)
        leave = ast.Expr(_call(_rt("leaving"), ast.Name(lv, ast.Load())))
        out = ast.If(ast.UnaryOp(ast.Not(), test), [leave] + orelse + [ast.Break()], [])
        loop = ast.While(ast.Constant(True), sync + [out] + body, [])
        return [begin, loop]

    def visit_Break(self, node):
        if self.loops:
            return [ast.Expr(_call(_rt("leaving"), ast.Name(self.loops[-1], ast.Load()))), node]
        return node

    def visit_Return(self, node):
        self.generic_visit(node)
        if self.loops:
            rv = "__pyvc_ret__"
            return [
                ast.Assign([ast.Name(rv, ast.Store())], node.value or ast.Constant(None)),
                ast.Expr(_call(_rt("leaving"), *[ast.Name(l, ast.Load())
                                                 for l in reversed(self.loops)])),
                ast.Return(ast.Name(rv, ast.Load()))]
        return node

    # -- comprehensions with one generator
    def _comp(self, node, kind):
        has_walrus = any(isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom))
                         for n in ast.walk(node))
        if has_walrus or any(g.is_async for g in node.generators):
            return self.generic_visit(node)
        g0 = node.generators[0]
        it = self.visit(g0.iter)
        inner_gens = [ast.comprehension(g0.target, ast.List([ast.Name("__pyvc_x", ast.Load())],
                                                            ast.Load()),
                                        [self.visit(c) for c in g0.ifs], 0)]
        rest = node.generators[1:]
        if rest:
            # inner generators: nested comprehension, flattened
            inner = self.visit(ast.ListComp(
                ast.Tuple([node.key, node.value], ast.Load()) if kind == "dict" else node.elt,
                rest))
            lam_body = ast.ListComp(inner, inner_gens)
            flat = True
        else:
            elt = (ast.Tuple([self.visit(node.key), self.visit(node.value)], ast.Load())
                   if kind == "dict" else self.visit(node.elt))
            lam_body = ast.ListComp(elt, inner_gens)
            flat = False
        lam = ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg("__pyvc_x")],
                                       kwonlyargs=[], kw_defaults=[], defaults=[]), lam_body)
        return _call(_rt("comp"), ast.Constant(kind), ast.Constant(flat), it, lam)

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_SetComp(self, node):
        return self._comp(node, "set")

    def visit_DictComp(self, node):
        return self._comp(node, "dict")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")


_CACHE = {}
HOOKED = set()         # code objects that already carry hooks


def _mark(code):
    HOOKED.add(code)
    for k in code.co_consts:
        if isinstance(k, types.CodeType):
            _mark(k)


def instrument(func, rt, unstar=False):
    """-> a function with the same globals/closure/defaults and hooked body;
    unstar: the *args parameter becomes an ordinary last one"""
    code = func.__code__
    key = (code, unstar)
    new_code = _CACHE.get(key)
    if new_code is None:
        node = copy.deepcopy(find_node(func))
        tag = code.co_qualname
        rw = Rewriter(tag)
        is_lambda = isinstance(node, ast.Lambda)
        if is_lambda:
            fd = ast.FunctionDef("__pyvc_lambda__", node.args, [ast.Return(node.body)], [])
            node = ast.copy_location(fd, node)
            ast.fix_missing_locations(node)
        node.decorator_list = []
        # defaults / annotations come from the function object itself
        node.args.defaults = [ast.Constant(None) for _ in node.args.defaults]
        node.args.kw_defaults = [None if d is None else ast.Constant(None)
                                 for d in node.args.kw_defaults]
        for a in (node.args.args + node.args.posonlyargs + node.args.kwonlyargs +
                  [x for x in (node.args.vararg, node.args.kwarg) if x]):
            a.annotation = None
        if unstar:
            if node.args.vararg is None or node.args.defaults:
                raise NoSource("%s takes no plain *args" % code.co_qualname)
            node.args.args.append(node.args.vararg)
            node.args.vararg = None
        strip_doc(node)
        node = rw.visit(node)
        free = list(code.co_freevars)
        inner = [node]
        if "__class__" in free:
            # zero-argument super() needs a class scope around the def
            inner = [ast.ClassDef("__pyvc_K__", [], [], [node], [])]
        others = [f for f in free if f != "__class__"]
        if len(inner) == 1 and inner[0] is node and node.name not in others:
            inner = [ast.Global([node.name]), node]
        fac = ast.FunctionDef(
            "__pyvc_factory__",
            ast.arguments(posonlyargs=[], args=[ast.arg(f) for f in others],
                          kwonlyargs=[], kw_defaults=[], defaults=[]),
            inner, [])
        mod = ast.Module([fac], [])
        for n in ast.walk(mod):
            if not hasattr(n, "lineno") and isinstance(n, (ast.stmt, ast.expr, ast.arg,
                                                           ast.excepthandler, ast.keyword)):
                pass
        if not hasattr(fac, "type_params"):
            pass
        for n in ast.walk(mod):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and not hasattr(n, "type_params"):
                n.type_params = []
        ast.fix_missing_locations(mod)
        top = compile(mod, code.co_filename, "exec", dont_inherit=True)
        new_code = dig(top, node.name, code.co_firstlineno)
        _mark(new_code)
        _CACHE[key] = new_code
    g = func.__globals__
    g["__pyvc__"] = rt
    g["__pyvc_slice__"] = slice
    cells = dict(zip(code.co_freevars, func.__closure__ or ()))
    try:
        closure = tuple(cells[v] for v in new_code.co_freevars)
    except KeyError as ex:
        raise NoSource("closure of %s changed: %s" % (code.co_qualname, ex))
    f2 = types.FunctionType(new_code, g, func.__name__, func.__defaults__, closure or None)
    f2.__kwdefaults__ = func.__kwdefaults__
    f2.__qualname__ = func.__qualname__
    f2.__module__ = func.__module__
    f2.__dict__.update(func.__dict__)
    f2.__pyvc_orig__ = func
    return f2


def strip_doc(node):
    if node.body and isinstance(node.body[0], ast.Expr) and isinstance(
            node.body[0].value, ast.Constant) and isinstance(node.body[0].value.value, str):
        node.body = node.body[1:] or [ast.Pass()]


def dig(code, name, line):
    stack = [code]
    while stack:
        c = stack.pop()
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                if k.co_name == name and k.co_name != "__pyvc_factory__":
                    return k
                if k.co_name in ("__pyvc_factory__", "__pyvc_K__"):
                    stack.append(k)
    raise NoSource("no code for %s" % name)
