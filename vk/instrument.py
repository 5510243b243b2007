"""Mechanical instrumentation of the code under verification.

Parsed from /repo on every run.  Only the constructs that would otherwise need
native Python machinery on symbolic data are rewritten, each into the same
construct with the iteration under the verifier's control:

  for / while        ->  while loop driven by a loop object (cut point)
  [a, b], [.. for ..], (.. for ..)   ->  verifier lists
  a is b             ->  the same test, refused on unknown values
  except:            ->  except Exception:   (the verifier's own control flow
                         uses BaseException)

Everything else is compiled and executed as it stands.
"""
import ast


def _names_stored(nodes):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)
            for d in n.decorator_list:
                self.visit(d)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def _comp(self, n):
            # only walrus targets leak out of a comprehension
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    out.add(m.target.id)

        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])

        visit_ImportFrom = visit_Import

        def visit_MatchAs(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_MatchStar(self, n):
            if n.name:
                out.add(n.name)

    v = V()
    for n in nodes:
        v.visit(n)
    return out


class _Fn:
    def __init__(self, node):
        self.is_gen = False
        self.globals = set()
        self.nonlocal_inner = set()
        body = node.body if isinstance(node.body, list) else [node.body]

        def walk(n, depth):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    for m in ast.walk(c):
                        if isinstance(m, ast.Nonlocal):
                            self.nonlocal_inner.update(m.names)
                    continue
                if isinstance(c, (ast.Yield, ast.YieldFrom)):
                    self.is_gen = True
                if isinstance(c, ast.Global):
                    self.globals.update(c.names)
                walk(c, depth)

        for b in body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for m in ast.walk(b):
                    if isinstance(m, ast.Nonlocal):
                        self.nonlocal_inner.update(m.names)
                continue
            if isinstance(b, ast.Global):
                self.globals.update(b.names)
            walk(ast.Module([b], []), 0)


def _call(name, *args):
    return ast.Call(ast.Name(name, ast.Load()), list(args), [])


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.fn = []
        self.n = 0
        self.loops = []  # (id, function, line)

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        outer = self.fn
        self.fn = outer + [(node.name, _Fn(node))]
        node.body = self._block(node.body)
        self.fn = outer
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        outer = self.fn
        self.fn = outer + [("<lambda>", _Fn(node))]
        node.body = self.visit(node.body)
        self.fn = outer
        return node

    def visit_ClassDef(self, node):
        outer = self.fn
        self.fn = []
        self.generic_visit(node)
        self.fn = outer
        return node

    def _block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_List(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load) or not self.fn:
            return node
        return ast.copy_location(_call("_vk_lst", ast.Tuple(node.elts, ast.Load())), node)

    def _comp(self, node):
        if not self.fn or len(node.generators) != 1 or node.generators[0].is_async or any(
                isinstance(m, (ast.NamedExpr, ast.Yield, ast.Await)) for m in ast.walk(node)):
            self.generic_visit(node)
            return node
        g = node.generators[0]
        it = self.visit(g.iter)
        target = g.target
        line = node.lineno
        sid = self._sid(node, "comprehension")

        def fn(expr, wrap):
            e = self.visit(expr)
            inner = ast.Subscript(
                ast.ListComp(e, [ast.comprehension(target, ast.Tuple([ast.Name("_vk_x", ast.Load())], ast.Load()), [], 0)]),
                ast.Constant(0), ast.Load())
            return ast.Lambda(ast.arguments([], [ast.arg("_vk_x")], None, [], [], None, []), inner)

        elt = fn(node.elt, True)
        conds = ast.Tuple([fn(c, False) for c in g.ifs], ast.Load())
        r = _call("_vk_comp", ast.Constant(sid), _call("_vk_locals"), it, elt, conds)
        return ast.copy_location(r, node)

    visit_ListComp = _comp
    visit_GeneratorExp = _comp

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            c = _call("_vk_is", node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.IsNot):
                c = ast.UnaryOp(ast.Not(), c)
            return ast.copy_location(c, node)
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = ast.Name("Exception", ast.Load())
        return node

    def _sid(self, node, kind):
        self.n += 1
        f = ".".join(n for n, _ in self.fn)
        sid = f"{self.modname}.{f}:{kind}#{self.n}"
        self.loops.append((sid, f, node.lineno))
        return sid

    def visit_For(self, node):
        if not self.fn:
            self.generic_visit(node)
            return node
        sid = self._sid(node, "for")
        self.n += 1
        L, D = f"_vk_L{self.n}", f"_vk_D{self.n}"
        info = self.fn[-1][1]
        names = sorted((_names_stored([node.target] + node.body) | info.nonlocal_inner)
                       - info.globals)
        it = self.visit(node.iter)
        target = node.target
        body = self._block(node.body)
        orelse = self._block(node.orelse)
        src = [
            ast.Assign([ast.Name(L, ast.Store())],
                       _call("_vk_loop", ast.Constant(sid), it, ast.Constant(node.lineno),
                             ast.Constant(info.is_gen),
                             ast.Tuple([ast.Constant(n) for n in names], ast.Load()))),
            ast.Assign([ast.Name(D, ast.Store())], ast.Constant(False)),
        ]
        head = [ast.Assign([ast.Name(D, ast.Store())],
                           ast.UnaryOp(ast.Not(), ast.Call(
                               ast.Attribute(ast.Name(L, ast.Load()), "head", ast.Load()),
                               [_call("_vk_locals")], [])))]
        head += self._loads(L, names)
        run = [ast.Assign([target], ast.Call(ast.Attribute(ast.Name(L, ast.Load()), "item", ast.Load()), [], []))]
        head.append(ast.If(ast.UnaryOp(ast.Not(), ast.Name(D, ast.Load())), run + body, []))
        src.append(ast.While(ast.UnaryOp(ast.Not(), ast.Name(D, ast.Load())), head, orelse))
        return [ast.copy_location(s, node) for s in src]

    def _loads(self, L, names):
        if not names:
            return []
        body = []
        for n in names:
            body.append(ast.Assign([ast.Name(n, ast.Store())], ast.Call(
                ast.Attribute(ast.Name(L, ast.Load()), "get", ast.Load()), [ast.Constant(n)], [])))
        return [ast.If(ast.Attribute(ast.Name(L, ast.Load()), "loads", ast.Load()), body, [])]

    def visit_While(self, node):
        if not self.fn:
            self.generic_visit(node)
            return node
        sid = self._sid(node, "while")
        self.n += 1
        L, D = f"_vk_L{self.n}", f"_vk_D{self.n}"
        info = self.fn[-1][1]
        names = sorted((_names_stored([node.test] + node.body) | info.nonlocal_inner) - info.globals)
        test = self.visit(node.test)
        body = self._block(node.body)
        orelse = self._block(node.orelse)
        src = [
            ast.Assign([ast.Name(L, ast.Store())],
                       _call("_vk_while", ast.Constant(sid), ast.Constant(node.lineno),
                             ast.Constant(info.is_gen),
                             ast.Tuple([ast.Constant(n) for n in names], ast.Load()))),
            ast.Assign([ast.Name(D, ast.Store())], ast.Constant(False)),
        ]
        head = [ast.Expr(ast.Call(ast.Attribute(ast.Name(L, ast.Load()), "head", ast.Load()),
                                  [_call("_vk_locals")], []))]
        head += self._loads(L, names)
        head.append(ast.If(
            ast.Call(ast.Attribute(ast.Name(L, ast.Load()), "test", ast.Load()), [test], []),
            body, [ast.Assign([ast.Name(D, ast.Store())], ast.Constant(True))]))
        src.append(ast.While(ast.UnaryOp(ast.Not(), ast.Name(D, ast.Load())), head, orelse))
        return [ast.copy_location(s, node) for s in src]


def instrument(source, filename, modname):
    tree = ast.parse(source, filename)
    ins = Instrument(modname)
    tree = ins.visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec"), ins.loops
