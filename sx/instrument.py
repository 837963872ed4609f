"""Rewrites the source of the code under test so that operations the interpreter would perform in C on
concrete values go through the symbolic operations of `ops`.  The rewriting is purely local (expression by
expression); control flow stays with the interpreter, branches on symbolic values reach the engine through
SymBool.__bool__."""
import ast

HOOK = "__sx__"
SKIP_CALLS = {"super", "locals", "globals", "vars", "dir", "eval", "exec"}


def _hook(name):
    return ast.Attribute(value=ast.Name(id=HOOK, ctx=ast.Load()), attr=name, ctx=ast.Load())


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.scope = []

    def call(self, name, *args):
        return ast.Call(func=_hook(name), args=list(args), keywords=[])

    # -- definitions
    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(d) for d in node.bases]
        node.keywords = [self.visit(d) for d in node.keywords]
        self.scope.append(node.name)
        node.body = [self.visit(s) for s in node.body]
        self.scope.pop()
        return node

    def _func(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        node.returns = None
        self.scope.append(node.name)
        body = [self.visit(s) for s in node.body]
        qual = self.modname + ":" + ".".join(self.scope)
        self.scope.pop()
        enter = ast.Expr(value=self.call("enter", ast.Constant(value=qual)))
        at = 0
        if (body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant)
                and isinstance(body[0].value.value, str)):
            at = 1
        body.insert(at, enter)
        node.body = body
        return node
    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    # -- handlers
    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(value=self.call("guard")))
        return node

    # -- expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in SKIP_CALLS:
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return ast.Call(func=_hook("call"), args=[node.func] + node.args, keywords=node.keywords)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op, right = node.ops[0], node.comparators[0]
            if isinstance(op, ast.In):
                return self.call("in_", node.left, right)
            if isinstance(op, ast.NotIn):
                return self.call("not_in", node.left, right)
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(right, ast.Constant) and isinstance(right.value, bool):
                return self.call("is_" if isinstance(op, ast.Is) else "is_not", node.left, right)
            if isinstance(op, (ast.Eq, ast.NotEq)):
                return self.call("eq" if isinstance(op, ast.Eq) else "ne", node.left, right)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return self.call("not_", node.operand)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.call("mod", node.left, node.right)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value="")
                parts.append(self.call("fmt", self.visit(v.value), ast.Constant(value=v.conversion), spec))
        return self.call("fjoin", *parts)

    def _index(self, sl):
        if isinstance(sl, ast.Slice):
            none = ast.Constant(value=None)
            return ast.Call(func=_hook("slice"), args=[sl.lower or none, sl.upper or none, sl.step or none], keywords=[])
        if isinstance(sl, ast.Tuple):
            return ast.Tuple(elts=[self._index(e) for e in sl.elts], ctx=ast.Load())
        return sl

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self.call("get", node.value, self._index(node.slice))
        node.value = self.call("sub", node.value)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(k is not None and isinstance(k, ast.Constant) for k in node.keys) or any(k is None for k in node.keys):
            return node
        pairs = [ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)]
        return self.call("dict", ast.List(elts=pairs, ctx=ast.Load()))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return self.call("dict", ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                                              generators=node.generators))

    def visit_Set(self, node):
        self.generic_visit(node)
        return self.call("set", ast.List(elts=node.elts, ctx=ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self.call("set", ast.ListComp(elt=node.elt, generators=node.generators))


class Annotations(ast.NodeTransformer):
    def visit_arg(self, node):
        node.annotation = None
        return node


def instrument(source, filename, modname):
    tree = ast.parse(source, filename)
    tree = Annotations().visit(tree)
    tree = Rewriter(modname).visit(tree)
    # keep docstring and __future__ imports first: hooks are plain globals, nothing to insert
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)
