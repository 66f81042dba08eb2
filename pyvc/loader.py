"""Mechanical extraction of the code under verification.

Every module of /repo/src/tranquilo is parsed on every run and executed, after an AST
transformation that leaves its meaning unchanged on concrete values, in a namespace whose
builtins and imports understand symbolic values.  What is dropped: numba.njit decorators
(the decorated python function is what runs), docstrings have no effect, type annotations
are not checked.  The transformation only rewrites

  * loops: a copy of the loop is kept for iterables of concrete length; for symbolic ones
    the body becomes a function and the loop is summarised or cut by an invariant;
  * comprehensions: element expression and filters become lambdas.
"""
import ast
import builtins
import copy
import os
import sys
import types

REPO = os.environ.get("VC_REPO", "/repo")
SRC = os.path.join(REPO, "src")


class _Undef:
    """a variable that is not bound on entry of a loop: what the loop leaves in it is unknown"""

    def __repr__(self):
        return "UNDEF"

    def _used(self, *a, **k):
        from pyvc.core import Unsupported

        raise Unsupported("the value of a variable first assigned in an earlier iteration")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __matmul__ = _used
    __rmatmul__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __float__ = __int__ = __index__ = __len__ = __iter__ = _used
    __getitem__ = __setitem__ = __call__ = __neg__ = __abs__ = __pow__ = __array__ = _used


UNDEF = _Undef()

_CONV = {"int", "float", "bool", "list", "tuple", "dict", "range", "set"}
_MUT = {"append", "extend", "add", "update", "pop", "insert", "remove", "setdefault", "clear"}


class _Names(ast.NodeVisitor):
    """names assigned or mutated in a block (not descending into nested functions)"""

    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names and not n.startswith("_vc_"):
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Store):
            b = n.value
            while isinstance(b, (ast.Subscript,)):
                b = b.value
            if isinstance(b, ast.Name):
                self.add(b.id)
        self.generic_visit(n)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr in _MUT and isinstance(n.func.value, ast.Name):
            self.add(n.func.value.id)
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp


def _block_names(stmts):
    v = _Names()
    for s in stmts:
        v.visit(s)
    return v.names


def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _vc(attr, *args, **kw):
    return ast.Call(func=ast.Attribute(value=_name("_vc_"), attr=attr, ctx=ast.Load()),
                    args=list(args), keywords=[ast.keyword(arg=k, value=v) for k, v in kw.items()])


def _lam(args, body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args],
                                         kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)


def _pack(names):
    return ast.Tuple(elts=[_vc("get", _lam([], _name(n))) for n in names], ctx=ast.Load())


class _Expr(ast.NodeTransformer):
    """comprehensions"""

    def __init__(self, tr):
        self.tr = tr

    def _target_lambda(self, target, expr):
        if isinstance(target, ast.Name):
            return _lam([target.id], expr)
        # tuple target: bind through an inner lambda
        names = _block_names([ast.Assign(targets=[target], value=ast.Constant(value=None))])
        if isinstance(target, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in target.elts):
            return _lam(["__e"], ast.Call(func=_lam([e.id for e in target.elts], expr),
                                          args=[ast.Starred(value=_vc("unpack", _name("__e"),
                                                                      ast.Constant(value=len(target.elts))),
                                                            ctx=ast.Load())], keywords=[]))
        return None

    def _comp(self, n, kind, elts):
        n = self.generic_visit(n)
        if len(n.generators) != 1 or n.generators[0].is_async:
            return n
        g = n.generators[0]
        if any(isinstance(x, ast.NamedExpr) for x in ast.walk(n)):
            return n
        elts = [getattr(n, e) for e in elts]
        body = elts[0] if len(elts) == 1 else ast.Tuple(elts=elts, ctx=ast.Load())
        f = self._target_lambda(g.target, body)
        if f is None:
            return n
        conds = ast.Constant(value=None)
        if g.ifs:
            c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs)
            conds = self._target_lambda(g.target, c)
        return ast.copy_location(_vc("comp", ast.Constant(value=kind), g.iter, f, conds), n)

    def visit_ListComp(self, n):
        return self._comp(n, "list", ["elt"])

    def visit_SetComp(self, n):
        return self._comp(n, "set", ["elt"])

    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen", ["elt"])

    def visit_DictComp(self, n):
        return self._comp(n, "dict", ["key", "value"])

    def visit_Compare(self, n):
        n = self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            return ast.copy_location(_vc("contains", n.left, n.comparators[0], ast.Constant(value=isinstance(n.ops[0], ast.NotIn))), n)
        return n

    def visit_Call(self, n):
        n = self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in _CONV:
            return ast.copy_location(_vc("conv", ast.Constant(value=n.func.id), *n.args,
                                         **{k.arg: k.value for k in n.keywords}), n)
        if (isinstance(n.func, ast.Name) and len(n.args) == 1 and not n.keywords and not hasattr(builtins, n.func.id) and n.func.id != "_vc_"
                and not isinstance(n.args[0], ast.Starred)):
            return ast.copy_location(_vc("call1", n.func, n.args[0]), n)
        return n

    def visit_FunctionDef(self, n):
        return n

    def visit_For(self, n):
        return n

    visit_While = visit_For


def loop_shape(stmts):
    """nesting and order of the loops of a function body, e.g. 'F(W)F'"""
    out = ""
    for s in stmts:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(s, (ast.For, ast.While)):
            inner = loop_shape(s.body)
            out += ("F" if isinstance(s, ast.For) else "W") + (f"({inner})" if inner else "")
            out += loop_shape(s.orelse)
            continue
        for field in ("body", "orelse", "handlers", "finalbody"):
            out += loop_shape(getattr(s, field, None) or [])
    return out


class Transformer:
    def __init__(self, modname):
        self.modname = modname
        self.k = 0
        self.shapes = {}

    def module(self, tree):
        tree.body = self.block(tree.body, "", None)
        return ast.fix_missing_locations(tree)

    # ---- statements; pack is None outside a loop-body function, else the packed names
    def block(self, stmts, qual, pack, loop="outer"):
        out = []
        for s in stmts:
            r = self.stmt(s, qual, pack, loop)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def expr(self, e):
        return _Expr(self).visit(e) if e is not None else None

    def ret(self, code, value, pack):
        return ast.Return(value=ast.Tuple(elts=[ast.Constant(value=code), value or ast.Constant(value=None),
                                                _pack(pack)], ctx=ast.Load()))

    def stmt(self, s, qual, pack, loop):
        """loop: 'body' when s is directly in a loop-body function's own loop level,
        'native' inside a native loop (its break/continue stay), 'outer' otherwise."""
        if isinstance(s, (ast.FunctionDef,)):
            q = f"{qual}.{s.name}" if qual else s.name
            saved, self.k = self.k, 0
            self.shapes[f"{self.modname}:{q}"] = loop_shape(s.body)
            s.body = self.block(s.body, q, None, "outer")
            s.decorator_list = [self.expr(d) for d in s.decorator_list]
            self.k = saved
            return s
        if isinstance(s, ast.ClassDef):
            q = f"{qual}.{s.name}" if qual else s.name
            s.body = self.block(s.body, q, None, "outer")
            return s
        if isinstance(s, ast.Return):
            v = self.expr(s.value)
            if pack is not None:
                return self.ret(2, v, pack)
            s.value = v
            return s
        if isinstance(s, ast.Break):
            return self.ret(1, None, pack) if loop == "body" else s
        if isinstance(s, ast.Continue):
            return self.ret(0, None, pack) if loop == "body" else s
        if isinstance(s, (ast.For, ast.While)) and not qual:
            return s
        if isinstance(s, ast.For):
            return self.for_(s, qual, pack, loop)
        if isinstance(s, ast.While):
            return self.while_(s, qual, pack, loop)
        if isinstance(s, ast.If):
            s.test = self.expr(s.test)
            s.body = self.block(s.body, qual, pack, loop)
            s.orelse = self.block(s.orelse, qual, pack, loop)
            return s
        if isinstance(s, (ast.With,)):
            s.items = [ast.withitem(self.expr(i.context_expr), i.optional_vars) for i in s.items]
            s.body = self.block(s.body, qual, pack, loop)
            return s
        if isinstance(s, ast.Try):
            s.body = self.block(s.body, qual, pack, loop)
            s.orelse = self.block(s.orelse, qual, pack, loop)
            s.finalbody = self.block(s.finalbody, qual, pack, loop)
            for h in s.handlers:
                h.body = self.block(h.body, qual, pack, loop)
            return s
        return self.expr(s)

    def names_of(self, s):
        names = _block_names(s.body)
        if isinstance(s, ast.For):
            tn = _block_names([ast.Assign(targets=[s.target], value=ast.Constant(value=None))])
            names = tn + [n for n in names if n not in tn]
        return names

    def for_(self, s, qual, pack, loop):
        if s.orelse:
            raise SyntaxError("for-else is not supported by the extraction")
        k = self.k
        self.k += 1
        key = f"{self.modname}:{qual}:{k}"
        it = f"_vc__it{k}"
        names = self.names_of(s)
        start = self.k
        native = copy.deepcopy(s)
        native.iter = _vc("native_iter", _name(it))
        native.body = self.block(native.body, qual, pack, "native")
        end = self.k
        self.k = start
        sym = copy.deepcopy(s)
        fn = f"_vc__body{k}"
        body = [ast.Assign(targets=[sym.target], value=_name("_vc__e"))]
        body += self.block(sym.body, qual, names, "body")
        body.append(self.ret(0, None, names))
        self.k = max(end, self.k)
        fd = ast.FunctionDef(name=fn, args=ast.arguments(
            posonlyargs=[], args=[ast.arg(arg="_vc__e")] + [ast.arg(arg=n) for n in names],
            kwonlyargs=[], kw_defaults=[], defaults=[]), body=body, decorator_list=[], returns=None)
        r = f"_vc__r{k}"
        res = [fd, ast.Assign(targets=[_name(r, ast.Store())], value=_vc(
            "for_loop", ast.Constant(value=key), _name(it), _name(fn),
            ast.Constant(value=tuple(names)), _pack(names)))]
        res += self.after(r, names, pack)
        return [
            ast.Assign(targets=[_name(it, ast.Store())], value=_vc("iterable", self.expr(s.iter))),
            ast.If(test=_vc("is_native", _name(it), ast.Constant(value=key)), body=[native], orelse=res),
        ]

    def after(self, r, names, pack):
        ra = lambda a: ast.Attribute(value=_name(r), attr=a, ctx=ast.Load())
        rv = self.ret(2, ra("value"), pack) if pack is not None else ast.Return(value=ra("value"))
        out = []
        if names:
            out.append(ast.Assign(targets=[ast.Tuple(elts=[_name(n, ast.Store()) for n in names],
                                                     ctx=ast.Store())], value=ra("vars")))
        out.append(ast.If(test=ra("returned"), body=[rv], orelse=[]))
        return out

    def while_(self, s, qual, pack, loop):
        if s.orelse:
            raise SyntaxError("while-else is not supported by the extraction")
        k = self.k
        self.k += 1
        key = f"{self.modname}:{qual}:{k}"
        names = self.names_of(s)
        start = self.k
        native = copy.deepcopy(s)
        native.test = self.expr(native.test)
        native.body = [ast.Expr(value=_vc("tick", ast.Constant(value=key)))] + self.block(
            native.body, qual, pack, "native")
        end = self.k
        self.k = start
        sym = copy.deepcopy(s)
        args = ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names],
                             kwonlyargs=[], kw_defaults=[], defaults=[])
        cond = ast.FunctionDef(name=f"_vc__cond{k}", args=args,
                               body=[ast.Return(value=self.expr(sym.test))], decorator_list=[], returns=None)
        body = self.block(sym.body, qual, names, "body") + [self.ret(0, None, names)]
        self.k = max(end, self.k)
        fd = ast.FunctionDef(name=f"_vc__body{k}", args=copy.deepcopy(args), body=body,
                             decorator_list=[], returns=None)
        r = f"_vc__r{k}"
        res = [cond, fd, ast.Assign(targets=[_name(r, ast.Store())], value=_vc(
            "while_loop", ast.Constant(value=key), _name(f"_vc__cond{k}"), _name(f"_vc__body{k}"),
            ast.Constant(value=tuple(names)), _pack(names)))]
        res += self.after(r, names, pack)
        return [ast.If(test=_vc("while_native", ast.Constant(value=key)),
                       body=[_vc_stmt("start", key), native], orelse=res)]


def _vc_stmt(attr, key):
    return ast.Expr(value=_vc(attr, ast.Constant(value=key)))


_SHAPES = []


def _shapes():
    if not _SHAPES:
        import json

        with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "loops.json")) as f:
            _SHAPES.append(json.load(f))
    return _SHAPES[0]


class World:
    """One symbolic copy of the repository's modules."""

    def __init__(self, stubs=None, loops=None, src=None):
        from pyvc import builtins_shim

        self.stubs = stubs or {}
        self.loops = loops or {}
        self.src = src or SRC
        self.mods = {}
        self.orig = {}
        self.vc = builtins_shim.Runtime(self)
        self.builtins = dict(vars(builtins))
        self.builtins.update(builtins_shim.overrides())
        self.builtins["__import__"] = self._import
        self.files = set()
        self.shapes = {}

    def same_loops(self, key):
        """the invariants are attached to loops by position: they say nothing about a function
        whose loops are not the ones they were written for"""
        from pyvc.core import Unsupported

        fn = key.rsplit(":", 1)[0]
        if fn in _shapes() and self.shapes.get(fn) != _shapes()[fn]:
            raise Unsupported(f"the loops of {fn} are not the ones its invariants were written for ({_shapes()[fn]}, now {self.shapes.get(fn)})")

    def path(self, name):
        p = os.path.join(self.src, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        return p + ".py"

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = self.path(name)
        with open(path) as f:
            text = f.read()
        self.files.add(path)
        tr = Transformer(name)
        tree = tr.module(ast.parse(text, path))
        self.shapes.update(tr.shapes)
        vname = "vc." + name
        mod = types.ModuleType(vname)
        mod.__file__ = path
        mod.__dict__["__builtins__"] = self.builtins
        mod.__dict__["_vc_"] = self.vc
        self.mods[name] = mod
        sys.modules[vname] = mod
        if path.endswith("__init__.py"):
            mod.__path__ = []
        exec(compile(tree, path, "exec"), mod.__dict__)
        for key, stub in self.stubs.items():
            m, f = key.split(":")
            if m == name and "." not in f:
                self.orig[key] = mod.__dict__.get(f)
                mod.__dict__[f] = stub
        return mod

    def fn(self, key):
        """original (unstubbed) function 'module:name' or 'module:Class.method'"""
        m, f = key.split(":")
        mod = self.load(m)
        if key in self.orig:
            return self.orig[key]
        obj = mod
        for part in f.split("."):
            obj = getattr(obj, part)
        return obj

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        from pyvc import builtins_shim

        if level:
            raise ImportError("relative import")
        if name == "tranquilo" or name.startswith("tranquilo."):
            mod = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(mod, f) and os.path.exists(self.path(name + "." + f)):
                        setattr(mod, f, self.load(name + "." + f))
                return mod
            return self.load("tranquilo")
        fake = builtins_shim.fake_module(name, fromlist)
        if fake is not None:
            return fake
        return __import__(name, globals, locals, fromlist, level)
