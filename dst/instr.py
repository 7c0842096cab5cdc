"""AST instrumentation of the pytracer package: the scheduling/fault seam.

Every module of the package under test is compiled from the working tree
through this transformer.  The meaning of the code is unchanged; between (and
inside) its statements it calls back into the simulator:

  _dst_y(site)            yield point - the scheduler may switch task here
  _dst_f(site)            yield point that may also raise an injected fault
  _dst_iop(site, op, v, e) in-place operator with the read / compute / write
                          steps separated by yield points

A statement such as `obj.attr = expr` becomes `t = expr; yield; obj.attr = t`,
and `obj.attr += expr` becomes load / yield / compute / yield / store, so that
read-modify-write on shared objects is never accidentally atomic in the
simulation.  Only the package under test is transformed.
"""
import ast
import importlib.abc
import importlib.machinery
import sys

SITES = []          # site id -> (file, line, kind)
KIND_STMT, KIND_STORE, KIND_IOP = 's', 'w', 'i'

_LOCKISH = {'acquire', 'release', 'locked', '__enter__', '__exit__', 'notify',
            'notify_all', 'wait'}


def _new_site(fn, node, kind, func):
    SITES.append((fn, getattr(node, 'lineno', 0), kind, func))
    return len(SITES) - 1


def _has_shared_target(t):
    if isinstance(t, (ast.Attribute, ast.Subscript)):
        return True
    if isinstance(t, (ast.Tuple, ast.List)):
        return any(_has_shared_target(e) for e in t.elts)
    if isinstance(t, ast.Starred):
        return _has_shared_target(t.value)
    return False


class _Faultable(ast.NodeVisitor):
    """Does the statement perform an operation that can fail for want of
    resources (a call, or arithmetic that allocates)?  Lock operations are
    never made to fail."""

    def __init__(self):
        self.can = False
        self.lockish = False

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in _LOCKISH:
            self.lockish = True
        self.can = True
        self.generic_visit(n)

    def visit_BinOp(self, n):
        self.can = True
        self.generic_visit(n)

    def visit_Lambda(self, n):
        pass

    def visit_FunctionDef(self, n):
        pass


def _faultable(stmt):
    if not isinstance(stmt, (ast.Expr, ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Return)):
        return False
    v = _Faultable()
    v.visit(stmt)
    if isinstance(stmt, ast.AugAssign):
        v.can = True
    return v.can and not v.lockish


def _slice_expr(s):
    """Turn a subscript slice into an ordinary expression."""
    if isinstance(s, ast.Slice):
        none = lambda: ast.Constant(value=None, kind=None)
        return ast.Call(func=ast.Name(id='_dst_slice', ctx=ast.Load()),
                        args=[s.lower or none(), s.upper or none(), s.step or none()],
                        keywords=[])
    if isinstance(s, ast.Tuple):
        return ast.Tuple(elts=[_slice_expr(e) for e in s.elts], ctx=ast.Load())
    return s


class Instrumenter(object):
    def __init__(self, fn):
        self.fn = fn
        self.func = ['<module>']
        self.nofault = 0
        self.globals_ = [set()]
        self.tmp = 0

    # -- helpers -------------------------------------------------------
    def _call(self, name, node, kind, *extra):
        sid = _new_site(self.fn, node, kind, '.'.join(self.func[1:]) or '<module>')
        c = ast.Call(func=ast.Name(id=name, ctx=ast.Load()),
                     args=[ast.Constant(value=sid, kind=None)] + list(extra), keywords=[])
        return c

    def _stmt(self, name, node, kind):
        return ast.copy_location(ast.Expr(value=self._call(name, node, kind)), node)

    def _tmpname(self):
        self.tmp += 1
        return '_dst_t%d' % self.tmp

    # -- drivers -------------------------------------------------------
    def module(self, tree):
        tree.body = [self._outer(s) for s in tree.body]
        ast.fix_missing_locations(tree)
        return tree

    def _outer(self, s):
        """Module/class level: only descend into function bodies."""
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return self._function(s)
        if isinstance(s, ast.ClassDef):
            self.func.append(s.name)
            s.body = [self._outer(x) for x in s.body]
            self.func.pop()
            return s
        for f in ('body', 'orelse', 'finalbody'):
            if isinstance(getattr(s, f, None), list):
                setattr(s, f, [self._outer(x) for x in getattr(s, f)])
        for h in getattr(s, 'handlers', []):
            h.body = [self._outer(x) for x in h.body]
        return s

    def _function(self, fn):
        self.func.append(fn.name)
        saved, self.nofault = self.nofault, 0
        if fn.name in ('__exit__', '__del__', '__enter__', 'release', 'close'):
            self.nofault = 1
        g = set()
        for n in ast.walk(fn):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                g.update(n.names)
        self.globals_.append(g)
        body = fn.body
        head = []
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            head, body = [body[0]], body[1:]
        fn.body = head + self._block(body) if body else head
        if not fn.body:
            fn.body = [ast.Pass()]
        self.globals_.pop()
        self.nofault = saved
        self.func.pop()
        return fn

    def _block(self, stmts):
        out = []
        for s in stmts:
            out.extend(self._one(s))
        return out

    def _one(self, s):
        if isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass, ast.Import, ast.ImportFrom)):
            return [s]
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return [self._function(s)]
        if isinstance(s, ast.ClassDef):
            return [self._outer(s)]
        if isinstance(s, ast.Try):
            # no yield between a preceding acquire() and the try itself
            s.body = self._block(s.body)
            s.orelse = self._block(s.orelse)
            self.nofault += 1
            for h in s.handlers:
                h.body = self._block(h.body)
            s.finalbody = self._block(s.finalbody)
            self.nofault -= 1
            return [self._stmt('_dst_y', s, KIND_STMT), s]
        fault = self.nofault == 0 and _faultable(s)
        pre = [self._stmt('_dst_f' if fault else '_dst_y', s, KIND_STMT)]
        if isinstance(s, (ast.If, ast.While, ast.For, ast.AsyncFor, ast.With, ast.AsyncWith)):
            s.body = self._block(s.body)
            if getattr(s, 'orelse', None):
                s.orelse = self._block(s.orelse)
            return pre + [s]
        if isinstance(s, ast.Assign):
            shared = any(_has_shared_target(t) for t in s.targets) or any(
                isinstance(t, ast.Name) and t.id in self.globals_[-1] for t in s.targets)
            if shared:
                tmp = self._tmpname()
                a = ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=s.value)
                b = ast.Assign(targets=s.targets, value=ast.Name(id=tmp, ctx=ast.Load()))
                for n in (a, b):
                    ast.copy_location(n, s)
                return pre + [a, self._stmt('_dst_y', s, KIND_STORE), b]
            return pre + [s]
        if isinstance(s, ast.AugAssign):
            return pre + self._augassign(s)
        return pre + [s]

    def _augassign(self, s):
        op = ast.Constant(value=type(s.op).__name__, kind=None)
        out = []
        L = lambda i: ast.Name(id=i, ctx=ast.Load())
        S = lambda i: ast.Name(id=i, ctx=ast.Store())
        t = s.target
        if isinstance(t, ast.Name):
            # x = iop(x, e): load, (eval e), yield, op, store
            out.append(ast.Assign(targets=[S(t.id)], value=self._call(
                '_dst_iop', s, KIND_IOP, op, L(t.id), s.value)))
        elif isinstance(t, ast.Attribute):
            o, v = self._tmpname(), self._tmpname()
            out.append(ast.Assign(targets=[S(o)], value=t.value))
            out.append(ast.Assign(targets=[S(v)], value=self._call(
                '_dst_iop', s, KIND_IOP, op,
                ast.Attribute(value=L(o), attr=t.attr, ctx=ast.Load()), s.value)))
            out.append(self._stmt('_dst_y', s, KIND_STORE))
            out.append(ast.Assign(targets=[ast.Attribute(value=L(o), attr=t.attr, ctx=ast.Store())],
                                  value=L(v)))
        else:
            o, i, v = self._tmpname(), self._tmpname(), self._tmpname()
            out.append(ast.Assign(targets=[S(o)], value=t.value))
            out.append(ast.Assign(targets=[S(i)], value=_slice_expr(t.slice)))
            out.append(ast.Assign(targets=[S(v)], value=self._call(
                '_dst_iop', s, KIND_IOP, op,
                ast.Subscript(value=L(o), slice=L(i), ctx=ast.Load()), s.value)))
            out.append(self._stmt('_dst_y', s, KIND_STORE))
            out.append(ast.Assign(targets=[ast.Subscript(value=L(o), slice=L(i), ctx=ast.Store())],
                                  value=L(v)))
        for n in out:
            ast.copy_location(n, s)
        return out


def instrument_source(src, filename):
    tree = ast.parse(src, filename)
    tree = Instrumenter(filename).module(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return instrument_source(self.get_data(path), path)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, package, root):
        self.package = package
        self.root = root

    def find_spec(self, fullname, path=None, target=None):
        if fullname != self.package and not fullname.startswith(self.package + '.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(
            fullname, path if path is not None else [self.root])
        if spec is None or spec.origin is None or not spec.origin.endswith('.py'):
            return spec
        spec.loader = Loader(fullname, spec.origin)
        return spec


def install(package, root):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(package, root))
