"""Import hook: loads modules of the code under test (from their current source) with every call, subscript,
membership test, f-string, `%` and float-capable operator routed through sx.rt."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import sys
from . import rt

SKIP_CALLS = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir', '__import__'}


def sx(name):
    return ast.Attribute(ast.Name('__sx__', ast.Load()), name, ast.Load())


class T(ast.NodeTransformer):
    def __init__(self, modname, track):
        self.mod = modname
        self.track = track
        self.stack = []

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        a = n.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [d and self.visit(d) for d in a.kw_defaults]
        body = []
        for s in n.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r]
        if self.track:
            q = self.mod + ':' + '.'.join(self.stack)
            st = ast.Expr(ast.Call(sx('enter'), [ast.Constant(q)], []))
            i = 1 if (body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant)
                      and isinstance(body[0].value.value, str)) else 0
            body.insert(i, st)
        n.body = body
        self.stack.pop()
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_AnnAssign(self, n):
        n.value = self.visit(n.value) if n.value is not None else None
        n.target = self.visit(n.target)
        return n

    def _quiet(self, n):
        """f-strings that only feed a log record or an exception message: formatted without forking"""
        if isinstance(n, ast.JoinedStr):
            c = self.visit_JoinedStr(n)
            c.func = sx('fmsg')
            return c
        return self.visit(n)

    def visit_Raise(self, n):
        if isinstance(n.exc, ast.Call):
            n.exc.args = [self._quiet(a) for a in n.exc.args]
            n.exc.keywords = [self.visit(k) for k in n.exc.keywords]
            n.exc.func = self.visit(n.exc.func)
            n.exc = ast.Call(sx('call'), [n.exc.func] + n.exc.args, n.exc.keywords)
        elif n.exc is not None:
            n.exc = self.visit(n.exc)
        if n.cause is not None:
            n.cause = self.visit(n.cause)
        return n

    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == 'msg':
            n.value = self._quiet(n.value)
            return n
        self.generic_visit(n)
        return n

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id.startswith(
                'log') and n.func.attr in ('debug', 'info', 'warning', 'error', 'critical', 'exception'):
            n.args = [self._quiet(a) for a in n.args]
            n.func = self.visit(n.func)
            return ast.Call(sx('call'), [n.func] + n.args, n.keywords)
        if (isinstance(n.func, ast.Attribute) and n.func.attr == 'check' and len(n.args) == 2
                and self.mod.startswith('props') and not isinstance(n.args[1], ast.Constant)):
            # the text of a failed check is built only when it fails
            n.args = [self.visit(n.args[0]), ast.Lambda(ast.arguments([], [], None, [], [], None, []), n.args[1])]
            n.func = self.visit(n.func)
            return ast.Call(sx('call'), [n.func] + n.args, n.keywords)
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in SKIP_CALLS:
            return n
        return ast.Call(sx('call'), [n.func] + n.args, n.keywords)

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([val, ast.Constant(v.conversion), spec], ast.Load()))
        return ast.Call(sx('fstr'), parts, [])

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            f = 'contains' if isinstance(n.ops[0], ast.In) else 'notcontains'
            return ast.Call(sx(f), [n.left, n.comparators[0]], [])
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            s = n.slice
            if isinstance(s, ast.Slice):
                s = ast.Call(sx('slice'), [s.lower or ast.Constant(None), s.upper or ast.Constant(None),
                                           s.step or ast.Constant(None)], [])
            elif isinstance(s, ast.Tuple) and any(isinstance(e, ast.Slice) for e in s.elts):
                return n
            return ast.Call(sx('getitem'), [n.value, s], [])
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.Call(sx('fmod'), [n.left, n.right], [])
        return n

    def visit_While(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.Expr(ast.Call(sx('tick'), [], [])))
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.Expr(ast.Call(sx('tick'), [], [])))
        return n


rt.slice = slice


class Loader(importlib.machinery.SourceFileLoader):
    track = True

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        tree = ast.parse(src, path)
        # keep `from __future__` first
        tree = T(fullname, self.track).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        module.__dict__['__sx__'] = rt
        rt.INSTRUMENTED.add(module.__name__)
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, names, extra):
        self.names = names       # package prefixes
        self.extra = extra       # module name -> file

    def find_spec(self, name, path=None, target=None):
        if name in self.extra:
            ld = Loader(name, self.extra[name])
            ld.track = False
            return importlib.util.spec_from_file_location(name, self.extra[name], loader=ld)
        if any(name == n or name.startswith(n + '.') for n in self.names):
            spec = importlib.machinery.PathFinder.find_spec(name, path)
            if spec is None or spec.origin is None or not spec.origin.endswith('.py'):
                return spec
            track = name.startswith('augpathlib')
            ld = Loader(name, spec.origin)
            ld.track = track
            return importlib.util.spec_from_file_location(
                name, spec.origin, loader=ld, submodule_search_locations=spec.submodule_search_locations)
        return None


def load_copy(name, alias=None):
    """instrumented copy of a stdlib module (not installed in sys.modules)"""
    real = sys.modules.get(name) or __import__(name)
    ld = Loader(name, real.__file__)
    ld.track = False
    spec = importlib.util.spec_from_file_location(name, real.__file__, loader=ld)
    m = importlib.util.module_from_spec(spec)
    m.__dict__['__sx__'] = rt
    exec(ld.get_code(name), m.__dict__)
    return m


def install(prefixes=('augpathlib', 'props')):
    """Instrument posixpath, genericpath and pathlib copies, then everything below the prefixes."""
    import types
    rt.install()
    import posixpath
    import genericpath
    gp = load_copy('genericpath')
    rt.INSTRUMENTED.add('genericpath')
    sys.modules['genericpath'] = gp
    pp = load_copy('posixpath')
    rt.INSTRUMENTED.add('posixpath')
    sys.modules['genericpath'] = genericpath
    for real, copy in ((genericpath, gp), (posixpath, pp)):
        for n, v in list(vars(copy).items()):
            r = getattr(real, n, None)
            if isinstance(v, types.FunctionType) and r is not None and r is not v:
                rt.redirect(r, v)
    # pure python normpath instead of the C accelerator
    if not isinstance(pp.normpath, types.FunctionType):
        raise RuntimeError('posixpath.normpath is not the python one')
    import pathlib as real_pathlib
    f = Finder(prefixes, {'pathlib': real_pathlib.__file__})
    sys.meta_path.insert(0, f)
    del sys.modules['pathlib']
    import pathlib
    assert '__sx__' in pathlib.__dict__
    import urllib.parse as real_parse
    up = load_copy('urllib.parse')
    rt.INSTRUMENTED.add('urllib.parse')
    for n, v in list(vars(up).items()):
        r = getattr(real_parse, n, None)
        v = getattr(v, '__wrapped__', v)   # no cache
        if isinstance(v, types.FunctionType) and v.__module__ == 'urllib.parse' and r is not None:
            setattr(up, n, v)
            rt.redirect(r, v)
    for n in ('PurePath', 'PurePosixPath', 'Path', 'PosixPath'):
        # paths made by uninstrumented libraries stay usable
        pass
    return pp
