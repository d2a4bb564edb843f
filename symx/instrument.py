"""Import hook: loads a package from its source, rewritten so that the runtime
sees every operation that could meet a symbolic value."""
import ast
import warnings
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import rt


class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []

    def _c(self, name):
        return ast.Attribute(ast.Name('__sx__', ast.Load()), name, ast.Load())

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        q = self.mod + '.' + '.'.join(self.stack)
        self.stack.pop()
        pos = 0
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            pos = 1
        st = ast.Expr(ast.Call(self._c('enter'), [ast.Constant(q)], []))
        n.body.insert(pos, ast.copy_location(st, n))
        ast.fix_missing_locations(n)
        n.decorator_list = n.decorator_list
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('super', 'locals', 'globals', 'vars', 'exec', 'eval'):
            return n
        return ast.copy_location(ast.Call(self._c('call'), [n.func] + n.args, n.keywords), n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            f = 'contains' if isinstance(n.ops[0], ast.In) else 'not_contains'
            return ast.copy_location(ast.Call(self._c(f), [n.left, n.comparators[0]], []), n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, (ast.Constant, ast.Slice)):
            return ast.copy_location(ast.Call(self._c('getitem'), [n.value, n.slice], []), n)
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec if v.format_spec is not None else ast.Constant(None)
                parts.append(ast.Tuple([v.value, ast.Constant(v.conversion), spec], ast.Load()))
            else:
                parts.append(v)
        return ast.copy_location(ast.Call(self._c('fstr'), parts, []), n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(self._c('mod'), [n.left, n.right], []), n)
        return n

    # annotations stay untouched
    def visit_arg(self, n):
        return n


CODE = {}


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if fullname not in CODE:
            with open(path, 'rb') as f:
                src = f.read()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                CODE[fullname] = self._compile(src, path, fullname)
        return CODE[fullname]

    def _compile(self, src, path, fullname):
        tree = ast.parse(src, path)
        tree = T(fullname).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        module.__dict__['__sx__'] = rt
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root, package):
        self.root = root
        self.package = package

    def find_spec(self, fullname, path, target=None):
        if fullname != self.package and not fullname.startswith(self.package + '.'):
            return None
        base = os.path.join(self.root, *fullname.split('.'))
        if os.path.isdir(base):
            init = os.path.join(base, '__init__.py')
            if os.path.exists(init):
                return importlib.util.spec_from_file_location(
                    fullname, init, loader=Loader(fullname, init), submodule_search_locations=[base])
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        f = base + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(fullname, f))
        return None


def install(root='/repo', package='aksharamukha'):
    sys.dont_write_bytecode = True
    rt.PREFIX = package
    sys.meta_path.insert(0, Finder(root, package))
