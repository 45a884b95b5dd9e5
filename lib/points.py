"""
Instrumentation of the sources of the repository: a call before each
statement of the functions, where the monitors can delay or suspend the
current thread.  (The profiling hook is not enough: Jython runs it with a
global lock, so waiting in it stops all the threads.)

The modules are compiled when they are imported, from the current sources;
what they do does not change.
"""
import ast
import imp
import os
import sys
import threading

SITES = []  # the number of a point is an index in this list
local = threading.local()
NAME = '__verification_point__'


def point(site):
    "Called by the instrumented code"
    hook = getattr(local, 'hook', None)
    if hook is not None:
        hook(site)


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.names = []

    def call(self, stmt):
        SITES.append('%s:%s:%d' % (self.modname, self.names[-1], stmt.lineno))
        call = ast.Expr(value=ast.Call(
            func=ast.Name(id=NAME, ctx=ast.Load()),
            args=[ast.Num(n=len(SITES) - 1)], keywords=[], starargs=None,
            kwargs=None))
        ast.copy_location(call, stmt)
        return ast.fix_missing_locations(call)

    def block(self, stmts):
        out = []
        for i, stmt in enumerate(stmts):
            if not (i == 0 and isinstance(stmt, ast.Expr) and
                    isinstance(stmt.value, ast.Str)) and not isinstance(
                        stmt, (ast.Global, ast.Import, ast.ImportFrom)):
                out.append(self.call(stmt))
            out.append(self.visit(stmt))
        return out

    def visit_FunctionDef(self, node):
        self.names.append(node.name)
        node.body = self.block(node.body)
        self.names.pop()
        return node

    def visit_ClassDef(self, node):
        # its statements are not in a function
        names, self.names = self.names, []
        self.generic_visit(node)
        self.names = names
        return node

    def visit_Lambda(self, node):
        return node

    def generic_visit(self, node):
        if self.names:
            for field in ('body', 'orelse', 'finalbody'):
                stmts = getattr(node, field, None)
                if isinstance(stmts, list):
                    setattr(node, field, self.block(list(stmts)))
            for handler in getattr(node, 'handlers', None) or []:
                handler.body = self.block(list(handler.body))
            return node
        return ast.NodeTransformer.generic_visit(self, node)


class Importer(object):
    def __init__(self, package):
        self.package = package

    def find_module(self, fullname, path=None):
        if not fullname.startswith(self.package + '.'):
            return None
        for dirname in path or []:
            fname = os.path.join(dirname, fullname.split('.')[-1] + '.py')
            if os.path.exists(fname):
                return Loader(fname)


class Loader(object):
    def __init__(self, fname):
        self.fname = fname

    def load_module(self, fullname):
        with open(self.fname) as f:
            text = f.read()
        tree = ast.parse(text, self.fname)
        tree = Instrument(fullname.split('.')[-1]).visit(tree)
        code = compile(tree, self.fname, 'exec')
        mod = imp.new_module(fullname)
        mod.__file__ = self.fname
        mod.__package__ = fullname.rpartition('.')[0]
        setattr(mod, NAME, point)
        sys.modules[fullname] = mod
        try:
            exec code in vars(mod)
        except:
            del sys.modules[fullname]
            raise
        return mod


def install(package='openquake.commonlib'):
    sys.meta_path.insert(0, Importer(package))
