"""Interruption points: where one thread that runs the package may be interrupted by another.

The transformation only inserts calls of `__pt__`: one before every statement of a function body and one after every
call.  It is applied in front of the symbolic rewriting and, unchanged, to the real source when a schedule is replayed.
"""
import ast
import importlib.abc
import importlib.util
import os
import sys
import threading

# Calls that touch nothing shared: the point after them would coincide with the one before.
QUIET = {"super", "isinstance", "issubclass", "hasattr", "len", "range", "type", "zip", "enumerate", "__pt__"}


class PointInserter(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.depth = 0

    def _site(self, node, kind):
        return ast.Constant(value="%s:%d:%d:%s" % (self.module, node.lineno, node.end_col_offset
                                                   if kind == "c" else node.col_offset, kind))

    def _point(self, node):
        call = ast.Call(func=ast.Name(id="__pt__", ctx=ast.Load()), args=[self._site(node, "s")], keywords=[])
        return ast.copy_location(ast.Expr(value=call), node)

    def _body(self, stmts):
        out = []
        for pos, stmt in enumerate(stmts):
            is_doc = pos == 0 and isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Constant)
            if not is_doc and not isinstance(stmt, (ast.Global, ast.Nonlocal, ast.Pass)):
                out.append(self._point(stmt))
            out.append(self.visit(stmt))
        return out

    def visit_FunctionDef(self, node):
        self.depth += 1
        node.body = self._body(node.body)
        self.depth -= 1
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        self.depth += 1
        node.body = self.visit(node.body)
        self.depth -= 1
        return node

    def visit_ClassDef(self, node):
        depth, self.depth = self.depth, 0
        node.body = [self.visit(stmt) for stmt in node.body]
        self.depth = depth
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def generic_visit(self, node):
        for name, old in ast.iter_fields(node):
            if isinstance(old, list):
                if self.depth and old and all(isinstance(item, ast.stmt) for item in old):
                    setattr(node, name, self._body(old))
                else:
                    setattr(node, name, [self.visit(item) if isinstance(item, ast.AST) else item for item in old])
            elif isinstance(old, ast.AST):
                setattr(node, name, self.visit(old))
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if not self.depth or isinstance(node.func, ast.Name) and node.func.id in QUIET:
            return node
        call = ast.Call(func=ast.Name(id="__pt__", ctx=ast.Load()), args=[self._site(node, "c"), node], keywords=[])
        return ast.copy_location(call, node)


def insert(tree, module):
    tree = PointInserter(module).visit(tree)
    ast.fix_missing_locations(tree)
    return tree


class Locked(Exception):
    """The interrupting thread waits for a lock of the interrupted one: not a schedule of this kind."""


class Abandoned(BaseException):
    """Ends the second thread when the path is given up."""


class Interruption:
    """The first thread is interrupted at the chosen point by the second.

    The second runs to its end there, or (if `back` is given) up to a chosen point of its own, from where the first
    runs to its end before the second goes on.  Only one of the two threads runs at a time.
    """

    def __init__(self, chosen, visits, back=None):
        self.chosen, self.visits, self.back = chosen, visits, back
        self.seen = ({}, {})
        self.count = [0, 0]
        self.threads = [None, None]
        self.second = self.error = None
        self.done = self.paused = self.finished = self.abandoned = False
        self.turn = (threading.Semaphore(0), threading.Semaphore(0))

    def point(self, site, value=None):
        me = threading.get_ident()
        if me == self.threads[0]:
            if not self.done and self._reached(0, site) and self.chosen(self.count[0] - 1):
                self.done = True
                self._start()
        elif me == self.threads[1]:
            if self.back is not None and not self.paused and self._reached(1, site) and \
                    self.back(self.count[1] - 1):
                self.paused = True
                self.turn[0].release()
                self.turn[1].acquire()
                if self.abandoned:
                    raise Abandoned()
        return value

    def _reached(self, which, site):
        seen = self.seen[which].get(site, 0)
        if seen >= self.visits:
            return False
        self.seen[which][site] = seen + 1
        self.count[which] += 1
        return True

    def _start(self):
        def body():
            self.threads[1] = threading.get_ident()
            try:
                self.second()
            except BaseException as exc:  # pylint: disable=broad-except
                self.error = exc
            self.finished = True
            self.turn[0].release()

        old = threading.stack_size(64 << 20)
        self.thread = threading.Thread(target=body, daemon=True)
        self.thread.start()
        threading.stack_size(old)
        self._wait()

    def _wait(self):
        if not self.turn[0].acquire(timeout=120):
            raise Locked()
        if self.finished:
            self.thread.join()
            if self.error is not None and not isinstance(self.error, Exception):
                raise self.error

    def run(self, first, second):
        """Both threads, to the end of both."""
        self.second = second
        self.threads[0] = threading.get_ident()
        try:
            first()
            self.threads[0] = None
            self.interrupted = self.done
            if not self.done:
                self.done, self.back = True, None
                self._start()
            if not self.finished:
                self.turn[1].release()
                self._wait()
        except BaseException:
            self.threads[0] = None
            if self.paused and not self.finished:
                self.abandoned = True
                self.turn[1].release()
                self.thread.join(60)
            raise
        if self.error is not None:
            raise self.error


class Breakdown:
    """An error arises at the chosen point, once."""

    def __init__(self, chosen, visits, make):
        self.chosen, self.visits, self.make = chosen, visits, make
        self.seen, self.count = {}, 0
        self.armed, self.raised = False, None

    def point(self, site, value=None):
        seen = self.seen.get(site, 0)
        if not self.armed or seen >= self.visits:
            return value
        self.seen[site] = seen + 1
        self.count += 1
        if self.chosen(self.count - 1):
            self.armed = False
            self.raised = self.make()
            value = None
            raise self.raised
        return value


class Endless(BaseException):
    """More statements were executed than any end of the call can be expected to need."""


class Steps:
    """Counts the statements executed and gives up after so many."""

    def __init__(self, limit):
        self.limit, self.count = limit, 0

    def point(self, site, value=None):
        self.count += 1
        if self.count > self.limit:
            self.count = 0
            raise Endless()
        return value


# --------------------------------------------------------------------------- native


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Loads the real package with interruption points and nothing else changed."""

    def __init__(self, root, package, point, optimize=-1):
        self.root, self.package, self.point, self.optimize = root, package, point, optimize

    def find_spec(self, fullname, path=None, target=None):
        if fullname != self.package and not fullname.startswith(self.package + "."):
            return None
        base = os.path.join(self.root, *fullname.split("."))
        if os.path.isdir(base):
            file = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_loader(fullname, self, origin=file, is_package=True)
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_loader(fullname, self, origin=base + ".py")
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        file = module.__spec__.origin
        if module.__spec__.submodule_search_locations is not None:
            module.__spec__.submodule_search_locations.append(os.path.dirname(file))
        module.__file__ = file
        if not os.path.exists(file):
            return
        with open(file, "rb") as fh:
            tree = insert(ast.parse(fh.read(), file), module.__name__)
        module.__dict__["__pt__"] = self.point
        code = compile(tree, file, "exec", dont_inherit=True, optimize=self.optimize)
        exec(code, module.__dict__)  # pylint: disable=exec-used


def install(root, package, point, optimize=-1):
    for name in [n for n in sys.modules if n == package or n.startswith(package + ".")]:
        del sys.modules[name]
    finder = Finder(root, package, point, optimize)
    sys.meta_path.insert(0, finder)
    return finder
