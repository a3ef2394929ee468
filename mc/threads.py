"""Threads under a controlled scheduler: exactly one runs at a time, and before every statement in a function of the code
under test the explorer may pass control to another one (option 0: go on).  The number of preemptions is bounded by the
deviations of the exploration.

The points are compiled in when the code under test is imported, so this module comes before mc.load."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import sys
import threading

from .core import HarnessError

if "infi.asi" in sys.modules:
    raise ImportError("mc.threads must be imported before the code under test")

PATIENCE = 120
POINT = "__mc_point__"


class Transformer(ast.NodeTransformer):
    """ a call of the scheduling point before every statement in a function """

    def __init__(self):
        self.inside = 0

    def visit_FunctionDef(self, node):
        self.inside += 1
        node = self.generic_visit(node)
        self.inside -= 1
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        inside, self.inside = self.inside, 0
        node = self.generic_visit(node)
        self.inside = inside
        return node

    def generic_visit(self, node):
        node = ast.NodeTransformer.generic_visit(self, node)
        if self.inside:
            for name in ("body", "orelse", "finalbody"):
                statements = getattr(node, name, None)
                if isinstance(statements, list) and statements and isinstance(statements[0], ast.stmt):
                    setattr(node, name, self.pointed(statements))
        return node

    def pointed(self, statements):
        result = []
        for index, statement in enumerate(statements):
            docstring = index == 0 and isinstance(statement, ast.Expr) and isinstance(statement.value, ast.Constant)
            if not docstring and not isinstance(statement, (ast.Global, ast.Nonlocal)):
                call = ast.Expr(ast.Call(ast.Name(POINT, ast.Load()), [], []))
                result.append(ast.fix_missing_locations(ast.copy_location(call, statement)))
            result.append(statement)
        return result


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = ast.parse(self.get_data(path), path)
        return compile(ast.fix_missing_locations(Transformer().visit(tree)), path, "exec", dont_inherit=True)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != "infi.asi" and not fullname.startswith("infi.asi."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is not None and type(spec.loader) is importlib.machinery.SourceFileLoader:
            spec.loader = Loader(fullname, spec.loader.path)
        return spec


_current = threading.local()


def point():
    task = getattr(_current, "task", None)
    if task is not None:
        task.threads.point(task)


setattr(builtins, POINT, point)
sys.meta_path.insert(0, Finder())


class Task(object):
    def __init__(self, threads, name, func):
        self.threads = threads
        self.name = name
        self.func = func
        self.turn = threading.Semaphore(0)
        self.done = False
        self.thread = None


class Threads(object):
    def __init__(self, chooser):
        self.chooser = chooser
        self.tasks = []
        self.error = None
        self.finished = threading.Semaphore(0)
        self.points = 0
        self.preemptions = 0

    def spawn(self, name, func):
        self.tasks.append(Task(self, name, func))

    def run(self):
        for task in self.tasks:
            task.thread = threading.Thread(target=self.main, args=(task,))
            task.thread.daemon = True
            task.thread.start()
        self.pick(self.tasks).turn.release()
        if not self.finished.acquire(timeout=PATIENCE):
            raise HarnessError("the threads got stuck")
        for task in self.tasks:
            task.thread.join(PATIENCE)
        if self.error is not None:
            raise self.error

    def pick(self, tasks):
        """ tasks[0] is the default """
        if self.error is not None or len(tasks) == 1:
            return tasks[0]
        try:
            return tasks[self.chooser.choose(len(tasks), "schedule")]
        except BaseException as error:          # reported by run()
            self.error = self.error or error
            return tasks[0]

    def main(self, task):
        task.turn.acquire()
        _current.task = task
        try:
            task.func()
        except BaseException as error:
            self.error = self.error or error
        finally:
            _current.task = None
            task.done = True
            others = [other for other in self.tasks if not other.done]
            if others:
                self.pick(others).turn.release()
            else:
                self.finished.release()

    def point(self, task):
        self.points += 1
        others = [other for other in self.tasks if not other.done and other is not task]
        if not others:
            return
        chosen = self.pick([task] + others)
        if chosen is not task:
            self.preemptions += 1
            chosen.turn.release()
            task.turn.acquire()
