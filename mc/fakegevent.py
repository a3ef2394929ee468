"""A gevent whose sleep() is a scheduling point of the explorer.  Import before mc.load."""
import sys
import types

import greenlet

if "infi.asi" in sys.modules:
    raise ImportError("mc.fakegevent must be imported before the code under test")

_module = types.ModuleType("gevent")


class Hooks(object):
    sleep = None


def _sleep(seconds=0, *args, **kwargs):
    if Hooks.sleep is not None:
        Hooks.sleep()


_module.sleep = _sleep
_module.idle = _sleep
sys.modules["gevent"] = _module


class Scheduler(object):
    """ cooperative scheduler: tasks run until they call switch(); the explorer picks who continues """

    def __init__(self, chooser, preemption_bound=None):
        self.chooser = chooser
        self.hub = greenlet.getcurrent()
        self.tasks = []
        self.errors = {}
        self.switches = 0
        self.sleeps = {}
        self.waiting = {}
        self.current = None
        self.preemptions_left = preemption_bound

    def spawn(self, name, func):
        def run():
            try:
                func()
            except greenlet.GreenletExit:
                raise
            except BaseException as error:       # reported by run()
                self.errors[name] = error
        task = greenlet.greenlet(run)
        task.name = name
        self.tasks.append(task)

    def sleep(self):
        """ the code under test offers control """
        if self.current is None:
            return
        self.sleeps[self.current.name] = self.sleeps.get(self.current.name, 0) + 1
        self.hub.switch()

    def block(self, ready):
        """ the current task waits until ready() (True) or until nobody else can run (False) """
        task = self.current
        self.waiting[task] = ready
        self.hub.switch()
        return self.waiting.pop(task)()

    def run(self):
        Hooks.sleep = self.sleep
        last = None
        try:
            while True:
                alive = [task for task in self.tasks if not task.dead]
                if not alive:
                    break
                runnable = [task for task in alive if task not in self.waiting or self.waiting[task]()]
                if not runnable:
                    runnable = alive             # everybody waits: somebody times out
                if last in runnable:             # option 0: continue with the task that ran last
                    runnable.remove(last)
                    runnable.insert(0, last)
                if self.preemptions_left == 0 and runnable[0] is last:
                    runnable = runnable[:1]
                task = runnable[self.chooser.choose(len(runnable), "schedule")]
                if last is not None and task is not last and not last.dead:
                    self.switches += 1
                    if self.preemptions_left is not None and runnable[0] is last:
                        self.preemptions_left -= 1
                self.current = last = task
                try:
                    task.switch()
                finally:
                    self.current = None
        finally:
            Hooks.sleep = None
            for task in self.tasks:
                if not task.dead and task:
                    task.throw(greenlet.GreenletExit)
        for name in sorted(self.errors):
            raise self.errors[name]
