"""C36: executers of different devices do not affect each other, used in turn or from different threads."""
import struct

from mc.threads import Threads             # before the code under test
from mc import fakewin
from mc import backends
from mc.backends import make_command, check_submission, check_data, check_sense, outcome_of, pattern
from mc.core import Violation, require
from mc.explore import Exploration
from infi.asi.coroutines.sync_adapter import sync_wait
from infi.asi.errors import AsiException, AsiOSError, AsiRequestQueueFullError, AsiSCSIError

ID = "C36"
LEVEL = "model_checking"
RULE = ("a case is one interleaved history of operations on two executers of two devices, or one schedule of threads that each "
        "use an executer of their own, a switch possible before every statement of the library; distinct = distinct histories or "
        "(program, outcomes, place of the switch)")
ASSUMPTIONS = ["threads are switched between statements of infi.asi; other libraries are not interrupted",
               "each executer is used by one thread"]


class Windows(backends.WinPolicy):
    """ several devices behind one kernel32 """
    devices = {}
    number = 0

    def __init__(self, answer=None):
        backends.Device.__init__(self, answer)
        Windows.number = (Windows.number + 1) % 64
        self.fakewin = fakewin
        self.opened, self.closed = [], []
        self.HANDLE = 0x100 + 4 * Windows.number
        path = "\\\\.\\PHYSICALDRIVE%d" % Windows.number
        Windows.devices[self.HANDLE] = Windows.devices[path] = self
        fakewin.kernel32.policy = Dispatcher
        self.file = fakewin.win32.Win32File(path)


class Dispatcher(object):
    @staticmethod
    def on_create_file(path, *args):
        require(path in Windows.devices, "CreateFile of %r" % path)
        return Windows.devices[path].on_create_file(path, *args)

    @staticmethod
    def on_ioctl(handle, *args):
        require(handle in Windows.devices, "DeviceIoControl of handle %#x" % handle)
        return Windows.devices[handle].on_ioctl(handle, *args)

    @staticmethod
    def on_close(handle):
        return Windows.devices[handle].on_close(handle)


class Sg(backends.SgFile):
    """ fails at submission, completes newest first """

    def __init__(self, answer=None):
        self.answers = {}
        self.decide = answer
        backends.SgFile.__init__(self, lambda submission: self.answers.pop(id(submission)),
                                 lambda outstanding: len(outstanding) - 1)

    def write(self, raw):
        count = backends.SgFile.write(self, raw)
        submission = self.submissions[-1]
        answer = self.decide(submission)
        if isinstance(answer, int):
            self.outstanding.remove(submission)
            raise OSError(answer, "injected")
        self.answers[id(submission)] = answer
        return count


PLATFORMS = {
    "sg": (Sg, backends.linux_sg, {"status": 2, "driver": 8}, 5),
    "ioctl": (backends.SgIoctlFile, backends.linux_ioctl, {"status": 2, "driver": 8}, 5),
    "solaris": (backends.UscsiFile, backends.solaris, {"status": 2}, 5),
    "aix": (backends.PassthruFile, backends.aix, {"validity": 1, "bus_status": 2, "errno": 5}, 5),
    "windows": (Windows, backends.windows, {"status": 2}, 1117),
}
NAMES = sorted(PLATFORMS)


class Entry(object):
    def __init__(self, side, serial, kind):
        self.side = side
        self.kind = kind
        self.cdb = struct.pack(">BBBBBB", 0x28, side, serial, serial * 5 & 0xff, side * 9, 3)
        self.stored = pattern(16 + serial, side * 40 + serial) if kind == "read" else b""
        self.amount = {"read": 16 + serial, "write": pattern(9 + serial, side * 50 + serial), "none": 0}[kind]
        self.sense = bytes([0x70, 0, 5, 0, 0, 0, side, 10, 0, 0, 0, serial, 0x24, side, 0, 0, 0, 0])
        self.answer = None
        self.submissions = 0
        self.callbacks = []
        self.waiting = False


class Side(object):
    """ one device with its executer and the ledger of its commands """

    def __init__(self, name, number, queue, choose):
        make_device, make_executer, self.check_answer, self.fault = PLATFORMS[name]
        self.name, self.number, self.queue, self.choose = name, number, queue, choose
        self.entries = []
        self.device = make_device(self.on_submission)
        self.executer = make_executer(self.device, max_queue_size=queue)

    def __repr__(self):
        return "device %d (%s)" % (self.number, self.name)

    def on_submission(self, submission):
        found = [entry for entry in self.entries if entry.cdb == submission.cdb]
        require(len(found) == 1, "%r got the CDB %s, which was not sent to it" % (self, submission.cdb.hex()))
        entry = found[0]
        entry.submissions += 1
        require(entry.submissions == 1, "%r got the CDB %s twice" % (self, submission.cdb.hex()))
        check_submission(submission, entry.kind, entry.cdb, entry.amount)
        entry.answer = self.choose(["good", "check", "fault"])
        if entry.answer == "good":
            return {"data": entry.stored}
        return self.fault if entry.answer == "fault" else dict(self.check_answer, sense=entry.sense)

    def pending(self):
        return sum(1 for entry in self.entries if entry.waiting and not entry.callbacks)

    def judge(self, entry, outcome):
        if entry.answer == "good":
            check_data(outcome, entry.kind, entry.amount, entry.stored)
        elif entry.answer == "check":
            require(outcome[0] == "error", "%r: a check condition ended with %r" % (self, outcome[1]))
            check_sense(outcome[1], entry.sense)
        else:
            require(outcome[0] == "error" and isinstance(outcome[1], (OSError, AsiOSError)) and
                    not isinstance(outcome[1], AsiSCSIError), "%r: a failing system call ended with %r" % (self, outcome[1]))

    def apply(self, operation):
        what, _, kind = operation.partition(":")
        if what == "wait":
            sync_wait(self.executer.wait())
            require(self.pending() == 0, "%r: wait returned with %d commands pending" % (self, self.pending()))
            return "waited"
        pending = self.pending()
        entry = Entry(self.number, len(self.entries) + 1, kind)
        self.entries.append(entry)
        if what == "call":
            outcome = outcome_of(self.executer, make_command(kind, entry.cdb, entry.amount), "call")
        else:
            entry.waiting = True
            try:
                sync_wait(self.executer.send(make_command(kind, entry.cdb, entry.amount),
                                             callback=lambda data, error: entry.callbacks.append((data, error))))
                outcome = ("sent", None)
            except (AsiException, OSError) as error:
                entry.waiting = False
                outcome = ("error", error)
        if isinstance(outcome[1], AsiRequestQueueFullError):
            require(pending >= self.queue and not entry.submissions, "%r: refused with %d of %d commands pending" %
                    (self, pending, self.queue))
            return "full"
        require(pending < self.queue, "%r: accepted with %d of %d commands pending" % (self, pending, self.queue))
        require(entry.submissions == 1, "%r: a command was not submitted" % self)
        if outcome[0] == "sent":
            require(entry.answer != "fault", "%r: a failing system call went unnoticed" % self)
        else:
            require(what == "call" or entry.answer == "fault", "%r: send raised %r" % (self, outcome[1]))
            self.judge(entry, outcome)
        return entry.answer

    def check(self):
        for entry in self.entries:
            require(len(entry.callbacks) <= 1, "%r: a callback was called %d times" % (self, len(entry.callbacks)))
            for data, error in entry.callbacks:
                self.judge(entry, ("data", data) if error is None else ("error", error))
            entry.judged = True
        require(bool(self.executer.is_queue_full()) == (self.pending() >= self.queue),
                "%r: is_queue_full() is %r with %d of %d commands pending" %
                (self, self.executer.is_queue_full(), self.pending(), self.queue))

    def finish(self):
        self.choose = lambda options: "good"
        self.apply("wait")
        self.check()
        self.apply("call:read")
        self.check()


OPERATIONS = ["send:read", "send:write", "call:read", "wait"]


def history(chooser, names, queues, depth, operations):
    def choose(options):
        return options[chooser.choose(2 if len(names) == 2 and depth > 3 else 3, "answer")]
    sides = [Side(name, number + 1, queue, choose) for number, (name, queue) in enumerate(zip(names, queues))]
    trace = []
    steps = [(side, operation) for side in sides for operation in operations]
    for step in range(depth):
        side, operation = chooser.choose(steps, "operation")
        result = side.apply(operation)
        trace.append((side.number, operation, result))
        for item in sides:
            item.check()
        chooser.state((names, step, tuple((item.pending(), len(item.entries) % item.queue) for item in sides)))
    for side in sides:
        side.finish()
    for side in sides:
        side.check()
    return tuple(trace)


def many(chooser, name, count):
    """ many devices are in use at once; the device that is used in between, and how, varies """
    sides = [Side(name, number + 1, 2, lambda options: "good") for number in range(count)]
    order = chooser.choose(["first", "last"], "order")
    first = chooser.choose(sides, "side")
    answer = chooser.choose(["good", "check", "fault"], "answer")
    for side in sides:
        side.apply("send:read")
    first.choose = lambda options: answer
    trace = [first.apply("call:read"), first.apply("send:write")]
    first.choose = lambda options: "good"
    for side in sides:
        side.check()
    for side in sides if order == "first" else reversed(sides):
        side.apply("wait")
        for item in sides:
            item.check()
    for side in sides:
        side.finish()
    token = (name, order, first.number, answer, tuple(trace))
    chooser.state(token)
    return token


# --- threads -----------------------------------------------------------------------------------------------------------
PROGRAMS = {
    "call": ["call:read"],
    "calls": ["call:read", "call:write"],
    "send-wait": ["send:read", "send:write", "wait"],
    "failing": ["call:read", "send:read", "wait"],
}


def threads(chooser, names, programs, answers):
    """ every thread builds its executer and uses it """
    scheduler = Threads(chooser)
    results = [None] * len(names)

    def thread(number):
        def run():
            remaining = iter(answers[number])
            side = Side(names[number], number + 1, 2, lambda options: next(remaining, "good"))
            results[number] = [side.apply(operation) for operation in PROGRAMS[programs[number]]]
            side.check()
            side.finish()
        return run
    for number in range(len(names)):
        scheduler.spawn("thread %d" % (number + 1), thread(number))
    scheduler.run()
    token = (names, programs, tuple(map(tuple, results)), tuple(chosen for _, chosen in chooser.points))
    chooser.state(token)
    return token


def commands(chooser, names, classes):
    """ every thread executes a command object """
    from mc.cdbspec import Recorder, execute
    from mc.commands import CLASSES
    scheduler = Threads(chooser)
    results = [None] * len(names)

    def thread(number):
        spec, values = CLASSES[classes[number]]
        cdb, kind, what = spec.expected(values)
        length = what if kind == "read" else 0
        stored = bytes((index * (5 + number) + number) & 0x7f for index in range(length))
        make_device, make_executer, check_answer, _ = PLATFORMS[names[number]]
        sense = bytes([0x70, 0, 5, 0, 0, 0, 0, 10, 0, 0, 0, 0, 0x24, number, 0, 0, 0, 0])
        key = (classes[number], number)
        if key not in EXPECTED:
            EXPECTED[key] = picture(lambda: execute(spec.make(values), Recorder(lambda length: stored)))

        def run():
            device = make_device(lambda submission: {"data": stored})
            executer = make_executer(device)
            command = spec.make(values)
            got = picture(lambda: sync_wait(command.execute(executer)))
            require(got == EXPECTED[key], "%s on %s ended with %.200r instead of %.200r" %
                    (spec.name, names[number], got, EXPECTED[key]))
            require([submission.cdb for submission in device.submissions] == [cdb], "%s: %r was submitted" %
                    (spec.name, [submission.cdb.hex() for submission in device.submissions]))
            if kind == "write":
                require((device.submissions[0].data_out or b"") == what, "%s: other data was written" % spec.name)
            device = make_device(lambda submission: dict(check_answer, sense=sense))
            try:
                sync_wait(spec.make(values).execute(make_executer(device)))
            except AsiSCSIError as error:
                check_sense(error, sense)
            else:
                require(False, "%s: a check condition was lost" % spec.name)
            results[number] = got[0]
        return run
    for number in range(len(names)):
        scheduler.spawn("thread %d" % (number + 1), thread(number))
    scheduler.run()
    token = (names, classes, tuple(results), tuple(chosen for _, chosen in chooser.points))
    chooser.state(token)
    return token


EXPECTED = {}


def picture(action):
    import re
    try:
        return "value", re.sub(r" at 0x[0-9a-f]+", "", repr(action()))
    except (Violation, AsiException):
        raise
    except Exception as error:
        return "error", type(error).__name__


def warm(body):
    """ what is imported or computed only once is done before the schedules are counted """
    state = []

    def run(chooser):
        if not state:
            from mc.explore import Chooser
            state.append(True)
            body(Chooser([]))
            body(Chooser([]))
        return body(chooser)
    return run


def groups(tier):
    from mc.commands import NAMES as COMMANDS
    deep = tier == "thorough"
    for index, first in enumerate(NAMES):
        for second in NAMES[index:]:
            yield Exploration("%s+%s" % (first, second), lambda ch, n=(first, second):
                              history(ch, n, (2, 1), 4 if deep else 3, OPERATIONS))
    for name in NAMES:
        yield Exploration("%s+%s/longer" % (name, name), lambda ch, n=(name, name):
                          history(ch, n, (1, 1), 5 if deep else 4, ["send:read", "call:read", "wait"]))
        yield Exploration("three %s" % name, lambda ch, n=(name,) * 3:
                          history(ch, n, (1, 1, 2), 4 if deep else 3, ["send:read", "call:write", "wait"]))
    for name in NAMES:
        sizes = [3, 15, 16, 32, 63, 64, 65, 100, 128, 255, 256, 1000]
        yield Exploration("%s/queues" % name, lambda ch, n=(name, name), s=sizes:
                          history(ch, n, (ch.choose(s, "queue"),) * 2, 3 if deep else 2, ["send:read", "call:write"]))
        yield Exploration("%s/many" % name, lambda ch, n=name: many(ch, n, 24))
    failing = ["check", "fault"]
    for name in NAMES:
        for first, second in (("call", "call"), ("calls", "send-wait"), ("send-wait", "send-wait"), ("failing", "send-wait"),
                              ("failing", "failing")):
            answers = [failing if program == "failing" else [] for program in (first, second)]
            yield Exploration("threads/%s/%s+%s" % (name, first, second), warm(lambda ch, n=(name, name), p=(first, second),
                              a=answers: threads(ch, n, p, a)),
                              deviations=2 if deep and first == "call" else 1)
    for first, second in (("sg", "ioctl"), ("aix", "solaris"), ("windows", "sg")):
        yield Exploration("threads/%s+%s" % (first, second), warm(lambda ch, n=(first, second):
                          threads(ch, n, ("send-wait", "calls"), [[], ["check"]])), deviations=1)
    for index in range(len(COMMANDS)):
        yield Exploration("threads/" + COMMANDS[index], warm(lambda ch, i=index: commands(ch, ("ioctl", "ioctl"), (i, i))),
                          deviations=2 if deep and COMMANDS[index] == "StandardInquiryCommand" else 1)
        yield Exploration("threads/%s and its neighbour" % COMMANDS[index], warm(
            lambda ch, i=index: commands(ch, ("ioctl", "sg"), (i, (i + 1) % len(COMMANDS)))), deviations=1)
