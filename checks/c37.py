"""C37: finished commands leave nothing behind."""
from mc import fakewin                      # noqa: before the code under test
from mc import asyncwin
from mc.backends import make_command, pattern
from mc.cdbspec import Recorder, execute
from mc.commands import CLASSES
from mc.core import Group, Violation, require
from mc.explore import Exploration
from mc.fakewin import win32, kernel32
from mc.platforms import PLATFORMS
from mc.reach import reach, library_modules
from infi.asi import SCSIReadCommand
from infi.asi.coroutines.sync_adapter import sync_wait
from infi.asi.errors import AsiOSError

ID = "C37"
LEVEL = "model_checking"
RULE = ("a case is a history of finished operations on one executer, the way each was submitted, its kind and its outcome "
        "chosen by the explorer, repeated; or a schedule of overlapped operations; distinct = distinct histories, schedules")
ASSUMPTIONS = ["memory is released when nothing of the library refers to it any more (the interpreter collects garbage)",
               "an exception or result is released when its caller drops it"]

SENSE = bytes([0x70, 0, 5, 0, 0, 0, 0, 10, 0, 0, 0, 0, 0x24, 0, 0, 0xc0, 0, 1])
WARM, MORE = 3, 3
OUTCOMES = ["data", "short", "check", "conflict", "busy", "fault", "odd sense"]
KINDS = [("read", 24), ("write", 40), ("none", 0)]
VIA = ["call", "callback", "no callback"]


class Client(object):
    """ submits commands, drops what it gets, and knows by identity what must not stay """

    def __init__(self, platform, **kwargs):
        self.platform = platform
        self.answer = {}
        self.device = platform.device(lambda submission: self.answer)
        self.executer = platform.executer(self.device, **kwargs)
        self.given = []
        self.count = 0
        self.modules = library_modules()

    def prepare(self, outcome, amount):
        platform = self.platform
        self.count += 1
        sense = SENSE[:3] + self.count.to_bytes(4, "big") + SENSE[7:]
        self.answer = {"data": {"data": pattern(amount, 3)}, "short": {"data": b"abc"},
                       "check": dict(platform.check, sense=sense), "odd sense": dict(platform.check, sense=b"\x7f\1"),
                       "conflict": platform.conflict, "busy": platform.busy, "fault": platform.fault}[outcome]

    def one(self, via, kind, amount, outcome):
        executer = self.executer
        self.prepare(outcome, amount)
        payload = pattern(amount, 5)
        command = make_command(kind, bytes([8, 1, 2, 3, 4, 5]), payload if kind == "write" else amount)
        got = []
        given = [command, payload, got]
        try:
            if via == "call":
                got.append(sync_wait(executer.call(command)))
            else:
                def callback(data, error):
                    got.append((data, error))
                given.append(callback)
                sync_wait(executer.send(command, callback) if via == "callback" else executer.send(command))
                sync_wait(executer.wait())
        except Violation:
            raise
        except Exception as error:
            # what the caller keeps: the error, without the frames it went through
            error.__traceback__ = None
            got.append(error)
        for item in got:
            given.extend(item if isinstance(item, tuple) else [item])
        given.extend(item.sense_obj for item in list(given) if getattr(item, "sense_obj", None) is not None)
        self.given = given
        del self.device.submissions[:]

    def check_dropped(self, where):
        weight, seen = reach([self.executer] + self.modules)
        for item in self.given:
            if item is None or (isinstance(item, (bytes, str)) and len(item) < 2) or isinstance(item, (int, bool)):
                continue
            require(seen.get(id(item)) is not item, "%s: the %s of the command is still held" % (where, type(item).__name__))
        self.given = []
        return weight


def body(platform, depth, kwargs):
    def run(chooser):
        history = []
        for _ in range(depth):
            history.append((chooser.choose(VIA, "via"),) + chooser.choose(KINDS, "kind") + (chooser.choose(OUTCOMES, "outcome"),))
        client = Client(platform, **kwargs)
        where = "%s, %r" % (platform.name, history)
        weights = []
        for repetition in range(WARM + MORE):
            for step in history:
                client.one(*step)
                if repetition < 1:
                    client.check_dropped(where)
            require(client.executer.is_queue_empty() and not client.executer.is_queue_full(), "%s: finished commands stay in "
                    "the queue" % where)
            if repetition in (WARM - 1, WARM + MORE - 1):
                weights.append(client.check_dropped(where))
        require(weights[1] <= weights[0], "%s: after %d repetitions %d entries and bytes are held, after %d: %d" %
                (where, WARM, weights[0], WARM + MORE, weights[1]))
        chooser.state((platform.name, tuple(history)))
        return platform.name, tuple(history)
    return run


def outstanding(platform, chooser, count):
    """ several commands outstanding at once; their outcomes are chosen """
    if platform.name != "linux sg":
        kwargs = {"max_queue_size": count}
    else:
        kwargs = {}
    client = Client(platform, **kwargs)
    outcomes = [chooser.choose(OUTCOMES[:5], "outcome") for _ in range(count)]
    order = [chooser.choose(count - index, "order") for index in range(count)] if platform.name == "linux sg" else []
    weights = []
    for repetition in range(WARM + MORE):
        picks = list(order)
        client.device.order = lambda outstanding: picks.pop(0) if picks else 0
        answers = {}
        given = []
        for number in range(count):
            client.prepare(outcomes[number], 16)
            answers[bytes([8, number, 0, 0, 0, 0])] = client.answer
        client.device.answer = lambda submission: answers[submission.cdb] if submission is not None else {}
        for number in range(count):
            command = make_command("read", bytes([8, number, 0, 0, 0, 0]), 16)
            got = []

            def callback(data, error, got=got):
                got.append((data, error))
            sync_wait(client.executer.send(command, callback))
            given.extend([command, callback, got])
        sync_wait(client.executer.wait())
        del client.device.submissions[:]
        client.given = given
        if repetition in (0, WARM - 1, WARM + MORE - 1):
            weights.append(client.check_dropped("%s, %r" % (platform.name, outcomes)))
    require(weights[2] <= weights[1], "%s, %r outstanding together: %d entries and bytes are held, later %d" %
            (platform.name, outcomes, weights[1], weights[2]))
    chooser.state((platform.name, tuple(outcomes), tuple(order)))
    return platform.name, tuple(outcomes), tuple(order)


def run_commands(arg):
    """ a command object executed again and again: neither it nor the library grows """
    index, fill = arg
    spec, values = CLASSES[index]
    command = spec.make(values)
    modules = library_modules()
    weights = []
    for repetition in range(WARM + MORE):
        recorder = Recorder(lambda length: bytes((position * fill + fill) & 0x7f for position in range(length)))
        result = None
        try:
            result = execute(command, recorder)
        except Violation:
            raise
        except Exception:
            pass
        if repetition in (WARM - 1, WARM + MORE - 1):
            weight, seen = reach([command] + modules)
            weights.append(weight)
            if type(result).__module__.startswith("infi.asi"):
                require(seen.get(id(result)) is not result, "%s holds its last result" % spec.name)
    require(weights[1] <= weights[0], "%s: executed %d times it holds %d entries and bytes, executed %d times %d" %
            (spec.name, WARM, weights[0], WARM + MORE, weights[1]))
    return tuple(arg)


# --- overlapped operations ---------------------------------------------------------------------------------------------
def overlapped(chooser, counts, wait, **kwargs):
    """ every event an asynchronous operation waits with is closed when its result was taken, or when it did not start """
    kernel = asyncwin.AsyncKernel(chooser, **kwargs)
    kernel32.policy = kernel
    before = set(kernel32.events)
    try:
        def command(number, count):
            handle = win32.Win32AsyncFile("\\\\.\\file%d" % number)
            for index in range(count):
                try:
                    yield handle.ioctl(0x1000 + number * 16 + index, None, 0, None, 0)
                except AsiOSError:
                    pass
                allowed = set(op.event for op in kernel.by_id.values() if not op.fetched and op.mode != "refused")
                left = set(kernel32.events) - before - allowed
                require(not left, "%d events of finished operations are still open" % len(left))
            handle.close()
            yield number
        commands = [command(number, count) for number, count in enumerate(counts)]
        if wait == "reactor":
            asyncwin.wait_for(*commands)
        else:
            for item in commands:
                sync_wait(item)
        left = set(kernel32.events) - before
        require(not left, "%d events are still open after the last operation" % len(left))
    finally:
        kernel32.policy = None
    chooser.state((tuple(counts), wait, tuple(kernel.order)))
    return tuple(kernel.order), tuple(op.mode for op in kernel.by_id.values()), wait


def overlapped_executer(chooser, count, shared):
    """ the same for executers over asynchronous files, which hold nothing of their commands """
    kernel = asyncwin.AsyncKernel(chooser, start=("pending", "at once", "refused"))
    kernel32.policy = kernel
    before = set(kernel32.events)
    modules = library_modules()
    try:
        executers = [win32.Win32CommandExecuter(win32.Win32AsyncFile("\\\\.\\%d" % number)) for number in range(1 if shared else count)]
        given = []

        def command(number):
            request = SCSIReadCommand(bytes([8, number + 1, 0, 0, 0, 0]), 16 + number)
            given.append(request)
            try:
                data = yield executers[number % len(executers)].call(request)
                given.append(data)
            except AsiOSError as error:
                error.__traceback__ = None
                given.append(error)
            yield number
        asyncwin.wait_for(*[command(number) for number in range(count)])
        left = set(kernel32.events) - before
        require(not left, "%d events are still open after the last command" % len(left))
        _, seen = reach(executers + modules)
        for item in given:
            require(seen.get(id(item)) is not item, "a %s of a finished command is still held" % type(item).__name__)
        require(all(executer.is_queue_empty() for executer in executers), "finished commands stay in the queue")
    finally:
        kernel32.policy = None
    chooser.state((count, shared, tuple(kernel.order)))
    return tuple(kernel.order), tuple(op.mode for op in kernel.by_id.values()), shared


def groups(tier):
    deep = tier == "thorough"
    for platform in PLATFORMS:
        for index in range(len(VIA)):
            yield Exploration("%s/%s" % (platform.name, VIA[index]), first(platform, VIA[index], 3 if deep else 2))
        yield Exploration("together/%s" % platform.name, lambda ch, p=platform: outstanding(p, ch, ch.choose([2, 3] if deep else [2], "count")))
    for part in range(4):
        yield Group("commands/%d" % part, [[index, fill] for index in range(part, len(CLASSES), 4) for fill in (0, 1, 3, 5)], run_commands)
    modes = dict(start=("pending", "at once", "refused"), completion=("ok", "failed"))
    for wait in ("reactor", "one by one"):
        yield Exploration("events/%s" % wait, lambda ch, w=wait: overlapped(ch, ch.choose([[1], [2], [3], [1, 1], [2, 1]] + ([[2, 2]] if deep else []), "counts"), w, **modes))
    yield Exploration("events/errors", lambda ch: overlapped(ch, ch.choose([[1], [2], [1, 1]] if deep else [[1]], "counts"), "reactor",
                                                             errors=asyncwin.ERRORS, **modes))
    for shared in (False, True):
        yield Exploration("executers/%s" % shared, lambda ch, s=shared: overlapped_executer(ch, ch.choose([1, 2, 3], "count"), s))


def first(platform, via, depth):
    run = body(platform, depth, {})

    class Fixed(object):
        """ the first choice is made """
        def __init__(self, chooser):
            self.chooser = chooser
            self.made = False

        def choose(self, options, label=""):
            if not self.made and label == "via":
                self.made = True
                return via
            return self.chooser.choose(options, label)

        def state(self, *args):
            self.chooser.state(*args)
    return lambda chooser: run(Fixed(chooser))
