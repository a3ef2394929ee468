"""C06: greenlets sharing an executer never receive each other's answers."""
from mc import fakegevent
from mc import fakewin, backends, ioctlworld
from mc.core import require, Violation, Group
from mc.explore import Exploration
from mc.sgworld import World, sync_wait, GOOD, CHECK, AsiSCSIError, AsiRequestQueueFullError
from infi.asi.errors import AsiOSError

EnvironmentFaults = (OSError, AsiOSError)

ID = "C06"
LEVEL = "model_checking"
RULE = ("a case is one schedule: which greenlet continues after each device I/O and which outstanding command completes "
        "at each read; distinct = distinct (schedule outcome per greenlet, completion order) vectors")
ASSUMPTIONS = ["greenlets switch only inside gevent.sleep (after an I/O) and inside a read that has to wait"]


class GreenWorld(World):
    """ reads that have to wait either fail at once (blocking=False) or let other greenlets run first """

    def __init__(self, chooser, max_queue, patched, preemptions=None, **kwargs):
        super(GreenWorld, self).__init__(chooser, max_queue, **kwargs)
        self.scheduler = fakegevent.Scheduler(chooser, preemptions)
        self.patched = patched
        self.timeouts = set()
        self.order = []
        self.io_log = []

    def note_io(self):
        """ every completed I/O must be followed by an offer of control before the next I/O of the same greenlet """
        task = self.scheduler.current
        if task is not None:
            sleeps = self.scheduler.sleeps.get(task.name, 0)
            ios = getattr(task, "ios", 0)
            require(sleeps >= ios, "%s did %d device I/Os but offered control only %d times" % (task.name, ios, sleeps))
            task.ios = ios + 1

    def on_write(self, device, request):
        self.note_io()
        super(GreenWorld, self).on_write(device, request)

    def on_read(self, device, size):
        if not device.outstanding and self.patched and self.scheduler.current is not None:
            self.scheduler.block(lambda: bool(device.outstanding))
        if not device.outstanding:
            error = OSError(110, "read with nothing outstanding: timed out")
            self.timeouts.add(id(error))
            self.kept = getattr(self, "kept", []) + [error]
            raise error
        self.note_io()
        before = list(device.outstanding)
        raw = super(GreenWorld, self).on_read(device, size)
        done = [request for request in before if request not in device.outstanding]
        self.order.append(self.by_cdb[done[0].cdb].serial)
        return raw

    def program(self, name, ops, outcomes):
        def run():
            for op in ops:
                what, _, kind = op.partition(":")
                if what == "call":
                    entry = self.new_entry(kind)
                    entry.mode = "call"
                    try:
                        value = sync_wait(self.executer.call(entry.command()))
                    except Violation:
                        raise
                    except AsiSCSIError as error:
                        entry.check_answer(None, error, "%s: call" % name)
                        outcomes.append((name, "scsi"))
                    except AsiRequestQueueFullError:
                        require(entry.submissions == 0, "a refused command reached the device")
                        require(self.outstanding() + self.in_hand() >= self.max_queue, "refused with a free slot")
                        outcomes.append((name, "full"))
                    except OSError as error:
                        require(id(error) in self.timeouts, "%s got %r" % (name, error))
                        outcomes.append((name, "timeout"))
                    else:
                        entry.check_answer(value, None, "%s: call" % name)
                        outcomes.append((name, "ok"))
                elif what == "send":
                    entry = self.new_entry(kind)
                    try:
                        sync_wait(self.executer.send(entry.command(), callback=entry.callback))
                        outcomes.append((name, "sent"))
                    except AsiRequestQueueFullError:
                        entry.failed_to_send = True
                        require(entry.submissions == 0, "a refused command reached the device")
                        outcomes.append((name, "full"))
                else:
                    try:
                        sync_wait(self.executer.wait())
                        outcomes.append((name, "waited"))
                    except OSError as error:
                        require(id(error) in self.timeouts, "%s got %r" % (name, error))
                        outcomes.append((name, "timeout"))
                for entry in self.entries:
                    require(len(entry.callbacks) <= 1, "callback of #%d called %d times" %
                            (entry.serial, len(entry.callbacks)))
                    for data, exception in entry.callbacks:
                        entry.check_answer(data, exception, "callback")
        return run

    def in_hand(self):
        """ responses read by a greenlet that was switched away before it could handle them """
        return len([task for task in self.scheduler.tasks if not task.dead])


def share(chooser, programs, queue, patched, preemptions=None, outcomes=(GOOD,)):
    world = GreenWorld(chooser, queue, patched, preemptions, outcomes=outcomes)
    results = []
    for index, ops in enumerate(programs):
        world.scheduler.spawn("greenlet %d" % index, world.program("greenlet %d" % index, ops, results))
    world.scheduler.run()
    for task in world.scheduler.tasks:
        require(world.scheduler.sleeps.get(task.name, 0) >= getattr(task, "ios", 0),
                "%s did %d device I/Os but offered control only %d times" %
                (task.name, getattr(task, "ios", 0), world.scheduler.sleeps.get(task.name, 0)))
    world.patched = False
    chooser.state((tuple(results), world.canon()))
    world.drain()
    for entry in world.entries:
        if entry.sent_with_callback() and not entry.failed_to_send:
            require(len(entry.callbacks) == 1, "callback of #%d called %d times in the end" %
                    (entry.serial, len(entry.callbacks)))
    return tuple(results), tuple(world.order), world.scheduler.switches


def groups(tier):
    deep = tier == "thorough"
    call, write = ["call:read"], ["call:write"]
    two = [("calls", [call, write], 3), ("calls-twice", [call * 2, write * 2], 3),
           ("send-wait", [["send:read", "wait"], ["send:write", "wait"]], 4),
           ("call-vs-send", [["call:read", "call:read"], ["send:read", "send:write", "wait"]], 4),
           ("tight-queue", [call * 2, write * 2], 1), ("wrap", [call * 3, ["send:read", "wait"]], 2)]
    three = [("three-calls", [call, write, call], 3), ("three-tight", [call, write, call], 2),
             ("three-mixed", [call, ["send:read", "wait"], write], 3)]
    for name, programs, queue in two + three:
        for patched in (False, True):
            yield Exploration("%s/q%d/%s" % (name, queue, "waiting-read-yields" if patched else "waiting-read-fails"),
                              lambda ch, p=programs, q=queue, m=patched: share(ch, p, q, m,
                                                                               None if deep else 4,
                                                                               (GOOD,)))
    yield Exploration("outcomes", lambda ch: share(ch, [call, write], 2, False, None, (GOOD, CHECK)))
    if deep:
        yield Exploration("three-twice", lambda ch: share(ch, [call * 2, write * 2, call], 4, True, 3))
        yield Exploration("four", lambda ch: share(ch, [call, write, call, write], 4, True, 4))
    for name, device, executer, answers in PLATFORMS:
        programs = [("calls", [call, write], 2), ("send-wait", [["send:read", "wait"], ["send:write", "wait"]], 2),
                    ("wait-vs-call", [["send:read", "wait", "call:read"], call], 3), ("tight-queue", [call * 2, write], 1),
                    ("three", [call, ["send:read", "wait"], write], 3)]
        if deep:
            programs += [("twice", [["send:read", "call:write", "wait"], ["call:read", "send:write", "wait"]], 3),
                         ("four", [call, write, call, ["send:write", "wait"]], 4)]
        for title, ops, queue in programs:
            yield Exploration("%s/%s" % (name, title), lambda ch, d=device, e=executer, a=answers, p=ops, q=queue:
                              share_ioctl(ch, d, e, a, p, q))
    yield Group("transparent", list(range(6)), transparent)
    yield Group("io-errors", list(range(len(IO_ERRORS))), io_error)
    yield Group("interrupted", list(range(5)), interrupted)


# --- backends that send and receive in one system call -----------------------------------------------------------------
PLATFORMS = [
    ("linux-ioctl", backends.SgIoctlFile, backends.linux_ioctl, {"check": {"status": 2, "driver": 8}, "eio": 5}),
    ("solaris", backends.UscsiFile, backends.solaris, {"check": {"status": 2}, "eio": 5}),
    ("aix", backends.PassthruFile, backends.aix, {"check": {"validity": 1, "bus_status": 2, "errno": 5}, "eio": 5}),
    ("windows", backends.WinPolicy, backends.windows, {"check": {"status": 2}, "eio": 1117}),
]


def share_ioctl(chooser, make_device, make_executer, answers, programs, queue):
    scheduler = fakegevent.Scheduler(chooser, None)
    entries, order, results, finished = {}, [], [], []

    def on_submission(submission):
        entry = entries.get(submission.cdb)
        require(entry is not None, "a CDB nobody sent: %s" % submission.cdb.hex())
        entry.submissions += 1
        require(entry.submissions == 1, "command #%d was submitted twice" % entry.serial)
        entry.answer = "good" if entry.serial > 3 or finished else chooser.choose(["good", "check", "eio"], "answer")
        order.append(entry.serial)
        task = scheduler.current
        if task is not None:
            require(scheduler.sleeps.get(task.name, 0) >= getattr(task, "ios", 0),
                    "%s did %d device I/Os but offered control only %d times" %
                    (task.name, getattr(task, "ios", 0), scheduler.sleeps.get(task.name, 0)))
            if entry.answer == "good":
                task.ios = getattr(task, "ios", 0) + 1
        if entry.answer == "good":
            return {"data": entry.stored}
        answer = answers[entry.answer]
        return answer if isinstance(answer, int) else dict(answer, sense=entry.sense)

    executer = make_executer(make_device(on_submission), max_queue_size=queue)

    def new_entry(kind):
        entry = ioctlworld.Entry(len(entries) + 1, kind)
        entries[entry.cdb] = entry
        return entry

    def judge(entry, data, error, where):
        require(entry.answer is not None, "%s: command #%d was answered (%r, %r), the device never saw it" %
                (where, entry.serial, data, error))
        if entry.answer == "good":
            require(error is None, "%s: command #%d succeeded, got %r" % (where, entry.serial, error))
            # Windows tells how much was transferred
            truncated = entry.kind == "read" and make_device is backends.WinPolicy
            backends.check_data(("data", data), entry.kind, len(entry.stored) if truncated else entry.amount, entry.stored)
        else:
            require(entry.answer == "check", "%s: command #%d was not accepted, got (%r, %r)" %
                    (where, entry.serial, data, error))
            backends.check_sense(error, entry.sense)

    def fault(entry, error, where):
        require(entry.answer == "eio" and entry.submissions == 1 and not isinstance(error, AsiSCSIError),
                "%s: command #%d (answered %s) raised %r" % (where, entry.serial, entry.answer, error))

    def program(name, ops):
        def run():
            for op in ops:
                what, _, kind = op.partition(":")
                if what == "wait":
                    sync_wait(executer.wait())
                    results.append((name, "waited"))
                    continue
                entry = new_entry(kind)
                try:
                    if what == "call":
                        value = sync_wait(executer.call(entry.command()))
                        judge(entry, value, None, "%s: call" % name)
                        results.append((name, "ok"))
                    else:
                        entry.wanted = True
                        sync_wait(executer.send(entry.command(), callback=lambda data, error, e=entry:
                                                e.callbacks.append((data, error))))
                        results.append((name, "sent"))
                except Violation:
                    raise
                except AsiRequestQueueFullError:
                    require(entry.submissions == 0, "a refused command reached the device")
                    entry.wanted = False
                    results.append((name, "full"))
                except AsiSCSIError as error:
                    require(what == "call", "send raised %r" % (error,))
                    judge(entry, None, error, "%s: call" % name)
                    results.append((name, "scsi"))
                except EnvironmentFaults as error:
                    fault(entry, error, name)
                    entry.wanted = False
                    results.append((name, "failed"))
        return run

    for index, ops in enumerate(programs):
        scheduler.spawn("greenlet %d" % index, program("greenlet %d" % index, ops))
    scheduler.run()
    for task in scheduler.tasks:
        require(scheduler.sleeps.get(task.name, 0) >= getattr(task, "ios", 0),
                "%s did %d device I/Os but offered control only %d times" %
                (task.name, getattr(task, "ios", 0), scheduler.sleeps.get(task.name, 0)))
    sync_wait(executer.wait())
    chooser.state((tuple(results), tuple(order)))
    for entry in entries.values():
        for data, error in entry.callbacks:
            judge(entry, data, error, "callback")
        require(len(entry.callbacks) == (1 if getattr(entry, "wanted", False) else 0),
                "the callback of command #%d (answered %s) was called %d times in the end" %
                (entry.serial, entry.answer, len(entry.callbacks)))
    finished.append(True)
    last = new_entry("read")
    value = sync_wait(executer.call(last.command()))
    judge(last, value, None, "last call")
    return tuple(results), tuple(order), scheduler.switches


def transparent(case):
    """ the I/O wrapper passes arguments, value and exception through """
    from infi.asi import gevent_friendly
    offers = []
    error = ValueError("x")
    values = [None, 0, b"", b"data", (1, 2)]

    def operation(*args, **kwargs):
        require(not offers, "control was offered before the I/O")
        calls.append((args, kwargs))
        if case == 5:
            raise error
        return values[case]
    calls = []
    fakegevent.Hooks.sleep = lambda: offers.append(1)
    try:
        result = gevent_friendly(operation)(1, b"a", key=2)
    except ValueError as caught:
        require(case == 5 and caught is error, "unexpected %r" % (caught,))
    else:
        require(case != 5, "an exception of the I/O was swallowed")
        require(result is values[case], "the I/O returned %r, the wrapper %r" % (values[case], result))
        require(len(offers) >= 1, "control was not offered after the I/O")
    finally:
        fakegevent.Hooks.sleep = None
    require(calls == [((1, b"a"), {"key": 2})], "the I/O was called as %r" % (calls,))
    return case


IO_ERRORS = [OSError(11, "again"), OSError(4, "interrupted"), OSError(5, "io"), OSError(12, "memory"), OSError(16, "busy"),
             OSError(110, "timed out"), ValueError("x"), TypeError("x"), KeyboardInterrupt(), SystemExit(1), MemoryError(),
             RuntimeError("x"), StopIteration(), GeneratorExit()]


def io_error(index):
    """ an I/O that fails is not repeated, and its error surfaces """
    from infi.asi import gevent_friendly
    error = IO_ERRORS[index]
    calls = []

    def operation(*args, **kwargs):
        calls.append((args, kwargs))
        raise error
    fakegevent.Hooks.sleep = lambda: None
    try:
        gevent_friendly(operation)(1, b"a", key=2)
    except BaseException as caught:
        require(caught is error, "%r of the I/O surfaced as %r" % (error, caught))
    else:
        require(False, "%r of the I/O was swallowed" % (error,))
    finally:
        fakegevent.Hooks.sleep = None
    require(calls == [((1, b"a"), {"key": 2})], "the I/O was called as %r" % (calls,))
    return index


class Killed(BaseException):
    pass


def interrupted(index):
    """ the greenlet is interrupted (killed, timed out) while it offers control: the I/O is over and not done again """
    from infi.asi import gevent_friendly
    error = [Killed(), RuntimeError("the hub is gone"), OSError(11, "again"), KeyboardInterrupt(), TypeError("x")][index]
    calls = []

    def operation(*args, **kwargs):
        calls.append((args, kwargs))
        return b"data"

    def sleep():
        raise error
    fakegevent.Hooks.sleep = sleep
    try:
        gevent_friendly(operation)(1, b"a", key=2)
    except BaseException as caught:
        require(caught is error, "%r surfaced as %r" % (error, caught))
    finally:
        fakegevent.Hooks.sleep = None
    require(calls == [((1, b"a"), {"key": 2})], "the I/O was called as %r" % (calls,))
    return index
