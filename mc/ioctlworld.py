"""Histories of send / call / wait on a backend whose device answers within the submitting system call.

What the system call does (succeed with one of several statuses, fail with an errno) is chosen by the explorer at every
submission; the ledger knows which answer belongs to which command."""
import struct

from .core import Group, require, Violation
from .backends import pattern, make_command, check_submission, check_data, check_sense, outcome_of
from infi.asi.errors import AsiException, AsiRequestQueueFullError
from infi.asi.coroutines.sync_adapter import sync_wait


class Entry(object):
    def __init__(self, serial, kind):
        self.serial = serial
        self.kind = kind
        self.cdb = struct.pack(">BIB", 0x28, serial, serial * 7 & 0xff)
        length = 20 + (serial % 3 == 0)
        # every other read is answered with less than was asked for
        self.stored = pattern(length if serial % 2 else 12, serial) if kind == "read" else b""
        self.amount = {"read": length, "write": pattern(10 + serial % 200, serial + 100), "none": 0}[kind]
        self.sense = bytes([0x70, 0, 5, 0, 0, 0, 0, 10, 0, 0, 0, 0, serial & 0x7f, serial & 0x3f, 0, 0, 0, 0])
        self.answer = None
        self.callbacks = []
        self.submissions = 0

    def command(self):
        return make_command(self.kind, self.cdb, self.amount)


class World(object):
    """ spec: .device(answer) .executer(device, **kwargs) .answers {name: function(entry) -> answer}
    .judge(name, entry, outcome) checks the outcome of an answer that came back;
    .fails: names of the answers with which the submitting operation itself fails; .judge_failure(name, error) """

    def __init__(self, chooser, spec, queue):
        self.chooser = chooser
        self.spec = spec
        self.queue = queue
        self.names = list(spec.answers)
        self.device = spec.device(self.on_submission)
        kwargs = {} if queue is None else {"max_queue_size": queue}
        self.executer = spec.executer(self.device, **kwargs)
        self.limit = spec.default_queue if queue is None else queue
        self.entries = []
        self.by_cdb = {}
        self.pending = 0
        self.forced = None

    def on_submission(self, submission):
        entry = self.by_cdb.get(submission.cdb)
        require(entry is not None, "a CDB nobody sent: %s" % submission.cdb.hex())
        entry.submissions += 1
        require(entry.submissions == 1, "command #%d was submitted twice" % entry.serial)
        check_submission(submission, entry.kind, entry.cdb, entry.amount)
        entry.answer = self.forced or self.chooser.choose(self.names, "answer")
        return self.spec.answers[entry.answer](entry)

    def new_entry(self, kind):
        entry = Entry(len(self.entries) + 1, kind)
        self.entries.append(entry)
        self.by_cdb[entry.cdb] = entry
        return entry

    def send(self, kind):
        entry = self.new_entry(kind)

        def callback(data, error):
            entry.callbacks.append((data, error))
        try:
            sync_wait(self.executer.send(entry.command(), callback=callback))
        except Violation:
            raise
        except AsiRequestQueueFullError:
            require(self.pending >= self.limit, "refused with %d of %d commands pending" % (self.pending, self.limit))
            require(entry.submissions == 0, "a refused command reached the device")
            entry.answer = "refused"
            return "full"
        except Exception as error:
            require(entry.answer in self.spec.fails, "send of a command answered with %s raised %r" %
                    (entry.answer, error))
            self.spec.judge_failure(entry.answer, error)
            entry.failed = True
            return "failed"
        require(self.pending < self.limit, "accepted with %d of %d commands pending" % (self.pending, self.limit))
        require(entry.submissions == 1, "a sent command did not reach the device")
        require(entry.answer not in self.spec.fails, "the system call failed (%s), send did not" % entry.answer)
        self.pending += 1
        return "sent"

    def call(self, kind):
        entry = self.new_entry(kind)
        outcome = outcome_of(self.executer, entry.command(), "call")
        if isinstance(outcome[1], AsiRequestQueueFullError):
            require(self.pending >= self.limit, "refused with %d of %d commands pending" % (self.pending, self.limit))
            require(entry.submissions == 0, "a refused command reached the device")
            entry.answer = "refused"
            return "full"
        require(entry.submissions == 1, "a called command reached the device %d times" % entry.submissions)
        if entry.answer in self.spec.fails:
            require(outcome[0] == "error", "the system call failed (%s), call returned %r" % (entry.answer, outcome[1]))
            self.spec.judge_failure(entry.answer, outcome[1])
            return "failed"
        self.spec.judge(entry.answer, entry, outcome)
        self.pending = self.count_pending()
        return outcome[0]

    def count_pending(self):
        return sum(1 for entry in self.entries if getattr(entry, "waiting", False) and not entry.callbacks)

    def wait(self):
        sync_wait(self.executer.wait())
        self.pending = 0
        for entry in self.entries:
            if getattr(entry, "waiting", False):
                require(len(entry.callbacks) == 1, "wait returned, the callback of command #%d was called %d times" %
                        (entry.serial, len(entry.callbacks)))

    def check(self):
        for entry in self.entries:
            require(len(entry.callbacks) <= 1, "the callback of command #%d was called %d times" %
                    (entry.serial, len(entry.callbacks)))
            for data, error in entry.callbacks:
                require(getattr(entry, "waiting", False), "callback of a command that was not sent")
                self.spec.judge(entry.answer, entry, ("data", data) if error is None else ("error", error))
        full = self.executer.is_queue_full()
        require(bool(full) == (self.pending >= self.limit), "is_queue_full() is %r with %d of %d commands pending" %
                (full, self.pending, self.limit))


def history(chooser, spec, queue, depth):
    world = World(chooser, spec, queue)
    trace = []
    for step in range(depth):
        ops = ["send:read", "send:write", "call:read", "call:none", "wait"]
        op = chooser.choose(["stop"] + ops if step else ops, "op %d" % step)
        if op == "stop":
            break
        name, _, kind = op.partition(":")
        if name == "send":
            result = world.send(kind)
            world.entries[-1].waiting = result == "sent"
        elif name == "call":
            result = world.call(kind)
        else:
            result = world.wait()
        trace.append((op, result))
        world.check()
        chooser.state((world.limit, len(world.device.submissions) % world.limit, tuple((entry.kind, entry.answer) for entry in world.entries
                                    if getattr(entry, "waiting", False) and not entry.callbacks)), depth - step)
    # whatever happened: the executer drains and works
    world.wait()
    world.check()
    world.forced = "good"
    require(world.call("read") == "data", "the executer does not work any more")
    return tuple(trace), tuple(entry.answer for entry in world.entries)


class Cycle(object):
    """ stands for the explorer where the answers are a given sequence, over and over """

    def __init__(self, start):
        self.step = start

    def choose(self, options, label):
        self.step += 1
        return options[self.step % len(options)]


def wide_run(spec, arg):
    """ a deep queue, filled (with refused and failing commands in between), partly by calls, and drained, three times """
    queue, start, count = arg
    world = World(Cycle(start), spec, queue)
    kinds = ("read", "write", "read", "none")
    number = 0
    for round_number in range(count):
        sent = 0
        while world.pending < world.limit:
            number += 1
            sent += 1
            result = world.send(kinds[number % 4])
            world.entries[-1].waiting = result == "sent"
            if sent in (3, 8) and world.pending < world.limit:
                world.call(kinds[number % 4])
        require(world.send("read") == "full", "a full queue accepted a command")
        world.check()
        world.wait()
        world.check()
        for entry in world.entries:
            entry.callbacks = entry.callbacks[:1]
        world.entries, world.by_cdb, keep = [], {}, len(world.by_cdb)
        world.new_entry = lambda kind, base=number * 2 + keep: numbered(world, kind, base)
    return tuple(arg)


def numbered(world, kind, base):
    entry = Entry(base + len(world.entries) + 1, kind)
    world.entries.append(entry)
    world.by_cdb[entry.cdb] = entry
    return entry


def explorations(spec, deep, queues=(1, 2, 3)):
    """ every history of 3 operations; longer ones with states merged (what is pending, submissions so far) """
    from .explore import Exploration
    for queue in (None,) + tuple(queues):
        yield Exploration("histories/q%s" % queue,
                          lambda ch, q=queue: history(ch, spec, q, 4 if deep and q == 2 else 3))
    for queue in queues:
        yield Exploration("merged/q%d" % queue, lambda ch, q=queue: history(ch, spec, q, (7 if q < 3 else 6) if deep else (6 if q < 3 else 5)), merge=True)
    queues = (1, 2, 5, 16, 33, 64, 129, 256, 257) + ((1000,) if deep else ())
    yield Group("wide", [[queue, start, 3 if queue > 4 else 300 if deep else 60] for queue in queues
                         for start in range(len(spec.answers))], lambda arg: wide_run(spec, arg))
