"""Exploration of histories of send / call / wait on one Linux sg executer over the device model.

One world = one executer + one device + a ledger with what the device did to every command.  The environment (which
outstanding command completes next, with what outcome, faults of write/read, responses nobody asked for) is chosen by
the explorer; the ledger is the reference model (a dictionary), the oracle compares every callback / result with it.
"""
import struct

from . import load  # noqa
from .core import HarnessError, Violation, require
from .explore import Prune
from .fakesg import SgDevice, fixed_sense, foreign_response, FROM_DEV, TO_DEV

from infi.asi import SCSIReadCommand, SCSIWriteCommand
from infi.asi.linux import LinuxCommandExecuter
from infi.asi.coroutines.sync_adapter import sync_wait
from infi.asi.errors import (AsiCheckConditionError, AsiSCSIError, AsiInternalError, AsiRequestQueueFullError)

GOOD, CHECK, BUSY = "good", "check", "busy"
CONFLICT, QUEUE_FULL, HOST, HOST_STATUS, DRIVER, ABORTED = "conflict", "queue full", "host", "host and status", "driver", "aborted"

# what the device reports for the outcomes that are neither good nor a check condition
FAILURES = {BUSY: {"status": 8}, CONFLICT: {"status": 0x18}, QUEUE_FULL: {"status": 0x28}, ABORTED: {"status": 0x40},
            HOST: {"host_status": 3}, HOST_STATUS: {"status": 8, "host_status": 2}, DRIVER: {"driver_status": 6}}


FAR_IDS = (-1, -2, -15, 15, 16, 30, 255, 256, 257, 0x100, 0x8000, 0xffff, 0x10000, 0x10001, 0x7fffffff, -0x80000000)


class InjectedInterrupt(KeyboardInterrupt):
    """ the write is interrupted by something that is no Exception: KeyboardInterrupt, gevent.Timeout, GreenletExit """


class Entry(object):
    """ ledger entry of one command """

    def __init__(self, serial, kind):
        self.serial = serial
        self.kind = kind             # read / write / none
        self.cdb = struct.pack(">BIB", 0x08 if kind != "write" else 0x0a, serial, 0)
        self.length = 8 + (serial % 3 == 0)
        self.data = bytes((serial * 37 + i * 11 + 1) & 0xff for i in range(self.length))
        # every other read is answered with less than was asked for
        self.stored = self.data if serial % 2 else self.data[:5]
        self.callbacks = []
        self.submissions = 0
        self.outcome = None          # set by the device when it completes the command
        self.returned = None
        self.wants_callback = True
        self.failed_to_send = False

    def command(self):
        if self.kind == "read":
            return SCSIReadCommand(self.cdb, self.length)
        if self.kind == "none":
            return SCSIReadCommand(self.cdb, 0)
        return SCSIWriteCommand(self.cdb, self.data)

    def callback(self, data, exception):
        self.callbacks.append((data, exception))

    def sense(self):
        return fixed_sense(self.serial % 0x0b + 1, self.serial & 0xff, (self.serial * 3) & 0xff)

    def expected_data(self):
        return self.stored.ljust(self.length, b"\0") if self.kind == "read" else None

    def check_answer(self, data, exception, where):
        """ the answer handed to the user is exactly what the device did to this very command """
        require(self.outcome is not None,
                "%s: command #%d got an answer (%r, %r) although the device never completed it" %
                (where, self.serial, data, exception))
        if self.outcome == GOOD:
            require(exception is None, "%s: command #%d succeeded on the device but got %r" %
                    (where, self.serial, exception))
            require(data == self.expected_data(), "%s: command #%d expected data %r, got %r" %
                    (where, self.serial, self.expected_data(), data))
        elif self.outcome == CHECK:
            require(data is None and isinstance(exception, AsiCheckConditionError),
                    "%s: command #%d ended with CHECK CONDITION but got (%r, %r)" %
                    (where, self.serial, data, exception))
            sense = self.sense()
            require(bytes(exception.sense_buffer)[:len(sense)] == sense,
                    "%s: command #%d got the sense data of another command" % (where, self.serial))
        else:
            require(data is None and isinstance(exception, AsiSCSIError) and
                    not isinstance(exception, AsiCheckConditionError),
                    "%s: command #%d ended with %s but got (%r, %r)" % (where, self.serial, self.outcome.upper(), data, exception))


class World(object):
    def __init__(self, chooser, max_queue, outcomes=(GOOD, CHECK), write_faults=0, read_faults=0, foreign=0,
                 errnos=(5,), foreign_responses=()):
        self.chooser = chooser
        self.max_queue = max_queue
        self.outcomes = list(outcomes)
        self.write_faults = write_faults
        self.read_faults = read_faults
        self.errnos = tuple(errnos)
        self.foreign = foreign
        self.foreign_responses = foreign_responses
        self.foreign_delivered = False
        self.fault_raised = None
        self.entries = []
        self.by_cdb = {}
        self.last_pack_id = None
        self.device = SgDevice(self)
        self.executer = LinuxCommandExecuter(self.device, max_queue_size=max_queue)
        self.read_on_empty = 0
        self.log = []

    # --- device policy -------------------------------------------------------------------------------------------
    def on_write(self, device, request):
        entry = self.by_cdb.get(request.cdb)
        require(entry is not None, "the device received a CDB nobody sent: %r" % (request.cdb,))
        entry.submissions += 1
        require(entry.submissions == 1, "command #%d was submitted twice" % entry.serial)
        expected = {"read": FROM_DEV, "write": TO_DEV, "none": -1}[entry.kind]
        require(request.dxfer_direction == expected, "command #%d submitted with direction %d" %
                (entry.serial, request.dxfer_direction))
        if entry.kind == "write":
            require(request.data_out == entry.data, "command #%d submitted with data %r" %
                    (entry.serial, request.data_out))
        require(len(device.outstanding) < self.max_queue,
                "%d commands outstanding on the device, the queue size is %d" %
                (len(device.outstanding) + 1, self.max_queue))
        clash = [self.by_cdb[other.cdb].serial for other in device.outstanding if other.pack_id == request.pack_id]
        require(not clash, "command #%d was submitted with the packet id of the outstanding command #%s" %
                (entry.serial, clash))
        self.last_pack_id = request.pack_id
        fault = self.chooser.choose(2 + len(self.errnos), "write fault") if self.write_faults else 0
        if fault:
            self.write_faults -= 1
            entry.failed_to_send = True
            self.fault_raised = OSError(self.errnos[fault - 1], "injected write failure") \
                if fault <= len(self.errnos) else InjectedInterrupt()
            raise self.fault_raised

    def on_read(self, device, size):
        require(size == 88, "read of %d bytes from the sg device" % size)
        options = []
        for index in range(len(device.outstanding)):
            for outcome in self.outcomes:
                options.append((index, outcome))
        if self.foreign:
            used = set(request.pack_id for request in device.outstanding)
            unknown = [pack_id for pack_id in list(range(self.max_queue)) + [self.max_queue, 0x7fff]
                       if pack_id not in used]
            if self.foreign_responses:
                unknown += [pack_id for pack_id in FAR_IDS if pack_id not in unknown and pack_id not in used]
                options.extend(("foreign", pack_id, fields) for pack_id in unknown for fields in self.foreign_responses)
            else:
                options.extend(("foreign", pack_id, {}) for pack_id in unknown)
                options.append(("foreign", unknown[0], {"driver_status": 8}))
        if self.read_faults:
            options.extend([("fault", errno) for errno in self.errnos])
            options.append(("interrupt", None))
        if not device.outstanding:
            self.read_on_empty += 1
            # a real device would block until the read times out
            if not self.foreign:
                self.fault_raised = OSError(110, "read with nothing outstanding: timed out")
                raise self.fault_raised
        choice = self.chooser.choose(options, "read")
        if choice[0] in ("fault", "interrupt"):
            self.read_faults -= 1
            self.fault_raised = OSError(choice[1], "injected read failure") if choice[0] == "fault" \
                else InjectedInterrupt()
            raise self.fault_raised
        if choice[0] == "foreign":
            self.foreign -= 1
            self.foreign_delivered = True
            return foreign_response(choice[1], **choice[2])
        index, outcome = choice
        request = device.outstanding.pop(index)
        entry = self.by_cdb[request.cdb]
        entry.outcome = outcome
        if outcome == GOOD:
            return request.complete(data=entry.stored)
        if outcome == CHECK:
            return request.complete(status=2, driver_status=8, sense=entry.sense())
        return request.complete(**FAILURES[outcome])

    # --- operations ----------------------------------------------------------------------------------------------
    def new_entry(self, kind):
        entry = Entry(len(self.entries) + 1, kind)
        self.entries.append(entry)
        self.by_cdb[entry.cdb] = entry
        return entry

    def outstanding(self):
        return len(self.device.outstanding)

    def guarded(self, operation):
        """ run an operation; returns ("ok", value) / ("fault", e) / ("foreign", e) / ("scsi", e) / ("full", e) """
        self.fault_raised = None
        self.foreign_delivered = False
        try:
            value = operation()
        except (Violation, Prune, HarnessError):
            raise
        except (Exception, InjectedInterrupt) as error:
            if self.fault_raised is not None:
                require(error is self.fault_raised, "an I/O failure surfaced as %r instead of the failure itself" %
                        (error,))
                return "fault", error
            if self.foreign_delivered:
                require(isinstance(error, AsiInternalError),
                        "a response that belongs to no command surfaced as %r instead of an internal error" % (error,))
                return "foreign", error
            if isinstance(error, AsiRequestQueueFullError):
                return "full", error
            if isinstance(error, AsiSCSIError):
                return "scsi", error
            raise
        require(self.fault_raised is None, "an I/O failure was swallowed")
        require(not self.foreign_delivered, "a response that belongs to no command went unnoticed")
        return "ok", value

    def do_send(self, kind, with_callback=True):
        entry = self.new_entry(kind)
        before = self.outstanding()
        if with_callback:
            operation = lambda: sync_wait(self.executer.send(entry.command(), callback=entry.callback))
        else:
            entry.wants_callback = False
            operation = lambda: sync_wait(self.executer.send(entry.command()))
        what, value = self.guarded(operation)
        require(what in ("ok", "fault", "full"), "send failed with %r" % (value,))
        if what == "full":
            require(before >= self.max_queue, "send refused with %d of %d commands outstanding" %
                    (before, self.max_queue))
            require(entry.submissions == 0, "a refused command reached the device")
            entry.failed_to_send = True
        else:
            require(before < self.max_queue, "send accepted although %d of %d commands are outstanding" %
                    (before, self.max_queue))
            require(entry.submissions == 1, "a sent command did not reach the device")
        return what

    def do_bad_send(self):
        """ a command that can not be prepared: nothing may be submitted or occupied """
        before = len(self.device.submitted), self.outstanding()
        try:
            sync_wait(self.executer.send(SCSIWriteCommand(None, None), callback=lambda *args: None))
        except AsiRequestQueueFullError:
            require(before[1] >= self.max_queue, "send refused with a free slot")
        except Violation:
            raise
        except Exception:
            pass
        else:
            raise Violation("a command without CDB was accepted")
        require((len(self.device.submitted), self.outstanding()) == before, "a bad command reached the device")

    def do_call(self, kind):
        entry = self.new_entry(kind)
        before = self.outstanding()
        what, value = self.guarded(lambda: sync_wait(self.executer.call(entry.command())))
        if what == "full":
            require(before >= self.max_queue, "call refused with %d of %d commands outstanding" %
                    (before, self.max_queue))
            require(entry.submissions == 0, "a refused command reached the device")
            entry.failed_to_send = True
            return what
        require(before < self.max_queue, "call accepted although %d of %d commands are outstanding" %
                (before, self.max_queue))
        require(entry.submissions == 1, "a called command did not reach the device")
        if what in ("fault", "foreign"):
            return what
        entry.returned = True
        if what == "ok":
            entry.check_answer(value, None, "call")
        else:
            entry.check_answer(None, value, "call")
        return what

    def do_wait(self):
        what, value = self.guarded(lambda: sync_wait(self.executer.wait()))
        require(what in ("ok", "fault", "foreign"), "wait failed with %r" % (value,))
        if what == "ok":
            require(self.outstanding() == 0, "wait returned with %d commands outstanding" % self.outstanding())
        return what

    # --- oracle --------------------------------------------------------------------------------------------------
    def check(self):
        for entry in self.entries:
            # (a call has no user callback)
            if len(entry.callbacks) > 1:
                raise Violation("the callback of command #%d was called %d times: %r" %
                                (entry.serial, len(entry.callbacks), entry.callbacks))
            for data, exception in entry.callbacks:
                require(not entry.failed_to_send, "the callback of a command that was never sent was called")
                entry.check_answer(data, exception, "callback")
        full = sync_value(self.executer.is_queue_full())
        require(bool(full) == (self.outstanding() >= self.max_queue),
                "is_queue_full() is %r with %d of %d commands outstanding" % (full, self.outstanding(), self.max_queue))

    def check_delivered(self, entries=None):
        """ every completed command sent with a callback had it called """
        for entry in (self.entries if entries is None else entries):
            if entry.outcome is not None and entry.sent_with_callback():
                require(len(entry.callbacks) == 1, "command #%d completed on the device (%s), its callback was called "
                        "%d times" % (entry.serial, entry.outcome, len(entry.callbacks)))

    def drain(self):
        """ fault-free end of every history: everything still outstanding completes and reaches its callback """
        self.outcomes = [GOOD]
        self.write_faults = self.read_faults = self.foreign = 0
        what = self.do_wait()
        require(what == "ok", "the executer could not be drained: %s" % what)
        self.check()
        self.check_delivered()
        require(self.read_on_empty == 0, "the executer read from the device with nothing outstanding")

    def canon(self):
        """ what future behaviour can depend on: the queue as the device sees it and the last packet id used """
        return (self.max_queue, self.last_pack_id, self.write_faults, self.read_faults, self.foreign,
                tuple((request.pack_id, self.by_cdb[request.cdb].kind, self.by_cdb[request.cdb].sent_with_callback())
                      for request in self.device.outstanding))


def _sent_with_callback(self):
    return self.mode == "send" and self.wants_callback


Entry.mode = "send"
Entry.sent_with_callback = _sent_with_callback


def sync_value(value):
    """ is_queue_full() is a plain method; tolerate a coroutine """
    import types
    if isinstance(value, types.GeneratorType):
        return sync_wait(value)
    return value


def history(chooser, max_queue, depth, ops, merge=False, final_drain=True, **kwargs):
    world = World(chooser, max_queue, **kwargs)
    outcomes = []
    for step in range(depth):
        if step:
            chooser.state(world.canon(), depth - step)
        # option 0 stops the history, so that every prefix is an execution of its own with a final drain
        op = chooser.choose(["stop"] + list(ops), "op %d" % step) if step else chooser.choose(list(ops), "op 0")
        if op == "stop":
            break
        name, _, kind = op.partition(":")
        if name == "send":
            outcomes.append(world.do_send(kind))
        elif name == "post":
            outcomes.append(world.do_send(kind, with_callback=False))
        elif name == "call":
            world_entry_mode_call(world)
            outcomes.append(world.do_call(kind))
        elif name == "wait":
            outcomes.append(world.do_wait())
        elif name == "bad":
            world.do_bad_send()
            outcomes.append("bad")
        world.check()
        world.check_delivered()
    if final_drain:
        world.drain()
    return (max_queue, tuple(outcomes),
            tuple((e.kind, e.outcome, len(e.callbacks), e.failed_to_send) for e in world.entries))


def world_entry_mode_call(world):
    original = world.new_entry

    def new_entry(kind):
        entry = original(kind)
        entry.mode = "call"
        world.new_entry = original
        return entry
    world.new_entry = new_entry
