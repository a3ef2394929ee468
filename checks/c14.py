"""C14: the Windows pass-through backend submits and completes faithfully."""
from mc.core import Group, require
from mc import fakewin                      # imports infi.asi.win32 over the simulated kernel32
from mc import backends, sgstatus, ioctlworld, backendcheck
from mc.backends import check_data, check_sense, outcome_of, make_command
from infi.asi.errors import AsiSCSIError, AsiCheckConditionError, AsiOSError

ID = "C14"
LEVEL = "model_checking"
RULE = ("a case is a history of send/call/wait on the real Windows executer over a simulated kernel32, with every "
        "result of every DeviceIoControl chosen by the explorer, or one submission / one status / one transfer length; "
        "distinct = distinct histories of outcomes or distinct submissions and classifications")
ASSUMPTIONS = ["SCSI_PASS_THROUGH_DIRECT has the layout of 64-bit Windows", "kernel32 behaves as documented"]


class Spec(object):
    default_queue = 15
    timeout = None
    device = backends.WinPolicy
    executer = staticmethod(backends.windows)
    answers = {
        "good": lambda entry: {"data": entry.stored},
        "check": lambda entry: {"status": 2, "sense": entry.sense},
        "busy": lambda entry: {"status": 8},
        "gone": lambda entry: 1167,
    }
    fails = ("gone",)

    @staticmethod
    def judge_failure(name, error):
        require(isinstance(error, AsiOSError) and error.win32_errno == 1167, "a failed system call surfaced as %r" %
                (error,))

    @staticmethod
    def judge(name, entry, outcome):
        judge({"good": 0, "check": 2, "busy": 8}[name], outcome, entry.kind, entry.amount, entry.stored, entry.sense)


def judge(status, outcome, kind, amount, stored, sense):
    if status == 0:
        check_data(outcome, kind, len(stored) if kind == "read" else amount, stored)
        return
    require(outcome[0] == "error", "status %#x returned %r" % (status, outcome[1]))
    error = outcome[1]
    require(isinstance(error, AsiSCSIError), "status %#x surfaced as %r" % (status, error))
    if status == 2:
        check_sense(error, sense)
    else:
        require(not isinstance(error, AsiCheckConditionError), "status %#x surfaced as %r" % (status, error))


def run_status(arg):
    status, kind, via = arg
    outcome, amount, stored = backendcheck.one(Spec, {"status": status, "sense": sgstatus.SENSE if status & 2 else b""},
                                               kind, via)
    judge(status, outcome, kind, amount, stored, sgstatus.SENSE)
    return tuple(arg)


def run_sense(arg):
    sense = bytes.fromhex(arg)
    (what, value), _, _ = backendcheck.one(Spec, {"status": 2, "sense": sense}, "read")
    require(what == "error", "a check condition returned data")
    check_sense(value, sense)
    return sense


def run_transferred(arg):
    """ the device transfers less than was asked for """
    amount, transferred, via = arg
    stored = backends.pattern(amount, 7)
    device = Spec.device(lambda submission: {"data": stored, "transferred": transferred})
    outcome = outcome_of(Spec.executer(device), make_command("read", bytes(6), amount), via)
    require(outcome[0] == "data", "a short transfer raised %r" % (outcome[1],))
    require((outcome[1] or b"") == stored[:transferred], "the device transferred %s, got %r" %
            (stored[:transferred].hex(), outcome[1]))
    return tuple(arg)


def run_long(arg):
    """ a CDB for which the request has no room is refused: no part of it reaches the device as another command """
    length, kind, via = arg
    device = Spec.device(lambda submission: {"data": b"next"})
    executer = Spec.executer(device)
    amount = {"read": 4, "write": b"0123456789", "none": 0}[kind]
    what, error = outcome_of(executer, make_command(kind, backends.pattern(length, length), amount), via)
    require(what == "error" and not device.submissions, "a CDB of %d bytes ended with %r, %d commands reached the device" %
            (length, error, len(device.submissions)))
    again = outcome_of(executer, make_command("read", bytes(6), 4), "call")
    require(again == ("data", b"next"), "after that, a clean command ended with %r" % (again,))
    return tuple(arg)


def run_errno(arg):
    errno, kind, via = arg
    amount = {"read": 16, "write": b"0123456789", "none": 0}[kind]
    device = Spec.device(lambda submission: errno)
    executer = Spec.executer(device)
    what, error = outcome_of(executer, make_command(kind, bytes(6), amount), via)
    require(len(device.submissions) == 1, "%d commands reached the device" % len(device.submissions))
    require(what == "error" and isinstance(error, AsiOSError) and error.win32_errno == errno,
            "a system call failing with %d ended with %r" % (errno, error))
    device.answer = lambda submission: {"data": b"next"}
    again = outcome_of(executer, make_command("read", bytes(6), 4), "call")
    require(again == ("data", b"next"), "after that, a clean command ended with %r" % (again,))
    return tuple(arg)


def groups(tier):
    deep = tier == "thorough"
    for group in ioctlworld.explorations(Spec, deep):
        yield group
    for group in backendcheck.Common(Spec).groups(deep, short=False):
        yield group
    yield Group("status", [[status, kind, via] for status in range(256) for kind in ("read", "write", "none")
                           for via in ("call", "send")], run_status)
    yield Group("sense", list(sgstatus.sense_cases())[::1 if deep else 3], run_sense)
    top = 80 if deep else 40
    yield Group("transferred", [[amount, done, via] for amount in list(range(1, top)) + [255, 256, 512]
                                for done in range(amount + 1) for via in ("call", "send")] +
                [[amount, done, "call"] for amount in (65537, (1 << 24) + 2) for done in
                 (0, 1, 255, 256, 65535, 65536, 65537, 1 << 24, (1 << 24) + 1) if done <= amount], run_transferred)
    yield Group("long CDB", [[length, kind, via] for length in list(range(17, 34)) + [64, 255, 256, 257, 260]
                             for kind in ("read", "write", "none") for via in ("call", "send")], run_long)
    yield Group("errno", [[errno, kind, via] for errno in list(range(1, 300)) + [
                                                     995, 996, 997, 1117, 1167, 1460, 4095, 4096, 15999, 65535, 0x7fffffff] for kind in ("read", "write", "none")
                          for via in ("call", "send")], run_errno)
