"""C13: the AIX passthru backend submits and completes faithfully."""
from mc.core import Group, require
from mc import backends, sgstatus, ioctlworld, backendcheck, fakeioctl
from mc.backends import check_data, check_sense
from infi.asi.errors import AsiSCSIError, AsiCheckConditionError, AsiOSError

ID = "C13"
LEVEL = "model_checking"
RULE = ("a case is a history of send/call/wait on the real AIX executer, with every result of every ioctl chosen by the "
        "explorer, through fcntl and through the libc function, or one submission / one combination of statuses; "
        "distinct = distinct histories of outcomes or distinct submissions and classifications")
ASSUMPTIONS = ["struct sc_passthru has the natural 64-bit layout", "an ioctl that failed leaves in the structure what "
               "the driver wrote there"]


class Spec(object):
    default_queue = 1
    timeout = 30
    libc = False
    device = backends.PassthruFile
    executer = staticmethod(backends.aix)
    answers = {
        "good": lambda entry: {"data": entry.stored},
        "check": lambda entry: {"validity": 1, "bus_status": 2, "sense": entry.sense, "errno": 5},
        "busy": lambda entry: {"validity": 1, "bus_status": 8, "errno": 5},
        "adapter": lambda entry: {"validity": 2, "adapter_status": 3, "errno": 110},
        "einval": lambda entry: {"einval_arg": 13, "errno": 22},
        "eio": lambda entry: 5,
    }
    fails = ("eio", "einval")

    @staticmethod
    def judge_failure(name, error):
        require(isinstance(error, AsiOSError), "an ioctl failure surfaced as %r" % (error,))

    @staticmethod
    def judge_errno(errno, error):
        require(isinstance(error, AsiOSError), "an ioctl failure (errno %d) surfaced as %r" % (errno, error))

    @staticmethod
    def judge(name, entry, outcome):
        validity, status = {"good": (0, 0), "check": (1, 2), "busy": (1, 8), "adapter": (2, 0)}[name]
        judge(validity, status, outcome, entry.kind, entry.amount, entry.stored, entry.sense)


class LibcSpec(Spec):
    @staticmethod
    def device(answer):
        fakeioctl.aix_libc[0] = True
        return backends.PassthruFile(answer)


class FcntlSpec(Spec):
    @staticmethod
    def device(answer):
        fakeioctl.aix_libc[0] = False
        return backends.PassthruFile(answer)


def judge(validity, status, outcome, kind, amount, stored, sense):
    if validity == 0:
        check_data(outcome, kind, amount, stored)
        return
    require(outcome[0] == "error", "validity %d, status %#x returned %r" % (validity, status, outcome[1]))
    error = outcome[1]
    require(isinstance(error, AsiSCSIError), "validity %d, status %#x surfaced as %r" % (validity, status, error))
    if validity == 1 and status == 2:
        check_sense(error, sense)
    elif validity != 1 or not status & 2:
        require(not isinstance(error, AsiCheckConditionError), "validity %d, status %#x surfaced as %r" %
                (validity, status, error))


SPECS = {"fcntl": FcntlSpec, "libc": LibcSpec}


def run_status(arg):
    which, validity, status, adapter, errno, kind, via = arg
    outcome, amount, stored = backendcheck.one(SPECS[which], {
        "validity": validity, "bus_status": status, "adapter_status": adapter, "errno": errno,
        "sense": sgstatus.SENSE if validity == 1 and status & 2 else b""}, kind, via)
    judge(validity, status, outcome, kind, amount, stored, sgstatus.SENSE)
    return tuple(arg)


def run_failure(arg):
    which, einval, validity, errno, via = arg
    outcome, _, _ = backendcheck.one(SPECS[which], {"einval_arg": einval, "errno": errno, "validity": validity}, "read",
                                     via)
    require(outcome[0] == "error" and isinstance(outcome[1], AsiOSError), "a failed ioctl (errno %d, einval_arg %d) "
            "ended with %r" % (errno, einval, outcome[1]))
    return tuple(arg)


def run_sense(arg):
    sense = bytes.fromhex(arg)
    (what, value), _, _ = backendcheck.one(FcntlSpec, {"validity": 1, "bus_status": 2, "sense": sense, "errno": 5},
                                           "read")
    require(what == "error", "a check condition returned data")
    check_sense(value, sense)
    return sense


def groups(tier):
    deep = tier == "thorough"
    for which, spec in sorted(SPECS.items()):
        for group in ioctlworld.explorations(spec, deep and which == "libc", (1, 2) if which == "fcntl" else (1, 2, 3)):
            group.name = "%s/%s" % (which, group.name)
            yield group
        for group in backendcheck.Common(spec, 64).groups(deep, (1, 2, 30, 60, 3600, 0x7fffffff, 0xffffffff)):
            group.name = "%s/%s" % (which, group.name)
            yield group
        yield Group(which + "/bus status", [[which, 1, status, 0, errno, kind, via] for status in range(256)
                                            for errno in (0, 5) for kind in ("read", "write", "none")
                                            for via in ("call", "send")], run_status)
        yield Group(which + "/adapter status", [[which, 2, status, adapter, errno, kind, "call"] for status in (0, 2)
                                                for adapter in range(256) for errno in (0, 5)
                                                for kind in ("read", "write", "none")], run_status)
        yield Group(which + "/validity", [[which, validity, status, 0, errno, "read", "call"]
                                          for validity in range(3, 256) for status in (0, 2, 8) for errno in (0, 5)],
                    run_status)
        yield Group(which + "/failure", [[which, einval, validity, errno, via] for einval in range(0, 30)
                                         for validity in (0,) for errno in (1, 5, 6, 9, 12, 16, 22, 110) for via in ("call", "send")],
                    run_failure)
    yield Group("sense", list(sgstatus.sense_cases())[::1 if deep else 3], run_sense)
