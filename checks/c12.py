"""C12: the Solaris uscsi backend submits and completes faithfully."""
from mc.core import Group, require
from mc import backends, sgstatus, ioctlworld, backendcheck
from mc.backends import check_data, check_sense
from infi.asi.errors import AsiSCSIError, AsiCheckConditionError

ID = "C12"
LEVEL = "model_checking"
RULE = ("a case is a history of send/call/wait on the real Solaris executer, with every result of every ioctl chosen by "
        "the explorer, or one submission / one status; distinct = distinct histories of outcomes or distinct "
        "submissions and classifications")
ASSUMPTIONS = ["struct uscsi_cmd has the layout of a 64-bit little-endian Solaris", "a failing uscsi ioctl carries no "
               "status to be reported"]


class Spec(object):
    default_queue = 1
    timeout = 30
    device = backends.UscsiFile
    executer = staticmethod(backends.solaris)
    answers = {
        "good": lambda entry: {"data": entry.stored},
        "check": lambda entry: {"status": 2, "sense": entry.sense},
        "busy": lambda entry: {"status": 8, "reason": 3},
        "conflict": lambda entry: {"status": 0x18},
        "eio": lambda entry: 5,
    }
    fails = ("eio",)

    @staticmethod
    def judge_failure(name, error):
        Spec.judge_errno(5, error)

    @staticmethod
    def judge_errno(errno, error):
        require(isinstance(error, OSError) and error.errno == errno, "an ioctl failure (errno %d) surfaced as %r" %
                (errno, error))

    @staticmethod
    def judge(name, entry, outcome):
        judge({"good": 0, "check": 2, "busy": 8, "conflict": 0x18}[name], outcome, entry.kind, entry.amount,
              entry.stored, entry.sense)


def judge(status, outcome, kind, amount, stored, sense):
    if status == 0:
        check_data(outcome, kind, amount, stored)
        return
    require(outcome[0] == "error", "status %#x returned %r" % (status, outcome[1]))
    error = outcome[1]
    require(isinstance(error, AsiSCSIError), "status %#x surfaced as %r" % (status, error))
    if status == 2:
        check_sense(error, sense)
    elif not status & 2:
        require(not isinstance(error, AsiCheckConditionError), "status %#x surfaced as %r" % (status, error))
        text = str(error).lower()
        require("%x" % status in text or str(status) in text, "the error does not name status %#x: %s" % (status, text))


COMMON = backendcheck.Common(Spec, 255)


def run_status(arg):
    status, reason, kind, via = arg
    outcome, amount, stored = backendcheck.one(Spec, {"status": status, "reason": reason,
                                                      "sense": sgstatus.SENSE if status & 2 else b""}, kind, via)
    judge(status, outcome, kind, amount, stored, sgstatus.SENSE)
    return tuple(arg)


def run_reason(arg):
    """ errors with the same status tell the reasons apart """
    status, = arg
    texts = set()
    for reason in range(256):
        (what, error), _, _ = backendcheck.one(Spec, {"status": status, "reason": reason}, "none")
        texts.add(str(error))
    require(len(texts) == 256, "256 reasons, %d different error texts" % len(texts))
    return status


def run_sense(arg):
    sense = bytes.fromhex(arg)
    (what, value), _, _ = backendcheck.one(Spec, {"status": 2, "sense": sense}, "read")
    require(what == "error", "a check condition returned data")
    check_sense(value, sense)
    return sense


def run_rqstatus(arg):
    """ a failed request sense with a status of GOOD """
    rqstatus, kind, via = arg
    outcome, amount, stored = backendcheck.one(Spec, {"rqstatus": rqstatus}, kind, via)
    if rqstatus == 0:
        check_data(outcome, kind, amount, stored)
    else:
        error = outcome[1]
        require(outcome[0] == "error" and isinstance(error, AsiSCSIError) and not isinstance(error, AsiCheckConditionError),
                "request sense status %#x ended with %r" % (rqstatus, error))
        require("%x" % rqstatus in str(error).lower() or str(rqstatus) in str(error),
                "the error does not name the request sense status %#x: %s" % (rqstatus, error))
    return tuple(arg), outcome[0]


def groups(tier):
    deep = tier == "thorough"
    for group in ioctlworld.explorations(Spec, deep):
        yield group
    for group in COMMON.groups(deep, (1, 2, 30, 60, 3600, 0x7fff)):
        yield group
    yield Group("status", [[status, reason, kind, via] for status in range(256)
                           for reason in (range(6) if status else (0,)) for kind in ("read", "write", "none")
                           for via in ("call", "send")], run_status)
    yield Group("reason", [[8], [0x18], [0x28], [0x80]], run_reason)
    yield Group("sense", list(sgstatus.sense_cases())[::1 if deep else 3], run_sense)
    yield Group("rqstatus", [[rqstatus, kind, via] for rqstatus in range(256) for kind in ("read", "write", "none")
                             for via in ("call", "send")], run_rqstatus)
