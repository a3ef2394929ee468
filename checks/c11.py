"""C11: the Linux SG_IO ioctl backend submits and completes faithfully."""
from mc.core import Group, require
from mc import backends, sgstatus, ioctlworld, backendcheck
from mc.backends import SgIoctlFile, linux_ioctl, make_command, check_submission, check_data, check_sense, outcome_of

ID = "C11"
LEVEL = "model_checking"
RULE = ("a case is a history of send/call/wait on the real ioctl executer, with every result of every ioctl chosen by "
        "the explorer, or one submission / one combination of statuses; distinct = distinct histories of outcomes or "
        "distinct submissions and classifications")
ASSUMPTIONS = ["fcntl.ioctl copies a writable buffer back and leaves an immutable one alone, as documented"]


class Spec(object):
    default_queue = 1
    device = SgIoctlFile
    executer = staticmethod(linux_ioctl)
    answers = {
        "good": lambda entry: {"data": entry.stored},
        "check": lambda entry: {"status": 2, "driver": 8, "sense": entry.sense},
        "busy": lambda entry: {"status": 8},
        "host": lambda entry: {"host": 1},
        "enomem": lambda entry: 12,
    }
    fails = ("enomem",)

    @staticmethod
    def judge_failure(name, error):
        Spec.judge_errno(12, error)

    @staticmethod
    def judge_errno(errno, error):
        require(isinstance(error, OSError) and error.errno == errno, "an ioctl failure (errno %d) surfaced as %r" %
                (errno, error))

    @staticmethod
    def judge(name, entry, outcome):
        status, driver, host = {"good": (0, 0, 0), "check": (2, 8, 0), "busy": (8, 0, 0), "host": (0, 0, 1)}[name]
        sgstatus.check_outcome(outcome, status, driver, host, entry.kind, entry.amount, entry.stored, entry.sense)


def run_submission(arg, kwargs={}, timeout=30000):
    kind, cdb, amount, stored = backends.split_args(arg)
    device = SgIoctlFile(lambda submission: {"data": stored})
    outcome = outcome_of(linux_ioctl(device, **kwargs), make_command(kind, cdb, amount), "call")
    require(len(device.submissions) == 1, "%d commands reached the device" % len(device.submissions))
    check_submission(device.submissions[0], kind, cdb, amount)
    require(device.submissions[0].timeout == timeout, "timeout %d instead of %d" %
            (device.submissions[0].timeout, timeout))
    check_data(outcome, kind, amount, stored)
    return tuple(arg)


def run_payload(arg):
    kind, data = arg
    data = bytes.fromhex(data)
    device = SgIoctlFile(lambda submission: {"data": data if kind == "read" else b""})
    amount = len(data) if kind == "read" else data
    outcome = outcome_of(linux_ioctl(device), make_command(kind, bytes(6), amount), "call")
    check_submission(device.submissions[0], kind, bytes(6), amount)
    check_data(outcome, kind, amount, data)
    return tuple(arg)


def run_timeout(arg):
    timeout, kind, amount = arg
    run_submission([kind, backends.pattern(6).hex(), amount], {"timeout": timeout}, timeout)
    return tuple(arg)


def run_status(arg):
    status, driver, host, kind, via = arg
    stored = backends.pattern(16, 4) if kind == "read" else b""
    amount = {"read": 16, "write": b"0123456789", "none": 0}[kind]
    device = SgIoctlFile(lambda submission: {"status": status, "driver": driver, "host": host, "data": stored,
                                             "sense": sgstatus.SENSE if status == 2 or driver & 0xf == 8 else b""})
    outcome = outcome_of(linux_ioctl(device), make_command(kind, bytes(10), amount), via)
    return tuple(arg), sgstatus.check_outcome(outcome, status, driver, host, kind, amount, stored)


def run_sense(arg):
    sense = bytes.fromhex(arg)
    device = SgIoctlFile(lambda submission: {"status": 2, "driver": 8, "sense": sense})
    what, value = outcome_of(linux_ioctl(device), make_command("read", bytes(6), 8), "call")
    require(what == "error", "a check condition returned data")
    check_sense(value, sense)
    return sense


def groups(tier):
    deep = tier == "thorough"
    for group in ioctlworld.explorations(Spec, deep):
        yield group
    cases = list(backends.submission_cases(not deep, 255))
    for part in range(4):
        yield Group("submission/%d" % part, cases[part::4], run_submission)
    yield Group("payload", list(backends.payload_cases()), run_payload)
    yield Group("timeout", [[timeout, kind, amount] for timeout in (1, 999, 3000, 30000, 60000, 0x7fffffff, 0xffffffff)
                            for kind, amount in (("read", 36), ("write", 24), ("none", 0))], run_timeout)
    suggest = sgstatus.SUGGEST if deep else (0, 0x80)
    combinations = list(sgstatus.product(suggest))
    for kind, via in (("read", "call"), ("read", "send"), ("write", "call"), ("none", "send")):
        yield Group("status/%s/%s" % (kind, via), [list(c) + [kind, via] for c in combinations], run_status)
    yield Group("sense", list(sgstatus.sense_cases())[::1 if deep else 5], run_sense)
    yield backendcheck.Common(Spec).short_group(deep)
    yield backendcheck.Common(Spec).errno_group()
