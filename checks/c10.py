"""C10: every completion status of the Linux sg interface is classified correctly."""
from mc.core import Group, require
from mc.backends import SgFile, SgIoctlFile, linux_sg, linux_ioctl, make_command, outcome_of, pattern, check_sense
from mc import sgstatus

ID = "C10"
LEVEL = "exploration"
RULE = ("a case is one command completed by the simulated sg device with one combination of SCSI, driver and host "
        "status (or one content of the sense buffer); the error or data the user gets is compared with a reference "
        "classification; distinct = distinct (status, driver, host, kind, way, class)")
ASSUMPTIONS = ["host status 7 together with a reservation conflict may be reported as either"]


def run(arg):
    status, driver, host, kind, via = arg
    stored = pattern(16, 4) if kind == "read" else b""
    amount = {"read": 16, "write": b"0123456789", "none": 0}[kind]
    device = SgFile(lambda submission: {"status": status, "driver": driver, "host": host, "data": stored,
                                        "sense": sgstatus.SENSE if status == 2 or driver & 0xf == 8 else b""})
    executer = linux_sg(device)
    outcome = outcome_of(executer, make_command(kind, pattern(10, 1), amount), via)
    found = sgstatus.check_outcome(outcome, status, driver, host, kind, amount, stored)
    # the failure is this command's alone: the next one is fine
    device.answer = lambda submission: {"data": b"next"}
    again = outcome_of(executer, make_command("read", pattern(6, 2), 4), "call")
    require(again == ("data", b"next"), "after that, a clean command ended with %r" % (again,))
    return status, driver, host, kind, via, found


def run_sense(arg):
    status, driver, sense = arg
    sense = bytes.fromhex(sense)
    device = SgFile(lambda submission: {"status": status, "driver": driver, "sense": sense})
    what, value = outcome_of(linux_sg(device), make_command("read", pattern(6, 2), 8), "call")
    require(what == "error", "a check condition returned data")
    check_sense(value, sense)
    return sense


def run_any_status(arg):
    """ SCSI status values nobody defined: errors all the same """
    status, kind = arg
    amount = {"read": 16, "write": b"0123456789", "none": 0}[kind]
    device = SgFile(lambda submission: {"status": status, "sense": sgstatus.SENSE if status & 2 else b""})
    outcome = outcome_of(linux_sg(device), make_command(kind, pattern(10, 1), amount), "call")
    if status in (0, 2):
        return sgstatus.check_outcome(outcome, status, 0, 0, kind, amount, bytes(16) if kind == "read" else b"")
    require(outcome[0] == "error" and isinstance(outcome[1], sgstatus.AsiSCSIError), "status %#x ended with %r" %
            (status, outcome))
    return status, kind


def run_fields(arg):
    """ how the data moved and how long it took say nothing about success """
    backend, kind, status, driver, info, duration, moved = arg
    amount = {"read": 16, "write": b"0123456789", "none": 0}[kind]
    stored = pattern(moved, 4) if kind == "read" else b""
    answer = {"status": status, "driver": driver, "data": stored, "sense": sgstatus.SENSE if status == 2 else b"",
              "info": info, "duration": duration}
    device, executer = (SgFile, linux_sg) if backend == "sg" else (SgIoctlFile, linux_ioctl)
    executer = executer(device(lambda submission: answer))
    for via in ("call", "send"):
        outcome = outcome_of(executer, make_command(kind, pattern(10, 1), amount), via)
        sgstatus.check_outcome(outcome, status, driver, 0, kind, amount, stored + bytes(16 - len(stored)))
    return tuple(arg)


def groups(tier):
    combinations = list(sgstatus.product())
    for kind in ("read", "write", "none"):
        for via in ("call", "send"):
            yield Group("%s/%s" % (kind, via), [list(c) + [kind, via] for c in combinations], run,
                        bound="10 SCSI x 9 driver x 6 suggestion x 24 host codes")
    yield Group("any status", [[status, kind] for status in range(256) for kind in ("read", "write", "none")],
                run_any_status)
    yield Group("fields", [[backend, kind, status, driver, info, duration, moved] for backend in ("sg", "ioctl")
                           for kind in ("read", "write", "none")
                           for status, driver in ((0, 0), (2, 0), (2, 8), (8, 0), (0x18, 0), (0, 6)) for info in (0, 2, 4, 6)
                           for duration in (0, 1, 7, 1000, 0x7fffffff, 0x80000000, 0xffffffff)
                           for moved in ((0, 1, 8, 15, 16) if kind == "read" else (0,))], run_fields)
    senses = list(sgstatus.sense_cases())
    yield Group("sense", [[2, 0, sense] for sense in senses] + [[0, 8, sense] for sense in senses[::7]] +
                [[2, 8, sense] for sense in senses[::5]], run_sense)
