"""C09: a command reaches the sg device exactly as given, and its buffers live until it completes."""
import gc
import itertools

from mc.core import Group, require
from mc.backends import (SgFile, linux_sg, pattern, make_command, check_submission, outcome_of, check_data,
                         submission_cases, payload_cases, short_cases, split_args, IN, OUT)
import ctypes
from infi.asi.coroutines.sync_adapter import sync_wait

ID = "C09"
LEVEL = "exploration"
RULE = ("a case is one command (or a set of outstanding commands with a completion order) on the real Linux executer; "
        "the simulated sg device parses the raw header, follows its pointers at submission and again at completion; "
        "distinct = distinct (CDB, direction, length, payload, timeout) reaching the device, or completion histories")
ASSUMPTIONS = ["sg_io_hdr_t has the layout of <scsi/sg.h> on 64-bit Linux"]


def run_submission(arg, timeout=30000, kwargs={}):
    kind, cdb, amount, stored = split_args(arg)
    device = SgFile(lambda submission: {"data": stored})
    executer = linux_sg(device, **kwargs)
    outcome = outcome_of(executer, make_command(kind, cdb, amount), "call" if len(cdb) & 1 else "send")
    require(len(device.submissions) == 1, "%d commands reached the device" % len(device.submissions))
    check_submission(device.submissions[0], kind, cdb, amount)
    require(device.submissions[0].timeout == timeout, "timeout %d instead of %d ms" %
            (device.submissions[0].timeout, timeout))
    check_data(outcome, kind, amount, stored)
    return tuple(arg)


def run_payload(arg):
    kind, data = arg
    data = bytes.fromhex(data)
    device = SgFile(lambda submission: {"data": data if kind == "read" else b""})
    amount = len(data) if kind == "read" else data
    cdb = b"\x08\0\0\0\1\0"
    outcome = outcome_of(linux_sg(device), make_command(kind, cdb, amount), "call")
    check_submission(device.submissions[0], kind, cdb, amount)
    check_data(outcome, kind, amount, data)
    return tuple(arg)


def run_short(arg):
    """ the device stores less than was asked for """
    amount, stored = arg
    device = SgFile(lambda submission: {"data": pattern(stored, 3)})
    outcome = outcome_of(linux_sg(device), make_command("read", b"\x12" + bytes(5), amount), "call")
    check_data(outcome, "read", amount, pattern(stored, 3))
    return tuple(arg)


def timeouts():
    for timeout in (1, 2, 999, 1000, 3000, 29999, 30000, 60000, 0x7fffffff, 0x80000000, 0xffffffff):
        for kind, amount in (("read", 36), ("write", 24), ("none", 0)):
            yield [timeout, kind, amount]


def run_timeout(arg):
    timeout, kind, amount = arg
    run_submission([kind, pattern(6).hex(), amount], timeout, {"timeout": timeout})
    return tuple(arg)


# --- lifetime of the buffers -------------------------------------------------------------------------------------------
JUNK = []


def disturb(collect):
    """ give freed buffers a chance to be reused """
    if collect:
        gc.collect()
    del JUNK[:]
    for size in (6, 8, 10, 16, 24, 64, 88, 255, 256, 300, 512):
        for _ in range(6):
            JUNK.append(ctypes.create_string_buffer(b"\xa5" * size, size))


def histories(collect, outstanding):
    kinds = ("read", "write", "none")
    for count in outstanding:
        for combination in itertools.product(kinds, repeat=count):
            for order in itertools.permutations(range(count)):
                for extra in (False, True):
                    yield [list(combination), list(order), extra, collect]


def run_history(arg):
    """ several commands outstanding, completed in any order; every pointer is followed again at completion """
    kinds, order, extra, collect = arg
    expected = {}
    queue = list(order)

    def pick(outstanding):
        if not queue:
            return 0
        number = queue.pop(0)
        return next(index for index, submission in enumerate(outstanding) if submission.cdb[1] == number)

    def answer(submission):
        kind, amount, stored = expected[submission.cdb]
        disturb(collect)
        again = ctypes.string_at(submission.request.cmdp, submission.request.cmd_len)
        require(again == submission.cdb, "the CDB buffer changed before the command completed")
        if submission.direction == OUT:
            now = ctypes.string_at(submission.request.dxferp, submission.length)
            require(now == submission.data_out, "the payload buffer changed before the command completed")
        return {"data": stored}

    device = SgFile(answer, pick)
    executer = linux_sg(device)
    results = {}

    def start(number, kind):
        cdb = bytes([0x28, number]) + pattern(8, number)
        amount = pattern(24 + number, number) if kind == "write" else (300 + number if kind == "read" else 0)
        expected[cdb] = (kind, amount, pattern(amount, number + 50) if kind == "read" else b"")
        command = make_command(kind, cdb, amount)
        sync_wait(executer.send(command, callback=lambda data, error: results.setdefault(cdb, []).append((data, error))))
        check_submission(device.submissions[-1], kind, cdb, amount)
        disturb(collect)

    for number, kind in enumerate(kinds):
        start(number, kind)
    if extra:
        start(len(kinds), "read")
    sync_wait(executer.wait())
    disturb(collect)
    require(len(results) == len(expected), "%d of %d commands completed" % (len(results), len(expected)))
    for cdb, (kind, amount, stored) in expected.items():
        require(len(results[cdb]) == 1, "the callback was called %d times" % len(results[cdb]))
        data, error = results[cdb][0]
        check_data(("data", data) if error is None else ("error", error), kind, amount, stored)
    return repr(arg)


def groups(tier):
    deep = tier == "thorough"
    cases = list(submission_cases(not deep, 255))
    for part in range(4):
        yield Group("submission/%d" % part, cases[part::4], run_submission,
                    bound="CDB lengths 1-255, every byte value at every position, lengths up to %d" %
                    ((1 << 25) + 3))
    yield Group("payload", list(payload_cases()), run_payload)
    yield Group("short", short_cases(deep), run_short)
    yield Group("timeout", list(timeouts()), run_timeout)
    yield Group("lifetime/orders", list(histories(False, (1, 2, 3, 4) if deep else (1, 2, 3))), run_history)
    collected = list(histories(True, (1, 2, 3) if deep else (1, 2)))
    for part in range(4):
        yield Group("lifetime/collected/%d" % part, collected[part::4], run_history)
