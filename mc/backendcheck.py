"""What the checks of the Solaris, AIX and Windows backends share."""
import ctypes
import itertools

from .core import Group, require
from . import backends
from .backends import make_command, check_submission, check_data, outcome_of


class Common(object):
    """ spec: see ioctlworld.World; .timeout: the default """

    def __init__(self, spec, max_cdb=16):
        self.spec = spec
        self.max_cdb = max_cdb

    def submission(self, arg, kwargs={}, timeout=None):
        kind, cdb, amount, stored = backends.split_args(arg)
        device = self.spec.device(lambda submission: {"data": stored})
        via = "send" if len(cdb) & 1 else "call"
        outcome = outcome_of(self.spec.executer(device, **kwargs), make_command(kind, cdb, amount), via)
        require(len(device.submissions) == 1, "%d commands reached the device" % len(device.submissions))
        check_submission(device.submissions[0], kind, cdb, amount)
        timeout = timeout or self.spec.timeout
        if timeout is not None:
            require(device.submissions[0].timeout == timeout, "timeout %d instead of %d" %
                    (device.submissions[0].timeout, timeout))
        else:
            require(device.submissions[0].timeout > 0, "no time to complete")
        check_data(outcome, kind, amount, stored)
        return tuple(arg)

    def payload(self, arg):
        kind, data = arg
        data = bytes.fromhex(data)
        device = self.spec.device(lambda submission: {"data": data if kind == "read" else b""})
        amount = len(data) if kind == "read" else data
        outcome = outcome_of(self.spec.executer(device), make_command(kind, bytes(6), amount), "call")
        check_submission(device.submissions[0], kind, bytes(6), amount)
        check_data(outcome, kind, amount, data)
        return tuple(arg)

    def short(self, arg):
        """ the device stores less than was asked for """
        amount, stored = arg
        device = self.spec.device(lambda submission: {"data": backends.pattern(stored, 3)})
        outcome = outcome_of(self.spec.executer(device), make_command("read", b"\x12" + bytes(5), amount), "call")
        check_data(outcome, "read", amount, backends.pattern(stored, 3))
        return tuple(arg)

    def short_group(self, deep):
        return Group("short", backends.short_cases(deep), self.short)

    def with_timeout(self, arg):
        timeout, kind, amount = arg
        self.submission([kind, backends.pattern(6).hex(), amount], {"timeout": timeout}, timeout)
        return tuple(arg)

    def errno(self, arg):
        """ an ioctl that fails is not issued again, surfaces, and does no harm to the next command """
        errno, kind, via = arg
        device = self.spec.device(lambda submission: errno)
        executer = self.spec.executer(device)
        amount = {"read": 16, "write": b"0123456789", "none": 0}[kind]
        what, error = outcome_of(executer, make_command(kind, bytes(10), amount), via)
        require(len(device.submissions) == 1, "%d commands reached the device" % len(device.submissions))
        require(what == "error", "a failing ioctl ended with data")
        self.spec.judge_errno(errno, error)
        device.answer = lambda submission: {"data": b"next"}
        again = outcome_of(executer, make_command("read", bytes(6), 4), "call")
        require(again == ("data", b"next"), "after that, a clean command ended with %r" % (again,))
        return tuple(arg)

    def errno_group(self):
        return Group("errno", [[errno, kind, via] for errno in range(1, 134) for kind in ("read", "write", "none")
                               for via in ("call", "send")], self.errno)

    def lifetime(self, arg):
        """ several commands answered, then memory pressure, then the answers are collected """
        import gc
        from infi.asi.coroutines.sync_adapter import sync_wait
        from .ioctlworld import Entry
        entries = [Entry(number + 1, kind) for number, (kind, _) in enumerate(arg)]
        names = dict((entry.cdb, (entry, name)) for entry, (_, name) in zip(entries, arg))
        got = dict((entry.cdb, []) for entry in entries)

        def answer(submission):
            entry, name = names[submission.cdb]
            return self.spec.answers[name](entry)
        executer = self.spec.executer(self.spec.device(answer), max_queue_size=len(entries))
        for entry in entries:
            sync_wait(executer.send(entry.command(), callback=lambda data, error, c=entry.cdb: got[c].append((data, error))))
        gc.collect()
        junk = [ctypes.create_string_buffer(b"\xa5" * size, size) for size in (6, 8, 16, 20, 21, 22, 23, 24, 56, 64, 88,
                                                                               168, 255, 256, 311, 312) * 6]
        sync_wait(executer.wait())
        del junk
        for entry, (_, name) in zip(entries, arg):
            require(len(got[entry.cdb]) == 1, "the callback was called %d times" % len(got[entry.cdb]))
            data, error = got[entry.cdb][0]
            self.spec.judge(name, entry, ("data", data) if error is None else ("error", error))
        return repr(arg)

    def groups(self, deep, timeouts=(), short=True):
        pairs = [[kind, name] for kind in ("read", "write") for name in ("good", "check")]
        yield Group("lifetime", [list(combination) for count in ((1, 2, 3) if deep else (1, 2))
                                 for combination in itertools.product(pairs, repeat=count)], self.lifetime)
        cases = list(backends.submission_cases(not deep, self.max_cdb))
        for part in range(4):
            yield Group("submission/%d" % part, cases[part::4], self.submission)
        yield Group("payload", list(backends.payload_cases()), self.payload)
        if hasattr(self.spec, "judge_errno"):
            yield self.errno_group()
        if short:
            yield self.short_group(deep)
        if timeouts:
            yield Group("timeout", [[timeout, kind, amount] for timeout in timeouts for kind, amount in
                                    (("read", 36), ("write", 24), ("none", 0))], self.with_timeout)


def one(spec, answer, kind, via="call"):
    """ one command with that answer -> (outcome, amount, stored) ; then a clean one has to work """
    stored = backends.pattern(16, 4) if kind == "read" else b""
    amount = {"read": 16, "write": b"0123456789", "none": 0}[kind]
    full = dict(answer)
    full.setdefault("data", stored)
    device = spec.device(lambda submission: full)
    executer = spec.executer(device)
    outcome = outcome_of(executer, make_command(kind, bytes(10), amount), via)
    require(len(device.submissions) == 1, "%d commands reached the device" % len(device.submissions))
    device.answer = lambda submission: {"data": b"next"}
    again = outcome_of(executer, make_command("read", bytes(6), 4), "call")
    require(again == ("data", b"next"), "after that, a clean command ended with %r" % (again,))
    return outcome, amount, stored
