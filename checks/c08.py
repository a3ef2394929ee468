"""C08: asynchronous waiting returns every result in argument order."""
import itertools

from mc import load  # noqa
from mc.core import require, Violation
from mc.explore import Exploration
from mc.fakewin import win32, kernel32, WAIT_TIMEOUT
from mc.asyncwin import AsyncKernel, ERRORS, wait_for
from infi.asi.coroutines import sync_adapter
from infi.asi.coroutines.sync_adapter import sync_wait, async_wait
from infi.asi.errors import AsiOSError, AsiCheckConditionError
from infi.asi import SCSIReadCommand
import infi.os_info

ID = "C08"
LEVEL = "model_checking"
RULE = ("a case is one schedule: how each overlapped operation starts (pending, completed at once, refused), the order in "
        "which the pending ones complete, alone or together, and which fail; distinct = distinct (start mode, completion "
        "order, results) vectors")
ASSUMPTIONS = ["WaitForMultipleObjects returns the lowest signaled index, events are manual-reset"]


def value(result):
    return getattr(result, "value", result)


def expected(operation):
    """ what the issuing command sees for this operation """
    if operation.error:
        return ("error", operation.error)
    return ("ok", operation.count)


def run(chooser, counts, shared, catch=True, nested=False, wait=None, **kwargs):
    kernel = AsyncKernel(chooser, **kwargs)
    kernel32.policy = kernel
    shared_file = win32.Win32AsyncFile("\\\\.\\shared") if shared else None
    issued = {}

    def ioctl(handle, number):
        before = set(kernel.by_id)
        generator = handle.ioctl(0x1000 + number, None, 0, None, 0)
        got = yield generator
        yield got

    def command(number, count):
        handle = shared_file or win32.Win32AsyncFile("\\\\.\\file%d" % number)
        seen = []
        for index in range(count):
            code = 0x1000 + number * 16 + index
            try:
                if nested:
                    got = yield ioctl(handle, number * 16 + index)
                else:
                    got = yield handle.ioctl(code, None, 0, None, 0)
            except AsiOSError as error:
                if not catch:
                    raise
                seen.append((code, ("error", error.win32_errno)))
            else:
                seen.append((code, ("ok", value(got))))
        yield (number, tuple(seen))

    commands = [command(number, count) for number, count in enumerate(counts)]
    try:
        results = (wait or wait_for)(*commands)
    except AsiOSError as error:
        require(not catch, "an exception escaped although every command catches its own: %r" % (error,))
        failed = [op for op in kernel.by_id.values() if op.error]
        require(error.win32_errno in [op.error for op in failed], "an error nobody produced: %r" % (error,))
        return "raised", error.win32_errno, tuple(kernel.order)
    finally:
        kernel32.policy = None
    require(catch or not any(op.error for op in kernel.by_id.values()), "an error was swallowed")
    by_code = dict((op.code, op) for op in kernel.by_id.values())
    wanted = []
    for number, count in enumerate(counts):
        codes = [0x1000 + number * 16 + index for index in range(count)]
        for code in codes:
            require(code in by_code, "an operation was never issued")
        wanted.append((number, tuple((code, expected(by_code[code])) for code in codes)))
    require(len(by_code) == sum(counts) == len(kernel.by_id), "operations were issued more than once")
    require(list(results) == wanted, "the results are\n  %r\ninstead of\n  %r" % (results, wanted))
    chooser.state((tuple(counts), tuple(kernel.order)))
    return tuple(kernel.order), tuple(op.mode for op in kernel.by_id.values()), tuple(wanted)


def entry_point(*commands):
    """ the public async_wait on what looks like Windows """
    original = infi.os_info.get_platform_string
    infi.os_info.get_platform_string = lambda *args: "windows-x64"
    try:
        return async_wait(*commands)
    finally:
        infi.os_info.get_platform_string = original


def sequential(*commands):
    """ the same commands run synchronously, one after the other """
    return [sync_wait(command) for command in commands]


def scsi(chooser, count, shared):
    """ SCSI commands over asynchronous files: own data for everybody, in order """
    kernel = AsyncKernel(chooser, start=("pending", "at once"))
    kernel32.policy = kernel
    try:
        executer = win32.Win32CommandExecuter(win32.Win32AsyncFile("\\\\.\\x")) if shared else None

        def command(number):
            target = executer or win32.Win32CommandExecuter(win32.Win32AsyncFile("\\\\.\\%d" % number))
            data = yield target.call(SCSIReadCommand(bytes([8, number + 1, 0, 0, 0, 0]), 4 + number))
            yield number, data
        results = wait_for(*[command(number) for number in range(count)])
    finally:
        kernel32.policy = None
    wanted = [(n, bytes(((n + 1) * 16 + i) & 255 for i in range(4 + n))) for n in range(count)]
    require(list(results) == wanted, "the results are %r instead of %r" % (results, wanted))
    chooser.state((count, shared, tuple(kernel.order)))
    return tuple(kernel.order), tuple(op.mode for op in kernel.by_id.values())


class Disciplined(object):
    """ one rule for the order of completion, kept throughout a run: the number of orders of many operations is out of reach """

    def __init__(self, chooser, rule, eager):
        self.rule, self.eager, self.state = rule, eager, chooser.state

    def choose(self, options, label=""):
        size = options if isinstance(options, int) else len(options)
        if label == "complete":
            together = not isinstance(options, int) and options[-1] == "all"
            singles = size - 1 if together else size
            index = {"first": 0, "last": singles - 1, "middle": singles // 2, "all": size - 1}[self.rule]
        elif label == "more complete":
            index = int(self.eager)
        else:
            index = 0
        return index if isinstance(options, int) else options[index]


def many(chooser, sizes):
    """ more commands than the operating system waits for in one call (64) """
    size = chooser.choose(sizes, "commands")
    count = chooser.choose([1, 2], "operations of each")
    rule = chooser.choose(["first", "last", "middle", "all"], "order of completion")
    eager = chooser.choose(2, "several complete before the wait")
    return run(Disciplined(chooser, rule, eager), [count] * size, chooser.choose(2, "shared file"))


def timeout(chooser):
    """ a wait that ends without completion is an error, not a result """
    kernel = AsyncKernel(chooser)
    kernel32.policy = kernel
    original = kernel.on_wait
    code = chooser.choose([WAIT_TIMEOUT, -1], "wait result")
    after = chooser.choose(3, "waits before")
    waits = []

    def on_wait(events):
        waits.append(1)
        if len(waits) > after:
            kernel32.last_error = 121
            return code
        return original(events)
    kernel.on_wait = on_wait

    def command(number):
        handle = win32.Win32AsyncFile("\\\\.\\file")
        for index in range(2):
            yield handle.ioctl(1, None, 0, None, 0)
        yield number
    try:
        wait_for(command(0), command(1))
    except AsiOSError:
        pass
    else:
        raise Violation("a wait that failed with %d produced results" % code)
    finally:
        kernel32.policy = None
    chooser.state((code, after))
    return code, after


def groups(tier):
    deep = tier == "thorough"
    vectors = {}
    for n in (1, 2, 3):
        vectors[n] = [list(v) for v in itertools.product(range(3 + (deep and n < 3)), repeat=n)]
    for n in (1, 2, 3):
        yield Exploration("orders/n%d" % n, lambda ch, n=n: run(ch, ch.choose(vectors[n], "counts"), False))
    yield Exploration("orders/deep", lambda ch: run(ch, [3, 2, 2] if not deep else [3, 3, 2], False))
    yield Exploration("orders/three", lambda ch: run(ch, [2, 2, 2] if not deep else [2, 2, 2, 1], False))
    yield Exploration("orders/four", lambda ch: run(ch, [1, 1, 1, 1] if not deep else [1, 2, 1, 1], True))
    yield Exploration("shared-file", lambda ch: run(ch, ch.choose([[2, 2], [1, 2, 1]], "counts"), True))
    yield Exploration("nested", lambda ch: run(ch, ch.choose([[2, 2], [1, 1, 1]], "counts"), False, nested=True))
    modes = dict(start=("pending", "at once", "refused"), completion=("ok", "failed"))
    yield Exploration("modes/n1", lambda ch: run(ch, ch.choose([[1], [2], [3]], "counts"), False, **modes))
    yield Exploration("modes/n2", lambda ch: run(ch, ch.choose([[1, 1], [2, 1], [1, 2]] + ([[2, 2]] if deep else [[3, 1]]),
                                                               "counts"), False, **modes))
    yield Exploration("modes/n3", lambda ch: run(ch, [1, 1, 1], True, **modes))
    yield Exploration("errors", lambda ch: run(ch, ch.choose([[1], [2], [1, 1]], "counts"), False, errors=ERRORS, **modes))
    yield Exploration("uncaught", lambda ch: run(ch, ch.choose([[1, 1], [2, 1]], "counts"), False, catch=False, **modes))
    yield Exploration("entry-point", lambda ch: run(ch, ch.choose([[1, 1], [0, 1, 2]], "counts"), False,
                                                    wait=entry_point))
    yield Exploration("synchronously", lambda ch: run(ch, ch.choose([[1, 1], [2, 2]], "counts"), False,
                                                      wait=sequential, **modes))
    for shared in (False, True):
        for n in (2, 3):
            yield Exploration("scsi/n%d/%s" % (n, "shared" if shared else "own"), lambda ch, n=n, s=shared: scsi(ch, n, s))
    yield Exploration("many", lambda ch: many(ch, [63, 64, 65, 66, 70, 128, 129, 130] if not deep else
                                              list(range(60, 70)) + [127, 128, 129, 192, 193, 255, 256, 257, 400]),
                      note="four orders of completion")
    yield Exploration("timeout", timeout)
