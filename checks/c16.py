"""C16: device contexts open the right device and always close it once."""
import itertools
import os

from mc import fakeos                       # before the code under test
from mc import backends, fakewin
from mc.core import Group, require, Violation
from mc.backends import make_command, check_submission, pattern
from infi.asi import executers, create_os_file, create_platform_command_executer
from infi.asi import create_async_os_file, create_os_async_reactor, OSFile, OSAsyncReactor
from greenlet import GreenletExit
from infi.asi.errors import AsiException, AsiOSError, AsiCheckConditionError
from infi.asi.coroutines.sync_adapter import sync_wait

ID = "C16"
LEVEL = "fault_enumeration"
RULE = ("a case is one use of one device context (or several, nested or one after another) with one way to leave it or "
        "one failing step, over recording stand-ins of the system calls; distinct = distinct (context, platform string, "
        "exit, outcome)")
ASSUMPTIONS = ["open and close of a device file go through os.open/os.close (CreateFile/CloseHandle on Windows)"]

CONTEXTS = {
    # name: (platform strings, device class, default timeout as the device sees it)
    "linux_sg": (("linux-ubuntu-xenial-x64", "linux-redhat-7-x64", "linux-suse-11-ppc64le"), backends.SgFile, 3000),
    "linux_dm": (("linux-ubuntu-xenial-x64", "linux-redhat-6-x86"), backends.SgIoctlFile, 30000),
    "solaris": (("solaris-11-sparc", "solaris-10-x64"), backends.UscsiFile, 30),
    "aix": (("aix-7.1-powerpc", "aix-6.1-powerpc"), backends.PassthruFile, 30),
    "windows": (("windows-x64", "windows-x86"), None, None),
}
CHECK = {
    "linux_sg": {"status": 2, "driver": 8}, "linux_dm": {"status": 2, "driver": 8}, "solaris": {"status": 2},
    "aix": {"validity": 1, "bus_status": 2}, "windows": {"status": 2},
}


class BodyError(Exception):
    pass


RAISED = {
    "body exception": BodyError("in the body"),
    "library exception": AsiException("in the body"),
    "os error": OSError(5, "in the body"),
    "interrupt": KeyboardInterrupt("in the body"),
    "exit": SystemExit(3),
    "stop": StopIteration("in the body"),
    "generator exit": GeneratorExit("in the body"),
    "greenlet exit": GreenletExit("in the body"),
    "memory": MemoryError("in the body"),
    "assertion": AssertionError("in the body"),
}


class WinPolicy(object):
    """ several simulated Windows devices by path """

    def __init__(self):
        self.handles = {}
        self.opened = []
        self.closed = []
        self.devices = {}
        self.open_error = {}
        self.close_error = 0
        self.failed_closes = 0
        self.overlapped = False
        self.next = 0x100
        fakewin.kernel32.policy = self

    def on_create_file(self, path, access, share, disposition, flags):
        if path in self.open_error:
            return -self.open_error[path]
        require(path in self.devices, "CreateFile of %r" % path)
        require(access & 0xc0000000 == 0xc0000000 or access & 0x10000000, "CreateFile with access %#x" % access)
        require(disposition == 3, "CreateFile with disposition %d" % disposition)
        require(bool(flags & 0x40000000) == self.overlapped, "CreateFile of %s with flags %#x" %
                ("an asynchronous file" if self.overlapped else "a file for synchronous commands", flags))
        self.next += 4
        self.opened.append((path, None, self.next))
        self.handles[self.next] = self.devices[path]
        return self.next

    def on_close(self, handle):
        require(handle in self.handles, "CloseHandle of %#x, which is not open" % handle)
        if self.close_error:
            self.failed_closes += 1
            return self.close_error
        self.closed.append(handle)
        del self.handles[handle]
        return 0

    def on_ioctl(self, handle, code, in_address, in_size, out_address, out_size, event):
        if handle not in self.handles:
            return 6
        device = self.handles[handle]
        request = fakewin.SptRequest(in_address, in_size)
        answer = device.submit(backends.Submission(
            request.cdb, {1: backends.IN, 0: backends.OUT}.get(request.DataIn, backends.NO_DATA), request.data_out,
            request.DataTransferLength, request.TimeOutValue, request.SenseInfoLength, request))
        if isinstance(answer, int):
            return answer
        request.complete(status=answer.get("status", 0), data=answer.get("data", b""), sense=answer.get("sense", b""))
        return 0


class World(object):
    def __init__(self, name, platform):
        self.name = name
        self.windows = name == "windows"
        self.system = fakeos.system = fakeos.System()
        self.system.platform = platform
        self.policy = WinPolicy()
        self.source = self.policy if self.windows else self.system
        self.devices = {}

    def add(self, number):
        path = "\\\\.\\PHYSICALDRIVE%d" % number if self.windows else "%s%d" % (fakeos.MAGIC, number)
        if self.windows:
            self.policy.devices[path] = self.devices[path] = backends.Device()
        else:
            def factory():
                device = CONTEXTS[self.name][1]()
                self.devices[path] = device
                return device
            self.system.factories[path] = factory
        return path

    def context(self, path):
        return getattr(executers, self.name)(path)

    def opened_paths(self):
        return [path for path, _, _ in self.source.opened]

    def check_open_flags(self):
        for path, flags, fd in self.source.opened:
            if flags is not None:
                require(flags & 3 == os.O_RDWR, "%s opened with flags %#o" % (path, flags))

    def check_closed(self, paths):
        """ what was opened is closed, each exactly once """
        require(self.opened_paths() == paths, "opened %r instead of %r" % (self.opened_paths(), paths))
        opened = [fd for _, _, fd in self.source.opened]
        require(sorted(self.source.closed) == sorted(opened), "opened %r, closed %r" % (opened, self.source.closed))

    def command(self, executer, path, serial, answer=None):
        """ a read and a write through the executer, checked on the device """
        device = self.devices[path]
        stored = pattern(30 + serial, serial)
        device.answer = lambda submission: answer or {"data": stored}
        cdb = bytes([0x12, serial, 0, 0, 30, 0])
        count = len(device.submissions)
        result = sync_wait(executer.call(make_command("read", cdb, len(stored))))
        require(result == stored, "the device answered %r, got %r" % (stored, result))
        payload = pattern(12, serial + 60)
        sync_wait(executer.call(make_command("write", b"\x0a" + cdb[1:], payload)))
        require(len(device.submissions) == count + 2, "two commands, %d reached the device" %
                (len(device.submissions) - count))
        check_submission(device.submissions[-2], "read", cdb, len(stored))
        check_submission(device.submissions[-1], "write", b"\x0a" + cdb[1:], payload)
        timeout = CONTEXTS[self.name][2]
        for submission in device.submissions:
            require(submission.timeout == timeout if timeout else submission.timeout > 0, "a command was sent with "
                    "timeout %d" % submission.timeout)


def expect_raise(action, error, where):
    try:
        action()
    except BaseException as caught:
        if isinstance(caught, Violation):
            raise
        if isinstance(error, StopIteration) and isinstance(caught, RuntimeError) and caught.__cause__ is error:
            return                  # PEP 479 machinery of context managers
        require(caught is error, "%s: %r was raised in the body, %r came out" % (where, error, caught))
    else:
        raise Violation("%s: %r was raised in the body and swallowed" % (where, error))


def run_exit(arg):
    name, platform, exit, commands = arg
    world = World(name, platform)
    path = world.add(1)
    inside = []

    def body():
        with world.context(path) as executer:
            require(world.opened_paths() == [path] and not world.source.closed, "inside: opened %r, closed %r" %
                    (world.opened_paths(), world.source.closed))
            for serial in range(commands):
                world.command(executer, path, serial)
            inside.append(True)
            require(not world.source.closed, "closed inside of the context")
            if exit in RAISED:
                raise RAISED[exit]
            if exit == "return":
                return "value"
            if exit == "check condition":
                sense = bytes([0x70, 0, 5, 0, 0, 0, 0, 10, 0, 0, 0, 0, 0x24, 0, 0, 0, 0, 0])
                world.devices[path].answer = lambda submission: dict(CHECK[name], sense=sense)
                try:
                    sync_wait(executer.call(make_command("read", bytes(6), 8)))
                except AsiCheckConditionError as error:
                    RAISED["check condition"] = error
                    raise
                raise Violation("a check condition went unnoticed")
            if exit == "i/o error":
                world.devices[path].answer = lambda submission: 5
                try:
                    sync_wait(executer.call(make_command("read", bytes(6), 8)))
                except Violation:
                    raise
                except Exception as error:
                    RAISED["i/o error"] = error
                    raise
                raise Violation("an I/O error went unnoticed")
        return None
    where = "%s, %s" % (name, exit)
    if exit in ("normal", "return"):
        require(body() == (None if exit == "normal" else "value"), "%s: another value" % where)
    else:
        if exit in ("check condition", "i/o error"):
            RAISED.pop(exit, None)
            try:
                body()
            except Violation:
                raise
            except Exception as error:
                require(error is RAISED.pop(exit, None), "%s: %r came out" % (where, error))
            else:
                raise Violation("%s: swallowed" % where)
        else:
            expect_raise(body, RAISED[exit], where)
    require(inside, "the body was not run")
    world.check_closed([path])
    world.check_open_flags()
    return tuple(arg)


def run_open_failure(arg):
    name, platform, errno = arg
    world = World(name, platform)
    path = world.add(1)
    world.source.open_error[path] = errno
    entered = []
    try:
        with world.context(path):
            entered.append(True)
    except Violation:
        raise
    except Exception as error:
        require(not entered, "the body was run although the device could not be opened")
        number = getattr(error, "win32_errno", getattr(error, "errno", None))
        require(isinstance(error, (OSError, AsiOSError)) and number == errno, "open failed with %d: %r" %
                (errno, error))
    else:
        raise Violation("the failure to open the device was swallowed")
    require(not world.source.closed, "closed %r, opened nothing" % world.source.closed)
    # and the next time it works
    world.source.open_error.clear()
    with world.context(path) as executer:
        world.command(executer, path, 1)
    world.check_closed([path])
    return tuple(arg)


def run_several(arg):
    """ nested and consecutive contexts of several devices: each closes its own """
    name, platform, shape = arg
    world = World(name, platform)
    first, second = world.add(1), world.add(2)

    def use(path, serial):
        with world.context(path) as executer:
            world.command(executer, path, serial)
    if shape == "consecutive":
        use(first, 1), use(second, 2), use(first, 3)
        world.check_closed([first, second, first])
    elif shape == "nested":
        with world.context(first) as outer:
            with world.context(second) as inner:
                world.command(inner, second, 1)
                world.command(outer, first, 2)
            require(world.source.closed == [world.source.opened[1][2]], "the inner context closed %r" %
                    world.source.closed)
            world.command(outer, first, 3)
        world.check_closed([first, second])
    elif shape == "nested failure":
        try:
            with world.context(first) as outer:
                try:
                    with world.context(second):
                        raise RAISED["body exception"]
                except BodyError:
                    pass
                world.command(outer, first, 3)
                raise RAISED["os error"]
        except OSError:
            pass
        world.check_closed([first, second])
    elif shape == "crossed":
        a, b = world.context(first), world.context(second)
        outer = a.__enter__()
        inner = b.__enter__()
        a.__exit__(None, None, None)
        require(world.source.closed == [world.source.opened[0][2]], "the first context closed %r" % world.source.closed)
        world.command(inner, second, 4)
        b.__exit__(None, None, None)
        world.check_closed([first, second])
    else:                           # the same device twice at once
        with world.context(first) as outer:
            with world.context(first) as inner:
                world.command(inner, first, 1)
            require(len(world.source.closed) == 1, "the inner context closed %r" % world.source.closed)
        world.check_closed([first, first])
    return tuple(arg)


PLATFORM_EXECUTER = {"linux": "linux_sg", "solaris": "solaris", "aix": "aix", "windows": "windows"}


def run_platform(arg):
    """ create_os_file and create_platform_command_executer by hand, as the examples do """
    platform, timeout = arg
    name = PLATFORM_EXECUTER[platform.split("-")[0]]
    world = World(name, platform)
    path = world.add(1)
    handle = create_os_file(path)
    executer = create_platform_command_executer(handle)
    device = world.devices[path]
    device.answer = lambda submission: {"data": b"12345678"}
    require(sync_wait(executer.call(make_command("read", bytes(6), 8))) == b"12345678", "the command failed")
    handle.close()
    world.check_closed([path])
    world.check_open_flags()
    return tuple(arg)


def run_unsupported(arg):
    world = World("linux_sg", arg)
    path = world.add(1)
    for action in (lambda: create_os_file(path), lambda: create_platform_command_executer(None),
                   lambda: executers.linux_sg(path).__enter__()):
        try:
            action()
        except AsiException:
            pass
        else:
            raise Violation("platform %s is not supported, but there was no error" % arg)
    world.check_closed([])
    return arg


def run_close_failure(arg):
    """ the device can not be closed: closed once all the same, and the user learns of it """
    name, platform, errno, body = arg
    world = World(name, platform)
    path = world.add(1)
    world.source.close_error = errno
    try:
        with world.context(path) as executer:
            world.command(executer, path, 1)
            if body:
                raise RAISED[body]
    except Violation:
        raise
    except Exception as error:
        number = getattr(error, "win32_errno", getattr(error, "errno", None))
        require(isinstance(error, (OSError, AsiOSError)) and number == errno, "close failed with %d: %r" % (errno, error))
        require(not body or error.__context__ is RAISED[body], "the exception of the body was lost: %r" % (error.__context__,))
    else:
        raise Violation("the failure to close the device was swallowed")
    tries = len(world.source.closed) + getattr(world.source, "failed_closes", 0)
    require(tries == 1, "%d attempts to close the device" % tries)
    world.source.close_error = 0
    world.source.closed = []
    world.source.opened = []
    with world.context(path) as executer:
        world.command(executer, path, 2)
    world.check_closed([path])
    return tuple(arg)


WINDOWS_STEPS = ("close", "failing close", "ioctl")


def run_windows_file(arg):
    """ all sequences of steps on a Windows file: closed at most once, a failed close can be repeated, a close of a
    closed file does nothing """
    asynchronous, steps = arg
    world = World("windows", "windows-x64")
    path = world.add(1)
    world.policy.overlapped = asynchronous
    handle = (create_async_os_file if asynchronous else create_os_file)(path)
    require(world.opened_paths() == [path], "opened %r" % world.opened_paths())
    number = world.policy.opened[0][2]
    closed = failed = 0
    for step in steps:
        if step == "ioctl":
            if asynchronous or closed:
                continue
            executer = create_platform_command_executer(handle)
            world.devices[path].answer = lambda submission: {"data": b"abcd"}
            require(sync_wait(executer.call(make_command("read", bytes(6), 4))) == b"abcd", "the command failed")
            continue
        world.policy.close_error = 6 if step == "failing close" else 0
        try:
            handle.close()
        except AsiOSError as error:
            require(not closed and step == "failing close" and error.win32_errno == 6, "%s: %r" % (step, error))
            failed += 1
        else:
            require(closed or step == "close", "the failure to close was swallowed")
            closed = 1
        require(world.policy.closed == [number] * closed and world.policy.failed_closes == failed,
                "closed %r (%d failed)" % (world.policy.closed, world.policy.failed_closes))
    return asynchronous, tuple(steps)


def run_factory(arg):
    """ what is asynchronous exists on Windows only; elsewhere the factories refuse """
    platform, = arg
    windows = platform.startswith("windows")
    world = World("windows" if windows else "linux_sg", platform)
    path = world.add(1)
    world.policy.overlapped = True
    for factory, arguments in ((create_async_os_file, (path,)), (create_os_async_reactor, ())):
        try:
            result = factory(*arguments)
        except AsiException:
            require(not windows, "%s refused on %s" % (factory.__name__, platform))
        else:
            require(windows, "%s on %s: %r" % (factory.__name__, platform, result))
            require(isinstance(result, OSFile if arguments else OSAsyncReactor), "%s: %r" % (factory.__name__, result))
    world.policy.overlapped = False
    require(world.opened_paths() == ([path] if windows else []), "opened %r" % world.opened_paths())
    return tuple(arg)


def groups(tier):
    exits = ["normal", "return", "check condition", "i/o error"] + sorted(RAISED)
    pairs = [(name, platform) for name in sorted(CONTEXTS) for platform in CONTEXTS[name][0]]
    top = 5 if tier == "thorough" else 3
    yield Group("exits", [[name, platform, exit, commands] for name, platform in pairs for exit in exits
                          for commands in range(top)], run_exit)
    yield Group("open failure", [[name, platform, errno] for name, platform in pairs for errno in
                                 (1, 2, 5, 6, 13, 16, 19, 24, 32)], run_open_failure)
    yield Group("several", [[name, platform, shape] for name, platform in pairs for shape in
                            ("consecutive", "nested", "nested failure", "crossed", "twice")], run_several)
    yield Group("platforms", [[platform, None] for name in sorted(CONTEXTS) if name != "linux_dm"
                              for platform in CONTEXTS[name][0]], run_platform)
    yield Group("unsupported", ["osx-10.9-x64", "freebsd-10-x64", "hpux-11-x64", "", "lin", "linuxx-1"], run_unsupported)
    yield Group("close failure", [[name, platform, errno, body] for name, platform in pairs for errno in (5, 6, 9, 28)
                                  for body in (None, "body exception", "library exception")], run_close_failure)
    yield Group("windows files", [[asynchronous, list(steps)] for asynchronous in (False, True) for depth in range(7 if tier == "thorough" else 6)
                                  for steps in itertools.product(WINDOWS_STEPS, repeat=depth)], run_windows_file)
    yield Group("asynchronous factories", [[platform] for platform in (
        "linux-ubuntu-xenial-x64", "solaris-11-sparc", "aix-7.1-powerpc", "windows-x64", "windows-x86", "osx-10.9-x64", "")],
                run_factory)
