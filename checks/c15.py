"""C15: reading from a device file waits, within its time limit, for exact data."""
import os
import tempfile

from mc import fakeclock                    # before the code under test
from mc import load  # noqa
from mc.core import Group, require, Violation
from mc.explore import Exploration
from mc.backends import pattern

from infi.asi.unix import UnixFile

ID = "C15"
LEVEL = "model_checking"
RULE = ("a case is one execution of the real UnixFile.read on a pipe under a virtual clock: when data, end of file or "
        "nothing arrives, in which chunks, and how much every sleep of the reader oversleeps are chosen by the explorer; "
        "distinct = distinct (arrival, sleeps, sizes, result)")
ASSUMPTIONS = ["time passes only while the reader sleeps", "data that arrives after the last poll but before the deadline "
               "may be missed (the reader polls)"]
GRACE = 0.1                 # a poll interval of the reader may be this long


class Pipe(object):
    def __enter__(self):
        self.read_fd, self.write_fd = os.pipe()
        return self

    def close_write(self):
        if self.write_fd is not None:
            os.close(self.write_fd)
            self.write_fd = None

    def __exit__(self, *args):
        self.close_write()
        os.close(self.read_fd)


def read(clock, reader, size, pending, timeout, arrival, oversleep_total=lambda: 0.0):
    """ one read; pending: the bytes that are or will be there (None: nothing ever; b"": end of file) """
    start = clock.now
    try:
        data = reader.read(size)
    except Violation:
        raise
    except Exception as error:
        require(isinstance(error, (IOError, OSError)), "a time-out surfaced as %r" % (error,))
        require(clock.now >= start + timeout, "gave up after %.4f of %.4f seconds" % (clock.now - start, timeout))
        require(clock.now <= start + timeout + GRACE + oversleep_total(), "raised after %.4f of %.4f seconds" %
                (clock.now - start, timeout))
        if arrival is not None:
            require(arrival > clock.last_poll, "data arrived at %.4f, the last look was at %.4f" %
                    (arrival - start, clock.last_poll - start))
            require(arrival > start + timeout - GRACE - oversleep_total(), "data arrived after %.4f of %.4f seconds, "
                    "and was not waited for" % (arrival - start, timeout))
        return "timeout"
    require(pending is not None and arrival is not None, "read returned %r, although nothing was there" % (data,))
    require(clock.now >= arrival, "data before it arrived")
    require(clock.now <= max(start, arrival) + GRACE + oversleep_total(), "data that arrived after %.4f was returned "
            "after %.4f seconds" % (arrival - start, clock.now - start))
    require(isinstance(data, bytes) and data == pending[:size], "the descriptor had %r, read(%d) returned %r" %
            (pending[:20], size, data))
    return "data"


def schedule(chooser, timeout, arrivals, oversleeps, sizes):
    """ arrival and oversleeping chosen freely """
    arrival = chooser.choose(arrivals, "arrival")
    what = chooser.choose(["data", "eof"], "what") if arrival is not None else "nothing"
    size = chooser.choose(sizes, "size")
    extra = []

    def oversleep(duration):
        more = chooser.choose(oversleeps, "oversleep")
        extra.append(more)
        chooser.state((timeout, round(clock.now - 1000, 6), arrival, what))
        return duration + more
    with Pipe() as pipe:
        clock = fakeclock.Clock(oversleep=oversleep, limit=100000)
        with clock:
            payload = pattern(12, 3) if what == "data" else b""
            when = None
            if arrival is not None:
                when = clock.now + arrival
                clock.at(when, (lambda: os.write(pipe.write_fd, payload)) if what == "data" else pipe.close_write)
                clock.advance(clock.now)
            kwargs = {} if timeout == 60 else {"read_timeout": timeout}
            result = read(clock, UnixFile(pipe.read_fd, **kwargs), size, payload if when is not None else None, timeout,
                          when, lambda: sum(extra))
        if result == "data" and what == "data":
            left = fakeclock._real_read(pipe.read_fd, 100) if size < 12 else b""
            require(left == payload[size:], "bytes beyond the read were lost")
        chooser.state((timeout, arrival, what, size, result))
    return timeout, arrival, what, size, tuple(extra), result


def stream(chooser):
    """ a stream of chunks and reads of any sizes: the bytes come out in order, none lost, none twice """
    total = pattern(14, 5)
    fed = taken = 0
    with Pipe() as pipe:
        reader = UnixFile(pipe.read_fd, read_timeout=1)
        clock = fakeclock.Clock()
        with clock:
            trace = []
            for _ in range(4):
                chunk = chooser.choose([0, 1, 3], "chunk")
                delay = chooser.choose([0, 0.5], "delay") if chunk else 0
                size = chooser.choose([1, 2, 5], "size")
                arrival = clock.now
                if chunk:
                    arrival = clock.now + delay
                    clock.at(arrival, lambda c=chunk, f=fed: os.write(pipe.write_fd, total[f:f + c]))
                    clock.advance(clock.now)
                if fed > taken:             # something is there already
                    pending, arrival = total[taken:fed + (chunk if not delay else 0)], clock.now
                elif chunk:
                    pending = total[taken:fed + chunk]
                else:
                    pending, arrival = None, None
                fed += chunk
                result = read(clock, reader, size, pending, 1, arrival)
                if result == "data":
                    taken += len(pending[:size])
                clock.advance(clock.now + 2)        # whatever was on its way is there
                trace.append((chunk, delay, size, result))
                chooser.state((fed - taken, result))
    return tuple(trace)


def run_large(arg):
    size, available = arg
    with Pipe() as pipe:
        payload = pattern(available, 9)
        os.write(pipe.write_fd, payload)
        clock = fakeclock.Clock()
        with clock:
            read(clock, UnixFile(pipe.read_fd), size, payload, 60, clock.now)
        require(clock.now == 1000.0, "data that was there had to wait")
    return tuple(arg)


def run_file(arg):
    """ much more than a pipe holds """
    size, available = arg
    payload = pattern(255, 9) * (available // 255 + 1)
    payload = payload[:available]
    with tempfile.TemporaryFile() as handle:
        handle.write(payload)
        handle.seek(0)
        clock = fakeclock.Clock()
        with clock:
            read(clock, UnixFile(handle.fileno()), size, payload, 60, clock.now)
        require(clock.now == 1000.0, "data that was there had to wait")
        require(os.lseek(handle.fileno(), 0, os.SEEK_CUR) == min(size, available), "bytes beyond the read were taken")
    return tuple(arg)


def several(chooser):
    """ files of different time limits, read in turns: each keeps its own """
    limits = [chooser.choose([0.05, 1, 60], "limit") for _ in range(2)]
    pipes = [Pipe(), Pipe()]
    with pipes[0], pipes[1]:
        readers = [UnixFile(pipe.read_fd, **({} if limit == 60 else {"read_timeout": limit}))
                   for pipe, limit in zip(pipes, limits)]
        clock = fakeclock.Clock(limit=100000)
        trace = []
        with clock:
            for _ in range(3):
                which = chooser.choose(2, "file")
                delay = chooser.choose([None, 0, 0.5], "delay")
                arrival = None
                if delay is not None:
                    arrival = clock.now + delay
                    clock.at(arrival, lambda fd=pipes[which].write_fd: os.write(fd, b"abc"))
                    clock.advance(clock.now)
                result = read(clock, readers[which], 3, b"abc" if delay is not None else None, limits[which], arrival)
                clock.advance(clock.now + 2)
                if delay is not None and result != "data":
                    require(fakeclock._real_read(pipes[which].read_fd, 100) == b"abc", "bytes were lost")
                trace.append((which, delay, result))
                chooser.state((tuple(limits), which, delay, result))
    return tuple(limits), tuple(trace)


def run_error(arg):
    """ errors of the descriptor """
    if arg == "closed":
        read_fd, write_fd = os.pipe()
        os.close(read_fd)
        os.close(write_fd)
        expect = 9
        action = lambda: UnixFile(read_fd).read(10)
    elif arg == "directory":
        with tempfile.TemporaryDirectory() as path:
            fd = os.open(path, os.O_RDONLY)
            try:
                return check_error(lambda: UnixFile(fd).read(10), 21, arg)
            finally:
                os.close(fd)
    else:
        with Pipe() as pipe:
            os.write(pipe.write_fd, b"x" * 10)
            return check_error(lambda: UnixFile(pipe.read_fd).read(10), arg, arg, OSError(arg, os.strerror(arg)))
    return check_error(action, expect, arg)


def check_error(action, errno, arg, fault=None):
    clock = fakeclock.Clock()
    clock.read_fault = fault
    with clock:
        try:
            result = action()
        except Violation:
            raise
        except Exception as error:
            require(isinstance(error, OSError) and error.errno == errno, "error %d of the descriptor surfaced as %r" %
                    (errno, error))
            require(fault is None or error is fault, "the error was replaced by %r" % (error,))
        else:
            raise Violation("a failing read returned %r" % (result,))
    return arg


def groups(tier):
    deep = tier == "thorough"
    step = 0.0025
    fine = [None] + [round(step * i, 6) for i in range(0, 32)]
    yield Exploration("every arrival", lambda ch: schedule(ch, 0.06, fine, [0.0], [1, 12, 13]))
    coarse = [None, 0.0, 0.01, 0.015, 0.025, 0.035, 0.04, 0.045, 0.06]
    yield Exploration("oversleeping", lambda ch: schedule(ch, 0.04, coarse, [0.0, 0.007, 0.03] if not deep else
                                                          [0.0, 0.004, 0.007, 0.03], [12]))
    yield Exploration("zero timeout", lambda ch: schedule(ch, 0, [None, 0.0, 0.005, 0.02], [0.0, 0.5], [1, 12]))
    yield Exploration("seconds", lambda ch: schedule(ch, 3, [None, 0.0, 1.0, 2.0, 2.85, 3.2], [0.0, 1.0], [12]),
                      deviations=3 if deep else 2)
    yield Exploration("default timeout", lambda ch: schedule(ch, 60, [None, 0.0, 0.5, 30.0, 59.0, 59.85, 60.2, 61.0],
                                                             [0.0], [12]))
    yield Exploration("stream", stream)
    top = 1025 if deep else 257
    yield Group("large", [[size, available] for size in (1, 88, 255, 4096, 65536) for available in
                          list(range(1, top)) + [4095, 4096, 65535, 65536]], run_large)
    yield Group("huge", [[size, available] for size in (1, 65535, 65536, 65537, 131072, 1 << 20, (1 << 24) + 1) for available in
                         (0, 1, 65535, 65536, 65537, 131071, 131072, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 24) + 1)],
                run_file)
    yield Exploration("several files", several)
    yield Group("errors", ["closed", "directory"] + [errno for errno in range(1, 134) if errno != 4], run_error,
                bound="every error number but EINTR (which Python deals with)")
