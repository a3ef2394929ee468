"""A virtual clock and virtual arrival of data, imported before the code under test.

While a Clock is active, time.time / time.monotonic / time.sleep and blocking select.select run on it; events scheduled on
it (writes into real pipes) happen when it passes their time.  Outside of that everything is the real thing.
"""
import os
import select
import time

from .core import require, Violation

_real_time, _real_sleep, _real_monotonic = time.time, time.sleep, time.monotonic
_real_select, _real_read = select.select, os.read
active = None


class Clock(object):
    """ oversleep(duration) -> how long a sleep really takes """

    def __init__(self, start=1000.0, oversleep=None, limit=100000):
        self.now = start
        self.events = []                # (time, function), sorted
        self.oversleep = oversleep or (lambda duration: duration)
        self.last_poll = None
        self.polls = 0
        self.limit = limit
        self.read_fault = None

    def at(self, when, function):
        self.events.append((when, function))
        self.events.sort(key=lambda event: event[0])

    def advance(self, when):
        while self.events and self.events[0][0] <= when:
            moment, function = self.events.pop(0)
            self.now = max(self.now, moment)
            function()
        self.now = max(self.now, when)

    def __enter__(self):
        global active
        active = self
        return self

    def __exit__(self, *args):
        global active
        active = None

    def sleep(self, duration):
        require(duration >= 0, "sleep(%r)" % duration)
        self.advance(self.now + self.oversleep(duration))

    def select(self, readers, writers, errors, timeout):
        self.polls += 1
        require(self.polls < self.limit, "the device file was polled %d times" % self.polls)
        self.last_poll = self.now
        result = _real_select(readers, writers, errors, 0)
        if any(result) or timeout == 0:
            return result
        end = None if timeout is None else self.now + timeout
        while True:
            if not self.events and end is None:
                raise Violation("a select without time limit, and nothing will ever arrive")
            if self.events and (end is None or self.events[0][0] <= end):
                self.advance(self.events[0][0])
            else:
                self.advance(end)
            self.last_poll = self.now
            result = _real_select(readers, writers, errors, 0)
            if any(result) or (end is not None and self.now >= end):
                return result

    def read(self, fd, size):
        if self.read_fault is not None:
            raise self.read_fault
        require(_real_select([fd], [], [], 0)[0], "os.read of a descriptor that is not readable would block")
        return _real_read(fd, size)


def _time():
    return active.now if active else _real_time()


def _monotonic():
    return active.now - 500 if active else _real_monotonic()


def _sleep(duration):
    return active.sleep(duration) if active else _real_sleep(duration)


def _select(readers, writers, errors, timeout=None):
    if active:
        return active.select(readers, writers, errors, timeout)
    return _real_select(readers, writers, errors, timeout)


def _read(fd, size):
    return active.read(fd, size) if active else _real_read(fd, size)


time.time, time.monotonic, time.sleep = _time, _monotonic, _sleep
select.select, os.read = _select, _read
