"""C35: a command ends in its decoded answer or in the error its submission ended in, on every platform."""
import re

from mc import fakewin                      # noqa: before the code under test
from mc import backends, sesspec, vpdspec
from mc.backends import make_command, check_sense
from mc.cdbspec import Recorder, execute
from mc.commands import CLASSES, NAMES
from mc.platforms import PLATFORMS
from mc.core import Group, Violation, require
from mc.explore import Exploration
from infi.asi import SCSIReadCommand
from infi.asi.coroutines.sync_adapter import sync_wait
from infi.asi.errors import (AsiException, AsiOSError, AsiSCSIError, AsiCheckConditionError, AsiInternalError,
                             AsiReservationConflictError, AsiRequestQueueFullError)
from infi.asi.sense import get_sense_object_from_buffer, SCSI_SENSE_KEY
from infi.asi.sense.asc import AdditionalSenseCode  # noqa

ID = "C35"
LEVEL = "model_checking"
RULE = ("a case is a history of executions of one command object on one real executer, the outcome of every submission chosen "
        "by the explorer, or one command and one exception raised by the executer; distinct = distinct histories of outcomes "
        "per command and platform, or distinct (command, exception)")
ASSUMPTIONS = ["what a command makes of a response is decided by C24 to C34; here it must be the same through every platform"]

SENSE_FIXED = bytes([0x70, 0, 5, 0, 0, 0, 0, 10, 0, 0, 0, 0, 0x24, 0, 0, 0xc0, 0, 1])
SENSE_ATTENTION = bytes([0x70, 0, 6, 0, 0, 0, 0, 10, 0, 0, 0, 0, 0x29, 0, 0, 0, 0, 0])
SENSE_RECOVERED = bytes([0x70, 0, 1, 0, 0, 0, 0, 10, 0, 0, 0, 0, 0x17, 0, 0, 0, 0, 0])
SENSE_DESCRIPTOR = bytes([0x72, 0xb, 0x47, 3, 0, 0, 0, 0])
SENSE_ODD = bytes([0x7f, 1, 2, 3])
SENSES = {"illegal request": SENSE_FIXED, "unit attention": SENSE_ATTENTION, "recovered": SENSE_RECOVERED,
          "descriptor": SENSE_DESCRIPTOR, "vendor": SENSE_ODD}
CONFIGURATION = sesspec.simple_configuration([(0x03, 2), (0x17, 1)])


def images(name, length):
    """ responses: zeros, a ramp, and one that fits """
    yield bytes(length)
    yield bytes((index * 7 + 1) & 0x7f for index in range(length))
    known = {"ses page 0x1": CONFIGURATION, "vpd page 0x80": b"\0\x80\0\x06SERIAL",
             "vpd page 0x83": vpdspec.make_page(0x83, b"".join(vpdspec.make_designator(*item) for item in
                                                               list(vpdspec.known_designators().values())[:6]), 0),
             "ReportLunsCommand": bytes([0, 0, 0, 16, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0])}
    raw = known.get(name, b"\0\x83\0\x08ABCDEFGH")[:length]
    yield raw + bytes(length - len(raw))


def freeze(value):
    """ a picture of a result; commands without data may end in None, True or nothing """
    if value is None or value == b"":
        return "nothing"
    if isinstance(value, AsiCheckConditionError):
        return re.sub(r" at 0x[0-9a-f]+", "", "%s %r" % (value, value.sense_obj))
    return re.sub(r" at 0x[0-9a-f]+", "", repr(getattr(value, "data", value) if type(value).__name__ == "Raw" else value))


def picture(action):
    try:
        return "value", freeze(action())
    except Violation:
        raise
    except Exception as error:
        return "error", type(error).__name__


# --- every command on every platform -----------------------------------------------------------------------------------
OUTCOMES = ["image 0", "image 1", "image 2", "full", "conflict", "busy", "fault"] + sorted(SENSES)


class TooMany(BaseException):
    """ one execution submits again and again """


class Run(object):
    """ one command object on one executer """

    def __init__(self, platform, index):
        self.platform = platform
        self.spec, self.values = CLASSES[index]
        self.command = self.spec.make(self.values)
        self.cdb, self.kind, self.what = self.spec.expected(self.values)
        self.length = self.what if self.kind == "read" else 0
        self.images, self.expected = self.answers(index)
        self.answer = None
        self.device = platform.device(self.respond)
        self.executer = platform.executer(self.device, max_queue_size=1)
        self.kept = []

    def respond(self, submission):
        if len(self.device.submissions) > self.limit:
            raise TooMany()
        return self.answer

    limit = 8
    cache = {}

    def answers(self, index):
        """ the responses, and what a fresh command makes of them without any platform """
        if index not in self.cache:
            raws = list(images(self.spec.name, self.length))
            self.cache[index] = raws, [picture(lambda: execute(self.spec.make(self.values), Recorder(lambda length: raw)))
                                       for raw in raws]
        return self.cache[index]

    def prepare(self, outcome):
        platform = self.platform
        if outcome.startswith("image"):
            self.answer = {"data": self.images[int(outcome[6:])]}
        elif outcome in SENSES:
            self.answer = dict(platform.check, sense=SENSES[outcome])
        elif outcome != "full":
            self.answer = getattr(platform, outcome)

    def step(self, outcome, command=None):
        self.prepare(outcome)
        if outcome == "full":
            self.answer = {"data": b"12345678"}
            sync_wait(self.executer.send(make_command("read", b"\x12\0\0\0\x08\0", 8)))
        before = len(self.device.submissions)
        error = value = None
        try:
            self.limit = before + 4
            value = sync_wait((command or self.command).execute(self.executer))
        except TooMany:
            raise Violation("%s on %s, %s: the device gets the command again and again" %
                            (self.spec.name, self.platform.name, outcome))
        except Violation:
            raise
        except Exception as caught:
            error = caught
        submissions = self.device.submissions[before:]
        where = "%s on %s, %s" % (self.spec.name, self.platform.name, outcome)
        if outcome == "full":
            require(isinstance(error, AsiRequestQueueFullError), "%s: ended with %r, %r" % (where, value, error))
            require(not submissions, "%s: the device got a command" % where)
            sync_wait(self.executer.wait())
            return
        require(len(submissions) == 1, "%s: the device got %d commands" % (where, len(submissions)))
        backends.check_submission(submissions[0], "none" if self.kind == "read" and not self.length else self.kind, self.cdb,
                                  self.what, sense=None)
        if outcome.startswith("image"):
            got = ("value", freeze(value)) if error is None else ("error", type(error).__name__)
            expected = self.expected[int(outcome[6:])]
            require(got == expected, "%s: ended with %.300r %r instead of %.300r" % (where, got, error, expected))
            self.kept.append((value, freeze(value)))
            return
        require(error is not None, "%s: ended with the value %r" % (where, value))
        if outcome in SENSES:
            check_sense(error, SENSES[outcome])
            self.check_object(error, SENSES[outcome], where)
        elif outcome == "fault":
            require(isinstance(error, (OSError, AsiOSError)), "%s: ended with %r" % (where, error))
        else:
            wanted = self.platform.conflict_class if outcome == "conflict" else AsiSCSIError
            require(isinstance(error, wanted) and not isinstance(error, AsiCheckConditionError), "%s: ended with %r" %
                    (where, error))
        self.kept.append((error, freeze(error)))

    def condition(self, sense):
        where = "%s on %s, sense %s" % (self.spec.name, self.platform.name, sense.hex())
        self.answer = dict(self.platform.check, sense=sense)
        del self.device.submissions[:]
        self.limit = 4
        try:
            value = sync_wait(self.command.execute(self.executer))
        except TooMany:
            raise Violation("%s: the device gets the command again and again" % where)
        except AsiCheckConditionError as error:
            check_sense(error, sense)
            self.check_object(error, sense, where)
        else:
            require(False, "%s: ended with the value %r" % (where, value))
        require(len(self.device.submissions) == 1, "%s: the device got %d commands" % (where, len(self.device.submissions)))

    def check_object(self, error, sense, where):
        if sense[0] == 0x7f:
            require(error.sense_obj is None, "%s: sense of an unknown format is decoded as %r" % (where, error.sense_obj))
            return
        key = [name for name, number in SCSI_SENSE_KEY.items() if number == (sense[2] if sense[0] in (0x70, 0x71) else sense[1])]
        codes = sense[12:14] if sense[0] in (0x70, 0x71) else sense[2:4]
        found = error.sense_obj
        require(found is not None and found.sense_key in key and (found.additional_sense_code.code,
                found.additional_sense_code.qualifier) == tuple(codes), "%s: sense %s is decoded as %r" %
                (where, sense.hex(), found))

    def check_kept(self):
        """ later executions do not change what earlier ones gave """
        for value, before in self.kept:
            require(freeze(value) == before, "%s on %s: a result changed later, from %.300s to %.300s" %
                    (self.spec.name, self.platform.name, before, freeze(value)))


def body(platform, index, depth):
    def run(chooser):
        item = Run(platform, index)
        trace = []
        for step in range(depth):
            outcome = chooser.choose(OUTCOMES, "outcome")
            trace.append(outcome)
            item.step(outcome)
            chooser.state((index, step, outcome))
        item.step("image 1")
        item.step("image 2", item.spec.make(item.values))
        item.check_kept()
        return index, tuple(trace)
    return run


# --- every error -------------------------------------------------------------------------------------------------------
class Failing(Recorder):
    """ an executer whose call() raises """

    def __init__(self, error, when):
        Recorder.__init__(self)
        self.error = error
        self.when = when

    def call(self, command):
        answered = Recorder.call(self, command)
        if self.when == "at once":
            next(answered)
            raise self.error
        return self.later(answered)

    def later(self, answered):
        next(answered)
        if self.when == "resumed":
            yield 1
        raise self.error
        yield None


def make_errors():
    sense = get_sense_object_from_buffer(SENSE_FIXED)
    return {
        "check condition": AsiCheckConditionError(SENSE_FIXED, sense), "no sense": AsiCheckConditionError(b"", None),
        "conflict": AsiReservationConflictError(), "scsi": AsiSCSIError("SCSI response status is not zero"),
        "os": OSError(5, "x"), "timeout": OSError(110, "x"), "interrupted": OSError(4, "x"), "again": OSError(11, "x"),
        "io": IOError("timed out"), "asi os": AsiOSError("x"), "asi": AsiException("x"), "internal": AsiInternalError("x"),
        "full": AsiRequestQueueFullError(), "interrupt": KeyboardInterrupt(), "exit": SystemExit(1), "value": ValueError("x"),
        "assertion": AssertionError("x"), "key": KeyError("x"), "attribute": AttributeError("x"), "type": TypeError("x"),
        "index": IndexError("x"), "not implemented": NotImplementedError(), "memory": MemoryError(), "eof": EOFError(),
    }


ERROR_NAMES = sorted(make_errors())


def raise_through(index, error, when):
    spec, values = CLASSES[index]
    executer = Failing(error, when)
    command = spec.make(values)
    try:
        value = sync_wait(command.execute(executer))
    except BaseException as caught:
        if isinstance(caught, Violation):
            raise
        require(caught is error, "%s: the executer raised %r, the command %r" % (spec.name, error, caught))
    else:
        require(False, "%s: the executer raised %r, the command ended with %r" % (spec.name, error, value))
    require(len(executer.commands) == 1, "%s: %d commands were sent, the first raised %r" %
            (spec.name, len(executer.commands), error))
    again = Recorder()
    picture(lambda: execute(command, again))
    require(again.commands == executer.commands, "%s: after %r, %r is sent instead of %r" %
            (spec.name, error, again.commands, executer.commands))


def run_error(arg):
    index, name, when = arg
    raise_through(index, make_errors()[name], when)
    return tuple(arg)


def run_sense(arg):
    """ all additional codes of one sense key """
    index, key, qualifiers = arg
    for code in range(256):
        for qualifier in qualifiers:
            raw = bytearray(SENSE_FIXED)
            raw[2], raw[12], raw[13] = key, code, qualifier
            raw = bytes(raw)
            raise_through(index, AsiCheckConditionError(raw, get_sense_object_from_buffer(raw)), "at once")
    return index, key


def run_condition(arg):
    """ sense data of all keys and notable additional codes: one submission, one error, nothing is sent again """
    number, index, key = arg
    item = Run(PLATFORMS[number], index)
    for code, qualifiers in CONDITIONS:
        for qualifier in range(qualifiers):
            for form in (0x70, 0x71, 0x72):
                raw = bytes([form, 0, key, 0, 0, 0, 0, 10, 0, 0, 0, 0, code, qualifier, 0, 0, 0, 0])
                if form == 0x72:
                    raw = bytes([form, key, code, qualifier, 0, 0, 0, 0])
                item.condition(raw)
    return tuple(arg)


CONDITIONS = [(0, 3), (0x04, 0x10), (0x08, 3), (0x0b, 3), (0x17, 2), (0x20, 2), (0x24, 2), (0x25, 1), (0x28, 2), (0x29, 8),
              (0x2a, 10), (0x2c, 2), (0x2f, 2), (0x3a, 2), (0x3f, 0x12), (0x44, 1), (0x47, 4), (0x55, 4), (0x5d, 1), (0x80, 1)]


def groups(tier):
    deep = tier == "thorough"
    for platform in PLATFORMS:
        for part in range(2):
            yield Bundle("%s/%d" % (platform.name, part), platform, range(part, len(CLASSES), 2), 3 if deep else 2)
    yield Group("errors", [[index, name, when] for index in range(len(CLASSES)) for name in ERROR_NAMES
                           for when in ("at once", "first", "resumed")], run_error)
    for part in range(4):
        yield Group("conditions/%d" % part,
                    [[number, index, key] for number in range(len(PLATFORMS)) for index in range(part, len(CLASSES), 4)
                     for key in range(16) if deep or (index + key) % len(PLATFORMS) == number], run_condition)
    for part in range(4):
        yield Group("sense/%d" % part, [[index, key, [0, 1, 2, 0x80] if deep else [key & 3]] for index in range(part, len(CLASSES), 4)
                                        for key in range(16)], run_sense)


def Bundle(name, platform, indexes, depth):
    indexes = list(indexes)

    def run(chooser):
        return body(platform, chooser.choose(indexes, "command"), depth)(chooser)
    return Exploration(name, run)
