"""C40: looking at responses, commands, errors and requests, or logging, never fails and never changes anything."""
import logging
import traceback

from mc import backends, sgstatus              # before the code under test
from mc.core import Group, require, Violation
from mc.backends import outcome_of, make_command
from mc.cdbspec import Recorder, execute
from mc.commands import CLASSES
from mc.decode import compare, run_command
from mc.platforms import PLATFORMS

import checks.c34 as c34
from infi.asi.errors import AsiException
from infi.asi.sense import get_sense_object_from_buffer

ID = "C40"
LEVEL = "exploration"
RULE = ("a case is one decoded response with one bit of it changed, one command with the moments it is looked at, one error, one "
        "request of a platform, or one outcome with and without logging; distinct = distinct (object, what was done to it)")
ASSUMPTIONS = ["the texts are those of repr(); how they are laid out is not specified"]


def look(thing, where, same=True):
    """ the text of something; looking twice gives the same """
    try:
        text = repr(thing)
        again = repr(thing)
    except Violation:
        raise
    except Exception as error:
        raise Violation("%s can not be shown: %s" % (where, "".join(traceback.format_exception_only(type(error), error)).strip()))
    require(isinstance(text, str) and text, "%s is shown as %r" % (where, text))
    require(text == again or not same, "%s is shown differently the second time: %.300s / %.300s" % (where, text, again))
    return text


# --- responses ---------------------------------------------------------------------------------------------------------
def run_response(arg):
    name, index, bit = arg
    item = c34.responses()[name]
    raw = bytearray(item.samples[index])
    if bit is not None:
        raw[bit >> 3] ^= 1 << (bit & 7)
    raw = bytes(raw)
    try:
        result = run_command(item.make, raw)
    except Violation:
        raise
    except Exception:
        return name, index, bit, "refused"
    where = "%s (response %s)" % (name, raw[:200].hex())
    text = look(result, where)
    again = run_command(item.make, raw)
    require(look(again, where) == text, "%s: decoded again, it is shown differently" % where)
    if bit is None:
        compare(result, item.reference(raw), name)        # also after it was looked at
        return name, index, "exact"
    return name, index, bit, hash(text)


def run_cut(arg):
    name, index, length = arg
    item = c34.responses()[name]
    raw = item.samples[index][:length]
    try:
        result = run_command(item.make, raw)
    except Violation:
        raise
    except Exception as error:
        look(error, "%s cut to %d bytes: the error" % (name, length))
        return name, index, length, "refused"
    look(result, "%s cut to %d bytes" % (name, length))
    return name, index, length, "part"


# --- commands ----------------------------------------------------------------------------------------------------------
def words(depth):
    """ what is done to a command: L looks at it, X executes it """
    found = [""]
    for _ in range(depth):
        found += [word + letter for word in found if len(word) == max(map(len, found)) for letter in "LX"]
    return [word for word in found if "L" in word and "X" in word]


def attempt(command, recorder):
    try:
        execute(command, recorder)
    except Violation:
        raise
    except Exception as error:          # an answer it can not decode
        look(error, "the error")


def run_command_word(arg):
    index, word = arg
    spec, values = CLASSES[index]
    plainly, observed = Recorder(), Recorder()
    command, other = spec.make(values), spec.make(values)
    for letter in word:
        if letter == "L":
            look(command, spec.name)
        else:
            attempt(command, observed)
            attempt(other, plainly)
    require(observed.commands == plainly.commands, "%s: %s sends %r, without looking at it %r" %
            (spec.name, word, observed.commands, plainly.commands))
    return spec.name, word


# --- requests and errors of the platforms --------------------------------------------------------------------------------
class Collector(logging.Handler):
    """ formats every record, and lets nobody swallow what goes wrong """

    def __init__(self):
        logging.Handler.__init__(self, 0)
        self.failures, self.texts = [], []

    def emit(self, record):
        try:
            self.texts.append(self.format(record))
        except Exception as error:
            self.failures.append(error)


class Logging(object):
    def __init__(self, level):
        self.level = level

    def __enter__(self):
        self.handler = Collector()
        self.logger = logging.getLogger()
        self.before = self.logger.level, list(self.logger.handlers), logging.root.manager.disable
        self.logger.handlers[:] = [self.handler]
        self.logger.setLevel(self.level)
        logging.disable(logging.NOTSET if self.level < 100 else logging.CRITICAL)
        return self.handler

    def __exit__(self, *args):
        self.logger.setLevel(self.before[0])
        self.logger.handlers[:] = self.before[1]
        logging.disable(self.before[2])


def picture(outcome):
    what, value = outcome
    if what == "data":
        return what, value
    return what, type(value), str(value), look(value, "the error")


ANSWERS = {}


def answers(platform):
    if platform.name not in ANSWERS:
        found = [{"data": b"abc"}, platform.conflict, platform.busy, platform.fault]
        found += [dict(platform.check, sense=bytes.fromhex(sense)) for sense in sgstatus.sense_cases()]
        if platform.name.startswith("linux"):
            found += [{"status": status, "driver": driver, "host": host} for status, driver, host in
                      sgstatus.product((0, 0x80))]
        elif platform.name == "aix":
            found += [dict(platform.check, validity=validity, bus_status=status, adapter_status=adapter) for validity in (0, 1, 2, 3, 255)
                      for status in range(0, 256, 2) for adapter in (0, 1, 14, 255)]
            found += [{"errno": 22, "einval_arg": einval} for einval in range(32)]
        else:
            found += [{"status": status} for status in range(256)]
        ANSWERS[platform.name] = found
    return ANSWERS[platform.name]


def run_platform(arg):
    index, number, kind = arg
    platform = PLATFORMS[index]
    answer = answers(platform)[number]
    amount = {"read": 16, "write": b"0123456789", "none": 0}[kind]
    pictures = []
    for level in (1000, logging.DEBUG, 1):
        device = platform.device(lambda submission: answer)
        with Logging(level) as handler:
            executer = platform.executer(device)
            prepared = executer._os_prepare_to_send(make_command(kind, bytes(6), amount), 0) \
                if hasattr(executer, "_os_prepare_to_send") else None
            outcome = outcome_of(executer, make_command(kind, bytes(range(10)), amount), "call")
        require(not handler.failures, "%s: a log message can not be made: %r" % (platform.name, handler.failures[:1]))
        if outcome[0] == "error" and isinstance(outcome[1], AsiException):
            "".join(traceback.format_exception(type(outcome[1]), outcome[1], outcome[1].__traceback__))
        pictures.append((picture(outcome), [(submission.cdb, submission.direction, submission.data_out, submission.length)
                                            for submission in device.submissions]))
        if prepared is not None:
            look(prepared, "%s: the request" % platform.name, same=False)
    require(pictures[0] == pictures[1] == pictures[2], "%s: without logging %r, with logging %r / %r" %
            ((platform.name,) + tuple(pictures)))
    return arg[0], number, kind


def run_sense(arg):
    """ sense data: one bit changed """
    sense, bit = bytes.fromhex(arg[0]), arg[1]
    changed = bytearray(sense)
    changed[bit >> 3] ^= 1 << (bit & 7)
    texts = []
    for raw in (sense, bytes(changed)):
        try:
            item = get_sense_object_from_buffer(raw)
        except Exception as error:
            look(error, "the error")
            continue
        texts.append(look(item, "sense data %s" % raw.hex()))
    return tuple(arg), len(set(texts))


def request_kinds():
    for index, platform in enumerate(PLATFORMS):
        for kind, amount in (("read", 0), ("read", 1), ("read", 4096), ("write", 1), ("write", 4096), ("none", 0)):
            for length in (1, 6, 16):
                yield [index, kind, amount, length]


def run_request(arg):
    """ a request looked at before it is sent, and after it was answered """
    index, kind, amount, length = arg
    platform = PLATFORMS[index]
    payload = backends.pattern(amount, 3) if kind == "write" else amount
    seen = []
    for looking in (False, True):
        device = platform.device(lambda submission: {"data": backends.pattern(8, 4)})
        executer = platform.executer(device)
        prepare = executer._os_prepare_to_send

        def observed(command, packet_index):
            request = prepare(command, packet_index)
            look(request, "%s: the request" % platform.name, same=False)
            requests.append(request)
            return request
        requests = []
        if looking:
            executer._os_prepare_to_send = observed
        outcome = outcome_of(executer, make_command(kind, backends.pattern(length, 2), payload), "call")
        for request in requests:
            look(request, "%s: the request" % platform.name, same=False)
        seen.append((picture(outcome), [(submission.cdb, submission.direction, submission.data_out, submission.length,
                                         submission.timeout) for submission in device.submissions]))
    require(seen[0] == seen[1], "%s: looked at, the command ends with %.300r, otherwise with %.300r" %
            (platform.name, seen[1], seen[0]))
    return tuple(arg)


def groups(tier):
    deep = tier == "thorough"
    exact, flipped, cut = [], [], []
    for name, item in sorted(c34.responses().items()):
        count = len(item.samples)
        for index in range(count):
            exact.append([name, index, None])
        chosen = range(count) if deep else sorted(set([0, count // 2, count - 1]))
        for index in chosen:
            size = len(item.samples[index])
            flipped.extend([name, index, bit] for bit in range(size * 8) if size < 200 or bit < 1600 or deep)
            cut.extend([name, index, length] for length in range(size))
    yield Group("responses/exact", exact, run_response)
    for part in range(8):
        yield Group("responses/bits/%d" % part, flipped[part::8], run_response, bound="every bit of the samples of every type")
    yield Group("responses/cut", cut, run_cut)
    yield Group("commands", [[index, word] for index in range(len(CLASSES)) for word in words(5 if deep else 4)], run_command_word)
    for index, platform in enumerate(PLATFORMS):
        yield Group("logging/" + platform.name, [[index, number, kind] for number in range(len(answers(platform)))
                                                 for kind in (("read", "write", "none") if deep or number < 4 else ("read",))], run_platform)
    yield Group("requests", list(request_kinds()), run_request)
    base_sense = ["700006000000000a00000000290300000000", "720629030000000c" + "000a8000" + "00" * 8, "f0000500000010180000000024000080000000"]
    yield Group("sense", [[sense, bit] for sense in base_sense for bit in range(len(sense) * 4)], run_sense)
