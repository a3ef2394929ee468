"""C07: running a coroutine synchronously equals direct nested calls."""
import sys
from mc import load  # noqa
from mc.core import require, Group, HarnessError
from infi.asi import OSAsyncIOToken
from infi.asi.coroutines.sync_adapter import sync_wait, sync_call

sys.setrecursionlimit(max(sys.getrecursionlimit(), 20000))     # for the reference interpreter
ID = "C07"
LEVEL = "exploration"
RULE = ("a case is one generator program (values, nested generators, I/O tokens, failing tokens, raise, try/except, "
        "try/finally, return) run on the real driver and, with direct recursion, on a reference interpreter; distinct = "
        "distinct logs of everything the program observed")
ASSUMPTIONS = ["the value of a generator whose last yield raised an exception it caught is unspecified"]

# a program is a list of statements:
#   0..3        yield a plain value (an int, None, an empty list, an exception instance)
#   "t"         yield an I/O token and receive its result
#   "T"         yield an I/O token whose result raises
#   "r"         raise
#   "R"         return from the generator
#   ["c", p]    yield a nested generator running p
#   ["e", p, q] try: p except TestError: q
#   ["f", p]    try: p finally: log
LEAVES = [0, 1, 2, 3, "t", "T", "r", "R"]


class TestError(Exception):
    __test__ = False


class Wild(object):
    """ unspecified value """
    def __repr__(self):
        return "<unspecified>"


WILD = Wild()
VALUES = [17, None, [], TestError("a value")]


class Token(OSAsyncIOToken):
    def __init__(self, log, position, fails):
        self.log = log
        self.position = position
        self.fails = fails

    def get_result(self, block=False):
        self.log.append(("get_result", self.position, bool(block)))
        if self.fails:
            raise TestError("token", self.position)
        return ("token", self.position)


def describe(value):
    if isinstance(value, TestError):
        return ("error",) + value.args
    return value


class Real(object):
    """ run the program as real generators """

    def __init__(self, log):
        self.log = log

    def run(self, program, position=()):
        self.log.append(("start", position))
        yield from self.block(program, position)
        self.log.append(("end", position))

    def block(self, program, position):
        for index, statement in enumerate(program):
            here = position + (index,)
            if isinstance(statement, int):
                received = yield VALUES[statement]
                self.log.append(("got", here, describe(received)))
            elif statement == "t" or statement == "T":
                received = yield Token(self.log, here, statement == "T")
                self.log.append(("got", here, describe(received)))
            elif statement == "r":
                raise TestError("raised", here)
            elif statement == "R":
                return True
            elif statement[0] == "c":
                received = yield self.run(statement[1], here)
                self.log.append(("got", here, describe(received)))
            elif statement[0] == "e":
                try:
                    if (yield from self.block(statement[1], here + ("try",))):
                        return True
                except TestError as error:
                    self.log.append(("caught", here, describe(error)))
                    if (yield from self.block(statement[2], here + ("except",))):
                        return True
            elif statement[0] == "f":
                try:
                    if (yield from self.block(statement[1], here + ("try",))):
                        return True
                finally:
                    self.log.append(("finally", here))


class Reference(object):
    """ run the program with plain nested calls """

    def __init__(self, log):
        self.log = log

    def run(self, program, position=()):
        self.log.append(("start", position))
        frame = {"last": None}
        self.block(program, position, frame)
        self.log.append(("end", position))
        return frame["last"]

    def receive(self, frame, here, func, *args):
        try:
            value = func(*args)
        except TestError:
            frame["last"] = WILD
            raise
        frame["last"] = value
        self.log.append(("got", here, describe(value)))

    def block(self, program, position, frame):
        for index, statement in enumerate(program):
            here = position + (index,)
            if isinstance(statement, int):
                self.receive(frame, here, lambda: VALUES[statement])
            elif statement == "t" or statement == "T":
                self.receive(frame, here, Token(self.log, here, statement == "T").get_result, True)
            elif statement == "r":
                raise TestError("raised", here)
            elif statement == "R":
                return True
            elif statement[0] == "c":
                self.receive(frame, here, self.run, statement[1], here)
            elif statement[0] == "e":
                try:
                    if self.block(statement[1], here + ("try",), frame):
                        return True
                except TestError as error:
                    self.log.append(("caught", here, describe(error)))
                    if self.block(statement[2], here + ("except",), frame):
                        return True
            elif statement[0] == "f":
                try:
                    if self.block(statement[1], here + ("try",), frame):
                        return True
                finally:
                    self.log.append(("finally", here))


def outcome(func):
    try:
        return "value", func()
    except TestError as error:
        return "error", error


def same(actual, expected):
    if expected is WILD:
        return True
    if isinstance(expected, tuple) and isinstance(actual, tuple):
        return len(actual) == len(expected) and all(same(a, b) for a, b in zip(actual, expected))
    if isinstance(expected, TestError):
        return describe(actual) == describe(expected)
    return type(actual) is type(expected) and actual == expected


def compare(program):
    expected_log, log = [], []
    expected = outcome(lambda: Reference(expected_log).run(program))
    actual = outcome(lambda: sync_wait(Real(log).run(program)))
    require(same(tuple(log), tuple(expected_log)), "the program observed\n  %r\ninstead of\n  %r" % (log, expected_log))
    require(same(actual, expected), "the program ended with %r instead of %r" % (actual, expected))
    return repr(log)


def programs(size):
    """ all programs of exactly `size` statements (nested ones included) """
    if size == 0:
        yield []
        return
    for first_size in range(1, size + 1):
        for first in statements(first_size):
            for rest in programs(size - first_size):
                # statements after raise / return are dead
                if first in ("r", "R") and rest:
                    continue
                yield [first] + rest


def statements(size):
    if size == 1:
        for leaf in LEAVES:
            yield leaf
    for body in programs(size - 1):
        yield ["c", body]
        if body:
            yield ["f", body]
    for left in range(1, size - 1):
        for body in programs(left):
            for handler in programs(size - 1 - left):
                yield ["e", body, handler]
    if size >= 2:
        for body in programs(size - 1):
            yield ["e", body, []]


def groups(tier):
    deep = tier == "thorough"
    for size in range(0, 4):
        yield Group("size-%d" % size, programs(size), compare, bound="all programs of %d statements" % size)
    workers = 8
    for size in ((4, 5) if deep else (4,)):
        for part in range(workers):
            yield Group("size-%d/%d" % (size, part),
                        (p for i, p in enumerate(programs(size)) if i % workers == part), compare,
                        bound="all programs of %d statements, part %d of %d" % (size, part, workers))
    yield Group("chains", chains(40 if deep else 20), compare,
                bound="linear chains of nested calls, the innermost statement and the depth of the handler vary")
    yield Group("deep-chains", deep_chains(range(20, 300) if deep else DEPTHS), compare,
                bound="chains of up to 300 nested calls")
    yield Group("long", long_programs(range(300) if deep else DEPTHS), compare,
                bound="up to 300 statements of a kind one after the other")
    yield Group("arguments", ["none", "false", "many", "names", "self", "generator", "error"], arguments)
    depths = range(5 if deep else 3)
    yield Group("values", [[name, depth, how] for name in sorted(ODD_VALUES) for depth in depths
                           for how in ("value", "twice", "token", "plain")], odd_value)
    yield Group("errors", [[name, source, depth, handler, catch] for name in sorted(ERRORS)
                           for source in ("raise", "first", "token") for depth in depths
                           for handler in list(range(depth + 1)) + [9] for catch in ("exact", "base", "other")], odd_error)
    yield Group("entry", ["sync_call", "nested-wait", "plain-call", "adapter", "adapter-error"], entry)


def chains(depth_limit):
    for depth in range(1, depth_limit):
        for leaf in LEAVES:
            for handler in range(0, depth + 1):
                program = [leaf]
                for level in range(depth):
                    program = [["c", program]]
                    if level == handler:
                        program = [["e", program, [0]]]
                yield program


DEPTHS = [24, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 255, 256, 257, 299]


def deep_chains(depths):
    for depth in depths:
        for leaf in LEAVES:
            for handler in (0, 1, depth // 2, depth - 1, depth):
                program = [leaf]
                for level in range(depth):
                    program = [["c", program]]
                    if level == handler:
                        program = [["e", program, [0]]]
                yield program


def long_programs(counts):
    """ many statements of one kind, at the top and below it """
    for count in counts:
        for statement in (0, 1, "t", ["c", []], ["c", [2]], ["c", ["t"]], ["e", ["r"], []], ["e", ["T"], [0]],
                          ["e", [["c", ["T"]]], ["t"]], ["f", [["c", [0]]]]):
            for end in ([], ["r"], ["R"], [3]):
                yield [statement] * count + end
            yield [0, ["c", [statement] * count], "t"]


def arguments(case):
    """ sync_call hands every argument over as it is """
    calls = []

    def function(*args, **kwargs):
        calls.append((args, kwargs))
        yield len(calls)

    def failing(*args, **kwargs):
        calls.append((args, kwargs))
        raise TestError("before the first yield")

    def other():
        yield 1

    generator = other()
    args, kwargs = {
        "none": ((None,), dict(a=None, b=None)), "false": ((0, False, b"", ()), dict(a=0, b=False, c=[])),
        "many": (tuple(range(40)), dict(("k%d" % i, i) for i in range(40))),
        "names": ((), dict(block=2, result=3, timeout=4, data=5, command=6, callback=8)),
        "self": ((function,), dict(a=function)), "generator": ((generator,), dict(g=generator)), "error": ((1,), dict(a=2)),
    }[case]
    if case == "error":
        require(same(outcome(lambda: sync_call(failing, *args, **kwargs)), ("error", TestError("before the first yield"))),
                "sync_call lost an error")
    else:
        require(sync_call(function, *args, **kwargs) == 1, "sync_call lost the value")
    require(len(calls) == 1, "the function was called %d times" % len(calls))
    require(len(calls[0][0]) == len(args) and all(a is b for a, b in zip(calls[0][0], args)),
            "the function was called with %r instead of %r" % (calls[0][0], args))
    require(sorted(calls[0][1]) == sorted(kwargs) and all(calls[0][1][k] is kwargs[k] for k in kwargs),
            "the function was called with %r instead of %r" % (calls[0][1], kwargs))
    return case


# --- values of any kind are handed over as they are, exceptions too ---------------------------------------------------
class Shape(object):
    """ quacks like a generator, a token and a container, but is a plain value """
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self.touched

    def touched(self, *args, **kwargs):
        raise AssertionError("the driver used a plain value")

    send = throw = close = next = get_result = is_done = loop = __next__ = __call__ = __await__ = touched

    def __iter__(self):
        raise AssertionError("the driver iterated a plain value")

    def __eq__(self, other):
        raise AssertionError("the driver compared a plain value")

    __hash__ = object.__hash__

    def __bool__(self):
        raise AssertionError("the driver asked a plain value for its truth")


class Falsy(object):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


def a_generator_function():
    raise AssertionError("the driver called a plain value")
    yield


class IterableToken(object):
    """ named like a token, but no token """
    def get_result(self, block=False):
        raise AssertionError("the driver used a plain value")


ODD_VALUES = {
    "shape": Shape, "falsy": Falsy, "function": lambda: a_generator_function, "class": lambda: Shape,
    "token-class": lambda: OSAsyncIOToken, "token-like": IterableToken, "iterator": lambda: iter([1, 2]),
    "map": lambda: map(a_generator_function, [1]), "range": lambda: range(3), "false": lambda: False, "zero": lambda: 0,
    "bytes": lambda: b"", "text": lambda: u"", "dict": dict, "tuple": tuple, "ellipsis": lambda: Ellipsis,
    "not-implemented": lambda: NotImplemented, "stop": lambda: StopIteration(3), "stop-class": lambda: StopIteration,
    "exit": lambda: GeneratorExit(), "error": lambda: ValueError("a value"), "error-class": lambda: ValueError,
    "traceback": lambda: (ValueError, ValueError("x"), None), "generators": lambda: [a_generator_function()],
    "lock": lambda: __import__("threading").Lock(), "file": lambda: __import__("io").BytesIO(b"x"), "type": lambda: type,
}


def odd_value(arg):
    name, depth, how = arg
    value = ODD_VALUES[name]()
    received = []

    class ValueToken(OSAsyncIOToken):
        def get_result(self, block=False):
            return value

    def innermost():
        yield 1
        received.append((yield ValueToken() if how == "token" else value))
        if how == "twice":
            received.append((yield value))

    def level(left):
        if left == 0:
            received.append((yield innermost()))
        else:
            received.append((yield level(left - 1)))

    result = sync_call(lambda: value) if how == "plain" else sync_wait(level(depth))
    require(result is value, "the result is %r instead of the value %r" % (type(result), type(value)))
    for index, item in enumerate(received):
        require(item is value, "hand-over %d gave %r instead of the value %r" % (index, type(item), type(value)))
    return tuple(arg)


class Custom(BaseException):
    pass


class Caused(Exception):
    """ raised because of another one """
    def __init__(self, *args):
        super(Caused, self).__init__(*args)
        self.__cause__ = OSError(5, "the cause")


class FalsyError(Exception):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class EqualError(Exception):
    """ equal to everything """
    def __eq__(self, other):
        return True

    __hash__ = Exception.__hash__


ERRORS = {"value": ValueError, "os": OSError, "interrupt": KeyboardInterrupt, "system-exit": SystemExit, "custom": Custom,
          "generator-exit": GeneratorExit, "assertion": AssertionError, "runtime": RuntimeError, "key": KeyError,
          "type": TypeError, "attribute": AttributeError, "memory": MemoryError, "recursion": RecursionError,
          "stop-async": StopAsyncIteration, "caused": Caused, "falsy": FalsyError, "equal": EqualError}


def odd_error(arg):
    """ the very exception raised reaches the level that catches it, and every finally on the way runs once """
    name, source, depth, handler, catch = arg
    error = ERRORS[name]("x", 1)
    cause = error.__cause__
    log = []
    caught = []

    class FailingToken(OSAsyncIOToken):
        def get_result(self, block=False):
            raise error

    def innermost():
        try:
            if source == "raise":
                yield 1
                raise error
            if source == "first":
                raise error
            yield FailingToken()
            log.append("resumed")
        finally:
            log.append("innermost")

    def level(number):
        try:
            try:
                yield (innermost() if number == 0 else level(number - 1))
                log.append("returned to %d" % number)
                yield "after"
            except {"exact": ERRORS[name], "base": BaseException, "other": ZeroDivisionError}[catch] as exception:
                if number != handler:
                    raise
                caught.append(exception)
                yield "handled"
        finally:
            log.append(number)

    try:
        result = sync_wait(level(depth))
    except BaseException as exception:
        result = exception
    expected = ["innermost"]
    handled = False
    for number in range(depth + 1):
        if handled:
            expected.append("returned to %d" % number)
        handled = handled or (number == handler and catch != "other")
        expected.append(number)
    require(log == expected, "the program did %r instead of %r" % (log, expected))
    if handled:
        require(len(caught) == 1 and caught[0] is error, "%r was caught as %r" % (error, caught))
        require(result == ("handled" if handler == depth else "after"), "the result is %r" % (result,))
    else:
        require(result is error, "%r surfaced as %r" % (error, result))
    require(error.__cause__ is cause and error.args == ("x", 1), "%r was changed on the way" % (error,))
    return tuple(arg)


def entry(case):
    calls = []

    def inner(value):
        calls.append(value)
        yield value + 1

    def nested_wait():
        first = sync_wait(inner(1))
        second = yield inner(first)
        yield second, sync_call(inner, second)

    if case == "sync_call":
        require(sync_call(inner, value=4) == 5 and calls == [4], "sync_call called the function as %r" % (calls,))
    elif case == "nested-wait":
        require(sync_wait(nested_wait()) == (3, 4) and calls == [1, 2, 3], "nested sync_wait gave %r" % (calls,))
    elif case == "plain-call":
        def plain(value):
            calls.append(value)
            return value
        for value in (None, False, 0, [1]):
            require(sync_call(plain, value) is value, "a plain function's value was not returned")
        require(len(calls) == 4, "plain functions were called %d times" % len(calls))
    else:
        from infi.asi import CommandExecuterAdapter
        adapter = CommandExecuterAdapter(Stub(calls, case == "adapter-error"), sync_call)
        if case == "adapter-error":
            require(same(outcome(lambda: adapter.call("c")), ("error", TestError("stub"))), "adapter lost an error")
        else:
            require(adapter.call("c") == ("called", "c"), "adapter call")
            adapter.send("s", len)
            require(adapter.is_queue_full() is False, "adapter is_queue_full")
            adapter.wait()
            require(calls == [("call", "c"), ("send", "s", len), ("full",), ("wait",)], "adapter made %r" % (calls,))
    return case


class Stub(object):
    """ an executer """

    def __init__(self, calls, fails):
        self.calls = calls
        self.fails = fails

    def call(self, command):
        self.calls.append(("call", command))
        if self.fails:
            raise TestError("stub")
        yield "called", command

    def send(self, command, callback=None):
        self.calls.append(("send", command, callback))
        yield None

    def is_queue_full(self):
        self.calls.append(("full",))
        return False

    def wait(self):
        self.calls.append(("wait",))
        yield None
