"""C23: command objects are independent and can be executed again."""
from mc.core import require
from mc.explore import Exploration
from mc import cdbspec
from mc.cdbspec import Recorder, execute
from mc.commands import CLASSES, NAMES

ID = "C23"
LEVEL = "model_checking"
RULE = ("a case is one sequence of operations (build again, set a flag, change the control byte in place or as a whole, "
        "execute) on two live command objects; every execution, and a final execution of both objects and of two fresh ones, "
        "must submit what a ledger of the operations says; states = ledger contents reached, transitions = operations; "
        "distinct = distinct sequences of submissions")
ASSUMPTIONS = ["flags and control byte are the mutable fields; addresses and lengths are fixed at construction"]


class Live(object):
    """ a command object and the ledger of what was asked of it """

    def __init__(self, spec, values):
        self.spec = spec
        self.base = values
        self.build()

    def build(self):
        self.values = dict(self.base)
        self.command = self.spec.make(self.values)

    def operations(self):
        result = ["execute", "build"]
        if self.spec.field("naca"):
            result += ["naca", "vendor", "control"]
        flags = self.spec.names("attr")
        result += ["set " + name for name in flags[:1] + flags[-1:] if name != "allocation_length"]
        return list(dict.fromkeys(result))

    def apply(self, operation):
        if operation == "execute":
            return self.execute()
        if operation == "build":
            self.build()
        elif operation == "naca":
            self.values["naca"] ^= 1
            self.command.control.naca = self.values["naca"]
        elif operation == "vendor":
            self.values["vendor_specific"] = (self.values["vendor_specific"] + 1) & 3
            self.command.control.vendor_specific = self.values["vendor_specific"]
        elif operation == "control":
            self.values.update(naca=1, vendor_specific=2)
            self.command.control = self.spec.make_control(1, 2)
        else:
            name = operation[4:]
            field = self.spec.field(name)
            self.values[name] ^= (1 << field.width) - 1
            setattr(self.command, name, self.values[name])

    def execute(self):
        recorder = Recorder(lambda length: b"\0" * min(length, 600))
        try:
            execute(self.command, recorder)
        except Exception:
            if not recorder.commands:
                raise
        cdbspec.check_recorded(self.spec, self.values, recorder)
        return recorder.commands[0][0]

    def ledger(self):
        return tuple(sorted((name, repr(value)) for name, value in self.values.items()))


def body(first, seconds, depth):
    def run(chooser):
        second = chooser.choose(seconds, "second class") if len(seconds) > 1 else seconds[0]
        live = [Live(*CLASSES[first]), Live(*CLASSES[second])]
        observed = []
        trace = []
        operations = [(index, operation) for index in (0, 1) for operation in live[index].operations()]
        for step in range(depth):
            index, operation = chooser.choose(operations, "operation")
            trace.append("%s: %s" % ("ab"[index], operation))
            observed.append(guarded(trace, live, lambda: live[index].apply(operation)))
            chooser.state((first, second, step, live[0].ledger(), live[1].ledger()))
        for item in (live[0], live[1], live[0]):
            observed.append(guarded(trace, live, item.execute))
        for item in live:
            observed.append(guarded(trace, live, Live(item.spec, item.base).execute))
        return first, second, tuple(observed)
    return run


def guarded(trace, live, action):
    try:
        return action()
    except Exception as error:
        message = getattr(error, "message", None) or repr(error)
        require(False, "a = %s, b = %s, after %s: %s" % (live[0].spec.name, live[1].spec.name, "; ".join(trace), message))


def groups(tier):
    thorough = tier == "thorough"
    for first in range(len(CLASSES)):
        yield Exploration("%s with itself" % NAMES[first], body(first, [first], 4 if thorough else 3))
    for first in range(len(CLASSES)):
        yield Exploration("%s with others" % NAMES[first], body(first, list(range(first, len(CLASSES))),
                                                               3 if thorough else 2))
