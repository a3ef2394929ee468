"""C04: waiting drains the queue and calls every callback exactly once."""
from mc.core import require, Violation
from mc.explore import Exploration
from mc.sgworld import World, history, GOOD, CHECK, BUSY, sync_wait
from infi.asi.errors import AsiSCSIError          # (after the tree under test was chosen)

ID = "C04"
LEVEL = "model_checking"
RULE = ("a case is one history: a mix of sends with plain, nested-sending, raising and absent callbacks, then wait() "
        "until drained, the device choosing the completion order and outcome; distinct = distinct (callback order, "
        "outcome) vectors")
ASSUMPTIONS = []


class CallbackError(Exception):
    pass


def groups(tier):
    deep = tier == "thorough"
    for queue in (1, 2, 3):
        yield Exploration("plain/q%d" % queue,
                          lambda ch, q=queue: history(ch, q, 6 if deep else 5,
                                                      ["send:read", "post:read", "post:write", "wait"],
                                                      outcomes=(GOOD, CHECK) if q < 3 else (GOOD,)))
    for count in (1, 2, 3, 4) if deep else (1, 2, 3):
        yield Exploration("callbacks/n%d" % count, lambda ch, n=count: callbacks(ch, n))
    yield Exploration("repeat", repeated_waits)


def inner_call(world, raised, surfaced):
    """ call() from within a callback; the callbacks of other commands it runs may raise """
    entry = world.new_entry("read")
    entry.mode = "call"
    try:
        value = sync_wait(world.executer.call(entry.command()))
    except CallbackError as error:
        # raised by the callback of another command: ends this call early
        require(error is raised[-1], "call() raised somebody else's error")
        surfaced.append(error)
    except AsiSCSIError as error:
        entry.check_answer(None, error, "call in a callback")
    else:
        entry.check_answer(value, None, "call in a callback")


def callbacks(chooser, count):
    """ count commands, each with one of four callback behaviours, drained by wait() """
    world = World(chooser, count + 1, outcomes=(GOOD, BUSY) if count < 3 else (GOOD,))
    order = []
    behaviours = []
    raised = []
    surfaced = []
    nested = []
    for index in range(count):
        behaviour = chooser.choose(["plain", "absent", "nested", "raise", "call", "wait"], "callback of command %d" % index)
        behaviours.append(behaviour)
        entry = world.new_entry("read")

        def callback(data, exception, entry=entry, behaviour=behaviour):
            order.append(entry.serial)
            entry.callback(data, exception)
            if behaviour == "nested":
                inner = world.new_entry("write")
                nested.append(inner)

                def inner_callback(data, exception):
                    order.append(inner.serial)
                    inner.callback(data, exception)
                sync_wait(world.executer.send(inner.command(), callback=inner_callback))
            if behaviour == "call":
                inner_call(world, raised, surfaced)
            if behaviour == "wait":
                try:
                    sync_wait(world.executer.wait())
                except CallbackError as error:
                    require(error is raised[-1], "wait() raised somebody else's error")
                    surfaced.append(error)
                else:
                    require(world.outstanding() == 0, "wait() in a callback returned with %d commands outstanding" %
                            world.outstanding())
            if behaviour == "raise":
                error = CallbackError(entry.serial)
                raised.append(error)
                raise error
        if behaviour == "absent":
            entry.wants_callback = False
            sync_wait(world.executer.send(entry.command()))
        else:
            sync_wait(world.executer.send(entry.command(), callback=callback))
    for _ in range(count + 1):
        chooser.state(world.canon())
        try:
            sync_wait(world.executer.wait())
        except CallbackError as error:
            require(error is raised[-1], "wait() raised somebody else's error")
            surfaced.append(error)
            require(surfaced == raised, "callbacks raised %r, wait() %r" % (raised, surfaced))
            continue
        require(surfaced == raised, "an exception raised by a callback was swallowed")
        break
    else:
        raise Violation("wait() keeps raising")
    require(world.outstanding() == 0, "wait() returned with %d commands outstanding" % world.outstanding())
    world.check()
    for entry in world.entries:
        require(entry.outcome is not None, "command #%d was never completed" % entry.serial)
        require(len(entry.callbacks) == (1 if entry.sent_with_callback() else 0),
                "the callback of command #%d was called %d times" % (entry.serial, len(entry.callbacks)))
    require(len(nested) == behaviours.count("nested"), "nested sends are missing")
    require(len(raised) == behaviours.count("raise"), "raising callbacks are missing")
    require(world.read_on_empty == 0, "wait() read from the device with nothing outstanding")
    return tuple(behaviours), tuple(order), tuple(e.outcome for e in world.entries)


def repeated_waits(chooser):
    """ wait() on an empty queue returns without touching the device, at any point of a history """
    world = World(chooser, 2, outcomes=(GOOD,))
    trace = []
    for _ in range(4):
        require(world.do_wait() == "ok", "wait failed")
        reads = world.device.reads
        require(world.do_wait() == "ok" and world.device.reads == reads, "wait() on an empty queue touched the device")
        for _ in range(chooser.choose(3, "sends")):
            world.do_send("read")
        world.check()
        chooser.state(world.canon())
        trace.append(world.outstanding())
    world.drain()
    return tuple(trace)
