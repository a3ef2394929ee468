"""C02: the request queue is bounded; overflow is refused cleanly."""
from mc.core import Group, require
from mc.backends import SgFile, make_command
from mc.explore import Exploration
from mc.sgworld import World, history, GOOD

ID = "C02"
LEVEL = "model_checking"
RULE = ("a case is one history of send/call/wait (including attempts on a full queue, commands that can not be "
        "prepared and failing writes) on the real executer; distinct = distinct result vectors")
ASSUMPTIONS = []


def groups(tier):
    deep = tier == "thorough"
    for queue in (1, 2, 3):
        yield Exploration("overflow/q%d" % queue,
                          lambda ch, q=queue: history(ch, q, 6 if deep else 5,
                                                      ["send:read", "post:read", "call:read", "bad", "wait"], outcomes=(GOOD,)))
        yield Exploration("overflow+write-faults/q%d" % queue,
                          lambda ch, q=queue: history(ch, q, 6 if deep else 5,
                                                      ["send:read", "post:write", "call:read", "wait"],
                                                      outcomes=(GOOD,), write_faults=3), deviations=None if deep else 7)
    for queue in range(1, 19):
        yield Exploration("fill/q%02d" % queue, lambda ch, q=queue: fill(ch, q), deviations=2 if queue <= 6 or deep else 1)
    wide = [20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025,
            2047, 2048, 2049, 4095, 4096, 4097]
    if deep:
        wide += [8191, 8192, 8193, 65535, 65536, 65537]
    yield Group("wide", wide, run_wide, bound="queues of up to %d commands" % wide[-1])
    yield Exploration("default-size", lambda ch: fill(ch, None), deviations=1)


def run_wide(queue):
    """ exactly as many commands as the queue has room for, twice """
    from infi.asi import CommandExecuterAdapter
    from infi.asi.coroutines.sync_adapter import sync_call
    from infi.asi.errors import AsiRequestQueueFullError
    from infi.asi.linux import LinuxCommandExecuter
    device = SgFile(lambda submission: {"data": submission.cdb[1:5]})
    executer = CommandExecuterAdapter(LinuxCommandExecuter(device, max_queue_size=queue), sync_call)
    for turn in range(2):
        before = len(device.submissions)
        got = [[] for _ in range(queue)]
        for number in range(queue):
            require(not executer.is_queue_full(), "a queue of %d is full with %d commands" % (queue, number))
            cdb = bytes([8]) + number.to_bytes(4, "big") + b"\0"
            executer.send(make_command("read", cdb, 4), 
                          lambda data, error, answers=got[number]: answers.append((data, error)))
        require(executer.is_queue_full(), "a queue of %d is not full with as many commands" % queue)
        for operation in (executer.send, executer.call):
            try:
                operation(make_command("read", bytes(6), 4))
            except AsiRequestQueueFullError:
                pass
            else:
                require(False, "a full queue of %d accepted a command" % queue)
        require(len(device.submissions) - before == queue, "%d commands of %d reached the device" %
                (len(device.submissions) - before, queue))
        require(not any(got), "a callback was called before anything was read")
        executer.wait()
        for number, answers in enumerate(got):
            require(answers == [(number.to_bytes(4, "big"), None)], "command %d of %d: %r" % (number, queue, answers))
        require(not executer.is_queue_full(), "an empty queue is full")
    return queue


def fill(chooser, queue):
    """ fill to the limit, overflow in every way, complete one, refill; the queue must never shrink or grow """
    world = World(chooser, queue or 15, outcomes=(GOOD,), write_faults=2)
    if queue is None:
        from infi.asi.linux import LinuxCommandExecuter
        world.executer = LinuxCommandExecuter(world.device)
    sent = 0
    for _ in range(world.max_queue + 2):
        # with callbacks, without, or in turns
        if world.do_send("read", with_callback=world.chooser.choose(2, "callback") == 0) == "ok":
            sent += 1
        world.check()
    while world.outstanding() < world.max_queue:
        require(world.do_send("write") in ("ok", "fault"), "a free slot was refused")
    world.check()
    for _ in range(2):
        require(world.do_send("read") == "full", "a full queue accepted a command")
        entry = world.new_entry("read")
        entry.mode = "call"
        world.new_entry = lambda kind, e=entry: e
        require(world.do_call("read") == "full", "a full queue accepted a call")
        del world.new_entry
        world.check()
    chooser.state(world.canon())
    world.drain()
    world.outcomes = [GOOD]
    for _ in range(world.max_queue):
        require(world.do_send("read") == "ok", "after draining, a free slot was refused")
    require(world.do_send("read") == "full", "a full queue accepted a command")
    world.drain()
    return world.max_queue, sent, tuple(ch for _, ch in chooser.points)
