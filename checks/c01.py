"""C01: every response reaches exactly the command it answers."""
from mc.core import Group, require
from mc.explore import Exploration, check_deterministic
from mc.sgworld import Entry, World, history, GOOD, CHECK, BUSY, FAILURES

ID = "C01"
LEVEL = "model_checking"
RULE = ("a case is one complete history of send/call/wait on the real executer over the sg device model, the device "
        "choosing at every read which outstanding command completes and how; distinct = distinct (operation results, "
        "per-command outcome and callback count) vectors, histories pruned at an already explored state do not count")
ASSUMPTIONS = ["the sg device returns only responses to commands written to it, in any order"]


def groups(tier):
    deep = tier == "thorough"
    for queue in (1, 2, 3):
        yield Exploration("all-orders/q%d" % queue,
                          lambda ch, q=queue: history(ch, q, 6 if deep else (5 if q < 3 else 4),
                                                      ["send:read", "send:write", "call:read", "wait"]))
    for queue in (2, 3, 4):
        yield Exploration("merged/q%d" % queue,
                          lambda ch, q=queue: history(ch, q, (10 if deep else 8) - 2 * (q == 4),
                                                      ["send:read", "send:none", "call:write"],
                                                      outcomes=(GOOD, CHECK) if q < 4 or deep else (GOOD,)),
                          merge=True)
    yield Exploration("outcomes/q2", lambda ch: history(ch, 2, 5 if deep else 4,
                                                        ["send:read", "post:read", "call:write", "call:none", "wait"],
                                                        outcomes=(GOOD, CHECK, BUSY)))
    for outcome in sorted(FAILURES):
        # whatever a command fails with, the answer is its own
        yield Exploration("failures/%s" % outcome, lambda ch, o=outcome: history(
            ch, 3, 6 if deep else 4, ["send:read", "call:write", "wait"], outcomes=(GOOD, o)), merge=True)
    yield Exploration("two-devices", lambda ch: two_devices(ch, 6 if deep else 5), merge=True)
    for queue in (5, 15):
        yield Exploration("long/q%d" % queue, lambda ch, q=queue: long_run(ch, q), deviations=(3 if queue == 5 else 2)
                          if deep else (2 if queue == 5 else 1), note="fixed program of %d sends and 4 calls, deviating completions" % (3 * queue))
    yield Exploration("deterministic", deterministic)
    queues = (7, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000) + ((1024, 2048, 4097) if deep else ())
    for style in STYLES:
        yield Group("wide/%s" % style, [[queue, order, style] for queue in queues for order in sorted(ORDERS)], wide_run)
        yield Group("many/%s" % style, [[queue, order, 20000 if deep else 2000, style] for queue in (1, 2, 3, 15, 40)
                                        for order in sorted(ORDERS)], many_run)
    # more than counters of 16 bits hold
    yield Group("very many", [[queue, order, 66500, style] for queue, order, style in
                              ((1, "fifo", "call"), (3, "lifo", "send"), (15, "middle", "mixed outcomes"), (40, "ends", "call"))], many_run)


ORDERS = {
    "fifo": lambda count, step: 0,
    "lifo": lambda count, step: count - 1,
    "middle": lambda count, step: count // 2,
    "ends": lambda count, step: 0 if step % 2 else count - 1,
    "second": lambda count, step: min(1, count - 1),
}
STYLES = ("send", "call", "mixed outcomes")


class Fixed(object):
    """ stands for the explorer where the completion order is a given rule """

    def __init__(self, order, outcomes):
        self.order = ORDERS[order]
        self.outcomes = outcomes
        self.step = 0

    def choose(self, options, label):
        self.step += 1
        count = len(options) // self.outcomes
        return options[self.order(count, self.step) * self.outcomes + self.step // 3 % self.outcomes]


def world_of(queue, order, style):
    outcomes = (GOOD, CHECK) + tuple(sorted(FAILURES)) if style == "mixed outcomes" else (GOOD,)
    return World(Fixed(order, len(outcomes)), queue, outcomes=outcomes), outcomes


def one_call(world, kind):
    entry = world.new_entry(kind)
    entry.mode = "call"
    world.new_entry = lambda kind: entry
    try:
        return world.do_call(kind)
    finally:
        del world.new_entry


def wide_run(arg):
    """ a deep queue, filled and emptied three times in a given order: the packet ids outgrow a byte """
    queue, order, style = arg
    world, outcomes = world_of(queue, order, style)
    for round_number in range(3):
        world.outcomes = list(outcomes)
        world.chooser.outcomes = len(outcomes)
        for index in range(queue - (style != "send") * (1 + round_number) - world.outstanding()):
            world.do_send(("read", "write", "none")[index % 3])
        world.check()
        if style != "send":
            for _ in range(3):
                one_call(world, "read")
                world.check()
            world.do_send("read")
        world.check_delivered()
        if round_number == 1:
            continue                # refilled while commands are pending
        world.do_wait()
        world.check()
        world.check_delivered()
    world.chooser.outcomes = 1
    world.drain()
    return tuple(arg)


def many_run(arg):
    """ thousands of commands through one executer """
    queue, order, count, style = arg
    world, outcomes = world_of(queue, order, style)
    total = 0
    while total < count:
        world.entries, world.by_cdb = [], dict((request.cdb, world.by_cdb[request.cdb])
                                               for request in world.device.outstanding)
        for index in range(min(queue - 1, 1 + total // 7 % queue)):
            if world.outstanding() < queue - 1:
                send_numbered(world, total, ("read", "write", "none")[index % 3])
                total += 1
        send_numbered(world, total, "read", call=style != "send")
        total += 1
        world.check()
        world.check_delivered()
        if total // queue % 2 or world.outstanding() == queue:
            world.do_wait()
            world.check()
            world.check_delivered()
    world.chooser.outcomes = 1
    world.drain()
    return tuple(arg)


def send_numbered(world, number, kind, call=False):
    entry = Entry(number + 1, kind)
    world.entries.append(entry)
    world.by_cdb[entry.cdb] = entry
    entry.mode = "call" if call else "send"
    world.new_entry = lambda kind: entry
    try:
        require((world.do_call if call else world.do_send)(kind) in ("ok", "scsi"), "command %d was refused" % number)
    finally:
        del world.new_entry


def two_devices(chooser, depth):
    """ two executers, each with a device of its own, used in turn: neither notices the other """
    worlds = [World(chooser, 2), World(chooser, 2)]
    for step in range(depth):
        if step:
            chooser.state((worlds[0].canon(), worlds[1].canon()), depth - step)
        op = chooser.choose(["send", "call", "wait", "stop"], "op %d" % step)
        if op == "stop":
            break
        world = worlds[chooser.choose(2, "device") if step else 0]
        if op == "send":
            world.do_send("read")
        elif op == "call":
            entry = world.new_entry("read")
            entry.mode = "call"
            world.new_entry = lambda kind, e=entry: e
            world.do_call("read")
            del world.new_entry
        else:
            world.do_wait()
        for world in worlds:
            world.check()
            world.check_delivered()
    for world in worlds:
        world.drain()
    return tuple(tuple((e.outcome, len(e.callbacks)) for e in world.entries) for world in worlds)


def long_run(chooser, queue):
    """ three rounds of: fill the queue but one, call in between, drain; deviations are completions out of order """
    world = World(chooser, queue, outcomes=(GOOD,))
    for round_number in range(3):
        for index in range(queue - 1):
            world.do_send("read" if index % 2 else "write")
            world.check()
        entry = world.new_entry("read")
        entry.mode = "call"
        world.new_entry = lambda kind, e=entry: e
        world.do_call("read")
        del world.new_entry
        world.check()
        world.check_delivered()
        chooser.state(world.canon())
    world.drain()
    return tuple(len(e.callbacks) for e in world.entries), tuple(ch for _, ch in chooser.points)


def deterministic(chooser):
    """ replaying a schedule twice gives the same observation (all nondeterminism is owned by the explorer) """
    body = lambda ch: history(ch, 2, 4, ["send:read", "call:read", "wait"])
    for schedule in ([0], [0, 1, 2, 1], [1, 1], [0, 1, 1, 0]):
        check_deterministic(body, schedule)
    chooser.state("deterministic")
    return True
