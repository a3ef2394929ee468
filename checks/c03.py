"""C03: an I/O failure affects only the operation it happened in."""
from mc.core import require
from mc.explore import Exploration
from mc.sgworld import World, history, GOOD, CHECK

ID = "C03"
LEVEL = "fault_enumeration"
RULE = ("a case is one history with write/read failures of the device injected at every possible point (at most two of "
        "each per history); every history ends with a fault-free drain in which all commands still outstanding must "
        "complete; distinct = distinct result vectors")
ASSUMPTIONS = ["a failed write() means the device did not accept the command",
               "a failed read() consumes no response"]


# EPERM ENOENT EINTR EIO ENXIO EBADF EAGAIN ENOMEM EFAULT EBUSY ENODEV EINVAL ENOSPC EDOM ERANGE ETIME EOVERFLOW ETIMEDOUT
# EREMOTEIO
ERRNOS = (1, 2, 4, 5, 6, 9, 11, 12, 14, 16, 19, 22, 28, 33, 34, 62, 75, 110, 121)


def groups(tier):
    deep = tier == "thorough"
    for queue in (1, 2, 3):
        yield Exploration("faults/q%d" % queue,
                          lambda ch, q=queue: history(ch, q, 5 if deep else 4,
                                                      ["send:read", "send:write", "call:read", "wait"],
                                                      read_faults=2, write_faults=2,
                                                      outcomes=(GOOD, CHECK) if q < 3 or deep else (GOOD,)))
    for queue in (2, 3):
        yield Exploration("faults-merged/q%d" % queue,
                          lambda ch, q=queue: history(ch, q, 8 if deep else 6,
                                                      ["send:read", "call:read", "call:write", "wait"],
                                                      read_faults=3, write_faults=2, outcomes=(GOOD,)), merge=True)
    for queue in (1, 2):
        yield Exploration("errnos/q%d" % queue,
                          lambda ch, q=queue: history(ch, q, 3, ["send:read", "call:write", "wait"], read_faults=1,
                                                      write_faults=1, outcomes=(GOOD,),
                                                      errnos=range(1, 134) if deep else ERRNOS))
    for queue in (1, 2, 3, 15):
        yield Exploration("send-failures/q%d" % queue, lambda ch, q=queue: many_send_failures(ch, q), deviations=1)


def many_send_failures(chooser, queue):
    """ more failing sends than the queue has slots: every one frees what it took """
    world = World(chooser, queue, outcomes=(GOOD,))
    keep = chooser.choose(queue, "commands kept outstanding")
    for _ in range(keep):
        require(world.do_send("read") == "ok", "send failed")
    for _ in range(2 * queue + 2):
        world.write_faults = 1
        original, world.chooser = world.chooser, Always()
        try:
            require(world.do_send("read") == "fault", "the injected fault did not surface")
        finally:
            world.chooser = original
        world.write_faults = 0
        world.check()
    chooser.state(world.canon())
    for _ in range(queue - keep):
        require(world.do_send("read") == "ok", "a slot was lost to a failed send")
    world.drain()
    return keep, queue


class Always(object):
    def choose(self, options, label=""):
        return 1
