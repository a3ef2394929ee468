"""C05: a response that belongs to no pending command is an internal error and disturbs nothing."""
from mc.explore import Exploration
from mc.sgworld import history, GOOD, CHECK, FAILURES
from mc.fakesg import NONE, TO_DEV

ID = "C05"
LEVEL = "fault_enumeration"
RULE = ("a case is one history in which the device hands out, at any read, a response with a packet id no outstanding "
        "command has (never used, already completed, out of range; with success or sense status); every history ends "
        "with a drain in which all other commands must complete; distinct = distinct result vectors")
ASSUMPTIONS = ["a stray response that carries the packet id of a pending command can not be told from its answer"]

# what a stray response may carry
STRAY = [{}, {"driver_status": 8}, {"status": 2}, {"status": 2, "driver_status": 8, "sb_len_wr": 18}, {"status": 0x30},
         {"driver_status": 0x80}, {"host_status": 7}, {"status": 8, "host_status": 7}, {"host_status": 0xffff}, {"status": 0xff},
         {"dxfer_direction": TO_DEV}, {"dxfer_direction": NONE}, {"dxfer_len": 4096, "resid": 4096}, {"dxfer_direction": 0x7fffffff},
         {"info": 1}, {"interface_id": 0}] + [FAILURES[name] for name in sorted(FAILURES)]


def groups(tier):
    deep = tier == "thorough"
    for queue in (1, 2, 3):
        yield Exploration("foreign/q%d" % queue,
                          lambda ch, q=queue: history(ch, q, (5 if q < 3 else 4) if deep else (4 if q < 3 else 3),
                                                      ["send:read", "send:write", "call:read", "wait"], foreign=1,
                                                      outcomes=(GOOD, CHECK) if q < 3 else (GOOD,)))
    yield Exploration("foreign-twice/q2",
                      lambda ch: history(ch, 2, 4 if deep else 3, ["send:read", "call:read", "wait"], foreign=2,
                                         outcomes=(GOOD,)))
    yield Exploration("foreign-merged/q3",
                      lambda ch: history(ch, 3, 8 if deep else 6, ["send:read", "call:read", "wait"], foreign=2,
                                         outcomes=(GOOD,)), merge=True)
    for queue in (1, 2, 3):
        yield Exploration("stray/q%d" % queue,
                          lambda ch, q=queue: history(ch, q, 3 if deep else 2, ["send:read", "call:read", "wait"], foreign=1,
                                                      outcomes=(GOOD,), foreign_responses=STRAY))
    yield Exploration("stray/writes",
                      lambda ch: history(ch, 2, 3 if deep else 2, ["send:write", "call:none", "wait"], foreign=1,
                                         outcomes=(GOOD,), foreign_responses=STRAY))
