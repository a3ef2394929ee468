"""Reference classification of Linux SCSI completions and the status product C10 and C11 enumerate."""
from .core import require
from .backends import check_data, check_sense
from infi.asi.errors import (AsiException, AsiSCSIError, AsiCheckConditionError, AsiReservationConflictError,
                             AsiRequestQueueFullError)

STATUSES = (0x00, 0x02, 0x04, 0x08, 0x10, 0x14, 0x18, 0x28, 0x30, 0x40)
DRIVER = tuple(range(9))
SUGGEST = (0, 0x10, 0x20, 0x30, 0x40, 0x80)
HOST = tuple(range(0x15)) + (0x18, 0x100, 0xffff)
SENSE = bytes.fromhex("700006000000000a00000000290300000000")


def product(suggest=SUGGEST, hosts=HOST, drivers=DRIVER, statuses=STATUSES):
    for status in statuses:
        for driver in drivers:
            for extra in suggest:
                for host in hosts:
                    yield status, driver | extra, host


def check_outcome(outcome, status, driver, host, kind, amount, stored, sense=SENSE):
    what, value = outcome
    code = driver & 0x0f
    if status == 0 and code == 0 and host == 0:
        check_data(outcome, kind, amount, stored)
        return "data"
    where = "status %#x, driver status %#x, host status %#x" % (status, driver, host)
    require(what == "error", "%s: a failed command returned %r" % (where, value))
    require(isinstance(value, AsiException), "%s: %r is no error of the library" % (where, value))
    if status == 2 or (code == 8 and status != 0x18):
        check_sense(value, sense)
        return "check"
    if status == 0x18 and code == 8:
        require(isinstance(value, (AsiCheckConditionError, AsiReservationConflictError)), "%s: %r" % (where, value))
        return "conflict or check"
    if host == 7 and status:            # the driver could not queue the command
        require(isinstance(value, AsiRequestQueueFullError) or
                status == 0x18 and isinstance(value, AsiReservationConflictError), "%s: %r is not the queue-full error" % (where, value))
        return "full"
    require(isinstance(value, AsiSCSIError), "%s: %r is no SCSI error" % (where, value))
    if status == 0x18:
        require(isinstance(value, AsiReservationConflictError), "%s: %r" % (where, value))
        return "conflict"
    if not status & 2:
        require(not isinstance(value, AsiCheckConditionError), "%s: %r without a check condition" % (where, value))
    require(not isinstance(value, AsiReservationConflictError), "%s: %r without a conflict" % (where, value))
    return "error"


def sense_cases():
    """ what a device may put in the sense buffer: all lengths, response codes, malformed data """
    for length in range(0, 256):
        yield (bytes([0x70]) + bytes((i * 5 + 1) & 0xff for i in range(254)))[:length].hex()
    for code in range(256):
        yield (bytes([code]) + bytes((i * 3 + code) & 0xff for i in range(31))).hex()
    for code in (0x70, 0x71, 0x72, 0x73, 0xf0, 0x7f, 0x00):
        for second in (0, 0xff):
            for additional in (0, 1, 2, 7, 8, 10, 11, 12, 127, 128, 244, 246, 247, 248, 255):
                for descriptor in (0, 1, 2, 3, 4, 9, 0x80, 0xff):
                    for extra in (0, 1, 2, 10, 12, 100, 255):
                        yield (bytes([code, second, 0x0b, 0x47, second, 0, 0, additional, descriptor, extra]) +
                               bytes([second]) * 20).hex()
