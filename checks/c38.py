"""C38: the error of a failed command tells what was reported."""
import itertools
import re
from binascii import hexlify

from mc.core import Group, require
from mc import fakewin                      # imports infi.asi.win32 over the simulated kernel32
from mc import asc_reference, sgstatus, backendcheck, fakeioctl
from mc.backends import SgFile, linux_sg, make_command, outcome_of, pattern
from checks import c11, c12, c13, c14
from infi.asi.errors import (AsiException, AsiCheckConditionError, AsiRequestQueueFullError,
                             AsiReservationConflictError)

ID = "C38"
LEVEL = "exploration"
RULE = ("a case is one command that a simulated device, driver or operating system fails in one way, on one platform; "
        "the text of the error the user gets is compared with what was reported; distinct = distinct (platform, way to "
        "fail, codes, kind of command)")
ASSUMPTIONS = ["names of statuses are those of SAM-5, of the sg driver and of AIX's scsi_buf.h, behind any prefix",
               "a reservation conflict and a full queue are errors of their own and need no further status"]

# SAM-5 table 29
SCSI = {0x02: "CHECK_CONDITION", 0x04: "CONDITION_MET", 0x08: "BUSY", 0x18: "RESERVATION_CONFLICT",
        0x28: "TASK_SET_FULL", 0x30: "ACA_ACTIVE", 0x40: "TASK_ABORTED"}
# include/scsi/sg.h, sg_err.h
DRIVER = {1: "BUSY", 2: "SOFT", 3: "MEDIA", 4: "ERROR", 5: "INVALID", 6: "TIMEOUT", 7: "HARD", 8: "SENSE"}
HOST = {1: "NO_CONNECT", 2: "BUS_BUSY", 3: "TIME_OUT", 4: "BAD_TARGET", 5: "ABORT", 6: "PARITY", 7: "ERROR", 8: "RESET",
        9: "BAD_INTR", 0xa: "PASSTHROUGH", 0xb: "SOFT_ERROR"}
# AIX: sys/scsi_buf.h
ADAPTER = {1: "HOST_IO_BUS_ERR", 2: "TRANSPORT_FAULT", 3: "CMD_TIMEOUT", 4: "NO_DEVICE_RESPONSE",
           5: "ADAPTER_HDW_FAILURE", 6: "ADAPTER_SFW_FAILURE", 7: "WW_NAME_CHANGE", 8: "FUSE_OR_TERMINAL_PWR",
           9: "TRANSPORT_RESET", 0xa: "TRANSPORT_BUSY", 0xb: "TRANSPORT_DEAD", 0xc: "VERIFY_DEVICE",
           0xd: "TRANSPORT_MIGRATED", 0xe: "ERROR_NO_RETRY", 0xf: "ERROR_DELAY_LOG"}
VALIDITY = {1: "SCSI_ERROR", 2: "ADAPTER_ERROR"}
EINVAL = {1: "INV_VERS", 9: "INV_Q_TAG_MSG", 10: "INV_FLAGS", 11: "INV_DEVFLAGS", 12: "INV_Q_FLAGS", 13: "INV_CDB_LEN",
          15: "INV_AS_LEN", 16: "INV_CDB", 17: "INV_TO", 18: "INV_D_LEN", 19: "INV_SID", 20: "INV_LUN", 21: "INV_BUFF",
          22: "INV_AS_BUFF", 23: "INV_VAR_CDB_LEN", 24: "INV_VAR_CDB"}
SENSE_KEYS = ("NO_SENSE", "RECOVERED_ERROR", "NOT_READY", "MEDIUM_ERROR", "HARDWARE_ERROR", "ILLEGAL_REQUEST",
              "UNIT_ATTENTION", "DATA_PROTECT", "BLANK_CHECK", "VENDOR_SPECIFIC", "COPY_ABORTED", "ABORTED_COMMAND",
              "RESERVED", "VOLUME_OVERFLOW", "MISCOMPARE", "COMPLETED")
AMOUNTS = {"read": 16, "write": b"0123456789", "none": 0}


def names_in(text):
    """ the (name, code) pairs of an error's text: a name in capitals, if there is one, before a hexadecimal number """
    return [(name or "", int(code, 16)) for name, code in re.findall(r"([A-Z][A-Z0-9_]*)? ?\b0x([0-9a-fA-F]+)", text)]


def labels_of(text, label):
    """ what is given as that: "label: NAME 0x..", "label is not zero: NAME 0x..", ... """
    return [(name, int(code, 16)) for name, code in
            re.findall(r"\b%s(?: is not zero)?[ :=]+([A-Z][A-Z0-9_]*)? ?0x([0-9a-fA-F]+)" % label, text)]


def is_name(found, code, names):
    expected = names.get(code)
    if expected is None:
        return code == 0 or not found       # no name is better than a wrong one
    return found == expected or found.endswith("_" + expected)


def mentioned(text, what, code, names):
    """ the code is there, under its own name """
    require(any(number == code and is_name(name, code, names) and (name or code not in names)
                for name, number in names_in(text)), "%s %#x is not told by: %s" % (what, code, text))


def labelled(text, label, code, names):
    """ and nothing else is given as this kind of status """
    for found in labels_of(text, label):
        require(found[1] == code and is_name(found[0], code, names), "%s is %#x, told is: %s" % (label, code, text))


def text_of(outcome, where):
    require(outcome[0] == "error", "%s: ended with %r" % (where, outcome[1]))
    require(isinstance(outcome[1], (AsiException, EnvironmentError)), "%s: ended with %r" % (where, outcome[1]))
    text = str(outcome[1])
    require(text.strip(), "%s: an error without a text" % where)
    return text


def check_linux(outcome, status, driver, host):
    where = "status %#x, driver status %#x, host status %#x" % (status, driver, host)
    text = text_of(outcome, where)
    error = outcome[1]
    if isinstance(error, AsiCheckConditionError):
        check_sense_text(error, text)
        return
    if isinstance(error, AsiReservationConflictError):
        require("conflict" in text.lower(), "%s: %s" % (where, text))
        return
    if isinstance(error, AsiRequestQueueFullError):
        require("full" in text.lower(), "%s: %s" % (where, text))
        return
    code = driver & 0xf
    if status:
        mentioned(text, "SCSI status", status, SCSI)
    if code:
        mentioned(text, "driver status", code, DRIVER)
    if host:
        mentioned(text, "host status", host, HOST)
    labelled(text, "driver (?:response )?status", code, DRIVER)
    labelled(text, "host (?:response )?status", host, HOST)
    labelled(text, "SCSI (?:response )?status", status, SCSI)
    reported = [(status, SCSI), (code, DRIVER), (host, HOST)]
    for name, number in names_in(text):
        require(number == 0 or any(number == value and is_name(name, value, names) for value, names in reported),
                "%s %#x was not reported (%s): %s" % (name, number, where, text))


def check_sense_text(error, text):
    raw = error.sense_buffer
    require(hexlify(raw).decode() in text, "the sense data is not told by %s" % text)
    code = raw[0] & 0x7f
    if error.sense_obj is not None and code in (0x70, 0x71, 0x72, 0x73):
        key = SENSE_KEYS[raw[2 if code < 0x72 else 1] & 0xf]
        require(key in text, "the sense key %s is not told by %s" % (key, text))
        asc = (raw[12], raw[13]) if code < 0x72 else (raw[2], raw[3])
        names = asc_reference.names(*asc)
        require(not names or any(name in text for name in names), "the additional sense code %r is not told by %s" %
                (asc, text))
        require(all(re.search(r"\b(0x)?0*(%x|%d)\b" % (number, number), text, re.I) for number in asc),
                "the additional sense code %r is not told by %s" % (asc, text))


def run_linux(arg):
    status, driver, host, kind, via = arg
    device = SgFile(lambda submission: {"status": status, "driver": driver, "host": host, "data": b"", "sense":
                                        sgstatus.SENSE if status & 2 or driver & 8 else b""})
    outcome = outcome_of(linux_sg(device), make_command(kind, pattern(10, 1), AMOUNTS[kind]), via)
    check_linux(outcome, status, driver, host)
    return tuple(arg)


def run_linux_ioctl(arg):
    status, driver, host, kind, via = arg
    outcome, _, _ = backendcheck.one(c11.Spec, {"status": status, "driver": driver, "host": host, "sense":
                                                sgstatus.SENSE if status & 2 or driver & 8 else b""}, kind, via)
    check_linux(outcome, status, driver, host)
    return tuple(arg)


def run_solaris(arg):
    status, reason, kind, via = arg
    outcome, _, _ = backendcheck.one(c12.Spec, {"status": status, "reason": reason,
                                                "sense": sgstatus.SENSE if status & 2 else b""}, kind, via)
    text = text_of(outcome, "status %#x, reason %#x" % (status, reason))
    if isinstance(outcome[1], AsiCheckConditionError):
        check_sense_text(outcome[1], text)
    else:
        mentioned(text, "SCSI status", status, {})
        mentioned(text, "reason", reason, {})
        require(sorted(number for _, number in names_in(text)) == sorted([status, reason]), "status %#x, reason %#x: %s" %
                (status, reason, text))
    return tuple(arg)


def run_aix(arg):
    libc, validity, status, adapter, kind, via = arg
    fakeioctl.aix_libc[0] = libc
    outcome, _, _ = backendcheck.one(c13.SPECS["libc" if libc else "fcntl"], {
        "validity": validity, "bus_status": status, "adapter_status": adapter, "errno": 5,
        "sense": sgstatus.SENSE if validity == 1 and status & 2 else b""}, kind, via)
    where = "validity %#x, status %#x, adapter status %#x" % (validity, status, adapter)
    text = text_of(outcome, where)
    if isinstance(outcome[1], AsiCheckConditionError):
        check_sense_text(outcome[1], text)
        return tuple(arg)
    mentioned(text, "validity", validity, VALIDITY)
    if validity == 1:
        mentioned(text, "SCSI status", status, SCSI)
        labelled(text, "scsi_bus_status", status, SCSI)
    if validity == 2:
        mentioned(text, "adapter status", adapter, ADAPTER)
    labelled(text, "adapter_status", adapter, ADAPTER)
    labelled(text, "validity", validity, VALIDITY)
    return tuple(arg)


def run_aix_argument(arg):
    libc, argument, errno, via = arg
    outcome, _, _ = backendcheck.one(c13.SPECS["libc" if libc else "fcntl"], {"einval_arg": argument, "errno": errno,
                                                                              "validity": 0}, "read", via)
    text = text_of(outcome, "argument %d" % argument)
    if argument:
        mentioned(text, "argument", argument, EINVAL)
    return tuple(arg)


def run_windows(arg):
    status, kind, via = arg
    outcome, _, _ = backendcheck.one(c14.Spec, {"status": status, "sense": sgstatus.SENSE if status & 2 else b""}, kind,
                                     via)
    text = text_of(outcome, "status %#x" % status)
    if isinstance(outcome[1], AsiCheckConditionError):
        check_sense_text(outcome[1], text)
    else:
        numbers = [int(number, 16) if number.startswith("0x") else int(number)
                   for number in re.findall(r"\b0x[0-9a-f]+\b|\b\d+\b", text)]
        require(numbers == [status], "status %d: %s" % (status, text))
    return tuple(arg)


def run_windows_errno(arg):
    errno, kind, via = arg
    device = c14.Spec.device(lambda submission: errno)
    executer = c14.Spec.executer(device)
    outcome = outcome_of(executer, make_command(kind, bytes(10), AMOUNTS[kind]), via)
    text = text_of(outcome, "error %d" % errno)
    require(re.search(r"\b%d\b" % errno, text), "error %d: %s" % (errno, text))
    meaning = re.findall(r"error text (\d+)", text)
    require(all(int(number) in (errno, errno & 0xffff) for number in meaning) and
            (meaning or errno & 0xffff >= 0x8000), "error %d is explained as %s" % (errno, text))
    require(outcome[1].win32_errno == errno, "error %d is given as %r" % (errno, outcome[1].win32_errno))
    return tuple(arg)


def run_sense(arg):
    platform, sense = arg
    sense = bytes.fromhex(sense)
    if platform == "linux":
        device = SgFile(lambda submission: {"status": 2, "sense": sense})
        outcome = outcome_of(linux_sg(device), make_command("read", bytes(6), 8), "call")
    else:
        spec, answer = {"solaris": (c12.Spec, {"status": 2}), "windows": (c14.Spec, {"status": 2}),
                        "ioctl": (c11.Spec, {"status": 2}),
                        "aix": (c13.FcntlSpec, {"validity": 1, "bus_status": 2, "errno": 5})}[platform]
        outcome, _, _ = backendcheck.one(spec, dict(answer, sense=sense), "read")
    text = text_of(outcome, "sense %s" % sense.hex())
    require(isinstance(outcome[1], AsiCheckConditionError), "a check condition surfaced as %r" % (outcome[1],))
    require(sense.hex() in text, "the sense data %s is not told by %s" % (sense.hex(), text))
    check_sense_text(outcome[1], text)
    return tuple(arg)


def senses(deep):
    codes = [(0x29, 0x03), (0x25, 0), (0x20, 0), (0x3f, 0x0e), (0x04, 0x02), (0xff, 0xff), (0x47, 0x10)]
    for code in (0x70, 0x71, 0x72, 0x73, 0xf0):
        for key in range(16):
            for asc, ascq in codes:
                if code in (0x72, 0x73):
                    yield bytes([code, key, asc, ascq, 0, 0, 0, 0]).hex()
                else:
                    yield bytes([code, 0, key, 1, 2, 3, 4, 10, 5, 6, 7, 8, asc, ascq, 9, 0x80, 1, 2]).hex()
    if deep:
        for asc in range(256):
            for ascq in range(256):
                yield bytes([0x70, 0, 5, 0, 0, 0, 0, 10, 0, 0, 0, 0, asc, ascq, 0, 0, 0, 0]).hex()


def windows_errors(deep):
    yield from range(1, 4000 if deep else 1500)
    for bit in range(12, 31):
        for low in (0, 1, 5, 87, 995):
            yield 1 << bit | low


def groups(tier):
    deep = tier == "thorough"
    ways = list(itertools.product(("read", "write", "none"), ("call", "send")))
    hosts = tuple(range(0x15)) + (0x18, 0x7f, 0xff, 0x100, 0x101, 0x700, 0xffff)
    linux = [list(codes) for codes in sgstatus.product(hosts=hosts, statuses=tuple(sorted(SCSI)) + (0, 0x10, 0x14, 0x20, 0x38),
                                                       suggest=(0, 0x10, 0x80)) if (codes[0], codes[1] & 0xf, codes[2]) != (0, 0, 0)]
    some = [("read", "call"), ("write", "send")]
    for kind, via in (ways if deep else some):
        yield Group("linux/%s/%s" % (kind, via), [codes + [kind, via] for codes in linux], run_linux)
        yield Group("linux ioctl/%s/%s" % (kind, via), [codes + [kind, via] for codes in linux if deep or codes[1] < 9],
                    run_linux_ioctl)
    yield Group("linux/any SCSI status", [[status, 0, 0, kind, via] for status in range(1, 256) for kind, via in ways], run_linux)
    yield Group("linux/any driver status", [[0, driver, 0, kind, via] for driver in range(1, 256) if driver & 0xf
                                            for kind, via in ways], run_linux)
    yield Group("linux/any host status", [[status, 0, host, "read", "call"] for status in (0, 8) for host in range(1, 65536)
                                          if deep or host < 512 or host % 251 == 0], run_linux)
    yield Group("solaris", [[status, reason, kind, via] for status in range(1, 256)
                            for reason in (range(256) if deep else (0, 1, 3, 0x7f, 0x80, 0xff)) for kind, via in ways], run_solaris)
    for libc in (False, True):
        name = "aix libc" if libc else "aix"
        yield Group(name + "/bus status", [[libc, 1, status, adapter, kind, via] for status in AIX_STATUSES
                                           for adapter in (0, 3) for kind, via in ways], run_aix)
        yield Group(name + "/adapter", [[libc, 2, status, adapter, kind, via] for adapter in range(256)
                                        for status in (0, 8) for kind, via in ways], run_aix)
        yield Group(name + "/validity", [[libc, validity, 0, 0, kind, via] for validity in range(3, 256)
                                         for kind, via in ways], run_aix)
        yield Group(name + "/argument", [[libc, argument, errno, via] for argument in range(0, 256) for errno in (22, 5)
                                         for via in ("call", "send")], run_aix_argument)
    yield Group("windows/status", [[status, kind, via] for status in range(1, 256) for kind, via in ways], run_windows)
    yield Group("windows/error", [[errno, kind, via] for errno in windows_errors(deep) for kind, via in some],
                run_windows_errno)
    for platform in ("linux", "ioctl", "solaris", "aix", "windows"):
        yield Group("sense/" + platform, [[platform, sense] for sense in senses(deep)], run_sense)


# what a SAM device can report, and the codes SCSI-2 devices did
AIX_STATUSES = (0x02, 0x04, 0x08, 0x10, 0x14, 0x18, 0x28, 0x30, 0x40)
