"""The synchronous view of every platform backend: an executer over a simulated device.

A device gets every submission as a Submission (parsed from the raw request, with the layout of the platform's headers
and through the raw pointers in it) and asks its `answer` function what happens: a dict with status / host / driver /
data / sense / transferred ..., or an int: the errno the system call fails with.
"""
import ctypes
import struct

from . import fakeioctl                     # before the code under test
from . import load  # noqa
from .core import require, Violation
from .fakesg import Request as SgRequest, HDR, TO_DEV, FROM_DEV, NONE

IN, OUT, NO_DATA = "in", "out", "none"
SENSE = 255


class Submission(object):
    def __init__(self, cdb, direction, data_out, length, timeout, sense_length, request):
        self.cdb = cdb
        self.direction = direction
        self.data_out = data_out
        self.length = length
        self.timeout = timeout
        self.sense_length = sense_length
        self.request = request


class Device(object):
    def __init__(self, answer=None):
        self.answer = answer or (lambda submission: {})
        self.submissions = []

    def submit(self, submission):
        self.submissions.append(submission)
        return self.answer(submission)


def from_sg(request):
    require(request.interface_id == ord("S"), "sg interface id %d" % request.interface_id)
    require(request.iovec_count == 0, "sg iovec count %d" % request.iovec_count)
    require(request.sbp != 0 or not request.mx_sb_len, "no sense buffer")
    direction = {NONE: NO_DATA, TO_DEV: OUT, FROM_DEV: IN}.get(request.dxfer_direction)
    require(direction is not None, "sg direction %d" % request.dxfer_direction)
    length = 0 if direction == NO_DATA else request.dxfer_len
    require(length == 0 or request.dxferp, "a transfer of %d bytes without a buffer" % length)
    return Submission(request.cdb, direction, request.data_out, length, request.timeout, request.mx_sb_len, request)


def complete_sg(request, answer):
    return request.complete(status=answer.get("status", 0), host_status=answer.get("host", 0),
                            driver_status=answer.get("driver", 0), data=answer.get("data", b""),
                            sense=answer.get("sense", b""), info=answer.get("info"), duration=answer.get("duration", 7))


# --- Linux: sg read/write ----------------------------------------------------------------------------------------------
class SgFile(Device):
    """ first in, first out unless `order` picks otherwise """
    fd = 3

    def __init__(self, answer=None, order=None):
        Device.__init__(self, answer)
        self.outstanding = []
        self.order = order or (lambda outstanding: 0)

    def write(self, raw):
        require(len(raw) == HDR.size, "write of %d bytes to the sg device" % len(raw))
        submission = from_sg(SgRequest(raw))
        self.submissions.append(submission)
        self.outstanding.append(submission)
        return len(raw)

    def read(self, size):
        require(size == HDR.size, "read of %d bytes from the sg device" % size)
        require(self.outstanding, "read from the sg device with nothing outstanding")
        submission = self.outstanding.pop(self.order(self.outstanding))
        answer = self.answer(submission)
        if isinstance(answer, int):
            raise OSError(answer, "injected")
        return complete_sg(submission.request, answer)

    def close(self):
        pass


def linux_sg(device, **kwargs):
    from infi.asi.linux import LinuxCommandExecuter
    return LinuxCommandExecuter(device, **kwargs)


# --- ioctl backends ----------------------------------------------------------------------------------------------------
class IoctlFile(Device):
    def __init__(self, answer=None):
        Device.__init__(self, answer)
        self.fd = fakeioctl.new_fd(self)

    def fileno(self):
        return self.fd

    def close(self):
        pass


class SgIoctlFile(IoctlFile):
    SG_IO = 0x2285

    def on_ioctl(self, number, address):
        require(number == self.SG_IO, "ioctl %#x" % number)
        request = SgRequest(ctypes.string_at(address, HDR.size))
        answer = self.submit(from_sg(request))
        if isinstance(answer, int):
            return answer
        raw = complete_sg(request, answer)
        ctypes.memmove(address, raw, len(raw))
        return 0


def linux_ioctl(device, **kwargs):
    from infi.asi.linux import LinuxIoctlCommandExecuter
    return LinuxIoctlCommandExecuter(device, **kwargs)


class UscsiFile(IoctlFile):
    """ struct uscsi_cmd of a 64-bit little-endian Solaris, <sys/scsi/impl/uscsi.h> """
    USCSICMD = (0x04 << 8) | 201
    LAYOUT = struct.Struct("<iBBhQQQQBBBB4xQQ")
    FIELDS = "flags status reason timeout cdb bufaddr buflen resid cdblen rqlen rqstatus rqresid rqbuf path".split()
    READ, DIAGNOSE, RQENABLE = 0x8, 0x2, 0x10000
    RESETS = 0x1000 | 0x2000 | 0x4000 | 0x8000 | 0x20000 | 0x40000

    def on_ioctl(self, number, address):
        require(number == self.USCSICMD, "ioctl %#x" % number)
        values = dict(zip(self.FIELDS, self.LAYOUT.unpack(ctypes.string_at(address, self.LAYOUT.size))))
        flags = values["flags"]
        require(not flags & self.RESETS, "uscsi flags %#x reset devices or buses" % flags)
        length = values["buflen"]
        direction = NO_DATA if not length else (IN if flags & self.READ else OUT)
        require(length == 0 or values["bufaddr"], "a transfer of %d bytes without a buffer" % length)
        data_out = ctypes.string_at(values["bufaddr"], length) if direction == OUT else None
        cdb = ctypes.string_at(values["cdb"], values["cdblen"])
        sense_length = values["rqlen"] if flags & self.RQENABLE and values["rqbuf"] else 0
        answer = self.submit(Submission(cdb, direction, data_out, length, values["timeout"], sense_length, values))
        if isinstance(answer, int):
            return answer
        values["status"] = answer.get("status", 0)
        values["reason"] = answer.get("reason", 0)
        values["rqstatus"] = answer.get("rqstatus", 0)
        data = answer.get("data", b"")[:length] if direction == IN else b""
        if data:
            ctypes.memmove(values["bufaddr"], data, len(data))
        values["resid"] = length - len(data) if direction == IN else 0
        sense = answer.get("sense", b"")[:sense_length]
        if sense:
            ctypes.memmove(values["rqbuf"], sense, len(sense))
        values["rqresid"] = sense_length - len(sense)
        raw = self.LAYOUT.pack(*[values[name] for name in self.FIELDS])
        ctypes.memmove(address, raw, len(raw))
        return answer.get("errno", 0)


def solaris(device, **kwargs):
    from infi.asi.solaris import SolarisCommandExecuter
    return SolarisCommandExecuter(device, **kwargs)


class PassthruFile(IoctlFile):
    """ struct sc_passthru of a 64-bit AIX (natural alignment), <sys/scsi_buf.h> """
    DK_PASSTHRU = 23
    LAYOUT = struct.Struct("=HBBBBBBBBBBBxHHHIQQQQQ64sQQI4xQQ")
    FIELDS = ("version validity bus_status adap_status_type adapter_status set_flags add_device_status q_status "
              "q_tag_msg flags devflags q_flags command_length einval_arg autosense_length timeout data_length scsi_id "
              "lun_id buffer autosense cdb wwn node_name variable_length variable_cdb residual").split()
    B_READ = 1

    def on_ioctl(self, number, address):
        require(number == self.DK_PASSTHRU, "ioctl %d" % number)
        values = dict(zip(self.FIELDS, self.LAYOUT.unpack(ctypes.string_at(address, self.LAYOUT.size))))
        require(values["version"] == 2, "sc_passthru version %d" % values["version"])
        require(values["command_length"] <= 64, "command length %d" % values["command_length"])
        require(not any(values["cdb"][values["command_length"]:]), "bytes after the CDB")
        length = values["data_length"]
        direction = NO_DATA if not length else (IN if values["flags"] & self.B_READ else OUT)
        require(length == 0 or values["buffer"], "a transfer of %d bytes without a buffer" % length)
        data_out = ctypes.string_at(values["buffer"], length) if direction == OUT else None
        sense_length = values["autosense_length"] if values["autosense"] else 0
        answer = self.submit(Submission(values["cdb"][:values["command_length"]], direction, data_out, length,
                                        values["timeout"], sense_length, values))
        if isinstance(answer, int):
            return answer
        for field in ("validity", "bus_status", "adapter_status", "adap_status_type", "einval_arg"):
            values[field] = answer.get(field, values[field])
        data = answer.get("data", b"")[:length] if direction == IN else b""
        if data:
            ctypes.memmove(values["buffer"], data, len(data))
        values["residual"] = length - len(data) if direction == IN else 0
        sense = answer.get("sense", b"")[:sense_length]
        if sense:
            ctypes.memmove(values["autosense"], sense, len(sense))
            values["set_flags"] |= 1
        raw = self.LAYOUT.pack(*[values[name] for name in self.FIELDS])
        ctypes.memmove(address, raw, len(raw))
        return answer.get("errno", 0)


assert UscsiFile.LAYOUT.size == 64
assert PassthruFile.LAYOUT.size == 168, PassthruFile.LAYOUT.size


def aix(device, **kwargs):
    from infi.asi.aix import AixCommandExecuter
    return AixCommandExecuter(device, **kwargs)


# --- Windows -----------------------------------------------------------------------------------------------------------
class WinPolicy(Device):
    """ policy of the simulated kernel32; `file` is the Win32File under test """
    HANDLE = 0x44

    def __init__(self, answer=None):
        Device.__init__(self, answer)
        from . import fakewin
        self.fakewin = fakewin
        self.opened = []
        self.closed = []
        fakewin.kernel32.policy = self
        self.file = fakewin.win32.Win32File("\\\\.\\PHYSICALDRIVE1")

    def on_create_file(self, path, access, share, disposition, flags):
        self.opened.append((path, access, share, disposition, flags))
        return self.HANDLE

    def on_close(self, handle):
        self.closed.append(handle)
        return 0

    def on_ioctl(self, handle, code, in_address, in_size, out_address, out_size, event):
        fakewin = self.fakewin
        require(handle == self.HANDLE, "DeviceIoControl on handle %#x" % handle)
        require(code == fakewin.IOCTL_SCSI_PASS_THROUGH_DIRECT, "DeviceIoControl %#x" % code)
        require(event is None, "overlapped DeviceIoControl on a synchronous file")
        require(in_address == out_address and in_size == out_size, "the request is not where the answer belongs")
        request = fakewin.SptRequest(in_address, in_size)
        direction = {fakewin.DATA_IN: IN, fakewin.DATA_OUT: OUT, fakewin.UNSPECIFIED: NO_DATA}.get(request.DataIn)
        require(direction is not None, "DataIn %d" % request.DataIn)
        if direction == NO_DATA:
            require(request.DataTransferLength == 0, "a transfer without direction")
        require(request.DataTransferLength == 0 or request.DataBuffer, "a transfer without a buffer")
        answer = self.submit(Submission(request.cdb, direction, request.data_out, request.DataTransferLength,
                                        request.TimeOutValue, request.SenseInfoLength, request))
        if isinstance(answer, int):
            return answer
        request.complete(status=answer.get("status", 0), data=answer.get("data", b""), sense=answer.get("sense", b""),
                         transferred=answer.get("transferred"))
        return 0


def windows(policy, **kwargs):
    return policy.fakewin.win32.Win32CommandExecuter(policy.file, **kwargs)


# --- shared pieces of the checks ---------------------------------------------------------------------------------------
def pattern(length, seed=1):
    if length > 1 << 16:
        return (pattern(65533, seed) * (length // 65533 + 1))[:length]
    return bytes(((index * 7 + (index >> 8) * 3 + seed * 31) & 0xff) for index in range(length))


def make_command(kind, cdb, amount):
    """ amount: response length of a read, payload of a write """
    from infi.asi import SCSIReadCommand, SCSIWriteCommand
    if kind == "write":
        return SCSIWriteCommand(cdb, amount)
    return SCSIReadCommand(cdb, amount if kind == "read" else 0)


def check_submission(submission, kind, cdb, amount, sense=SENSE):
    """ what reached the device is exactly the command given """
    require(submission.cdb == cdb, "CDB %s was given, %s reached the device" % (cdb.hex(), submission.cdb.hex()))
    if kind == "read" and amount:
        require(submission.direction == IN, "direction of a read: %s" % submission.direction)
        require(submission.length == amount, "a response of %d bytes was asked for, the buffer has %d" %
                (amount, submission.length))
    elif kind == "write" and amount:
        require(submission.direction == OUT, "direction of a write: %s" % submission.direction)
        require(submission.data_out == amount, "payload %s was given, %s reached the device" %
                (amount[:40].hex(), submission.data_out[:40].hex()))
    else:
        require(submission.length == 0, "a command without data moves %d bytes" % submission.length)
        require(kind == "write" or submission.direction == NO_DATA, "direction without data: %s" % submission.direction)
    if sense is not None:
        require(submission.sense_length == sense, "sense buffer of %d bytes" % submission.sense_length)


def outcome_of(executer, command, via):
    """ ("data", x) or ("error", exception), through call() or through send() and wait() """
    from infi.asi.coroutines.sync_adapter import sync_wait
    if via == "call":
        try:
            return "data", sync_wait(executer.call(command))
        except Violation:
            raise
        except Exception as error:
            return "error", error
    got = []
    try:
        sync_wait(executer.send(command, callback=lambda data, error: got.append((data, error))))
        sync_wait(executer.wait())
    except Violation:
        raise
    except Exception as error:
        require(not got, "the callback was called and %r raised as well" % (error,))
        return "error", error
    require(len(got) == 1, "the callback was called %d times" % len(got))
    data, error = got[0]
    if error is not None:
        require(data is None, "data %r together with an error" % (data,))
        return "error", error
    return "data", data


def check_data(outcome, kind, amount, stored):
    """ the bytes the device stored, as long as asked for """
    what, value = outcome
    require(what == "data", "a command that succeeded on the device raised %r" % (value,))
    if kind == "read" and amount:
        require(isinstance(value, bytes) and len(value) == amount, "a response of %d bytes was asked for, got %r" %
                (amount, value if value is None else len(value)))
        require(value[:len(stored)] == stored, "the device stored %s, got %s" % (stored[:40].hex(), value[:40].hex()))
        # what the device did not store is not filled with something else
        require(not any(value[len(stored):]), "the device stored %d bytes, the %d bytes of the response are %s" %
                (len(stored), amount, value[:80].hex()))
    else:
        require(not value, "data %r from a command that reads none" % (value,))


def check_sense(error, sense):
    from infi.asi.errors import AsiCheckConditionError
    require(isinstance(error, AsiCheckConditionError), "a check condition surfaced as %r" % (error,))
    raw = bytes(error.sense_buffer)
    require(raw[:len(sense)] == sense and not any(raw[len(sense):]), "sense %s was reported, the error carries %s" %
            (sense.hex(), raw.hex()))


def submission_cases(small=True, max_cdb=16):
    """ commands every backend has to pass on: (kind, cdb, amount) as JSON """
    for length in range(17, max_cdb + 1):
        yield [("read", "write", "none")[length % 3], pattern(length, length).hex(), 8]
    for kind in ("read", "write", "none"):
        for length in range(1, 17):
            yield [kind, pattern(length, length).hex(), 8]
    for length in (6, 10, 12, 16):
        for position in range(length):
            for value in range(256):
                for background in (0, 0xff):
                    cdb = bytearray([background]) * length
                    cdb[position] = value
                    yield ["read" if value & 1 else "write", bytes(cdb).hex(), 4]
    lengths = list(range(0, 130)) + [252, 255, 256, 257, 511, 512, 513, 4095, 4096, 4097, 65535, 65536,
                                    65537, 1 << 17, (1 << 20) + 1, (1 << 24) + 1, (1 << 25) + 3]
    if not small:
        lengths += list(range(130, 1100)) + [(1 << 20) - 1, 1 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 1]
    for kind in ("read", "write"):
        for length in lengths:
            yield [kind, pattern(10, length & 0xff).hex(), length]


def short_cases(deep=False):
    """ the device stores less than was asked for: (amount, stored) """
    top = 64 if deep else 24
    cases = [[amount, stored] for amount in range(1, top) for stored in range(amount + 1)]
    for amount in (255, 256, 512, 4096, 65536):
        cases += [[amount, stored] for stored in (0, 1, 4, 36, 254, 255, 256, 511, 4095, amount - 1) if stored < amount]
    return cases


def payload_cases():
    """ every byte value at every position of short payloads / responses """
    for kind in ("read", "write"):
        for length in (1, 2, 3, 8):
            for position in range(length):
                for value in range(256):
                    data = bytearray(b"\x5a" * length)
                    data[position] = value
                    yield [kind, bytes(data).hex()]


def split_args(arg):
    kind, cdb, amount = arg
    cdb = bytes.fromhex(cdb)
    if kind == "write":
        return kind, cdb, pattern(amount, 5), b""
    return kind, cdb, amount, (pattern(amount, 9) if kind == "read" else b"")
