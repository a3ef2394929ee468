"""The part of kernel32 infi.asi.win32 uses, simulated on 64-bit Linux; imports the module with it.

c_ulong is 4 bytes on Windows, so the module is imported with ctypes.c_ulong = c_uint32.
"""
import ctypes
import struct
import threading

from . import load  # noqa
from .core import require, HarnessError

ERROR_IO_PENDING = 997
ERROR_IO_INCOMPLETE = 996
IOCTL_SCSI_PASS_THROUGH_DIRECT = 0x4D014
SPTD = struct.Struct("<HBBBBBBB3xII4xQI16s4x")     # x64 SCSI_PASS_THROUGH_DIRECT
assert SPTD.size == 56
FIELDS = ("Length ScsiStatus PathId TargetId Lun CdbLength SenseInfoLength DataIn DataTransferLength TimeOutValue "
          "DataBuffer SenseInfoOffset Cdb").split()
DATA_OUT, DATA_IN, UNSPECIFIED = 0, 1, 2
WAIT_TIMEOUT = 258


def address(thing):
    if thing is None:
        return 0
    if isinstance(thing, int):
        return thing
    if hasattr(thing, "_obj"):
        return ctypes.addressof(thing._obj)
    if isinstance(thing, ctypes.c_void_p):
        return thing.value or 0
    if isinstance(thing, (ctypes.Array, ctypes.Structure)):
        return ctypes.addressof(thing)
    return ctypes.cast(thing, ctypes.c_void_p).value


def integer(thing):
    return getattr(thing, "value", thing) or 0


class SptRequest(object):
    """ a SCSI_PASS_THROUGH_DIRECT request as the kernel sees it """

    def __init__(self, base, size):
        require(size >= SPTD.size, "DeviceIoControl with a request of %d bytes" % size)
        self.base = base
        self.size = size
        for name, value in zip(FIELDS, SPTD.unpack(ctypes.string_at(base, SPTD.size))):
            setattr(self, name, value)
        require(self.Length == SPTD.size, "the request announces a length of %d" % self.Length)
        require(self.CdbLength <= 16, "CDB length %d" % self.CdbLength)
        require(self.SenseInfoOffset >= SPTD.size and self.SenseInfoOffset + self.SenseInfoLength <= size,
                "the sense buffer (%d bytes at %d) lies outside the %d byte request" %
                (self.SenseInfoLength, self.SenseInfoOffset, size))
        self.cdb = self.Cdb[:self.CdbLength]
        self.data_out = None
        if self.DataIn == DATA_OUT:
            self.data_out = ctypes.string_at(self.DataBuffer, self.DataTransferLength)

    def complete(self, status=0, data=b"", sense=b"", transferred=None):
        values = dict((name, getattr(self, name)) for name in FIELDS)
        values["ScsiStatus"] = status
        if self.DataIn == DATA_IN:
            chunk = bytes(data[:self.DataTransferLength])
            if chunk:
                ctypes.memmove(self.DataBuffer, chunk, len(chunk))
            values["DataTransferLength"] = len(chunk) if transferred is None else transferred
        if sense:
            chunk = bytes(sense[:self.SenseInfoLength])
            ctypes.memmove(self.base + self.SenseInfoOffset, chunk, len(chunk))
            values["SenseInfoLength"] = len(chunk)
        ctypes.memmove(self.base, SPTD.pack(*[values[name] for name in FIELDS]), SPTD.size)


MAXIMUM_WAIT_OBJECTS = 64
ERROR_INVALID_PARAMETER = 87


class Kernel32(object):
    """ dispatches to the current `policy`:

    policy.on_create_file(path, access, share, disposition, flags) -> handle, or an error number (negative)
    policy.on_close(handle) -> error number or 0
    policy.on_ioctl(handle, code, in_address, in_size, out_address, out_size, overlapped) -> error number or 0
    policy.on_wait(events) -> index or WAIT_TIMEOUT
    policy.on_result(event, wait) -> (error number or 0, transferred)
    """

    def __init__(self):
        self.policy = None
        self.thread = threading.local()
        self.next_event = 0x1000
        self.events = []              # open event objects

    @property
    def last_error(self):
        return getattr(self.thread, "error", 0)

    @last_error.setter
    def last_error(self, error):
        self.thread.error = error

    def GetLastError(self):
        return self.last_error

    def FormatMessageA(self, flags, source, message_id, language, buf, size, arguments):
        if integer(message_id) & 0xffff >= 0x8000:
            self.last_error = 317                       # ERROR_MR_MID_NOT_FOUND
            return 0
        text = b"error text %d\r\n" % integer(message_id)
        ctypes.memmove(address(buf), text + b"\0", len(text) + 1)
        return len(text)

    def CreateFileW(self, path, access, share, security, disposition, flags, template):
        result = self.policy.on_create_file(path, integer(access), integer(share), integer(disposition), integer(flags))
        if result < 0:
            self.last_error = -result
            return -1
        return result

    def CloseHandle(self, handle):
        if integer(handle) in self.events:
            self.events.remove(integer(handle))
            return self.finish(0)
        require(self.policy is None or not 0x1000 < integer(handle) <= self.next_event, "an event handle is closed twice")
        return self.finish(self.policy.on_close(integer(handle)) if self.policy else 0)

    def finish(self, error):
        if error:
            self.last_error = error
            return 0
        return 1                      # success leaves the last error of the thread as it was

    def DeviceIoControl(self, handle, code, input, input_size, output, output_size, returned, overlapped):
        event = None
        if overlapped is not None:
            event = self.overlapped_event(overlapped)
        error = self.policy.on_ioctl(integer(handle), integer(code), address(input), integer(input_size),
                                     address(output), integer(output_size), event)
        if event is None:
            require(returned is not None, "synchronous DeviceIoControl without a place for the byte count")
            ctypes.memmove(address(returned), struct.pack("<I", 0 if error else integer(output_size)), 4)
        return self.finish(error)

    @staticmethod
    def overlapped_event(overlapped):
        holder = getattr(overlapped, "_obj", overlapped)
        raw = ctypes.string_at(ctypes.addressof(holder), ctypes.sizeof(holder))
        # PPLLP: 32 bytes on Windows, 40 here where a long has 8 (plus the zero c_buffer appends)
        offset = 24 if len(raw) in (32, 33) else 32
        return struct.unpack("P", raw[offset:offset + 8])[0]

    def CreateEventW(self, security, manual, initial, name):
        self.next_event += 4
        self.events.append(self.next_event)
        require(not initial, "an event created as already signaled")
        return self.next_event

    def WaitForMultipleObjects(self, count, array, wait_all, timeout):
        events = list(struct.unpack("%dP" % count, ctypes.string_at(address(array), 8 * count)))
        require(not wait_all, "waiting for all events at once")
        require(0 < integer(timeout), "waiting without time")
        if not 0 < count <= MAXIMUM_WAIT_OBJECTS:
            self.last_error = ERROR_INVALID_PARAMETER
            return -1                        # WAIT_FAILED as ctypes returns it
        return self.policy.on_wait(events)

    def GetOverlappedResult(self, handle, overlapped, transferred, wait):
        error, count = self.policy.on_result(self.overlapped_event(overlapped), bool(wait))
        ctypes.memmove(address(transferred), struct.pack("<I", count), 4)
        return self.finish(error)


kernel32 = Kernel32()


def import_win32():
    class WinDll(object):
        pass
    windll = WinDll()
    windll.kernel32 = kernel32
    saved = ctypes.c_ulong
    had = getattr(ctypes, "windll", None)
    ctypes.windll = windll
    ctypes.c_ulong = ctypes.c_uint32
    try:
        import infi.asi.win32 as module
    finally:
        ctypes.c_ulong = saved
        if had is None:
            del ctypes.windll
        else:
            ctypes.windll = had
    if ctypes.sizeof(module.c_ulong) != 4:
        raise HarnessError("infi.asi.win32 was imported before the simulation")
    return module


win32 = import_win32()
