"""A model of the Linux sg v3 character device, at the level of the bytes user space writes and reads.

It parses sg_io_hdr_t with its own layout (checked against <scsi/sg.h> of this machine: see DESIGN.md) and moves data
and sense through the raw pointers found in the header, as the kernel does.
"""
import ctypes
import struct

HDR = struct.Struct("@iiBBHIPPPIIiPBBBBHHiII4x")
assert HDR.size == 88
FIELDS = ("interface_id dxfer_direction cmd_len mx_sb_len iovec_count dxfer_len dxferp cmdp sbp timeout flags pack_id "
          "usr_ptr status masked_status msg_status sb_len_wr host_status driver_status resid duration info").split()

NONE, TO_DEV, FROM_DEV = -1, -2, -3
MMAP_IO, NO_DXFER = 0x4, 0x10000        # flags: data does not go to (or come from) dxferp


class Request(object):
    def __init__(self, raw):
        self.raw = bytes(raw)
        values = HDR.unpack(self.raw)
        for name, value in zip(FIELDS, values):
            setattr(self, name, value)
        self.cdb = ctypes.string_at(self.cmdp, self.cmd_len) if self.cmd_len else b""
        self.data_out = None
        if self.dxfer_direction == TO_DEV:
            self.data_out = ctypes.string_at(self.dxferp, self.dxfer_len) if self.dxfer_len and self.moves_data else b""

    @property
    def moves_data(self):
        return not self.flags & (MMAP_IO | NO_DXFER)

    def complete(self, status=0, host_status=0, driver_status=0, data=b"", sense=b"", pack_id=None, info=None,
                 duration=7):
        """ write data/sense through the pointers, return the raw header user space reads back """
        values = dict((name, getattr(self, name)) for name in FIELDS)
        written = 0
        if self.dxfer_direction == FROM_DEV and data and self.moves_data:
            chunk = bytes(data[:self.dxfer_len])
            ctypes.memmove(self.dxferp, chunk, len(chunk))
            written = len(chunk)
        if sense:
            chunk = bytes(sense[:self.mx_sb_len])
            if self.sbp and chunk:
                ctypes.memmove(self.sbp, chunk, len(chunk))
            values["sb_len_wr"] = len(chunk)
        values["status"] = status
        values["masked_status"] = (status & 0x3e) >> 1
        values["host_status"] = host_status
        values["driver_status"] = driver_status
        values["resid"] = (self.dxfer_len - written) if self.dxfer_direction == FROM_DEV else 0
        values["duration"] = duration
        values["info"] = (1 if (status or host_status or driver_status) else 0) | (info or 0)
        if pack_id is not None:
            values["pack_id"] = pack_id
        return HDR.pack(*[values[name] for name in FIELDS])


_foreign_sense = ctypes.create_string_buffer(b"\x70" + b"\0" * 254, 255)


def foreign_response(pack_id, **fields):
    """ a response nobody asked for """
    sbp = ctypes.addressof(_foreign_sense)
    values = dict.fromkeys(FIELDS, 0)
    values.update(interface_id=ord("S"), dxfer_direction=FROM_DEV, pack_id=pack_id, sbp=sbp)
    values.update(fields)
    return HDR.pack(*[values[name] for name in FIELDS])


class SgDevice(object):
    """ the `io` object an executer is given: write() submits a command, read() fetches the next response.

    policy decides what happens:
        policy.on_write(device, request) -> None to accept, or raise
        policy.on_read(device, size) -> raw bytes of the response to hand out, or raise
    """

    def __init__(self, policy, fd=3):
        self.policy = policy
        self.fd = fd
        self.outstanding = []
        self.submitted = []
        self.reads = 0

    def write(self, raw):
        request = Request(raw)
        self.policy.on_write(self, request)
        self.submitted.append(request)
        self.outstanding.append(request)
        return len(raw)

    def read(self, size):
        self.reads += 1
        return self.policy.on_read(self, size)

    def close(self):
        pass


def fixed_sense(key, asc, ascq, info=0, length=18):
    return bytes([0x70, 0, key]) + struct.pack(">I", info) + bytes([length - 8]) + b"\0" * 4 + bytes([asc, ascq]) + \
        b"\0" * (length - 14)
