import runpy
_g=runpy.run_path('/tmp/batch1.py'); CORE,SG,GREEN,WIN=_g['CORE'],_g['SG'],_g['GREEN'],_g['WIN']
CMD=runpy.run_path('/tmp/batch2.py')['CMD']
IOCTL=runpy.run_path('/tmp/batch4.py')['IOCTL']
SEEDS = [
 dict(id='S92-id-of-a-byte', prop='C01', needs='more than 256 commands outstanding on one Linux executer',
  breaks='packet ids are cut to a byte on their way to the device, so responses reach the wrong commands',
  edits=[('linux.py', "        sgio.pack_id = pack_id\n", "        sgio.pack_id = pack_id & 0xff\n")],
  demo=SG+'''
def run(count):
    executer = LinuxCommandExecuter(Sg(lambda sgio: fill(sgio, cdb(sgio)[1:4])), max_queue_size=count)
    got = {}
    for number in range(count):
        command = SCSIReadCommand(bytes(bytearray([8, 0, number >> 8, number & 255, 1, 0])), 3)
        sync_wait(executer.send(command, lambda data, error, number=number: got.setdefault(number, (data, error))))
    sync_wait(executer.wait())
    for number in range(count):
        assert got[number] == (bytes(bytearray([0, number >> 8, number & 255])), None), (number, got.get(number))
run(200)
run(300)
'''),
 dict(id='S93-close-forgets-handle', prop='C16', needs='a CloseHandle that fails, and another attempt to close the file',
  breaks='a failed close of a Windows file marks the file as closed, so the handle is never closed',
  edits=[('win32.py', "        if not CloseHandle(c_void_p(self.handle)):\n            raise AsiWin32OSError(GetLastError(), \"CloseHandle for path %s failed\" % self.path)\n        self.handle = -1\n",
   "        handle, self.handle = self.handle, -1\n        if not CloseHandle(c_void_p(handle)):\n            raise AsiWin32OSError(GetLastError(), \"CloseHandle for path %s failed\" % self.path)\n")],
  demo=WIN+'''
from infi.asi import win32
closed = []
def close(handle):
    closed.append(handle)
    return len(closed) != 1
win32.CloseHandle = close
target = win32.Win32File("x")
try:
    target.close()
    assert False, "a failed close passed"
except win32.AsiWin32OSError:
    pass
target.close()
target.close()
assert len(closed) == 2, len(closed)
'''),
 dict(id='S94-no-nested-processing', prop='C04', needs='a call made by the callback of another command',
  breaks='responses are not processed while a callback runs, so a call made from a callback never ends',
  edits=[('__init__.py', "        if self.is_queue_empty():\n            yield False\n", "        if self.is_queue_empty() or self.delivering:\n            yield False\n            return\n"),
         ('__init__.py', "            if isinstance(result, Exception):\n                callback(None, result)\n            else:\n                callback(result, None)\n",
          "            self.delivering = True\n            try:\n                if isinstance(result, Exception):\n                    callback(None, result)\n                else:\n                    callback(result, None)\n            finally:\n                self.delivering = False\n"),
         ('__init__.py', "        self.packet_index = 0\n", "        self.packet_index = 0\n        self.delivering = False\n")],
  demo=CORE+'''
import signal
signal.alarm(20)
device = Device(2)
got = []
def callback(data, error):
    got.append(data)
    got.append(sync_call(device.call, "second"))
sync_wait(device.send("first", callback))
sync_wait(device.wait())
assert got == ["answer of first", "answer of second"], got
'''),
 dict(id='S95-sector-buffers', prop='C09', needs='a transfer longer than a page that is no multiple of 512',
  breaks='buffers above a page are rounded up to sectors, so the device is given a larger buffer than asked for',
  edits=[('linux.py', "                sgio.set_data_buffer(create_string_buffer(command.max_response_length))\n            else:\n                sgio.dxfer_direction = SG_DXFER_NONE",
   "                length = command.max_response_length\n                if length > 4096:\n                    length = (length + 511) // 512 * 512    # direct I/O wants whole sectors\n                sgio.set_data_buffer(create_string_buffer(length))\n            else:\n                sgio.dxfer_direction = SG_DXFER_NONE")],
  demo=SG+'''
def run(size):
    lengths = []
    data = sync_call(LinuxCommandExecuter(Sg(lambda sgio: lengths.append(sgio.dxfer_len))).call, SCSIReadCommand(b"\\x12" + b"\\0" * 5, size))
    assert lengths == [size] and len(data) == size, (size, lengths, len(data))
run(100)
run(8192)
run(5000)
'''),
 dict(id='S96-failure-drops-responses', prop='C11', needs='an ioctl that fails while the response of an earlier command was not collected',
  breaks='an ioctl failure drops the responses of the commands before it',
  edits=[('linux.py', "        ioctl(self.io.fd, SG_IO, buffer)\n", "        try:\n            ioctl(self.io.fd, SG_IO, buffer)\n        except (IOError, OSError):\n            self.responses = []     # nothing is outstanding any more\n            raise\n")],
  demo=IOCTL+'''
from infi.asi.linux import LinuxIoctlCommandExecuter, SGIO
fail = []
def ioctl(fd, request, buf, *args):
    if fail:
        raise OSError(fail.pop(), "injected")
    return 0
fcntl.ioctl = ioctl
executer = LinuxIoctlCommandExecuter(File(), max_queue_size=3)
got = []
command = SCSIReadCommand(b"\\x12" + b"\\0" * 5, 4)
sync_wait(executer.send(command, lambda data, error: got.append((data, error))))
fail.append(12)
try:
    sync_wait(executer.send(command))
    assert False, "the failure is lost"
except OSError:
    pass
sync_wait(executer.wait())
assert got == [(b"\\0" * 4, None)], got
'''),
 dict(id='S97-interrupted-read', prop='C15', needs='a descriptor whose read fails (EINTR, EAGAIN, EIO) after it became readable',
  breaks='a failing read is reported as end of data',
  edits=[('unix.py', "        return os.read(self.fd, size)\n", "        try:\n            return os.read(self.fd, size)\n        except BlockingIOError:\n            return b''      # somebody else was faster\n")],
  demo='''
from infi.asi.unix import UnixFile
r, w = os.pipe()
os.write(w, b"abc")
assert UnixFile(r, 1).read(10) == b"abc"
import infi.asi.unix as unix
class Os(object):
    read = staticmethod(lambda fd, size: (_ for _ in ()).throw(BlockingIOError(11, "x")))
unix.os = Os()
class Select(object):
    select = staticmethod(lambda a, b, c, t: (a, [], []))
unix.select = Select()
try:
    data = UnixFile(r, 1).read(10)
except OSError as error:
    assert error.errno == 11
else:
    assert False, data
'''),
 dict(id='S98-compare-blocks-wrap', prop='C19', needs='a COMPARE AND WRITE of more than 255 blocks',
  breaks='the number of blocks wraps instead of being refused',
  edits=[('cdb/compare_and_write.py', "        self.number_of_logical_blocks = number_of_logical_blocks\n", "        self.number_of_logical_blocks = number_of_logical_blocks % 2 ** 8\n")],
  demo=CMD+'''
from infi.asi.cdb.compare_and_write import CompareAndWriteCommand
assert sent(CompareAndWriteCommand(1, b"x" * 1024, 1))[13] == 1
for count in (256, 257):
    try:
        sent(CompareAndWriteCommand(1, b"x" * 1024, count))
    except Exception:
        continue
    assert False, "%d blocks are not refused" % count
'''),
 dict(id='S99-page-zero-not-valid', prop='C21', needs='RECEIVE DIAGNOSTIC RESULTS of page 0 (supported pages)',
  breaks='page code valid is not set for page 0, so the device answers with the results of the last SEND DIAGNOSTIC instead of the supported pages',
  edits=[('cdb/diagnostic/__init__.py', "        self.conf_page = conf_page\n", "        self.conf_page = conf_page\n        if not self.page_code:\n            self.pcv = 0\n")],
  demo=CMD+'''
from infi.asi.cdb.diagnostic.ses_pages import *
from infi.asi.cdb.diagnostic.ses_pages.supported_pages import SupportedDiagnosticPagesCommand
from infi.asi.cdb.diagnostic.ses_pages.configuration import ConfigurationDiagnosticPagesCommand
def cdb(command):
    recorder = Recorder(b"\\0" * 8)
    try:
        sync_call(command.execute, recorder)
    except Exception:
        pass
    return bytearray(bytes(recorder.commands[0].command))
assert cdb(ConfigurationDiagnosticPagesCommand())[1:3] == b"\\x01\\x01"
assert cdb(SupportedDiagnosticPagesCommand())[1:3] == b"\\x01\\x00"
'''),
 dict(id='S100-aptpl-register-only', prop='C22', needs='REGISTER AND IGNORE EXISTING KEY that activates persistence through power loss',
  breaks='the activate persist through power loss flag is sent with REGISTER only, though it is defined for REGISTER AND IGNORE EXISTING KEY as well',
  edits=[('cdb/persist/output.py', "        parameter_list_buffer = parameter_list_buffer_class(\n", "        if service_action not in (PERSISTENT_RESERVE_OUT_SERVICE_ACTION_CODES.REGISTER,\n                                  PERSISTENT_RESERVE_OUT_SERVICE_ACTION_CODES.REGISTER_AND_MOVE):\n            kwargs.pop('activate_persist_through_power_loss', None)\n        parameter_list_buffer = parameter_list_buffer_class(\n"),
    ('cdb/persist/output.py', "            reservation_key=reservation_key, service_action_reservation_key=service_action_reservation_key, **kwargs)\n", "            reservation_key=reservation_key,\n            service_action_reservation_key=service_action_reservation_key, **kwargs)\n")],
  demo=CMD+'''
from infi.asi.cdb.persist.output import PersistentReserveOutCommand
def flags(action):
    return bytearray(bytes(run(PersistentReserveOutCommand(action, 1, 2, activate_persist_through_power_loss=1)).commands[0].data))[20]
assert flags(0) == 1
assert flags(6) == 1
'''),
 dict(id='S101-unmap-consumes', prop='C23', needs='an UNMAP command with several ranges that is executed twice',
  breaks='executing the command uses up its descriptors, so the second execution unmaps less',
  edits=[('cdb/unmap.py', "        datagram = self.create_datagram()\n        result_datagram = yield executer.call(SCSIWriteCommand(datagram, self.buffer))\n        yield result_datagram\n",
     "        datagram = self.create_datagram()\n        buffer = self.header_obj.datagram\n        while self.unmap_ubjects:\n            buffer += self.unmap_ubjects.pop(0).datagram\n        result_datagram = yield executer.call(SCSIWriteCommand(datagram, buffer))\n        yield result_datagram\n")],
  demo=CMD+'''
from infi.asi.cdb.unmap import UnmapCommand
command = UnmapCommand([(1, 2), (3, 4)])
first = bytes(run(command).commands[0].data)
assert len(first) == 40
second = bytes(run(command).commands[0].data)
assert first == second, (len(first), len(second))
'''),
 dict(id='S102-short-inquiry-flags', prop='C24', needs='standard inquiry data whose byte 6 or 7 has flags set while the additional length is the minimum',
  breaks='vendor specific data of exactly the minimum length is dropped',
  edits=[],
  demo=''),
 dict(id='S103-unmap-count-unlimited', prop='C25', needs='a maximum unmap LBA count of ffffffff (no limit)',
  breaks='no limit is reported as a limit of zero blocks',
  edits=[('cdb/inquiry/vpd_pages/block_limits.py', "    maximum_unmap_lba_count = be_uint_field(where=bytes_ref[20:24])\n", "    unmap_lba_count = be_uint_field(where=bytes_ref[20:24])\n"),
         ('cdb/inquiry/vpd_pages/block_limits.py', "    maximum_write_same_length = be_uint_field(where=bytes_ref[36:44])\n", "    maximum_write_same_length = be_uint_field(where=bytes_ref[36:44])\n\n    @property\n    def maximum_unmap_lba_count(self):\n        # ffffffffh: no limit\n        return (self.unmap_lba_count + 1) % 2 ** 32 and self.unmap_lba_count\n")],
  demo=CMD+'''
from infi.asi.cdb.inquiry.vpd_pages.block_limits import BlockLimitsVPDPageBuffer
def count(raw):
    page = BlockLimitsVPDPageBuffer()
    page.unpack(bytes(bytearray([0, 0xb0, 0, 0x3c]) + bytearray(16) + raw + bytearray(40)))
    return page.maximum_unmap_lba_count
assert count(b"\\0\\0\\1\\0") == 256
assert count(b"\\xff\\xff\\xff\\xff") == 0xffffffff
'''),
 dict(id='S104-lowest-aligned-msb', prop='C30', needs='a lowest aligned LBA with bit 13 set, or the reserved protection types',
  breaks='the highest bit of the lowest aligned LBA is decoded as the thin provisioning flag',
  edits=[('cdb/read_capacity.py', "            BitField(\"lowest_aligned_lba_msb\", 6, 0),\n            BitFlag(\"troz\", 0),\n            BitFlag(\"tpe\", 0),\n            ),", "            BitField(\"lowest_aligned_lba_msb\", 5, 0),\n            BitPadding(1),\n            BitFlag(\"troz\", 0),\n            BitFlag(\"tpe\", 0),\n            ),")],
  demo=CMD+'''
from infi.asi.cdb.read_capacity import ReadCapacity16Command
def msb(value):
    return run(ReadCapacity16Command(), bytes(bytearray(14) + bytearray([value, 0]) + bytearray(16))).result.lowest_aligned_lba_msb
assert msb(0x1f) == 0x1f
assert msb(0x3f) == 0x3f, msb(0x3f)
'''),
 dict(id='S105-all-ports-no-port', prop='C29', needs='a full status descriptor of one port that follows one of all target ports',
  breaks='the all target ports flag of the first descriptor is applied to the others',
  edits=[('cdb/persist/input.py', "    def required_allocation_length(self):\n        return self.additional_length + 8\n\n\nclass PersistentReserveInCommand(CDBBuffer):", "    def required_allocation_length(self):\n        return self.additional_length + 8\n\n    def unpack(self, buffer):\n        size = super(PersistentReserveInReadFullStatusResponse, self).unpack(buffer)\n        seen = {}\n        for descriptor in self.full_status_descriptors or []:\n            # one registration per I_T nexus\n            first = seen.setdefault(descriptor.reservation_key, descriptor)\n            descriptor.all_target_ports = first.all_target_ports\n        return size\n\n\nclass PersistentReserveInCommand(CDBBuffer):")],
  demo=CMD+'''
from infi.asi.cdb.persist.input import PersistentReserveInCommand
def descriptor(key, flags):
    return bytearray(7) + bytearray([key]) + bytearray(4) + bytearray([flags, 5]) + bytearray(6) + bytearray([0, 0, 0, 24]) + bytearray(24)
def flags(*pairs):
    body = b"".join(bytes(descriptor(*pair)) for pair in pairs)
    response = b"\\0" * 4 + struct.pack(">I", len(body)) + body
    return [d.all_target_ports for d in run(PersistentReserveInCommand(3), response).result.full_status_descriptors]
assert flags((1, 2), (2, 0)) == [1, 0]
assert flags((1, 2), (1, 0)) == [1, 0]
'''),
 dict(id='S106-no-sense-no-error', prop='C10', needs='a CHECK CONDITION without sense data',
  breaks='a check condition that comes without sense data ends as another kind of error',
  edits=[('linux.py', "        if (response_sgio.status & SCSI_STATUS_CODES['SCSI_STATUS_CHECK_CONDITION']) != 0 or \\\n", "        if (response_sgio.status & SCSI_STATUS_CODES['SCSI_STATUS_CHECK_CONDITION']) != 0 and response_sgio.sb_len_wr or \\\n")],
  demo=SG+'''
from infi.asi.errors import AsiCheckConditionError
def run(length):
    def answer(sgio):
        sgio.status, sgio.sb_len_wr = 2, length
    try:
        sync_call(LinuxCommandExecuter(Sg(answer)).call, SCSIReadCommand(b"\\x12" + b"\\0" * 5, 4))
    except AsiSCSIError as error:
        return error
assert isinstance(run(18), AsiCheckConditionError)
assert isinstance(run(0), AsiCheckConditionError), run(0)
'''),
 dict(id='S107-write-same-no-blocks', prop='C20', needs='WRITE SAME with a number of blocks of zero (up to the last block)',
  breaks='zero blocks, which means up to the end of the medium, is sent as one block',
  edits=[('cdb/write_same.py', "        self.number_of_blocks = number_of_blocks\n        assert self.logical_block_address < 2 ** 64", "        self.number_of_blocks = number_of_blocks or 1\n        assert self.logical_block_address < 2 ** 64")],
  demo=CMD+'''
from infi.asi.cdb.write_same import WriteSame16Command
assert sent(WriteSame16Command(1, b"x" * 512, 3))[10:14] == b"\\0\\0\\0\\3"
assert sent(WriteSame16Command(1, b"x" * 512, 0))[10:14] == b"\\0\\0\\0\\0"
'''),
 dict(id='S108-request-sense-status-read-only', prop='C12', needs='a write whose request sense status is not zero',
  breaks='a non-zero request sense status fails reads only',
  edits=[('solaris.py', "        if response_cmd.uscsi_rqstatus != 0:\n", "        if response_cmd.uscsi_rqstatus != 0 and response_cmd.uscsi_flags & USCSI_READ:\n")],
  demo=IOCTL+'''
from infi.asi import SCSIWriteCommand
from infi.asi.solaris import SolarisCommandExecuter, SCSICMD
from infi.asi.errors import AsiSCSIError
def ioctl(fd, request, buf, *args):
    SCSICMD.from_buffer(buf).uscsi_rqstatus = 2
    return 0
fcntl.ioctl = ioctl
def fails(command):
    try:
        sync_call(SolarisCommandExecuter(File()).call, command)
    except AsiSCSIError:
        return True
assert fails(SCSIReadCommand(b"\\x12" + b"\\0" * 5, 4))
assert fails(SCSIWriteCommand(b"\\x0a" + b"\\0" * 5, b"abcd"))
'''),
 dict(id='S109-descriptor-without-id', prop='C34', needs='a designator descriptor of length zero in the last position',
  breaks='decoding of a page whose last descriptor is cut off goes on for ever',
  edits=[],
  demo=''),
]
SEEDS=[s for s in SEEDS if s['edits']]
