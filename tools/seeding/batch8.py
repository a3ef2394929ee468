import runpy
_g=runpy.run_path('/tmp/batch1.py'); CORE,SG,GREEN,WIN=_g['CORE'],_g['SG'],_g['GREEN'],_g['WIN']
CMD=runpy.run_path('/tmp/batch2.py')['CMD']
IOCTL=runpy.run_path('/tmp/batch4.py')['IOCTL']
SEEDS = [
 dict(id='S110-repr-shows-data', prop='C40', needs='looking at the request of a command without data',
  breaks='the text of a Linux request shows its data, so a request without a data buffer can not be shown',
  edits=[('linux.py', '''                "resid={self.resid}, duration={self.duration}, info={self.info})").format(self=self)''',
   '''                "resid={self.resid}, duration={self.duration}, info={self.info}, " +
                "data={self.data_buffer.raw!r})").format(self=self)''')],
  demo=SG+'''
assert "pack_id=3" in repr(SGIO.create(3, SCSIReadCommand(b"\\x12" + b"\\0" * 5, 4)))
assert "pack_id=3" in repr(SGIO.create(3, SCSIWriteCommand(b"\\x2a" + b"\\0" * 9, b"abcd")))
assert "pack_id=3" in repr(SGIO.create(3, SCSIReadCommand(b"\\0" * 6, 0)))
'''),
 dict(id='S111-debug-sense-key', prop='C40', needs='debug logging, and a check condition whose sense data can not be decoded',
  breaks='with debug logging the sense key of a check condition is logged, which fails when the sense data has none',
  edits=[('linux.py', '''            logger.debug("response_sgio.driver_status = 0x{:x}".format(response_sgio.driver_status))
            return (self._check_condition(string_at(response_sgio.sbp, SENSE_SIZE)), packet_id)
''', '''            logger.debug("response_sgio.driver_status = 0x{:x}".format(response_sgio.driver_status))
            error = self._check_condition(string_at(response_sgio.sbp, SENSE_SIZE))
            if logger.isEnabledFor(10):
                logger.debug("sense key = {}".format(error.sense_obj.sense_key))
            return (error, packet_id)
''')],
  demo=SG+'''
import logging
from infi.asi.errors import AsiCheckConditionError
def attempt(data):
    executer = LinuxCommandExecuter(Sg(lambda sgio: sense(sgio, data)))
    try:
        sync_call(executer.call, SCSIReadCommand(b"\\x12" + b"\\0" * 5, 4))
    except AsiCheckConditionError as error:
        return error.sense_buffer[:len(data)]
    assert 0
for level in (logging.WARNING, logging.DEBUG):
    logging.basicConfig()
    logging.getLogger().setLevel(level)
    assert attempt(fixed_sense(0x25, 0)) == fixed_sense(0x25, 0)
    assert attempt(b"\\x12\\x34") == b"\\x12\\x34"
'''),
 dict(id='S112-one-extended-byte', prop='C24', needs='standard INQUIRY data whose additional length is 32..36',
  breaks='the first five bytes of extended INQUIRY data are dropped when nothing follows them',
  edits=[('cdb/inquiry/standard.py', "                            unpack_if=additional_length > (36 - 5))\n", "                            unpack_if=additional_length > 36)\n")],
  demo=CMD+'''
from infi.asi.cdb.inquiry.standard import StandardInquiryCommand
for length in range(31, 60):
    raw = bytes(bytearray([0, 0, 5, 2, length, 0, 0, 0])) + b"VENDOR  PRODUCT         0001" + bytes(bytearray(range(1, 100)))
    result = run(StandardInquiryCommand(allocation_length=length + 5), raw[:length + 5]).result
    if length == 31:
        assert result.extended is None
    else:
        got = bytes(result.extended.vendor_specific_1)
        assert got == bytes(bytearray(range(1, 100)))[:min(20, length - 31)], (length, got)
'''),
 dict(id='S113-ioctl-conflict', prop='C11', needs='a reservation conflict on a command sent through the Linux ioctl executer',
  breaks='the ioctl executer reports every failed status as a plain SCSI error',
  edits=[('linux.py', '''        raw = yield self.responses.pop(0)
        yield self._handle_raw_response(raw)''', '''        raw = yield self.responses.pop(0)
        result, packet_id = self._handle_raw_response(raw)
        if isinstance(result, AsiReservationConflictError):
            # the ioctl has completed, there is nothing to wait for
            result = AsiSCSIError("SCSI_STATUS_RESERVATION_CONFLICT 0x18")
        yield (result, packet_id)''')],
  demo=IOCTL+'''
from infi.asi.linux import LinuxIoctlCommandExecuter, SGIO
from infi.asi.errors import AsiReservationConflictError
def fake(fd, number, buffer, *rest):
    SGIO.from_buffer(buffer).status = 0x18
    return 0
fcntl.ioctl = fake
try:
    sync_call(LinuxIoctlCommandExecuter(File()).call, SCSIReadCommand(b"\\x12" + b"\\0" * 5, 4))
except AsiReservationConflictError:
    sys.exit(0)
assert 0
'''),
 dict(id='S114-first-lun-format', prop='C27', needs='a list of logical units in which only a later one uses an unsupported addressing format',
  breaks='the addressing format is checked only for the first listed logical unit; the others are returned as wrong numbers',
  edits=[('cdb/report_luns.py', '''            for item in self.lun_list:
                self._raise_if_unsupported_lun_addressing_format(item)
''', '''            for item in self.lun_list[:1]:
                self._raise_if_unsupported_lun_addressing_format(item)
''')],
  demo=CMD+'''
import struct
from infi.asi.cdb.report_luns import ReportLunsCommand, UnsupportedReportLuns
def luns(*items):
    raw = struct.pack(">II", 8 * len(items), 0) + b"".join(struct.pack(">Q", item) for item in items)
    return run(ReportLunsCommand(), raw + b"\\0" * (16384 - len(raw))).result.lun_list
assert luns(0, 5 << 48, 0x3fff << 48) == [0, 5, 0x3fff]
for items in ([0x40 << 56], [0, 0x40 << 56], [0, 1 << 48, (2 << 48) + 1]):
    try:
        got = luns(*items)
    except UnsupportedReportLuns:
        continue
    assert 0, got
'''),
 dict(id='S115-wait-returns-early', prop='C04', needs='a callback that sends another command while wait() runs',
  breaks='wait() answers as many commands as were outstanding when it was called; what callbacks sent meanwhile stays outstanding',
  edits=[('__init__.py', '''        while not self.is_queue_empty():
            yield self._process_pending_response()
''', '''        for _ in range(len(self.pending_packets)):
            yield self._process_pending_response()
''')],
  demo=CORE+'''
device = Device(3)
got = []
def again(data, error):
    got.append(data)
    if len(got) < 4:
        sync_call(device.send, "more %d" % len(got), again)
sync_call(device.send, "first", again)
sync_call(device.wait)
assert device.is_queue_empty()
assert got == ["answer of first", "answer of more 1", "answer of more 2", "answer of more 3"], got
'''),
 dict(id='S116-interrupt-not-delivered', prop='C07', needs='a greenlet exit or keyboard interrupt raised inside a nested coroutine',
  breaks='exceptions that are no Exception pass by the callers of a nested coroutine: their finally and except clauses do not run in place',
  edits=[('coroutines/sync_adapter.py', """        except BaseException as e:
            self.stack.pop()
            if len(self.stack) == 0:
                raise
""", """        except BaseException as e:
            self.stack.pop()
            if len(self.stack) == 0 or not isinstance(e, Exception):
                # the caller is being ended
                raise
""")],
  demo=CMD+"""
def inner():
    yield 1
    raise KeyboardInterrupt()
seen = []
def outer():
    try:
        yield inner()
    except KeyboardInterrupt:
        seen.append("caught")
    yield "result"
def run_it():
    return sync_call(outer)
try:
    assert run_it() == "result"
except KeyboardInterrupt:
    assert 0, "passed by"
assert seen == ["caught"]
"""),
 dict(id='S117-foreign-error-first', prop='C01', needs='a failed command answered while other commands of the same queue are outstanding, in another order',
  breaks='a failed response is handed to the oldest outstanding command',
  edits=[('__init__.py', """        request, callback = self.pending_packets.pop(packet_id, (None, None))
""", """        if isinstance(result, AsiReservationConflictError):
            # the device refuses everything until the reservation is gone, in the order of submission
            packet_id = next(iter(self.pending_packets), packet_id)
        request, callback = self.pending_packets.pop(packet_id, (None, None))
"""), ('__init__.py', "from .errors import AsiException, ", "from .errors import AsiReservationConflictError, AsiException, ")],
  demo=SG+"""
from infi.asi.errors import AsiReservationConflictError
def answer(sgio):
    if cdb(sgio)[1:2] == b"\\x02":
        sgio.status = 0x18
    else:
        fill(sgio, cdb(sgio)[1:2])
executer = LinuxCommandExecuter(Sg(answer, pick=lambda queue: len(queue) - 1))
got = {}
for number in (1, 2, 3):
    command = SCSIReadCommand(bytes(bytearray([0x12, number, 0, 0, 0, 0])), 1)
    sync_call(executer.send, command, lambda data, error, number=number: got.__setitem__(number, (data, error)))
sync_call(executer.wait)
assert got[1] == (b"\\x01", None) and got[3] == (b"\\x03", None), got
assert isinstance(got[2][1], AsiReservationConflictError)
"""),
 dict(id='S118-group-status-shared-read', prop='C28', needs='a group with no target ports before another group',
  breaks='a target port group without ports is taken as the end of the list',
  edits=[('cdb/rtpg.py', '''class TargetPortGroupLengthOnlyResponse(Buffer):
    data_length = be_uint_field(where=bytes_ref[0:4])
    descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[4:4 + data_length])
''', '''class TargetPortGroupLengthOnlyResponse(Buffer):
    data_length = be_uint_field(where=bytes_ref[0:4])
    descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[4:4 + data_length])

    def unpack(self, buffer):
        result = super(TargetPortGroupLengthOnlyResponse, self).unpack(buffer)
        for index, descriptor in enumerate(self.descriptor_list):
            if descriptor.target_port_count == 0:
                self.descriptor_list = self.descriptor_list[:index]
                break
        return result
''')], demo=CMD+'''
from infi.asi.cdb.rtpg import RTPGCommand
def group(number, *ports):
    return (bytes(bytearray([0, 0, 0, number, 0, 0, 0, len(ports)])) +
            b"".join(bytes(bytearray([0, 0, 0, port])) for port in ports))
def decode(*groups):
    raw = b"".join(groups)
    raw = struct.pack(">I", len(raw)) + raw
    result = run(RTPGCommand(), raw + b"\\0" * (16384 - len(raw))).result
    return [(g.target_port_group, [p.relative_target_port_identifier for p in (g.target_port_list or [])]) for g in result.descriptor_list]
assert decode(group(1, 5, 6), group(2, 7)) == [(1, [5, 6]), (2, [7])]
assert decode(group(1, 5, 6), group(2), group(3, 7)) == [(1, [5, 6]), (2, []), (3, [7])]
'''),
]
