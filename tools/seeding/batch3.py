import runpy
b1 = runpy.run_path('/tmp/batch1.py'); b2 = runpy.run_path('/tmp/batch2.py')
CORE, SG, GREEN, WIN, CMD = b1['CORE'], b1['SG'], b1['GREEN'], b1['WIN'], b2['CMD']
SEEDS = [
 dict(id='S37-wait-first-round', prop='C04', needs='a callback that sends another command while wait() runs',
  breaks='wait() collects only as many responses as were outstanding when it was called',
  edits=[('__init__.py', "        while not self.is_queue_empty():\n            yield self._process_pending_response()\n", "        for _ in range(len(self.pending_packets)):\n            yield self._process_pending_response()\n")],
  demo=CORE+'''
device = Device(2)
seen = []
def again(data, error):
    seen.append(data)
    sync_call(device.send, "two", lambda data, error: seen.append(data))
sync_call(device.send, "one", again)
sync_wait(device.wait())
assert seen == ["answer of one", "answer of two"], seen
'''),
 dict(id='S38-foreign-error-dropped', prop='C05', needs='a response with a failed status whose packet id belongs to no command',
  breaks='a failed response that belongs to no command is dropped silently',
  edits=[('__init__.py', "        if request is None:\n            raise AsiInternalError(\"SCSI response doesn't appear in the pending I/O list.\")\n", "        if request is None and not isinstance(result, AsiException):\n            raise AsiInternalError(\"SCSI response doesn't appear in the pending I/O list.\")\n")],
  demo=CORE+'''
from infi.asi.errors import AsiInternalError, AsiSCSIError
device = Device(2)
sync_call(device.send, "one", lambda data, error: None)
device.extra.append((AsiSCSIError("failed"), 1))
try:
    sync_wait(device._process_pending_response())
except AsiInternalError:
    sys.exit(0)
assert 0
'''),
 dict(id='S40-residual', prop='C09', needs='a response shorter than the requested length',
  breaks='the data of a short transfer is shorter than the requested length',
  edits=[('linux.py', "            data = request_sgio.data_buffer.raw\n", "            data = request_sgio.data_buffer.raw[:request_sgio.dxfer_len - response_sgio.resid]\n")],
  demo=SG+'''
def short(sgio):
    fill(sgio, b"abcd")
    sgio.resid = 12
executer = LinuxCommandExecuter(Sg(short))
result = sync_call(executer.call, SCSIReadCommand(b"\\x12" + b"\\0" * 5, 16))
assert result == b"abcd" + b"\\0" * 12, result
'''),
 dict(id='S41-driver-sense-suggestion', prop='C10', needs='driver-reported sense together with a suggestion of the driver',
  breaks='sense reported by the driver is recognised only without a suggestion',
  edits=[('linux.py', "(response_sgio.driver_status & DRIVER_STATUS_CODES['SG_ERR_DRIVER_SENSE'] != 0):", "(response_sgio.driver_status == DRIVER_STATUS_CODES['SG_ERR_DRIVER_SENSE']):")],
  demo=SG+'''
from infi.asi.errors import AsiCheckConditionError
def answer(sgio):
    sense(sgio, fixed_sense(0x24, 0))
    sgio.status, sgio.driver_status = 0, 0x28
executer = LinuxCommandExecuter(Sg(answer))
try:
    sync_call(executer.call, SCSIReadCommand(b"\\x12" + b"\\0" * 5, 16))
except AsiCheckConditionError:
    sys.exit(0)
except AsiSCSIError as error:
    assert 0, error
'''),
 dict(id='S42-overlapped-of-file', prop='C08', needs='two asynchronous operations pending on the same file',
  breaks='the result of an operation is taken from the latest overlapped structure of its file',
  edits=[('win32.py', "            token = WinAsyncIOToken(self.handle, self._overlapped_struct, self._windows_event_handle)\n", "            token = WinAsyncIOToken(self, self._windows_event_handle)\n"),
   ('win32.py', "    def __init__(self, file_handle, overlapped_struct, event_handle):\n        self.handle = file_handle\n        self.event = event_handle\n        self.overlapped = overlapped_struct\n", "    def __init__(self, async_file, event_handle):\n        self.file = async_file\n        self.event = event_handle\n"),
   ('win32.py', "        if not kernel32.GetOverlappedResult(self.handle, byref(self.overlapped), byref(result), block):", "        if not kernel32.GetOverlappedResult(self.file.handle, byref(self.file._overlapped_struct), byref(result), block):")],
  demo=WIN+'''
import infi.asi.win32 as win32
results, waited = {}, []
class Async(Kernel32):
    def __init__(self):
        self.events, self.pending = 100, {}
    def CreateEventW(self, *args):
        self.events += 1
        return self.events
    def DeviceIoControl(self, handle, code, inp, size, out, out_size, returned, overlapped):
        self.pending[ctypes.addressof(overlapped._obj)] = code
        self.error = 997
        return 0
    def GetOverlappedResult(self, handle, overlapped, result, block):
        result._obj.value = self.pending[ctypes.addressof(overlapped._obj)]
        return 1
fake = Async()
win32.kernel32 = fake
win32.DeviceIoControl, win32.GetLastError = fake.DeviceIoControl, lambda: fake.error
win32.WaitForMultipleObjects = lambda events: 0
handle = win32.Win32AsyncFile(u"x")
def operation(code):
    result = yield handle.ioctl(code, None, 0)
    yield result.value
assert win32.Win32AsyncReactor().wait_for(operation(1), operation(2)) == [1, 2]
'''),
 dict(id='S43-duck-typed-generator', prop='C07', needs='a coroutine whose value has a method called send, such as an executer',
  breaks='values that have a send method are driven as if they were generators',
  edits=[('coroutines/sync_adapter.py', "            if isinstance(self.result, types.GeneratorType):\n", "            if hasattr(self.result, 'send'):\n")],
  demo=CORE+'''
def create():
    yield Device(1)
def use():
    device = yield create()
    yield device
assert isinstance(sync_wait(use()), Device)
'''),
 dict(id='S44-whole-seconds', prop='C15', needs='a read timeout that is not a whole number of seconds',
  breaks='the time spent is counted in whole seconds, so a read waits up to a second longer than its timeout',
  edits=[('unix.py', "            if time.time() > start_time + self._read_timeout:\n", "            if int(time.time() - start_time) > self._read_timeout:\n")],
  demo='''
import time
from infi.asi.unix import UnixFile
r, w = os.pipe()
start = time.time()
try:
    UnixFile(r, 0.2).read(10)
except IOError:
    pass
assert time.time() - start < 0.9, time.time() - start
'''),
 dict(id='S47-code-of-neighbour', prop='C17', needs='sense with one particular additional sense code',
  breaks='a code is listed under the qualifier of another one',
  edits=[('sense/asc.py', "    struct.pack(\">BB\", 0x74, 0x79): ", "    struct.pack(\">BB\", 0x74, 0x7A): ")],
  demo='''
from infi.asi.sense import get_sense_object_from_buffer
sense = get_sense_object_from_buffer(bytes(bytearray([0x70, 0, 4, 0, 0, 0, 0, 10, 0, 0, 0, 0, 0x74, 0x79, 0, 0, 0, 0])))
assert sense.additional_sense_code.code_name == "SECURITY CONFLICT IN TRANSLATED DEVICE", sense.additional_sense_code.code_name
'''),
 dict(id='S48-ioctl-retried', prop='C12', needs='an ioctl that is interrupted by a signal',
  breaks='an interrupted ioctl is issued again, so the device gets the command twice',
  edits=[('solaris.py', "        from fcntl import ioctl\n", "        from fcntl import ioctl as system_ioctl\n        import errno\n\n        def ioctl(*args):\n            while True:\n                try:\n                    return system_ioctl(*args)\n                except EnvironmentError as error:\n                    if error.errno != errno.EINTR:\n                        raise\n\n")],
  demo='''
import errno, fcntl
from infi.asi import SCSIReadCommand
from infi.asi.coroutines.sync_adapter import sync_call
from infi.asi.solaris import SolarisCommandExecuter
calls = []
def ioctl(*args):
    calls.append(args)
    if len(calls) == 1:
        raise IOError(errno.EINTR, "interrupted")
    return 0
fcntl.ioctl = ioctl
class Handle(object):
    fd = 3
try:
    sync_call(SolarisCommandExecuter(Handle()).call, SCSIReadCommand(b"\\x12" + b"\\0" * 5, 16))
except IOError:
    pass
assert len(calls) == 1, len(calls)
'''),
 dict(id='S52-response-in-executer', prop='C06', needs='two greenlets that read responses, switching right after the first read',
  breaks='the response that was read last is kept in the executer while other greenlets run',
  edits=[('linux.py', "        raw = yield gevent_friendly(self.io.read)(SGIO.sizeof())\n        yield self._handle_raw_response(raw)\n\nSG_IO", "        yield gevent_friendly(self._read_response)()\n        yield self._handle_raw_response(self._last_response)\n\n    def _read_response(self):\n        self._last_response = self.io.read(SGIO.sizeof())\n\nSG_IO")],
  demo=GREEN+SG+'''
executer = LinuxCommandExecuter(Sg(lambda sgio: fill(sgio, cdb(sgio)[-1:])))
results = {}
def use(name):
    try:
        results[name] = sync_call(executer.call, SCSIReadCommand(b"\\x12" + b"\\0" * 4 + name, 1))
    except Exception as error:
        results[name] = error
greenlets = [greenlet.greenlet(use) for _ in range(2)]
for item, name in zip(greenlets, (b"1", b"2")):
    item.switch(name)
for _ in range(4):
    for item in greenlets:
        if not item.dead:
            item.switch()
assert results == {b"1": b"1", b"2": b"2"}, results
'''),
 dict(id='S53-full-of-callbacks', prop='C02', needs='a queue filled with commands that were sent without a callback',
  breaks='commands without a callback do not count when the queue is asked whether it is full',
  edits=[('__init__.py', "    def is_queue_full(self):\n        return len(self.pending_packets) >= self.max_queue_size\n\n    def is_queue_empty", "    def is_queue_full(self):\n        return len([callback for _, callback in self.pending_packets.values() if callback]) >= self.max_queue_size\n\n    def is_queue_empty")],
  demo=CORE+'''
device = Device(2)
sync_call(device.send, "one")
sync_call(device.send, "two", lambda data, error: None)
assert device.is_queue_full()
'''),
 dict(id='S54-failed-call-forgotten', prop='C03', needs='a read that fails during a call while an older command is outstanding',
  breaks='a call whose read fails drops its command although the device will still answer it',
  edits=[('__init__.py', "        while len(result) == 0:\n            yield self._process_pending_response()\n", "        while len(result) == 0:\n            try:\n                yield self._process_pending_response()\n            except EnvironmentError:\n                if len(self.pending_packets) > 1:\n                    self.pending_packets.popitem()\n                raise\n")],
  demo=CORE+'''
device = Device(2)
seen = []
sync_call(device.send, "one", lambda data, error: seen.append(data))
receive = device._os_receive
def fail():
    raise IOError("no response")
    yield
device._os_receive = fail
try:
    sync_call(device.call, "two")
except IOError:
    pass
device._os_receive = receive
device.order = [1, 0]
sync_wait(device.wait())
assert seen == ["answer of one"], seen
'''),
 dict(id='S57-second-level-mask', prop='C27', needs='a LUN entry that uses only the second level',
  breaks='entries with second level addressing are accepted and decoded as the unit of their first level',
  edits=[('cdb/report_luns.py', "        if item & 0xFFFFFFFFFFFF: # there", "        if item & 0xFFFFFFFF: # there")],
  demo=CMD+'''
from infi.asi.cdb.report_luns import ReportLunsCommand, UnsupportedReportLuns
response = struct.pack(">LLQ", 8, 0, (1 << 48) | (1 << 32))
try:
    result = run(ReportLunsCommand(), response + b"\\0" * 16).result
except UnsupportedReportLuns:
    sys.exit(0)
assert 0, result.lun_list
'''),
 dict(id='S59-t10-identifier-length', prop='C26', needs='a T10 vendor designator followed by another designator',
  breaks='the vendor specific part of a T10 designator extends 8 bytes into the next designator',
  edits=[('cdb/inquiry/vpd_pages/designators.py', "    vendor_specific_identifier = bytearray_field(where=bytes_ref[12:4+designator_length])", "    vendor_specific_identifier = bytearray_field(where=bytes_ref[12:12+designator_length])")],
  demo='''
from infi.asi.cdb.inquiry.vpd_pages import get_vpd_page_data
t10 = b"\\x02\\x01\\0\\x0a" + b"VENDOR  ab"
port = b"\\x01\\x14\\0\\x04\\0\\0\\0\\x05"
result = get_vpd_page_data(0x83)()
result.unpack(b"\\0\\x83\\0" + bytes(bytearray([len(t10 + port)])) + t10 + port)
assert bytes(bytearray(result.designators_list[0].vendor_specific_identifier)) == b"ab", result
'''),
 dict(id='S61-enclosure-information', prop='C31', needs='an enclosure descriptor with vendor specific information',
  breaks='the last four bytes of the vendor specific information of an enclosure are decoded as type descriptors',
  edits=[('cdb/diagnostic/ses_pages/configuration.py', "where_when_unpack=bytes_ref[40:enclosure_descriptor_length + 4])", "where_when_unpack=bytes_ref[40:max(enclosure_descriptor_length, 40)])"),
   ('cdb/diagnostic/ses_pages/configuration.py', "bytearray_field, after_ref, member_func_ref, str_type)", "bytearray_field, after_ref, member_func_ref, str_type, max_ref as max)")],
  demo='''
from infi.asi.cdb.diagnostic.ses_pages import get_ses_page_data
enclosure = bytes(bytearray([0x11, 0, 1, 44])) + b"e" * 36 + b"12345678"
body = b"\\0\\0\\0\\1" + enclosure + b"\\x02\\x01\\0\\0"
result = get_ses_page_data(1)(conf_page=None)
result.unpack(b"\\1\\0\\0" + bytes(bytearray([len(body)])) + body + b"\\0" * 16)
assert [h.element_type for h in result.type_descriptor_header_list] == [2], result
'''),
 dict(id='S62-header-by-type', prop='C32', needs='a configuration with two type descriptors of the same element type and different counts',
  breaks='elements are counted by the last type descriptor of their type',
  edits=[('cdb/diagnostic/ses_pages/enclosure_status.py', "        bytes = descriptor.unpack(buffer, self.conf_page.type_descriptor_header_list[index])\n", "        headers = self.conf_page.type_descriptor_header_list\n        by_type = {header.element_type: header for header in headers}\n        bytes = descriptor.unpack(buffer, by_type[headers[index].element_type])\n")],
  demo='''
from infi.asi.cdb.diagnostic.ses_pages import get_ses_page_data
class Header(object):
    def __init__(self, kind, count):
        self.element_type, self.possible_elements_num = kind, count
class Configuration(object):
    type_descriptor_header_list = [Header(1, 1), Header(1, 2)]
body = b"\\0\\0\\0\\1" + b"\\1\\0\\0\\0" * 5
result = get_ses_page_data(2)(conf_page=Configuration)
result.unpack(b"\\2\\0\\0" + bytes(bytearray([len(body)])) + body)
assert [len(d.individual_elements) for d in result.status_descriptors] == [1, 2]
'''),
]
