import runpy
_g=runpy.run_path('/tmp/batch1.py'); CORE,SG,GREEN,WIN=_g['CORE'],_g['SG'],_g['GREEN'],_g['WIN']
CMD=runpy.run_path('/tmp/batch2.py')['CMD']
INQ_OLD = """    def execute(self, executer):
        datagram = self.create_datagram()
        result_datagram = yield executer.call(SCSIReadCommand(datagram, self.allocation_length))
        result = self.result_class()
"""
INIT_OLD = "        self.result_class = result_class\n\n" + INQ_OLD
IOCTL = '''
import ctypes, fcntl
from infi.asi import SCSIReadCommand
from infi.asi.coroutines.sync_adapter import sync_call, sync_wait
class File(object):
    fd = 3
'''
SEEDS = [
 dict(id='S63-attention-retried', prop='C35', needs='a unit attention as the answer of an INQUIRY based command',
  breaks='a unit attention condition is retried silently, so the error the device reported (and cleared by reporting it) never reaches the caller',
  edits=[('cdb/inquiry/__init__.py', "        result_datagram = yield executer.call(SCSIReadCommand(datagram, self.allocation_length))\n        result = self.result_class()\n",
  """        command = SCSIReadCommand(datagram, self.allocation_length)
        try:
            result_datagram = yield executer.call(command)
        except AsiCheckConditionError as error:
            if error.sense_obj is None or error.sense_obj.sense_key != 'UNIT_ATTENTION':
                raise
            # the condition is cleared once it has been reported
            result_datagram = yield executer.call(command)
        result = self.result_class()
"""), ('cdb/inquiry/__init__.py', "from ... import SCSIReadCommand\n", "from ... import SCSIReadCommand\nfrom ...errors import AsiCheckConditionError\n")],
  demo=SG+'''
from infi.asi.errors import AsiCheckConditionError
from infi.asi.cdb.inquiry.vpd_pages import UnitSerialNumberVPDPageCommand
answers = [bytes(bytearray([0x70, 0, 6, 0, 0, 0, 0, 10, 0, 0, 0, 0, 0x29, 0, 0, 0, 0, 0])), None]
def answer(sgio):
    item = answers.pop(0)
    if item:
        sense(sgio, item)
    else:
        fill(sgio, b"\\0\\x80\\0\\x04ABCD")
executer = LinuxCommandExecuter(Sg(answer))
try:
    result = sync_call(UnitSerialNumberVPDPageCommand().execute, executer)
except AsiCheckConditionError:
    assert len(answers) == 1
    sys.exit(0)
assert 0, result
'''),
 dict(id='S64-result-object-reused', prop='C35', needs='a command object executed twice, the first result still in use',
  breaks='a command decodes every response into the same object, so the result of an earlier execution changes',
  edits=[('cdb/inquiry/__init__.py', "        self.result_class = result_class\n\n", "        self.result = result_class()\n\n"),
         ('cdb/inquiry/__init__.py', "        result = self.result_class()\n        result.unpack(result_datagram)\n        yield result\n", "        self.result.unpack(result_datagram)\n        yield self.result\n")],
  demo=CMD+'''
from infi.asi.cdb.inquiry.vpd_pages import UnitSerialNumberVPDPageCommand
command = UnitSerialNumberVPDPageCommand()
first = run(command, b"\\0\\x80\\0\\x04ABCD").result
second = run(command, b"\\0\\x80\\0\\x04EFGH").result
assert first.product_serial_number == "ABCD", first.product_serial_number
assert second.product_serial_number == "EFGH"
'''),
 dict(id='S65-not-ready-is-false', prop='C35', needs='a TEST UNIT READY answered with a NOT READY check condition',
  breaks='TEST UNIT READY ends in False instead of the error when the device is not ready',
  edits=[('cdb/tur.py', "        yield executer.call(SCSIReadCommand(datagram, 0))\n        yield True", """        try:
            yield executer.call(SCSIReadCommand(datagram, 0))
        except AsiCheckConditionError as error:
            if error.sense_obj is not None and error.sense_obj.sense_key == 'NOT_READY':
                yield False
                return
            raise
        yield True"""), ('cdb/tur.py', "from .. import SCSIReadCommand\n", "from .. import SCSIReadCommand\nfrom ..errors import AsiCheckConditionError\n")],
  demo=SG+'''
from infi.asi.errors import AsiCheckConditionError
from infi.asi.cdb.tur import TestUnitReadyCommand
executer = LinuxCommandExecuter(Sg(lambda sgio: sense(sgio, bytes(bytearray([0x70, 0, 2, 0, 0, 0, 0, 10, 0, 0, 0, 0, 4, 1, 0, 0, 0, 0])))))
try:
    result = sync_call(TestUnitReadyCommand().execute, executer)
except AsiCheckConditionError as error:
    assert error.sense_obj.additional_sense_code.code == 4
    sys.exit(0)
assert 0, result
'''),
 dict(id='S66-sense-buffer-of-class', prop='C36', needs='check conditions on two devices, the first collected after the second command was sent',
  breaks='all requests of the process share one sense buffer, so a device gets the sense data of another',
  edits=[('linux.py', "    def init_sense_buffer(self):\n        self.sense_buffer = create_string_buffer(SENSE_SIZE)\n", "    sense_buffer = create_string_buffer(SENSE_SIZE)\n\n    def init_sense_buffer(self):\n        memset(self.sense_buffer, 0, SENSE_SIZE)\n")],
  demo=SG+'''
class Early(Sg):
    """ the device completes a command as soon as it is written """
    def write(self, raw):
        sgio = SGIO.from_string(raw)
        self.answer(sgio)
        self.queue.append(sgio.to_raw())
        return len(raw)
    def read(self, size):
        return self.queue.pop(0)
one = LinuxCommandExecuter(Early(lambda sgio: sense(sgio, fixed_sense(0x24, 0))))
two = LinuxCommandExecuter(Early(lambda sgio: sense(sgio, fixed_sense(0x3a, 1))))
seen = []
command = SCSIReadCommand(b"\\x12" + b"\\0" * 5, 16)
sync_call(one.send, command, lambda data, error: seen.append(error.sense_obj.additional_sense_code.code))
sync_call(two.send, command, lambda data, error: seen.append(error.sense_obj.additional_sense_code.code))
sync_wait(one.wait())
sync_wait(two.wait())
assert seen == [0x24, 0x3a], seen
'''),
 dict(id='S67-pending-default', prop='C36', needs='two executers with commands outstanding at the same time',
  breaks='all executers share one table of pending commands',
  edits=[('__init__.py', "    def __init__(self, max_queue_size=DEFAULT_MAX_QUEUE_SIZE):\n        self.pending_packets = dict()\n", "    def __init__(self, max_queue_size=DEFAULT_MAX_QUEUE_SIZE, pending_packets={}):\n        self.pending_packets = pending_packets\n")],
  demo=SG+'''
command = SCSIReadCommand(b"\\x12" + b"\\0" * 5, 4)
one = LinuxCommandExecuter(Sg(lambda sgio: fill(sgio, b"one.")))
two = LinuxCommandExecuter(Sg(lambda sgio: fill(sgio, b"two.")), max_queue_size=1)
seen = []
sync_call(one.send, command, lambda data, error: seen.append(data))
assert not two.is_queue_full()
sync_call(two.send, command, lambda data, error: seen.append(data))
sync_wait(two.wait())
sync_wait(one.wait())
assert seen == [b"two.", b"one."], seen
'''),
 dict(id='S68-responses-of-class', prop='C36', needs='a command sent on one device and not yet collected while another device is used',
  breaks='responses of all Solaris devices are queued in one list',
  edits=[('solaris.py', "        self.timeout = timeout\n        self.responses = []\n", "        self.timeout = timeout\n"),
         ('solaris.py', "class SolarisCommandExecuter(CommandExecuterBase):\n", "class SolarisCommandExecuter(CommandExecuterBase):\n    responses = []\n\n")],
  demo=IOCTL+'''
import infi.asi.solaris as solaris
contents = {3: b"one.", 4: b"two."}
def ioctl(fd, code, buffer):
    command = solaris.SCSICMD.from_buffer(buffer)
    ctypes.memmove(command.uscsi_bufaddr, contents[fd], 4)
fcntl.ioctl = ioctl
class Other(object):
    fd = 4
one, two = solaris.SolarisCommandExecuter(File()), solaris.SolarisCommandExecuter(Other())
seen = []
read = SCSIReadCommand(b"\\x12" + b"\\0" * 5, 4)
sync_call(one.send, read, lambda data, error: seen.append(data))
assert sync_call(two.call, read) == b"two."
sync_wait(one.wait())
assert seen == [b"one."], seen
'''),
 dict(id='S70-eio-is-status', prop='C13', needs='an ioctl that fails with EIO without any valid status, as when the path to the disk is lost',
  breaks='an ioctl that failed with EIO is always taken for a completed command, so a lost path reads as zeroes',
  edits=[('aix.py', "            elif os_data.status_validity == 0:\n", "            elif os_data.status_validity == 0 and error.errno != errno.EIO:\n"),
         ('aix.py', "        except IOError:\n            if os_data.einval_arg", "        except IOError as error:\n            if os_data.einval_arg"),
         ('aix.py', "import os\nfrom logging", "import errno\nimport os\nfrom logging")],
  demo=IOCTL+'''
import infi.asi.aix as aix
def ioctl(fd, code, buffer):
    raise IOError(5, "Input/output error")
aix.get_ioctl_function = lambda: ioctl
try:
    result = sync_call(aix.AixCommandExecuter(File()).call, SCSIReadCommand(b"\\x12" + b"\\0" * 5, 4))
except Exception:
    sys.exit(0)
assert 0, result
'''),
 dict(id='S72-cdb-group-length', prop='C14', needs='a command of 12 bytes on Windows',
  breaks='commands of 12 bytes are announced as 16 bytes long',
  edits=[('win32.py', "        spt.CdbLength = len(command.command)\n", "        spt.CdbLength = next((size for size in (6, 10) if len(command.command) <= size), sizeof(spt.Cdb))\n")],
  demo=WIN+'''
import infi.asi.win32 as win32
from infi.asi import SCSIReadCommand
from infi.asi.coroutines.sync_adapter import sync_call
lengths = []
class File(object):
    def ioctl(self, code, inp, size, out, out_size):
        lengths.append(win32.SCSIPassThroughDirect.from_buffer(inp._obj).CdbLength)
        yield None
executer = win32.Win32CommandExecuter(File())
for size in (6, 10, 12, 16):
    sync_call(executer.call, SCSIReadCommand(b"\\xa8" + b"\\0" * (size - 1), 4))
assert lengths == [6, 10, 12, 16], lengths
'''),
 dict(id='S74-yield-before-keeping', prop='C06', needs='two greenlets sharing an ioctl executer, the second collecting while the first is about to keep its response',
  breaks='control is offered to other greenlets between the ioctl and the moment its response is kept',
  edits=[('__init__.py', "        return_value = func(*args, **kwargs)\n        _gevent_friendly_sleep(0)\n        return return_value\n", "        # let others run before a call that may take long\n        _gevent_friendly_sleep(0)\n        return func(*args, **kwargs)\n")],
  demo=IOCTL+GREEN+'''
from infi.asi.linux import LinuxIoctlCommandExecuter, SGIO
def ioctl(fd, code, buffer):
    sgio = SGIO.from_buffer(buffer)
    ctypes.memmove(sgio.dxferp, ctypes.string_at(sgio.cmdp, 1) * 4, 4)
fcntl.ioctl = ioctl
executer = LinuxIoctlCommandExecuter(File(), max_queue_size=2)
results = {}
def worker(name):
    try:
        results[name] = sync_call(executer.call, SCSIReadCommand(name + b"\\0" * 5, 4))
    except Exception as error:
        results[name] = error
workers = [greenlet.greenlet(worker), greenlet.greenlet(worker)]
names = [b"a", b"b"]
for number in (0, 1, 1, 1, 1, 0, 0, 0, 1, 0):
    if not workers[number].dead:
        workers[number].switch(*([names[number]] if not workers[number] else []))
for number in (0, 1) * 8:
    if not workers[number].dead:
        workers[number].switch()
assert results == {b"a": b"aaaa", b"b": b"bbbb"}, results
'''),
 dict(id='S75-report-luns-hex', prop='C27', needs='unsupported addressing allowed and a LUN with second level addressing',
  breaks='when multi-level addressing is allowed only the last level of a LUN survives',
  edits=[('cdb/report_luns.py', "        self.lun_list = [item >> 48 for item in self.lun_list]", "        self.lun_list = [self._collapse(item) for item in self.lun_list]"),
   ('cdb/report_luns.py', "    def normalize_lun_list(self, allow", "    def _collapse(self, item):\n        while item & 0xFFFF == 0 and item:\n            item >>= 16\n        return item & 0xFFFF\n\n    def normalize_lun_list(self, allow")],
  demo=CMD+'''
from infi.asi.cdb.report_luns import ReportLunsCommand
response = struct.pack(">LLQQ", 16, 0, 5 << 48, (7 << 48) | (9 << 32))
result = run(ReportLunsCommand(allow_unsupported_addressing_format=True), response).result
assert result.lun_list == [5, 7], result.lun_list
'''),
 dict(id='S76-pr-in-truncated-keys', prop='C29', needs='a READ KEYS response cut by the allocation length',
  breaks='the keys of a truncated READ KEYS response are dropped or made up from padding',
  edits=[('cdb/persist/input.py', "                          unpack_if=input_buffer_length >= additional_length + 8)\n", "                          unpack_if=input_buffer_length > 8)\n")],
  demo=CMD+'''
from infi.asi.cdb.persist.input import PersistentReserveInReadKeysResponse as Response
response = Response()
response.unpack(struct.pack(">LLQL", 3, 32, 1, 2))
assert not response.key_list, response.key_list
'''),
 dict(id='S77-descriptor-length-only', prop='C28', needs='a target port group response with bytes after its last descriptor',
  breaks='bytes after the declared length are decoded as further target port groups',
  edits=[('cdb/rtpg.py', "    descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[4:4 + data_length])", "    descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[4:])")],
  demo=CMD+'''
from infi.asi.cdb.rtpg import RTPGCommand
group = struct.pack(">BBHBBBBHH", 1, 0, 7, 0, 0, 0, 1, 0, 5)
response = struct.pack(">L", len(group)) + group
result = run(RTPGCommand(allocation_length=64), response + b"\\0" * (64 - len(response))).result
assert [item.target_port_group for item in result.descriptor_list] == [7], len(result.descriptor_list)
'''),
 dict(id='S78-secondary-header-count', prop='C31', needs='more than one enclosure in the configuration page',
  breaks='the number of enclosures counts secondary subenclosures only, once there are any',
  edits=[('cdb/diagnostic/ses_pages/configuration.py', "                                           n=secondary_subenclosures_num + 1)\n", "                                           n=max_ref(secondary_subenclosures_num, 1))\n")],
  demo='assert 0'),
 dict(id='S79-unknown-pages-command', prop='C33', needs='the page code of an unknown page requested after another unknown page',
  breaks='commands for unknown pages are kept under their low nibble',
  edits=[('cdb/inquiry/vpd_pages/__init__.py', "def get_vpd_page(page_code):\n    return SUPPORTED_VPD_PAGES_COMMANDS.get(page_code, UnknownVPDPageCommand(page_code))\n",
  "_unknown_pages = {}\n\n\ndef get_vpd_page(page_code):\n    if page_code in SUPPORTED_VPD_PAGES_COMMANDS:\n        return SUPPORTED_VPD_PAGES_COMMANDS[page_code]\n    return _unknown_pages.setdefault(page_code & 0x7f, UnknownVPDPageCommand(page_code))\n")],
  demo=CMD+'''
from infi.asi.cdb.inquiry.vpd_pages import get_vpd_page
for code in (0x41, 0xc1):
    assert sent(get_vpd_page(code)())[2:3] == bytes(bytearray([code])), code
'''),
 dict(id='S80-capacity-16-length', prop='C30', needs='a capacity of more than 2**63 blocks',
  breaks='the last block address of READ CAPACITY (16) is signed',
  edits=[('cdb/read_capacity.py', "X", "Y")],
  demo='assert 0'),
]
SEEDS = [s for s in SEEDS if s['id'][:3] not in ('S78','S80')]
