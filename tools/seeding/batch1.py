CORE = '''
from infi.asi import CommandExecuterBase, SCSIReadCommand, SCSIWriteCommand
from infi.asi.coroutines.sync_adapter import sync_call, sync_wait

class Device(CommandExecuterBase):
    """ an executer whose responses are given by the test: self.order decides which id is answered next """
    def __init__(self, max_queue_size):
        super(Device, self).__init__(max_queue_size)
        self.sent, self.order, self.extra, self.fail = {}, [], [], None
    def _os_prepare_to_send(self, command, packet_index):
        return (packet_index, command)
    def _os_send(self, os_data):
        if self.fail:
            raise self.fail
        assert os_data[0] not in self.sent, "packet id shared"
        self.sent[os_data[0]] = os_data[1]
        yield 0
    def _os_receive(self):
        if self.extra:
            yield (self.extra.pop(0)); return
        index = self.order.pop(0) if self.order else sorted(self.sent)[0]
        yield ("answer of " + self.sent.pop(index), index)
'''
GREEN = '''
import types, greenlet
main = greenlet.getcurrent()
if "gevent" not in sys.modules:
    gevent = sys.modules["gevent"] = types.ModuleType("gevent")
def switch(seconds=0):
    if greenlet.getcurrent() is not main:
        main.switch()
sys.modules["gevent"].sleep = switch
infi.asi._gevent_friendly_sleep = switch
'''
SG = '''
import ctypes
from infi.asi import SCSIReadCommand, SCSIWriteCommand
from infi.asi.linux import SGIO, LinuxCommandExecuter
from infi.asi.coroutines.sync_adapter import sync_call, sync_wait
from infi.asi.errors import AsiSCSIError

class Sg(object):
    """ a fake sg device: answer(sgio) fills in the response of the oldest request (or the one chosen by pick) """
    def __init__(self, answer, pick=lambda queue: 0):
        self.queue, self.answer, self.pick = [], answer, pick
    def write(self, raw):
        self.queue.append(raw)
        return len(raw)
    def read(self, size):
        sgio = SGIO.from_string(self.queue.pop(self.pick(self.queue)))
        self.answer(sgio)
        return sgio.to_raw()

def fill(sgio, data):
    ctypes.memmove(sgio.dxferp, data, len(data))
def sense(sgio, data):
    ctypes.memmove(sgio.sbp, data, len(data))
    sgio.status = 2
def cdb(sgio):
    return ctypes.string_at(sgio.cmdp, sgio.cmd_len)
def fixed_sense(asc, ascq):
    return bytes(bytearray([0x70, 0, 5, 0, 0, 0, 0, 10, 0, 0, 0, 0, asc, ascq, 0, 0, 0, 0]))
'''
WIN = '''
import ctypes, struct
class Kernel32(object):
    error = 0
    def __getattr__(self, name):
        return lambda *args: 0
    def GetLastError(self):
        return self.error
    def CreateFileW(self, *args):
        return 7
    def CloseHandle(self, handle):
        return 1
kernel32 = Kernel32()
class WinDll(object):
    pass
ctypes.windll = WinDll()
ctypes.windll.kernel32 = kernel32
c_ulong, ctypes.c_ulong = ctypes.c_ulong, ctypes.c_uint32
'''
SEEDS = [
 dict(id='S01-buffer-pool', prop='C01', needs='a read answered with fewer bytes than requested after an earlier read of the same size',
  breaks='data buffers are recycled without being cleared, so a response carries bytes of an earlier command',
  edits=[('linux.py', "class SGIO(Structure):\n", "_free_data_buffers = {}  # size -> buffers of completed commands\n\n\ndef acquire_data_buffer(size):\n    free = _free_data_buffers.setdefault(size, [])\n    return free.pop() if free else create_string_buffer(size)\n\n\ndef release_data_buffer(buf):\n    _free_data_buffers.setdefault(sizeof(buf), []).append(buf)\n\n\nclass SGIO(Structure):\n"),
   ('linux.py', "sgio.set_data_buffer(create_string_buffer(command.max_response_length))", "sgio.set_data_buffer(acquire_data_buffer(command.max_response_length))"),
   ('linux.py', "            data = request_sgio.data_buffer.raw\n", "            data = request_sgio.data_buffer.raw\n            release_data_buffer(request_sgio.data_buffer)\n")],
  demo=SG+'''
answers = [b"A" * 16, b"B" * 4]
executer = LinuxCommandExecuter(Sg(lambda sgio: fill(sgio, answers.pop(0))))
assert sync_call(executer.call, SCSIReadCommand(b"\\x12" + b"\\0" * 5, 16)) == b"A" * 16
second = sync_call(executer.call, SCSIReadCommand(b"\\x12" + b"\\0" * 5, 16))
assert second == b"B" * 4 + b"\\0" * 12, second
'''),
 dict(id='S02-queue-full-next-index', prop='C02', needs='commands that complete out of order while the queue is not full',
  breaks='is_queue_full reports a full queue although there is room, when the next packet index is still in use',
  edits=[('__init__.py', "    def is_queue_full(self):\n        return len(self.pending_packets) >= self.max_queue_size\n\n    def is_queue_empty", "    def is_queue_full(self):\n        return self.packet_index in self.pending_packets\n\n    def is_queue_empty")],
  demo=CORE+'''
device = Device(2)
seen = []
cb = lambda data, error: seen.append((data, error))
sync_call(device.send, "one", cb)
sync_call(device.send, "two", cb)
assert device.is_queue_full()
device.order = [1]
sync_wait(device._process_pending_response())
assert seen == [("answer of two", None)]
assert not device.is_queue_full()
'''),
 dict(id='S03-send-baseexception', prop='C03', needs='the write is interrupted by an exception that is not an Exception (KeyboardInterrupt, a gevent timeout)',
  breaks='the slot of a command whose write was interrupted stays occupied',
  edits=[('__init__.py', "            yield self._os_send(os_data)\n        except:\n", "            yield self._os_send(os_data)\n        except Exception:\n")],
  demo=CORE+'''
device = Device(1)
device.fail = KeyboardInterrupt()
try:
    sync_call(device.send, "one", None)
except KeyboardInterrupt:
    pass
else:
    assert False
device.fail = None
assert not device.is_queue_full()
assert sync_call(device.call, "two") == "answer of two"
'''),
 dict(id='S04-slot-freed-after-callback', prop='C04', needs='a callback that raises, or that sends another command into a full queue',
  breaks='the slot of a command is freed only after its callback returned',
  edits=[('__init__.py', "        request, callback = self.pending_packets.pop(packet_id, (None, None))\n", "        request, callback = self.pending_packets.get(packet_id, (None, None))\n"),
         ('__init__.py', "                callback(result, None)\n\n        yield True", "                callback(result, None)\n        del self.pending_packets[packet_id]\n\n        yield True")],
  demo=CORE+'''
device = Device(1)
seen = []
def again(data, error):
    seen.append(data)
    sync_call(device.send, "two", lambda data, error: seen.append(data))
sync_call(device.send, "one", again)
sync_call(device.wait)
assert seen == ["answer of one", "answer of two"], seen
'''),
 dict(id='S05-id-wraps', prop='C05', needs='a response whose packet id is beyond the queue size',
  breaks='a stray response is delivered to an outstanding command whose index is the same modulo the queue size',
  edits=[('__init__.py', "        request, callback = self.pending_packets.pop(packet_id, (None, None))\n", "        request, callback = self.pending_packets.pop(packet_id % self.max_queue_size, (None, None))\n")],
  demo=CORE+'''
from infi.asi.errors import AsiInternalError
device = Device(2)
seen = []
sync_call(device.send, "one", lambda data, error: seen.append(data))
device.extra = [("stray", 2)]
try:
    sync_call(device.wait)
except AsiInternalError:
    pass
else:
    assert False, seen
sync_call(device.wait)
assert seen == ["answer of one"]
'''),
 dict(id='S06-shared-call-results', prop='C06', needs='two greenlets inside call() of one executer at the same time, with responses in another order than the calls',
  breaks='call() returns the first answer that arrived for any call, not its own',
  edits=[('__init__.py', "        self.packet_index = 0\n\n", "        self.packet_index = 0\n        self.call_results = []\n\n"),
   ('__init__.py', "        result = []\n        def my_cb(data, exception):\n            result.append((data, exception))\n", "        def my_cb(data, exception):\n            self.call_results.append((data, exception))\n"),
   ('__init__.py', "        while len(result) == 0:\n", "        while len(self.call_results) == 0:\n"),
   ('__init__.py', "        data, exception = result[0]\n", "        data, exception = self.call_results.pop(0)\n")],
  demo=GREEN+CORE+'''
class GreenDevice(Device):
    def _os_send(self, os_data):
        self.sent[os_data[0]] = os_data[1]
        switch()
        yield 0
    def _os_receive(self):
        index = self.order.pop(0)
        yield "answer of " + self.sent.pop(index), index
device = GreenDevice(2)
device.order = [1, 0]
results = {}
def run(name):
    results[name] = sync_call(device.call, name)
greenlets = [greenlet.greenlet(lambda: run("one")), greenlet.greenlet(lambda: run("two"))]
while any(not g.dead for g in greenlets):
    for g in greenlets:
        if not g.dead:
            g.switch()
assert results == {"one": "answer of one", "two": "answer of two"}, results
'''),
 dict(id='S07-falsy-value', prop='C07', needs='a generator that yields a falsy value other than None',
  breaks='the value is replaced by None',
  edits=[('coroutines/sync_adapter.py', "            else:\n                self.args = self.result\n", "            else:\n                self.args = self.result or None\n")],
  demo='''
from infi.asi.coroutines.sync_adapter import sync_wait
def nested():
    yield b""
def main():
    got = yield nested()
    yield (got,)
assert sync_wait(main()) == (b"",)
'''),
 dict(id='S08-completion-order', prop='C08', needs='pending operations that complete in another order than their commands were given',
  breaks='results are returned in completion order',
  edits=[('win32.py', "        for command in commands:\n            results.append(results_dict[command])\n        return results\n", "        for command, result in results_dict.items():\n            results.append(result)\n        return results\n")],
  demo=WIN+'''
events, pending, done = [], [], []
Kernel32.CreateEventW = lambda self, *args: events.append(0x100 + 4 * len(events)) or events[-1]
def ioctl(self, handle, code, *args):
    pending.append(events[-1])
    self.error = 997
    return 0
Kernel32.DeviceIoControl = ioctl
def wait(self, count, array, wait_all, timeout):
    waiting = struct.unpack("%dP" % count, ctypes.string_at(array._obj, 8 * count))
    last = max(waiting)         # the last operation completes first
    return waiting.index(last)
Kernel32.WaitForMultipleObjects = wait
Kernel32.GetOverlappedResult = lambda self, *args: 1
from infi.asi import win32
def command(name):
    yield win32.Win32AsyncFile("x").ioctl(1, None, 0)
    yield name
assert win32.Win32AsyncReactor().wait_for(command("one"), command("two"), command("three")) == ["one", "two", "three"]
'''),
 dict(id='S09-shared-sense-buffer', prop='C06', needs='two greenlets whose commands both end with sense data, the second response read while the first greenlet offers control',
  breaks='all commands share one sense buffer, so the sense data of one is overwritten by another',
  edits=[('linux.py', "        self.sense_buffer = create_string_buffer(SENSE_SIZE)\n", "        self.sense_buffer = _SENSE_BUFFER\n        memset(self.sense_buffer, 0, SENSE_SIZE)\n"),
   ('linux.py', "SENSE_SIZE = 0xFF\n", "SENSE_SIZE = 0xFF\n_SENSE_BUFFER = create_string_buffer(SENSE_SIZE)\n")],
  demo=GREEN+SG+'''
def answer(sgio):
    sense(sgio, fixed_sense(0x20 + cdb(sgio)[1], 0))
executer = LinuxCommandExecuter(Sg(answer))
seen = {}
def run(name):
    def callback(data, error):
        seen[name] = error
    sync_call(executer.send, SCSIReadCommand(bytes(bytearray([0, name, 0, 0, 0, 0])), 0), callback)
    sync_call(executer._process_pending_response)
greenlets = [greenlet.greenlet(lambda: run(1)), greenlet.greenlet(lambda: run(2))]
while any(not g.dead for g in greenlets):
    for g in greenlets:
        g.switch()
assert bytearray(seen[1].sense_buffer)[12] == 0x21, bytearray(seen[1].sense_buffer)[12]
assert bytearray(seen[2].sense_buffer)[12] == 0x22, bytearray(seen[2].sense_buffer)[12]
'''),
 dict(id='S10-unknown-host-status', prop='C10', needs='a host status that the table of host status codes does not name',
  breaks='a command that failed with an unknown host status appears successful',
  edits=[('linux.py', "        if response_sgio.host_status != 0:\n", "        if any(code == response_sgio.host_status for code in HOST_STATUS_CODES.values() if code):\n")],
  demo=SG+'''
def answer(sgio):
    sgio.host_status = 0x0e
executer = LinuxCommandExecuter(Sg(answer))
try:
    result = sync_call(executer.call, SCSIReadCommand(b"\\x12" + b"\\0" * 5, 16))
except AsiSCSIError:
    pass
else:
    assert False, result
'''),
 dict(id='S11-ioctl-timeout', prop='C11', needs='an ioctl executer with a timeout other than the default',
  breaks='the timeout given to the ioctl executer is ignored',
  edits=[('linux.py', "        super(LinuxIoctlCommandExecuter, self).__init__(io, max_queue_size, timeout)\n        self.io = io\n        self.timeout = timeout\n", "        super(LinuxIoctlCommandExecuter, self).__init__(io, max_queue_size)\n        self.io = io\n")],
  demo=SG+'''
import fcntl
from infi.asi.linux import LinuxIoctlCommandExecuter
seen = []
class File(object):
    fd = 99
def ioctl(fd, request, buf):
    seen.append(SGIO.from_string(bytes(buf.raw)).timeout)
    return 0
fcntl.ioctl = ioctl
executer = LinuxIoctlCommandExecuter(File(), timeout=1234)
sync_call(executer.call, SCSIReadCommand(b"\\0" * 6, 0))
assert seen == [1234], seen
'''),
 dict(id='S12-status-mask', prop='C12', needs='a command that ends with TASK ABORTED',
  breaks='a status outside the mask counts as success',
  edits=[('solaris.py', "        if response_status_code != 0:\n", "        if response_status_code & 0x3e:\n")],
  demo='''
import fcntl
from infi.asi import SCSIReadCommand
from infi.asi.errors import AsiSCSIError
from infi.asi.solaris import SCSICMD, SolarisCommandExecuter
from infi.asi.coroutines.sync_adapter import sync_call
class File(object):
    fd = 99
def ioctl(fd, request, buf):
    SCSICMD.from_buffer(buf).uscsi_status = 0x40
    return 0
fcntl.ioctl = ioctl
executer = SolarisCommandExecuter(File())
try:
    result = sync_call(executer.call, SCSIReadCommand(b"\\x12" + b"\\0" * 5, 16))
except AsiSCSIError:
    pass
else:
    assert False, result
'''),
 dict(id='S13-adapter-status-zero', prop='C13', needs='an adapter error that is reported as valid without an adapter status code',
  breaks='the command appears successful',
  edits=[('aix.py', "            elif response_cmd.status_validity == STATUS_VALIDITY_CODES['SC_ADAPTER_ERROR']:\n                return (AixAsiSCSIError(\"SCSI adapter response status is not zero\", response_cmd), packet_id)\n", "            elif response_cmd.status_validity == STATUS_VALIDITY_CODES['SC_ADAPTER_ERROR']:\n                if response_cmd.adapter_status != 0 or response_cmd.scsi_bus_status != 0:\n                    return (AixAsiSCSIError(\"SCSI adapter response status is not zero\", response_cmd), packet_id)\n")],
  demo='''
from infi.asi import SCSIReadCommand
from infi.asi.errors import AsiSCSIError
from infi.asi import aix
from infi.asi.coroutines.sync_adapter import sync_call
class File(object):
    fd = 99
def ioctl(fd, request, address):
    aix.sc_passthru.from_address(address).status_validity = 2
    return 0
aix.get_ioctl_function = lambda: ioctl
executer = aix.AixCommandExecuter(File())
try:
    result = sync_call(executer.call, SCSIReadCommand(b"\\x12" + b"\\0" * 5, 16))
except AsiSCSIError:
    pass
else:
    assert False, result
'''),
 dict(id='S14-status-mask', prop='C14', needs='a command that ends with TASK ABORTED (0x40)',
  breaks='a status outside the mask counts as success',
  edits=[('win32.py', "        if spt.ScsiStatus != 0:\n", "        if spt.ScsiStatus & 0x3e:\n")],
  demo=WIN+'''
def ioctl(self, handle, code, request, size, *args):
    request._obj[2] = b"\x40"       # ScsiStatus
    return 1
Kernel32.DeviceIoControl = ioctl
from infi.asi import win32, SCSIReadCommand
from infi.asi.errors import AsiSCSIError
from infi.asi.coroutines.sync_adapter import sync_call
executer = win32.Win32CommandExecuter(win32.Win32File("x"))
try:
    result = sync_call(executer.call, SCSIReadCommand(b"\0" * 6, 0))
except AsiSCSIError:
    pass
else:
    assert False, result
'''),
 dict(id='S15-read-until-size', prop='C15', needs='a descriptor that delivers its data in two pieces',
  breaks='read() blocks until the whole size has been read',
  edits=[('unix.py', "        return os.read(self.fd, size)\n", "        result = os.read(self.fd, size)\n        while result and len(result) < size:\n            chunk = os.read(self.fd, size - len(result))\n            if not chunk:\n                break\n            result += chunk\n        return result\n")],
  demo='''
import signal
from infi.asi.unix import UnixFile
r, w = os.pipe()
os.write(w, b"abc")
signal.alarm(10)
assert UnixFile(r).read(10) == b"abc"
'''),
 dict(id='S16-close-on-exception-only', prop='C16', needs='the body is left through an exception that is not an Exception (KeyboardInterrupt, GeneratorExit)',
  breaks='the aix context does not close the device then',
  edits=[('executers.py', "def aix(device):\n    handle = create_os_file(device)\n    executer = create_platform_command_executer(handle)\n    try:\n        yield executer\n    finally:\n        handle.close()\n", "def aix(device):\n    handle = create_os_file(device)\n    executer = create_platform_command_executer(handle)\n    try:\n        yield executer\n    except Exception:\n        handle.close()\n        raise\n    else:\n        handle.close()\n")],
  demo='''
from infi.asi import executers
closed = []
class Handle(object):
    def close(self):
        closed.append(1)
executers.create_os_file = lambda device: Handle()
executers.create_platform_command_executer = lambda handle: handle
try:
    with executers.aix("/dev/none"):
        raise KeyboardInterrupt()
except KeyboardInterrupt:
    pass
assert closed == [1], closed
'''),
 dict(id='S17-deferred-descriptor', prop='C17', needs='deferred sense data in descriptor format (response code 73h)',
  breaks='it is not decoded',
  edits=[('sense/__init__.py', "    elif response_code.code in (0x72, 0x73):\n", "    elif response_code.code == 0x72:\n")],
  demo='''
from infi.asi.sense import get_sense_object_from_buffer
sense = get_sense_object_from_buffer(bytes(bytearray([0x73, 0x06, 0x29, 0x01, 0, 0, 0, 0])))
assert sense.sense_key == "UNIT_ATTENTION"
assert sense.additional_sense_code.code == 0x29
'''),
]
