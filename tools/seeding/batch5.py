import runpy
_g=runpy.run_path('/tmp/batch1.py'); CORE,SG,GREEN,WIN=_g['CORE'],_g['SG'],_g['GREEN'],_g['WIN']
CMD=runpy.run_path('/tmp/batch2.py')['CMD']
SEEDS = [
 dict(id='S81-failed-packets-kept', prop='C37', needs='commands that end in an error',
  breaks='what belongs to a failed command is kept for diagnosis, so failing commands use up memory',
  edits=[('__init__.py', "            if isinstance(result, Exception):\n                callback(None, result)\n", "            if isinstance(result, Exception):\n                self.failures.append((packet_id, result))\n                callback(None, result)\n"),
         ('__init__.py', "        self.packet_index = 0\n", "        self.packet_index = 0\n        self.failures = []\n")],
  demo=SG+'''
import gc
executer = LinuxCommandExecuter(Sg(lambda sgio: sense(sgio, fixed_sense(0x24, 0))))
def run():
    try:
        sync_call(executer.call, SCSIReadCommand(b"\\x12" + b"\\0" * 5, 4))
    except AsiSCSIError:
        pass
def count():
    gc.collect()
    from infi.asi.errors import AsiCheckConditionError
    return sum(isinstance(item, AsiCheckConditionError) for item in gc.get_objects())
run()
before = count()
for _ in range(20):
    run()
assert count() <= before + 2, count()
'''),
 dict(id='S82-last-request', prop='C37', needs='a look at what is still referenced after the only command of an executer finished',
  breaks='the last request stays referenced by its executer, with its data buffer, until the next one',
  edits=[('linux.py', "        return SGIO.create(packet_index, command, self.timeout)\n", "        self.last_command, self.last_request = command, SGIO.create(packet_index, command, self.timeout)\n        return self.last_request\n")],
  demo=SG+'''
import gc, weakref
executer = LinuxCommandExecuter(Sg(lambda sgio: fill(sgio, b"abcd")))
class Read(SCSIReadCommand):
    pass
def run():
    command = Read(b"\\x12" + b"\\0" * 5, 4)
    assert sync_call(executer.call, command) == b"abcd"
    return weakref.ref(command)
reference = run()
for _ in range(5):
    gc.collect()
assert reference() is None
'''),
 dict(id='S83-failed-start-keeps-packet', prop='C37', needs='a submission that fails',
  breaks='the packet of a command whose submission failed is parked in a list instead of dropped',
  edits=[('__init__.py', "            del self.pending_packets[packet_index]\n            raise", "            self.failed_packets.append(self.pending_packets.pop(packet_index))\n            raise"),
         ('__init__.py', "        self.packet_index = 0\n", "        self.packet_index = 0\n        self.failed_packets = []\n")],
  demo=SG+'''
import gc, weakref
class Broken(Sg):
    def write(self, raw):
        raise OSError(5, "x")
executer = LinuxCommandExecuter(Broken(None))
def run():
    def callback(data, error):
        pass
    try:
        sync_call(executer.send, SCSIReadCommand(b"\\x12" + b"\\0" * 5, 4), callback)
    except OSError as error:
        error.__traceback__ = None
    return weakref.ref(callback)
reference = run()
for _ in range(5):
    gc.collect()
assert reference() is None
'''),
 dict(id='S84-sgio-registry', prop='C37', needs='many commands through sg',
  breaks='requests are registered in the class, so that responses can be turned into them, and never removed',
  edits=[('linux.py', "        sgio.flags = SG_FLAG_DIRECT_IO\n        return sgio\n", "        sgio.flags = SG_FLAG_DIRECT_IO\n        cls.requests[addressof(sgio)] = sgio\n        return sgio\n"),
   ('linux.py', "        super(SGIO, self).__init__(*args, **kwargs)\n        self.source_buffer = None\n", "        super(SGIO, self).__init__(*args, **kwargs)\n        self.source_buffer = None\n\n    requests = {}\n")],
  demo=SG+'''
import gc
executer = LinuxCommandExecuter(Sg(lambda sgio: fill(sgio, b"abcd")))
import _rawffi
def run():
    assert sync_call(executer.call, SCSIReadCommand(b"\\x12" + b"\\0" * 5, 4)) == b"abcd"
def count():
    gc.collect()
    gc.collect()
    return sum(isinstance(item, SGIO) for item in gc.get_objects())
run()
before = count()
for _ in range(20):
    run()
assert count() <= before + 3, (before, count())
'''),
 dict(id='S85-read-queue-not-drained', prop='C37', needs='commands on Windows whose response is an error',
  breaks='completed requests are taken by index and removed only when they succeeded',
  edits=[('win32.py', "        spt = self.incoming_packets.pop()\n", "        spt = self.incoming_packets[-1]\n"),
   ('win32.py', "        data = None\n        if spt.DataIn == SCSI_IOCTL_DATA_IN and", "        self.incoming_packets.pop()\n        data = None\n        if spt.DataIn == SCSI_IOCTL_DATA_IN and")],
  demo=WIN+'''
import infi.asi.win32 as win32
from infi.asi import SCSIReadCommand
from infi.asi.coroutines.sync_adapter import sync_call
from infi.asi.errors import AsiSCSIError
class File(object):
    def ioctl(self, code, inp, size, out, out_size):
        win32.SCSIPassThroughDirect.from_buffer(inp._obj).ScsiStatus = 8
        yield None
executer = win32.Win32CommandExecuter(File())
for _ in range(5):
    try:
        sync_call(executer.call, SCSIReadCommand(b"\\x12" + b"\\0" * 5, 4))
    except AsiSCSIError:
        pass
assert len(executer.incoming_packets) == 0, len(executer.incoming_packets)
'''),
]
