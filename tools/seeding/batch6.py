import runpy
_g=runpy.run_path('/tmp/batch1.py'); CORE,SG,GREEN,WIN=_g['CORE'],_g['SG'],_g['GREEN'],_g['WIN']
CMD=runpy.run_path('/tmp/batch2.py')['CMD']
SEEDS = [
 dict(id='S86-nearest-status-name', prop='C38', needs='a status that has no name of its own',
  breaks='a code without a name is given the name of the nearest lower code',
  edits=[('linux.py', "    code_string = [key for key, value in status_dict.items() if value == code] or ['']\n    return \"%s 0x%02x\" % (code_string[0], code)\n",
   "    code_string = [key for key, value in sorted(status_dict.items(), key=lambda item: item[1]) if value <= code] or ['']\n    return \"%s 0x%02x\" % (code_string[-1], code)\n")],
  demo=SG+'''
def status(number):
    def answer(sgio):
        sgio.status = number
    return answer
def text(number):
    try:
        sync_call(LinuxCommandExecuter(Sg(status(number))).call, SCSIReadCommand(b"\\x12" + b"\\0" * 5, 4))
    except AsiSCSIError as error:
        return str(error)
assert "BUSY" in text(8)
assert "TASK_SET_FULL" in text(0x28), text(0x28)
assert "CHECK_CONDITION" not in text(0x01) and "BUSY" not in text(0x0c), text(0x0c)
'''),
 dict(id='S87-host-status-nibble', prop='C38', needs='a host status above 0x0f, reported without a SCSI status',
  breaks='only the lower four bits of the host status are told, so DID_TRANSPORT_FAILFAST looks like a soft error or like no host status at all',
  edits=[('linux.py', "            error = AsiSCSIError((\"SCSI host status is not zero: %s\" +\n                                  \"(driver status: %s, host status: %s)\") %\n                                 (prettify_status(response_sgio.status, SCSI_STATUS_CODES),\n                                  prettify_status(response_sgio.driver_status & 0x0f, DRIVER_STATUS_CODES),\n                                  prettify_status(response_sgio.host_status, HOST_STATUS_CODES)))",
   "            error = AsiSCSIError((\"SCSI host status is not zero: %s\" +\n                                  \"(driver status: %s, host status: %s)\") %\n                                 (prettify_status(response_sgio.status, SCSI_STATUS_CODES),\n                                  prettify_status(response_sgio.driver_status & 0x0f, DRIVER_STATUS_CODES),\n                                  prettify_status(response_sgio.host_status & 0x0f, HOST_STATUS_CODES)))")],
  demo=SG+'''
def host(number):
    def answer(sgio):
        sgio.host_status = number
    return answer
def text(number):
    try:
        sync_call(LinuxCommandExecuter(Sg(host(number))).call, SCSIReadCommand(b"\\x12" + b"\\0" * 5, 4))
    except AsiSCSIError as error:
        return str(error)
assert "NO_CONNECT 0x01" in text(1)
assert "0x0f" in text(0x0f) and "0x11" in text(0x11), text(0x11)
'''),
 dict(id='S88-win32-error-facility', prop='C38', needs='a Windows error number with a facility (HRESULT) or above 0xffff',
  breaks='the error number is cut to its lower 16 bits',
  edits=[('win32.py', "        self.win32_errno = errno\n", "        errno &= 0xFFFF\n        self.win32_errno = errno\n"),
         ('win32.py', "        if details is not None:\n            message = \"%s (win32 error %d: %s)\" % (details, errno, error_string)", "        if details is not None:\n            message = \"%s (win32 error %d: %s)\" % (details, errno & 0xFFFF, error_string)")],
  demo=WIN+'''
from infi.asi import win32
error = win32.AsiWin32OSError(5, "x")
assert error.win32_errno == 5 and "win32 error 5:" in str(error)
error = win32.AsiWin32OSError(0x20000005, "x")
assert error.win32_errno == 0x20000005 and str(0x20000005) in str(error), str(error)
'''),
 dict(id='S89-aix-adapter-mask', prop='C38', needs='an adapter error with an odd adapter status',
  breaks='the adapter status is masked like the bus status, so odd adapter errors are told as other errors',
  edits=[('aix.py', "        adapter_status = prettify_status(os_data.adapter_status, ADAPTER_STATUS_CODES)", "        adapter_status = prettify_status(os_data.adapter_status & SCSI_STATUS_MASK, ADAPTER_STATUS_CODES)")],
  demo='''
from infi.asi.aix import AixAsiSCSIError, sc_passthru
def text(adapter):
    data = sc_passthru()
    data.status_validity, data.adapter_status = 2, adapter
    return str(AixAsiSCSIError("x", data))
assert "SCSI_TRANSPORT_FAULT 0x02" in text(2)
assert "SCSI_CMD_TIMEOUT 0x03" in text(3), text(3)
'''),
 dict(id='S90-reserved-name-shared', prop='C39', needs='lookups of two different reserved designator types',
  breaks='all reserved designator types get the name of the one looked up first',
  edits=[('cdb/inquiry/vpd_pages/__init__.py', "        self[key] = value = self.default_factory(key)\n", "        if not hasattr(self, \"default\"):\n            self.default = self.default_factory(key)\n        self[key] = value = self.default\n")],
  demo='''
from infi.asi.cdb.inquiry.vpd_pages import SCSI_DESIGNATOR_TYPES as TYPES
assert TYPES[3] == "NAA" and TYPES[0x0b] == "Reserved [0xb]" and TYPES[0x0b] == "Reserved [0xb]"
assert TYPES[0x0f] == "Reserved [0xf]", TYPES[0x0f]
'''),
 dict(id='S91-fan-speed-names', prop='C39', needs='a fan running at one of its middle speeds',
  breaks='the names of the speeds above the intermediate one are in the order of the ones below it',
  edits=[('cdb/diagnostic/ses_pages/enclosure_status.py', "                  5: 'Cooling mechanism is at its third highest speed',\n                  6: 'Cooling mechanism is at its second highest speed',", "                  5: 'Cooling mechanism is at its second highest speed',\n                  6: 'Cooling mechanism is at its third highest speed',")],
  demo='''
from infi.asi.cdb.diagnostic.ses_pages.enclosure_status import FAN_SPEED_CODE as NAMES
assert "lowest" in NAMES[1] and "second lowest" in NAMES[2] and "intermediate" in NAMES[4] and "highest" in NAMES[7]
assert "third highest" in NAMES[5] and "second highest" in NAMES[6]
'''),
]
