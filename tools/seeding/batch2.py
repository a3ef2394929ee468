CMD = '''
import struct
from infi.asi.coroutines.sync_adapter import sync_call

class Recorder(object):
    """ an executer that keeps the commands it is given and answers with self.response """
    def __init__(self, response=b""):
        self.response, self.commands = response, []
    def call(self, command):
        self.commands.append(command)
        yield self.response

def run(command, response=b""):
    recorder = Recorder(response)
    result = sync_call(command.execute, recorder)
    recorder.result = result
    return recorder

def sent(command, response=b""):
    return bytes(run(command, response).commands[0].command)
'''
SEEDS = [
 dict(id='S18-read-length-32-bit', prop='C18', needs='a READ (16) of more than 4 GiB',
  breaks='the response buffer of READ (16) is cut to 32 bits of length, so large reads offer a smaller buffer than the CDB asks for',
  edits=[('cdb/read.py', "        assert self.logical_block_address < 2 ** 64\n        assert self.transfer_length < 2 ** 32\n\n    def execute(self, executer):\n        datagram = self.create_datagram()\n        result_datagram = yield executer.call(SCSIReadCommand(datagram, self.block_size * self.transfer_length))",
   "        assert self.logical_block_address < 2 ** 64\n        assert self.transfer_length < 2 ** 32\n\n    def execute(self, executer):\n        datagram = self.create_datagram()\n        read_length = (self.block_size * self.transfer_length) & 0xffffffff  # lengths of transfers are 32 bit\n        result_datagram = yield executer.call(SCSIReadCommand(datagram, read_length))")],
  demo=CMD+'''
from infi.asi.cdb.read import Read16Command
command = run(Read16Command(0, 2 ** 23 + 1)).commands[0]
assert command.max_response_length == (2 ** 23 + 1) * 512, command.max_response_length
'''),
 dict(id='S19-write6-partial-block', prop='C18', needs='WRITE (6) with a block size other than 512 bytes',
  breaks='WRITE (6) counts blocks of 512 bytes whatever the block size of the caller is',
  edits=[('cdb/write.py', "        num_blocks = len(buffer) // block_size\n", "        num_blocks = len(buffer) // DEFAULT_BLOCK_SIZE\n")],
  demo=CMD+'''
from infi.asi.cdb.write import Write6Command
cdb = sent(Write6Command(1, b"x" * 4096, block_size=4096))
assert cdb == b"\\x0a\\0\\0\\x01\\x01\\0", cdb
'''),
 dict(id='S20-rtpg-format-bits', prop='C19', needs='a parameter data format that is a multiple of 8',
  breaks='the parameter data format is checked after the bits outside of its field were dropped, so format 8 is sent as format 0',
  edits=[('cdb/rtpg.py', "        assert parameter_data_format in (0,1),", "        assert parameter_data_format & 0x7 in (0,1),")],
  demo=CMD+'''
from infi.asi.cdb.rtpg import RTPGCommand
recorder = Recorder(b"\\0" * 4)
try:
    sync_call(RTPGCommand(parameter_data_format=8).execute, recorder)
except Exception:
    pass
assert not recorder.commands, recorder.commands[0].command
'''),
 dict(id='S21-release-reserved-id', prop='C22', needs='a third party device id of exactly 255',
  breaks='RELEASE (10) with a third party id of 255, which needs the long form, is sent in the short form',
  edits=[('cdb/release.py', "            if third_party_device_id < 255:\n", "            if third_party_device_id <= 255:\n")],
  demo=CMD+'''
from infi.asi.cdb.release import Release10Command
command = run(Release10Command(third_party_device_id=255)).commands[0]
assert bytes(bytearray(command.data)) == struct.pack(">Q", 255), (command.command, command.data)
'''),
 dict(id='S22-unmap-length-before-last', prop='C20', needs='UNMAP with more than 4095 ranges',
  breaks='the parameter list of UNMAP is limited although the CDB still counts all descriptors',
  edits=[('cdb/unmap.py', "        block_stream = b''.join(blocks)\n", "        block_stream = b''.join(blocks[:255])\n")],
  demo=CMD+'''
from infi.asi.cdb.unmap import UnmapCommand
command = run(UnmapCommand([(i, 1) for i in range(300)])).commands[0]
assert len(command.data) == 8 + 16 * 300, len(command.data)
'''),
 dict(id='S23-unmap-flag-dropped', prop='C20', needs='WRITE SAME (16) with the unmap flag set after construction',
  breaks='the UNMAP bit of WRITE SAME (16) sits one bit too high, where the ANCHOR bit is',
  edits=[('cdb/write_same.py', "                          BitFlag(\"unmap\", 0),\n                          BitPadding(1),\n", "                          BitPadding(1),\n                          BitFlag(\"unmap\", 0),\n")],
  demo=CMD+'''
from infi.asi.cdb.write_same import WriteSame16Command
command = WriteSame16Command(0, b"\\0" * 512)
command.unmap = 1
cdb = sent(command)
assert bytearray(cdb)[1] == 0x08, cdb
'''),
 dict(id='S24-inquiry-length-byte', prop='C21', needs='an INQUIRY with an allocation length above 255',
  breaks='the buffer offered for an INQUIRY response is limited to 255 bytes although the CDB announces more',
  edits=[('cdb/inquiry/__init__.py', "        result_datagram = yield executer.call(SCSIReadCommand(datagram, self.allocation_length))\n", "        result_datagram = yield executer.call(SCSIReadCommand(datagram, min(self.allocation_length, 0xff)))\n")],
  demo=CMD+'''
from infi.asi.cdb.inquiry.vpd_pages import get_vpd_page
recorder = Recorder(b"\\x00\\x89\\x02\\x38" + b"\\0" * 568)
sync_call(get_vpd_page(0x89)().execute, recorder)
command = recorder.commands[0]
assert command.max_response_length == struct.unpack(">H", bytes(command.command)[3:5])[0], command.max_response_length
'''),
 dict(id='S25-move-parameters-cached', prop='C23', needs='two different READ (10) commands in the same process',
  breaks='the datagram of a command is kept from its first execution, so changes made afterwards are not sent',
  edits=[('cdb/__init__.py', "    def create_datagram(self):\n        return type(self).write_to_string(self)\n", "    def create_datagram(self):\n        if '_datagram' not in self.__dict__:\n            self._datagram = type(self).write_to_string(self)\n        return self._datagram\n")],
  demo=CMD+'''
from infi.asi.cdb.read import Read10Command
command = Read10Command(1, 1)
sent(command)
command.fua = 1
cdb = sent(command)
assert bytearray(cdb)[1] == 0x08, cdb
'''),
 dict(id='S26-version-descriptors', prop='C24', needs='standard INQUIRY data with exactly one version descriptor (extended data of 24 bytes)',
  breaks='a single version descriptor is not decoded',
  edits=[('cdb/inquiry/standard.py', "                                     unpack_if=input_buffer_length >= 24)", "                                     unpack_if=input_buffer_length > 24)")],
  demo='''
from infi.asi.cdb.inquiry.standard import StandardInquiryDataBuffer
data = bytearray(b"\\0" * 60)
data[4] = 55
data[58:60] = b"\\x04\\x60"
result = StandardInquiryDataBuffer()
result.unpack(bytes(data))
assert list(result.extended.version_descriptors or []) == [0x0460], result.extended.version_descriptors
'''),
 dict(id='S27-ugavalid-masks-alignment', prop='C25', needs='an unmap granularity alignment of more than 24 bits',
  breaks='the highest bits of the unmap granularity alignment are dropped',
  edits=[('cdb/inquiry/vpd_pages/block_limits.py', "bytes_ref[32].bits[0:7]))", "bytes_ref[32].bits[0:4]))")],
  demo='''
from infi.asi.cdb.inquiry.vpd_pages import get_vpd_page_data
data = bytearray(b"\\0\\xb0\\0\\x3c" + b"\\0" * 60)
data[32] = 0xff
result = get_vpd_page_data(0xb0)()
result.unpack(bytes(data))
assert result.unmap_granularity_alignment == 0x7f000000, hex(result.unmap_granularity_alignment)
'''),
 dict(id='S28-naa-selector-first-byte', prop='C26', needs='a device identification page with NAA designators of different formats',
  breaks='the format of an NAA designator is remembered per designator length, so a format 3 designator behind a format 5 one is decoded as format 5',
  edits=[('cdb/inquiry/vpd_pages/designators.py', "    if naa_header.naa in NAA_BY_TYPE:\n        return NAA_BY_TYPE[naa_header.naa]\n", "    known = _naa_by_length.setdefault(naa_header.designator_length, NAA_BY_TYPE.get(naa_header.naa))\n    if known is not None:\n        return known\n"),
   ('cdb/inquiry/vpd_pages/designators.py', "def _determine_naa_designator(buffer):\n", "_naa_by_length = {}\n\n\ndef _determine_naa_designator(buffer):\n")],
  demo='''
from infi.asi.cdb.inquiry.vpd_pages import get_vpd_page_data
five = b"\\x01\\x03\\0\\x08" + b"\\x50" + b"\\x11" * 7
three = b"\\x01\\x03\\0\\x08" + b"\\x30" + b"\\x11" * 7
result = get_vpd_page_data(0x83)()
result.unpack(b"\\0\\x83\\0\\x18" + five + three)
assert result.designators_list[1].locally_administered_value == 0x11111111111111
'''),
 dict(id='S29-lun-list-length', prop='C27', needs='a LUN whose number needs both bytes of the first level',
  breaks='logical unit numbers above 255 of the flat space are cut to one byte',
  edits=[('cdb/report_luns.py', "        self.lun_list = [item >> 48 for item in self.lun_list]", "        self.lun_list = [(item >> 48) & 0xff if item >> 62 == 0 else item >> 48 for item in self.lun_list]")],
  demo=CMD+'''
from infi.asi.cdb.report_luns import ReportLunsCommand
response = struct.pack(">LLQ", 8, 0, 0x0102 << 48)
result = run(ReportLunsCommand(), response + b"\\0" * (16384 - 16)).result
assert result.lun_list == [0x0102], result.lun_list
'''),
 dict(id='S30-port-identifier-byte', prop='C28', needs='a relative target port identifier above 255',
  breaks='only the low byte of relative target port identifiers is decoded',
  edits=[('cdb/rtpg.py', "    relative_target_port_identifier = be_uint_field(where=bytes_ref[2:4])\n", "    relative_target_port_identifier = be_uint_field(where=bytes_ref[3])\n")],
  demo=CMD+'''
from infi.asi.cdb.rtpg import RTPGCommand
response = struct.pack(">L", 12) + b"\\x0f\\x40\\0\\x01\\0\\0\\0\\x01" + b"\\0\\0\\x01\\x07"
result = run(RTPGCommand(), response).result
assert result.descriptor_list[0].target_port_list[0].relative_target_port_identifier == 0x107
'''),
 dict(id='S31-status-transport-window', prop='C29', needs='a READ FULL STATUS response with several registrants',
  breaks='the transport id of a descriptor extends over the descriptors that follow it',
  edits=[('cdb/persist/input.py', "                                where=bytes_ref[24:additional_length + 24])", "                                where=bytes_ref[24:(additional_length + 31) // 8 * 8])")],
  demo=CMD+'''
from infi.asi.cdb.persist.input import PersistentReserveInCommand
def descriptor(key, size):
    return struct.pack(">Q10xHL", key, 1, size) + b"\\x06" + b"x" * (size - 1)
descriptors = descriptor(1, 28) + descriptor(2, 28)
response = struct.pack(">LL", 1, len(descriptors)) + descriptors
result = run(PersistentReserveInCommand(3), response).result
assert [d.reservation_key for d in result.full_status_descriptors] == [1, 2], result
'''),
 dict(id='S32-capacity-exponents', prop='C30', needs='a READ CAPACITY (16) response with a protection interval exponent',
  breaks='the exponents of blocks per physical block and of protection intervals are swapped',
  edits=[('cdb/read_capacity.py', "            BitField(\"logical_blocks_per_physical_block\", 4, 0),\n            BitField(\"p_i_exponent\", 4, 0),\n", "            BitField(\"p_i_exponent\", 4, 0),\n            BitField(\"logical_blocks_per_physical_block\", 4, 0),\n")],
  demo=CMD+'''
from infi.asi.cdb.read_capacity import ReadCapacity16Command
response = struct.pack(">QL", 9, 512) + b"\\0\\x13" + b"\\0" * 18
result = run(ReadCapacity16Command(), response).result
assert (result.logical_blocks_per_physical_block, result.p_i_exponent) == (3, 1)
'''),
 dict(id='S33-headers-of-first-enclosure', prop='C31', needs='a configuration page with a secondary subenclosure',
  breaks='only the type descriptors of the primary subenclosure are decoded',
  edits=[('cdb/diagnostic/ses_pages/configuration.py', "        return sum(desc.type_descriptor_headers_num for desc in self.enclosure_descriptor_list)\n", "        return self.enclosure_descriptor_list[0].type_descriptor_headers_num\n")],
  demo='''
from infi.asi.cdb.diagnostic.ses_pages import get_ses_page_data
enclosure = lambda index: bytes(bytearray([0x11, index, 1, 36])) + b"e" * 36
header = lambda kind: bytes(bytearray([kind, 1, 0, 0]))
body = b"\\0\\0\\0\\1" + enclosure(0) + enclosure(1) + header(1) + header(2)
page = bytes(bytearray([1, 1, 0, len(body)])) + body
result = get_ses_page_data(1)(conf_page=None)
result.unpack(page + b"\\0" * 16)
assert [h.element_type for h in result.type_descriptor_header_list] == [1, 2]
'''),
 dict(id='S34-cooling-speed-bits', prop='C32', needs='a fan of more than 2550 * 10 rpm / with a speed above 1023',
  breaks='the highest bit of the actual fan speed is dropped',
  edits=[('cdb/diagnostic/ses_pages/enclosure_status.py', "    speed_code = be_int_field(where=bytes_ref[2].bits[0:3])\n    off = be_int_field(where=bytes_ref[2].bits[4])\n    reqstd_on = be_int_field(where=bytes_ref[2].bits[5])\n    fail = be_int_field(where=bytes_ref[2].bits[6])\n    hot_swap = be_int_field(where=bytes_ref[2].bits[7])\n\n\n# ses3r05: 7.3.6", "    speed_code = be_int_field(where=bytes_ref[2].bits[0:2])\n    off = be_int_field(where=bytes_ref[2].bits[4])\n    reqstd_on = be_int_field(where=bytes_ref[2].bits[5])\n    fail = be_int_field(where=bytes_ref[2].bits[6])\n    hot_swap = be_int_field(where=bytes_ref[2].bits[7])\n\n\n# ses3r05: 7.3.6")],
  demo='''
from infi.asi.cdb.diagnostic.ses_pages.enclosure_status import CoolingElementInfo
info = CoolingElementInfo()
info.unpack(b"\\0\\0\\x07")
assert info.speed_code == 7, info.speed_code
'''),
 dict(id='S35-unknown-page-cache', prop='C33', needs='two unknown VPD page codes looked up one after the other',
  breaks='the command of the first unknown page is used for all unknown pages',
  edits=[('cdb/inquiry/vpd_pages/unknown.py', "def UnknownVPDPageCommand(page_code):\n    class UnknownVPDPageCommand(EVPDInquiryCommand):\n        def __init__(self):\n            super(UnknownVPDPageCommand, self).__init__(page_code, 2048, UnknownVPDPageBuffer)\n    return UnknownVPDPageCommand\n",
    "_commands = {}\n\n\ndef UnknownVPDPageCommand(page_code):\n    class UnknownVPDPageCommand(EVPDInquiryCommand):\n        def __init__(self):\n            super(UnknownVPDPageCommand, self).__init__(page_code, 2048, UnknownVPDPageBuffer)\n    return _commands.setdefault(page_code & 0xf0, UnknownVPDPageCommand)\n")],
  demo=CMD+'''
from infi.asi.cdb.inquiry.vpd_pages import get_vpd_page
cdbs = [sent(get_vpd_page(code)(), b"\\0" + bytes(bytearray([code])) + b"\\0\\0") for code in (0xd1, 0xd2)]
assert [bytearray(cdb)[2] for cdb in cdbs] == [0xd1, 0xd2], cdbs
'''),
 dict(id='S36-supported-pages-length', prop='C34', needs='a supported VPD pages response in a buffer that is longer than the page',
  breaks='bytes behind the supported pages list are decoded as page codes when the list has an odd length',
  edits=[('cdb/inquiry/vpd_pages/supported_pages.py', "n=page_length)", "n=(page_length + 3) // 4 * 4)")],
  demo='''
from infi.asi.cdb.inquiry.vpd_pages import get_vpd_page_data
result = get_vpd_page_data(0)()
result.unpack(b"\\0\\0\\0\\3" + b"\\x00\\x80\\x83" + b"\\0" * 20)
assert list(result.vpd_parameters) == [0, 0x80, 0x83], result.vpd_parameters
'''),
]
