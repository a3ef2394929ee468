"""C39: the codes of decoded responses have the names the standards give them."""
import itertools

from mc.core import Group, require
from mc.decode import on_device, run_command
from mc import sesspec, vpdspec

from infi.asi.cdb.inquiry import standard, vpd_pages
from infi.asi.cdb.inquiry.vpd_pages import get_vpd_page
from infi.asi.cdb.diagnostic.ses_pages import get_ses_page, configuration, enclosure_status
from infi.asi.cdb.persist.output import PERSISTENT_RESERVE_OUT_TYPES, PersistentReserveOutCommand, \
    PERSISTENT_RESERVE_OUT_SERVICE_ACTION_CODES
from infi.asi.cdb.persist.input import PERSISTENT_RESERVE_IN_SERVICE_ACTION_CODES, PersistentReserveInCommand

ID = "C39"
LEVEL = "exploration"
RULE = ("a case is a response that carries one code (all codes the field can hold), decoded by its command over a "
        "simulated device and looked up in the published table of names; or one history of lookups; distinct = distinct "
        "codes and histories")
ASSUMPTIONS = ["names are those of SPC-4, SPC-5, SBC-3 and SES-3 in the wording of the library"]

DEVICE_TYPES = ["disk", "tape", "printer", "processor", "write once optical disk", "cd/dvd", "scanner",
                "optical memory device", "medium changer", "communications", "graphics [0xa]", "graphics [0xb]",
                "storage array controller", "enclosure services device", "simplified direct access device",
                "optical card reader/writer device", "bridge controller commands", "object based storage",
                "automation/driver interface", "security manager device", "zoned block commands", "0x15", "0x16", "0x17",
                "0x18", "0x19", "0x1a", "0x1b", "0x1c", "0x1d", "well known logical unit",
                "no physical device on this lu"]
VERSIONS = ["no conformance claimed", "SCSI-1", "SCSI-2", "SPC", "SPC-2", "SPC-3", "SPC-4", "SPC-5"]
PAGES = {0x00: "supported VPD pages", 0x80: "unit serial number", 0x81: "implemented operating definitions (obsolete)",
         0x82: "ASCII implemented operating definition (obsolete)", 0x83: "device identification",
         0x84: "software interface identification", 0x85: "management network addresses", 0x86: "extended inquiry data",
         0x87: "mode page policy", 0x88: "SCSI ports", 0x89: "ATA information", 0x8a: "power condition",
         0x8b: "device constituents", 0x8c: "CFA profile information", 0x8d: "power consumption",
         0x8f: "third party copy", 0x90: "protocol-specific logical unit information",
         0x91: "protocol-specific port information", 0x92: "SCSI feature sets"}
TYPED_PAGES = {(0xb0, 0x00): "block limits (sbc2)", (0xb0, 0x01): "sequential access device capabilities (ssc3)",
               (0xb0, 0x11): "OSD information (osd)", (0xb1, 0x00): "block device characteristics (sbc3)",
               (0xb1, 0x11): "security token (osd)", (0xb1, 0x0d): "enclosure services device characteristics (ses4)",
               (0xb2, 0x00): "logical block provisioning (sbc3)", (0xb2, 0x01): "TapeAlert supported flags (ssc3)",
               (0xb3, 0x00): "referrals (sbc3)"}
CODE_SETS = {1: "binary", 2: "ascii", 3: "utf8"}
DESIGNATORS = ["vendor specific [0x0]", "t10 vendor identification", "eui-64 based", "naa", "relative target port",
               "target port group", "logical unit group", "md5 logical unit identifier", "scsi name string",
               "protocol specific port identifier", "uuid identifier"]
ASSOCIATIONS = ["addressed logical unit", "target port", "target device that contains addressed lu", "reserved [0x3]"]
ELEMENTS = ["unspecified", "device slot", "power supply", "cooling", "temperature sensor", "door", "audible alarm",
            "enclosure services controller electronics", "scc controller electronics", "nonvolatile cache",
            "invalid operation reason", "uninterruptible power supply", "display", "key pad entry", "enclosure",
            "scsi port/transceiver", "language", "communication port", "voltage sensor", "current sensor",
            "scsi target port", "scsi initiator port", "simple subenclosure", "array device slot", "sas expander",
            "sas connector"]
STATUSES = ["unsupported", "ok", "critical", "noncritical", "unrecoverable", "not installed", "unknown", "not available",
            "no access"]
SPEEDS = ["stopped", "at its lowest speed", "at its second lowest speed", "at its third lowest speed",
          "at its intermediate speed", "at its third highest speed", "at its second highest speed", "at its highest speed"]
RESERVATIONS = {"WRITE_EXCLUSIVE": 1, "EXCLUSIVE_ACCESS": 3, "WRITE_EXCLUSIVE_REGISTRANTS_ONLY": 5,
                "EXCLUSIVE_ACCESS_REGISTRANTS_ONLY": 6, "WRITE_EXCLUSIVE_ALL_REGISTRANTS": 7,
                "EXCLUSIVE_ACCESS_ALL_REGISTRANTS": 8}
OUT_ACTIONS = ["REGISTER", "RESERVE", "RELEASE", "CLEAR", "PREEMPT", "PREEMPT_AND_ABORT",
               "REGISTER_AND_IGNORE_EXISTING_KEY", "REGISTER_AND_MOVE", "REPLACE_LOST_RESERVATION"]
IN_ACTIONS = ["READ_KEYS", "READ_RESERVATION", "REPORT_CAPABILITIES", "READ_FULL_STATUS"]
NONE = object()


def same(name, expected, what):
    require(isinstance(name, str) and name.lower() == expected.lower(), "%s is called %r, not %r" % (what, name, expected))


def run_peripheral(arg):
    byte, version = arg
    raw = bytes([byte, 0, version, 2, 31, 0, 0, 2]) + b"vendor  product         1.00"
    result, _ = on_device(standard.StandardInquiryCommand, raw)
    code = byte & 0x1f
    same(vpd_pages.SCSI_PERIPHERAL_DEVICE_TYPE.get(result.peripheral_device.type, NONE), DEVICE_TYPES[code],
         "device type %#x" % code)
    name = vpd_pages.SCSI_VERSION_NAME.get(result.version, NONE)
    if version < len(VERSIONS):
        same(name, VERSIONS[version], "version %d" % version)
    else:
        require(name is NONE, "version %d is called %r" % (version, name))
    return byte, version


def run_vpd(arg):
    """ the page a device lists, named for the type of the device """
    code, kind = arg
    result, _ = on_device(get_vpd_page(0), bytes([kind, 0, 0, 1, code]))
    page, kind = list(result.vpd_parameters)[0], result.peripheral_device.type
    name = vpd_pages.SCSI_VPD_NAME.get(page, NONE)
    if isinstance(name, dict):
        name = name.get(kind, NONE)
    expected = PAGES.get(code) or TYPED_PAGES.get((code, kind))
    if expected is not None:
        same(name, expected, "page %#x of a device of type %#x" % (code, kind))
    elif code < 0xc0:
        require(name is NONE, "page %#x of a device of type %#x is called %r" % (code, kind, name))
    else:
        require(name is NONE or name.lower().startswith("vendor") or "rdac" in name.lower(),
                "vendor specific page %#x is called %r" % (code, name))
    return code, kind


def expected_designator(kind):
    return DESIGNATORS[kind] if kind < len(DESIGNATORS) else "reserved [%#x]" % kind


BODIES = {1: b"vendor  1", 2: bytes(range(8)), 3: b"\x50" + bytes(7), 4: bytes(4), 5: bytes(4), 6: bytes(4), 7: bytes(16)}


def run_designator(arg):
    kind, association, code_set = arg
    body = vpdspec.make_designator(kind, BODIES.get(kind, b"name1234"), association=association, code_set=code_set)
    result, _ = on_device(get_vpd_page(0x83), vpdspec.make_page(0x83, body))
    found = result.designators_list[0]
    same(vpd_pages.SCSI_DESIGNATOR_TYPES[found.designator_type], expected_designator(kind), "designator type %#x" % kind)
    same(vpd_pages.SCSI_DESIGNATOR_ASSOCIATIONS.get(found.association, NONE), ASSOCIATIONS[association],
         "association %d" % association)
    name = vpd_pages.SCSI_CODE_SETS.get(found.code_set, NONE)
    if code_set in CODE_SETS:
        same(name, CODE_SETS[code_set], "code set %d" % code_set)
    else:
        require(name is NONE, "code set %d is called %r" % (code_set, name))
    return tuple(arg)


def run_lookups(arg):
    """ looking up one code does not change what others are called """
    for kind in arg:
        same(vpd_pages.SCSI_DESIGNATOR_TYPES[kind], expected_designator(kind), "after %r, designator type %#x" % (arg, kind))
    for kind in range(16):
        same(vpd_pages.SCSI_DESIGNATOR_TYPES[kind], expected_designator(kind), "after %r, designator type %#x" % (arg, kind))
    return tuple(arg)


def run_element(arg):
    raw = sesspec.simple_configuration([(arg, 1)])
    result, _ = on_device(get_ses_page(1), raw)
    name = configuration.ELEMENT_TYPE_CODES.get(result.type_descriptor_header_list[0].element_type, NONE)
    if arg < len(ELEMENTS):
        same(name, ELEMENTS[arg], "element type %#x" % arg)
    elif arg < 0x80:
        require(name is NONE, "reserved element type %#x is called %r" % (arg, name))
    return arg


def run_status(arg):
    kind, first, last = arg
    types = [(kind, 1)]
    page = run_command(get_ses_page(1), sesspec.simple_configuration(types))
    body = bytes([first, 0, 0, last]) * 2
    result, _ = on_device(lambda: get_ses_page(2)(page), sesspec.make_page(2, body))
    status = result.status_descriptors[0]
    for element in [status.overall_element] + list(status.individual_elements):
        code = first & 0xf
        name = enclosure_status.ELEMENT_STATUS_CODE.get(element.element_status_code, NONE)
        if code < len(STATUSES):
            same(name, STATUSES[code], "element status %d" % code)
        else:
            require(name is NONE, "element status %d is called %r" % (code, name))
    if kind == 3:
        code = last & 7
        name = enclosure_status.FAN_SPEED_CODE.get(status.individual_elements[0].status_info.speed_code, NONE)
        same(name, "Cooling mechanism is " + SPEEDS[code], "fan speed %d" % code)
    return tuple(arg)


class Recorder(object):
    def call(self, command):
        self.command = command
        yield b""


def cdb_of(command):
    recorder = Recorder()
    generator = command.execute(recorder)
    step = next(generator)
    list(step)
    return bytes(recorder.command.command)


def run_constant(arg):
    kind, name = arg
    if kind == "type":
        value = getattr(PERSISTENT_RESERVE_OUT_TYPES, name)
        cdb = cdb_of(PersistentReserveOutCommand(1, pr_type=value))
        require(cdb[0] == 0x5f and cdb[2] & 0xf == RESERVATIONS[name], "%s is type %d" % (name, cdb[2] & 0xf))
    elif kind == "out":
        value = getattr(PERSISTENT_RESERVE_OUT_SERVICE_ACTION_CODES, name)
        require(value == OUT_ACTIONS.index(name), "%s is service action %d" % (name, value))
        if name != "REGISTER_AND_MOVE":
            cdb = cdb_of(PersistentReserveOutCommand(value))
            require(cdb[1] & 0x1f == OUT_ACTIONS.index(name), "%s is service action %d" % (name, cdb[1] & 0x1f))
    else:
        value = getattr(PERSISTENT_RESERVE_IN_SERVICE_ACTION_CODES, name)
        cdb = cdb_of(PersistentReserveInCommand(value))
        require(cdb[1] & 0x1f == IN_ACTIONS.index(name), "%s is service action %d" % (name, cdb[1] & 0x1f))
    return tuple(arg)


def groups(tier):
    deep = tier == "thorough"
    yield Group("peripheral", [[byte, version] for byte in range(256) for version in (range(256) if deep else range(16))],
                run_peripheral)
    yield Group("vpd pages", [[code, kind] for code in range(256) for kind in range(32)], run_vpd)
    yield Group("designators", [[kind, association, code_set] for kind in range(16) for association in range(4)
                                for code_set in range(16)], run_designator)
    yield Group("lookups", [list(codes) for depth in range(4 if not deep else 5)
                            for codes in itertools.product(range(16), repeat=depth)], run_lookups)
    yield Group("element types", list(range(256)), run_element)
    yield Group("element status", [[kind, first, last] for kind in list(range(0x1a)) + [0x80, 0x9e]
                                   for first in range(16) for last in range(8)], run_status)
    yield Group("constants", [["type", name] for name in sorted(RESERVATIONS)] + [["out", name] for name in OUT_ACTIONS] +
                [["in", name] for name in IN_ACTIONS], run_constant)
