"""Reference CDB layouts (SPC-4 / SBC-3 / SES), written down independently of the code under test, and an executer that
records what a command object submits.

A Spec says where every argument and flag of a command belongs in the CDB, and what data it transfers.  `how` of a field:
arg (constructor argument), attr (attribute of the command object), naca / vendor (control byte), derived (computed by
the command, e.g. a length).
"""
from . import load  # noqa
from .core import require

from infi.asi import CommandExecuter, SCSIReadCommand, SCSIWriteCommand
from infi.asi.coroutines.sync_adapter import sync_wait


class Recorder(CommandExecuter):
    """ the public executer interface; answers like a device that succeeds """

    def __init__(self, answer=None):
        self.commands = []
        self.answer = answer or (lambda length: b"\0" * min(length, 4096))

    def call(self, command):
        require(isinstance(command, (SCSIReadCommand, SCSIWriteCommand)), "a %r was submitted" % (command,))
        if isinstance(command, SCSIReadCommand):
            self.commands.append((bytes(command.command), "read", command.max_response_length))
            yield self.answer(command.max_response_length)
        else:
            self.commands.append((bytes(command.command), "write", bytes(command.data)))
            yield None


def execute(command, recorder):
    return sync_wait(command.execute(recorder))


class F(object):
    def __init__(self, name, byte, width, low=None, how="arg"):
        """ `low` None: `width` bits of whole bytes, big endian, from `byte` on """
        self.name, self.byte, self.width, self.low, self.how = name, byte, width, low, how
        assert low is not None or width % 8 == 0

    def put(self, raw, value):
        assert 0 <= value < 1 << self.width, (self.name, value)
        if self.low is not None:
            raw[self.byte] |= value << self.low
        else:
            count = self.width // 8
            raw[self.byte:self.byte + count] = value.to_bytes(count, "big")

    def get(self, raw):
        if self.low is not None:
            return (raw[self.byte] >> self.low) & ((1 << self.width) - 1)
        return int.from_bytes(raw[self.byte:self.byte + self.width // 8], "big")


def flag(name, byte, bit):
    return F(name, byte, 1, bit, "attr")


def bits(name, byte, low, width, how="attr"):
    return F(name, byte, width, low, how)


def control(byte):
    return [F("naca", byte, 1, 2, "naca"), F("vendor_specific", byte, 2, 6, "vendor")]


class Spec(object):
    def __init__(self, name, load, length, const, fields, transfer, extra=None, derived=None, buffer_control=False,
                 base=None, has_control=True):
        self.name = name
        self.load = load                    # () -> class or factory
        self.length = length
        self.const = const                  # {byte: value}
        self.fields = fields + (control(length - 1) if has_control else [])
        self.transfer = transfer            # values -> ("read", length) | ("write", data)
        self.extra = extra                  # values -> further constructor arguments
        self.derived = derived              # values -> {derived field: value}
        self.buffer_control = buffer_control
        self.base = base or {}              # values that are not 0 by default

    def names(self, *hows):
        return [field.name for field in self.fields if field.how in hows]

    def field(self, name):
        for field in self.fields:
            if field.name == name:
                return field

    def defaults(self):
        values = dict((field.name, 0) for field in self.fields if field.how != "derived")
        values.update(self.base)
        return values

    def arguments(self, values):
        arguments = dict((name, values[name]) for name in self.names("arg"))
        if self.extra:
            arguments.update(self.extra(values))
        return arguments

    def make(self, values, touch_all=False):
        command = self.load()(**self.arguments(values))
        for name in self.names("attr"):
            if values[name] != self.base.get(name, 0) or touch_all:
                one_bit = touch_all and self.field(name).width == 1
                setattr(command, name, bool(values[name]) if one_bit else values[name])
        if values.get("naca") or values.get("vendor_specific") or (touch_all and self.field("naca")):
            command.control = self.make_control(values.get("naca", 0), values.get("vendor_specific", 0))
        return command

    def make_control(self, naca, vendor_specific):
        from infi.asi.cdb import control as module
        which = module.ControlBuffer if self.buffer_control else module.Control
        return which(naca=naca, vendor_specific=vendor_specific)

    def encode(self, values):
        raw = bytearray(self.length)
        for byte, value in self.const.items():
            raw[byte] |= value
        derived = self.derived(values) if self.derived else {}
        for field in self.fields:
            field.put(raw, derived[field.name] if field.how == "derived" else values.get(field.name, 0))
        return bytes(raw)

    def expected(self, values):
        kind, what = self.transfer(values)
        return self.encode(values), kind, what


def check_command(spec, values, touch_all=False, recorder=None):
    """ the command built from `values` submits exactly what the standard specifies, once; returns its result """
    recorder = recorder or Recorder()
    result = execute(spec.make(values, touch_all), recorder)
    check_recorded(spec, values, recorder)
    return result


def check_recorded(spec, values, recorder):
    require(len(recorder.commands) == 1, "%s%r submitted %d commands" % (spec.name, values, len(recorder.commands)))
    compare(spec, values, recorder.commands[0])


def compare(spec, values, submitted):
    cdb, kind, what = submitted
    expected_cdb, expected_kind, expected = spec.expected(values)
    require(cdb == expected_cdb, "%s%r: CDB %s, the standard has %s" % (spec.name, values, cdb.hex(), expected_cdb.hex()))
    if expected_kind == "none":
        require(not what, "%s%r transfers %r" % (spec.name, values, what))
        return
    require(kind == expected_kind, "%s%r is submitted as a %s" % (spec.name, values, kind))
    if kind == "read":
        require(what == expected, "%s%r: response buffer of %d bytes, expected %d" % (spec.name, values, what, expected))
    else:
        require(what == expected, "%s%r: data %s (%d bytes), expected %s (%d bytes)" %
                (spec.name, values, what[:64].hex(), len(what), expected[:64].hex(), len(expected)))


# --- enumeration -------------------------------------------------------------------------------------------------------
def field_values(width, limit=None):
    """ all values up to 8 bits; beyond, every value of each byte over several backgrounds, one-hot, boundaries """
    top = (1 << width) - 1
    if width <= 8:
        values = set(range(top + 1))
    else:
        values = {0, 1, 2, top, top - 1, top >> 1, (top >> 1) + 1}
        for bit in range(width):
            values |= {1 << bit, top ^ (1 << bit), (1 << bit) - 1}
        for low in range(0, width, 8):
            for background in (0, top, int("5a" * (width // 8 + 1), 16) & top):
                for byte in range(256):
                    values.add((background & ~(0xff << low) | byte << low) & top)
    if limit is not None:
        values = set(value for value in values if value <= limit)
    return sorted(values)


def single_field_cases(spec, skip=(), limits=None, backgrounds=2):
    """ each field through its values, with all other fields zero and with all other fields at their maximum """
    limits = limits or {}
    for background in range(backgrounds):
        base = spec.defaults()
        if background:
            for field in spec.fields:
                if field.how != "derived" and field.name not in skip:
                    base[field.name] = min((1 << field.width) - 1, limits.get(field.name, 1 << 70))
        for field in spec.fields:
            if field.how == "derived" or field.name in skip:
                continue
            for value in field_values(field.width, limits.get(field.name)):
                values = dict(base)
                values[field.name] = value
                yield values


def small_product(spec, skip=(), limit=3):
    """ full product of all flags and small fields (up to `limit` bits: all values) """
    small = [field for field in spec.fields if field.how != "derived" and field.width <= limit and field.name not in skip]
    cases = [spec.defaults()]
    for field in small:
        cases = [dict(case, **{field.name: value}) for case in cases for value in range(1 << field.width)]
    return cases


# --- the commands ------------------------------------------------------------------------------------------------------
def module(name):
    import importlib
    return importlib.import_module("infi.asi.cdb." + name)


def cls(module_name, class_name):
    return lambda: getattr(module(module_name), class_name)


def payload(length):
    return bytes(((index * 11 + (index >> 8) * 5 + 3) & 0xff) for index in range(length))


def read_specs():
    def response(values):
        return "read", values["transfer_length"] * values.get("block_size", 512)

    def block_size(values):
        return {"block_size": values["block_size"]} if "block_size" in values else {}

    yield Spec("Read6Command", cls("read", "Read6Command"), 6, {0: 0x08},
               [LBA21(), F("transfer_length", 4, 8)],
               lambda v: ("read", (v["transfer_length"] or 256) * v.get("block_size", 512)), extra=block_size)
    yield Spec("Read10Command", cls("read", "Read10Command"), 10, {0: 0x28},
               [F("logical_block_address", 2, 32), F("transfer_length", 7, 16), flag("fua_nv", 1, 1), flag("fua", 1, 3),
                flag("dpo", 1, 4), bits("rdprotect", 1, 5, 3), bits("group_number", 6, 0, 5)], response, extra=block_size)
    yield Spec("Read12Command", cls("read", "Read12Command"), 12, {0: 0xa8},
               [F("logical_block_address", 2, 32), F("transfer_length", 6, 32), flag("RelAdr", 1, 0), flag("fua", 1, 3),
                flag("dpo", 1, 4), bits("reserved", 1, 5, 3)], response, extra=block_size)
    yield Spec("Read16Command", cls("read", "Read16Command"), 16, {0: 0x88},
               [F("logical_block_address", 2, 64), F("transfer_length", 10, 32), flag("fua_nv", 1, 1), flag("fua", 1, 3),
                flag("dpo", 1, 4), bits("reserved", 1, 5, 3), bits("group_number", 14, 0, 5), flag("mmc4", 14, 7)],
               response, extra=block_size)


class LBA21(F):
    """ logical block address of the 6-byte commands: low 5 bits of byte 1, then bytes 2 and 3 """

    def __init__(self):
        F.__init__(self, "logical_block_address", 1, 21, 0)

    def put(self, raw, value):
        assert 0 <= value < 1 << 21
        raw[1] |= value >> 16
        raw[2] = (value >> 8) & 0xff
        raw[3] = value & 0xff


def write_specs():
    """ `blocks` and `block_size` determine the buffer """
    def extra(values):
        result = {"buffer": data(values)}
        if "block_size" in values:
            result["block_size"] = values["block_size"]
        return result

    def data(values):
        return payload(values.get("blocks", 1) * values.get("block_size", 512))

    def transfer(values):
        return "write", data(values)

    def blocks(values):
        return {"transfer_length": values.get("blocks", 1)}

    flags = [flag("fua_nv", 1, 1), flag("fua", 1, 3), flag("dpo", 1, 4), bits("wrprotect", 1, 5, 3)]
    yield Spec("Write6Command", cls("write", "Write6Command"), 6, {0: 0x0a},
               [LBA21(), F("transfer_length", 4, 8, how="derived")], transfer, extra,
               lambda v: {"transfer_length": v.get("blocks", 1) & 0xff})
    yield Spec("Write10Command", cls("write", "Write10Command"), 10, {0: 0x2a},
               [F("logical_block_address", 2, 32), F("transfer_length", 7, 16, how="derived"),
                bits("group_number", 6, 0, 5)] + flags, transfer, extra, blocks)
    yield Spec("Write12Command", cls("write", "Write12Command"), 12, {0: 0xaa},
               [F("logical_block_address", 2, 32), F("transfer_length", 6, 32, how="derived"),
                bits("group_number", 10, 0, 5)] + flags, transfer, extra, blocks)
    yield Spec("Write16Command", cls("write", "Write16Command"), 16, {0: 0x8a},
               [F("logical_block_address", 2, 64), F("transfer_length", 10, 32, how="derived"),
                bits("group_number", 14, 0, 5)] + flags, transfer, extra, blocks)


def block_specs():
    def extra(values):
        result = {"buffer": data(values)}
        if "block_size" in values:
            result["block_size"] = values["block_size"]
        return result

    def data(values):
        return payload(values.get("data_blocks", 1) * values.get("block_size", 512))

    def transfer(values):
        return "write", data(values)

    yield Spec("CompareAndWriteCommand", cls("compare_and_write", "CompareAndWriteCommand"), 16, {0: 0x89},
               [F("logical_block_address", 2, 64), F("number_of_logical_blocks", 13, 8), flag("fua_nv", 1, 1),
                flag("fua", 1, 3), flag("dpo", 1, 4), bits("wrprotect", 1, 5, 3), bits("group_number", 14, 0, 5)],
               transfer, extra)
    yield Spec("WriteSame10Command", cls("write_same", "WriteSame10Command"), 10, {0: 0x41},
               [F("logical_block_address", 2, 32), F("number_of_blocks", 7, 16), flag("lbdata", 1, 1), flag("pbdata", 1, 2),
                bits("wrprotect", 1, 5, 3), bits("group_number", 6, 0, 5)], transfer, extra)
    yield Spec("WriteSame16Command", cls("write_same", "WriteSame16Command"), 16, {0: 0x93},
               [F("logical_block_address", 2, 64), F("number_of_blocks", 10, 32), flag("lbdata", 1, 1),
                flag("pbdata", 1, 2), flag("unmap", 1, 3), bits("wrprotect", 1, 5, 3), bits("group_number", 14, 0, 5)],
               transfer, extra)


def unmap_parameter_list(ranges):
    body = b"".join(lba.to_bytes(8, "big") + count.to_bytes(4, "big") + bytes(4) for lba, count in ranges)
    return (len(body) + 6).to_bytes(2, "big") + len(body).to_bytes(2, "big") + bytes(4) + body


def unmap_spec():
    def ranges(values):
        return [tuple(item) for item in values.get("ranges", [])]
    return Spec("UnmapCommand", cls("unmap", "UnmapCommand"), 10, {0: 0x42},
                [bits("GROUP_NUMBER", 6, 0, 5), F("parameter_list_length", 7, 16, how="derived")],
                lambda v: ("write", unmap_parameter_list(ranges(v))), lambda v: {"ranges_list": ranges(v)},
                lambda v: {"parameter_list_length": 8 + 16 * len(ranges(v))})


def info_specs():
    def allocation(values):
        return "read", values["allocation_length"]

    yield Spec("StandardInquiryCommand", cls("inquiry.standard", "StandardInquiryCommand"), 6, {0: 0x12},
               [F("evpd", 1, 1, 0), F("page_code", 2, 8), F("allocation_length", 3, 16)], allocation)
    yield Spec("InquiryCommand", lambda: module("inquiry").InquiryCommand, 6, {0: 0x12},
               [F("evpd", 1, 1, 0), F("page_code", 2, 8), F("allocation_length", 3, 16)], allocation,
               extra=lambda v: {"result_class": Raw})
    yield Spec("TestUnitReadyCommand", cls("tur", "TestUnitReadyCommand"), 6, {}, [], lambda v: ("none", None))
    yield Spec("ReadCapacity10Command", cls("read_capacity", "ReadCapacity10Command"), 10, {0: 0x25},
               [F("logical_block_address", 2, 32), F("pmi", 8, 1, 0)], lambda v: ("read", 8))
    yield Spec("ReadCapacity16Command", cls("read_capacity", "ReadCapacity16Command"), 16, {0: 0x9e, 1: 0x10},
               [F("logical_block_address", 2, 64), F("allocation_length", 10, 32, how="attr"), F("pmi", 14, 1, 0)],
               allocation, base={"allocation_length": 32})
    yield Spec("ReportLunsCommand", cls("report_luns", "ReportLunsCommand"), 12, {0: 0xa0},
               [F("select_report", 2, 8), F("allocation_length", 6, 32)], allocation)
    yield Spec("RTPGCommand", cls("rtpg", "RTPGCommand"), 12, {0: 0xa3, 1: 0x0a},
               [F("parameter_data_format", 1, 3, 5), F("allocation_length", 6, 32)], allocation)
    yield Spec("LogSenseCommand", cls("log_sense", "LogSenseCommand"), 10, {0: 0x4d},
               [F("page_code", 2, 6, 0), F("subpage_code", 3, 8), F("allocation_length", 7, 16),
                flag("sp", 1, 0), bits("pc", 2, 6, 2), F("parameter_pointer", 5, 16, how="attr")], allocation,
               buffer_control=True)
    yield Spec("ReceiveCopyOperatingParametersCommand",
               cls("receive_copy_operating_parameters", "ReceiveCopyOperatingParametersCommand"), 16, {0: 0x84, 1: 3},
               [F("allocation_length", 10, 32), F("control", 15, 8)], allocation, has_control=False)
    yield Spec("ReceiveDiagnosticResultCommand", cls("diagnostic", "ReceiveDiagnosticResultCommand"), 6, {0: 0x1c},
               [F("pcv", 1, 1, 0), F("page_code", 2, 8), F("allocation_length", 3, 16)], allocation,
               extra=lambda v: {"result_class": Raw, "conf_page": None}, buffer_control=True)


class Raw(object):
    """ a result class that keeps what it is given """

    def __init__(self, **kwargs):
        self.kwargs = kwargs

    def unpack(self, raw):
        self.raw = raw


def reservation_specs():
    def nothing(values):
        return "write", b""

    def third_party(values):
        device = values.get("third_party_device_id", 0)
        if not device:
            return {"third_party": 0, "long_id": 0, "short_id": 0, "parameter_list_length": 0}
        if device < 255:
            return {"third_party": 1, "long_id": 0, "short_id": device, "parameter_list_length": 0}
        return {"third_party": 1, "long_id": 1, "short_id": 0, "parameter_list_length": 8}

    def parameters(values):
        device = values.get("third_party_device_id", 0)
        return "write", device.to_bytes(8, "big") if device >= 255 else b""

    for name, six, ten in (("Reserve", 0x16, 0x56), ("Release", 0x17, 0x57)):
        yield Spec(name + "6Command", cls(name.lower(), name + "6Command"), 6, {0: six}, [], nothing, buffer_control=True)
        yield Spec(name + "10Command", cls(name.lower(), name + "10Command"), 10, {0: ten},
                   [F("long_id", 1, 1, 1, "derived"), F("third_party", 1, 1, 4, "derived"),
                    F("short_id", 3, 8, how="derived"), F("parameter_list_length", 7, 16, how="derived")],
                   parameters, lambda v: {"third_party_device_id": v["third_party_device_id"]}
                   if "third_party_device_id" in v else {}, third_party, buffer_control=True)


def persistent_in_spec():
    return Spec("PersistentReserveInCommand", cls("persist.input", "PersistentReserveInCommand"), 10, {0: 0x5e},
                [F("service_action", 1, 5, 0), F("allocation_length", 7, 16)],
                lambda v: ("read", v["allocation_length"]), buffer_control=True, base={"allocation_length": 520})


REGISTER_AND_MOVE = 7


def persistent_out_parameters(values):
    raw = bytearray(24)
    raw[0:8] = values.get("reservation_key", 0).to_bytes(8, "big")
    raw[8:16] = values.get("service_action_reservation_key", 0).to_bytes(8, "big")
    if values["service_action"] != REGISTER_AND_MOVE:
        raw[20] = (values.get("activate_persist_through_power_loss", 0) | values.get("all_target_ports", 0) << 2 |
                   values.get("specify_initiator_ports", 0) << 3)
        return bytes(raw)
    raw[17] = values.get("activate_persist_through_power_loss", 0) | values.get("unregister", 0) << 1
    raw[18:20] = values.get("relative_target_port_identifier", 0).to_bytes(2, "big")
    transport = transport_id(values)
    raw[20:24] = len(transport).to_bytes(4, "big")
    return bytes(raw) + transport


def transport_id(values):
    protocol, format_code, data = values["transport_id"]
    return bytes([protocol | format_code << 6]) + bytes.fromhex(data)


PR_OUT_OPTIONS = ("reservation_key", "service_action_reservation_key", "activate_persist_through_power_loss",
                  "all_target_ports", "specify_initiator_ports", "unregister", "relative_target_port_identifier")


def persistent_out_spec():
    def extra(values):
        arguments = dict((name, values[name]) for name in PR_OUT_OPTIONS if name in values)
        if "transport_id" in values:
            protocol, format_code, data = values["transport_id"]
            arguments["transport_id"] = module("persist.transport").TransportId(
                protocol_identifier=protocol, format_code=format_code, specific_data=bytearray.fromhex(data))
        return arguments

    return Spec("PersistentReserveOutCommand", cls("persist.output", "PersistentReserveOutCommand"), 10, {0: 0x5f},
                [F("service_action", 1, 5, 0), F("pr_type", 2, 4, 0), bits("scope", 2, 4, 4),
                 F("parameter_list_length", 5, 32, how="derived")],
                lambda v: ("write", persistent_out_parameters(v)), extra,
                lambda v: {"parameter_list_length": len(persistent_out_parameters(v))}, buffer_control=True)
