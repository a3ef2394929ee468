"""C19: out-of-range command arguments are rejected before anything is sent."""
from mc.core import Group, Violation, require
from mc.backends import SgFile, linux_sg
from mc import cdbspec
from mc.cdbspec import Recorder, execute, module

from infi.asi.coroutines.sync_adapter import sync_wait

ID = "C19"
LEVEL = "exploration"
RULE = ("a case is one command with one argument that does not fit its field (or an inconsistent buffer), the others valid; "
        "it must raise, at construction or execution, without submitting anything; the companion cases with the largest "
        "value that fits must be submitted; distinct = distinct (command, argument, value) combinations")
ASSUMPTIONS = ["numeric constructor arguments; flags are booleans and attributes set later are the caller's",
               "WRITE (12, 16) of 2^32 blocks or more would need buffers of that many bytes and is not tried"]

SPECS = {}
for spec in list(cdbspec.read_specs()) + list(cdbspec.write_specs()) + list(cdbspec.block_specs()) + \
        list(cdbspec.info_specs()) + [cdbspec.persistent_in_spec(), cdbspec.persistent_out_spec()]:
    SPECS[spec.name] = spec


def refused(build, what):
    """ building or executing raises, and no executer, recording or real, sees a command """
    recorder, device = Recorder(), SgFile()
    for attempt in (lambda command: execute(command, recorder),
                    lambda command: sync_wait(command.execute(linux_sg(device)))):
        try:
            attempt(build())
        except Violation:
            raise
        except Exception:
            pass
        else:
            sent = (recorder.commands or [(device.submissions[0].cdb if device.submissions else b"", "", "")])[0]
            raise Violation("%s was accepted, CDB %s" % (what, sent[0].hex()))
        require(not recorder.commands, "%s was sent, CDB %s" % (what, (recorder.commands or [(b"",)])[0][0].hex()))
        require(not device.submissions, "%s reached the device" % what)


def run_argument(arg):
    name, argument, value, others = arg
    spec = SPECS[name]
    values = dict(spec.defaults(), **others)
    fine = spec.arguments(values)
    require(argument in fine or name == "PersistentReserveOutCommand", "%s has no %s" % (name, argument))

    def build():
        return spec.load()(**dict(fine, **{argument: value}))
    refused(build, "%s with %s=%d" % (name, argument, value))
    return name, argument, value, repr(others)


def run_fits(arg):
    """ the bound is not too tight either: the extreme values are accepted """
    name, values = arg
    spec = SPECS[name]
    recorder = Recorder(lambda length: b"\0" * min(length, 600))
    try:
        execute(spec.make(values), recorder)
    except Exception:
        if not recorder.commands:
            raise
    cdbspec.check_recorded(spec, values, recorder)
    return name, spec.encode(values)


def run_buffer(arg):
    name, lba, length, kwargs = arg
    if name == "CompareAndWriteCommand":
        kwargs = dict(kwargs, number_of_logical_blocks=1)
    refused(lambda: SPECS[name].load()(logical_block_address=lba, buffer=bytes(length), **kwargs),
            "%s with a buffer of %d bytes, %r" % (name, length, kwargs))
    return name, length, repr(kwargs)


def run_unmap(arg):
    ranges = [tuple(item) for item in arg] if isinstance(arg, list) else [(index, 1) for index in range(arg)]
    refused(lambda: module("unmap").UnmapCommand(ranges_list=ranges), "UNMAP of %s" % repr(ranges)[:80])
    return repr(arg)


def run_third_party(arg):
    name, value = arg
    refused(lambda: getattr(module(name.lower()), name + "10Command")(third_party_device_id=value),
            "%s (10) for device %d" % (name, value))
    return name, value


def run_page(arg):
    family, page_code = arg
    if family == "vpd":
        build = lambda: module("inquiry.vpd_pages").get_vpd_page(page_code)()
    else:
        build = lambda: module("diagnostic.ses_pages").get_ses_page(page_code)()
    refused(build, "%s page %d" % (family, page_code))
    return family, page_code


def misfits(width):
    top = 1 << width
    values = {top, top + 1, top + 2, top + 0x55, 2 * top - 1, 2 * top, 2 * top + 1, 3 * top, top << 7, top << 8, top << 16,
              (top << 8) + 1, (top << 32) + 1, (1 << 64), (1 << 64) + 1, (1 << 65) + 5, 1 << 100, 10 ** 30}
    values |= {1 << bit for bit in range(width, width + 72)}
    values |= {-1, -2, -5, -128, -255, -256, -top, -top + 1, -(top >> 1), -(top >> 1) - 1, 1 - (top >> 1), -(1 << 64), -10 ** 30}
    return sorted(value for value in values if value < 0 or value >= top)


BACKGROUNDS = {
    "Read6Command": [{"transfer_length": 1}, {"logical_block_address": 5, "transfer_length": 255}],
    "Read10Command": [{"transfer_length": 1}, {"logical_block_address": 0xffffffff, "transfer_length": 3}],
    "Read12Command": [{"transfer_length": 1}, {"logical_block_address": 0xffffffff, "transfer_length": 3}],
    "Read16Command": [{"transfer_length": 1}, {"logical_block_address": (1 << 64) - 1, "transfer_length": 3}],
    "RTPGCommand": [{"allocation_length": 64}, {"allocation_length": 64, "parameter_data_format": 1}],
    "PersistentReserveOutCommand": [{"service_action": action, "pr_type": 1} for action in range(9) if action != 7] +
                                   [{"service_action": 7, "pr_type": 1, "transport_id": [6, 0, "00" * 23]}],
}
FLAGS = ("evpd", "pmi", "pcv")


def argument_cases(name):
    spec = SPECS[name]
    for others in BACKGROUNDS.get(name, [{}, {"allocation_length": 64}] if spec.field("allocation_length") else
                                  [{}, {"blocks": 2}] if name.startswith("Write") else [{}]):
        for field in spec.fields:
            if field.how == "arg" and field.name not in FLAGS:
                for value in misfits(field.width):
                    yield [name, field.name, value, others]
    if name == "RTPGCommand":
        for value in range(2, 8):
            yield [name, "parameter_data_format", value, {}]
    if name == "PersistentReserveInCommand":
        for value in range(8):
            yield [name, "allocation_length", value, {}]
    if name == "PersistentReserveOutCommand":
        for others in BACKGROUNDS[name]:
            move = others["service_action"] == 7
            for field, width in (("reservation_key", 64), ("service_action_reservation_key", 64)) + \
                    ((("relative_target_port_identifier", 16),) if move else ()):
                for value in misfits(width):
                    yield [name, field, value, others]
        for value in range(9, 32):
            yield [name, "service_action", value, {}]


def fitting_cases(name):
    spec = SPECS[name]
    for others in BACKGROUNDS.get(name, [{}]):
        for field in spec.fields:
            if field.how != "arg" or field.name in FLAGS:
                continue
            top = (1 << field.width) - 1
            for value in (0, 1, top - 1, top):
                values = dict(spec.defaults(), **others)
                values[field.name] = value
                if name == "RTPGCommand" and values["parameter_data_format"] > 1:
                    continue
                if name == "PersistentReserveInCommand" and values["allocation_length"] < 8:
                    continue
                if field.name == "service_action" and name == "PersistentReserveOutCommand":
                    continue
                if spec.field("transfer_length") and values.get("transfer_length", 0) > 1 << 16:
                    values["block_size"] = 1
                yield [name, values]


def buffer_cases():
    for name in ("Write6Command", "Write10Command", "Write12Command", "Write16Command", "CompareAndWriteCommand"):
        for size in (None, 2, 512, 520, 4096):
            kwargs = {"block_size": size} if size else {}
            for length in (1, (size or 512) - 1, (size or 512) + 1, 3 * (size or 512) - 1, 3 * (size or 512) + 1):
                yield [name, 0, length, kwargs]
    for name in ("WriteSame10Command", "WriteSame16Command"):
        for length in (1, 2, 255, 256, 511, 513, 520, 1023, 1025, 1535):
            yield [name, 0, length, {}]
    yield ["Write12Command", 0, 0, {}]
    for size in (1, 2, 512):
        yield ["Write6Command", 0, 0, {"block_size": size}]
        for blocks in (257, 258, 511, 512, 513):
            yield ["Write6Command", 0, blocks * size, {"block_size": size}]
    for blocks in (65536, 65537, 65538, 131071, 131072, 131073, 1 << 20):
        yield ["Write10Command", 0, blocks, {"block_size": 1}]


def unmap_cases():
    fine = [5, 6]
    for value in misfits(64):
        for ranges in ([[value, 1]], [fine, [value, 1]], [[value, 1], fine]):
            yield ranges
    for value in misfits(32):
        for ranges in ([[1, value]], [fine, [1, value]], [[1, value], fine]):
            yield ranges
    for count in (4096, 4097, 5000, 8191, 8192, 65536):
        yield count


def groups(tier):
    for name in sorted(SPECS):
        cases = list(argument_cases(name))
        if cases:
            yield Group(name, cases, run_argument)
            yield Group(name + "/fits", list(fitting_cases(name)), run_fits)
    yield Group("buffers", buffer_cases(), run_buffer)
    yield Group("unmap", unmap_cases(), run_unmap)
    yield Group("third party", [[name, value] for name in ("Reserve", "Release") for value in misfits(64)], run_third_party)
    yield Group("pages", [[family, value] for family in ("vpd", "ses") for value in misfits(8)], run_page)
