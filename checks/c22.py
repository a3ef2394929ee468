"""C22: reservation commands encode service action, scope, type and keys."""
from mc.core import Group, require
from mc.backends import SgFile, linux_sg, IN, OUT
from mc import cdbspec
from mc.cdbspec import single_field_cases, small_product, Recorder, execute, check_recorded, field_values

from infi.asi.coroutines.sync_adapter import sync_wait

ID = "C22"
LEVEL = "exploration"
RULE = ("a case is one reservation command built from one assignment of service action, type, scope, keys, flags, third "
        "party or transport id; the CDB and parameter list it submits are compared byte for byte with the reference "
        "layout; distinct = distinct submissions")
ASSUMPTIONS = ["parameter lists of REGISTER AND MOVE carry the transport id as given, without padding"]

IN_SPEC = cdbspec.persistent_in_spec()
OUT_SPEC = cdbspec.persistent_out_spec()
RESERVATION = dict((spec.name, spec) for spec in cdbspec.reservation_specs())
SPECS = dict(RESERVATION, **{IN_SPEC.name: IN_SPEC, OUT_SPEC.name: OUT_SPEC})
TRANSPORT = [6, 0, "00" * 3 + "5001438012345678" + "00" * 12]
BASIC = ("activate_persist_through_power_loss", "all_target_ports", "specify_initiator_ports")
MOVE = ("activate_persist_through_power_loss", "unregister")


KEYS = [0, 1, (1 << 31) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]


def run_encoding(arg):
    name, values, touch_all = arg
    spec = SPECS[name]
    recorder = Recorder(lambda length: b"\0" * min(length, 600))
    command = spec.make(values, touch_all)
    try:
        execute(command, recorder)
    except Exception:
        if not recorder.commands:
            raise
    check_recorded(spec, values, recorder)
    return name, spec.expected(values)


def run_device(arg):
    name, values = arg
    spec = SPECS[name]
    cdb, kind, what = spec.expected(values)
    device = SgFile(lambda submission: {"data": b"\0" * min(submission.length, 600)})
    sync_wait(spec.make(values).execute(linux_sg(device)))
    require(len(device.submissions) == 1, "%d commands reached the device" % len(device.submissions))
    submission = device.submissions[0]
    require(submission.cdb == cdb, "%s%r: CDB %s, expected %s" % (name, values, submission.cdb.hex(), cdb.hex()))
    if kind == "read":
        require((submission.direction, submission.length) == (IN, what), "response buffer of %d bytes" % submission.length)
    elif what:
        require((submission.direction, submission.data_out) == (OUT, what), "parameter list %r" % (submission.data_out,))
    else:
        require(submission.length == 0, "%s moves %d bytes" % (name, submission.length))
    return name, cdb, values.get("service_action")


def out_cases(thorough):
    name = OUT_SPEC.name
    key = {"reservation_key": 0x0102030405060708, "service_action_reservation_key": 0xfffefdfcfbfaf9f8}

    def base(action, **more):
        values = dict(OUT_SPEC.defaults(), service_action=action, **key)
        if action == cdbspec.REGISTER_AND_MOVE:
            values["transport_id"] = TRANSPORT
        values.update(more)
        return values

    for action in range(9):
        options = MOVE if action == cdbspec.REGISTER_AND_MOVE else BASIC
        for pr_type in range(16):
            for scope in range(16):
                for flags in range(1 << len(options)):
                    yield [name, base(action, pr_type=pr_type, scope=scope,
                                      **dict((option, flags >> bit & 1) for bit, option in enumerate(options))), False]
        for flags in range(1 << len(options)):
            for naca in (0, 1):
                for vendor in range(4):
                    yield [name, base(action, naca=naca, vendor_specific=vendor, pr_type=5,
                                      **dict((option, flags >> bit & 1) for bit, option in enumerate(options))), naca == 1]
        for field in ("reservation_key", "service_action_reservation_key"):
            for value in field_values(64):
                yield [name, base(action, **{field: value}), False]
        yield [name, dict(OUT_SPEC.defaults(), service_action=action, pr_type=1,
                          **({"transport_id": TRANSPORT} if action == cdbspec.REGISTER_AND_MOVE else {})), False]
        for first in KEYS:
            for second in KEYS:
                for pr_type in range(16):
                    yield [name, base(action, reservation_key=first, service_action_reservation_key=second, pr_type=pr_type),
                           False]
    move = cdbspec.REGISTER_AND_MOVE
    for port in field_values(16):
        yield [name, base(move, relative_target_port_identifier=port), False]
        yield [name, base(move, relative_target_port_identifier=port, unregister=1,
                          activate_persist_through_power_loss=1), False]
    for protocol in range(16):
        for format_code in range(4):
            yield [name, base(move, transport_id=[protocol, format_code, TRANSPORT[2]]), False]
    for length in list(range(0, 300)) + [511, 512, 1000]:
        yield [name, base(move, transport_id=[5, 1, cdbspec.payload(length).hex()]), False]
    for position in range(23):
        for value in range(256):
            data = bytearray(23)
            data[position] = value
            yield [name, base(move, transport_id=[0, 0, bytes(data).hex()]), False]


def third_party_cases(name):
    spec = SPECS[name]
    for values in small_product(spec):
        for device in [None] + list(range(0, 300)) + [value for value in field_values(64)]:
            if device is not None and device > 300 and (values["naca"] or values["vendor_specific"]):
                continue
            extra = {} if device is None else {"third_party_device_id": device}
            yield [name, dict(values, **extra), bool(values["naca"])]


def groups(tier):
    thorough = tier == "thorough"
    cases = [[IN_SPEC.name, dict(values, allocation_length=max(8, values["allocation_length"])), touch]
             for values in single_field_cases(IN_SPEC) for touch in (False, True)]
    cases += [[IN_SPEC.name, dict(values, service_action=action, allocation_length=length), False]
              for values in small_product(IN_SPEC) for action in range(32) for length in (8, 9, 24, 255, 256, 520, 65535)]
    yield Group("PersistentReserveIn", cases, run_encoding)
    yield Group("PersistentReserveIn/device", [[IN_SPEC.name, dict(IN_SPEC.defaults(), service_action=action,
                                                                  allocation_length=length)]
                                               for action in range(4) for length in list(range(24, 600)) + [65535]], run_device)
    cases = list(out_cases(thorough))
    for part in range(6):
        yield Group("PersistentReserveOut/%d" % part, cases[part::6], run_encoding)
    yield Group("PersistentReserveOut/device", [case[:2] for case in cases[::97]], run_device)
    for name in sorted(RESERVATION):
        if name.endswith("10Command"):
            cases = list(third_party_cases(name))
        else:
            cases = [[name, values, touch] for values in small_product(SPECS[name]) for touch in (False, True)]
        yield Group(name, cases, run_encoding)
        yield Group(name + "/device", [case[:2] for case in cases[::11]], run_device)
