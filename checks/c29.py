"""C29: PERSISTENT RESERVE IN responses are decoded completely."""
import itertools

from mc.core import Group, hexs, unhex, require, require_harness
from mc.decode import NoneOr, check_decode, compare, fields, be, on_device, sweep, images, background, BACKGROUNDS, run_command

from infi.asi.cdb.persist.input import PersistentReserveInCommand

ID = "C29"
LEVEL = "exploration"
RULE = ("a case is one response to one of the four service actions; the decoded object is compared with the reference decoder; "
        "distinct = distinct (service action, response)")

READ_KEYS, READ_RESERVATION, REPORT_CAPABILITIES, READ_FULL_STATUS = range(4)

# SPC-4 6.15.3, 6.15.4 (tables 211, 212), 6.15.5
CAPABILITIES = {
    "length": (0, 2),
    "persist_through_power_lost_capable": (2, 0, 1), "all_target_ports_capable": (2, 2, 1),
    "specify_initiator_ports_capable": (2, 3, 1), "compatible_reservation_handling": (2, 4, 1),
    "replace_lost_reservation_capable": (2, 7, 1), "persist_through_power_lost_activates": (3, 0, 1),
    "allow_commands": (3, 4, 3), "type_mask_valid": (3, 7, 1),
    "write_exclusive": (4, 1, 1), "exclusive_access": (4, 3, 1), "write_exclusive_registrants_only": (4, 5, 1),
    "exclusive_access_registrants_only": (4, 6, 1), "write_exclusive_all_registrants": (4, 7, 1),
    "exclusive_access_all_registrants": (5, 0, 1)}
STATUS = {"reservation_key": (0, 8), "reservation_holder": (12, 0, 1), "all_target_ports": (12, 1, 1), "pr_type": (13, 0, 4),
          "scope": (13, 4, 4), "relative_target_port_identifier": (18, 20), "additional_length": (20, 24)}
HEADER = {"pr_generation": (0, 4), "additional_length": (4, 8)}


def reference(action, raw):
    if action == REPORT_CAPABILITIES:
        return fields(raw, CAPABILITIES)
    expected = fields(raw, HEADER)
    length = expected["additional_length"]
    if action == READ_KEYS:
        expected["key_list"] = [be(raw, at, at + 8) for at in range(8, 8 + length, 8)]
    elif action == READ_RESERVATION:
        table = {"reservation_key": (8, 16), "pr_type": (21, 0, 4), "scope": (21, 4, 4)}
        if length == 0:
            expected.update((name, NoneOr(0)) for name in table)
        else:
            # a field that was not transferred is absent
            expected.update((name, fields(raw, {name: spec})[name] if len(raw) >= (16 if name == "reservation_key" else 22) else None)
                            for name, spec in table.items())
    else:
        at, end, found = 8, 8 + length, []
        while at < end:
            status = fields(raw, STATUS, at)
            stop = at + 24 + status["additional_length"]
            status["transport_id"] = {"protocol_identifier": raw[at + 24] & 15, "format_code": raw[at + 24] >> 6,
                                      "specific_data": bytes(raw[at + 25:stop])}
            found.append(status)
            at = stop
        require_harness(at == end, "descriptors do not fill the response")
        expected["full_status_descriptors"] = found if found else NoneOr()
    return expected


def command(action, allocation_length=None):
    kwargs = {} if allocation_length is None else dict(allocation_length=allocation_length)
    return lambda: PersistentReserveInCommand(action, **kwargs)


def check_allocation(result, action, raw):
    wanted = 8 if action == REPORT_CAPABILITIES else 8 + be(raw, 4, 8)
    found = result.required_allocation_length()
    require(found == wanted, "required_allocation_length() is %r, the whole response has %d bytes (%s)" % (found, wanted, bytes(raw[:64]).hex()))


def run_image(arg):
    action, raw = arg[0], unhex(arg[1])
    result = check_decode(command(action, 4096), raw, reference(action, raw), "service action %d" % action)
    check_allocation(result, action, raw)
    return action, hash(raw)


def run_device(arg):
    action, raw, allocation_length = arg[0], unhex(arg[1]), arg[2]
    result, _ = on_device(command(action, allocation_length), raw)
    compare(result, reference(action, raw), "service action %d" % action)
    check_allocation(result, action, raw)
    return action, hash(raw), allocation_length


def response(body, generation=0x80000001):
    return generation.to_bytes(4, "big") + len(body).to_bytes(4, "big") + bytes(body)


def make_status(length, kind="count", first=0x45):
    status = background(24 + length, kind, {20: length.to_bytes(4, "big")})
    status[24] = first
    return bytes(status)


def run_counts(arg):
    action, counts, trailing = arg
    if action == READ_KEYS:
        body = b"".join((0x8000000000000001 * (index + 3) + index * 0x0102030405 & (1 << 64) - 1).to_bytes(8, "big") for index in range(counts))
    else:
        body = b"".join(make_status(length, BACKGROUNDS[index % 4], (index * 0x4b + 5) & 0xff) for index, length in enumerate(counts))
    raw = response(body) + bytes([trailing & 0xff]) * (trailing >> 8)
    result = check_decode(command(action, 65535), raw, reference(action, raw), "service action %d with %s" % (action, counts))
    check_allocation(result, action, raw)
    return action, str(counts), trailing


def run_short(arg):
    """ the allocation length ends the response: what was transferred is decoded, what was not is absent """
    action, whole, length = arg[0], unhex(arg[1]), arg[2]
    raw = whole[:length]
    expected = reference(READ_RESERVATION, raw) if action == READ_RESERVATION else dict(fields(raw, HEADER), key_list=None)
    result = run_command(command(action, length), raw)
    compare(result, expected, "service action %d with an allocation length of %d" % (action, length))
    check_allocation(result, action, whole)
    return action, length, hash(whole)


def image_cases(thorough):
    for image in images(8, thorough=thorough):
        yield REPORT_CAPABILITIES, image
    for length in (0, 16):
        fixed = {4: length.to_bytes(4, "big")}
        for image in images(8 + 16, fixed, positions=None if length else list(range(4)), thorough=thorough,
                            kinds=("zeros",) if not length else BACKGROUNDS):
            yield READ_RESERVATION, image
    for count in (1, 2, 3):
        for image in images(8 + 8 * count, {4: (8 * count).to_bytes(4, "big")}, thorough=thorough):
            yield READ_KEYS, image
    for bit in range(64):
        yield READ_KEYS, response((1 << bit).to_bytes(8, "big") + ((1 << 64) - 1 ^ 1 << bit).to_bytes(8, "big"))
    for length in (24, 28) + ((4, 40, 260) if thorough else ()):
        fixed = {4: (24 + length).to_bytes(4, "big"), 28: length.to_bytes(4, "big")}
        for image in images(8 + 24 + length, fixed, thorough=thorough, kinds=BACKGROUNDS if length == 24 else ("count",)):
            yield READ_FULL_STATUS, image
    for kind in BACKGROUNDS:
        raw = response(make_status(24, kind, 0) + make_status(28, kind, 0x46) + make_status(24, kind, 0x86))
        locked = set(range(8)) | {at + 20 + byte for at in (8, 56, 108) for byte in range(4)}
        for image in sweep(raw, [position for position in range(len(raw)) if position not in locked]):
            yield READ_FULL_STATUS, image


def groups(tier):
    thorough = tier == "thorough"
    cases = [[action, hexs(image)] for action, image in image_cases(thorough)]
    parts = 16
    for part in range(parts):
        yield Group("bytes/%d" % part, cases[part::parts], run_image,
                    bound="each byte x 256 values on 4 backgrounds, pairs of bytes x edge values")
    yield Group("bytes/device", [case + [length] for case in cases[::41] for length in (520, 4096, 300)], run_device)
    counts = range(0, 8000) if thorough else list(range(0, 260)) + list(range(260, 8190, 241)) + [8190]
    yield Group("keys", [[READ_KEYS, count, trailing] for count in counts for trailing in (0, 5 << 8, 8 << 8 | 0xff, 511 << 8)],
                run_counts, bound="0..8190 keys, exact and padded responses")
    lengths = (24, 28, 36, 224)
    depth = 5 if thorough else 4
    shapes = [list(item) for count in range(depth + 1) for item in itertools.product(lengths, repeat=count)]
    cases = [[READ_FULL_STATUS, shape, trailing] for shape in shapes for trailing in (0, 24 << 8, 23 << 8 | 0xff, 400 << 8)]
    for part in range(4):
        yield Group("status/%d" % part, cases[part::4], run_counts, bound="all lists of up to %d full status descriptors of %d lengths" % (depth, len(lengths)))
    yield Group("transport-ids", [[READ_FULL_STATUS, [length] * repeat, 0] for length in range(1, 600 if thorough else 260) for repeat in (1, 2)], run_counts,
                bound="transport id lengths 1..259 (thorough 599)")
    yield Group("many-status", [[READ_FULL_STATUS, [24 + 4 * (index % 3) for index in range(count)], 0] for count in range(5, 900, 13 if thorough else 101)],
                run_counts, bound="up to 900 descriptors")
    cases = [[READ_RESERVATION, hexs(background(24, kind, {4: (16).to_bytes(4, "big")})), length] for kind in BACKGROUNDS for length in range(8, 25)]
    cases += [[READ_KEYS, hexs(response(background(8 * count, kind))), length] for kind in BACKGROUNDS for count in (1, 2, 5)
              for length in range(8, 8 + 8 * count)]
    yield Group("short-allocation", cases, run_short, bound="every allocation length from 8")
