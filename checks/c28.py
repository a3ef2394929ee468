"""C28: target port groups are decoded with every state, flag and port."""
import itertools

from mc.core import Group, hexs, unhex
from mc.decode import check_decode, compare, fields, be, on_device, sweep, pairs, background, BACKGROUNDS

from infi.asi.cdb.rtpg import RTPGCommand

ID = "C28"
LEVEL = "exploration"
RULE = ("a case is one REPORT TARGET PORT GROUPS response in one of the two formats; the decoded list of groups is compared "
        "with the reference decoder; distinct = distinct responses")

# SPC-4 6.37
GROUP = {"asymetric_access_state": (0, 0, 4), "pref": (0, 7, 1), "ao_sup": (1, 0, 1), "an_sup": (1, 1, 1), "s_sup": (1, 2, 1),
         "u_sup": (1, 3, 1), "lbd_sup": (1, 4, 1), "o_sup": (1, 6, 1), "t_sup": (1, 7, 1), "target_port_group": (2, 4),
         "status_code": (5,), "target_port_count": (7,)}


def reference(raw, extended):
    expected = {"data_length": be(raw, 0, 4)}
    if extended:
        expected["format_type"] = raw[4] >> 4 & 7
    at, end, found = 8 if extended else 4, 4 + be(raw, 0, 4), []
    while at < end:
        group = fields(raw, GROUP, at)
        group["target_port_list"] = [{"relative_target_port_identifier": be(raw, at + 8 + 4 * index + 2, at + 12 + 4 * index)}
                                     for index in range(raw[at + 7])]
        found.append(group)
        at += 8 + 4 * raw[at + 7]
    expected["descriptor_list"] = found
    return expected


def make_response(groups, extended, header=b"\x10\x05\0\0"):
    body = (header if extended else b"") + b"".join(groups)
    return len(body).to_bytes(4, "big") + body


def make_group(ports, kind="count", start=0):
    group = background(8 + 4 * ports, kind, {7: ports})
    for index in range(ports):
        group[8 + 4 * index:12 + 4 * index] = ((index + start) * 0x01234567 + 0x89ab).to_bytes(5, "big")[1:]
    return bytes(group)


def command(extended, **kwargs):
    return lambda: RTPGCommand(parameter_data_format=int(extended), **kwargs)


def run_image(arg):
    raw, extended = unhex(arg[0]), arg[1]
    check_decode(command(extended), raw, reference(raw, extended), "rtpg")
    return hash(raw), extended


def run_device(arg):
    raw, extended, allocation_length = unhex(arg[0]), arg[1], arg[2]
    result, _ = on_device(command(extended, allocation_length=allocation_length), raw)
    compare(result, reference(raw, extended), "rtpg")
    return hash(raw), allocation_length


def run_shape(arg):
    counts, extended, trailing = arg
    raw = make_response([make_group(ports, BACKGROUNDS[index % 4], index * 17) for index, ports in enumerate(counts)], extended)
    raw += bytes([trailing & 0xff]) * (trailing >> 8)
    check_decode(command(extended), raw, reference(raw, extended), "rtpg with %s ports" % counts)
    return tuple(counts), extended, trailing


def image_cases(thorough):
    for extended in (False, True):
        first = 8 if extended else 4
        for kind in BACKGROUNDS:
            for ports in (0, 1, 3):
                raw = bytearray(make_response([make_group(ports, kind)], extended))
                positions = [position for position in range(4, len(raw)) if position != first + 7]
                for image in itertools.chain(sweep(raw, positions), pairs(raw, positions)):
                    yield image, extended
            raw = bytearray(make_response([make_group(1, kind), make_group(2, kind), make_group(0, kind)], extended))
            locked = (first + 7, first + 12 + 7, first + 12 + 16 + 7)
            positions = [position for position in range(first, len(raw)) if position not in locked]
            for image in itertools.chain(sweep(raw, positions), pairs(raw, positions) if thorough else ()):
                yield image, extended


def groups(tier):
    thorough = tier == "thorough"
    cases = [[hexs(image), extended] for image, extended in image_cases(thorough)]
    parts = 16
    for part in range(parts):
        yield Group("bytes/%d" % part, cases[part::parts], run_image,
                    bound="each byte x 256 values on 4 backgrounds, pairs of bytes x edge values")
    yield Group("bytes/device", [case + [length] for case in cases[::37] for length in (16384, 64, 1000)], run_device)
    cases = [[[ports] * repeat, extended, 0] for ports in range(256) for extended in (False, True) for repeat in (1, 2)]
    yield Group("port-counts", cases, run_shape, bound="0..255 ports per group")
    depth, top = (5, 4) if thorough else (4, 4)
    shapes = [list(item) for count in range(depth + 1) for item in itertools.product(range(top), repeat=count)]
    cases = [[shape, extended, trailing] for shape in shapes for extended in (False, True)
             for trailing in (0, 7 << 8, 12 << 8 | 0xff, 900 << 8)]
    for part in range(4):
        yield Group("shapes/%d" % part, cases[part::4], run_shape, bound="all lists of up to %d groups of 0..%d ports" % (depth, top - 1))
    yield Group("many-groups", [[[count % 3] * count, extended, 0] for count in range(0, 400, 1 if thorough else 9)
                                for extended in (False, True)] + [[[0] * count, extended, 0] for count in (511, 512, 513, 1023,
                                1024, 1025, 1500, 2044) for extended in (False, True)], run_shape)
