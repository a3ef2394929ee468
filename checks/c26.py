"""C26: device identification designators are decoded completely and in order."""
import itertools

from mc.core import Group, hexs, unhex, require
from mc.decode import check_decode, compare, on_device, run_command, EDGES, BACKGROUNDS, background, sweep
from mc import vpdspec
from mc.vpdspec import make_page, make_designator, known_designators, fill, EUI

from infi.asi.cdb.inquiry.vpd_pages import DeviceIdentificationVPDPageCommand, DeviceIdentificationVPDPageBuffer

ID = "C26"
LEVEL = "exploration"
RULE = ("a case is one device identification page image; the decoded list is compared, designator by designator, with the "
        "reference decoder; distinct = distinct pages")
ASSUMPTIONS = ["the length of a designator is the one SPC gives for its format, where SPC gives one",
               "the T10 vendor identification is ASCII; its trailing blanks and NULs are padding"]
COMMAND = DeviceIdentificationVPDPageCommand


def run_page(arg):
    raw = unhex(arg)
    if len(raw) <= 252:
        check_decode(COMMAND, raw, vpdspec.device_identification(raw), "page")
    else:
        data = DeviceIdentificationVPDPageBuffer()
        data.unpack(raw)
        compare(data, vpdspec.device_identification(raw), "page")
    return hash(raw)


def run_device(arg):
    raw = unhex(arg)
    result, response = on_device(COMMAND, raw)
    compare(result, vpdspec.device_identification(response), "page")
    return hash(raw)


def run_sequence(arg):
    names, association = arg
    table = known_designators()
    body = b"".join(make_designator(*table[name], association=(association + index) % 4, protocol=index * 5 % 16,
                                    piv=index % 2, code_set=1 + index % 3) for index, name in enumerate(names))
    raw = make_page(0x83, body)
    direct = DeviceIdentificationVPDPageBuffer()
    direct.unpack(raw)
    compare(direct, vpdspec.device_identification(raw), "unpacked %s" % (names,))
    if len(names) < 3:
        for trailing in (b"", bytes(30), b"\x01\x03\0\x08" + fill(8, 0x50), b"\xff" * 9):
            if len(raw + trailing) <= 252:
                check_decode(COMMAND, raw + trailing, vpdspec.device_identification(raw), "page of %s" % (names,))
    return tuple(names), association


def run_unknown(arg):
    """ a format the library has no fields for: refused, or decoded without inventing anything """
    raw = unhex(arg)
    try:
        result = run_command(COMMAND, raw)
    except Exception:
        return "refused", hash(raw)
    compare(result, vpdspec.device_identification(raw), "page")
    for item in result.designators_list:
        for name in INVENTED:
            require(not hasattr(item, name), "page %s: an identifier of a format SPC reserves has %s %r" %
                    (raw.hex(), name, getattr(item, name, None)))
    return "decoded", hash(raw)


INVENTED = ("ieee_company", "ieee_company_id", "vendor_specific_identifier", "vendor_specific_identifier_a",
            "vendor_specific_identifier_b", "vendor_specific_identifier_extension", "vendor_specific_extension_identifer",
            "locally_administered_value", "identifier_extension", "directory_id", "relative_target_port_identifier",
            "target_port_group", "logical_unit_group", "md5_logical_unit_identifier", "scsi_name_string")


def one(kind, data, **kwargs):
    return hexs(make_page(0x83, make_designator(kind, data, **kwargs)))


def text_positions(kind, data):
    return range(8, 16) if kind == 1 else ()


def header_cases(name, kind, data):
    for byte in range(256):
        yield hexs(make_page(0x83, make_designator(kind, data), peripheral_byte=byte))
        yield one(kind, data, code_set=byte & 15, protocol=byte >> 4)
        yield one(kind, data, reserved=byte)
    for association, piv, extra in itertools.product(range(4), range(2), range(2)):
        page = bytearray(make_page(0x83, make_designator(kind, data, association=association, piv=piv)))
        page[5] |= extra << 6
        yield hexs(page)


def payload_cases(name, kind, data):
    """ every byte of the identifier through its values; the NAA format and the text stay what they are """
    for kind_of_background in BACKGROUNDS + ("own",):
        body = bytes(data) if kind_of_background == "own" else bytes(background(len(data), kind_of_background))
        page = bytearray(make_page(0x83, make_designator(kind, body)))
        for position in text_positions(kind, data):
            page[position] &= 0x7f
        if kind == 3:
            page[8] = data[0] & 0xf0 | page[8] & 0x0f
        for image in sweep(page, range(8, len(page))):
            image = bytearray(image)
            for position in text_positions(kind, data):
                image[position] &= 0x7f
            if kind == 3:
                image[8] = data[0] & 0xf0 | image[8] & 0x0f
            yield hexs(image)
        for first, second in itertools.combinations(range(8, len(page)), 2):
            for a, b in ((0, 0x80), (0x80, 0), (0x7f, 0x01), (0x01, 0x7f)):
                image = bytearray(page)
                if kind == 3 and first == 8:
                    a = data[0] & 0xf0 | a & 15
                image[first], image[second] = a, b & 0x7f if second in text_positions(kind, data) else b
                for position in text_positions(kind, data):
                    image[position] &= 0x7f
                yield hexs(image)


def length_cases():
    for kind in (0, 7, 8) + tuple(range(9, 16)):
        for length in range(256):
            for start in (0, 0x80, 0xe1):
                yield one(kind, fill(length, start))
                yield hexs(make_page(0x83, make_designator(kind, fill(length, start)) + make_designator(4, b"\0\0\1\2")))
    for length in range(8, 256):
        for start in (0, 0x80):
            yield one(1, b"VENDOR  " + fill(length - 8, start))
            yield hexs(make_page(0x83, make_designator(1, b"VENDOR  " + fill(length - 8, start)) +
                                 make_designator(5, b"\0\0\1\2")))


def unknown_cases():
    for naa in range(16):
        if naa not in (2, 3, 5, 6):
            for length in list(range(1, 25)) + [32, 64, 128, 236]:
                for start in (0x10, 0xff):
                    yield one(3, bytes([naa << 4 | start & 15]) + fill(length - 1, start))
    for length in range(0, 237):
        if length not in EUI:
            yield one(2, fill(length))


def groups(tier):
    thorough = tier == "thorough"
    table = known_designators()
    for name, (kind, data) in sorted(table.items()):
        yield Group("header/" + name, sorted(set(header_cases(name, kind, data))), run_page)
        if data:
            yield Group("identifier/" + name, sorted(set(payload_cases(name, kind, data))), run_page,
                        bound="each byte x 256 values on 5 backgrounds, pairs of bytes x edge values")
    lengths = sorted(set(length_cases()))
    for part in range(4):
        yield Group("lengths/%d" % part, lengths[part::4], run_page, bound="identifiers of 0..255 bytes")
    yield Group("lengths/device", [case for case in lengths if len(case) <= 504][::9], run_device)
    yield Group("unknown-formats", list(unknown_cases()), run_unknown)
    names = sorted(table)
    depth = 4 if thorough else 3
    sequences = [[list(item), association] for count in range(depth + 1) for item in itertools.product(names, repeat=count)
                 for association in ((0, 3) if count < 3 else (1,))]
    parts = 64 if thorough else 8
    for part in range(parts):
        yield Group("sequences/%d" % part, sequences[part::parts], run_sequence,
                    bound="all sequences of up to %d of the %d formats" % (depth, len(names)))
