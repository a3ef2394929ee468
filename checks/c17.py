"""C17: sense data is decoded to the key, code and descriptors it encodes."""
import itertools

from mc.core import Group, require, expect_equal, Violation
from mc import asc_reference
from mc.backends import SgFile, linux_sg, make_command, outcome_of
from infi.asi.sense import get_sense_object_from_buffer
from infi.asi.errors import AsiCheckConditionError

ID = "C17"
LEVEL = "exploration"
RULE = ("a case is one content of a sense buffer, decoded by the library directly or on the way through an executer, and "
        "compared field by field with an independent reading of SPC-4 4.5; distinct = distinct buffers")
ASSUMPTIONS = ["names of additional sense codes: the T10 list as of SPC-4 (mc/asc_reference.py)",
               "sense key specific bytes are exposed as the library splits them: 7 high bits, valid bit, low byte"]

KEYS = ("NO_SENSE RECOVERED_ERROR NOT_READY MEDIUM_ERROR HARDWARE_ERROR ILLEGAL_REQUEST UNIT_ATTENTION DATA_PROTECT "
        "BLANK_CHECK VENDOR_SPECIFIC COPY_ABORTED ABORTED_COMMAND RESERVED VOLUME_OVERFLOW MISCOMPARE COMPLETED").split()
ALL_NAMES = set(asc_reference.NAMES.values()) - set(name for name in asc_reference.NAMES.values()
                                                    if name.startswith("VENDOR"))


def number(data):
    return int.from_bytes(data, "big")


def check_code(code, qualifier, asc):
    expect_equal(code.code, asc[0], "additional sense code")
    expect_equal(code.qualifier, asc[1], "additional sense code qualifier")
    names = asc_reference.names(*asc)
    if names is None:
        require(code.code_name not in ALL_NAMES, "the unknown code %02X/%02X is named %r" %
                (asc[0], asc[1], code.code_name))
    else:
        require(code.code_name in names, "%02X/%02X is %r, not %r" % (asc[0], asc[1], names[0], code.code_name))


def check_fixed(sense, raw):
    expect_equal(sense.response_code.code, raw[0] & 0x7f, "response code")
    expect_equal(int(sense.response_code.valid), raw[0] >> 7, "valid")
    expect_equal(sense.sense_key, KEYS[raw[2] & 15], "sense key")
    expect_equal(int(sense.filemark), raw[2] >> 7, "filemark")
    expect_equal(int(sense.eom), raw[2] >> 6 & 1, "end of medium")
    expect_equal(int(sense.ili), raw[2] >> 5 & 1, "incorrect length")
    expect_equal(sense.information, number(raw[3:7]), "information")
    expect_equal(sense.additional_sense_length, raw[7], "additional sense length")
    expect_equal(sense.command_specific_information, number(raw[8:12]), "command specific information")
    check_code(sense.additional_sense_code, None, raw[12:14])
    expect_equal(sense.field_replaceable_unit_code, raw[14], "field replaceable unit code")
    expect_equal(int(sense.sksv), raw[15] >> 7, "sense key specific valid")
    expect_equal(sense.sense_key_specific_high, raw[15] & 0x7f, "sense key specific, high bits")
    expect_equal(sense.sense_key_specific_low, raw[16], "sense key specific, low byte")


def descriptors_of(raw):
    """ [(type, bytes)] or None when they do not fit """
    end = 8 + raw[7]
    if end > len(raw):
        return None
    position = 8
    result = []
    while position < end:
        if position + 2 > end or position + 2 + raw[position + 1] > end:
            return None
        result.append((raw[position], raw[position + 2:position + 2 + raw[position + 1]]))
        position += 2 + raw[position + 1]
    return result


def check_descriptors(sense, raw, descriptors):
    expect_equal(sense.response_code.code, raw[0] & 0x7f, "response code")
    expect_equal(sense.sense_key, KEYS[raw[1] & 15], "sense key")
    check_code(sense.additional_sense_code, None, raw[2:4])
    expect_equal(len(sense.descriptors), len(descriptors), "number of descriptors")
    for found, (kind, data) in zip(sense.descriptors, descriptors):
        expect_equal(found.descriptor_type, kind, "descriptor type")
        if hasattr(found, "data"):
            require(bytes(found.data) == data, "descriptor %s decoded as %s" % (data.hex(), bytes(found.data).hex()))
        else:
            require(kind == 0 and len(data) == 10, "an information descriptor out of %02x %s" % (kind, data.hex()))
            information = found.information
            if isinstance(information, str):
                information = information.encode("latin-1")
            require(bytes(information) == data[2:], "information %s decoded as %r" % (data[2:].hex(), information))
            expect_equal(int(found.valid), data[0] >> 7, "valid bit of the information descriptor")


def run(arg):
    raw = bytes.fromhex(arg)
    code = raw[0] & 0x7f
    if code in (0x70, 0x71):
        check_fixed(get_sense_object_from_buffer(raw), raw)
    elif code in (0x72, 0x73):
        descriptors = descriptors_of(raw)
        try:
            sense = get_sense_object_from_buffer(raw)
        except Exception:
            require(descriptors is None, "well-formed sense data was rejected")
            return arg
        if descriptors is not None:
            check_descriptors(sense, raw, descriptors)
    else:
        try:
            sense = get_sense_object_from_buffer(raw)
        except Exception:
            return arg
        require(sense is None, "sense data of the unknown format %#x was decoded" % code)
    return arg


def through_executer(raw):
    device = SgFile(lambda submission: {"status": 2, "driver": 8, "sense": raw})
    what, error = outcome_of(linux_sg(device), make_command("read", bytes(6), 8), "call")
    require(what == "error" and isinstance(error, AsiCheckConditionError), "a check condition ended with %r" % (error,))
    require(bytes(error.sense_buffer)[:len(raw)] == raw, "the error carries other sense data: %s" %
            bytes(error.sense_buffer).hex())
    return error


def run_error(arg):
    """ the error a user gets carries the raw bytes and the decoded sense """
    raw = bytes.fromhex(arg)
    error = through_executer(raw)
    padded = raw + bytes(255 - len(raw))
    code = raw[0] & 0x7f
    sense = error.sense_obj
    if code in (0x70, 0x71):
        check_fixed(sense, padded)
    elif code in (0x72, 0x73):
        descriptors = descriptors_of(padded)
        if descriptors is not None:
            require(sense is not None, "well-formed sense data was not decoded")
            check_descriptors(sense, padded, descriptors)
    else:
        require(sense is None, "sense data of the unknown format %#x was decoded" % code)
    return arg


def fixed_cases():
    backgrounds = [bytes(18), b"\xff" * 18, bytes(range(0x11, 0x11 + 18))]
    for response in (0x70, 0x71, 0xf0, 0xf1):
        for background in backgrounds:
            for position in range(1, 18):
                for value in range(256):
                    raw = bytearray(background)
                    raw[0] = response
                    raw[position] = value
                    yield bytes(raw).hex()
    for length in range(18, 256):
        yield (b"\x70" + bytes((i * 13 + length) & 0xff for i in range(length - 1))).hex()
    for key in range(16):
        for flags in range(16):
            yield (bytes([0x70, 0, key | flags << 4]) + bytes(range(15))).hex()


def code_cases(response):
    for code in range(256):
        for qualifier in range(256):
            if response in (0x70, 0x71):
                yield (bytes([response, 0, 5]) + bytes(9) + bytes([code, qualifier, 0, 0, 0, 0])).hex()
            else:
                yield bytes([response, 5, code, qualifier, 0, 0, 0, 0]).hex()


def descriptor_cases(deep):
    for response in (0x72, 0x73):
        for position in range(1, 7):
            for value in range(256):
                for background in (0, 0xff, 0x35):
                    raw = bytearray([background]) * 8
                    raw[0], raw[7], raw[position] = response, 0, value
                    yield bytes(raw).hex()
                    yield (bytes(raw[:7]) + bytes([4, 2, 2, value, 0xaa])).hex()
        for kind in range(256):
            for length in list(range(0, 20)) + [30, 64, 100, 200, 242, 244]:
                if kind == 0 and length != 10:
                    continue        # an information descriptor always has ten bytes
                body = bytes([kind, length]) + bytes((kind + i * 7) & 0xff for i in range(length))
                if len(body) > 244:
                    continue
                yield (bytes([response, 3, 0x11, 0, 0, 0, 0, len(body)]) + body).hex()
                if length <= 10:
                    yield (bytes([response, 3, 0x11, 0, 0, 0, 0, len(body)]) + body + b"\xee" * 9).hex()
        shapes = [(0, 10), (1, 10), (2, 6), (3, 2), (4, 2), (9, 12), (0x80, 0), (0x81, 1), (0xff, 30)]
        for count in (2, 3, 4) if deep else (2, 3):
            for combination in itertools.product(shapes, repeat=count):
                body = b""
                for index, (kind, length) in enumerate(combination):
                    first = bytes([0x80, 0]) if kind == 0 else b""
                    body += bytes([kind, length]) + (first + bytes((index * 50 + i) & 0xff for i in range(length)))[:length]
                yield (bytes([response, 6, 0x29, 0, 0, 0, 0, len(body)]) + body).hex()
                yield (bytes([response, 6, 0x29, 0, 0xff, 0xff, 0xff, len(body)]) + body + b"\xee" * 20).hex()
        for first in range(256):        # every byte of an information descriptor
            for position in range(10):
                data = bytearray(10)
                data[position] = first
                yield (bytes([response, 0, 0, 0, 0, 0, 0, 12, 0, 10]) + bytes(data)).hex()


def unknown_cases():
    for code in range(256):
        if code & 0x7f not in (0x70, 0x71, 0x72, 0x73):
            for filler in (0, 0xff, 0x0a, 1):
                yield (bytes([code]) + bytes([filler]) * 31).hex()


def chunks(name, cases, run, parts=4):
    cases = list(cases)
    for part in range(parts):
        yield Group("%s/%d" % (name, part), cases[part::parts], run)


def groups(tier):
    deep = tier == "thorough"
    for group in chunks("fixed", fixed_cases(), run):
        yield group
    for response in (0x70, 0x71, 0x72, 0x73):
        yield Group("codes/%#x" % response, code_cases(response), run, bound="all 65536 pairs")
    for group in chunks("descriptors", descriptor_cases(deep), run):
        yield group
    yield Group("unknown", unknown_cases(), run)
    every = list(fixed_cases())[::(1 if deep else 7)] + list(descriptor_cases(False))[::(1 if deep else 5)] + list(unknown_cases())
    for group in chunks("error", every, run_error):
        yield group
