"""C30: capacity and copy-parameter responses are decoded exactly."""
import itertools

from mc.core import Group, hexs, unhex
from mc.decode import check_decode, compare, fields, be, on_device, images, background, BACKGROUNDS, EDGES

from infi.asi.cdb.read_capacity import ReadCapacity10Command, ReadCapacity16Command
from infi.asi.cdb.receive_copy_operating_parameters import ReceiveCopyOperatingParametersCommand

ID = "C30"
LEVEL = "exploration"
RULE = ("a case is one response; the decoded object is compared with the reference decoder; "
        "distinct = distinct (command, response)")

# SBC-3 5.12.2, 5.13.2
CAPACITY_10 = {"last_logical_block_address": (0, 4), "block_length_in_bytes": (4, 8)}
CAPACITY_16 = {"last_logical_block_address": (0, 8), "block_length_in_bytes": (8, 12), "prot_en": (12, 0, 1), "p_type": (12, 1, 3),
               "logical_blocks_per_physical_block": (13, 0, 4), "p_i_exponent": (13, 4, 4), "lowest_aligned_lba_msb": (14, 0, 6),
               "troz": (14, 6, 1), "tpe": (14, 7, 1), "lowest_aligned_lba_lsb": (15,)}
# SPC-4 6.19.4 (table 222)
COPY = {"available_data": (0, 4), "snlid": (4, 0, 1), "max_cscd_descriptor_count": (8, 10), "max_segment_descriptor_count": (10, 12),
        "max_descriptor_list_length": (12, 16), "max_segment_length": (16, 20), "max_inline_data_length": (20, 24),
        "held_data_limit": (24, 28), "max_stream_device_transfer_size": (28, 32), "total_concurrent_copies": (34, 36),
        "max_concurrent_copies": (36,), "data_segment_granularity": (37,), "inline_data_granularity": (38,),
        "held_data_granularity": (39,), "implemented_descriptor_list_length": (43,)}


def copy_reference(raw):
    expected = fields(raw, COPY)
    expected["implemented_descriptor_list"] = list(raw[44:44 + raw[43]])
    return expected


RESPONSES = {
    "capacity10": (ReadCapacity10Command, lambda raw: fields(raw, CAPACITY_10)),
    "capacity16": (ReadCapacity16Command, lambda raw: fields(raw, CAPACITY_16)),
    "copy": (lambda: ReceiveCopyOperatingParametersCommand(allocation_length=16384), copy_reference),
}


def run_image(arg):
    kind, raw = arg[0], unhex(arg[1])
    make, reference = RESPONSES[kind]
    check_decode(make, raw, reference(raw), kind)
    return kind, hash(raw)


def run_device(arg):
    kind, raw = arg[0], unhex(arg[1])
    make, reference = RESPONSES[kind]
    result, response = on_device(make, raw)
    compare(result, reference(response), kind)
    return kind, hash(raw)


def copy_response(count, kind, trailing=0, locked=True):
    raw = background(44 + count, kind, {0: (40 + count).to_bytes(4, "big"), 43: count})
    return bytes(raw) + bytes([trailing & 0xff]) * (trailing >> 8)


def wide(size):
    """ values with a bit pattern in each place: one bit, all bits but one, and runs of ones from either end """
    top = (1 << 8 * size) - 1
    for bit in range(8 * size):
        for value in (1 << bit, top ^ 1 << bit, top >> bit, top << bit & top):
            yield value.to_bytes(size, "big")


def image_cases(thorough):
    for image in images(8, thorough=thorough):
        yield "capacity10", image
    for first in wide(4):
        for second in wide(4):
            yield "capacity10", first + second
    for image in images(32, positions=list(range(16)), thorough=thorough):
        yield "capacity16", image
    for image in images(16, thorough=thorough):
        yield "capacity16", image + bytes(16)
    for first in wide(8):
        for second in wide(4) if thorough else (b"\0\0\2\0", b"\xff\xff\xff\xfe", b"\x80\0\0\0"):
            yield "capacity16", first + second + bytes(20)
    for flags in itertools.product(range(256), EDGES + (0x40, 0x08, 0x10), EDGES + (0x40, 0x20)):
        yield "capacity16", bytes(12) + bytes(flags) + b"\xff" * 17
    for count in (0, 1, 5):
        for image in images(44 + count, {0: (40 + count).to_bytes(4, "big"), 43: count}, thorough=thorough):
            yield "copy", image
    for value in wide(4):
        yield "copy", value + copy_response(3, "count")[4:]


def groups(tier):
    thorough = tier == "thorough"
    cases = [[kind, hexs(image)] for kind, image in image_cases(thorough)]
    parts = 16
    for part in range(parts):
        yield Group("bytes/%d" % part, cases[part::parts], run_image,
                    bound="each byte x 256 values on 4 backgrounds, pairs of bytes x edge values, bit runs of wide fields")
    for part in range(4):
        yield Group("device/%d" % part, cases[part::4 if thorough else 20], run_device)
    yield Group("copy-list", [["copy", hexs(copy_response(count, kind, trailing))] for count in range(256) for kind in BACKGROUNDS
                              for trailing in (0, 1 << 8 | 7, 300 << 8 | 0xff)], run_image, bound="0..255 implemented descriptors")
