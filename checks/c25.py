"""C25: VPD pages are decoded to the fields they encode."""
from mc.core import Group, hexs, unhex
from mc.decode import check_decode, compare, images, background, ascii_ranges, on_device, BACKGROUNDS
from mc import vpdspec
from mc.vpdspec import make_page, make_designator, known_designators, fill

from infi.asi.cdb.inquiry import vpd_pages

ID = "C25"
LEVEL = "exploration"
RULE = ("a case is one VPD page image delivered through its command; every exposed field is compared with the reference "
        "layout; distinct = distinct images")
ASSUMPTIONS = ["text fields hold ASCII bytes; trailing blanks and NULs of a text are padding",
               "a declared length is at least the length of the fixed part of its page; one-byte lengths are followed in "
               "SPC-4 by a zero high byte"]

# code -> (command, reference, length of the fixed part, declared length or None, text ranges)
FIXED = {
    0xb0: (lambda: vpd_pages.BlockLimitsPageCommand(), vpdspec.block_limits, 64, [0x3c], []),
    0xb2: (lambda: vpd_pages.LogicalBlockProvisioningPageCommand(), vpdspec.provisioning, 8, [4], []),
    0xc0: (lambda: vpd_pages.VeritasVPDPageCommand(), vpdspec.veritas, 6, [2, 12], []),
    0x89: (lambda: vpd_pages.AtaInformationVPDPageCommand(), vpdspec.ata_information, 572, [0x238], vpdspec.ATA_TEXT),
}
VARIABLE = {
    0x00: (lambda: vpd_pages.SupportedVPDPagesCommand(), vpdspec.supported_pages, False, 248),
    0x80: (lambda: vpd_pages.UnitSerialNumberVPDPageCommand(), vpdspec.serial_number, True, 248),
    0x86: (lambda: vpd_pages.get_vpd_page(0x86)(), vpdspec.unknown_page, False, 2044),
    0xc7: (lambda: vpd_pages.get_vpd_page(0xc7)(), vpdspec.unknown_page, False, 2044),
}
TABLE = {}
TABLE.update((code, entry[:2]) for code, entry in FIXED.items())
TABLE.update((code, entry[:2]) for code, entry in VARIABLE.items())


def run_image(arg):
    code, raw = arg[0], unhex(arg[1])
    make, reference = TABLE[code]
    check_decode(make, raw, reference(raw), "page %#x" % code)
    return code, hash(raw)


def run_device(arg):
    code, raw = arg[0], unhex(arg[1])
    make, reference = TABLE[code]
    result, response = on_device(make, raw)
    compare(result, reference(response), "page %#x" % code)
    return code, hash(raw)


def run_unpack(arg):
    code, raw = arg[0], unhex(arg[1])
    data = vpd_pages.get_vpd_page_data(code)()
    data.unpack(raw)
    compare(data, TABLE[code][1](raw), "page %#x" % code)
    return code, hash(raw)


def variable_images(code, text, top, thorough):
    """ every declared length; every byte value in a few positions; header bytes """
    for length in range(0, top + 1, 1 if top < 300 else (1 if thorough else 7)):
        for kind in (("count", "scrambled") if top > 300 and not thorough else BACKGROUNDS):
            image = background(4 + length, kind, {1: code, 2: length.to_bytes(2, "big")})
            yield ascii_ranges(image, [(4, len(image))] if text else [])
    for length in (1, 2, 9):
        for image in images(4 + length, {1: code, 2: length.to_bytes(2, "big")}, [(4, 4 + length)] if text else [],
                            thorough=thorough):
            yield image


def provisioning_images():
    for name, (kind, data) in sorted(known_designators().items()):
        for association in range(4):
            body = make_designator(kind, data, association=association)
            for padding in (b"", bytes(40)):
                yield make_page(0xb2, b"\x05\xe7\x02\x00" + body) + padding
    for kind in (0, 7, 8, 9):
        for length in range(0, 240):
            yield make_page(0xb2, b"\x05\xe7\x02\x00" + make_designator(kind, fill(length)))
    for kind, data in ((3, b"\x5b" + fill(7, 0x85)), (0, fill(5))):    # whatever the bits before the group say
        for first in range(256):
            for second in (0, 1, 2, 3, 7, 0xff):
                yield make_page(0xb2, bytes([5, first, second, 0]) + make_designator(kind, data))
                if first % 5 == 0:
                    yield make_page(0xb2, bytes([first, 0xe7, second, first]) + make_designator(kind, data))
    for trailing in (b"\0" * 4, b"\0" * 244, b"\x01\x03\0\x08" + fill(40), b"\xff" * 60, b"\x01\x13\x00\x10" + fill(16)):
        yield make_page(0xb2, b"\x05\xe6\x02\x00") + trailing


def groups(tier):
    thorough = tier == "thorough"
    for code, (_, _, length, declared, text) in sorted(FIXED.items()):
        for announced in declared:
            fixed = {1: code, 2: announced.to_bytes(2, "big")}
            positions = None
            if code == 0x89 and not thorough:
                positions = [0] + list(range(8, 60)) + list(range(78, 156))
            cases = [[code, hexs(image)] for image in images(length, fixed, text, positions, thorough, pair_limit=64,
                                                            kinds=("zeros", "scrambled") if code == 0x89 and not thorough
                                                            else BACKGROUNDS)]
            parts = 1 + len(cases) // 9000
            for part in range(parts):
                yield Group("page-%02x/%d/%d" % (code, announced, part), cases[part::parts], run_image,
                            bound="each byte x 256 values on %s backgrounds, pairs of bytes x edge values" % len(BACKGROUNDS))
            yield Group("page-%02x/%d/device" % (code, announced), cases[::17], run_device)
            yield Group("page-%02x/%d/unpack" % (code, announced), cases[::13], run_unpack)
    for code, (_, _, text, top) in sorted(VARIABLE.items()):
        cases = [[code, hexs(image)] for image in variable_images(code, text, top, thorough)]
        parts = 1 + len(cases) // 4000
        for part in range(parts):
            yield Group("page-%02x/%d" % (code, part), cases[part::parts], run_image, bound="declared lengths 0..%d" % top)
        yield Group("page-%02x/device" % code, cases[::11], run_device)
        yield Group("page-%02x/unpack" % code, cases[::5], run_unpack)
    yield Group("provisioning-group", [[0xb2, hexs(image)] for image in provisioning_images()], run_image)
    yield Group("provisioning-group/device", [[0xb2, hexs(image)] for image in provisioning_images() if len(image) < 253],
                run_device)
