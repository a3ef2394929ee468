"""C24: standard INQUIRY data is decoded to the fields it encodes."""
from mc.core import Group, hexs, unhex
from mc.decode import Text, NoneOr, fields, peripheral, check_decode, images, background, be, compare, on_device, BACKGROUNDS

from infi.asi.cdb.inquiry.standard import StandardInquiryCommand, StandardInquiryDataBuffer

ID = "C24"
LEVEL = "exploration"
RULE = ("a case is one standard INQUIRY response image, delivered through the command to the decoder; every exposed field is "
        "compared with the reference layout; distinct = distinct images")
ASSUMPTIONS = ["text fields hold ASCII bytes, as SPC requires; trailing blanks and NULs of a text are padding"]

# SPC-4 6.6.2, SPC-5 6.7.2
LAYOUT = {
    "cong": (1, 6, 1), "rmb": (1, 7, 1), "version": (2,), "response_data_format": (3, 0, 4), "hisup": (3, 4, 1),
    "normaca": (3, 5, 1), "additional_length": (4,), "protect": (5, 0, 1), "threepc": (5, 3, 1), "tpgs": (5, 4, 2),
    "acc": (5, 6, 1), "sccs": (5, 7, 1), "addr16": (6, 0, 1), "multi_p": (6, 4, 1), "enc_serv": (6, 6, 1),
    "cmd_que": (7, 1, 1), "sync": (7, 4, 1), "wbus16": (7, 5, 1), "t10_vendor_identification": (8, 16, Text),
    "product_identification": (16, 32, Text), "product_revision_level": (32, 36, Text),
}
TEXT = [(8, 36)]


def reference(raw):
    expected = fields(raw, LAYOUT)
    expected["peripheral_device"] = peripheral(raw)
    present = raw[36:raw[4] + 5]
    if not present:
        return expected                     # `extended` is None or an object without content
    extended = {"vendor_specific_1": present[:20]}
    if len(present) > 20:
        extended.update(ius=present[20] & 1, qas=present[20] >> 1 & 1, clocking=present[20] >> 2 & 3)
    else:
        extended.update(ius=None, qas=None, clocking=None)
    descriptors = [be(present, at, at + 2) for at in range(22, min(38, len(present) - 1), 2)]
    extended["version_descriptors"] = descriptors or NoneOr()
    extended["vendor_specific_2"] = present[60:] or NoneOr()
    expected["extended"] = extended
    return expected


def run_image(arg):
    raw = unhex(arg)
    result = check_decode(lambda: StandardInquiryCommand(allocation_length=max(len(raw), 36)), raw, reference(raw), "inquiry")
    if not raw[36:raw[4] + 5]:
        compare(getattr(result.extended, "vendor_specific_1", None), NoneOr(), "extended.vendor_specific_1")
        compare(getattr(result.extended, "version_descriptors", None), NoneOr(), "extended.version_descriptors")
    return hash(raw)


def run_device(arg):
    """ through a device, with an allocation length of its own: the response is cut or padded accordingly """
    raw, allocation_length = unhex(arg[0]), arg[1]
    result, response = on_device(lambda: StandardInquiryCommand(allocation_length=allocation_length), raw)
    compare(result, reference(response), "from the device")
    direct = StandardInquiryDataBuffer()
    direct.unpack(response)
    compare(direct, reference(response), "unpacked")
    return allocation_length, hash(raw)


def groups(tier):
    thorough = tier == "thorough"
    fixed = images(36, text=TEXT, thorough=thorough)
    fixed = [hexs(image) for image in fixed]
    for part in range(8):
        yield Group("fixed-part/%d" % part, fixed[part::8], run_image,
                    bound="each byte x 256 values on 4 backgrounds, pairs of bytes x edge values")
    extended = [hexs(image) for image in images(36 + 70, {4: 101}, TEXT, positions=range(36, 106), thorough=thorough,
                                                pair_limit=0, kinds=BACKGROUNDS if thorough else ("zeros", "scrambled"))]
    for part in range(4):
        yield Group("extended/%d" % part, extended[part::4], run_image)
    lengths = []
    for kind in ("count", "scrambled"):
        for announced in range(256):
            for length in range(36, 266 if thorough else 112):
                image = background(length, kind, {4: announced})
                for position in range(8, 36):
                    image[position] &= 0x7f
                lengths.append(hexs(image))
    for part in range(8):
        yield Group("lengths/%d" % part, lengths[part::8], run_image, bound="announced lengths 0..255 x response lengths")
    cases = []
    for announced in (0, 31, 32, 51, 55, 69, 70, 91, 255):
        image = background(announced + 5 if announced > 30 else 36, "count", {4: announced})
        for position in range(8, 36):
            image[position] &= 0x7f
        cases += [[hexs(image), allocation] for allocation in list(range(36, 300)) + [1024]]
    yield Group("device", cases, run_device)
