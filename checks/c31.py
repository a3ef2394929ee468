"""C31: the SES configuration page and page lists are decoded completely and in order."""
import itertools

from mc.core import Group, hexs, unhex, require_harness
from mc.decode import check_decode, compare, on_device, sweep, images, background, BACKGROUNDS, ascii_ranges
from mc import sesspec
from mc.sesspec import make_configuration, make_enclosure, make_type, make_text

from infi.asi.cdb.diagnostic.ses_pages import get_ses_page

ID = "C31"
LEVEL = "exploration"
RULE = ("a case is one diagnostic page; the decoded object is compared with the reference decoder; "
        "distinct = distinct (page, bytes)")


def configuration(raw):
    return sesspec.configuration(raw)[0]


PAGES = {"configuration": (1, configuration), "supported": (0, sesspec.supported_pages), "vendor": (0x80, sesspec.vendor_page)}


def reference(kind, raw):
    if kind in PAGES:
        return PAGES[kind][0], PAGES[kind][1](raw)
    return int(kind), sesspec.unknown_page(raw)


def make(code):
    return lambda: get_ses_page(code)()


def run_image(arg):
    kind, raw = arg[0], unhex(arg[1])
    code, expected = reference(kind, raw)
    check_decode(make(code), raw, expected, "page %s" % kind)
    return kind, hash(raw)


def run_device(arg):
    kind, raw = arg[0], unhex(arg[1])
    code, expected = reference(kind, raw)
    result, _ = on_device(make(code), raw)
    compare(result, expected, "page %s" % kind)
    return kind, hash(raw)


def build(shape):
    """ shape: per enclosure (bytes of vendor information, [(element type, text length)]) """
    enclosures, types, texts = [], [], []
    for index, (extra, kinds) in enumerate(shape):
        enclosures.append(make_enclosure(index, len(kinds), bytes(background(extra, BACKGROUNDS[index % 4])), first=(0x12 + index) & 0xff))
        for kind, text in kinds:
            types.append(make_type(kind, (kind * 3 + text) & 0xff, index, text))
            texts.append(make_text(text, len(texts)))
    return make_configuration(enclosures, types, texts)


def run_shape(arg):
    shape, trailing = arg
    raw = build(shape) + bytes([trailing & 0xff]) * (trailing >> 8)
    expected, used = sesspec.configuration(raw)
    require_harness(used == len(raw) - (trailing >> 8), "the page is not what its lengths declare")
    check_decode(make(1), raw, expected, "configuration %s" % (shape,))
    return str(shape), trailing


def configuration_images(thorough):
    for extra, kinds in ((0, []), (0, [(0x17, 4)]), (5, [(0x02, 0), (0x9e, 7)])):
        template = build([(extra, kinds)])
        types_at = 8 + 40 + extra
        locked = {1, 8 + 2, 8 + 3} | {types_at + 4 * index + 3 for index in range(len(kinds))}
        positions = [position for position in range(len(template)) if position not in locked]
        text = [(20, 48), (types_at + 4 * len(kinds), len(template))]
        fixed = {position: template[position] for position in locked}
        yield from (("configuration", image) for image in images(len(template), fixed, text, positions, thorough, pair_limit=48))
    template = build([(3, [(0x17, 4), (0x02, 2)]), (0, []), (9, [(0xfe, 3)])])
    starts = [8, 51, 91]
    types_at = 91 + 49
    locked = {1} | {start + byte for start in starts for byte in (2, 3)} | {types_at + 4 * index + 3 for index in range(3)}
    text = [(start + 12, start + 40) for start in starts] + [(types_at + 12, len(template))]
    for image in sweep(template, [position for position in range(len(template)) if position not in locked]):
        yield "configuration", bytes(ascii_ranges(bytearray(image), text))


def list_images(thorough):
    for kind, code in (("supported", 0), ("vendor", 0x80), ("unknown", 0x05), ("unknown", 0x3f), ("unknown", 0xff)):
        name = kind if kind in PAGES else str(code)
        for count in (1, 9):
            yield from ((name, image) for image in images(4 + count, {2: count.to_bytes(2, "big")}, thorough=thorough))
        top = 251 if kind in PAGES else 2044
        for count in range(1 if kind == "supported" else 0, top + 1, 1 if kind in PAGES or thorough else 97):
            for background_kind in BACKGROUNDS:
                for trailing in (0, 1 << 8, 3 << 8 | 0xff):
                    raw = background(4 + count, background_kind, {0: code, 2: count.to_bytes(2, "big")})
                    yield name, bytes(raw) + bytes([trailing & 0xff]) * (trailing >> 8)


def groups(tier):
    thorough = tier == "thorough"
    cases = [[kind, hexs(image)] for kind, image in itertools.chain(configuration_images(thorough), list_images(thorough))]
    parts = 16
    for part in range(parts):
        yield Group("bytes/%d" % part, cases[part::parts], run_image,
                    bound="each byte x 256 values on 4 backgrounds, pairs of bytes x edge values, every list length")
    # texts without characters at the end of an exact response leave nothing to iterate: a device pads the response
    yield Group("device", cases[::199 if thorough else 61], run_device)
    kinds = ((0x17, 3), (0x02, 0), (0x9e, 200))
    lists = [list(item) for count in range(4 if thorough else 3) for item in itertools.product(kinds, repeat=count)]
    shapes = [[(extra, item)] for extra in (0, 1, 11) for item in lists]
    shapes += [[(0, first), (4, second)] for first in lists for second in lists]
    shapes += [[(1, first), (0, second), (2, third)] for first in lists[:5] for second in lists[:5] for third in lists[:5]]
    cases = [[shape, trailing] for shape in shapes for trailing in (1 << 8, 5 << 8 | 0xff, 800 << 8)]
    for part in range(4):
        yield Group("shapes/%d" % part, cases[part::4], run_shape,
                    bound="1..3 enclosures with all lists of up to %d types of 3 kinds" % (3 if thorough else 2))
    yield Group("type-counts", [[[(0, [(index & 0xff, 1) for index in range(count)])], 1 << 8] for count in range(256)], run_shape,
                bound="0..255 types in an enclosure")
    yield Group("text-lengths", [[[(0, [(0x17, length), (0x02, 255 - length)])], trailing] for length in range(256) for trailing in (1 << 8, 9 << 8)], run_shape,
                bound="type texts of 0..255 bytes")
    yield Group("vendor-lengths", [[[(length, [(0x17, 3)]), (219 - length, [(0x03, 1)])], 0] for length in range(220)], run_shape,
                bound="vendor information of 0..219 bytes")
    yield Group("enclosure-counts", [[[(index % 3, [(index & 0xff, index % 5)] * (index % 4)) for index in range(count)], 1 << 8]
                                     for count in (range(1, 257) if thorough else (1, 2, 3, 4, 5, 16, 100, 127, 128, 129, 130, 200, 255, 256))], run_shape,
                bound="up to 256 enclosures")
