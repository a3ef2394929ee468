"""C32: SES element statuses and descriptors follow the configuration, bit for bit."""
import itertools

from mc.core import Group, require, require_harness
from mc.decode import EDGES, BACKGROUNDS, background, compare, run_command, on_device
from mc import sesspec

from infi.asi.cdb.diagnostic.ses_pages import get_ses_page

ID = "C32"
LEVEL = "exploration"
RULE = ("a case is a configuration page and an enclosure status or element descriptor page for it (pages of the status byte cases "
        "carry 200 elements, each with other bytes); every decoded element is compared with the reference decoder; "
        "distinct = distinct (configuration, page)")

PER_TYPE = 200


def configured(types):
    raw = sesspec.simple_configuration(types)
    return run_command(get_ses_page(0x01), raw)


def decode(code, types, raw, device=False, configuration=None):
    make = lambda: get_ses_page(code)(run_command(get_ses_page(0x01), configuration) if configuration else configured(types))
    result = on_device(make, raw)[0] if device else run_command(make, raw)
    decoder = sesspec.enclosure_status if code == 2 else sesspec.element_descriptors
    expected, used = decoder(raw, types)
    require_harness(used <= len(raw), "the page is shorter than the configuration")
    name = "status_descriptors" if code == 2 else "element_descriptors"
    compare(result, dict((key, value) for key, value in expected.items() if key != name), "page %d" % code)
    found = getattr(result, name)
    require(len(found) == len(types), "page %d: %d types are configured, %d decoded" % (code, len(types), len(found)))
    for index, (kind, _) in enumerate(types):
        compare(found[index], expected[name][index], "%s[%d] of element type %#x" % (name, index, kind))
    return hash(raw)


# --- status bytes ------------------------------------------------------------------------------------------------------
def status_values(selection, kind):
    """ contents of an element, as enumerated by `selection` """
    if selection == "bytes":
        for base in BACKGROUNDS:
            for position in range(4):
                for value in range(256):
                    image = background(4, base)
                    image[position] = value
                    yield bytes(image)
    elif selection == "edges":
        for image in itertools.product(EDGES + (0x10, 0x20, 0x40, 0x08, 0x04, 0x02), repeat=4):
            yield bytes(image)
    elif selection == "words":  # bytes 2 and 3
        for value in range(65536):
            yield b"\x01\x00" + value.to_bytes(2, "big")
    else:  # bytes 1 and 2
        for value in range(65536):
            yield b"\x01" + value.to_bytes(2, "big") + b"\x80"


def run_status(arg):
    kind, selection, part, parts = arg
    values = list(status_values(selection, kind))[part::parts]
    types, body = [], b""
    for start in range(0, len(values), PER_TYPE):
        chunk = values[start:start + PER_TYPE]
        types.append((kind, len(chunk)))
        body += chunk[-1] + b"".join(chunk)
    # other types before and after shift the elements
    types = [(0x0e, 1)] + types + [(0x17, 2)]
    body = b"\x01\0\0\0" * 2 + body + b"\x02\x80\x01\x02" * 3
    raw = sesspec.make_page(2, body, part * 37 & 0xff)
    require_harness(len(raw) < 65535, "page too long")
    return decode(2, types, raw), kind, selection, part


def run_header(arg):
    first, generation, length = arg
    types = [(0x04, 2)]
    raw = bytearray(sesspec.make_page(2, b"\x01\x02\x03\x04" * 3, first, generation))
    raw[0] = length & 0xff
    other = bytearray(sesspec.make_page(7, sesspec.make_descriptor(b"abc") * 3, first, generation))
    other[0] = length & 0xff
    return decode(2, types, bytes(raw)), decode(7, types, bytes(other)), tuple(arg)


# --- shapes ------------------------------------------------------------------------------------------------------------
def status_page(types, kind="count"):
    total = sum(count + 1 for _, count in types)
    return sesspec.make_page(2, background(4 * total, kind), 0x1f)


def run_counts(arg):
    types, trailing = [tuple(item) for item in arg[0]], arg[1]
    raw = status_page(types, "scrambled") + bytes([trailing & 0xff]) * (trailing >> 8)
    return decode(2, types, raw), str(types), trailing


def run_configuration(arg):
    """ whatever else the configuration says of a type (subenclosure, text) or of the enclosures, types and counts decide """
    kind, count, identifiers, text, generation, extra = arg
    types = [(kind, count), (0x17, 1), (kind ^ 1, 2)]
    headers = [sesspec.make_type(item, number, identifiers[index % len(identifiers)], text + index if text else 0)
               for index, (item, number) in enumerate(types)]
    enclosures = [sesspec.make_enclosure(identifiers[0], 1, b"x" * extra), sesspec.make_enclosure(identifiers[-1], 2)]
    configuration = sesspec.make_configuration(enclosures, headers, [sesspec.make_text(header[3]) for header in headers], generation)
    other = descriptor_page(types, lambda index: (index * 5) % 23)
    return (decode(2, types, status_page(types, "scrambled"), configuration=configuration),
            decode(7, types, other, configuration=configuration), str(arg))


def run_device(arg):
    types = [tuple(item) for item in arg]
    raw = status_page(types)
    other = descriptor_page(types, lambda index: (index * 5) % 23)
    return decode(2, types, raw, True), decode(7, types, other, True), str(types)


def descriptor_page(types, length):
    body, index = b"", 0
    for _, count in types:
        for _ in range(count + 1):
            data = background(length(index), BACKGROUNDS[index % 4])
            body += sesspec.make_descriptor(data, bytes([index & 0xff, index * 3 & 0xff]))
            index += 1
    return sesspec.make_page(7, body, 0x5a)


def run_descriptors(arg):
    counts, lengths, trailing = arg
    types = [(index * 9 % 0x1a, count) for index, count in enumerate(counts)]
    raw = descriptor_page(types, lambda index: lengths[index % len(lengths)]) + bytes([trailing & 0xff]) * (trailing >> 8)
    return decode(7, types, raw), str(arg)


def run_pairs(arg):
    """ one element descriptor with this byte """
    position, value = arg
    data = bytearray(b"DESCRIPTOR")
    data[position] = value
    types = [(0x17, 2)]
    raw = sesspec.make_page(7, sesspec.make_descriptor(data) + sesspec.make_descriptor(data[::-1], bytes([value, position])) + sesspec.make_descriptor(b"\xff"))
    return decode(7, types, raw), position, value


def groups(tier):
    thorough = tier == "thorough"
    kinds = sorted(set(range(0x1c)) | {0x7f, 0x80, 0x9d, 0x9e, 0x9f, 0xff} | (set(range(256)) if thorough else set()))
    cases = [[kind, "bytes", 0, 1] for kind in kinds]
    cases += [[kind, "edges", part, 2] for kind in kinds for part in range(2)]
    measured = kinds if thorough else (0x03, 0x12, 0x13)
    cases += [[kind, "words", part, 6] for kind in measured for part in range(6)]
    cases += [[kind, "first", part, 6] for kind in (measured if thorough else (0x03,)) for part in range(6)]
    for part in range(16):
        yield Group("status/%d" % part, cases[part::16], run_status,
                    bound="every element type: each status byte x 256 values on 4 backgrounds, all combinations of 11 values; "
                          "all 65536 values of measurements")
    yield Group("types", [[[[kind, 1], [kind ^ 0xff, 2]], 0] for kind in range(256)], run_counts, bound="all 256 element type codes")
    cases = [[[[kind, count], [0x02, 1]], 8 << 8 | 0xff if count % 2 else 0] for kind in (0x17, 0x40) for count in range(256)]
    for part in range(8):
        yield Group("counts/%d" % part, cases[part::8], run_counts, bound="0..255 elements of a type")
    cases = [[kind, count, list(identifiers), text, generation, extra] for kind in kinds for count in (0, 1, 3)
             for identifiers in ((0,), (1,), (0, 1), (1, 2, 0), (255,), (0x80, 0x7f), (3, 3, 4)) for text, extra in ((0, 0), (9, 8))
             for generation in (0, 0x80000001)]
    for part in range(2):
        yield Group("configurations/%d" % part, cases[part::2], run_configuration,
                    bound="every element type x 7 patterns of subenclosures x texts x generation codes")
    depth, top = (4, 4) if thorough else (3, 4)
    vectors = [list(item) for count in range(depth + 1) for item in itertools.product(range(top), repeat=count)]
    order = (0x17, 0x03, 0x9e, 0x02)
    yield Group("vectors", [[[[order[index], count] for index, count in enumerate(vector)], trailing]
                            for vector in vectors for trailing in (0, 4 << 8, 9 << 8 | 0xff)], run_counts,
                bound="all element counts 0..%d for up to %d types" % (top - 1, depth))
    yield Group("many-types", [[[[index % 0x1a, index % 3] for index in range(count)], 0]
                               for count in (range(4, 300) if thorough else (4, 8, 27, 100, 127, 128, 129, 200, 255, 256, 300))], run_counts)
    yield Group("header", [[first, 1, 2] for first in range(256)] + [[0, 1, code] for code in range(256)] +
                [[0, 1 << bit, 2] for bit in range(32)] + [[0xff, (1 << 32) - 1 ^ 1 << bit, 7] for bit in range(32)], run_header,
                bound="each header byte x 256 values, each bit of the generation code")
    lengths = (0, 1, 12)
    cases = [[vector, list(pattern), trailing] for vector in vectors for pattern in itertools.product(lengths, repeat=3)
             for trailing in ((0, 5 << 8 | 0xff) if len(vector) < 3 else (4 << 8,))]
    for part in range(4):
        yield Group("descriptors/%d" % part, cases[part::4], run_descriptors,
                    bound="all element counts 0..%d for up to %d types x all patterns of 3 descriptor lengths" % (top - 1, depth))
    yield Group("descriptor-lengths", [[[1], [length, 3], 0] for length in range(0, 33000, 1 if thorough else 83)] + [[[1], [32767 + over, 0], 0] for over in range(4)] +
                [[[0], [65000], 0]], run_descriptors, bound="descriptions of up to 65000 bytes")
    yield Group("descriptor-bytes", [[position, value] for position in range(10) for value in range(256)], run_pairs)
    yield Group("device", [[[kind, count], [0x17, 2]] for kind in kinds for count in (0, 1, 5)] + [[[0x03, 3]], []], run_device)
