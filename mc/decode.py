"""Comparing decoded responses with reference decoders, and enumerations of response images.

Expected values are nested: a dict maps attribute names to expected values, a list stands for a sequence, an int for an
integer, bytes for anything bytes() turns into them, Text for a string field (ASCII, compared up to trailing padding) and
None for an absent value.
"""
import itertools

from .core import require, require_harness
from .cdbspec import Recorder, execute


class Text(object):
    """ a text field: `raw` without trailing blanks and NULs, or with some of them """

    def __init__(self, raw):
        self.raw = bytes(raw)

    def __repr__(self):
        return "Text(%r)" % self.raw

    def matches(self, value):
        if isinstance(value, (bytes, bytearray)):
            value = bytes(value)
        elif isinstance(value, str):
            value = value.encode("latin-1", "replace")
        else:
            return False
        return self.raw.startswith(value) and value.rstrip(b" \0") == self.raw.rstrip(b" \0")


class NoneOr(object):
    """ nothing to decode: the attribute may be None, empty, or a decoded empty value """

    def __init__(self, *allowed):
        self.allowed = allowed


class Any(object):
    """ not specified """


def is_int(value):
    return isinstance(value, int)


def raw_bytes(value):
    if isinstance(value, str):
        return value.encode("latin-1", "replace")
    try:
        return bytes(bytearray(value))
    except (TypeError, ValueError):
        return None


def compare(value, expected, where, context=None):
    context = context or (lambda: "")
    if expected is Any:
        return
    if isinstance(expected, NoneOr):
        if value is None or any(value == item for item in expected.allowed):
            return
        if hasattr(value, "__len__") and len(value) == 0:
            return
        require(False, "%s: nothing is encoded, decoded %r%s" % (where, value, context()))
    elif expected is None:
        require(value is None, "%s: expected None, got %.200r%s" % (where, value, context()))
    elif isinstance(expected, dict):
        for name, item in expected.items():
            require(hasattr(value, name), "%s: no attribute %s in %.80r%s" % (where, name, value, context()))
            compare(getattr(value, name), item, "%s.%s" % (where, name), context)
    elif isinstance(expected, Text):
        require(expected.matches(value), "%s: expected the text %r, got %.200r%s" % (where, expected.raw, value, context()))
    elif isinstance(expected, (bytes, bytearray)):
        found = None if value is None else raw_bytes(value)
        require(found == bytes(expected), "%s: expected the bytes %s, got %.200r%s" %
                (where, bytes(expected).hex(), value, context()))
    elif isinstance(expected, list):
        require(value is not None, "%s: None, expected %d items%s" % (where, len(expected), context()))
        value = list(value)
        require(len(value) == len(expected), "%s: expected %d items, got %d%s" %
                (where, len(expected), len(value), context()))
        for index, item in enumerate(expected):
            compare(value[index], item, "%s[%d]" % (where, index), context)
    elif isinstance(expected, str):
        require(value == expected, "%s: expected %r, got %.200r%s" % (where, expected, value, context()))
    else:
        require_harness(is_int(expected), "no comparison with %r" % (expected,))
        require(is_int(value) and value == expected, "%s: expected %#x, got %.200r%s" % (where, expected, value, context()))


def run_command(make, raw):
    """ what the command returns when the device answers `raw` """
    return execute(make(), Recorder(lambda length: bytes(raw)))


def check_decode(make, raw, expected, where):
    result = run_command(make, raw)
    compare(result, expected, where, lambda: " (response %s%s, %d bytes)" %
            (bytes(raw[:160]).hex(), "..." if len(raw) > 160 else "", len(raw)))
    return result


# --- reference layouts -------------------------------------------------------------------------------------------------
def be(raw, start, stop):
    return int.from_bytes(bytes(raw[start:stop]), "big")


def bit(raw, byte, low):
    return raw[byte] >> low & 1


def bits(raw, byte, low, width):
    return raw[byte] >> low & ((1 << width) - 1)


def fields(raw, table, offset=0):
    """ table: {name: (byte,) | (byte, stop) | (byte, low, width) | (byte, stop, Text)} -> {name: value} """
    found = {}
    for name, spec in table.items():
        if len(spec) == 1:
            found[name] = raw[offset + spec[0]]
        elif len(spec) == 2:
            found[name] = be(raw, offset + spec[0], offset + spec[1])
        elif spec[2] is Text:
            found[name] = Text(raw[offset + spec[0]:offset + spec[1]])
        elif spec[2] is bytes:
            found[name] = bytes(raw[offset + spec[0]:offset + spec[1]])
        else:
            found[name] = bits(raw, offset + spec[0], spec[1], spec[2])
    return found


PERIPHERAL = {"type": (0, 0, 5), "qualifier": (0, 5, 3)}


def peripheral(raw):
    return fields(raw, PERIPHERAL)


# --- enumeration -------------------------------------------------------------------------------------------------------
def sweep(raw, positions, values=range(256)):
    """ every value of each byte, the others as in `raw` """
    for position in positions:
        for value in values:
            image = bytearray(raw)
            image[position] = value
            yield bytes(image)


EDGES = (0x00, 0x01, 0x7f, 0x80, 0xff)


def pairs(raw, positions, values=EDGES):
    """ edge values of every pair of bytes """
    for first, second in itertools.combinations(positions, 2):
        for a, b in itertools.product(values, repeat=2):
            image = bytearray(raw)
            image[first], image[second] = a, b
            yield bytes(image)


def background(length, kind, fixed=None):
    """ an image of `length` bytes: zeros, ones, a counting or a scrambled pattern; fixed: {position: value or bytes} """
    if kind == "zeros":
        image = bytearray(length)
    elif kind == "ones":
        image = bytearray(b"\xff" * length)
    elif kind == "count":
        image = bytearray((index * 7 + 1) & 0xff for index in range(length))
    else:
        image = bytearray((index * 181 + (index >> 3) * 59 + 0x93) & 0xff for index in range(length))
    put(image, fixed)
    return image


def put(image, fixed):
    for position, value in (fixed or {}).items():
        value = bytes([value]) if isinstance(value, int) else bytes(value)
        image[position:position + len(value)] = value
    return image


BACKGROUNDS = ("zeros", "ones", "count", "scrambled")


def ascii_ranges(image, ranges):
    for start, stop in ranges:
        for position in range(start, stop):
            image[position] &= 0x7f
    return image


def images(length, fixed=None, text=(), positions=None, thorough=False, pair_limit=64, kinds=BACKGROUNDS):
    """ each byte through its 256 values (128 for text) on every background, and edge values of pairs of bytes """
    fixed = fixed or {}
    locked = set()
    for position, value in fixed.items():
        locked.update(range(position, position + (1 if isinstance(value, int) else len(value))))
    positions = [position for position in (positions or range(length)) if position not in locked]
    seen = set()
    for kind in kinds:
        base = ascii_ranges(background(length, kind, fixed), text)
        sources = [sweep(base, positions)]
        if len(positions) <= pair_limit or thorough:
            sources.append(pairs(base, positions, EDGES if thorough else (0x00, 0x80, 0xff)))
        for source in sources:
            for image in source:
                image = bytes(ascii_ranges(bytearray(image), text))
                if image not in seen:
                    seen.add(image)
                    yield image


def on_device(make, raw):
    """ the result and the response as the device delivers it: cut, or followed by the zeros of the response buffer """
    from .backends import SgFile, linux_sg
    from infi.asi.coroutines.sync_adapter import sync_wait
    device = SgFile(lambda submission: {"data": bytes(raw[:submission.length])})
    result = sync_wait(make().execute(linux_sg(device)))
    require(len(device.submissions) == 1, "%d commands reached the device" % len(device.submissions))
    length = device.submissions[0].length
    return result, bytes(raw[:length]) + bytes(max(0, length - len(raw)))
