"""C34: declared lengths decide what a response contains."""
from mc.core import Group, require, hexs, unhex, Violation
from mc.decode import NoneOr, Text, be, background, check_decode, fields, is_int, raw_bytes, run_command, BACKGROUNDS
from mc import sesspec, vpdspec

import checks.c24 as c24
import checks.c28 as c28
import checks.c29 as c29
import checks.c30 as c30
from infi.asi.cdb.inquiry import vpd_pages
from infi.asi.cdb.inquiry.standard import StandardInquiryCommand
from infi.asi.cdb.diagnostic import ses_pages
from infi.asi.cdb.report_luns import ReportLunsCommand

ID = "C34"
LEVEL = "exploration"
RULE = ("a case is a response of one type, exact, followed by padding, or cut; a padded response must decode like the exact one, a cut "
        "one must be refused or decode to a part of the whole; distinct = distinct (type, response, padding or cut)")

TYPES = [(0x03, 2), (0x17, 1), (0x9e, 0)]


class Response(object):
    """ make: creates the command; reference: the reference decoder; samples: exact responses; fixed: length of the fixed part """

    def __init__(self, make, reference, samples, fixed):
        self.make, self.reference, self.samples, self.fixed = make, reference, samples, fixed


def configuration():
    return run_command(ses_pages.ConfigurationDiagnosticPagesCommand, sesspec.simple_configuration(TYPES))


def luns(raw):
    return {"lun_list": [be(raw, at, at + 2) for at in range(8, 8 + be(raw, 0, 4), 8)]}


def inquiry_samples():
    for kind in BACKGROUNDS:
        for total in (36, 56, 58, 60, 74, 96, 120) if kind != "scrambled" else tuple(range(36, 101)) + (120, 200):
            raw = background(total, kind, {4: total - 5})
            for at in range(8, 36):
                raw[at] &= 0x7f
            yield bytes(raw)


def page_samples(code, lengths, text=False):
    for kind in BACKGROUNDS:
        for length in lengths:
            content = background(length, kind)
            if text:
                content = bytearray(byte % 94 + 33 for byte in content)
            yield vpdspec.make_page(code, content, 0x03)


def designator_samples():
    items = [vpdspec.make_designator(*item) for item in vpdspec.known_designators().values()]
    yield vpdspec.make_page(0x83, b"")
    for item in items:
        yield vpdspec.make_page(0x83, item)
    for start in range(0, len(items) - 3):
        yield vpdspec.make_page(0x83, b"".join(items[start:start + 3]))


def provisioning_samples():
    for kind in BACKGROUNDS:
        content = bytes(background(4, kind))
        yield vpdspec.make_page(0xb2, content)
        yield vpdspec.make_page(0xb2, content + vpdspec.make_designator(3, b"\x60" + vpdspec.fill(15)))


def table():
    diagnostic = lambda code: (lambda: ses_pages.get_ses_page(code)())
    configured = lambda code: (lambda: ses_pages.get_ses_page(code)(configuration()))
    vpd = lambda code: (lambda: vpd_pages.get_vpd_page(code)())
    found = {
        "inquiry": Response(lambda: StandardInquiryCommand(allocation_length=255), c24.reference, inquiry_samples(), 36),
        "vpd-00": Response(vpd(0x00), vpdspec.supported_pages, page_samples(0, range(0, 20)), 4),
        "vpd-80": Response(vpd(0x80), vpdspec.serial_number, page_samples(0x80, range(0, 40), True), 4),
        "vpd-83": Response(vpd(0x83), vpdspec.device_identification, designator_samples(), 4),
        "vpd-89": Response(vpd(0x89), vpdspec.ata_information,
                           [bytes(byte & 0x7f if index >= 4 else byte for index, byte in enumerate(raw)) for raw in page_samples(0x89, [0x238])], 154),
        "vpd-b0": Response(vpd(0xb0), vpdspec.block_limits, page_samples(0xb0, [60]), 44),
        "vpd-b2": Response(vpd(0xb2), vpdspec.provisioning, provisioning_samples(), 8),
        "vpd-unknown": Response(vpd(0x91), vpdspec.unknown_page, page_samples(0x91, range(0, 30)), 4),
        "luns": Response(lambda: ReportLunsCommand(allocation_length=4096), luns,
                         [(8 * count).to_bytes(4, "big") + bytes(4) + b"".join(bytes([0, index * 7]) + bytes(6) for index in range(count)) for count in range(12)], 4),
        "rtpg": Response(c28.command(False), lambda raw: c28.reference(raw, False),
                         [c28.make_response([c28.make_group(ports, kind) for ports in counts], False) for kind in BACKGROUNDS
                          for counts in ((), (0,), (1,), (2, 0, 1), (3, 3))], 4),
        "rtpg-extended": Response(c28.command(True), lambda raw: c28.reference(raw, True),
                                  [c28.make_response([c28.make_group(ports, kind) for ports in counts], True) for kind in BACKGROUNDS
                                   for counts in ((), (0,), (1,), (2, 0, 1), (3, 3))], 4),
        "keys": Response(c29.command(c29.READ_KEYS, 4096), lambda raw: c29.reference(c29.READ_KEYS, raw),
                         [c29.response(background(8 * count, kind)) for kind in BACKGROUNDS for count in range(6)], 8),
        "reservation": Response(c29.command(c29.READ_RESERVATION, 4096), lambda raw: c29.reference(c29.READ_RESERVATION, raw),
                                [c29.response(background(16, kind)) for kind in BACKGROUNDS], 8),
        "capabilities": Response(c29.command(c29.REPORT_CAPABILITIES, 4096), lambda raw: c29.reference(c29.REPORT_CAPABILITIES, raw),
                                 [bytes(background(8, kind, {0: b"\0\x08"})) for kind in BACKGROUNDS], 8),
        "full-status": Response(c29.command(c29.READ_FULL_STATUS, 4096), lambda raw: c29.reference(c29.READ_FULL_STATUS, raw),
                                [c29.response(b"".join(c29.make_status(length, kind) for length in lengths)) for kind in BACKGROUNDS
                                 for lengths in ((), (24,), (28, 24), (24, 40, 24))], 8),
        "copy": Response(c30.RESPONSES["copy"][0], c30.copy_reference,
                         [c30.copy_response(count, kind) for kind in BACKGROUNDS for count in (0, 1, 2, 7, 100, 255)], 44),
        "capacity10": Response(c30.RESPONSES["capacity10"][0], c30.RESPONSES["capacity10"][1], [bytes(background(8, kind)) for kind in BACKGROUNDS], 8),
        "capacity16": Response(c30.RESPONSES["capacity16"][0], c30.RESPONSES["capacity16"][1], [bytes(background(32, kind)) for kind in BACKGROUNDS], 16),
        "ses-00": Response(diagnostic(0), sesspec.supported_pages, [bytes([0, 0, 0, count]) + bytes(background(count, kind)) for kind in BACKGROUNDS for count in (1, 2, 9, 30)], 4),
        "ses-80": Response(diagnostic(0x80), sesspec.vendor_page, [bytes([0x80, 0, 0, count]) + bytes(background(count, kind)) for kind in BACKGROUNDS for count in (0, 1, 2, 9, 30)], 4),
        "ses-unknown": Response(diagnostic(0x0a), sesspec.unknown_page, [bytes([0x0a, 3, 0, count]) + bytes(background(count, kind)) for kind in BACKGROUNDS for count in (0, 1, 2, 9, 30)], 4),
        "ses-01": Response(diagnostic(1), lambda raw: sesspec.configuration(raw)[0], [
            sesspec.make_configuration([sesspec.make_enclosure(0, 2, b"abc"), sesspec.make_enclosure(1, 1)],
                                       [sesspec.make_type(3, 2, 0, 5), sesspec.make_type(0x17, 1, 0, first), sesspec.make_type(0x9e, 0, 1, 4)],
                                       [sesspec.make_text(5), sesspec.make_text(first, 1), sesspec.make_text(4, 2)]) for first in (0, 1, 16)], 8),
        "ses-02": Response(configured(2), lambda raw: sesspec.enclosure_status(raw, TYPES)[0], [sesspec.make_page(2, background(24, kind), 0x0a) for kind in BACKGROUNDS], 8),
        "ses-07": Response(configured(7), lambda raw: sesspec.element_descriptors(raw, TYPES)[0],
                           [sesspec.make_page(7, b"".join(sesspec.make_descriptor(background((index * step) % 11, kind)) for index in range(6)))
                            for step in (0, 3, 5) for kind in BACKGROUNDS], 8),
    }
    for item in found.values():
        item.samples = list(item.samples)
    return found


RESPONSES = {}


def responses():
    if not RESPONSES:
        RESPONSES.update(table())
    return RESPONSES


def part_of(value, expected, where):
    """ value is `expected` or what is left of it when its end is missing """
    if value is None or isinstance(expected, NoneOr):
        return
    if isinstance(expected, dict):
        for name, item in expected.items():
            if hasattr(value, name):
                part_of(getattr(value, name), item, "%s.%s" % (where, name))
    elif isinstance(expected, (bytes, bytearray, Text)):
        whole = expected.raw if isinstance(expected, Text) else bytes(expected)
        require(whole.startswith(raw_bytes(value)), "%s: %.100r is no part of %r" % (where, value, whole))
    elif isinstance(expected, list):
        value = list(value)
        require(len(value) <= len(expected), "%s: %d items, the whole response has %d" % (where, len(value), len(expected)))
        for index, item in enumerate(value):
            part_of(item, expected[index], "%s[%d]" % (where, index))
    elif expected is not None:
        require(is_int(value) and value == expected, "%s: %.100r, the whole response has %#x" % (where, value, expected))


def run_padded(arg):
    name, index, size, content = arg
    item = responses()[name]
    raw = item.samples[index]
    if content == "again":
        padding = (raw * (size // max(1, len(raw)) + 1))[:size]
    else:
        padding = bytes(background(size, content))
    check_decode(item.make, raw + padding, item.reference(raw), "%s followed by %d bytes" % (name, size))
    return tuple(arg)


def run_cut(arg):
    name, index, length = arg
    item = responses()[name]
    raw = item.samples[index]
    try:
        result = run_command(item.make, raw[:length])
    except Violation:
        raise
    except Exception:
        return name, index, length, "refused"
    if name == "luns" and isinstance(result, (str, bytes, bytearray)):  # a cut list gives the raw bytes
        require(raw_bytes(result) == raw[:length] or result == raw[:length], "a cut list of units gave %.100r" % (result,))
        return name, index, length, "raw"
    require(length >= item.fixed, "%s was decoded from %d bytes, its fixed part has %d: %.200r" % (name, length, item.fixed, result))
    part_of(result, item.reference(raw), "%s cut to %d bytes" % (name, length))
    return name, index, length, "part"


def groups(tier):
    thorough = tier == "thorough"
    sizes = list(range(1, 20)) + [23, 24, 32, 40, 64, 100, 255, 512, 1000] + (list(range(25, 300)) if thorough else [])
    padded, cut = [], []
    for name, item in sorted(responses().items()):
        for index in range(len(item.samples)):
            for size in sizes:
                padded.extend([name, index, size, content] for content in ("zeros", "ones", "scrambled", "again"))
            cut.extend([name, index, length] for length in range(len(item.samples[index])))
    for part in range(8):
        yield Group("padded/%d" % part, padded[part::8], run_padded, bound="every response type x %d padding sizes x 4 contents" % len(sizes))
        yield Group("cut/%d" % part, cut[part::8], run_cut, bound="every response type cut to every length")
