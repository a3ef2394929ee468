"""C33: page codes select the matching decoder."""
import itertools

from mc.core import Group, require
from mc.cdbspec import Recorder, execute
from mc.decode import background, be, compare, run_command
from mc import sesspec, vpdspec

from infi.asi.cdb.inquiry import vpd_pages
from infi.asi.cdb.diagnostic import ses_pages

ID = "C33"
LEVEL = "exploration"
RULE = ("a case is a sequence of one or two page lookups, in two orders of lookup, construction and execution; the command must "
        "request the page and the result, and the data class of the page, must decode the response of the page by its reference "
        "decoder; distinct = distinct (family, page codes, order, response)")

TYPES = [(0x03, 2), (0x17, 1)]


def body(kind, length):
    return bytes(background(length, kind))


def vpd_responses(code, kind):
    """ (reference decoder, response) """
    known = {0x00: (vpdspec.supported_pages, body(kind, 7)), 0x80: (vpdspec.serial_number, b"SERIAL%d" % len(kind)),
             0x83: (vpdspec.device_identification, b"".join(vpdspec.make_designator(*item) for item in vpdspec.known_designators().values())[:240]),
             0x89: (vpdspec.ata_information, None), 0xb0: (vpdspec.block_limits, body(kind, 60)),
             0xb2: (vpdspec.provisioning, body(kind, 4)), 0xc0: (vpdspec.veritas, None)}
    if code not in known:
        return vpdspec.unknown_page, vpdspec.make_page(code, body(kind, 33 + code % 5), 0x1f)
    decoder, content = known[code]
    if code == 0x83:
        content = b"".join(vpdspec.make_designator(*item) for item in list(vpdspec.known_designators().values())[:8])
    elif code == 0x89:
        content = bytes(byte & 0x7f for byte in body(kind, 0x238))
    elif code == 0xc0:
        content = bytes(byte & 0x7f for byte in body(kind, 12))
    return decoder, vpdspec.make_page(code, content, 0x1f)


def diagnostic_responses(code, kind):
    if code == 0:
        return sesspec.supported_pages, bytes([0, 0, 0, 6]) + body(kind, 6)
    if code == 1:
        return (lambda raw: sesspec.configuration(raw)[0]), sesspec.simple_configuration(TYPES) + b"\0"
    if code == 2:
        return (lambda raw: sesspec.enclosure_status(raw, TYPES)[0]), sesspec.make_page(2, body(kind, 4 * 5), 0x15)
    if code == 7:
        return ((lambda raw: sesspec.element_descriptors(raw, TYPES)[0]),
                sesspec.make_page(7, b"".join(sesspec.make_descriptor(body(kind, index)) for index in range(5))))
    return (sesspec.vendor_page if code == 0x80 else sesspec.unknown_page), bytes([code, 0x77, 0, 9]) + body(kind, 9)


def vpd_cdb(cdb, code):
    return cdb[0] == 0x12 and cdb[1] & 3 == 1 and cdb[2] == code and len(cdb) == 6


def diagnostic_cdb(cdb, code):
    return cdb[0] == 0x1c and cdb[1] & 1 == 1 and cdb[2] == code and len(cdb) == 6


CONFIGURATION = []


def configuration():
    if not CONFIGURATION:
        CONFIGURATION.append(run_command(ses_pages.ConfigurationDiagnosticPagesCommand, sesspec.simple_configuration(TYPES)))
    return CONFIGURATION[0]


class Family(object):
    def __init__(self, name, command, data, responses, requests):
        self.name, self.command, self.data, self.responses, self.requests = name, command, data, responses, requests

    def construct(self, cls, code):
        return cls(configuration()) if self.name == "diagnostic" and code in (2, 7) else cls()

    def new_data(self, code):
        cls = self.data(code)
        if self.name == "vpd":
            return cls()
        return cls(conf_page=configuration() if code in (2, 7) else None)


FAMILIES = {
    "vpd": Family("vpd", lambda code: vpd_pages.get_vpd_page(code), lambda code: vpd_pages.get_vpd_page_data(code), vpd_responses, vpd_cdb),
    "diagnostic": Family("diagnostic", lambda code: ses_pages.get_ses_page(code), lambda code: ses_pages.get_ses_page_data(code),
                         diagnostic_responses, diagnostic_cdb),
}


def run_and_compare(family, code, command, kind):
    decoder, raw = family.responses(code, kind)
    recorder = Recorder(lambda length: raw[:length])
    result = execute(command, recorder)
    require(len(recorder.commands) == 1, "%s page %#04x: %d commands were sent" % (family.name, code, len(recorder.commands)))
    cdb = recorder.commands[0][0]
    require(family.requests(cdb, code), "%s page %#04x: the command sent is %s" % (family.name, code, cdb.hex()))
    require(be(cdb, 3, 5) == recorder.commands[0][2], "%s page %#04x: %d bytes are requested, %d expected" %
            (family.name, code, be(cdb, 3, 5), recorder.commands[0][2]))
    require(be(cdb, 3, 5) >= len(raw), "%s page %#04x: only %d bytes are requested" % (family.name, code, be(cdb, 3, 5)))
    compare(result, decoder(raw), "%s page %#04x" % (family.name, code))


def run_lookup(arg):
    name, code, kind = arg
    family = FAMILIES[name]
    run_and_compare(family, code, family.construct(family.command(code), code), kind)
    decoder, raw = family.responses(code, kind)
    data = family.new_data(code)
    data.unpack(raw)
    compare(data, decoder(raw), "data of %s page %#04x" % (name, code))
    return name, code, kind


def run_two(arg):
    name, first, second, order = arg
    family = FAMILIES[name]
    one = family.command(first)
    if order == "lookups":
        two = family.command(second)
        made = [(first, family.construct(one, first)), (second, family.construct(two, second))]
    elif order == "constructions":
        made = [(first, family.construct(one, first))]
        made.append((second, family.construct(family.command(second), second)))
    else:
        item = family.construct(one, first)
        run_and_compare(family, first, item, "count")
        other = family.construct(family.command(second), second)
        run_and_compare(family, second, other, "ones")
        made = [(first, family.construct(one, first)), (second, other), (first, item)]
    for code, command in made:
        run_and_compare(family, code, command, "scrambled")
    return tuple(arg)


ORDERS = ("lookups", "constructions", "executions")
CODES = {"vpd": (0x00, 0x01, 0x7f, 0x80, 0x81, 0x83, 0x84, 0x89, 0x8a, 0xb0, 0xb1, 0xb2, 0xb3, 0xc0, 0xc1, 0xff),
         "diagnostic": (0x00, 0x01, 0x02, 0x03, 0x04, 0x07, 0x08, 0x0a, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xff)}


def groups(tier):
    thorough = tier == "thorough"
    cases = [[name, code, kind] for name in ("vpd", "diagnostic") for code in range(256) for kind in ("zeros", "ones", "count", "scrambled")]
    for part in range(2):
        yield Group("lookup/%d" % part, cases[part::2], run_lookup, bound="all 256 page codes of both families")
    cases = []
    for name in ("vpd", "diagnostic"):
        for first, second in itertools.product(CODES[name], repeat=2):
            cases.extend([name, first, second, order] for order in ORDERS)
        for first in range(256):
            for second in (range(256) if thorough else [first ^ 0xff, (first + 1) & 0xff] + list(CODES[name][::5])):
                cases.append([name, first, second, "lookups"])
                cases.append([name, first, second, "executions"])
    parts = 16 if thorough else 6
    for part in range(parts):
        yield Group("two/%d" % part, cases[part::parts], run_two, bound="two lookups: all pairs with %d codes of each family" % (256 if thorough else 16))
