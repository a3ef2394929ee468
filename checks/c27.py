"""C27: REPORT LUNS returns exactly the logical units the device listed."""
import itertools

from mc.core import Group, require, expect_equal
from mc.decode import on_device, run_command

from infi.asi.cdb.report_luns import (ReportLunsCommand, UnsupportedReportLuns, UnsupportedLunAdressing,
                                      UnsupportedLogicalUnitAddressingMethod)

ID = "C27"
LEVEL = "exploration"
RULE = ("a case is one list of logical units, delivered as REPORT LUNS response with a given padding and allocation length, "
        "with or without foreign addressing methods allowed; distinct = distinct (list, options)")
ASSUMPTIONS = ["supported without the option: single level addressing with the peripheral device method (00b)"]


def response(entries, trailing=b""):
    body = b"".join(entry.to_bytes(8, "big") for entry in entries)
    return len(body).to_bytes(4, "big") + bytes(4) + body + trailing


def foreign(entry):
    return entry & 0xffffffffffff or entry >> 62


def check_result(result, entries):
    expect_equal(list(result.lun_list), [entry >> 48 for entry in entries], "LUNs of %s" % shown(entries))
    expect_equal([int(text, 16) for text in result.hex_lun_list], entries, "hexadecimal LUNs of %s" % shown(entries))


def shown(entries):
    return [hex(entry) for entry in entries[:6]]


def run_list(arg):
    entries, allow, trailing = [int(entry, 16) for entry in arg[0]], arg[1], arg[2]
    raw = response(entries, bytes([0xa5]) * trailing)
    command = lambda: ReportLunsCommand(allow_unsupported_addressing_format=allow)
    first = [entry for entry in entries if foreign(entry)][:1]
    if first and not allow:
        try:
            result = run_command(command, raw)
        except UnsupportedReportLuns as error:
            if not first[0] & 0xffffffffffff:
                require(isinstance(error, UnsupportedLogicalUnitAddressingMethod), "%s refused with %r" % (shown(first), error))
            if not first[0] >> 62:
                require(isinstance(error, UnsupportedLunAdressing), "%s refused with %r" % (shown(first), error))
        else:
            require(False, "%s was decoded as %r" % (shown(entries), result.lun_list))
        return "refused", tuple(arg[0])
    check_result(run_command(command, raw), entries)
    return "listed", tuple(arg[0]), allow, trailing


def run_device(arg):
    count, allocation_length, select = arg
    entries = [(index * 3 & 0x3fff) << 48 for index in range(count)]
    result, _ = on_device(lambda: ReportLunsCommand(select_report=select, allocation_length=allocation_length),
                          response(entries))
    check_result(result, entries)
    return count, allocation_length


def run_count(arg):
    """ an allocation length too small for a list gives the raw bytes, e.g. to find out how long the list is """
    count, allocation_length = arg
    raw = response([index << 48 for index in range(count)])
    result, delivered = on_device(lambda: ReportLunsCommand(allocation_length=allocation_length), raw)
    if not allocation_length:
        require(not result, "%r from an empty response" % (result,))
    else:
        require(bytes(result) == delivered, "%r from %r" % (result, delivered))
    return count, allocation_length


def entry_cases():
    seen = set()
    for background in (0, 0x3fff << 48, (1 << 64) - 1, 0x1234 << 48):
        for byte in range(8):
            shift = 8 * (7 - byte)
            for value in range(256):
                seen.add(background & ~(0xff << shift) | value << shift)
    for value in range(1 << 14):
        seen.add(value << 48)
    return sorted(seen)


def hexed(entries):
    return ["%x" % entry for entry in entries]


def groups(tier):
    thorough = tier == "thorough"
    entries = entry_cases()
    cases = []
    for entry in entries:
        for allow in (False, True):
            cases.append([hexed([entry]), allow, 0])
            cases.append([hexed([0x3 << 48, entry, 0x2 << 48]), allow, 8])
    yield Group("entries", cases, run_list, bound="each byte x 256 values on 4 backgrounds")
    cases = []
    lengths = list(range(0, 300)) + list(range(300, 2047, 1 if thorough else 53)) + [2045, 2046]
    for count in lengths:
        listed = [(index * 5 + 1 & 0x3fff) << 48 for index in range(count)]
        for trailing in (0, 1, 8, 16384 - 8 - 8 * count):
            if 8 + 8 * count + trailing <= 16384:
                cases.append([hexed(listed), False, trailing])
        cases.append([hexed([entry | 0x4000 << 48 for entry in listed]), True, 0])
    for part in range(4):
        yield Group("lengths/%d" % part, cases[part::4], run_list, bound="lists of 0..%d entries" % lengths[-1])
    menu = [0, 0x7f << 48, 0x80 << 48, 0x3fff << 48, 0x4001 << 48, 0xc101000000000000, 0x0001000200000000, 1]
    cases = [[hexed(item), allow, trailing] for count in range(5 if thorough else 4)
             for item in itertools.product(menu, repeat=count) for allow in (False, True) for trailing in (0, 9)]
    yield Group("sequences", cases, run_list, bound="all lists of up to %d of %d kinds of entries" % (4 if thorough else 3, len(menu)))
    yield Group("device", [[count, allocation, select] for count in range(0, 40) for allocation in
                           (8 + 8 * count, 16384, 1000, 4096) if allocation >= 16 for select in (0, 1, 2)] +
                [[count, allocation, 2] for count in (2046, 2047, 2048, 4094, 4095, 4096, 4097, 8190, 8191, 8192, 10000, 16384, 20000)
                 for allocation in (8 + 8 * count, 1 << 18)], run_device)
    yield Group("short", [[count, allocation] for count in range(0, 4) for allocation in range(0, 16)], run_count)
