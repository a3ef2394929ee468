"""C18: READ and WRITE commands encode exactly the requested transfer."""
from mc.core import Group, require
from mc.backends import SgFile, linux_sg, IN, OUT
from mc import cdbspec
from mc.cdbspec import check_command, single_field_cases, small_product, Recorder, execute

from infi.asi.coroutines.sync_adapter import sync_wait

ID = "C18"
LEVEL = "exploration"
RULE = ("a case is one command object built from one assignment of address, length, block size, flags and control byte; the "
        "CDB and data it submits are compared byte for byte with the reference layout; distinct = distinct CDBs and "
        "transfers (a case that repeats a CDB adds nothing)")
ASSUMPTIONS = ["Read12 and Read16 name the three protection bits 'reserved'; their place is what is checked",
               "transfers above a few MiB are submitted to a recording executer, not copied by a device"]

READS = dict((spec.name, spec) for spec in cdbspec.read_specs())
WRITES = dict((spec.name, spec) for spec in cdbspec.write_specs())
SPECS = dict(READS, **WRITES)


def run_encoding(arg):
    name, values, touch_all = arg
    spec = SPECS[name]
    recorder = Recorder(lambda length: b"")
    check_command(spec, values, touch_all, recorder)
    return name, spec.encode(values), values.get("block_size"), values.get("blocks")


def run_device(arg):
    """ end to end: through the executer to a simulated device; a read returns the device's bytes unchanged """
    name, values = arg
    spec = SPECS[name]
    cdb, kind, what = spec.expected(values)
    stored = cdbspec.payload(what)[::-1] if kind == "read" else b""
    device = SgFile(lambda submission: {"data": stored})
    result = sync_wait(spec.make(values).execute(linux_sg(device)))
    require(len(device.submissions) == 1, "%d commands reached the device" % len(device.submissions))
    submission = device.submissions[0]
    require(submission.cdb == cdb, "%s%r: CDB %s, expected %s" % (name, values, submission.cdb.hex(), cdb.hex()))
    if what:
        require(submission.direction == (IN if kind == "read" else OUT), "direction %s" % submission.direction)
        if kind == "write":
            require(submission.data_out == what, "%s%r: the device got other data" % (name, values))
        else:
            require(submission.length == what, "%s%r: the device may store %d bytes" % (name, values, submission.length))
            require(bytes(result) == stored, "%s%r: the read returned other bytes than the device sent" % (name, values))
    else:
        require(submission.length == 0, "%s%r moves %d bytes" % (name, values, submission.length))
    return name, cdb, values.get("block_size"), values.get("blocks")


def read_lengths(spec):
    limit = (1 << spec.field("transfer_length").width) - 1
    return [value for value in list(range(0, 260)) + [511, 512, 513, 1000, 4095, 4096, 32767, 32768, 65535, 65536, 65537,
                                                      (1 << 20) + 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1] if value <= limit]


def write_blocks(name, thorough):
    if name == "Write6Command":
        return list(range(1, 257))
    small = list(range(0 if name != "Write12Command" else 1, 40)) + [127, 128, 255, 256, 257, 511, 512, 1000]
    large = [4095, 4096, 32767, 32768, 65535]
    if name != "Write10Command":
        large += [65536, 65537, 1 << 17]
        if thorough:
            large += [(1 << 20) - 1, 1 << 20, (1 << 20) + 1, 1 << 24]
    elif thorough:
        small = list(range(2100))
    return small + large


def groups(tier):
    thorough = tier == "thorough"
    for name, spec in sorted(READS.items()):
        cases = [[name, values, False] for values in single_field_cases(spec)]
        cases += [[name, dict(spec.defaults(), logical_block_address=5, transfer_length=2, **extra), touch]
                  for touch in (False, True) for extra in [{}]]
        cases += [[name, dict(values, logical_block_address=lba, transfer_length=length), touch]
                  for values in small_product(spec) for lba, length in ((0, 1), (0x123456, 0x78))
                  for touch in (False, True)]
        yield Group("%s/fields" % name, cases, run_encoding, bound="each field over its values on 2 backgrounds; all flags")
        cases = [[name, dict(spec.defaults(), transfer_length=length, logical_block_address=7, **extra), False]
                 for length in read_lengths(spec)
                 for extra in [{}] + [{"block_size": size} for size in (1, 2, 8, 256, 511, 512, 520, 528, 4096, 4160, 65536)]]
        yield Group("%s/lengths" % name, cases, run_encoding)
        cases = [[name, dict(spec.defaults(), transfer_length=length, logical_block_address=lba, **extra)]
                 for length in [0, 1, 2, 3, 7, 16, 100, 128, 255] for lba in (0, 1, 0xfffff)
                 for extra in ({}, {"block_size": 1}, {"block_size": 520}, {"block_size": 4096})]
        cases += [[name, dict(spec.defaults(), transfer_length=length, logical_block_address=9, block_size=size)]
                  for length, size in ((255, 65537), (1, (1 << 24) + 1))]
        yield Group("%s/device" % name, cases, run_device)
    for name, spec in sorted(WRITES.items()):
        cases = [[name, dict(values, block_size=4), False] for values in single_field_cases(spec)]
        cases += [[name, dict(values, logical_block_address=0x54321, blocks=3, block_size=8), touch]
                  for values in small_product(spec) for touch in (False, True)]
        yield Group("%s/fields" % name, cases, run_encoding, bound="each field over its values on 2 backgrounds; all flags")
        cases = []
        for blocks in write_blocks(name, thorough):
            for size in (None, 1, 3, 512, 520, 4096):
                if blocks * (size or 512) <= (1 << 26 if thorough else 1 << 19):
                    cases.append([name, dict(spec.defaults(), logical_block_address=7, blocks=blocks,
                                             **({"block_size": size} if size else {})), False])
        for blocks, size in ((1, (1 << 25) + 1), (255, 65536), (256, 65537)):
            cases.append([name, dict(spec.defaults(), logical_block_address=7, blocks=blocks, block_size=size), False])
        yield Group("%s/lengths" % name, cases, run_encoding)
        cases = [[name, dict(spec.defaults(), blocks=blocks, logical_block_address=lba, **extra)]
                 for blocks in [1, 2, 3, 7, 16, 100, 128, 255, 256] for lba in (0, 1, 0xfffff)
                 for extra in ({}, {"block_size": 1}, {"block_size": 520}, {"block_size": 4096})]
        yield Group("%s/device" % name, cases, run_device)
