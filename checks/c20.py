"""C20: COMPARE AND WRITE, WRITE SAME and UNMAP encode what was requested."""
from mc.core import Group, require
from mc.backends import SgFile, linux_sg, OUT
from mc import cdbspec
from mc.cdbspec import check_command, single_field_cases, small_product, Recorder, unmap_parameter_list

from infi.asi.coroutines.sync_adapter import sync_wait

ID = "C20"
LEVEL = "exploration"
RULE = ("a case is one command object built from one assignment of address, lengths, flags, buffer or descriptor list; the "
        "CDB and data it submits are compared byte for byte with the reference layout; distinct = distinct submissions")
ASSUMPTIONS = ["WRITE SAME buffers are multiples of 512 bytes, as the library requires whatever the block size"]

BLOCK = dict((spec.name, spec) for spec in cdbspec.block_specs())
UNMAP = cdbspec.unmap_spec()
SPECS = dict(BLOCK, **{UNMAP.name: UNMAP})


def run_encoding(arg):
    name, values, touch_all = arg
    spec = SPECS[name]
    check_command(spec, values, touch_all, Recorder())
    return name, spec.expected(values)


def run_device(arg):
    name, values = arg
    spec = SPECS[name]
    cdb, _, data = spec.expected(values)
    device = SgFile()
    sync_wait(spec.make(values).execute(linux_sg(device)))
    require(len(device.submissions) == 1, "%d commands reached the device" % len(device.submissions))
    submission = device.submissions[0]
    require(submission.cdb == cdb, "%s%r: CDB %s, expected %s" % (name, values, submission.cdb.hex(), cdb.hex()))
    require((submission.direction, submission.data_out) == (OUT, data) if data else submission.length == 0,
            "%s%r: the device got %s %r" % (name, values, submission.direction, submission.data_out))
    return name, cdb, len(data)


def run_unmap(arg):
    """ parsed back by the rules of SBC, not only compared """
    ranges, group = arg
    values = dict(UNMAP.defaults(), ranges=ranges, GROUP_NUMBER=group)
    recorder = Recorder()
    check_command(UNMAP, values, False, recorder)
    cdb, _, data = recorder.commands[0]
    require(int.from_bytes(cdb[7:9], "big") == len(data), "parameter list length of %d descriptors" % len(ranges))
    require(int.from_bytes(data[0:2], "big") == len(data) - 2, "unmap data length of %d descriptors" % len(ranges))
    descriptors = int.from_bytes(data[2:4], "big")
    require(descriptors == len(data) - 8 and descriptors % 16 == 0, "descriptor data length of %d descriptors" % len(ranges))
    found = [[int.from_bytes(data[at:at + 8], "big"), int.from_bytes(data[at + 8:at + 12], "big")]
             for at in range(8, 8 + descriptors, 16)]
    require(found == [list(item) for item in ranges], "announced %r, encoded %r" % (ranges, found))
    return repr(ranges), group


def range_list(count):
    return [[(index * 0x0123456789abcdef + 3) % (1 << 64), (index * 0x89abcdef + 1) % (1 << 32)] for index in range(count)]


def groups(tier):
    thorough = tier == "thorough"
    for name, spec in sorted(BLOCK.items()):
        cases = [[name, values, False] for values in single_field_cases(spec)]
        cases += [[name, dict(values, logical_block_address=0x54321), touch]
                  for values in small_product(spec) for touch in (False, True)]
        yield Group("%s/fields" % name, cases, run_encoding, bound="each field over its values on 2 backgrounds; all flags")
        sizes = [None, 512, 1024, 4096, 1, 4, 520]
        count = "number_of_logical_blocks" if name == "CompareAndWriteCommand" else "number_of_blocks"
        cases = []
        for size in sizes:
            for blocks in range(0, 300 if thorough else 60):
                for number in sorted({blocks & 0xff, blocks // 2, 0, 1, 255}):
                    values = dict(spec.defaults(), data_blocks=blocks, logical_block_address=blocks, **{count: number})
                    if size:
                        values["block_size"] = size
                    cases.append([name, values, False])
        yield Group("%s/buffers" % name, cases, run_encoding)
        yield Group("%s/device" % name, [case[:2] for case in cases[::7]], run_device)
    cases = [[UNMAP.name, dict(values, ranges=ranges), touch] for values in single_field_cases(UNMAP)
             for ranges in ([], [[1, 2]], range_list(3)) for touch in (False, True)]
    yield Group("UnmapCommand/fields", cases, run_encoding)
    cases = []
    for lba in cdbspec.field_values(64):
        cases.append([[[lba, 7]], 0])
        cases.append([[[5, 7], [lba, 0xffffffff]], 0])
    for blocks in cdbspec.field_values(32):
        cases.append([[[9, blocks]], 0])
        cases.append([[[(1 << 64) - 1, blocks], [0, 1]], 31])
    yield Group("UnmapCommand/descriptors", cases, run_unmap)
    top = 4095 if thorough else 300
    counts = list(range(0, top + 1)) + [4094, 4095]
    if thorough:
        counts = list(range(0, 600)) + list(range(600, 4096, 31)) + [4094, 4095]
    yield Group("UnmapCommand/counts", [[range_list(count), 0] for count in counts], run_unmap)
    yield Group("UnmapCommand/device", [[UNMAP.name, dict(UNMAP.defaults(), ranges=range_list(count))]
                                        for count in range(0, 41)], run_device)
