"""C21: informational commands encode the requested page and buffer size."""
from mc.core import Group, require
from mc.backends import SgFile, linux_sg, IN
from mc import cdbspec
from mc.cdbspec import single_field_cases, small_product, Recorder, execute, check_recorded

from infi.asi.coroutines.sync_adapter import sync_wait

ID = "C21"
LEVEL = "exploration"
RULE = ("a case is one informational command built from one assignment of its arguments and flags; the CDB it submits is "
        "compared byte for byte with the reference layout and the response buffer with the allocation length the CDB "
        "announces; distinct = distinct submissions")
ASSUMPTIONS = ["how the response is decoded is judged by C24-C34, here any outcome after the submission is accepted"]

SPECS = dict((spec.name, spec) for spec in cdbspec.info_specs())
RTPG_FORMATS = {"parameter_data_format": 1}             # the library knows formats 0 and 1


def submit(spec, values, touch_all, executer, submitted):
    command = spec.make(values, touch_all)
    try:
        execute(command, executer)
    except Exception:
        if not submitted():
            raise


def run_encoding(arg):
    name, values, touch_all = arg
    spec = SPECS[name]
    recorder = Recorder(lambda length: b"\0" * min(length, 600))
    submit(spec, values, touch_all, recorder, lambda: recorder.commands)
    check_recorded(spec, values, recorder)
    return name, spec.expected(values)


def run_twice(arg):
    """ defaults of the constructors, and executing once more """
    name, kwargs, values = arg
    spec = SPECS[name]
    recorder = Recorder(lambda length: b"\0" * min(length, 600))
    command = spec.load()(**kwargs)
    for count in (1, 2):
        try:
            execute(command, recorder)
        except Exception:
            if len(recorder.commands) != count:
                raise
        require(len(recorder.commands) == count, "execution %d submitted %d commands" % (count, len(recorder.commands)))
        cdbspec.compare(spec, dict(spec.defaults(), **values), recorder.commands[-1])
    return name, spec.encode(dict(spec.defaults(), **values))


def run_device(arg):
    name, values = arg
    spec = SPECS[name]
    cdb, kind, length = spec.expected(values)
    device = SgFile(lambda submission: {"data": b"\0" * min(submission.length, 600)})
    submit(spec, values, False, linux_sg(device), lambda: device.submissions)
    require(len(device.submissions) == 1, "%d commands reached the device" % len(device.submissions))
    submission = device.submissions[0]
    require(submission.cdb == cdb, "%s%r: CDB %s, expected %s" % (name, values, submission.cdb.hex(), cdb.hex()))
    if kind == "none" or not length:
        require(submission.length == 0, "%s moves %d bytes" % (name, submission.length))
    else:
        require((submission.direction, submission.length) == (IN, length), "%s%r: %s buffer of %d bytes, announced %d" %
                (name, values, submission.direction, submission.length, length))
    return name, cdb


def run_test_unit_ready(arg):
    device = SgFile()
    require(sync_wait(SPECS["TestUnitReadyCommand"].make({}).execute(linux_sg(device))) is True, "the unit is ready")
    from infi.asi.errors import AsiCheckConditionError, AsiReservationConflictError
    for status, expected in ((2, AsiCheckConditionError), (0x18, AsiReservationConflictError)):
        device = SgFile(lambda submission: {"status": status, "sense": bytes.fromhex("70000200000000000400000000000000")})
        try:
            result = sync_wait(SPECS["TestUnitReadyCommand"].make({}).execute(linux_sg(device)))
        except expected:
            continue
        require(False, "a unit that reports status %#x is ready: %r" % (status, result))
    return True


DEFAULTS = [
    ["StandardInquiryCommand", {}, {"allocation_length": 36}],
    ["StandardInquiryCommand", {"allocation_length": 96}, {"allocation_length": 96}],
    ["StandardInquiryCommand", {"page_code": 0x83, "evpd": 1, "allocation_length": 255},
     {"page_code": 0x83, "evpd": 1, "allocation_length": 255}],
    ["TestUnitReadyCommand", {}, {}],
    ["ReadCapacity10Command", {}, {}],
    ["ReadCapacity10Command", {"logical_block_address": 9}, {"logical_block_address": 9}],
    ["ReadCapacity10Command", {"pmi": 1}, {"pmi": 1}],
    ["ReadCapacity16Command", {}, {"allocation_length": 32}],
    ["ReadCapacity16Command", {"logical_block_address": 9}, {"allocation_length": 32, "logical_block_address": 9}],
    ["ReportLunsCommand", {}, {"allocation_length": 16384}],
    ["ReportLunsCommand", {"select_report": 2}, {"allocation_length": 16384, "select_report": 2}],
    ["ReportLunsCommand", {"allocation_length": 8}, {"allocation_length": 8}],
    ["RTPGCommand", {}, {"allocation_length": 16384}],
    ["RTPGCommand", {"parameter_data_format": 1}, {"allocation_length": 16384, "parameter_data_format": 1}],
    ["ReceiveCopyOperatingParametersCommand", {"allocation_length": 520}, {"allocation_length": 520}],
    ["LogSenseCommand", {"page_code": 0x2f}, {"page_code": 0x2f, "allocation_length": 396}],
    ["LogSenseCommand", {"page_code": 0x2f, "subpage_code": 1}, {"page_code": 0x2f, "subpage_code": 1, "allocation_length": 396}],
]


def groups(tier):
    for name, spec in sorted(SPECS.items()):
        limits = RTPG_FORMATS if name == "RTPGCommand" else {}
        cases = [[name, values, False] for values in single_field_cases(spec, limits=limits)]
        cases += [[name, values, True] for values in single_field_cases(spec, limits=limits, backgrounds=1)]
        product = [values for values in small_product(spec) if values.get("parameter_data_format", 0) < 2]
        cases += [[name, dict(values, **extra), touch] for values in product for touch in (False, True)
                  for extra in ({}, {"allocation_length": 300} if spec.field("allocation_length") else {})]
        yield Group("%s/fields" % name, cases, run_encoding, bound="each field over its values on 2 backgrounds; all flags")
        lengths = [0] + list(range(1, 70)) + [95, 96, 127, 128, 252, 255, 256, 257, 512, 4095, 65535, 65536, 1 << 20]
        field = spec.field("allocation_length")
        cases = [[name, spec.defaults()]]
        if field:
            cases = [[name, dict(spec.defaults(), allocation_length=length)] for length in lengths if length < 1 << field.width]
        yield Group("%s/device" % name, cases, run_device)
    yield Group("defaults", DEFAULTS, run_twice)
    yield Group("test unit ready", [None], run_test_unit_ready)
