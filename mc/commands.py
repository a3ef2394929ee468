"""One instance of every command class, with the values it is built from."""
from . import cdbspec
from .cdbspec import Spec, module


def page_specs():
    def inquiry(page_code, allocation):
        return Spec("vpd page %#x" % page_code, lambda: module("inquiry.vpd_pages").get_vpd_page(page_code), 6,
                    {0: 0x12, 1: 1, 2: page_code, 3: allocation >> 8, 4: allocation & 0xff}, [],
                    lambda values: ("read", allocation))

    def diagnostic(page_code, allocation, extra=None):
        return Spec("ses page %#x" % page_code, lambda: module("diagnostic.ses_pages").get_ses_page(page_code), 6,
                    {0: 0x1c, 1: 1, 2: page_code, 3: allocation >> 8, 4: allocation & 0xff}, [],
                    lambda values: ("read", allocation), extra=extra, buffer_control=True)

    for page_code, allocation in ((0x00, None), (0x80, None), (0x83, None), (0xb0, None), (0x42, None), (0x43, None)):
        yield inquiry(page_code, declared("inquiry", page_code))
    for page_code in (0x00, 0x01, 0x80, 0x42):
        yield diagnostic(page_code, declared("diagnostic", page_code))
    for page_code in (0x02, 0x07):
        yield diagnostic(page_code, declared("diagnostic", page_code), lambda values: {"conf_page": None})


def declared(family, page_code):
    """ the allocation length of a page command is the library's choice (C33 checks its consistency) """
    if family == "inquiry":
        return module("inquiry.vpd_pages").get_vpd_page(page_code)().allocation_length
    factory = module("diagnostic.ses_pages").get_ses_page(page_code)
    return (factory(None) if page_code in (2, 7) else factory()).allocation_length


def base_values():
    read = {"logical_block_address": 0x1234, "transfer_length": 2, "block_size": 16}
    write = {"logical_block_address": 0x1234, "blocks": 2, "block_size": 16}
    yield from ((spec, dict(read)) for spec in cdbspec.read_specs())
    yield from ((spec, dict(write)) for spec in cdbspec.write_specs())
    for spec in cdbspec.block_specs():
        if spec.name == "CompareAndWriteCommand":
            yield spec, {"logical_block_address": 7, "number_of_logical_blocks": 1, "data_blocks": 2, "block_size": 16}
        else:
            yield spec, {"logical_block_address": 7, "number_of_blocks": 3, "data_blocks": 1}
    yield cdbspec.unmap_spec(), {"ranges": [[1, 2], [3, 4]]}
    for spec in cdbspec.info_specs():
        yield spec, ({"allocation_length": 64} if spec.field("allocation_length") and
                     spec.name != "ReadCapacity16Command" else {})
    for spec in cdbspec.reservation_specs():
        yield spec, ({"third_party_device_id": 7} if spec.name == "Reserve10Command" else
                     {"third_party_device_id": 1 << 40} if spec.name == "Release10Command" else {})
    yield cdbspec.persistent_in_spec(), {"service_action": 1, "allocation_length": 64}
    yield cdbspec.persistent_out_spec(), {"service_action": 0, "reservation_key": 1, "service_action_reservation_key": 2,
                                          "pr_type": 5}
    for spec in page_specs():
        yield spec, {}


CLASSES = [(spec, dict(spec.defaults(), **values)) for spec, values in base_values()]
NAMES = [spec.name for spec, _ in CLASSES]
assert len(set(NAMES)) == len(NAMES)
