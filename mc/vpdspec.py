"""Reference decoders of the VPD pages (SPC-4 7.8, SBC-4 6.6, SAT-3 12.4.2), and images of designators."""
from . import load  # noqa
from .decode import Text, fields, peripheral, be, bits

PAGE = {"page_code": (1,), "page_length": (2, 4)}


def page(raw, table=None):
    expected = fields(raw, dict(PAGE, **(table or {})))
    expected["peripheral_device"] = peripheral(raw)
    return expected


def content(raw, start=4):
    """ the bytes a page declares, as far as the response has them """
    return bytes(raw[start:4 + be(raw, 2, 4)])


def supported_pages(raw):
    return dict(page(raw), vpd_parameters=list(content(raw)))


def serial_number(raw):
    return dict(page(raw), product_serial_number=Text(content(raw)))


def unknown_page(raw):
    return dict(page(raw), page_data=content(raw))


BLOCK_LIMITS = {
    "wsnz": (4, 0, 1), "maximum_compare_and_write_length": (5,), "optimal_transfer_length_granularity": (6, 8),
    "maximum_transfer_length": (8, 12), "optimal_transfer_length": (12, 16),
    "maximum_prefetch_xdread_xdwrite_transfer_length": (16, 20), "maximum_unmap_lba_count": (20, 24),
    "maximum_unmap_block_descriptor_count": (24, 28), "optimal_unmap_granularity": (28, 32), "ugavalid": (32, 7, 1),
    "maximum_write_same_length": (36, 44),
}


def block_limits(raw):
    return dict(page(raw, BLOCK_LIMITS), unmap_granularity_alignment=be(raw, 32, 36) & 0x7fffffff)


PROVISIONING = {
    "threshold_exponent": (4,), "dp": (5, 0, 1), "anc_sup": (5, 1, 1), "lbprz": (5, 2, 1), "lbpws10": (5, 5, 1),
    "lbpws": (5, 6, 1), "lbpu": (5, 7, 1), "provisioning_type": (6, 0, 3),
}


def provisioning(raw):
    expected = page(raw, PROVISIONING)
    expected["provisioning_group_descriptor"] = designator(raw, 8)[0] if be(raw, 2, 4) > 4 and len(raw) > 8 else None
    return expected


VERITAS = dict(("is_" + name, (4, index, 1)) for index, name in enumerate(
    ["thin_lun", "snapshot_lun", "space_optimized_src", "fcdisk_lun", "satadisk_lun", "replication_src", "replication_dst"]))
VERITAS["raid_type"] = (5,)


def veritas(raw):
    return page(raw, VERITAS)


ATA = {
    "sat_vendor_identification": (8, 16, Text), "sat_product_identification": (16, 32, Text),
    "sat_product_revision_level": (32, 36, Text), "command_code": (56,),
}
SIGNATURE = {"transport_id": (0,), "pm_port": (1, 0, 4), "interrupt": (1, 6, 1), "status": (2,), "error": (3,), "device": (7,)}
# the bytes of every word of an ATA string are swapped
ATA_TEXT = [(8, 36), (80, 100), (106, 114), (114, 154)]


def ata_string(raw, first_word, last_word):
    text = bytearray()
    for word in range(first_word, last_word + 1):
        text += bytes([raw[60 + 2 * word + 1], raw[60 + 2 * word]])
    return Text(text)


def ata_information(raw):
    signature = fields(raw, SIGNATURE, 36)
    signature["lba"] = bytes(raw[40:43]) + bytes(raw[44:47])
    signature["sector_count"] = raw[48] | raw[49] << 8
    return dict(page(raw, ATA), device_signature=signature,
                identify_device={"serial_number": ata_string(raw, 10, 19), "firmware_revision": ata_string(raw, 23, 26),
                                 "model_number": ata_string(raw, 27, 46)})


# --- designators -------------------------------------------------------------------------------------------------------
HEADER = {"code_set": (0, 0, 4), "protocol_identifier": (0, 4, 4), "designator_type": (1, 0, 4), "association": (1, 4, 2),
          "piv": (1, 7, 1), "designator_length": (3,)}
EUI = {8: {"ieee_company": (4, 7), "vendor_specific_extension_identifer": (7, 12)},
       12: {"ieee_company": (4, 7), "vendor_specific_extension_identifer": (7, 12), "directory_id": (12, 16)},
       16: {"identifier_extension": (4, 12), "ieee_company": (12, 15), "vendor_specific_extension_identifer": (15, 20)}}


class Raw(object):
    """ the raw bytes, under whatever name """


def designator(raw, at):
    """ (expected attributes, bytes taken); attributes None: a format without fields of its own """
    expected = fields(raw, HEADER, at)
    kind, length = expected["designator_type"], expected["designator_length"]
    data = bytes(raw[at + 4:at + 4 + length])
    if kind == 0:
        expected["vendor_specific_identifier"] = data
    elif kind == 1:
        expected.update(t10_vendor_identification=Text(data[:8]), vendor_specific_identifier=data[8:])
    elif kind == 2 and length in EUI:
        expected.update(fields(raw, EUI[length], at))
    elif kind == 3 and data[:1]:
        naa, value = data[0] >> 4, int.from_bytes(data[:8], "big")
        expected["naa"] = naa
        if naa == 2:
            expected.update(vendor_specific_identifier_a=value >> 48 & 0xfff, ieee_company=value >> 24 & 0xffffff,
                            vendor_specific_identifier_b=value & 0xffffff)
        elif naa == 3:
            expected["locally_administered_value"] = value & ((1 << 60) - 1)
        elif naa in (5, 6):
            expected.update(ieee_company_id=value >> 36 & 0xffffff, vendor_specific_identifier=value & ((1 << 36) - 1))
            if naa == 6:
                expected["vendor_specific_identifier_extension"] = int.from_bytes(data[8:16], "big")
    elif kind in (4, 5, 6):
        name = {4: "relative_target_port_identifier", 5: "target_port_group", 6: "logical_unit_group"}[kind]
        expected[name] = be(data, 2, 4)
    elif kind == 7:
        expected["md5_logical_unit_identifier"] = data
    elif kind == 8:
        expected["scsi_name_string"] = data
    elif kind >= 9:
        expected["designator"] = data
    return expected, 4 + length


def designators(raw):
    at, end, found = 4, 4 + be(raw, 2, 4), []
    while at < end:
        item, length = designator(raw, at)
        found.append(item)
        at += length
    return found


def device_identification(raw):
    return dict(page(raw), designators_list=designators(raw))


def make_page(code, body, peripheral_byte=0, length=None):
    length = len(body) if length is None else length
    return bytes([peripheral_byte, code]) + length.to_bytes(2, "big") + bytes(body)


def make_designator(kind, data, code_set=1, association=0, protocol=0, piv=0, reserved=0):
    return bytes([protocol << 4 | code_set, piv << 7 | association << 4 | kind, reserved, len(data)]) + bytes(data)


def fill(length, start=0x10):
    return bytes((start + index * 37) & 0xff for index in range(length))


def known_designators():
    """ name -> (type, data): one of every format """
    table = {"vendor-0": (0, b""), "vendor-5": (0, fill(5)), "t10-8": (1, b"ACME    "), "t10-13": (1, b"ACME 12X" + fill(5, 0xc0)),
             "relative-port": (4, b"\0\0\x81\x02"), "port-group": (5, b"\0\0\x92\x13"), "unit-group": (6, b"\0\0\xa3\x24"),
             "md5": (7, fill(16, 0x81)), "name": (8, b"iqn.2009-11.com:x\0\0\0"), "reserved-9": (9, fill(3, 0xf1)),
             "reserved-15": (15, b""), "uuid": (10, b"\x10\0" + fill(16, 0x77))}
    for length in EUI:
        table["eui-%d" % length] = (2, fill(length, 0x91))
    for naa, length in ((2, 8), (3, 8), (5, 8), (6, 16)):
        table["naa-%d" % naa] = (3, bytes([naa << 4 | 0x0b]) + fill(length - 1, 0x85))
    return table
