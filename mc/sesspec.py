"""Reference decoders of SES diagnostic pages (SES-3 r05 sections 6.1 and 7.3), written from the standard."""
from .decode import Text, be, fields

# --- configuration page ------------------------------------------------------------------------------------------------
PAGE = {"page_code": (0,), "page_length": (2, 4)}
GENERATION = dict(PAGE, generation_code=(4, 8))
CONFIGURATION = dict(GENERATION, secondary_subenclosures_num=(1,))
ENCLOSURE = {"enclosure_services_processes_num": (0, 0, 3), "relative_enclosure_services_process_identifier": (0, 4, 3),
             "subenclosure_identifier": (1,), "type_descriptor_headers_num": (2,), "enclosure_descriptor_length": (3,),
             "enclosure_logical_identifier": (4, 12, bytes), "enclosure_vendor_identification": (12, 20, Text),
             "product_identification": (20, 36, Text), "product_revision_level": (36, 40, Text)}
TYPE = {"element_type": (0,), "possible_elements_num": (1,), "subenclosure_identifier": (2,), "type_descriptor_text_length": (3,)}


def configuration(raw):
    expected = fields(raw, CONFIGURATION)
    at, enclosures, types, texts = 8, [], [], []
    for _ in range(raw[1] + 1):
        found = fields(raw, ENCLOSURE, at)
        stop = at + 4 + raw[at + 3]
        found["vendor_specific_enclosure_information"] = bytes(raw[at + 40:stop])
        enclosures.append(found)
        at = stop
    count = sum(item["type_descriptor_headers_num"] for item in enclosures)
    for _ in range(count):
        types.append(fields(raw, TYPE, at))
        at += 4
    for item in types:
        texts.append(Text(raw[at:at + item["type_descriptor_text_length"]]))
        at += item["type_descriptor_text_length"]
    return dict(expected, enclosure_descriptor_list=enclosures, type_descriptor_header_list=types, type_descriptor_text_list=texts), at


def make_enclosure(identifier=0, types=0, extra=b"", first=0x12, logical=b"\x50\x00\x93\xd0\x01\x3c\x40\x00",
                   vendor=b"NEWISYS ", product=b"NDS-4600-JD     ", revision=b"0509"):
    return bytes([first, identifier, types, 36 + len(extra)]) + logical + vendor + product + revision + extra


def make_type(kind, elements, identifier=0, text=0):
    return bytes([kind, elements, identifier, text])


def make_text(length, start=0):
    return bytes(0x41 + (start * 7 + index) % 26 for index in range(length))


def make_configuration(enclosures, types, texts, generation=0x80000001):
    """ enclosures and types: encoded descriptors """
    body = generation.to_bytes(4, "big") + b"".join(enclosures) + b"".join(types) + b"".join(texts)
    return bytes([1, len(enclosures) - 1]) + len(body).to_bytes(2, "big") + body


def simple_configuration(types):
    """ types: [(element type, number of elements)] """
    if len(types) > 255:
        parts = [types[start:start + 255] for start in range(0, len(types), 255)]
    else:
        parts = [types]
    return make_configuration([make_enclosure(index, len(part)) for index, part in enumerate(parts)],
                              [make_type(kind, count) for kind, count in types], [])


# --- enclosure status page ---------------------------------------------------------------------------------------------
# positions are (byte of the element, lowest bit, width) or (byte,) or (byte, stop)
IDENT, FAIL, REPORT = (1, 7, 1), (1, 6, 1), (2, 0, 1)
SLOT = {"report": REPORT, "ident": (2, 1, 1), "rmv": (2, 2, 1), "ready_insert": (2, 3, 1), "encl_bypassed_b": (2, 4, 1),
        "encl_bypassed_a": (2, 5, 1), "do_not_remove": (2, 6, 1), "app_client_bypassed_a": (2, 7, 1),
        "device_bypassed_b": (3, 0, 1), "device_bypassed_a": (3, 1, 1), "bypassed_b": (3, 2, 1), "bypassed_a": (3, 3, 1),
        "device_off": (3, 4, 1), "fault_reqstd": (3, 5, 1), "fault_sensed": (3, 6, 1), "app_client_bypassed_b": (3, 7, 1)}
SUPPLY = {"off": (3, 4, 1), "reqstd_on": (3, 5, 1), "fail": (3, 6, 1), "hot_swap": (3, 7, 1)}


def signed(value, width):
    return value - (1 << width) if value >> (width - 1) else value


def cooling(raw, at):
    return {"fan_speed": (raw[at + 1] & 7) << 8 | raw[at + 2]}


def general(raw, at):
    return {"general": list(raw[at + 1:at + 4])}


ELEMENTS = {
    0x01: dict(SLOT, slot_address=(1,)),
    0x02: dict(SUPPLY, ident=IDENT, dc_over_current=(2, 1, 1), dc_under_voltage=(2, 2, 1), dc_over_voltage=(2, 3, 1),
               dc_fail=(3, 0, 1), ac_fail=(3, 1, 1), temp_warn=(3, 2, 1), overtmp_fail=(3, 3, 1)),
    0x03: dict(SUPPLY, ident=IDENT, speed_code=(3, 0, 3)),
    0x04: {"ident": IDENT, "fail": FAIL, "temperature": (2,), "ut_warn": (3, 0, 1), "ut_fail": (3, 1, 1), "ot_warn": (3, 2, 1), "ot_fail": (3, 3, 1)},
    0x05: {"ident": IDENT, "fail": FAIL, "unlocked": (3, 0, 1), "door_open": (3, 1, 1)},
    0x06: {"ident": IDENT, "fail": FAIL, "tui_unrecov": (3, 0, 1), "tui_crit": (3, 1, 1), "tui_non_crit": (3, 2, 1), "tui_info": (3, 3, 1),
           "remind": (3, 4, 1), "muted": (3, 6, 1), "rqst_mute": (3, 7, 1)},
    0x07: {"ident": IDENT, "fail": FAIL, "report": REPORT, "hot_swap": (3, 7, 1)},
    0x08: {"ident": IDENT, "fail": FAIL, "report": REPORT},
    0x09: {"ident": IDENT, "fail": FAIL, "size_mult": (1, 0, 2), "cache_size": (2, 4)},
    0x0a: {"invop_type": (1, 6, 2), "invop_bytes": (2, 4)},
    0x0b: {"battery_status": (1,), "intf_fail": (2, 0, 1), "warn": (2, 1, 1), "ups_fail": (2, 2, 1), "dc_fail": (2, 3, 1), "ac_fail": (2, 4, 1),
           "ac_qual": (2, 5, 1), "ac_hi": (2, 6, 1), "ac_low": (2, 7, 1), "bpf": (3, 0, 1), "batt_fail": (3, 1, 1), "fail": (3, 6, 1), "ident": (3, 7, 1)},
    0x0c: {"ident": IDENT, "fail": FAIL, "display_mode_status": (1, 0, 2), "display_char_status": (2, 4)},
    0x0d: {"ident": IDENT, "fail": FAIL},
    0x0e: {"ident": IDENT, "warn_indication": (2, 0, 1), "failure_indication": (2, 1, 1), "time_until_power_cycle": (2, 2, 6),
           "warn_requested": (3, 0, 1), "failure_requested": (3, 1, 1), "requested_power_off_duration": (3, 2, 6)},
    0x0f: {"ident": IDENT, "fail": FAIL, "report": REPORT, "xmit_fail": (3, 0, 1), "lol": (3, 1, 1), "disabled": (3, 4, 1)},
    0x10: {"ident": IDENT, "language_code": (2, 4)},
    0x11: {"ident": IDENT, "fail": FAIL, "disabled": (3, 0, 1)},
    0x12: {"ident": IDENT, "fail": FAIL, "crit_under": (1, 0, 1), "crit_over": (1, 1, 1), "warn_under": (1, 2, 1), "warn_over": (1, 3, 1)},
    0x13: {"ident": IDENT, "fail": FAIL, "crit_over": (1, 1, 1), "warn_over": (1, 3, 1)},
    0x14: {"ident": IDENT, "fail": FAIL, "report": REPORT, "enabled": (3, 0, 1)},
    0x15: {"ident": IDENT, "fail": FAIL, "report": REPORT, "enabled": (3, 0, 1)},
    0x16: {"ident": IDENT, "fail": FAIL, "short_enclosure_status": (3,)},
    0x17: dict(SLOT, ok=(1, 7, 1), rsvd_device=(1, 6, 1), hot_spare=(1, 5, 1), cons_chk=(1, 4, 1), in_crit_array=(1, 3, 1),
               in_failed_array=(1, 2, 1), rebuild_remap=(1, 1, 1), rr_abort=(1, 0, 1)),
    0x18: {"ident": IDENT, "fail": FAIL},
    0x19: {"ident": IDENT, "connector_type": (1, 0, 7), "connector_phys_link": (2,), "fail": (3, 6, 1)},
}
MEASURED = {0x03: cooling,
            0x12: lambda raw, at: {"voltage": signed(be(raw, at + 2, at + 4), 16)},
            0x13: lambda raw, at: {"current": signed(be(raw, at + 2, at + 4), 16)}}
COMMON = {"element_status_code": (0, 0, 4), "swap": (0, 4, 1), "disabled": (0, 5, 1), "prdfail": (0, 6, 1)}
STATUS = dict(GENERATION, unrecov=(1, 0, 1), crit=(1, 1, 1), non_crit=(1, 2, 1), info=(1, 3, 1), invop=(1, 4, 1))


def element(raw, at, kind):
    found = fields(raw, COMMON, at)
    # "general": the bytes of elements without a layout, as numbers 0..255
    info = fields(raw, ELEMENTS[kind], at) if kind in ELEMENTS else general(raw, at)
    if kind in MEASURED:
        info.update(MEASURED[kind](raw, at))
    return dict(found, status_info=info)


def enclosure_status(raw, types):
    at, found = 8, []
    for kind, count in types:
        overall = element(raw, at, None)
        found.append({"overall_element": overall,
                      "individual_elements": [element(raw, at + 4 * (index + 1), kind) for index in range(count)]})
        at += 4 * (count + 1)
    return dict(fields(raw, STATUS), status_descriptors=found), at


def make_page(code, body, first=0, generation=0x80000001):
    body = generation.to_bytes(4, "big") + bytes(body)
    return bytes([code, first]) + len(body).to_bytes(2, "big") + body


# --- element descriptor page -------------------------------------------------------------------------------------------
def descriptor(raw, at):
    length = be(raw, at + 2, at + 4)
    return {"descriptor_length": length, "descriptor": bytes(raw[at + 4:at + 4 + length])}, at + 4 + length


def element_descriptors(raw, types):
    at, found = 8, []
    for _, count in types:
        overall, at = descriptor(raw, at)
        individual = []
        for _ in range(count):
            item, at = descriptor(raw, at)
            individual.append(item)
        found.append({"overall_element": overall, "individual_elements": individual})
    return dict(fields(raw, GENERATION), element_descriptors=found), at


def make_descriptor(data, reserved=b"\0\0"):
    return reserved + len(data).to_bytes(2, "big") + bytes(data)


# --- page lists --------------------------------------------------------------------------------------------------------
def supported_pages(raw):
    return dict(fields(raw, PAGE), supported_pages=list(raw[4:4 + be(raw, 2, 4)]))


def vendor_page(raw):
    return dict(fields(raw, PAGE), vendor_specific=list(raw[4:4 + be(raw, 2, 4)]))


def unknown_page(raw):
    return {"page_code": raw[0], "page_data": bytes(raw[1:4 + be(raw, 2, 4)])}
