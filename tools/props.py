#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "src/infi/asi/"
CB = A + "cdb/"
P = []


def prop(pid, title, statement, over, quantifier, why, files, mechanism, state=(), observe=(), level="exploration",
         technique="", note=""):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(
        record=dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=quantifier),
                    why_tests_cant=why,
                    anchors=dict(files=files,
                                 state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                                 mechanism=[dict(name=n, where=w) for n, w in mechanism],
                                 observe_at=list(observe), hook_needed=None)),
        level=level, technique=technique, note=note))


EX = [A + "__init__.py", A + "linux.py", A + "coroutines/sync_adapter.py"]
EX_STATE = [("pending commands", "submitted commands by packet id", A + "__init__.py CommandExecuterBase"),
            ("next packet index", "where the search for a free packet id starts", A + "__init__.py CommandExecuterBase")]
MC = ("stateless model checking of the real executer under a simulated sg device: exhaustive depth-first enumeration "
      "of operations and device choices, replay of choice sequences, optional merging of equal states")
MC_NOTE = ("Exhaustive within the bounds printed per group (queue size, operations per history, faults per history). "
           "Trusts the device model in mc/fakesg.py, whose header layout is compared with <scsi/sg.h> once (DESIGN.md); "
           "merged groups additionally assume that futures depend only on the device's queue and the last packet id, "
           "the unmerged groups do not.")
CODEC = ("bounded exhaustive enumeration of byte images / field values executed on the real code, compared with an "
         "independent reference encoder/decoder")
CODEC_NOTE = ("Complete over the stated enumeration (each byte through all 256 values over several backgrounds, every bit "
              "of wide fields, boundaries, all list shapes up to a small bound); it does not cover the full product of "
              "all bytes. Trusts the reference layout tables written from SPC/SBC/SES.")

prop("C01", "Every response reaches exactly the command it answers",
     "Whatever order and outcome the device completes outstanding commands with, each callback (or call result) carries "
     "exactly the data or error of its own command: the data buffer the device filled for it, or the sense / error it "
     "reported for it. No command ever shares a packet id with another command that is still outstanding.",
     ["schedules", "histories"], "all sequences of send/call/wait on one executer and all completion orders and outcomes, queue sizes 1..15",
     "Tests complete commands one at a time; out-of-order completion and reuse of packet ids after wrap-around are never exercised.",
     EX, [("packet index allocation", A + "__init__.py _next_packet_index"),
          ("response matching", A + "__init__.py _process_pending_response")], EX_STATE,
     ["callbacks", "results of call", "raw writes to the device"], "model_checking", MC, MC_NOTE)
prop("C02", "The request queue is bounded and overflow is refused cleanly",
     "At most max_queue_size commands are outstanding on the device at any time, exactly that many are accepted, and the "
     "queue reports itself full exactly then. A send or call beyond the limit raises the queue-full error, reaches "
     "neither the device nor a callback, and leaves the outstanding commands untouched; after completions the full "
     "capacity is available again.",
     ["histories", "fault_sequences"], "all histories of send/call/wait, refused, malformed and failing sends, queue sizes 1..18",
     "No test fills a queue.", EX,
     [("capacity check", A + "__init__.py _next_packet_index"), ("is_queue_full", A + "__init__.py")], EX_STATE,
     ["raw writes to the device", "is_queue_full()"], "model_checking", MC, MC_NOTE)
prop("C03", "An I/O failure affects only the operation it happened in",
     "When writing a command to the device fails, the very failure surfaces from that send or call, the command occupies "
     "no queue slot and its callback is never called. When reading a response fails, the failure surfaces from the "
     "operation that was reading, and every command still outstanding can be completed and delivered later.",
     ["fault_sequences", "histories"], "all placements of up to 3 read and 2 write failures in all histories up to the bound",
     "Tests inject no I/O failure.", EX,
     [("cleanup of a failed send", A + "__init__.py send"), ("response handling", A + "__init__.py _process_pending_response")],
     EX_STATE, ["exceptions raised by send/call/wait", "callbacks"], "fault_enumeration",
     "exhaustive fault-point enumeration on the real executer under a simulated sg device, over all histories up to a bound",
     MC_NOTE)
prop("C04", "wait() drains the queue and calls every callback exactly once",
     "wait() returns only when no command is outstanding, reads from the device only while one is, and by then every "
     "command sent with a callback has had it called exactly once with its outcome. Commands sent without a callback and "
     "commands sent from inside a callback are drained too; an exception raised by a callback surfaces unchanged from "
     "wait(), and a further wait() drains the rest.",
     ["histories", "schedules"], "all mixes of up to 3 (thorough: 4) commands with plain, absent, nested-sending and raising callbacks, all completion orders",
     "Tests never use callbacks that are absent, raise or send.", EX,
     [("wait loop", A + "__init__.py wait"), ("callback invocation", A + "__init__.py _process_pending_response")],
     EX_STATE, ["callbacks", "device reads"], "model_checking", MC, MC_NOTE)
prop("C05", "A response that belongs to no pending command is an internal error",
     "A response whose packet id matches no outstanding command (never used, already completed, out of range) raises an "
     "internal error from the operation that read it, whatever status it carries. No callback is called for it, and all "
     "outstanding commands are still delivered correctly afterwards.",
     ["fault_sequences", "histories"], "all histories up to the bound with up to 2 stray responses at any read",
     "Tests never feed a stray response.", EX,
     [("response matching", A + "__init__.py _process_pending_response"), ("response parsing", A + "linux.py")],
     EX_STATE, ["exceptions raised by wait/call", "callbacks"], "fault_enumeration",
     "exhaustive fault-point enumeration (stray responses) on the real executer under a simulated sg device", MC_NOTE)
prop("C06", "Greenlets sharing an executer never receive each other's answers",
     "When several greenlets use one executer and the scheduler switches between them after any device write or read, "
     "every result or callback still carries the outcome of its own command, is delivered at most once, and no two "
     "outstanding commands share a packet id. Control is offered to the other greenlets after every successful device I/O, and the "
     "value or exception of the I/O is passed through unchanged.",
     ["schedules"], "all interleavings (switch after any I/O) of 2-3 greenlets with 1-2 operations each and all completion orders",
     "The existing gevent test runs one greenlet pair on one schedule.", EX,
     [("yield after I/O", A + "__init__.py gevent_friendly"), ("packet index allocation", A + "__init__.py _next_packet_index")],
     EX_STATE, ["results per greenlet"], "model_checking",
     "exhaustive enumeration of greenlet schedules: real greenlets, a scheduler injected as gevent.sleep, depth-first replay",
     MC_NOTE + " Safety only: a greenlet may time out in a read whose response another greenlet consumed (see DESIGN.md).")
prop("C07", "Running a coroutine synchronously equals direct nested calls",
     "Driving a generator to completion synchronously behaves like ordinary nested function calls: a yielded generator is "
     "run and its value delivered to the yielder, a yielded plain value is handed straight back, a yielded I/O token is "
     "replaced by its blocking result, and the overall result is the value of the outermost generator (its last yielded value). An exception, raised by "
     "a nested generator or by waiting for a token, is raised at the yield of the caller awaiting it, travels outward "
     "until caught and then is over; each generator is started exactly once.",
     ["programs"], "all generator programs up to the size bound (yield value, nested call, token, failing token, raise, try/except/finally)",
     "Tests run four hand-written generators.", [A + "coroutines/sync_adapter.py"],
     [("generator stack", A + "coroutines/sync_adapter.py Coroutine._next_step")],
     [("stack", "the chain of suspended callers", A + "coroutines/sync_adapter.py"),
      ("pending value or exception", "what the next resume delivers", A + "coroutines/sync_adapter.py")],
     ["return value, raised exception, trace of the program"], "exploration",
     "exhaustive enumeration of small generator programs run on the real driver and compared step by step with a reference interpreter using direct recursion",
     "Complete over the program grammar up to the printed size; trusts the reference interpreter in checks/c07.py.")
prop("C08", "Asynchronous waiting returns every result in argument order",
     "Waiting for several asynchronous commands returns one result per command, in argument order, for every order in "
     "which the operating system completes the pending operations and any number of commands (also more than the 64 Windows "
     "waits for in one call) and of operations per command. Each "
     "operation's result goes to the command that issued it, and a failing operation raises in that command.",
     ["schedules"], "all completion orders of up to 3 commands with up to 3 overlapped operations each, synchronous completions and failures; up to 130 (thorough: 400) commands in four orders of completion",
     "The module can not even be imported off Windows; no test covers it.", [A + "win32.py", A + "coroutines/sync_adapter.py"],
     [("reactor loop", A + "win32.py Win32AsyncReactor.wait_for"), ("overlapped I/O", A + "win32.py Win32AsyncFile.ioctl")],
     [("waiting coroutines", "commands with an operation in flight", A + "win32.py Win32AsyncReactor")],
     ["returned list"], "model_checking",
     "exhaustive enumeration of completion orders on the real reactor over a simulated kernel32", "Trusts the kernel32 model (overlapped I/O, events) in mc/fakewin.py.")
prop("C09", "Linux: a command reaches the sg device exactly as given",
     "Every command submitted to a Linux sg device carries the given CDB, direction (from device for a positive response "
     "length, none for zero, to device for a write), the exact write payload or a buffer of exactly the requested size, "
     "a 255-byte sense buffer and the configured timeout. The buffers stay valid until the command completes, whatever else is "
     "sent or collected in between, and a read returns exactly the bytes the device stored, as long as the requested "
     "response length.",
     ["inputs", "histories"], "all CDB lengths, all small transfer lengths and boundaries, directions, timeouts, with garbage collection and further commands between submission and completion",
     "Tests mock the submission entirely.", [A + "linux.py"],
     [("header construction", A + "linux.py SGIO.create")], [("request header", "sg_io_hdr with pointers to live buffers", A + "linux.py SGIO")],
     ["bytes written to the device"], "exploration",
     "bounded exhaustive enumeration of commands on the real executer against a simulated sg device that dereferences the submitted pointers",
     "Complete over the stated grid. Trusts the header layout in mc/fakesg.py.")
prop("C10", "Linux: every completion status is classified correctly",
     "A completion with SCSI, driver and host status all clean yields the data; any CHECK CONDITION or driver-reported "
     "sense yields a check-condition error carrying the device's sense bytes; a reservation conflict yields the "
     "reservation-conflict error; every other non-zero SCSI status, driver error code or host status yields an error "
     "of the library (host status 7 together with a SCSI status: the queue-full error). A failed command never appears successful and a clean one never fails, "
     "and driver suggestions alone are not failures.",
     ["inputs"], "all SCSI statuses x driver codes x suggestions x host codes, for reads, writes and no-data commands, via call and callback",
     "Tests cover three hand-picked combinations.", [A + "linux.py", A + "__init__.py"],
     [("response classification", A + "linux.py _handle_raw_response")], [], ["result or exception of call"], "exploration",
     "exhaustive enumeration of status combinations on the real executer against a simulated sg device",
     "Complete product of the status code sets named in <scsi/sg.h> and SAM.")
prop("C11", "Linux ioctl backend: submission and completion are faithful",
     "Through the ioctl interface a command is submitted once with the given CDB, direction, buffers and timeout, and what the kernel "
     "writes back (status, sense, data) determines the outcome by the same classification as the sg read/write interface. "
     "An ioctl failure surfaces from the operation and leaves the executer usable.",
     ["inputs", "histories", "fault_sequences"], "all status combinations, directions, lengths, and histories of calls with failures at any point",
     "No test runs this backend.", [A + "linux.py"],
     [("ioctl submission", A + "linux.py LinuxIoctlCommandExecuter")], [("returned header", "what the kernel wrote back", A + "linux.py")],
     ["ioctl arguments", "result of call"], "model_checking",
     "exhaustive enumeration of histories, statuses and fault points on the real executer over a simulated ioctl",
     "Trusts the ioctl model: the kernel writes back into a writable buffer and can not modify an immutable one.")
prop("C12", "Solaris backend: submission and completion are faithful",
     "Through the uscsi ioctl a command is submitted once with the given CDB, direction, buffers, sense buffer and timeout. The outcome follows what "
     "the kernel writes back: clean status yields the data, CHECK CONDITION yields a check-condition error with the "
     "device's sense bytes, every other non-zero status, of the command or of the request sense, an error naming the status; an ioctl failure surfaces and leaves "
     "the executer usable.",
     ["inputs", "histories", "fault_sequences"], "all status bytes, request-sense statuses, directions, lengths, histories of calls with failures at any point",
     "No test runs this backend.", [A + "solaris.py"], [("ioctl submission", A + "solaris.py SolarisCommandExecuter")],
     [("returned structure", "what the kernel wrote back", A + "solaris.py")], ["ioctl arguments", "result of call"], "model_checking",
     "exhaustive enumeration of histories, statuses and fault points on the real executer over a simulated ioctl",
     "Runs on Linux with the ioctl replaced; trusts the uscsi_cmd layout written in mc/fakeioctl.py.")
prop("C13", "AIX backend: submission and completion are faithful",
     "Through the passthru ioctl a command is submitted once with the given CDB, direction, buffers, sense buffer and timeout. The outcome follows what "
     "the kernel writes back: no valid error status yields the data, a valid SCSI status of CHECK CONDITION yields a check-condition error with "
     "the device's sense bytes, every other reported SCSI or adapter error an error from the library's SCSI error "
     "hierarchy; an ioctl that fails without a reported status surfaces as an operating-system error and leaves the executer usable.",
     ["inputs", "histories", "fault_sequences"], "all validity/status/adapter combinations, invalid-argument codes, directions, lengths, histories with failures at any point",
     "No test runs this backend.", [A + "aix.py"], [("ioctl submission", A + "aix.py AixCommandExecuter")],
     [("returned structure", "what the kernel wrote back", A + "aix.py")], ["ioctl arguments", "result of call"], "model_checking",
     "exhaustive enumeration of histories, statuses and fault points on the real executer over a simulated ioctl",
     "Runs on Linux with the ioctl replaced; trusts the sc_passthru layout written in mc/fakeioctl.py.")
prop("C14", "Windows backend: submission and completion are faithful",
     "Through the pass-through ioctl a command is submitted with the given CDB, direction, payload and buffer of the "
     "requested size. Status zero yields the data truncated to what the device reported as transferred, CHECK CONDITION a "
     "check-condition error with the device's sense bytes, any other status a SCSI error; a failing system call surfaces "
     "as an operating-system error with its error number and leaves the executer usable.",
     ["inputs", "histories", "fault_sequences"], "all 256 statuses, transfer lengths, directions, queued histories with failures at any point",
     "The module can not even be imported off Windows; no test covers it.", [A + "win32.py"],
     [("pass-through submission", A + "win32.py Win32CommandExecuter")], [("completed requests", "requests whose ioctl returned", A + "win32.py")],
     ["DeviceIoControl arguments", "result of call"], "model_checking",
     "exhaustive enumeration of histories, statuses and fault points on the real executer over a simulated kernel32",
     "Runs on Linux with kernel32 replaced; 64-bit structure layout only.")
prop("C15", "Reading from a device file waits, within its time limit, for exact data",
     "Reading from a Unix device file returns exactly what the descriptor delivers once it becomes readable and never "
     "blocks beyond the read timeout: if nothing arrives in that time it raises an I/O error, and it does not give up "
     "before the time is over (data that arrives within one polling interval of the end may be missed). Errors of the descriptor surface unchanged.",
     ["schedules", "inputs"], "all arrival times on a virtual clock around the timeout, sizes, and descriptor errors",
     "No test covers it.", [A + "unix.py"], [("poll loop", A + "unix.py UnixFile.read")], [], ["return value, exception, virtual time"],
     "model_checking", "exhaustive enumeration of arrival times on a virtual clock over a real descriptor and the real poll loop",
     "Replaces time.time/time.sleep; assumes the code uses them (or time.monotonic, or a blocking select with timeout) for waiting.")
prop("C16", "Device contexts open the right device and always close it once",
     "Each platform's device context opens the given path read-write, yields an executer of that platform on which "
     "commands work end to end, and closes the device exactly once on every exit: normal, an exception in the body (which "
     "propagates unchanged), or a failed command. The Linux sg context uses its 3 second timeout; every other context its platform's default. "
     "A failure to open or to close the device is raised to the user. On Windows a failed close of a file can be repeated and closing a closed file does nothing; asynchronous files and their "
     "reactor exist on Windows only, and unsupported platforms are refused with AsiException.",
     ["configurations", "fault_sequences"], "all platforms x exits x failing steps; all sequences of closing steps on Windows files up to a depth",
     "No test uses the contexts.", [A + "executers.py", A + "__init__.py", A + "unix.py"],
     [("context managers", A + "executers.py"), ("platform selection", A + "__init__.py")], [], ["open/close calls, executer type, submitted timeout"],
     "fault_enumeration", "exhaustive enumeration of platforms, exits and failing steps with the system calls replaced by recording stand-ins",
     "Platform detection is replaced; system calls are stand-ins.")
prop("C17", "Sense data is decoded to the key, code and descriptors it encodes",
     "For fixed and descriptor format sense data, current or deferred, the decoded sense key, additional sense code and its name, and the "
     "format's other fields equal what the bytes encode, for every known and unknown code pair; sense of an unknown format "
     "is never misread: there is no decoded sense then. A check-condition error always carries the raw bytes, and the decoded sense if its format is known.",
     ["inputs"], "all 256 values of every header byte, all 65536 ASC/ASCQ pairs, all descriptor types and sequences up to 3",
     "Tests decode three samples.", [A + "sense/__init__.py", A + "sense/asc.py"],
     [("format dispatch", A + "sense/__init__.py get_sense_object_from_buffer"), ("code table", A + "sense/asc.py")], [],
     ["decoded attributes"], "exploration", CODEC, CODEC_NOTE)
prop("C18", "READ and WRITE commands encode exactly the requested transfer",
     "For every READ and WRITE variant (6, 10, 12, 16 bytes) and every in-range address, length and flag, the CDB is byte "
     "for byte what SBC specifies, the data buffer handed to write commands is sent unchanged, and the response buffer of "
     "a read is transfer length times block size (256 blocks for a zero length in the 6-byte form). A successful read "
     "returns the device's bytes unchanged.",
     ["inputs"], "every bit of each field, boundaries, all flag combinations, all variants",
     "Tests cover none of the encodings.", [CB + "read.py", CB + "write.py", CB + "control.py", CB + "operation_code.py"],
     [("field layout", CB + "read.py"), ("field layout", CB + "write.py")], [], ["CDB and data submitted to the executer"], "exploration", CODEC, CODEC_NOTE)
prop("C19", "Out-of-range command arguments are rejected before anything is sent",
     "A numeric constructor argument of a command that does not fit its CDB field (too large or negative) is rejected with an exception, either at "
     "construction or at execution, and never truncated into a different value; in that case no command reaches the device.",
     ["inputs"], "every numeric argument of every command at limit+1, far beyond, and negative",
     "Tests use only small valid values.", [CB + "read.py", CB + "write.py", CB + "write_same.py", CB + "compare_and_write.py", CB + "unmap.py", CB + "inquiry/__init__.py", CB + "report_luns.py", CB + "rtpg.py", CB + "persist/output.py"],
     [("field packing", CB + "__init__.py")], [], ["submissions to the executer"], "exploration",
     "bounded exhaustive enumeration of out-of-range arguments on the real code with a recording executer", CODEC_NOTE)
prop("C20", "COMPARE AND WRITE, WRITE SAME and UNMAP encode what was requested",
     "The CDB and parameter data of COMPARE AND WRITE, WRITE SAME (10, 16) and UNMAP are byte for byte what SBC specifies "
     "for the given address, length, flags and buffers, and an UNMAP parameter list announces exactly the descriptors it "
     "contains, for any number of descriptors.",
     ["inputs"], "every bit of each field, all flag combinations, descriptor counts 0..40 and buffers of several sizes",
     "Tests cover none of the encodings.", [CB + "compare_and_write.py", CB + "write_same.py", CB + "unmap.py"],
     [("field layout", CB + "unmap.py")], [], ["CDB and data submitted to the executer"], "exploration", CODEC, CODEC_NOTE)
prop("C21", "Informational commands encode the requested page and buffer size",
     "INQUIRY, READ CAPACITY (10, 16), REPORT LUNS, TEST UNIT READY, LOG SENSE, REPORT TARGET PORT GROUPS, RECEIVE COPY "
     "OPERATING PARAMETERS and RECEIVE DIAGNOSTIC RESULTS send a CDB that is byte for byte what SPC/SBC specify for their "
     "arguments, and the response buffer offered to the device has exactly the allocation length announced in the CDB.",
     ["inputs"], "all page codes, select codes and boundary allocation lengths, all flags",
     "Tests compare a few fixed datagrams.", [CB + "inquiry/__init__.py", CB + "inquiry/standard.py", CB + "inquiry/vpd_pages/__init__.py", CB + "read_capacity.py", CB + "report_luns.py", CB + "tur.py", CB + "log_sense.py", CB + "rtpg.py", CB + "receive_copy_operating_parameters.py", CB + "diagnostic/__init__.py"],
     [("field layout", CB + "inquiry/__init__.py")], [], ["CDB and buffer length submitted to the executer"], "exploration", CODEC, CODEC_NOTE)
prop("C22", "Reservation commands encode service action, scope, type and keys",
     "PERSISTENT RESERVE IN/OUT and RESERVE/RELEASE (6, 10) send the CDB and, for PERSISTENT RESERVE OUT, the 24-byte "
     "parameter list that SPC specifies for the given service action, scope, type, keys and flags, with a parameter list "
     "length that matches the data sent.",
     ["inputs"], "all service actions x types x scopes, every key bit, all flag combinations",
     "Tests compare a few fixed datagrams.", [CB + "persist/output.py", CB + "persist/input.py", CB + "reserve.py", CB + "release.py"],
     [("field layout", CB + "persist/output.py")], [], ["CDB and data submitted to the executer"], "exploration", CODEC, CODEC_NOTE)
prop("C23", "Command objects are independent and can be executed again",
     "Executing a command object again sends the same CDB and data as the first time, whatever other commands were built, "
     "modified or executed in between. Setting a field, such as a control byte flag, of one command changes that command "
     "and no other.",
     ["histories"], "all pairs of commands and all sequences (build, modify, execute) up to the depth bound",
     "Tests execute each object once.", [CB + "control.py", CB + "read.py", CB + "write.py", CB + "reserve.py", CB + "release.py", CB + "log_sense.py"],
     [("default control byte", CB + "control.py")], [("default control byte", "shared default value", CB + "control.py")],
     ["CDB submitted to the executer"], "model_checking",
     "exhaustive enumeration of operation sequences over pairs of command objects, compared with a reference ledger", CODEC_NOTE)
prop("C24", "Standard INQUIRY data is decoded to the fields it encodes",
     "Every field of the standard INQUIRY response the library exposes (peripheral qualifier and type, removable, version, "
     "capability bits, vendor, product and revision identification, further descriptors) equals what SPC places in those bytes, for every byte content (text fields: ASCII; trailing blanks and NULs are padding).",
     ["inputs"], "all 256 values of every byte over several backgrounds, all response lengths from 36",
     "Tests decode two samples.", [CB + "inquiry/standard.py", CB + "inquiry/__init__.py"],
     [("field layout", CB + "inquiry/standard.py")], [], ["decoded attributes"], "exploration", CODEC, CODEC_NOTE)
prop("C25", "VPD pages are decoded to the fields they encode",
     "Supported pages, unit serial number, block limits, logical block provisioning, ATA information and Veritas pages "
     "decode to exactly the values SPC/SBC/SAT place in those bytes; lists and strings have exactly the length the page declares (text: ASCII, trailing blanks and NULs are padding).",
     ["inputs"], "all 256 values of every byte of the fixed part over several backgrounds, every bit of wide fields, all declared lengths 0..255 for variable pages",
     "Tests decode one sample of some pages.", [CB + "inquiry/vpd_pages/"],
     [("page layouts", CB + "inquiry/vpd_pages/")], [], ["decoded attributes"], "exploration", CODEC, CODEC_NOTE)
prop("C26", "Device identification designators are decoded completely and in order",
     "A device identification page decodes to the list of its designators in order, each with the code set, association, "
     "protocol and type it encodes and with the identifier fields of its type (T10, EUI-64, NAA, relative port, port "
     "group, unit group, MD5, SCSI name); reserved types keep their raw bytes, whatever they are; reserved NAA formats and EUI-64 lengths are refused with an exception, never misread.",
     ["inputs"], "all 256 values of each designator header byte, all types and NAA formats, every bit of identifier fields, all sequences up to length 3",
     "Tests decode a few samples.", [CB + "inquiry/vpd_pages/designators.py", CB + "inquiry/vpd_pages/device_identification.py"],
     [("designator dispatch", CB + "inquiry/vpd_pages/designators.py")], [], ["decoded attributes"], "exploration", CODEC, CODEC_NOTE)
prop("C27", "REPORT LUNS returns exactly the logical units the device listed",
     "The response of REPORT LUNS decodes to exactly the logical unit numbers listed by the device, in order, for every "
     "list length and every value in the addressing method the library supports; entries of other addressing methods are refused with UnsupportedReportLuns, unless the caller allows them.",
     ["inputs"], "all 256 values of each LUN byte, all list lengths up to the bound",
     "Tests decode two samples.", [CB + "report_luns.py"], [("LUN list", CB + "report_luns.py")], [], ["decoded attributes"], "exploration", CODEC, CODEC_NOTE)
prop("C28", "Target port groups are decoded with every state, flag and port",
     "REPORT TARGET PORT GROUPS responses, with and without the extended header, decode to the list of groups in order, "
     "each with the access state, preference, supported states, status code and the list of relative target ports it encodes.",
     ["inputs"], "all 256 values of each descriptor byte, group counts 0..4 x port counts, both header formats",
     "Tests do not decode a response.", [CB + "rtpg.py"], [("descriptor layout", CB + "rtpg.py")], [], ["decoded attributes"], "exploration", CODEC, CODEC_NOTE)
prop("C29", "PERSISTENT RESERVE IN responses are decoded completely",
     "Read keys, read reservation, report capabilities and read full status responses decode to exactly the generation, "
     "keys, holder, scope, type, flags, relative port and transport identifiers encoded, for any number of entries.",
     ["inputs"], "all 256 values of each fixed byte, every bit of keys, entry counts and transport id lengths up to the bound",
     "Tests decode a few samples.", [CB + "persist/input.py", CB + "persist/transport.py"], [("response layout", CB + "persist/input.py")], [],
     ["decoded attributes"], "exploration", CODEC, CODEC_NOTE)
prop("C30", "Capacity and copy-parameter responses are decoded exactly",
     "READ CAPACITY (10, 16) and RECEIVE COPY OPERATING PARAMETERS responses decode to exactly the unsigned values and "
     "flags encoded, including values with the top bit set.",
     ["inputs"], "all 256 values of every byte over several backgrounds, every bit of each field",
     "Tests decode one sample.", [CB + "read_capacity.py", CB + "receive_copy_operating_parameters.py"], [("response layout", CB + "read_capacity.py")], [],
     ["decoded attributes"], "exploration", CODEC, CODEC_NOTE)
prop("C31", "SES configuration and page lists are decoded completely and in order",
     "The SES configuration page decodes to its enclosure descriptors and type descriptors in order, with every identifier, "
     "count and text of exactly the declared lengths; the list of supported diagnostic pages decodes in order, and vendor or unknown pages keep their raw bytes.",
     ["inputs"], "all 256 values of each descriptor byte, enclosure/type counts and text lengths up to the bound",
     "Tests decode one sample.", [CB + "diagnostic/ses_pages/configuration.py", CB + "diagnostic/ses_pages/supported_pages.py", CB + "diagnostic/ses_pages/unknown.py", CB + "diagnostic/ses_pages/vendor_0x80.py"],
     [("page layouts", CB + "diagnostic/ses_pages/configuration.py")], [], ["decoded attributes"], "exploration", CODEC, CODEC_NOTE)
prop("C32", "SES element statuses follow the configuration, bit for bit",
     "The enclosure status page and the element descriptor page decode, for any configuration page, to one overall element "
     "and the declared number of individual elements per type, in order. Each element's status code, common bits, "
     "type-specific flags and measured values are those SES places in its four bytes.",
     ["inputs"], "all 256 values of each status byte for every element type, all element count vectors up to the bound, all description lengths up to the bound",
     "Tests decode one sample.", [CB + "diagnostic/ses_pages/enclosure_status.py", CB + "diagnostic/ses_pages/element_descriptor.py"],
     [("element layouts", CB + "diagnostic/ses_pages/enclosure_status.py")], [], ["decoded attributes"], "exploration", CODEC, CODEC_NOTE)
prop("C33", "Page codes select the matching decoder",
     "Looking up a VPD or diagnostic page by its code, for all 256 codes, gives the command and decoder of that very page "
     "or the documented fallback for unknown pages, and executing it requests that page code from the device.",
     ["inputs"], "all 256 page codes of each family",
     "Tests look up a few codes.", [CB + "inquiry/vpd_pages/__init__.py", CB + "diagnostic/ses_pages/__init__.py"],
     [("page tables", CB + "inquiry/vpd_pages/__init__.py")], [], ["returned command class, submitted page code, decoded type"], "exploration", CODEC, CODEC_NOTE)
prop("C34", "Declared lengths decide what a response contains",
     "Bytes after the length a response declares never change what is decoded, so responses padded to the allocation length "
     "decode like exact ones (for pages of a fixed layout, the declared length covers that layout). A response cut short is refused with an exception, "
     "or what is decoded is a part of the whole: nothing that was not transferred is invented.",
     ["inputs"], "every response type x truncation at every length x padding of several sizes and contents",
     "Tests decode exact samples.", [CB + "inquiry/", CB + "report_luns.py", CB + "rtpg.py", CB + "persist/input.py", CB + "diagnostic/ses_pages/"],
     [("length-bounded parsing", CB + "__init__.py")], [], ["decoded attributes, exceptions"], "exploration", CODEC, CODEC_NOTE)
prop("C35", "A command ends in its decoded answer or in the error it ran into",
     "Executing any command object submits its CDB to the device exactly once and ends either in what the command decodes from the "
     "response, the same on every platform, or in the error of the submission: a check condition as AsiCheckConditionError "
     "with the sense data, a reservation conflict on Linux as AsiReservationConflictError, other statuses as AsiSCSIError, a "
     "full queue as AsiRequestQueueFullError with nothing submitted, a failing system call as OSError or AsiOSError. Whatever "
     "exception the executer raises comes out of the command unchanged, nothing is retried or swallowed, the command object can be executed "
     "again afterwards, and results obtained earlier do not change when commands are executed later.",
     ["histories", "inputs"], "every command class x every platform x all sequences of outcomes up to a depth; every command class x every kind of exception "
     "x every sense key and additional sense code",
     "Tests execute a few commands against recorded answers and one error.", EX + [A + "solaris.py", A + "aix.py", A + "win32.py", CB],
     [("execution of a command", CB + " execute()"), ("classification of a response", A + "linux.py _handle_raw_response and its counterparts")],
     EX_STATE, ["results and exceptions of execute()", "commands at the device"], "model_checking",
     "exhaustive enumeration of outcome histories per command and platform on the real executers over simulated devices, and of the exceptions an executer can raise",
     "Complete within the printed depth. The expected decoded value is what the same command class makes of the response outside of any platform, so decoding itself is left to C24-C34.")
prop("C36", "Executers of different devices do not affect each other",
     "Executers of different devices, of the same or of different platforms, are independent: whatever is sent, called, waited for or fails on "
     "one, the commands of the others reach their own device, their answers, errors and sense data stay their own, and their queues "
     "neither fill nor drain. This also holds when every executer is used by a thread of its own, wherever the threads are switched, "
     "and for command objects built and executed in different threads.",
     ["histories", "schedules"], "all interleaved histories of operations and outcomes on two or three executers up to a depth; all schedules of two threads with a bounded "
     "number of preemptions, a switch possible before every statement of the library",
     "Tests use one executer at a time, in one thread.", EX + [A + "solaris.py", A + "aix.py", A + "win32.py", CB],
     [("state per executer", A + "__init__.py CommandExecuterBase.__init__"), ("buffers of a request", A + "linux.py SGIO and its counterparts")],
     EX_STATE, ["results, callbacks and exceptions per executer", "commands at each device"], "model_checking",
     "stateless model checking: exhaustive interleaved histories on several real executers, and exhaustive thread schedules up to a preemption bound under a controlled scheduler (scheduling points compiled into the imported code)",
     "Preemption bound 1 (thorough: 2 for some programs). Statements are atomic, and so are other libraries (infi.instruct, ctypes).")


prop("C37", "Finished commands leave nothing behind",
     "Once a command is finished, with data, with any error, or because its submission failed, nothing of the library refers to it any "
     "more: not to the command, its payload, its callback, its result or its error, and its slot in the queue is free again. An executer "
     "and a command object can therefore be used any number of times in bounded memory. On Windows the event of every asynchronous "
     "operation is closed when the result of the operation was collected, or when the operation could not be started.",
     ["histories", "schedules"], "all histories of finished operations (way of submission, kind, outcome) up to a depth on every platform, repeated; several commands outstanding "
     "together; all schedules of overlapped operations within the bounds of C08",
     "Tests run a few commands; what accumulates is only seen after many.", EX + [A + "solaris.py", A + "aix.py", A + "win32.py"],
     [("removal of finished commands", A + "__init__.py _process_pending_response"), ("queued responses", A + "solaris.py, aix.py, linux.py, win32.py"),
      ("events of overlapped operations", A + "win32.py Win32AsyncFile.ioctl")],
     EX_STATE, ["objects reachable from the executer and the modules of the library", "open event handles"], "model_checking",
     "stateless model checking of the real executers over simulated devices: exhaustive histories, each repeated; after them the objects reachable "
     "through the library are enumerated and must neither contain anything of a finished command nor grow",
     "Histories of 2 operations (thorough: 3), repeated 6 times. What only the garbage collector's own roots (frames, other libraries) hold is not seen.")

prop("C38", "Errors tell what was reported",
     "The text of the error a failed command ends in names what the device, the driver or the operating system reported: the SCSI status, "
     "and with it the driver and host status on Linux and the status validity and adapter status on AIX, each with its code, the name of "
     "exactly that code, and its own label; the sense key, additional sense code name and the sense bytes of a check condition; the error number of "
     "a failed system call with, on Windows, the text the system has for it and, on AIX, the argument a rejected request is about. Codes without a name are given as numbers, and the "
     "text never fails to be made.",
     ["inputs"], "all SCSI statuses x driver statuses x host statuses, all statuses and adapter statuses, all arguments of rejected requests, error numbers up to a bound, "
     "sense data of every key and additional sense code, on every platform, per way of submission and kind of command",
     "Tests provoke one error or none and never look at its text.", EX + [A + "solaris.py", A + "aix.py", A + "win32.py", A + "errors.py", A + "sense/"],
     [("texts of status errors", A + "linux.py prettify_status, aix.py AixAsiSCSIError"), ("texts of check conditions", A + "errors.py AsiCheckConditionError")],
     [], ["str() of the raised errors"], "exploration",
     "bounded exhaustive enumeration of reported statuses and sense data on the real executers over simulated devices; the text of the error is compared with the names of the standards",
     "Names are compared as words behind any prefix, so texts may be worded differently as long as they name code and meaning. A reservation conflict (Linux) and a full queue are errors of their own.")
prop("C39", "Codes of decoded responses have the names the standards give them",
     "The tables a user looks decoded codes up in give every code the name of the standard and codes without a name the documented fallback: peripheral "
     "device types and versions, VPD page names by device type, designator types, associations and code sets, enclosure element types, element "
     "statuses and fan speeds, and the types and service actions of persistent reservations, which select what their names say when they are sent to a device. "
     "Looking up one code never changes what another code is called.",
     ["inputs", "histories"], "all values of every coded field; all histories of lookups up to a depth",
     "Tests look up single codes.", [CB + "inquiry/standard.py", CB + "inquiry/vpd_pages/", CB + "diagnostic/ses_pages/", CB + "persist/output.py", CB + "persist/input.py"],
     [("tables of names", CB + "inquiry/standard.py, inquiry/vpd_pages/__init__.py, diagnostic/ses_pages/enclosure_status.py")],
     [], ["names looked up for decoded codes", "CDB of a persistent reservation command built from the published constants"], "exploration",
     "bounded exhaustive enumeration: every code a field can hold is decoded by the real command over a simulated device and looked up; compared with tables written from the standards",
     "Complete for the listed fields. Names are compared in the wording of the library for the pinned standards versions.")

prop("C40", "Looking at things never fails and never changes anything",
     "Every decoded response, command object, error, decoded sense data and request to a device can be shown with repr() whatever it holds, "
     "before, between and after its uses: that never fails, shows the same response or error the same way every time, and changes neither the decoded "
     "values, nor what a command sends, nor how it ends. Neither does logging: at any log level every message can be made, and "
     "commands send and end the same as with logging switched off.",
     ["inputs", "histories"], "every bit of sample responses of every type and every cut of them; all words of looking and executing up to a depth, on every command; "
     "all statuses and sense data on every platform at three log levels", "Tests never look at most objects, and run at one log level.",
     [A + "linux.py", A + "solaris.py", A + "aix.py", A + "errors.py", A + "sense/", CB],
     [("texts of requests", A + "linux.py SGIO.__repr__, solaris.py SCSICMD.__repr__, aix.py sc_passthru.__repr__"), ("log messages", A + "linux.py, solaris.py, cdb/inquiry/vpd_pages/designators.py"),
      ("texts of decoded values", A + "sense/asc.py to_repr")],
     [], ["repr() and the log records of a real run"], "exploration",
     "bounded exhaustive enumeration of responses, histories of looking and executing, and outcomes at several log levels on the real code; runs that are looked at are compared with runs that are not",
     "How texts are laid out is not specified, nor that they hold every field. Reference values are those of C34.")


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as fd:
        for item in P:
            fd.write(json.dumps(item["record"], sort_keys=True) + "\n")
    checks, missing = [], []
    for item in P:
        pid = item["record"]["id"]
        if os.path.exists(os.path.join(VERIF, "checks", pid.lower() + ".py")):
            checks.append(dict(property=pid, quick_cmd="./check %s quick" % pid, thorough_cmd="./check %s thorough" % pid,
                               evidence_file="evidence/%s.json" % pid, technique=item["technique"], level=item["level"],
                               level_note=item["note"]))
        else:
            missing.append(dict(property=pid, reason="check not built yet"))
    manifest = dict(version=1, setup_cmd="./check setup", checks=checks, not_applicable=missing,
                    notes="No hooks in /repo: checks drive the public API with simulated devices and system calls.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fd:
        json.dump(manifest, fd, indent=1, sort_keys=True)
        fd.write("\n")
    print("%d properties, %d checks" % (len(P), len(checks)))


main()
