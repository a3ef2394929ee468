From 85ba3f20607281513341755fc2dc29a9f0b7b927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:33 +0000
Subject: [PATCH 01/48] fix: import AsiRequestQueueFullError where the full
 queue is detected

---
 src/infi/asi/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index 452c196..069333c 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -3,7 +3,7 @@ __import__("pkg_resources").declare_namespace(__name__)
 import os
 from infi.instruct import *
 from infi.pyutils.decorators import wraps
-from .errors import AsiException, AsiCheckConditionError, AsiInternalError
+from .errors import AsiException, AsiCheckConditionError, AsiInternalError, AsiRequestQueueFullError
 from .sense import *
 
 try:
-- 
2.43.0


From f81476024e12d5578125d9775c4d0404bcfe4766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:54 +0000
Subject: [PATCH 02/48] fix: do not hand out the packet index of a command that
 is still pending

---
 src/infi/asi/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index 069333c..e1189d9 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -116,6 +116,9 @@ class CommandExecuterBase(CommandExecuter):
     def _next_packet_index(self):
         if len(self.pending_packets) >= self.max_queue_size:
             raise AsiRequestQueueFullError()
+        while self.packet_index in self.pending_packets:
+            # commands may complete out of order, so this index may still belong to a pending command
+            self.packet_index = (self.packet_index + 1) % self.max_queue_size
         result = self.packet_index
         self.packet_index = (self.packet_index + 1) % self.max_queue_size
         return result
-- 
2.43.0


From d3c2f0c01e75cb91bb22697c3d0d7dcc944fe4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:54 +0000
Subject: [PATCH 03/48] fix: allow responses of commands that were sent without
 a callback

---
 src/infi/asi/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index e1189d9..e5073e7 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -133,10 +133,11 @@ class CommandExecuterBase(CommandExecuter):
         if request is None:
             raise AsiInternalError("SCSI response doesn't appear in the pending I/O list.")
 
-        if isinstance(result, Exception):
-            callback(None, result)
-        else:
-            callback(result, None)
+        if callback is not None:
+            if isinstance(result, Exception):
+                callback(None, result)
+            else:
+                callback(result, None)
 
         yield True
 
-- 
2.43.0


From b019a712cb510700f393466cdb4ac8e715fd81ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:54 +0000
Subject: [PATCH 04/48] fix: report a response that belongs to no pending
 command as AsiInternalError

---
 src/infi/asi/linux.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index bb5b4f0..8178c9c 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -264,7 +264,8 @@ class LinuxCommandExecuter(CommandExecuterBase):
             return (error, packet_id)
 
         data = None
-        if request_sgio.dxfer_direction == SG_DXFER_FROM_DEV and request_sgio.dxfer_len != 0:
+        if request_sgio is not None and \
+                request_sgio.dxfer_direction == SG_DXFER_FROM_DEV and request_sgio.dxfer_len != 0:
             data = request_sgio.data_buffer.raw
 
         return (data, packet_id)
-- 
2.43.0


From a8cf98c4f606c337023792e67974ab42c084977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 05/48] fix: deliver an exception once, and to the generator
 that awaits it

An exception that a generator caught was thrown again into its caller when the
generator ended, an exception instance yielded as a value was thrown, an error
of an I/O token bypassed the generator awaiting it, and the result of a
coroutine whose last yield awaited an empty generator was that generator.
---
 src/infi/asi/coroutines/sync_adapter.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/infi/asi/coroutines/sync_adapter.py b/src/infi/asi/coroutines/sync_adapter.py
index 689b105..343d761 100755
--- a/src/infi/asi/coroutines/sync_adapter.py
+++ b/src/infi/asi/coroutines/sync_adapter.py
@@ -8,6 +8,7 @@ class Coroutine(object):
     def __init__(self, generator):
         self.stack = [ generator ]
         self.args = None
+        self.error = None
         self.tb = None
         self.result = None
         self.done = False
@@ -18,8 +19,10 @@ class Coroutine(object):
     def _next_step(self):
         """ invokes next generator in stack. returns False if execution should stop """
         try:
-            if isinstance(self.args, BaseException):
-                self.result = self.stack[-1].throw(self.args, None, self.tb)
+            if self.error is not None:
+                error, tb = self.error, self.tb
+                self.args = self.error = self.tb = None
+                self.result = self.stack[-1].throw(error, None, tb)
             else:
                 self.result = self.stack[-1].send(self.args)
             self.args = None
@@ -31,14 +34,23 @@ class Coroutine(object):
                 self.args = self.result
         except StopIteration as e:
             self.stack.pop()
+            self.result = self.args
         except BaseException as e:
-            self.tb = sys.exc_info()[2]
             self.stack.pop()
             if len(self.stack) == 0:
                 raise
-            self.args = e
+            self.error = e
+            self.tb = sys.exc_info()[2]
         return True
 
+    def _set_args_from_token(self, **kwargs):
+        """ the generator that yielded the token receives its result, or the exception raised by getting it """
+        try:
+            self.args = self.result.get_result(**kwargs)
+        except BaseException as e:
+            self.error = e
+            self.tb = sys.exc_info()[2]
+
     def loop(self):
         while len(self.stack) > 0:
             if not self._next_step():
@@ -59,12 +71,12 @@ class AsyncCoroutine(Coroutine):
     def async_io_complete(self):
         """ Callback for reactor to signal that a blocking async IO has been completed """
         # current self.result is an Async IO Token, we can ask for its result now and continue with the stack
-        self.args = self.result.get_result()
+        self._set_args_from_token()
 
 class SyncCoroutine(Coroutine):
     def _handle_async_io_token(self):
         # we just ask for a synhronous result from self.result which is the Async IO Token, and then continue
-        self.args = self.result.get_result(block=True)
+        self._set_args_from_token(block=True)
         return True
 
 def sync_call(func, *init_args, **init_kwargs):
-- 
2.43.0


From 677f4a74a31d67f2efe1380765b9098d45a41514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 06/48] fix: call the function once in sync_call

---
 src/infi/asi/coroutines/sync_adapter.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/infi/asi/coroutines/sync_adapter.py b/src/infi/asi/coroutines/sync_adapter.py
index 343d761..c704add 100755
--- a/src/infi/asi/coroutines/sync_adapter.py
+++ b/src/infi/asi/coroutines/sync_adapter.py
@@ -80,7 +80,6 @@ class SyncCoroutine(Coroutine):
         return True
 
 def sync_call(func, *init_args, **init_kwargs):
-    stack = [ func(*init_args, **init_kwargs) ]
     return sync_wait(func(*init_args, **init_kwargs))
 
 def sync_wait(generator):
-- 
2.43.0


From 17c66a8ba07007b508350a34a87a831cc25b6736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 07/48] fix: let sync_call return the value of a plain function

CommandExecuterAdapter passes is_queue_full, which is no coroutine, through its
call wrapper.
---
 src/infi/asi/coroutines/sync_adapter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/coroutines/sync_adapter.py b/src/infi/asi/coroutines/sync_adapter.py
index c704add..661f973 100755
--- a/src/infi/asi/coroutines/sync_adapter.py
+++ b/src/infi/asi/coroutines/sync_adapter.py
@@ -80,7 +80,8 @@ class SyncCoroutine(Coroutine):
         return True
 
 def sync_call(func, *init_args, **init_kwargs):
-    return sync_wait(func(*init_args, **init_kwargs))
+    result = func(*init_args, **init_kwargs)
+    return sync_wait(result) if isinstance(result, types.GeneratorType) else result
 
 def sync_wait(generator):
     coroutine = SyncCoroutine(generator)
-- 
2.43.0


From f2bba3e33405a66cc7b482b7625d2c17dc92d765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 08/48] fix: raise the error of a failed overlapped operation

---
 src/infi/asi/win32.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/win32.py b/src/infi/asi/win32.py
index 2b3ce44..16b7b32 100755
--- a/src/infi/asi/win32.py
+++ b/src/infi/asi/win32.py
@@ -146,7 +146,8 @@ class WinAsyncIOToken(OSAsyncIOToken):
     def get_result(self, block=False):
         result = c_ulong()
         overlapped_struct = overlapped_struct_from_event(self.event)
-        err = kernel32.GetOverlappedResult(self.handle, byref(self.overlapped), byref(result), block)
+        if not kernel32.GetOverlappedResult(self.handle, byref(self.overlapped), byref(result), block):
+            raise AsiWin32OSError(GetLastError(), "GetOverlappedResult failed")
         return result
 
 class Win32AsyncFile(OSAsyncFile, Win32File):
-- 
2.43.0


From 8acc8073a423f26ea23c2ed58d16a534985ce65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 09/48] fix: accept an overlapped DeviceIoControl that
 completes at once

---
 src/infi/asi/win32.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/win32.py b/src/infi/asi/win32.py
index 16b7b32..292347e 100755
--- a/src/infi/asi/win32.py
+++ b/src/infi/asi/win32.py
@@ -165,7 +165,7 @@ class Win32AsyncFile(OSAsyncFile, Win32File):
         api_result = DeviceIoControl(self.handle, control_code, input, input_size, output, output_size,
                                      None, byref(self._overlapped_struct))
         last_error = GetLastError()
-        if not api_result and last_error == ERROR_IO_PENDING:
+        if api_result or last_error == ERROR_IO_PENDING:
             token = WinAsyncIOToken(self.handle, self._overlapped_struct, self._windows_event_handle)
             yield token
         else:
-- 
2.43.0


From dbb42f31fbd61511dc323e1d6b03e586b9d869c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 10/48] fix: skip all three reserved bytes of descriptor format
 sense data

---
 src/infi/asi/sense/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/sense/__init__.py b/src/infi/asi/sense/__init__.py
index 4c6f796..5fa61e7 100644
--- a/src/infi/asi/sense/__init__.py
+++ b/src/infi/asi/sense/__init__.py
@@ -59,7 +59,7 @@ class SCSISenseDataDescriptorBased(Struct):
             BitPadding(4)
             ),
         Field("additional_sense_code", AdditionalSenseCode),
-        BytePadding(2),
+        BytePadding(3),
         SumSizeArray("descriptors", UBInt8,
                      StructSelector(UBInt8, SENSE_DESCIPTOR_TYPES, default=SCSISenseDataGenericDescriptor))
     ]
-- 
2.43.0


From 79bbdae82bdfbab79773b68d91b053f784b74271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 11/48] fix: name additional sense code qualifier 0xFF of the
 ranged codes

---
 src/infi/asi/sense/asc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/sense/asc.py b/src/infi/asi/sense/asc.py
index 052f25f..1be2678 100644
--- a/src/infi/asi/sense/asc.py
+++ b/src/infi/asi/sense/asc.py
@@ -668,10 +668,10 @@ ASC_CODES = {
     struct.pack(">BB", 0x7F, 0x00): "VENDOR SPECIFIC",
 }
 
-for i in range(0x80, 0xFF):
+for i in range(0x80, 0x100):
     ASC_CODES[struct.pack(">BB", 0x40, i)] = "DIAGNOSTIC FAILURE ON COMPONENT %2X" % (i,)
 
-for i in range(0, 0xFF):
+for i in range(0, 0x100):
     ASC_CODES[struct.pack(">BB", 0x4D, i)] = "TAGGED OVERLAPPED COMMANDS (%2X = TASK TAG)" % (i,)
     ASC_CODES[struct.pack(">BB", 0x70, i)] = "DECOMPRESSION EXCEPTION SHORT ALGORITHM ID OF %2X" % (i,)
 
-- 
2.43.0


From 54aa063e14d3ebd462f9c94fe256b80254f63065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 12/48] fix: answer a command whose sense data can not be
 decoded

---
 src/infi/asi/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index e5073e7..921fb73 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -157,7 +157,11 @@ class CommandExecuterBase(CommandExecuter):
         raise NotImplementedError()
 
     def _check_condition(self, buf):
-        sense = get_sense_object_from_buffer(buf)
+        try:
+            sense = get_sense_object_from_buffer(buf)
+        except Exception:
+            # malformed sense data should not lose the response, the caller still has the raw bytes
+            sense = None
         return AsiCheckConditionError(buf, sense)
 
 # TODO: maybe add a ReactorCommandExecuter that also adds a "register_response_listener()" that automatically reads
-- 
2.43.0


From 2e4c0da3964155ec4a32b9c4021e80f40f214cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 13/48] fix: recognise a reservation conflict by the SCSI
 status

---
 src/infi/asi/linux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index 8178c9c..7299d6d 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -240,7 +240,7 @@ class LinuxCommandExecuter(CommandExecuterBase):
         if response_sgio.status != 0:
             if response_sgio.host_status == 0x07:
                 return (AsiRequestQueueFullError(), packet_id)
-            if response_sgio.host_status == SCSI_STATUS_CODES['SCSI_STATUS_RESERVATION_CONFLICT']:
+            if response_sgio.status == SCSI_STATUS_CODES['SCSI_STATUS_RESERVATION_CONFLICT']:
                 return (AsiReservationConflictError(), packet_id)
             error = AsiSCSIError(("SCSI response status is not zero: %s" +
                                   "(driver status: %s, host status: %s)") %
-- 
2.43.0


From 9b6fe0bc2141c168c4fe78aa51363af964f14312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 14/48] fix: let the SG_IO ioctl return the status of the
 command

---
 src/infi/asi/linux.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index 7299d6d..c3cddfb 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -285,8 +285,10 @@ class LinuxIoctlCommandExecuter(LinuxCommandExecuter):
 
     def _os_send(self, os_data):
         from fcntl import ioctl
-        self.buffer = os_data.to_raw()
-        gevent_friendly(ioctl)(self.io.fd, SG_IO, self.buffer)
+        # the ioctl must be given a mutable buffer, otherwise it can not return the status
+        buffer = create_string_buffer(os_data.to_raw(), SGIO.sizeof())
+        gevent_friendly(ioctl)(self.io.fd, SG_IO, buffer)
+        self.buffer = buffer.raw
         yield len(self.buffer)
 
     def _os_receive(self):
-- 
2.43.0


From d18171f2037ef497ef51e4b9a688fd56a6e4a677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 15/48] fix: report the reason of a failed uscsi command

---
 src/infi/asi/solaris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/solaris.py b/src/infi/asi/solaris.py
index b24f09d..79ed4f0 100644
--- a/src/infi/asi/solaris.py
+++ b/src/infi/asi/solaris.py
@@ -210,7 +210,7 @@ class SolarisCommandExecuter(CommandExecuterBase):
         packet_id = 0
         request_cmd = self._get_os_data(packet_id)
         response_status_code = response_cmd.uscsi_status & 0xFF
-        response_reason_code = (response_cmd.uscsi_status << 8) & 0xFF
+        response_reason_code = (response_cmd.uscsi_status >> 8) & 0xFF
 
         if response_status_code & SCSI_STATUS_CODES['SCSI_STATUS_CHECK_CONDITION']:
             logger.debug("response_cmd.status = 0x{:x}".format(response_cmd.uscsi_status))
-- 
2.43.0


From 31ead09d31c5ed71b1b2474bef07d126a2b4ac97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 16/48] fix: raise the error of a failed passthru ioctl

---
 src/infi/asi/aix.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/aix.py b/src/infi/asi/aix.py
index e0d105b..4d9525c 100644
--- a/src/infi/asi/aix.py
+++ b/src/infi/asi/aix.py
@@ -3,6 +3,7 @@ from . import SCSI_STATUS_CODES, gevent_friendly
 from .linux import prettify_status, SENSE_SIZE
 from .errors import AsiSCSIError, AsiOSError
 from ctypes import *
+import os
 from logging import getLogger
 import six
 
@@ -349,7 +350,7 @@ def get_ioctl_function():
     try:
         # this will only work on 64-bit Python and only
         # on Python >= 3.7 (bpo-26439)
-        libc = ctypes.CDLL("libc.a(shr_64.o)")
+        libc = ctypes.CDLL("libc.a(shr_64.o)", use_errno=True)
     except OSError:  # Could not load module
         # use fcntl
         import fcntl
@@ -358,7 +359,15 @@ def get_ioctl_function():
         ioctl = libc.ioctl
         ioctl.restype = ctypes.c_int
         ioctl.argtypes = (ctypes.c_int, ctypes.c_int, ctypes.c_void_p)
-        return ioctl
+
+        def checked_ioctl(fd, request, arg):
+            # fail like fcntl.ioctl does
+            result = ioctl(fd, request, arg)
+            if result == -1:
+                errno = ctypes.get_errno()
+                raise IOError(errno, os.strerror(errno))
+            return result
+        return checked_ioctl
 
 class AixCommandExecuter(CommandExecuterBase):
     def __init__(self, io, max_queue_size=1, timeout=DEFAULT_TIMEOUT_IN_SEC):
-- 
2.43.0


From 24e9c1547eafcd73c10b3bd0a451e4d4ef452ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 17/48] fix: keep the responses of several commands sent
 through an ioctl

---
 src/infi/asi/aix.py     | 14 ++++++++------
 src/infi/asi/linux.py   |  7 ++++---
 src/infi/asi/solaris.py | 16 ++++++++--------
 3 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/infi/asi/aix.py b/src/infi/asi/aix.py
index 4d9525c..5768fc9 100644
--- a/src/infi/asi/aix.py
+++ b/src/infi/asi/aix.py
@@ -313,6 +313,7 @@ class sc_passthru(Structure):
         memset(buf, 0, sizeof(sc_passthru))
         scsicmd = sc_passthru.from_buffer(buf)
         scsicmd.source_buffer = buf
+        scsicmd.packet_id = pack_id
         scsicmd.version = SCSI_VERSION_2
         scsicmd.init_sense_buffer()
         scsicmd.init_command_buffer(command.command)
@@ -374,6 +375,7 @@ class AixCommandExecuter(CommandExecuterBase):
         super(AixCommandExecuter, self).__init__(max_queue_size)
         self.io = io
         self.timeout = timeout
+        self.responses = []
 
     def _os_prepare_to_send(self, command, packet_index):
         return sc_passthru.create(packet_index, self.io, command, self.timeout)
@@ -389,13 +391,13 @@ class AixCommandExecuter(CommandExecuterBase):
             elif os_data.status_validity == 0:
                 # no valid status to parse in _handle_raw_response
                 raise AsiOSError("ioctl failed, no valid status")
-        self.buffer = os_data.to_raw()
-        yield len(self.buffer)
+        raw = os_data.to_raw()
+        self.responses.append((raw, os_data.packet_id))
+        yield len(raw)
 
-    def _handle_raw_response(self, raw):
+    def _handle_raw_response(self, raw, packet_id=0):
         response_cmd = sc_passthru.from_string(raw)
 
-        packet_id = 0
         request_cmd = self._get_os_data(packet_id)
 
         if response_cmd.status_validity != 0:
@@ -416,5 +418,5 @@ class AixCommandExecuter(CommandExecuterBase):
         return (data, packet_id)
 
     def _os_receive(self):
-        raw = yield self.buffer
-        yield self._handle_raw_response(raw)
+        raw, packet_id = yield self.responses.pop(0)
+        yield self._handle_raw_response(raw, packet_id)
diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index c3cddfb..9392c9e 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -282,15 +282,16 @@ class LinuxIoctlCommandExecuter(LinuxCommandExecuter):
         super(LinuxIoctlCommandExecuter, self).__init__(io, max_queue_size, timeout)
         self.io = io
         self.timeout = timeout
+        self.responses = []
 
     def _os_send(self, os_data):
         from fcntl import ioctl
         # the ioctl must be given a mutable buffer, otherwise it can not return the status
         buffer = create_string_buffer(os_data.to_raw(), SGIO.sizeof())
         gevent_friendly(ioctl)(self.io.fd, SG_IO, buffer)
-        self.buffer = buffer.raw
-        yield len(self.buffer)
+        self.responses.append(buffer.raw)
+        yield len(buffer.raw)
 
     def _os_receive(self):
-        raw = yield self.buffer
+        raw = yield self.responses.pop(0)
         yield self._handle_raw_response(raw)
diff --git a/src/infi/asi/solaris.py b/src/infi/asi/solaris.py
index 79ed4f0..c5b68b8 100644
--- a/src/infi/asi/solaris.py
+++ b/src/infi/asi/solaris.py
@@ -155,6 +155,7 @@ class SCSICMD(Structure):
         memset(buf, 0, sizeof(SCSICMD))
         scsicmd = SCSICMD.from_buffer(buf)
         scsicmd.source_buffer = buf
+        scsicmd.packet_id = pack_id
         scsicmd.init_sense_buffer()
         scsicmd.init_command_buffer(command.command)
         scsicmd.uscsi_timeout = timeout
@@ -189,25 +190,24 @@ class SolarisCommandExecuter(CommandExecuterBase):
         super(SolarisCommandExecuter, self).__init__(max_queue_size)
         self.io = io
         self.timeout = timeout
+        self.responses = []
 
     def _os_prepare_to_send(self, command, packet_index):
         return SCSICMD.create(packet_index, command, self.timeout)
 
     def _os_send(self, os_data):
         from fcntl import ioctl
-        self.buffer = os_data.to_raw()
         # IMPORTANT: we must pass a ctypes string for the ioctl, and not just a
         # string, otherwise the ioctl won't be able to modify relevant status
         # values in the buffer (e.g. uscsi_status):
-        buffer_ctypes_string = create_string_buffer(self.buffer)
+        buffer_ctypes_string = create_string_buffer(os_data.to_raw())
         gevent_friendly(ioctl)(self.io.fd, USCSICMD, buffer_ctypes_string)
-        self.buffer = buffer_ctypes_string.raw
-        yield len(self.buffer)
+        self.responses.append((buffer_ctypes_string.raw, os_data.packet_id))
+        yield len(buffer_ctypes_string.raw)
 
-    def _handle_raw_response(self, raw):
+    def _handle_raw_response(self, raw, packet_id=0):
         response_cmd = SCSICMD.from_string(raw)
 
-        packet_id = 0
         request_cmd = self._get_os_data(packet_id)
         response_status_code = response_cmd.uscsi_status & 0xFF
         response_reason_code = (response_cmd.uscsi_status >> 8) & 0xFF
@@ -232,5 +232,5 @@ class SolarisCommandExecuter(CommandExecuterBase):
         return (data, packet_id)
 
     def _os_receive(self):
-        raw = yield self.buffer
-        yield self._handle_raw_response(raw)
+        raw, packet_id = yield self.responses.pop(0)
+        yield self._handle_raw_response(raw, packet_id)
-- 
2.43.0


From fa8163ab85847c0aa443644d67d74e8f85027433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 18/48] fix: READ (6) of 256 blocks offers a buffer of 256
 blocks of the given block size

---
 src/infi/asi/cdb/read.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/infi/asi/cdb/read.py b/src/infi/asi/cdb/read.py
index e59524d..8e87a2c 100644
--- a/src/infi/asi/cdb/read.py
+++ b/src/infi/asi/cdb/read.py
@@ -38,9 +38,8 @@ class Read6Command(CDB):
     def execute(self, executer):
         datagram = self.create_datagram()
         read_length = self.block_size * self.transfer_length
-        if read_length == 0: # This is only in READ 6
-            # read_length = 256 * self.block_size
-            read_length = 256 * 512
+        if self.transfer_length == 0: # This is only in READ 6
+            read_length = 256 * self.block_size
         result_datagram = yield executer.call(SCSIReadCommand(datagram, read_length))
         yield result_datagram
 
-- 
2.43.0


From 8eb2d3f5a5426aa71a9801c0abcaaef52b9a4417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 19/48] fix: changing the control byte of one command changed
 it for all commands

---
 src/infi/asi/cdb/__init__.py | 8 ++++++++
 src/infi/asi/cdb/control.py  | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/src/infi/asi/cdb/__init__.py b/src/infi/asi/cdb/__init__.py
index aff5064..e2efde5 100644
--- a/src/infi/asi/cdb/__init__.py
+++ b/src/infi/asi/cdb/__init__.py
@@ -1,5 +1,6 @@
 from infi.instruct import *
 from infi.instruct.buffer import Buffer
+from .control import ControlBuffer, DEFAULT_CONTROL_BUFFER
 
 
 class CDB(Struct):
@@ -13,6 +14,13 @@ class CDB(Struct):
 
 
 class CDBBuffer(Buffer):
+    def __init__(self, **kwargs):
+        super(CDBBuffer, self).__init__(**kwargs)
+        if getattr(self, 'control', None) is DEFAULT_CONTROL_BUFFER:
+            # a command gets its own copy of the default, so changing it does not change other commands
+            self.control = ControlBuffer(naca=DEFAULT_CONTROL_BUFFER.naca,
+                                         vendor_specific=DEFAULT_CONTROL_BUFFER.vendor_specific)
+
     def create_datagram(self):
         return self.pack()
 
diff --git a/src/infi/asi/cdb/control.py b/src/infi/asi/cdb/control.py
index 96b3667..31cf137 100644
--- a/src/infi/asi/cdb/control.py
+++ b/src/infi/asi/cdb/control.py
@@ -11,6 +11,9 @@ class Control(Struct):
         BitField("vendor_specific", 2),  # 6-7: vendor specific
     )
 
+    def copy(self):  # a command gets its own copy of the default, so changing it does not change other commands
+        return Control(naca=self.naca, vendor_specific=self.vendor_specific)
+
 DEFAULT_CONTROL = Control(vendor_specific=0, naca=0)
 
 
-- 
2.43.0


From 654c662959f7c61b703b72e4408e3bce7eb8fc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 20/48] fix: a control byte given to LOG SENSE, PERSISTENT
 RESERVE and RECEIVE DIAGNOSTIC RESULTS was ignored

---
 src/infi/asi/cdb/diagnostic/__init__.py | 2 +-
 src/infi/asi/cdb/log_sense.py           | 2 +-
 src/infi/asi/cdb/persist/input.py       | 2 +-
 src/infi/asi/cdb/persist/output.py      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/__init__.py b/src/infi/asi/cdb/diagnostic/__init__.py
index c9f59ec..b0f5be9 100644
--- a/src/infi/asi/cdb/diagnostic/__init__.py
+++ b/src/infi/asi/cdb/diagnostic/__init__.py
@@ -11,7 +11,7 @@ class ReceiveDiagnosticResultCommand(CDBBuffer):
     pcv = be_int_field(where=bytes_ref[1].bits[0])
     page_code = be_uint_field(where=bytes_ref[2])
     allocation_length = be_int_field(where=bytes_ref[3:5], sign='unsigned')
-    control = buffer_field(type=ControlBuffer, where=bytes_ref[5], set_before_pack=DEFAULT_CONTROL_BUFFER)
+    control = buffer_field(type=ControlBuffer, where=bytes_ref[5], default=DEFAULT_CONTROL_BUFFER)
 
     def __init__(self, result_class, conf_page, *args, **kwargs):
         super(ReceiveDiagnosticResultCommand, self).__init__(*args, **kwargs)
diff --git a/src/infi/asi/cdb/log_sense.py b/src/infi/asi/cdb/log_sense.py
index de3ca01..0870e2c 100644
--- a/src/infi/asi/cdb/log_sense.py
+++ b/src/infi/asi/cdb/log_sense.py
@@ -13,7 +13,7 @@ class LogSenseCommand(CDBBuffer):
     subpage_code = be_uint_field(where=bytes_ref[3])
     parameter_pointer = be_uint_field(where=bytes_ref[5:7])
     allocation_length = be_uint_field(where=bytes_ref[7:9])
-    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], set_before_pack=DEFAULT_CONTROL_BUFFER)
+    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], default=DEFAULT_CONTROL_BUFFER)
 
     def __init__(self, page_code, subpage_code=0, allocation_length=396):
         super(LogSenseCommand, self).__init__()
diff --git a/src/infi/asi/cdb/persist/input.py b/src/infi/asi/cdb/persist/input.py
index 9fe81e7..bef1a42 100644
--- a/src/infi/asi/cdb/persist/input.py
+++ b/src/infi/asi/cdb/persist/input.py
@@ -128,7 +128,7 @@ class PersistentReserveInCommand(CDBBuffer):
     operation_code = be_uint_field(where=bytes_ref[0], set_before_pack=CDB_OPCODE_PERSISTENT_RESERVE_IN)
     service_action = be_uint_field(where=bytes_ref[1].bits[0:5])
     allocation_length = be_uint_field(where=bytes_ref[7:9])
-    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], set_before_pack=DEFAULT_CONTROL_BUFFER)
+    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], default=DEFAULT_CONTROL_BUFFER)
 
     def __init__(self, service_action, allocation_length=520, **kwargs):
         super(PersistentReserveInCommand, self).__init__(
diff --git a/src/infi/asi/cdb/persist/output.py b/src/infi/asi/cdb/persist/output.py
index a86a2fa..e7fcdee 100644
--- a/src/infi/asi/cdb/persist/output.py
+++ b/src/infi/asi/cdb/persist/output.py
@@ -80,7 +80,7 @@ class PersistentReserveOutCommand(CDBBuffer):
     pr_type = be_uint_field(where=bytes_ref[2].bits[0:4])
     scope = be_uint_field(where=bytes_ref[3].bits[4:8], set_before_pack=0)
     parameter_list_length = be_uint_field(where=bytes_ref[5:9])
-    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], set_before_pack=DEFAULT_CONTROL_BUFFER)
+    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], default=DEFAULT_CONTROL_BUFFER)
 
     def __init__(self, service_action, reservation_key=0, service_action_reservation_key=0,
                  pr_type=PERSISTENT_RESERVE_OUT_TYPES.WRITE_EXCLUSIVE, **kwargs):
-- 
2.43.0


From aa2375be6fe6273bb21b0bdc7329e16a4323a65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 21/48] fix: the UNMAP data length is the number of bytes that
 follow it

---
 src/infi/asi/cdb/unmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/unmap.py b/src/infi/asi/cdb/unmap.py
index 7ca710f..5ea7b2e 100644
--- a/src/infi/asi/cdb/unmap.py
+++ b/src/infi/asi/cdb/unmap.py
@@ -49,7 +49,7 @@ class UnmapParameterListHeader(CDB):
 
     def __init__(self, data_length):
         super(UnmapParameterListHeader, self).__init__()
-        self.unmap_data_length=data_length+7
+        self.unmap_data_length=data_length+6
         self.unmap_block_descriptor_data_length=data_length
         self.datagram = self.create_datagram()
 
-- 
2.43.0


From e4c8a679a6ef93fb4b4c1948eec4a32b51b2a5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 22/48] fix: PERSISTENT RESERVE OUT dropped the activate
 persist through power loss flag

---
 src/infi/asi/cdb/persist/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/persist/output.py b/src/infi/asi/cdb/persist/output.py
index e7fcdee..e9242be 100644
--- a/src/infi/asi/cdb/persist/output.py
+++ b/src/infi/asi/cdb/persist/output.py
@@ -42,7 +42,7 @@ class PersistentReserveOutCommandBasicParameterList(CDBBuffer):
     """
     reservation_key = be_uint_field(where=bytes_ref[0:8])
     service_action_reservation_key = be_uint_field(where=bytes_ref[8:16])
-    activate_persist_through_power_loss = be_uint_field(where=bytes_ref[20].bits[0], set_before_pack=0, default=0)
+    activate_persist_through_power_loss = be_uint_field(where=bytes_ref[20].bits[0], default=0)
     obsolete_1 = be_uint_field(where=bytes_ref[16:20], set_before_pack=0, default=0)
     all_target_ports = be_uint_field(where=bytes_ref[20].bits[2], default=0)
     specify_initiator_ports = be_uint_field(where=bytes_ref[20].bits[3], default=0)  
-- 
2.43.0


From 196c7d9e2db44e7a02024ab59270f27f5e193827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 23/48] fix: the scope of PERSISTENT RESERVE OUT is in byte 2
 and is the one given

---
 src/infi/asi/cdb/persist/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/persist/output.py b/src/infi/asi/cdb/persist/output.py
index e9242be..714ea7a 100644
--- a/src/infi/asi/cdb/persist/output.py
+++ b/src/infi/asi/cdb/persist/output.py
@@ -78,7 +78,7 @@ class PersistentReserveOutCommand(CDBBuffer):
     operation_code = be_uint_field(where=bytes_ref[0], set_before_pack=CDB_OPCODE_PERSISTENT_RESERVE_OUT)
     service_action = be_uint_field(where=bytes_ref[1].bits[0:5])
     pr_type = be_uint_field(where=bytes_ref[2].bits[0:4])
-    scope = be_uint_field(where=bytes_ref[3].bits[4:8], set_before_pack=0)
+    scope = be_uint_field(where=bytes_ref[2].bits[4:8], default=0)
     parameter_list_length = be_uint_field(where=bytes_ref[5:9])
     control = buffer_field(type=ControlBuffer, where=bytes_ref[9], default=DEFAULT_CONTROL_BUFFER)
 
-- 
2.43.0


From 8e77df5eff5cf4f1ad08d288d70ea66f47ca3f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 24/48] fix: RECEIVE COPY OPERATING PARAMETERS could not be
 sent without an explicit control byte

---
 src/infi/asi/cdb/receive_copy_operating_parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/receive_copy_operating_parameters.py b/src/infi/asi/cdb/receive_copy_operating_parameters.py
index 4936f0a..65eec8d 100644
--- a/src/infi/asi/cdb/receive_copy_operating_parameters.py
+++ b/src/infi/asi/cdb/receive_copy_operating_parameters.py
@@ -9,7 +9,7 @@ class ReceiveCopyOperatingParametersCommand(CDBBuffer):
     operation_code = be_uint_field(where=bytes_ref[0], set_before_pack=0x84)
     service_action = be_uint_field(where=bytes_ref[1].bits[0:5], set_before_pack=3)
     allocation_length = be_uint_field(where=bytes_ref[10:14])
-    control = be_uint_field(where=bytes_ref[15])
+    control = be_uint_field(where=bytes_ref[15], default=0)
 
     def execute(self, executer):
         datagram = self.create_datagram()
-- 
2.43.0


From d87f3ab92c03624e6602550908d0ed6e46341ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 25/48] fix: negative arguments of commands with bit fields
 were encoded as other values

---
 src/infi/asi/cdb/log_sense.py      | 1 +
 src/infi/asi/cdb/persist/input.py  | 2 ++
 src/infi/asi/cdb/persist/output.py | 2 ++
 src/infi/asi/cdb/read.py           | 2 +-
 src/infi/asi/cdb/release.py        | 1 +
 src/infi/asi/cdb/reserve.py        | 1 +
 src/infi/asi/cdb/write.py          | 2 +-
 7 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/log_sense.py b/src/infi/asi/cdb/log_sense.py
index 0870e2c..a7c6d8e 100644
--- a/src/infi/asi/cdb/log_sense.py
+++ b/src/infi/asi/cdb/log_sense.py
@@ -20,6 +20,7 @@ class LogSenseCommand(CDBBuffer):
         self.sp = 0
         self.pc = 0
         self.parameter_pointer = 0
+        assert 0 <= page_code < 2 ** 6, "page_code should be in range [0, 2**6)"
         self.page_code = page_code
         self.subpage_code = subpage_code
         self.allocation_length = allocation_length
diff --git a/src/infi/asi/cdb/persist/input.py b/src/infi/asi/cdb/persist/input.py
index bef1a42..151e44f 100644
--- a/src/infi/asi/cdb/persist/input.py
+++ b/src/infi/asi/cdb/persist/input.py
@@ -137,6 +137,8 @@ class PersistentReserveInCommand(CDBBuffer):
             **kwargs)
         assert allocation_length >= 8, \
             "A minimum of 8 bytes must be allocated."
+        assert 0 <= service_action < 2 ** 5, \
+            "service_action should be in range [0, 2**5)"
 
     def execute(self, executer):
         command_datagram = bytes(self.create_datagram())
diff --git a/src/infi/asi/cdb/persist/output.py b/src/infi/asi/cdb/persist/output.py
index 714ea7a..9be31cf 100644
--- a/src/infi/asi/cdb/persist/output.py
+++ b/src/infi/asi/cdb/persist/output.py
@@ -87,6 +87,8 @@ class PersistentReserveOutCommand(CDBBuffer):
         super(PersistentReserveOutCommand, self).__init__()
         self.service_action = service_action
         self.pr_type = pr_type
+        assert 0 <= pr_type < 2 ** 4, \
+            "pr_type should be in range [0, 2**4)"
         assert self.service_action in SERVICE_ACTION_TO_PARAMETER_LIST_CLASS, \
             "No parameter list class defined for service action %r." % \
             service_action
diff --git a/src/infi/asi/cdb/read.py b/src/infi/asi/cdb/read.py
index 8e87a2c..b083be3 100644
--- a/src/infi/asi/cdb/read.py
+++ b/src/infi/asi/cdb/read.py
@@ -30,7 +30,7 @@ class Read6Command(CDB):
         self.logical_block_address = logical_block_address
         self.block_size = block_size
         self.transfer_length = transfer_length
-        assert self.logical_block_address < 2 ** 21
+        assert 0 <= self.logical_block_address < 2 ** 21
         assert self.transfer_length < 2 ** 8, "transfer_length should be in range [0,256), instead got: {}".format(self.transfer_length)
         self.logical_block_address__msb = self.logical_block_address >> 16
         self.logical_block_address__lsb = self.logical_block_address & 0xffff
diff --git a/src/infi/asi/cdb/release.py b/src/infi/asi/cdb/release.py
index 9cd6bc2..302ba8c 100644
--- a/src/infi/asi/cdb/release.py
+++ b/src/infi/asi/cdb/release.py
@@ -48,6 +48,7 @@ class Release10Command(CDBBuffer):
 
     def __init__(self, third_party_device_id=0, **kwargs):
         super(Release10Command, self).__init__(**kwargs)
+        assert 0 <= third_party_device_id < 2 ** 64, "third_party_device_id should be in range [0, 2**64)"
         self.third_party = 0
         self.parameter_list_datagram = None
         if third_party_device_id > 0:
diff --git a/src/infi/asi/cdb/reserve.py b/src/infi/asi/cdb/reserve.py
index 1515d0a..a5a2f01 100644
--- a/src/infi/asi/cdb/reserve.py
+++ b/src/infi/asi/cdb/reserve.py
@@ -50,6 +50,7 @@ class Reserve10Command(CDBBuffer):
 
     def __init__(self, third_party_device_id=0, **kwargs):
         super(Reserve10Command, self).__init__(**kwargs)
+        assert 0 <= third_party_device_id < 2 ** 64, "third_party_device_id should be in range [0, 2**64)"
         self.third_party = 0
         self.parameter_list_datagram = None
         if third_party_device_id > 0:
diff --git a/src/infi/asi/cdb/write.py b/src/infi/asi/cdb/write.py
index abf3763..5745e1b 100644
--- a/src/infi/asi/cdb/write.py
+++ b/src/infi/asi/cdb/write.py
@@ -32,7 +32,7 @@ class Write6Command(CDB):
         self.buffer = buffer
         self.block_size = block_size
 
-        assert self.logical_block_address < 2 ** 21, "lba > 2**21"
+        assert 0 <= self.logical_block_address < 2 ** 21, "lba should be in range [0, 2**21)"
         assert len(buffer) % block_size == 0, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)
 
         num_blocks = len(buffer) // block_size
-- 
2.43.0


From 711ace3d0b58e93cc999a2209fc949952ffb4b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:51 +0000
Subject: [PATCH 26/48] fix: decode the values of the ATA information page as
 SAT lays them out

---
 .../cdb/inquiry/vpd_pages/ata_information.py  | 27 ++++++++++---------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
index a726537..1ef78e1 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
@@ -1,6 +1,7 @@
 from .. import PeripheralDeviceDataBuffer
 from . import EVPDInquiryCommand
-from infi.instruct.buffer import Buffer, str_field, bytes_ref, buffer_field, be_int_field
+from infi.instruct.buffer import (Buffer, str_field, bytes_ref, buffer_field, bytearray_field, be_uint_field,
+                                  le_uint_field)
 
 
 # sat3r04: 12.4.2
@@ -23,27 +24,27 @@ class AtaIdentifyDevice(Buffer):
 
 class DeviceSignature(Buffer):
     byte_size = 20
-    transport_id = be_int_field(where=bytes_ref[0])
-    pm_port = be_int_field(where=bytes_ref[1].bits[0:4])
-    interrupt = be_int_field(where=bytes_ref[1].bits[6])
-    status = be_int_field(where=bytes_ref[2])
-    error = be_int_field(where=bytes_ref[3])
-    lba = str_field(where=(bytes_ref[4] + bytes_ref[5] + bytes_ref[6] +
-                           bytes_ref[8] + bytes_ref[9] + bytes_ref[10]))
-    device = be_int_field(where=bytes_ref[7])
-    sector_count = be_int_field(where=bytes_ref[12:14])
+    transport_id = be_uint_field(where=bytes_ref[0])
+    pm_port = be_uint_field(where=bytes_ref[1].bits[0:4])
+    interrupt = be_uint_field(where=bytes_ref[1].bits[6])
+    status = be_uint_field(where=bytes_ref[2])
+    error = be_uint_field(where=bytes_ref[3])
+    lba = bytearray_field(where=(bytes_ref[4] + bytes_ref[5] + bytes_ref[6] +
+                                 bytes_ref[8] + bytes_ref[9] + bytes_ref[10]))
+    device = be_uint_field(where=bytes_ref[7])
+    sector_count = le_uint_field(where=bytes_ref[12:14])
 
 
 class AtaInformationVPDPageBuffer(Buffer):
     byte_size = 572
     peripheral_device = buffer_field(where=bytes_ref[0:], type=PeripheralDeviceDataBuffer)
-    page_code = be_int_field(where=bytes_ref[1:2])
-    page_length = be_int_field(where=bytes_ref[2:4])
+    page_code = be_uint_field(where=bytes_ref[1:2])
+    page_length = be_uint_field(where=bytes_ref[2:4])
     sat_vendor_identification = str_field(where=bytes_ref[8:16])  # bytes 8-15
     sat_product_identification = str_field(where=bytes_ref[16:32])  # bytes 16-31
     sat_product_revision_level = str_field(where=bytes_ref[32:36])  # bytes 32-35
     device_signature = buffer_field(where=bytes_ref[36:56], type=DeviceSignature)  # bytes 36-55
-    command_code = be_int_field(where=bytes_ref[56:57])
+    command_code = be_uint_field(where=bytes_ref[56:57])
     # ATA IDENTIFY DEVICE: bytes 60-571
     identify_device = buffer_field(where=bytes_ref[60:572], type=AtaIdentifyDevice)
 
-- 
2.43.0


From a6366d826e9554752fa503d50bc43002670e7cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:51 +0000
Subject: [PATCH 27/48] fix: padding behind a logical block provisioning page
 is no provisioning group descriptor

---
 .../cdb/inquiry/vpd_pages/logical_block_provisioning.py  | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/logical_block_provisioning.py b/src/infi/asi/cdb/inquiry/vpd_pages/logical_block_provisioning.py
index 9c9abfa..0b798e7 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/logical_block_provisioning.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/logical_block_provisioning.py
@@ -1,6 +1,6 @@
 from infi.asi.cdb.inquiry import PeripheralDeviceDataBuffer
 from infi.asi.cdb.inquiry.vpd_pages import EVPDInquiryCommand
-from infi.instruct.buffer import Buffer, bytes_ref, buffer_field, be_uint_field, input_buffer_length
+from infi.instruct.buffer import Buffer, bytes_ref, buffer_field, be_uint_field, input_buffer_length, self_ref
 from .designators import DesignatorDescriptor, determine_designator
 
 
@@ -23,7 +23,12 @@ class LogicalBlockProvisioningVPDPageBuffer(Buffer):
     # reserved
     provisioning_group_descriptor = buffer_field(where=bytes_ref[8:], type=DesignatorDescriptor,
                                                  unpack_selector=determine_designator,
-                                                 unpack_if=input_buffer_length>8)
+                                                 unpack_if=self_ref._is_followed_by_descriptor(input_buffer_length),
+                                                 unpack_after=page_length)
+
+    def _is_followed_by_descriptor(self, length):
+        # a page of 4 bytes ends here, whatever fills the rest of the response buffer
+        return length > 8 and self.page_length != 4
 
 
 class LogicalBlockProvisioningPageCommand(EVPDInquiryCommand):
-- 
2.43.0


From 6a42f3f1df0a6c5b012fe933ae7eb8a2205e07e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:30 +0000
Subject: [PATCH 28/48] fix: keep the raw bytes of a designator of a reserved
 type

---
 src/infi/asi/cdb/inquiry/vpd_pages/designators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
index 8e85618..94d2324 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
@@ -19,7 +19,7 @@ class DesignatorDescriptor(Buffer):
 # Designator types 09-0F are reserved
 class Reserved_Designator(DesignatorDescriptor):
     designator_length = be_uint_field(where=bytes_ref[3], set_before_pack=len_ref(self_ref.designator))
-    desginator = str_field(where=bytes_ref[4:4+designator_length])
+    designator = bytearray_field(where=bytes_ref[4:4+designator_length])
 
 
 # spc4r30, section 7.8.5.5.2, page 617
-- 
2.43.0


From 547cc9d3ac82d4efd800e6d3ed357374131c3897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:22 +0000
Subject: [PATCH 29/48] fix: the ATA model number has 40 characters

---
 src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
index 1ef78e1..a351465 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
@@ -19,7 +19,7 @@ class AtaIdentifyDevice(Buffer):
                                                   52])  # word 23-26 in ATA IDENTIFY DEVICE range
     model_number = str_field(where=bytes_ref[55, 54, 57, 56, 59, 58, 61, 60, 63, 62, 65, 64, 67, 66, 69, 68,
                                              71, 70, 73, 72, 75, 74, 77, 76, 79, 78, 81, 80, 83, 82, 85, 84,
-                                             87, 86, 89, 88, 91, 90])  # word 27-46 in ATA IDENTIFY DEVICE range
+                                             87, 86, 89, 88, 91, 90, 93, 92])  # word 27-46 in ATA IDENTIFY DEVICE range
 
 
 class DeviceSignature(Buffer):
-- 
2.43.0


From 5ec3b4336fb413a83559f7ad27b790be5ad79d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:43 +0000
Subject: [PATCH 30/48] fix: company ids and extensions of EUI-64 and NAA 2
 designators were decoded in reverse byte order

---
 src/infi/asi/cdb/inquiry/vpd_pages/designators.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
index 94d2324..40f4885 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
@@ -22,10 +22,13 @@ class Reserved_Designator(DesignatorDescriptor):
     designator = bytearray_field(where=bytes_ref[4:4+designator_length])
 
 
+# integers of 3 or 5 bytes are put together from the least significant byte on, like those that are not whole bytes
+
+
 # spc4r30, section 7.8.5.5.2, page 617
 class EUI64_Designator(DesignatorDescriptor):
-    ieee_company = be_uint_field(where=bytes_ref[4:7])
-    vendor_specific_extension_identifer = be_uint_field(where=bytes_ref[7:12])
+    ieee_company = be_uint_field(where=(bytes_ref[6] + bytes_ref[5] + bytes_ref[4]))
+    vendor_specific_extension_identifer = be_uint_field(where=(bytes_ref[11] + bytes_ref[10] + bytes_ref[9] + bytes_ref[8] + bytes_ref[7]))
 
 
 # spc4r30, section 7.8.5.5.3, page 617
@@ -36,8 +39,8 @@ class EUI64_12Byte_Designator(EUI64_Designator):
 # spc4r30, section 7.8.5.5.4, page 618
 class EUI64_16Byte_Designator(DesignatorDescriptor):
     identifier_extension = be_uint_field(where=bytes_ref[4:12])
-    ieee_company = be_uint_field(where=bytes_ref[12:15])
-    vendor_specific_extension_identifer = be_uint_field(where=bytes_ref[15:20])
+    ieee_company = be_uint_field(where=(bytes_ref[14] + bytes_ref[13] + bytes_ref[12]))
+    vendor_specific_extension_identifer = be_uint_field(where=(bytes_ref[19] + bytes_ref[18] + bytes_ref[17] + bytes_ref[16] + bytes_ref[15]))
 
 
 # spc4r30, section 7.8.5.6.1, page 618
@@ -48,8 +51,8 @@ class NAA_Descriptor(DesignatorDescriptor):
 # spc4r30, section 7.8.5.6.2, page 619
 class NAA_IEEE_Extended_Designator(NAA_Descriptor):
     vendor_specific_identifier_a = be_uint_field(where=(bytes_ref[5] + bytes_ref[4].bits[0:4]))
-    ieee_company = be_uint_field(where=bytes_ref[6:9])
-    vendor_specific_identifier_b = be_uint_field(where=bytes_ref[9:12])
+    ieee_company = be_uint_field(where=(bytes_ref[8] + bytes_ref[7] + bytes_ref[6]))
+    vendor_specific_identifier_b = be_uint_field(where=(bytes_ref[11] + bytes_ref[10] + bytes_ref[9]))
 
 
 # spc4r30, section 7.8.5.6.2, page 619
-- 
2.43.0


From db1173da2fb316bfff3603549e57ae40b1fb0c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 31/48] fix: the descriptors of an extended REPORT TARGET PORT
 GROUPS response start after its header of 8 bytes

---
 src/infi/asi/cdb/rtpg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/rtpg.py b/src/infi/asi/cdb/rtpg.py
index 5aee687..9c25fb8 100755
--- a/src/infi/asi/cdb/rtpg.py
+++ b/src/infi/asi/cdb/rtpg.py
@@ -83,5 +83,5 @@ class TargetPortGroupLengthOnlyResponse(Buffer):
 class TargetPortGroupExtendedResponse(Buffer):
     data_length = be_int_field(where=bytes_ref[0:4])
     format_type = be_int_field(where=bytes_ref[4].bits[4:7])
-    descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[7:7 + data_length])
+    descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[8:4 + data_length])
     # ...
-- 
2.43.0


From 854340cb37fa968adea4f11759169a7ee5f0e6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:56 +0000
Subject: [PATCH 32/48] fix: the port count and status code of a target port
 group are unsigned

---
 src/infi/asi/cdb/rtpg.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/infi/asi/cdb/rtpg.py b/src/infi/asi/cdb/rtpg.py
index 9c25fb8..b413191 100755
--- a/src/infi/asi/cdb/rtpg.py
+++ b/src/infi/asi/cdb/rtpg.py
@@ -60,28 +60,28 @@ class TargetPortDescriptor(Buffer):
 class TargetPortGroupDescriptor(Buffer):
     # SPC4-R37.pdf p. 481
 
-    asymetric_access_state = be_int_field(where=bytes_ref[0].bits[0:4])
-    pref = be_int_field(where=bytes_ref[0].bits[7])
-    ao_sup = be_int_field(where=bytes_ref[1].bits[0])
-    an_sup = be_int_field(where=bytes_ref[1].bits[1])
-    s_sup = be_int_field(where=bytes_ref[1].bits[2])
-    u_sup = be_int_field(where=bytes_ref[1].bits[3])
-    lbd_sup = be_int_field(where=bytes_ref[1].bits[4])
-    o_sup = be_int_field(where=bytes_ref[1].bits[6])
-    t_sup = be_int_field(where=bytes_ref[1].bits[7])
+    asymetric_access_state = be_uint_field(where=bytes_ref[0].bits[0:4])
+    pref = be_uint_field(where=bytes_ref[0].bits[7])
+    ao_sup = be_uint_field(where=bytes_ref[1].bits[0])
+    an_sup = be_uint_field(where=bytes_ref[1].bits[1])
+    s_sup = be_uint_field(where=bytes_ref[1].bits[2])
+    u_sup = be_uint_field(where=bytes_ref[1].bits[3])
+    lbd_sup = be_uint_field(where=bytes_ref[1].bits[4])
+    o_sup = be_uint_field(where=bytes_ref[1].bits[6])
+    t_sup = be_uint_field(where=bytes_ref[1].bits[7])
 
     target_port_group = be_uint_field(where=bytes_ref[2:4])
-    status_code = be_int_field(where=bytes_ref[5])
+    status_code = be_uint_field(where=bytes_ref[5])
 
-    target_port_count = be_int_field(where=bytes_ref[7])
+    target_port_count = be_uint_field(where=bytes_ref[7])
     target_port_list = list_field(type=TargetPortDescriptor, where=bytes_ref[8:], n=target_port_count)
 
 class TargetPortGroupLengthOnlyResponse(Buffer):
-    data_length = be_int_field(where=bytes_ref[0:4])
+    data_length = be_uint_field(where=bytes_ref[0:4])
     descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[4:4 + data_length])
 
 class TargetPortGroupExtendedResponse(Buffer):
-    data_length = be_int_field(where=bytes_ref[0:4])
-    format_type = be_int_field(where=bytes_ref[4].bits[4:7])
+    data_length = be_uint_field(where=bytes_ref[0:4])
+    format_type = be_uint_field(where=bytes_ref[4].bits[4:7])
     descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[8:4 + data_length])
     # ...
-- 
2.43.0


From 9e728be1461312565eee6baaa97a86fca18bbe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:09 +0000
Subject: [PATCH 33/48] fix: required_allocation_length of a full status
 response failed with a NameError

---
 src/infi/asi/cdb/persist/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/persist/input.py b/src/infi/asi/cdb/persist/input.py
index 151e44f..5463390 100644
--- a/src/infi/asi/cdb/persist/input.py
+++ b/src/infi/asi/cdb/persist/input.py
@@ -117,7 +117,7 @@ class PersistentReserveInReadFullStatusResponse(CDBBuffer):
         unpack_if=additional_length > 0)
 
     def required_allocation_length(self):
-        return additional_length + 8
+        return self.additional_length + 8
 
 
 class PersistentReserveInCommand(CDBBuffer):
-- 
2.43.0


From d1dc0c65d074e9b56cee41ff26b50abec9763e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:09 +0000
Subject: [PATCH 34/48] fix: a reservation response of 21 bytes does not
 contain the reservation type

---
 src/infi/asi/cdb/persist/input.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/persist/input.py b/src/infi/asi/cdb/persist/input.py
index 5463390..dafe1ab 100644
--- a/src/infi/asi/cdb/persist/input.py
+++ b/src/infi/asi/cdb/persist/input.py
@@ -47,8 +47,8 @@ class PersistentReserveInReadReservationResponse(CDBBuffer):
     reservation_key = be_uint_field(where=bytes_ref[8:16], unpack_if=input_buffer_length >= 16)
     obsolete_1 = be_uint_field(where=bytes_ref[16:20], unpack_if=input_buffer_length >= 20)
     reserved_1 = be_uint_field(where=bytes_ref[20:21], unpack_if=input_buffer_length >= 21)
-    pr_type = be_uint_field(where=bytes_ref[21].bits[0:4], unpack_if=input_buffer_length >= 21)
-    scope = be_uint_field(where=bytes_ref[21].bits[4:8], unpack_if=input_buffer_length >= 21)
+    pr_type = be_uint_field(where=bytes_ref[21].bits[0:4], unpack_if=input_buffer_length >= 22)
+    scope = be_uint_field(where=bytes_ref[21].bits[4:8], unpack_if=input_buffer_length >= 22)
     obsolete_2 = be_uint_field(where=bytes_ref[22:24], unpack_if=input_buffer_length >= 24)
 
     def required_allocation_length(self):
-- 
2.43.0


From 5cac7acd21c14d85780e68bd8fce273e7eab71fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:44 +0000
Subject: [PATCH 35/48] fix: counts, lengths and codes in SES pages are
 unsigned

---
 .../cdb/diagnostic/ses_pages/configuration.py | 18 ++++++------
 .../ses_pages/element_descriptor.py           | 10 +++----
 .../diagnostic/ses_pages/enclosure_status.py  | 28 +++++++++----------
 .../diagnostic/ses_pages/supported_pages.py   |  6 ++--
 .../cdb/diagnostic/ses_pages/vendor_0x80.py   |  6 ++--
 5 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py b/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
index d7b7b3e..1928133 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
@@ -65,8 +65,8 @@ ELEMENT_TYPE_CODES = {ELEMENT_TYPE_UNSPECIFIED: 'Unspecified',
 class EnclosureDescriptor(Buffer):
     enclosure_services_processes_num = be_int_field(where=bytes_ref[0].bits[0:3])
     relative_enclosure_services_process_identifier = be_int_field(where=bytes_ref[0].bits[4:7])
-    subenclosure_identifier = be_int_field(where=bytes_ref[1])
-    type_descriptor_headers_num = be_int_field(where=bytes_ref[2])
+    subenclosure_identifier = be_uint_field(where=bytes_ref[1])
+    type_descriptor_headers_num = be_uint_field(where=bytes_ref[2])
     enclosure_descriptor_length = be_uint_field(where=bytes_ref[3])
     enclosure_logical_identifier = bytearray_field(where=bytes_ref[4:12])
     enclosure_vendor_identification = str_field(where=bytes_ref[12:20])
@@ -78,9 +78,9 @@ class EnclosureDescriptor(Buffer):
 
 class TypeDescriptorHeader(Buffer):
     element_type = be_int_field(where=bytes_ref[0], sign='unsigned')
-    possible_elements_num = be_int_field(where=bytes_ref[1])
-    subenclosure_identifier = be_int_field(where=bytes_ref[2])
-    type_descriptor_text_length = be_int_field(where=bytes_ref[3])
+    possible_elements_num = be_uint_field(where=bytes_ref[1])
+    subenclosure_identifier = be_uint_field(where=bytes_ref[2])
+    type_descriptor_text_length = be_uint_field(where=bytes_ref[3])
 
 
 class ConfigurationDiagnosticPagesData(DiagnosticDataBuffer):
@@ -91,10 +91,10 @@ class ConfigurationDiagnosticPagesData(DiagnosticDataBuffer):
         l = self.type_descriptor_header_list[index].type_descriptor_text_length
         return buffer[0:l].to_bytes(), l
 
-    page_code = be_int_field(where=bytes_ref[0])
-    secondary_subenclosures_num = be_int_field(where=bytes_ref[1])
-    page_length = be_int_field(where=bytes_ref[2:4], set_before_pack=total_size - 4)
-    generation_code = be_int_field(where=bytes_ref[4:8])
+    page_code = be_uint_field(where=bytes_ref[0])
+    secondary_subenclosures_num = be_uint_field(where=bytes_ref[1])
+    page_length = be_uint_field(where=bytes_ref[2:4], set_before_pack=total_size - 4)
+    generation_code = be_uint_field(where=bytes_ref[4:8])
     enclosure_descriptor_list = list_field(type=EnclosureDescriptor,
                                            where=bytes_ref[8:],
                                            n=secondary_subenclosures_num + 1)
diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/element_descriptor.py b/src/infi/asi/cdb/diagnostic/ses_pages/element_descriptor.py
index 816ae12..85f63cc 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/element_descriptor.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/element_descriptor.py
@@ -1,9 +1,9 @@
-from infi.instruct.buffer import Buffer, bytes_ref, be_int_field, list_field, buffer_field, after_ref, member_func_ref, bytearray_field
+from infi.instruct.buffer import Buffer, bytes_ref, be_uint_field, list_field, buffer_field, after_ref, member_func_ref, bytearray_field
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
 class Descriptor(Buffer):
-    descriptor_length = be_int_field(where=bytes_ref[2:4])
+    descriptor_length = be_uint_field(where=bytes_ref[2:4])
     descriptor = bytearray_field(where_when_pack=bytes_ref[4:], where_when_unpack=bytes_ref[4:descriptor_length + 4])
 
 
@@ -30,9 +30,9 @@ class ElementDescriptorDiagnosticPagesData(DiagnosticDataBuffer):
     def _possible_elements_num(self):
         return len(self.conf_page.type_descriptor_header_list)
 
-    page_code = be_int_field(where=bytes_ref[0])
-    page_length = be_int_field(where=bytes_ref[2:4])
-    generation_code = be_int_field(where=bytes_ref[4:8])
+    page_code = be_uint_field(where=bytes_ref[0])
+    page_length = be_uint_field(where=bytes_ref[2:4])
+    generation_code = be_uint_field(where=bytes_ref[4:8])
     element_descriptors = list_field(where=bytes_ref[8:], type=ElementDescriptor,
                                      unpack_selector=_unpack_status_descriptor,
                                      n=member_func_ref(_possible_elements_num))
diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
index eb8d7b1..11ff467 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
@@ -1,16 +1,16 @@
-from infi.instruct.buffer import Buffer, bytes_ref, be_int_field, list_field, buffer_field, int8, member_func_ref
+from infi.instruct.buffer import Buffer, bytes_ref, be_int_field, be_uint_field, list_field, buffer_field, uint8, member_func_ref
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
 class GeneralElementInfo(Buffer):
     byte_size = 3
-    general = list_field(type=int8, where=bytes_ref[0:])
+    general = list_field(type=uint8, where=bytes_ref[0:])
 
 
 # ses3r05: 7.3.2
 class DeviceSlotElementInfo(Buffer):
     byte_size = 3
-    slot_address = be_int_field(where=bytes_ref[0])
+    slot_address = be_uint_field(where=bytes_ref[0])
     report = be_int_field(where=bytes_ref[1].bits[0])
     ident = be_int_field(where=bytes_ref[1].bits[1])
     rmv = be_int_field(where=bytes_ref[1].bits[2])
@@ -103,7 +103,7 @@ class TempSensorElementInfo(Buffer):
     byte_size = 3
     fail = be_int_field(where=bytes_ref[0].bits[6])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    temperature = be_int_field(where=bytes_ref[1])
+    temperature = be_uint_field(where=bytes_ref[1])
     ut_warn = be_int_field(where=bytes_ref[2].bits[0])
     ut_fail = be_int_field(where=bytes_ref[2].bits[1])
     ot_warn = be_int_field(where=bytes_ref[2].bits[2])
@@ -156,20 +156,20 @@ class NonVolotileCacheElementInfo(Buffer):
     size_mult = be_int_field(where=bytes_ref[0].bits[0:2])
     fail = be_int_field(where=bytes_ref[0].bits[6])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    cache_size = be_int_field(where=bytes_ref[1:])
+    cache_size = be_uint_field(where=bytes_ref[1:])
 
 
 # ses3r05: 7.3.12
 class InvalidOpReasonElementInfo(Buffer):
     byte_size = 3
     invop_type = be_int_field(where=bytes_ref[0].bits[6:8])
-    invop_bytes = be_int_field(where=bytes_ref[1:])
+    invop_bytes = be_uint_field(where=bytes_ref[1:])
 
 
 # ses3r05: 7.3.13
 class UninterruptiblePowerSupplyElementInfo(Buffer):
     byte_size = 3
-    battery_status = be_int_field(where=bytes_ref[0])
+    battery_status = be_uint_field(where=bytes_ref[0])
     intf_fail = be_int_field(where=bytes_ref[1].bits[0])
     warn = be_int_field(where=bytes_ref[1].bits[1])
     ups_fail = be_int_field(where=bytes_ref[1].bits[2])
@@ -190,7 +190,7 @@ class DisplayElementInfo(Buffer):
     display_mode_status = be_int_field(where=bytes_ref[0].bits[0:2])
     fail = be_int_field(where=bytes_ref[0].bits[6])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    display_char_status = be_int_field(where=bytes_ref[1:])
+    display_char_status = be_uint_field(where=bytes_ref[1:])
 
 
 # ses3r05: 7.3.15
@@ -227,7 +227,7 @@ class ScsiPortTransceiverElementInfo(Buffer):
 class LanguageElementInfo(Buffer):
     byte_size = 3
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    language_code = be_int_field(where=bytes_ref[1:])
+    language_code = be_uint_field(where=bytes_ref[1:])
 
 
 # ses3r05: 7.3.19
@@ -283,7 +283,7 @@ class SimpleSubenclosureElementInfo(Buffer):
     byte_size = 3
     fail = be_int_field(where=bytes_ref[0].bits[6])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    short_enclosure_status = be_int_field(where=bytes_ref[2])
+    short_enclosure_status = be_uint_field(where=bytes_ref[2])
 
 
 # ses3r05: 7.3.25
@@ -298,7 +298,7 @@ class SasConnectorElementInfo(Buffer):
     byte_size = 3
     connector_type = be_int_field(where=bytes_ref[0].bits[0:7])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    connector_phys_link = be_int_field(where=bytes_ref[1])
+    connector_phys_link = be_uint_field(where=bytes_ref[1])
     fail = be_int_field(where=bytes_ref[2].bits[6])
 
 
@@ -488,14 +488,14 @@ class EnclosureStatusDiagnosticPagesData(DiagnosticDataBuffer):
     def _possible_elements_num(self):
         return len(self.conf_page.type_descriptor_header_list)
 
-    page_code = be_int_field(where=bytes_ref[0])
+    page_code = be_uint_field(where=bytes_ref[0])
     unrecov = be_int_field(where=bytes_ref[1].bits[0])
     crit = be_int_field(where=bytes_ref[1].bits[1])
     non_crit = be_int_field(where=bytes_ref[1].bits[2])
     info = be_int_field(where=bytes_ref[1].bits[3])
     invop = be_int_field(where=bytes_ref[1].bits[4])
-    page_length = be_int_field(where=bytes_ref[2:4])
-    generation_code = be_int_field(where=bytes_ref[4:8])
+    page_length = be_uint_field(where=bytes_ref[2:4])
+    generation_code = be_uint_field(where=bytes_ref[4:8])
     status_descriptors = list_field(where=bytes_ref[8:], type=StatusDescriptor,
                                     unpack_selector=_unpack_status_descriptor,
                                     n=member_func_ref(_possible_elements_num))
diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py b/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
index bffbb72..489171b 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
@@ -1,11 +1,11 @@
-from infi.instruct.buffer import bytes_ref, be_int_field, uint8, list_field
+from infi.instruct.buffer import bytes_ref, be_uint_field, uint8, list_field
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
 # spc4r36f: 7.2.4
 class SupportedDiagnosticPagesData(DiagnosticDataBuffer):
-    page_code = be_int_field(where=bytes_ref[0:1])
-    page_length = be_int_field(where=bytes_ref[2:4])
+    page_code = be_uint_field(where=bytes_ref[0:1])
+    page_length = be_uint_field(where=bytes_ref[2:4])
     supported_pages = list_field(type=uint8, where=bytes_ref[4:])
 
 
diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py b/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
index eeed147..c08fe87 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
@@ -1,10 +1,10 @@
-from infi.instruct.buffer import bytes_ref, be_int_field, uint8, list_field
+from infi.instruct.buffer import bytes_ref, be_uint_field, uint8, list_field
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
 class Vendor0x80DiagnosticPagesData(DiagnosticDataBuffer):
-    page_code = be_int_field(where=bytes_ref[0:1])
-    page_length = be_int_field(where=bytes_ref[2:4])
+    page_code = be_uint_field(where=bytes_ref[0:1])
+    page_length = be_uint_field(where=bytes_ref[2:4])
     vendor_specific = list_field(type=uint8, where=bytes_ref[4:])
 
 
-- 
2.43.0


From 38c0b5d3e2c3d6591f41396d2de6947d7fc0886f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:44 +0000
Subject: [PATCH 36/48] fix: the bytes of the fan speed of a cooling element
 were swapped

---
 src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
index 11ff467..c4f6074 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
@@ -89,7 +89,7 @@ FAN_SPEED_CODE = {0: 'Cooling mechanism is stopped',
 class CoolingElementInfo(Buffer):
     byte_size = 3
     # for real fan speed the fan speed value should be multiplied by a factor of 10
-    fan_speed = be_int_field(where=(bytes_ref[0].bits[0:3] + bytes_ref[1]))
+    fan_speed = be_uint_field(where=(bytes_ref[1] + bytes_ref[0].bits[0:3]))
     ident = be_int_field(where=bytes_ref[0].bits[7])
     speed_code = be_int_field(where=bytes_ref[2].bits[0:3])
     off = be_int_field(where=bytes_ref[2].bits[4])
-- 
2.43.0


From b92f02591a49e303cb2ff14526781c5c2dd117f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:44 +0000
Subject: [PATCH 37/48] fix: the requests in the status of an enclosure element
 are in its last byte

---
 src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
index c4f6074..49d79eb 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
@@ -207,9 +207,9 @@ class EnclosureElementInfo(Buffer):
     warn_indication = be_int_field(where=bytes_ref[1].bits[0])
     failure_indication = be_int_field(where=bytes_ref[1].bits[1])
     time_until_power_cycle = be_int_field(where=bytes_ref[1].bits[2:8])
-    warn_requested = be_int_field(where=bytes_ref[1].bits[0])
-    failure_requested = be_int_field(where=bytes_ref[1].bits[1])
-    requested_power_off_duration = be_int_field(where=bytes_ref[1].bits[2:8])
+    warn_requested = be_int_field(where=bytes_ref[2].bits[0])
+    failure_requested = be_int_field(where=bytes_ref[2].bits[1])
+    requested_power_off_duration = be_int_field(where=bytes_ref[2].bits[2:8])
 
 
 # ses3r05: 7.3.17
-- 
2.43.0


From 5bbe7e487e0cc289235652cf0d1894acf3863369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:56 +0000
Subject: [PATCH 38/48] fix: pages of unknown SES diagnostic page codes could
 not be received

---
 src/infi/asi/cdb/diagnostic/ses_pages/unknown.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py b/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py
index f9d0049..e81d683 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py
@@ -1,10 +1,10 @@
-from infi.instruct.buffer import Buffer, bytes_ref, be_int_field
-from . import PCVReceiveDiagnosticResultCommand
+from infi.instruct.buffer import bytes_ref, be_uint_field, bytearray_field
+from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
-class UnknownDiagnosticPageData(Buffer):
-    page_code = be_int_field(where=bytes_ref[0:1])
-    page_data = be_int_field(where=bytes_ref[1:])
+class UnknownDiagnosticPageData(DiagnosticDataBuffer):
+    page_code = be_uint_field(where=bytes_ref[0:1])
+    page_data = bytearray_field(where=bytes_ref[1:])
 
 
 def UnknownDiagnosticPageCommand(page_code):
-- 
2.43.0


From 5bac92c93a90e4a8f62188ed203cda5d58d4a371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:46 +0000
Subject: [PATCH 39/48] fix: padding behind SES page lists and pages of unknown
 codes is not part of them

---
 src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py | 7 +++++--
 src/infi/asi/cdb/diagnostic/ses_pages/unknown.py         | 3 ++-
 src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py     | 3 ++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py b/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
index 489171b..6189bec 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
@@ -1,12 +1,15 @@
-from infi.instruct.buffer import bytes_ref, be_uint_field, uint8, list_field
+from infi.instruct.buffer import bytes_ref, be_uint_field, uint8, list_field, member_func_ref
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
 # spc4r36f: 7.2.4
 class SupportedDiagnosticPagesData(DiagnosticDataBuffer):
+    def _supported_pages_num(self):
+        return self.page_length or None
+
     page_code = be_uint_field(where=bytes_ref[0:1])
     page_length = be_uint_field(where=bytes_ref[2:4])
-    supported_pages = list_field(type=uint8, where=bytes_ref[4:])
+    supported_pages = list_field(type=uint8, where=bytes_ref[4:], n=member_func_ref(_supported_pages_num))
 
 
 # spc4r36f: 7.2.4
diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py b/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py
index e81d683..6371d92 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py
@@ -4,7 +4,8 @@ from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 class UnknownDiagnosticPageData(DiagnosticDataBuffer):
     page_code = be_uint_field(where=bytes_ref[0:1])
-    page_data = bytearray_field(where=bytes_ref[1:])
+    page_length = be_uint_field(where=bytes_ref[2:4])
+    page_data = bytearray_field(where_when_pack=bytes_ref[1:], where_when_unpack=bytes_ref[1:page_length + 4])
 
 
 def UnknownDiagnosticPageCommand(page_code):
diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py b/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
index c08fe87..1f72b6c 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
@@ -5,7 +5,8 @@ from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 class Vendor0x80DiagnosticPagesData(DiagnosticDataBuffer):
     page_code = be_uint_field(where=bytes_ref[0:1])
     page_length = be_uint_field(where=bytes_ref[2:4])
-    vendor_specific = list_field(type=uint8, where=bytes_ref[4:])
+    vendor_specific = list_field(type=uint8, where_when_pack=bytes_ref[4:],
+                                 where_when_unpack=bytes_ref[4:page_length + 4])
 
 
 class Vendor0x80DiagnosticPagesCommand(PCVReceiveDiagnosticResultCommand):
-- 
2.43.0


From b9766840436ec28b721897c3d26bf4e821a68d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 40/48] fix: a designator cut short was decoded as the number
 its rest makes

---
 src/infi/asi/cdb/inquiry/vpd_pages/designators.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
index 40f4885..f3e72b1 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
@@ -138,6 +138,10 @@ SINGLE_TYPE_DESIGNATORS = {
                            }
 
 
+# designators of numbers: EUI-64, NAA, relative target port, target port group, logical unit group
+NUMERIC_DESIGNATOR_TYPES = (0x02, 0x03, 0x04, 0x05, 0x06)
+
+
 def _determine_eui_designator(header):
     key = header.designator_length
     if key in EUI64_BY_LENGTH:
@@ -157,6 +161,9 @@ def determine_designator(instance, buffer, *args, **kwargs):
     header = DesignatorDescriptor()
     header.unpack(buffer.to_bytes())
     try:
+        if header.designator_type in NUMERIC_DESIGNATOR_TYPES and buffer.length() < header.designator_length + 4:
+            # what is left of a number is another number
+            raise InstructError("designator is cut short: %r" % header)
         if header.designator_type in SINGLE_TYPE_DESIGNATORS:
             return SINGLE_TYPE_DESIGNATORS[header.designator_type]
         if header.designator_type == 0x02:
-- 
2.43.0


From 244e2990ebc1fa0ee106df91024c1dadd2f94346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:31 +0000
Subject: [PATCH 41/48] fix: flags of a response which is cut before them were
 decoded as zeros

---
 .../asi/cdb/inquiry/vpd_pages/logical_block_provisioning.py     | 2 +-
 src/infi/asi/cdb/rtpg.py                                        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/logical_block_provisioning.py b/src/infi/asi/cdb/inquiry/vpd_pages/logical_block_provisioning.py
index 0b798e7..4cf330b 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/logical_block_provisioning.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/logical_block_provisioning.py
@@ -20,7 +20,7 @@ class LogicalBlockProvisioningVPDPageBuffer(Buffer):
     lbpws = be_uint_field(where=bytes_ref[5].bits[6])
     lbpu = be_uint_field(where=bytes_ref[5].bits[7])
     provisioning_type = be_uint_field(where=bytes_ref[6].bits[0:3])
-    # reserved
+    reserved = be_uint_field(where=bytes_ref[7], set_before_pack=0)
     provisioning_group_descriptor = buffer_field(where=bytes_ref[8:], type=DesignatorDescriptor,
                                                  unpack_selector=determine_designator,
                                                  unpack_if=self_ref._is_followed_by_descriptor(input_buffer_length),
diff --git a/src/infi/asi/cdb/rtpg.py b/src/infi/asi/cdb/rtpg.py
index b413191..f55bbdd 100755
--- a/src/infi/asi/cdb/rtpg.py
+++ b/src/infi/asi/cdb/rtpg.py
@@ -82,6 +82,6 @@ class TargetPortGroupLengthOnlyResponse(Buffer):
 
 class TargetPortGroupExtendedResponse(Buffer):
     data_length = be_uint_field(where=bytes_ref[0:4])
-    format_type = be_uint_field(where=bytes_ref[4].bits[4:7])
+    format_type = be_uint_field(where=bytes_ref[4].bits[4:7], unpack_if=input_buffer_length > 4)
     descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[8:4 + data_length])
     # ...
-- 
2.43.0


From 2618dfe92c30162265e3e45c46c1a81c03ed6c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:04 +0000
Subject: [PATCH 42/48] fix: waiting in one greenlet failed while another one
 was inside the ioctl of its command

---
 src/infi/asi/aix.py     | 5 +++--
 src/infi/asi/linux.py   | 5 +++--
 src/infi/asi/solaris.py | 5 +++--
 src/infi/asi/win32.py   | 9 +++++----
 4 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/infi/asi/aix.py b/src/infi/asi/aix.py
index 5768fc9..05a3894 100644
--- a/src/infi/asi/aix.py
+++ b/src/infi/asi/aix.py
@@ -382,7 +382,7 @@ class AixCommandExecuter(CommandExecuterBase):
 
     def _os_send(self, os_data):
         try:
-            ioctl = gevent_friendly(get_ioctl_function())
+            ioctl = get_ioctl_function()
             ioctl(self.io.fd, DK_PASSTHRU, addressof(os_data))
         except IOError:
             if os_data.einval_arg != 0:
@@ -392,7 +392,8 @@ class AixCommandExecuter(CommandExecuterBase):
                 # no valid status to parse in _handle_raw_response
                 raise AsiOSError("ioctl failed, no valid status")
         raw = os_data.to_raw()
-        self.responses.append((raw, os_data.packet_id))
+        # offer control to other greenlets only once the response can be received
+        gevent_friendly(self.responses.append)((raw, os_data.packet_id))
         yield len(raw)
 
     def _handle_raw_response(self, raw, packet_id=0):
diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index 9392c9e..6243447 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -288,8 +288,9 @@ class LinuxIoctlCommandExecuter(LinuxCommandExecuter):
         from fcntl import ioctl
         # the ioctl must be given a mutable buffer, otherwise it can not return the status
         buffer = create_string_buffer(os_data.to_raw(), SGIO.sizeof())
-        gevent_friendly(ioctl)(self.io.fd, SG_IO, buffer)
-        self.responses.append(buffer.raw)
+        ioctl(self.io.fd, SG_IO, buffer)
+        # offer control to other greenlets only once the response can be received
+        gevent_friendly(self.responses.append)(buffer.raw)
         yield len(buffer.raw)
 
     def _os_receive(self):
diff --git a/src/infi/asi/solaris.py b/src/infi/asi/solaris.py
index c5b68b8..cae72c4 100644
--- a/src/infi/asi/solaris.py
+++ b/src/infi/asi/solaris.py
@@ -201,8 +201,9 @@ class SolarisCommandExecuter(CommandExecuterBase):
         # string, otherwise the ioctl won't be able to modify relevant status
         # values in the buffer (e.g. uscsi_status):
         buffer_ctypes_string = create_string_buffer(os_data.to_raw())
-        gevent_friendly(ioctl)(self.io.fd, USCSICMD, buffer_ctypes_string)
-        self.responses.append((buffer_ctypes_string.raw, os_data.packet_id))
+        ioctl(self.io.fd, USCSICMD, buffer_ctypes_string)
+        # offer control to other greenlets only once the response can be received
+        gevent_friendly(self.responses.append)((buffer_ctypes_string.raw, os_data.packet_id))
         yield len(buffer_ctypes_string.raw)
 
     def _handle_raw_response(self, raw, packet_id=0):
diff --git a/src/infi/asi/win32.py b/src/infi/asi/win32.py
index 292347e..b246e4d 100755
--- a/src/infi/asi/win32.py
+++ b/src/infi/asi/win32.py
@@ -368,10 +368,11 @@ class Win32CommandExecuter(CommandExecuterBase):
         return SCSIPassThroughDirect.create(packet_id, command)
 
     def _os_send(self, os_data):
-        yield gevent_friendly(self.io.ioctl)(IOCTL_SCSI_PASS_THROUGH_DIRECT,
-                                            byref(os_data.source_buffer), sizeof(SCSIPassThroughDirect),
-                                            byref(os_data.source_buffer), sizeof(SCSIPassThroughDirect))
-        self.incoming_packets.append(os_data)
+        yield self.io.ioctl(IOCTL_SCSI_PASS_THROUGH_DIRECT,
+                            byref(os_data.source_buffer), sizeof(SCSIPassThroughDirect),
+                            byref(os_data.source_buffer), sizeof(SCSIPassThroughDirect))
+        # offer control to other greenlets only once the response can be received
+        gevent_friendly(self.incoming_packets.append)(os_data)
 
     def _os_receive(self):
         spt = self.incoming_packets.pop()
-- 
2.43.0


From c4ef074bc6a330cdbc9f16d56254773d3da20d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:01 +0000
Subject: [PATCH 43/48] fix: close the event of an overlapped operation once
 its result was collected

---
 src/infi/asi/win32.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/win32.py b/src/infi/asi/win32.py
index b246e4d..ba58afe 100755
--- a/src/infi/asi/win32.py
+++ b/src/infi/asi/win32.py
@@ -167,9 +167,14 @@ class Win32AsyncFile(OSAsyncFile, Win32File):
         last_error = GetLastError()
         if api_result or last_error == ERROR_IO_PENDING:
             token = WinAsyncIOToken(self.handle, self._overlapped_struct, self._windows_event_handle)
-            yield token
+            try:
+                yield token
+            finally:
+                # the result was collected
+                CloseHandle(c_void_p(token.event))
         else:
-            raise AsiWin32OSError(GetLastError(), "DeviceIoControl %d for path %s failed" % (control_code, self.path))
+            CloseHandle(c_void_p(self._windows_event_handle))
+            raise AsiWin32OSError(last_error, "DeviceIoControl %d for path %s failed" % (control_code, self.path))
 
 def WaitForMultipleObjects(events):
     from struct import pack
-- 
2.43.0


From dec81d0c73fb6efba28f52c5ab37f38593bfc029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:02 +0000
Subject: [PATCH 44/48] fix: the error of a failed driver status names the
 driver and host status, not the SCSI and driver status

---
 src/infi/asi/linux.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index 6243447..25e0a67 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -251,8 +251,8 @@ class LinuxCommandExecuter(CommandExecuterBase):
 
         if (response_sgio.driver_status & 0x0F) != 0:
             error = AsiSCSIError("SCSI driver response status is not zero: %s (host status: %s)" %
-                                (prettify_status(response_sgio.status, SCSI_STATUS_CODES),
-                                 prettify_status(response_sgio.driver_status & 0x0f, DRIVER_STATUS_CODES)))
+                                (prettify_status(response_sgio.driver_status & 0x0f, DRIVER_STATUS_CODES),
+                                 prettify_status(response_sgio.host_status, HOST_STATUS_CODES)))
             return (error, packet_id)
 
         if response_sgio.host_status != 0:
-- 
2.43.0


From c41b1205454ebd13515abdf503eff35353fd3b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:02 +0000
Subject: [PATCH 45/48] fix: the AIX status mask turned TASK SET FULL, ACA
 ACTIVE and TASK ABORTED into other statuses

---
 src/infi/asi/aix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/aix.py b/src/infi/asi/aix.py
index 05a3894..fedb865 100644
--- a/src/infi/asi/aix.py
+++ b/src/infi/asi/aix.py
@@ -194,7 +194,7 @@ SCSI_VERSION_4 = 0x04
 SC_QUIESCE_IO =  0x0          # Quiesce device before issuing
 SC_MIX_IO =      0x1          # Do not quiesce device before
 
-SCSI_STATUS_MASK = 0x1e  # mask for useful bits
+SCSI_STATUS_MASK = 0x7e  # mask for useful bits
 
 ADAPTER_STATUS_CODES = dict(
      SCSI_HOST_IO_BUS_ERR =      0x01,  # indicates a Host I/O Bus error
-- 
2.43.0


From 607997436d984a09759ffb98312f86c761c7056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:19 +0000
Subject: [PATCH 46/48] fix: waiting for more than 64 asynchronous commands on
 Windows failed

---
 src/infi/asi/win32.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/win32.py b/src/infi/asi/win32.py
index ba58afe..76047ea 100755
--- a/src/infi/asi/win32.py
+++ b/src/infi/asi/win32.py
@@ -176,6 +176,9 @@ class Win32AsyncFile(OSAsyncFile, Win32File):
             CloseHandle(c_void_p(self._windows_event_handle))
             raise AsiWin32OSError(last_error, "DeviceIoControl %d for path %s failed" % (control_code, self.path))
 
+# Taken from winnt.h: the most events WaitForMultipleObjects accepts
+MAXIMUM_WAIT_OBJECTS = 64
+
 def WaitForMultipleObjects(events):
     from struct import pack
     event_array = pack("{}P".format(len(events)), *events)
@@ -187,7 +190,7 @@ def WaitForMultipleObjects(events):
 class Win32AsyncReactor(OSAsyncReactor):
     def _wait_for_events(self, coroutines):
         events = {coroutine.get_result().event: (command, coroutine) for (command, coroutine) in coroutines.items()}
-        returned_event_index = WaitForMultipleObjects(list(events.keys()))
+        returned_event_index = WaitForMultipleObjects(list(events.keys())[:MAXIMUM_WAIT_OBJECTS])
         returned_event = list(events.keys())[returned_event_index]
         command, coroutine = events[returned_event]
         coroutine.async_io_complete()
-- 
2.43.0


From 896e8b38f04ce44d7489145f78362474835e774c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:10 +0000
Subject: [PATCH 47/48] fix: WRITE SAME refused buffers of block sizes other
 than 512 bytes

---
 src/infi/asi/cdb/write_same.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/write_same.py b/src/infi/asi/cdb/write_same.py
index d3ada25..455dce7 100644
--- a/src/infi/asi/cdb/write_same.py
+++ b/src/infi/asi/cdb/write_same.py
@@ -33,7 +33,7 @@ class WriteSame10Command(CDB):
 
     def __init__(self, logical_block_address, buffer, number_of_blocks=1 ,block_size=DEFAULT_BLOCK_SIZE):
         super(WriteSame10Command, self).__init__()
-        assert (len(buffer) %  DEFAULT_BLOCK_SIZE)==0, "buffer length {0} is not a multiple of {1}".format(len(buffer), DEFAULT_BLOCK_SIZE)
+        assert (len(buffer) %  block_size)==0, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)
         self.logical_block_address = logical_block_address
         self.buffer = buffer
         self.number_of_blocks = number_of_blocks
@@ -66,7 +66,7 @@ class WriteSame16Command(CDB):
                 ]
     def __init__(self, logical_block_address, buffer, number_of_blocks=1 ,block_size=DEFAULT_BLOCK_SIZE):
         super(WriteSame16Command, self).__init__()
-        assert (len(buffer) %  DEFAULT_BLOCK_SIZE)==0, "buffer length {0} is not a multiple of {1}".format(len(buffer), DEFAULT_BLOCK_SIZE)
+        assert (len(buffer) %  block_size)==0, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)
         self.logical_block_address = logical_block_address
         self.buffer = buffer
         self.number_of_blocks = number_of_blocks
-- 
2.43.0


From c32cbf380a03455a33b95d755ab6978d99bab94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:13 +0000
Subject: [PATCH 48/48] fix: the error of a failed host status gave the SCSI
 status as host status

---
 src/infi/asi/linux.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index 25e0a67..fe8ac79 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -256,11 +256,9 @@ class LinuxCommandExecuter(CommandExecuterBase):
             return (error, packet_id)
 
         if response_sgio.host_status != 0:
-            error = AsiSCSIError(("SCSI host status is not zero: %s" +
-                                  "(driver status: %s, host status: %s)") %
-                                 (prettify_status(response_sgio.status, SCSI_STATUS_CODES),
-                                  prettify_status(response_sgio.driver_status & 0x0f, DRIVER_STATUS_CODES),
-                                  prettify_status(response_sgio.host_status, HOST_STATUS_CODES)))
+            error = AsiSCSIError("SCSI host status is not zero: %s (driver status: %s)" %
+                                 (prettify_status(response_sgio.host_status, HOST_STATUS_CODES),
+                                  prettify_status(response_sgio.driver_status & 0x0f, DRIVER_STATUS_CODES)))
             return (error, packet_id)
 
         data = None
-- 
2.43.0

