"""Overlapped operations of the simulated kernel32: how they start, in which order they complete, and which fail, is chosen."""
from .core import require
from .fakewin import win32, kernel32, ERROR_IO_PENDING, WAIT_TIMEOUT, IOCTL_SCSI_PASS_THROUGH_DIRECT, SptRequest


# what Windows says of requests: gone devices, aborted, busy, refused, timed out
ERRORS = [1, 2, 5, 6, 19, 21, 22, 23, 31, 50, 55, 87, 121, 122, 170, 234, 433, 483, 995, 998, 1110, 1117, 1167, 1235, 1450, 1460, 2404]


class Operation(object):
    def __init__(self, serial, event):
        self.serial = serial
        self.event = event
        self.done = False
        self.error = 0
        self.count = 0x80000000 + serial if serial % 5 == 3 else serial * 1000 + 7
        self.on_done = None
        self.fetched = 0


class AsyncKernel(object):
    def __init__(self, chooser, start=("pending",), completion=("ok",), together=True, errors=None):
        self.chooser = chooser
        self.start = list(start)
        self.completion = list(completion)
        self.together = together
        self.errors = errors
        self.operations = {}
        self.by_id = {}
        self.order = []
        self.handles = 0x40
        self.timed_out = False

    def on_create_file(self, path, access, share, disposition, flags):
        require(flags & 0x40000000, "an asynchronous file opened without the overlapped flag")
        self.handles += 4
        return self.handles

    def on_close(self, handle):
        return 0

    def on_ioctl(self, handle, code, in_address, in_size, out_address, out_size, event):
        require(event is not None and event in kernel32.events, "overlapped operation without an event")
        require(event not in self.operations or self.operations[event].fetched, "an event is used for two operations")
        operation = Operation(len(self.by_id) + 1, event)
        self.by_id[operation.serial] = operation
        if code == IOCTL_SCSI_PASS_THROUGH_DIRECT:
            request = SptRequest(in_address, in_size)
            operation.on_done = lambda: self.complete_scsi(operation, request)
            operation.request = request
        else:
            operation.code = code
        mode = self.chooser.choose(self.start, "start")
        operation.mode = mode
        if mode == "refused":
            operation.error = self.error(5 + operation.serial)
            operation.done = True
            return operation.error
        self.operations[event] = operation
        if mode == "at once":
            self.finish(operation)
            return 0
        return ERROR_IO_PENDING

    def error(self, default):
        return self.chooser.choose(self.errors, "error") if self.errors else default

    def complete_scsi(self, operation, request):
        data = bytes((request.cdb[1] * 16 + i) & 255 for i in range(request.DataTransferLength))
        request.complete(data=data)

    def finish(self, operation):
        how = self.chooser.choose(self.completion, "completion")
        if how == "failed":
            operation.error = self.error(20 + operation.serial)
        operation.done = True
        self.order.append(operation.serial)
        if operation.on_done and not operation.error:
            operation.on_done()

    def on_wait(self, events):
        require(len(set(events)) == len(events) and events, "waiting for %r" % (events,))
        for event in events:
            require(event in self.operations, "waiting for an event of no operation")
            require(event in kernel32.events, "waiting for an event that was closed")
            require(not self.operations[event].fetched, "waiting for an operation whose result was already taken")
        pending = [op for op in self.operations.values() if not op.done]
        pending.sort(key=lambda op: op.serial)
        ready = [event for event in events if self.operations[event].done]
        if not ready or (pending and self.chooser.choose(2, "more complete")):
            waited = [op for op in pending if op.event in events] or pending
            if not waited:
                kernel32.last_error = 0
                return WAIT_TIMEOUT          # waiting although nothing is in flight
            options = list(range(len(waited)))
            if self.together and len(waited) > 1:
                options.append("all")
            choice = self.chooser.choose(options, "complete")
            for op in (waited if choice == "all" else [waited[choice]]):
                self.finish(op)
            ready = [event for event in events if self.operations[event].done]
        if not ready:
            kernel32.last_error = 0
            return WAIT_TIMEOUT              # waiting for something that is not in flight
        return events.index(ready[0])

    def on_result(self, event, wait):
        operation = self.operations.get(event)
        require(operation is not None, "result of an unknown operation requested")
        require(event in kernel32.events, "the event of an operation was closed before its result was taken")
        if not operation.done:
            require(wait, "the result of an unfinished operation was requested without waiting")
            self.finish(operation)
        operation.fetched += 1
        return operation.error, operation.count


def wait_for(*commands):
    return win32.Win32AsyncReactor().wait_for(*commands)
