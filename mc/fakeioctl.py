"""fcntl.ioctl (and the libc the AIX backend loads) under control of the checks.

Imported before the code under test.  ioctl(fd, request, arg) on the descriptor of a simulated device is handed to that
device; the argument has the semantics of the real call: an integer is a raw pointer, an immutable buffer is copied (a
changed copy is returned), a writable buffer is changed in place.
"""
import ctypes
import fcntl
import os

_real_ioctl = fcntl.ioctl
_real_cdll = ctypes.CDLL
FIRST_FD = 100000           # no real descriptor
_devices = {}
_next = [FIRST_FD]


def new_fd(device):
    _next[0] += 1
    _devices.pop(_next[0] - 64, None)       # so old a device is gone
    _devices[_next[0]] = device
    return _next[0]


def fileno(fd):
    return fd if isinstance(fd, int) else fd.fileno()


def handle(fd, request, address):
    """ the kernel side: returns an errno or 0 """
    device = _devices.get(fd)
    if device is None:
        return 9
    return device.on_ioctl(request, address)


def fake_ioctl(fd, request, arg=0, mutate_flag=True):
    fd = fileno(fd)
    if fd < FIRST_FD:
        return _real_ioctl(fd, request, arg, mutate_flag)
    result = 0
    if isinstance(arg, int):
        errno = handle(fd, request, arg)
    else:
        view = memoryview(arg)
        size = view.nbytes
        copy = (ctypes.c_char * (size + 1))()
        ctypes.memmove(copy, bytes(view), size)
        errno = handle(fd, request, ctypes.addressof(copy))
        if view.readonly or not mutate_flag:
            result = ctypes.string_at(copy, size)
        else:
            # also after an error: the kernel copies the structure back
            ctypes.memmove((ctypes.c_char * size).from_buffer(arg), copy, size)
    if errno:
        raise OSError(errno, os.strerror(errno))
    return result


class AixIoctl(object):
    """ ioctl as loaded from the 64-bit libc: returns -1 and sets errno """
    restype = None
    argtypes = None
    errcheck = None

    def __call__(self, fd, request, arg):
        address = arg if isinstance(arg, int) else ctypes.cast(arg, ctypes.c_void_p).value
        errno = handle(fileno(fd), request, address)
        result = 0
        if errno:
            ctypes.set_errno(errno)
            result = -1
        if self.errcheck:
            return self.errcheck(result, self, (fd, request, arg))
        return result


class AixLibc(object):
    def __init__(self):
        self.ioctl = AixIoctl()


aix_libc = [False]
AIX_LIBC = "libc.a(shr_64.o)"


class FakeCDLL(_real_cdll):
    def __new__(cls, name=None, *args, **kwargs):
        if name == AIX_LIBC:
            if not aix_libc[0]:
                raise OSError("no %s here" % name)
            return AixLibc()
        return _real_cdll(name, *args, **kwargs)

    def __init__(self, *args, **kwargs):
        pass


fcntl.ioctl = fake_ioctl
ctypes.CDLL = FakeCDLL
