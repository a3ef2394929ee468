"""Simulated device files below a magic path: os.open / os.close / os.read / os.write / select.select, and the platform
name.  Imported before the code under test.  Everything else is passed to the real functions."""
import os
import select

from . import fakeioctl
from .core import require
import infi.os_info

MAGIC = "/dev/verif-"
_open, _close, _read, _write, _select = os.open, os.close, os.read, os.write, select.select
FIRST_FD = fakeioctl.FIRST_FD + 500000


class System(object):
    """ devices: path -> factory() of a device with read/write (sg) or on_ioctl; records opens and closes """

    def __init__(self):
        self.next_fd = FIRST_FD
        self.files = {}
        self.opened = []            # (path, flags, fd)
        self.closed = []
        self.factories = {}
        self.open_error = {}
        self.close_error = None
        self.platform = "linux-ubuntu-xenial-x64"
        fakeioctl._devices.clear()

    def open(self, path, flags):
        if path in self.open_error:
            raise OSError(self.open_error[path], os.strerror(self.open_error[path]), path)
        require(path in self.factories, "open of %r" % path)
        fd = self.next_fd
        self.next_fd += 1
        device = self.factories[path]()
        self.files[fd] = device
        if hasattr(device, "on_ioctl"):
            fakeioctl._devices[fd] = device
        self.opened.append((path, flags, fd))
        return fd

    def close(self, fd):
        self.closed.append(fd)
        require(fd in self.files, "close of descriptor %d, which is not open" % fd)
        del self.files[fd]
        fakeioctl._devices.pop(fd, None)
        if self.close_error:
            raise OSError(self.close_error, os.strerror(self.close_error))

    def device(self, fd):
        if fd not in self.files:
            raise OSError(9, os.strerror(9))
        return self.files[fd]


system = None


def is_fake(fd):
    return isinstance(fd, int) and fd >= FIRST_FD


def fake_open(path, flags, *args, **kwargs):
    if system is not None and isinstance(path, str) and path.startswith(MAGIC):
        return system.open(path, flags)
    return _open(path, flags, *args, **kwargs)


def fake_close(fd):
    return system.close(fd) if is_fake(fd) else _close(fd)


def fake_read(fd, size):
    return system.device(fd).read(size) if is_fake(fd) else _read(fd, size)


def fake_write(fd, data):
    return system.device(fd).write(data) if is_fake(fd) else _write(fd, data)


def fake_select(readers, writers, errors, timeout=None):
    if any(is_fake(fd) for fd in list(readers) + list(writers)):
        for fd in list(readers) + list(writers):
            system.device(fd)
        return list(readers), list(writers), []
    return _select(readers, writers, errors, timeout)


os.open, os.close, os.read, os.write, select.select = fake_open, fake_close, fake_read, fake_write, fake_select
_platform = infi.os_info.get_platform_string
infi.os_info.get_platform_string = lambda *args: system.platform if system is not None else _platform(*args)
