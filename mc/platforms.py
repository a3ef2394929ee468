"""Every synchronous platform backend, with its device and with how the device says what happened to a command."""
from . import backends
from infi.asi.errors import AsiSCSIError, AsiReservationConflictError


class SgFile(backends.SgFile):
    """ the system call that fails is the one that submits (C03 has the others) """

    def write(self, raw):
        answer = self.answer(None)
        if isinstance(answer, int):
            self.submissions.append(backends.from_sg(backends.SgRequest(raw)))
            raise OSError(answer, "injected")
        return backends.SgFile.write(self, raw)


class Platform(object):
    def __init__(self, name, device, executer, check, conflict, busy, fault, conflict_class=AsiSCSIError):
        self.name, self.device, self.executer = name, device, executer
        self.check, self.conflict, self.busy, self.fault = check, conflict, busy, fault
        self.conflict_class = conflict_class


SG = dict(check={"status": 2, "driver": 8}, conflict={"status": 0x18}, busy={"status": 8}, fault=5,
          conflict_class=AsiReservationConflictError)
AIX = dict(check={"validity": 1, "bus_status": 2, "errno": 5}, conflict={"validity": 1, "bus_status": 0x18, "errno": 5},
           busy={"validity": 1, "bus_status": 8, "errno": 5}, fault=5)
USCSI = dict(check={"status": 2}, conflict={"status": 0x18}, busy={"status": 8}, fault=5)
PLATFORMS = [Platform("linux sg", SgFile, backends.linux_sg, **SG),
             Platform("linux ioctl", backends.SgIoctlFile, backends.linux_ioctl, **SG),
             Platform("solaris", backends.UscsiFile, backends.solaris, **USCSI),
             Platform("aix", backends.PassthruFile, backends.aix, **AIX),
             Platform("windows", backends.WinPolicy, backends.windows, **dict(USCSI, fault=1117))]
