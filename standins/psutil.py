"""
Stand-in for psutil with a programmable process table.

PROCS maps pid -> callable returning the resident size (or raising); a pid
which is not there reads as a process with a constant size.  MEM_PERCENT is
what phymem_usage() reports.
"""
import collections

MEM_PERCENT = 10.0
PROCS = {}
CALLS = []


class Error(Exception):
    pass


class AccessDenied(Error):
    def __init__(self, pid=None, name=None, msg=None):
        Error.__init__(self, msg or 'access denied (pid=%s)' % pid)
        self.pid = pid


class NoSuchProcess(Error):
    def __init__(self, pid=None, name=None, msg=None):
        Error.__init__(self, msg or 'no such process (pid=%s)' % pid)
        self.pid = pid


_usage = collections.namedtuple('usage', 'total used free percent')
_meminfo = collections.namedtuple('meminfo', 'rss vms')


def phymem_usage():
    return _usage(100, MEM_PERCENT, 100 - MEM_PERCENT, MEM_PERCENT)


virtual_memory = phymem_usage


class Process(object):
    def __init__(self, pid):
        self.pid = pid

    def get_memory_info(self):
        CALLS.append(self.pid)
        rss = PROCS[self.pid]() if self.pid in PROCS else 1000000
        return _meminfo(rss, rss)

    memory_info = get_memory_info

    def __eq__(self, other):
        return isinstance(other, Process) and self.pid == other.pid

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.pid)
