"""The simulated storage: builds and drives the interposed I/O layer (iofault.c)."""
import ctypes
import errno
import hashlib
import os
import subprocess
import tempfile

from . import base

HERE = os.path.dirname(os.path.abspath(__file__))
KINDS = ['open', 'read', 'write', 'close', 'stat', 'fstat', 'lseek', 'rename', 'unlink', 'fsync', 'truncate', 'other']
ACTIONS = ['errno', 'eintr', 'short', 'kill_before', 'kill_after', 'torn_kill', 'lost_close', 'partial_errno']
DEAD = 77


def build(where):
    """compiles the layer into a directory of this run"""
    out = os.path.join(where, 'iofault.so')
    r = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-D_LARGEFILE64_SOURCE', '-o', out, os.path.join(HERE, 'iofault.c'),
                        '-ldl'], capture_output=True, text=True)
    if r.returncode:
        raise base.HarnessError('gcc: ' + r.stderr[-2000:])
    return out


_lib = []


def lib():
    if not _lib:
        l = ctypes.CDLL(None)
        l.iof_arm.argtypes = [ctypes.c_char_p]
        _lib.append(l)
    return _lib[0]


class Storage(object):
    """while active, I/O on files under `prefix` is simulated according to `script`: [[event, action, argument], ...]"""

    def __init__(self, prefix, script=()):
        self.prefix = prefix
        self.script = list(script)

    def __enter__(self):
        l = lib()
        l.iof_clear()
        for at, act, arg in self.script:
            a = arg
            if isinstance(arg, str):
                a = getattr(errno, arg)
            l.iof_add(at, ACTIONS.index(act), int(a))
        l.iof_arm(self.prefix.encode())
        return self

    def __exit__(self, *a):
        l = lib()
        l.iof_disarm()
        n = min(l.iof_count(), 20000)
        self.events = [[KINDS[l.iof_kind(i)], l.iof_wr(i)] for i in range(n)]
        self.fired = [i for i in range(len(self.script)) if l.iof_fired(i)]
        self.open_files = l.iof_open_files()
