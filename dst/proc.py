"""Forked children with a result pipe and a time limit."""
import os
import pickle
import select
import signal
import struct
import time
import traceback


class Crash(Exception):
    pass


def library_error(text):
    """What the library raised, if it was not the harness, by a traceback"""
    files = [ln.split('"')[1] for ln in text.splitlines()
             if ln.lstrip().startswith('File "')]
    for f in reversed(files):
        if '/sparse_ir/' in f:
            return text.strip().splitlines()[-1][:300]
        if '/dst/' in f:
            return None
    return None


def run(fn, timeout=60.0):
    """Call ``fn()`` in a forked child.

    Returns ('ok', value), ('err', traceback text), ('died', status) or
    ('hang', None).
    """
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ('ok', fn())
            except BaseException:                       # noqa: B902
                out = ('err', traceback.format_exc())
            try:
                data = pickle.dumps(out, protocol=4)
            except BaseException:                       # noqa: B902
                data = pickle.dumps(('err', traceback.format_exc()), protocol=4)
            data = struct.pack('<Q', len(data)) + data
            view = memoryview(data)
            while view:
                n = os.write(w, view)
                view = view[n:]
        except BaseException:                           # noqa: B902
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    end = time.monotonic() + timeout
    hang = False
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                hang = True
                break
            rd, _, _ = select.select([r], [], [], left)
            if not rd:
                hang = True
                break
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            buf += chunk
            if len(buf) >= 8 and len(buf) - 8 >= struct.unpack('<Q', buf[:8])[0]:
                break
    finally:
        os.close(r)
    if hang:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
        return ('hang', None)
    _, status = os.waitpid(pid, 0)
    if len(buf) < 8 or len(buf) - 8 < struct.unpack('<Q', buf[:8])[0]:
        return ('died', status)
    return pickle.loads(bytes(buf[8:]))
