"""Run a function in a forked child and collect its result (the child may abort or crash)."""
import os
import pickle
import select
import signal
import time


def forked(f, timeout=20):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open('/dev/null', os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            try:
                import resource
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            except Exception:
                pass
            signal.alarm(timeout)
            try:
                b = pickle.dumps(('ok', f()))
            except Exception as e:
                b = pickle.dumps(('exc', repr(e)))
            k = 0
            while k < len(b):
                k += os.write(w, b[k:])
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        c = os.read(r, 1 << 16)
        if not c:
            break
        data += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return ('died', os.WTERMSIG(st))
    try:
        return pickle.loads(data)
    except Exception:
        return ('died', -1)


def batch(fs, timeout=20):
    """results of the functions fs, run in order in forked children; a child that dies costs only the function it was in"""
    out = []
    while len(out) < len(fs):
        start = len(out)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                dn = os.open('/dev/null', os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                import resource
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                for f in fs[start:]:
                    signal.alarm(timeout)
                    try:
                        b = pickle.dumps(('ok', f()))
                    except Exception as e:
                        b = pickle.dumps(('exc', repr(e)))
                    b = len(b).to_bytes(4, 'little') + b
                    k = 0
                    while k < len(b):
                        k += os.write(w, b[k:])
            finally:
                os._exit(0)
        os.close(w)
        data = b''
        while True:
            c = os.read(r, 1 << 16)
            if not c:
                break
            data += c
        os.close(r)
        _, st = os.waitpid(pid, 0)
        k = 0
        while k + 4 <= len(data):
            n = int.from_bytes(data[k:k + 4], 'little')
            if k + 4 + n > len(data):
                break
            out.append(pickle.loads(data[k + 4:k + 4 + n]))
            k += 4 + n
        if len(out) < len(fs):
            out.append(('died', os.WTERMSIG(st) if os.WIFSIGNALED(st) else -1))
    return out
