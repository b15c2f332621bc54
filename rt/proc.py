"Running a function in a child process forked from this one."

import os
import pickle
import select
import signal
import sys
import time
import traceback


class ChildFailed(RuntimeError):
    pass


class ChildRaised(ValueError):
    "An exception in the function that was called."


def start(fn, *args):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            try:
                data = pickle.dumps(("ok", fn(*args)))
            except BaseException as e:
                data = pickle.dumps(("error", f"{type(e).__name__}: {e}", traceback.format_exc()))
            with os.fdopen(w, "wb") as fh:
                fh.write(data)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def collect(pid, r, timeout=120):
    "Result of the function, None if it did not end in time."
    data = b""
    end = time.monotonic() + timeout
    try:
        while True:
            ready, _, _ = select.select([r], [], [], max(0.0, end - time.monotonic()))
            if not ready:
                os.kill(pid, signal.SIGKILL)
                return None
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            data += chunk
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if not data:
        raise ChildFailed("child process died")
    out = pickle.loads(data)
    if out[0] == "error":
        raise ChildRaised(out[1] + "\n" + out[2])
    return (out[1],)


def call(fn, *args, timeout=120):
    return collect(*start(fn, *args), timeout=timeout)
