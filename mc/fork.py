"""Runs a function in a forked child, so that process-wide state (loguru handlers, class attributes) is fresh for it."""
import os
import pickle
import select
import signal
import sys
import time
import traceback

from mc.core import HarnessError, Violation


def isolated(f, *args, seconds=60, hang=None):
    """f(*args) in a child. Exceptions of f are raised here again. `hang`: message of the violation if it does not end."""
    sys.stdout.flush()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(seconds + 5)
            os.close(r)
            try:
                v = ("ok", f(*args))
            except Violation as ex:
                v = ("violation", str(ex), ex.key)
            except HarnessError:
                v = ("error", traceback.format_exc())
            except Exception as ex:
                v = ("exception", f"raised {type(ex).__name__}: {ex}\n" + traceback.format_exc()[-1500:])
            data = pickle.dumps(v)
            while data:
                data = data[os.write(w, data):]
        except BaseException:
            if not isinstance(sys.exc_info()[1], BrokenPipeError):
                traceback.print_exc(file=sys.__stderr__)
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf, end = b"", time.time() + seconds
    try:
        while True:
            left = end - time.time()
            ready = select.select([r], [], [], max(left, 0))[0] if left > 0 else []
            if not ready:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                if hang:
                    raise Violation(hang)
                raise HarnessError(f"child did not end within {seconds} s")
            d = os.read(r, 1 << 20)
            if not d:
                break
            buf += d
    except BaseException:
        try:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        except (ProcessLookupError, ChildProcessError):
            pass
        raise
    finally:
        os.close(r)
    status = os.waitpid(pid, 0)[1]
    if not buf:
        raise HarnessError(f"child ended without a result, status {status}")
    v = pickle.loads(buf)
    if v[0] == "ok":
        return v[1]
    if v[0] == "violation":
        raise Violation(v[1], v[2])
    if v[0] == "error":
        raise HarnessError(v[1])
    raise Violation(v[1])
