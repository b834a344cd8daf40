"""Run functions in forked processes ("another session of the user")"""
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback

from .runner import Inconclusive, Violation


class Child:
    def __init__(self, fn, *args, **kwargs):
        r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.close(r)
                try:
                    result = ("ok", fn(*args, **kwargs))
                except Violation as e:
                    result = ("violation", (e.message, e.details))
                except Inconclusive as e:
                    result = ("inconclusive", str(e))
                except BaseException as e:
                    result = ("error", (type(e).__name__, str(e),
                                        traceback.format_exc()[-3000:]))
                data = pickle.dumps(result)
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        self.fd = r
        self.data = b""
        self.status = None

    def wait(self, timeout=120):
        """returns (kind, value); kind is "ok", "violation", "error" or
        "died" (value: wait status)"""
        end = time.monotonic() + timeout
        while True:
            left = end - time.monotonic()
            if left <= 0:
                self.kill()
                raise Inconclusive("child process did not finish in time")
            ready, _, _ = select.select([self.fd], [], [], left)
            if ready:
                chunk = os.read(self.fd, 1 << 20)
                if not chunk:
                    break
                self.data += chunk
        os.close(self.fd)
        _, self.status = os.waitpid(self.pid, 0)
        if not self.data:
            return "died", self.status
        return pickle.loads(self.data)

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        try:
            os.close(self.fd)
        except OSError:
            pass


def unwrap(kind, value, what):
    if kind == "ok":
        return value
    if kind == "violation":
        raise Violation(value[0], **value[1])
    if kind == "inconclusive":
        raise Inconclusive(value)
    if kind == "error":
        raise Violation(f"{what}: unexpected {value[0]}: {value[1]}"[:1500],
                        traceback=value[2])
    raise Inconclusive(f"{what}: process died with status {value}")


def session(fn, *args, what="session", timeout=120, **kwargs):
    """Run fn in a forked process and return its result. An exception that
    the function raises is a violation."""
    return unwrap(*Child(fn, *args, **kwargs).wait(timeout), what)


def try_session(fn, *args, timeout=120, **kwargs):
    return Child(fn, *args, **kwargs).wait(timeout)
