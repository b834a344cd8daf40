"""Observes and disturbs the external commands that the library executes.

Replaces subprocess.Popen (which run(), check_output(), call() etc. use) by a
subclass that records every command, its input and its output, and that can
delay a command, let it fail, or kill the process before or after it."""
import errno
import os
import re
import signal
import subprocess
import time

HEX40 = re.compile(r"(?<![0-9a-f])[0-9a-f]{40}(?![0-9a-f])")

_original = subprocess.Popen

READ_COMMANDS = {"show", "cat-file", "ls-tree", "rev-parse", "show-ref",
                 "for-each-ref", "fsck", "log", "rev-list", "var", "config",
                 "diff-tree", "ls-files", "status", "describe", "version",
                 "check-ref-format", "symbolic-ref", "count-objects"}
WRITE_COMMANDS = {"hash-object", "mktree", "update-ref", "fetch", "init",
                  "write-tree", "commit-tree", "unpack-objects", "gc",
                  "pack-refs", "fast-import", "commit", "add", "repack",
                  "prune", "push", "update-index", "tag", "branch"}


class Record:
    def __init__(self, index, argv):
        self.index, self.argv = index, argv
        self.command, self.args, self.git_dir = parse(argv)
        self.input = b""
        self.stdout = None
        self.returncode = None
        self.injected = None

    @property
    def is_git(self):
        return self.command is not None

    @property
    def is_write(self):
        return self.command in WRITE_COMMANDS

    @property
    def is_read(self):
        return self.command in READ_COMMANDS

    def ids_in(self):
        text = " ".join(self.args) + " " + (
            (self.input or b"").decode("utf8", "replace"))
        return HEX40.findall(text)

    def ids_out(self):
        return HEX40.findall((self.stdout or b"").decode("utf8", "replace"))

    def __repr__(self):
        return f"#{self.index} git {self.command} {' '.join(self.args)[:100]}"


def parse(argv):
    """(git sub-command, arguments, git-dir)"""
    if isinstance(argv, (str, bytes)):
        argv = ["sh", "-c", argv]
    argv = [os.fsdecode(a) for a in argv]
    if not argv or os.path.basename(argv[0]) != "git":
        return None, argv, None
    i, git_dir = 1, None
    while i < len(argv):
        a = argv[i]
        if a in ("--git-dir", "-C", "-c", "--work-tree", "--namespace"):
            if a == "--git-dir":
                git_dir = argv[i + 1]
            elif a == "-C":
                git_dir = os.path.join(argv[i + 1], ".git")
            i += 2
        elif a.startswith("--git-dir="):
            git_dir = a.split("=", 1)[1]
            i += 1
        elif a.startswith("-"):
            i += 1
        else:
            return a, argv[i + 1:], git_dir
    return None, argv, git_dir


def cut(out):
    """The first half of the lines, or of the text"""
    if not out:
        return out
    lines = out.splitlines(True)
    return out[:0].join(lines[:len(lines) // 2]) if len(lines) > 1 else out[:len(out) // 2]


class Spy:
    """Context manager. hook(record) is called before a git command is
    started, and returns None, "fail", "killed", "no-start", "fail-after", "partial",
    "nospace", "interrupt", "interrupt-after", "kill-before" or "kill-after", or a float (delay in seconds)"""
    def __init__(self, hook=None, after=None):
        self.records = []
        self.hook = hook
        self.after = after

    def git(self):
        return [r for r in self.records if r.is_git]

    def writes(self):
        return [r for r in self.records if r.is_write]

    def __enter__(self):
        spy = self

        class SpyPopen(_original):
            def __init__(self, args, *a, **kw):
                record = Record(len(spy.records), args)
                action = None
                if record.is_git:
                    spy.records.append(record)
                    if spy.hook:
                        action = spy.hook(record)
                self._rv_record = record
                self._rv_action = action
                record.injected = action
                if isinstance(action, float):
                    time.sleep(action)
                elif action == "kill-before":
                    os.kill(os.getpid(), signal.SIGKILL)
                elif action == "fail":
                    # (exit code 1 of some reading commands is an answer)
                    code = (128, 1, 255)[record.index % 3] if record.is_write else 128
                    args = ["sh", "-c", "cat >/dev/null; "
                            f"echo 'fatal: injected failure' >&2; exit {code}"]
                    if kw.get("stdin") is None:
                        kw = dict(kw, stdin=subprocess.DEVNULL)
                    kw.pop("shell", None)
                elif action == "interrupt":
                    raise KeyboardInterrupt("injected")
                elif action == "no-start":
                    raise OSError(errno.EAGAIN, "Resource temporarily unavailable (injected)")
                elif action == "killed":
                    # no output, no message
                    args = ["sh", "-c", "kill -9 $$"]
                    if kw.get("stdin") is None:
                        kw = dict(kw, stdin=subprocess.DEVNULL)
                    kw.pop("shell", None)
                elif action == "nospace":
                    # the command runs, but nothing can be written to files
                    args = ["sh", "-c", 'trap "" XFSZ; ulimit -f 0; exec "$@"', "sh"] + [
                        os.fsdecode(x) for x in args]
                # "fail-after": the command takes effect, but reports a failure
                # "partial": it is killed after a part of its output
                super().__init__(args, *a, **kw)

            def communicate(self, input=None, timeout=None):
                record = self._rv_record
                if input is not None:
                    record.input = (input if isinstance(input, bytes)
                                    else input.encode())
                out, err = super().communicate(input, timeout)
                if self._rv_action == "partial":
                    err = err[:0] if err is not None else None
                    out = cut(out)
                if isinstance(out, bytes):
                    record.stdout = out
                elif isinstance(out, str):
                    record.stdout = out.encode()
                self._rv_done()
                return out, err

            def poll(self):
                r = super().poll()
                if r is not None:
                    self._rv_done()
                    return self.returncode
                return r

            def wait(self, timeout=None):
                super().wait(timeout)
                self._rv_done()
                return self.returncode

            def _rv_done(self):
                record = self._rv_record
                if record.returncode is None and self.returncode is not None:
                    record.returncode = self.returncode
                    if self._rv_action == "kill-after":
                        os.kill(os.getpid(), signal.SIGKILL)
                    if spy.after and record.is_git:
                        spy.after(record)
                    if self._rv_action == "interrupt-after":
                        raise KeyboardInterrupt("injected")
                if self._rv_action == "fail-after":
                    self.returncode = 128
                elif self._rv_action == "partial":
                    self.returncode = -9

        self.previous = subprocess.Popen
        subprocess.Popen = SpyPopen
        return self

    def __exit__(self, *args):
        subprocess.Popen = self.previous
