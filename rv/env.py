"""Sandboxed environment of the checks.

All state that the code under test can touch (HOME, git configuration, caches,
temporary files, repositories) lives below one scratch directory that is
created here and removed at exit.
"""
import os
import shutil
import sys
import tempfile

REPO = os.environ.get("RV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, "evidence")

_scratch = None
_owner = None


def scratch_base() -> str:
    """A file system in memory, if there is a large one: the checks create very
    many small files"""
    try:
        st = os.statvfs("/dev/shm")
        if st.f_bavail * st.f_frsize > 6 << 30 and os.access("/dev/shm", os.W_OK | os.X_OK):
            return "/dev/shm"
    except OSError:
        pass
    return "/tmp"


def setup() -> str:
    """Create the scratch directory and point the process environment to it"""
    global _scratch, _owner
    if _scratch is not None:
        return _scratch
    base = os.environ.get("RV_TMP") or scratch_base()
    _scratch = os.path.realpath(tempfile.mkdtemp(prefix="rv-", dir=base))
    _owner = os.getpid()
    for sub in ("home", "tmp", "cache", "work"):
        os.mkdir(os.path.join(_scratch, sub))
    for name in list(os.environ):
        if name.startswith("GIT_"):
            del os.environ[name]
    home = os.path.join(_scratch, "home")
    with open(os.path.join(home, ".gitconfig"), "w") as f:
        f.write("[user]\n\tname = rv\n\temail = rv@example.com\n"
                "[init]\n\tdefaultBranch = main\n[gc]\n\tauto = 0\n"
                "[safe]\n\tdirectory = *\n")
    os.environ.update(
        HOME=home,
        XDG_CACHE_HOME=os.path.join(_scratch, "cache"),
        XDG_CONFIG_HOME=os.path.join(home, ".config"),
        TMPDIR=os.path.join(_scratch, "tmp"),
        GIT_CONFIG_NOSYSTEM="1",
        GIT_TERMINAL_PROMPT="0",
        GIT_CONFIG_GLOBAL=os.path.join(home, ".gitconfig"),
        LANG="C.UTF-8",
        PYTHONDONTWRITEBYTECODE="1")
    for name in ("LC_ALL", "LC_CTYPE", "LANGUAGE", "XDG_DATA_HOME"):
        os.environ.pop(name, None)
    tempfile.tempdir = os.environ["TMPDIR"]
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    return _scratch


def scratch() -> str:
    return setup()


def cleanup():
    global _scratch
    if _scratch is not None and _owner == os.getpid():
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None
