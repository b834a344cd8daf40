"""C16: no side effects besides the metadata"""
import gc
import hashlib
import locale
import logging
import os
import random
import resource
import signal
import socket
import subprocess
import sys
import tempfile
import threading
import uuid
from pathlib import Path

from .. import faults, gen, lib, model, store
from ..model import posix
from ..proc import session
from ..runner import check
from ..spy import Spy
from ..world import World

LEVEL = "exploration"
RULE = ("Random histories (modify, save, partial save, flush, copy, failing saves) run on repositories "
        "with user content: commits, branches, tags, notes, staged and unstaged "
        "changes, untracked and ignored files, hooks, configuration, packed refs. Before and after "
        "it, a byte snapshot of the work tree and of .git without the object store and the "
        "metadata references is taken, all older objects must still exist, and the process is "
        "checked for changed working directory, environment, umask, signal handlers, open "
        "files, children, leftover temporary files, and output. Reading histories "
        "(load, look up, enumerate, compare, purge, copy elsewhere) must leave the complete "
        "repository byte-identical. Non-trivial: distinct snapshots.")
ASSUMPTIONS = ["The lock file of the backend in .git, and reflogs of the metadata references "
               "are no side effects"]
REQUIRED = {"write_histories": 16, "read_histories": 24, "files_compared": 2000,
            "process_states": 40, "failed_writes": 8}

METADATA_REFS = ("refs/datalad/dataset-tree-version-list", "refs/datalad/dataset-uuid-set",
                 "refs/datalad/object-references-2.0", "refs/datalad/object-references/")
LOCK = "datalad-metalad-write.lock"


def cases(tier, seed):
    n = {"quick": 24, "thorough": 500}[tier]
    return [{"seed": f"{seed}/{i}", "hostile": i % 4 == 3, "packed": i % 3 == 0,
             "config": i % len(gen.HOSTILE_GITCONFIG)} for i in range(n)]


def run(*args, cwd, input=None):
    subprocess.run(args, cwd=cwd, check=True, input=input,
                   stdin=None if input else subprocess.DEVNULL,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def user_repository(ctx, rng, case):
    realm = store.init(ctx.path("repo"))
    write = lambda name, text: (
        os.makedirs(os.path.dirname(os.path.join(realm, name)) or realm, exist_ok=True),
        open(os.path.join(realm, name), "w").write(text))
    write("README.md", "one\n")
    write("src/a.py", "a = 1\n")
    write("src/ä b.txt", "x\r\ny\n")
    write(".gitignore", "*.log\n")
    write(".gitattributes", "* text=auto\n*.txt filter=none\n")
    git = lambda *a, **k: run("git", *a, cwd=realm, **k)
    git("add", ".")
    git("commit", "-q", "-m", "first")
    git("tag", "-a", "v1", "-m", "tag")
    git("branch", "datalad/x")
    git("branch", "datalad-uuid-set")
    git("update-ref", "refs/datalad/other", "HEAD")
    git("update-ref", "refs/datalad/dataset-uuid-set-backup", "HEAD")
    write("src/a.py", "a = 2\n")
    git("commit", "-q", "-a", "-m", "second")
    git("notes", "add", "-m", "note")
    git("config", "user.extra", "value")
    git("config", "remote.origin.url", "https://example.com/x")
    if case["packed"]:
        git("pack-refs", "--all")
        git("gc", "-q")
    git("checkout", "-q", "-b", "work")
    # dirty state
    write("src/a.py", "a = 3\n")
    write("staged.txt", "staged\n")
    git("add", "staged.txt")
    write("README.md", "unstaged\n")
    write("untracked/file", "u\n")
    write("x.log", "ignored\n")
    os.makedirs(os.path.join(realm, ".git", "hooks"), exist_ok=True)
    for hook in ("reference-transaction", "post-update", "pre-commit", "post-index-change"):
        p = os.path.join(realm, ".git", "hooks", hook)
        if hook == "reference-transaction":
            # records which references are touched
            text = f'#!/bin/sh\n[ "$1" = committed ] && cat >>"{ctx.path("touched")}"\nexit 0\n'
        else:
            text = f'#!/bin/sh\necho "$0" >>"{ctx.path("hooks")}"\n'
        open(p, "w").write(text)
        os.chmod(p, 0o755)
    return realm


def snapshot(realm, everything=False):
    out = {}
    for base, dirs, files in os.walk(realm):
        rel = os.path.relpath(base, realm)
        if not everything and (rel == ".git/objects" or any(
                (rel + "/").startswith(".git/" + p) for p in METADATA_REFS)
                or rel.startswith(".git/logs/refs/datalad")):
            dirs[:] = []
            continue
        if everything or rel not in (".git", ".git/refs/datalad", ".git/logs/refs",
                                     ".git/logs"):
            st = os.stat(base)
            out[rel] = ("dir", st.st_mode,
                        st.st_mtime_ns if not rel.startswith(".git") else 0)
        for f in files:
            p = os.path.join(base, f)
            name = os.path.relpath(p, realm)
            if not everything and (name == ".git/" + LOCK or any(
                    name == ".git/" + r for r in METADATA_REFS)):
                continue
            st = os.stat(p)
            with open(p, "rb") as fd:
                out[name] = (hashlib.sha1(fd.read()).hexdigest(), st.st_mode,
                             st.st_mtime_ns)
    return out


def same(ctx, before, after, what):
    for k in before:
        check(k in after, f"{what}: {k} disappeared")
        check(before[k] == after[k], f"{what}: {k} was changed")
    for k in after:
        check(k in before, f"{what}: {k} was created")
    ctx.count("files_compared", len(before))
    ctx.saw(model.digest(sorted(before.items())))


def process_state():
    mask = os.umask(0)
    os.umask(mask)
    handlers = [str(signal.getsignal(s)) for s in
                (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD, signal.SIGPIPE,
                 signal.SIGALRM)]
    gc.collect()
    return {"cwd": os.getcwd(), "content of the working directory": (os.listdir(), os.stat(".").st_mtime_ns),
            "environment": dict(os.environ), "umask": mask,
            "signal handlers": handlers, "locale": str(locale.setlocale(locale.LC_ALL)),
            "temporary directory": sorted(os.listdir(tempfile.gettempdir())),
            "home": (sorted(os.listdir(os.environ["HOME"])), os.stat(os.environ["HOME"]).st_mtime_ns),
            "recursion limit": sys.getrecursionlimit(), "path": list(sys.path),
            "open files": len(os.listdir("/proc/self/fd")),
            "children": children(), "threads": threading.active_count(),
            "random generator": hash(random.getstate()),
            "temporary base": tempfile.gettempdir(), "socket timeout": socket.getdefaulttimeout(),
            "logging": [logging.root.level, len(logging.root.handlers), logging.root.manager.disable],
            "hooks": [str(sys.excepthook), str(sys.displayhook), str(threading.excepthook)],
            "limits": [resource.getrlimit(i) for i in (resource.RLIMIT_NOFILE, resource.RLIMIT_CORE,
                                                       resource.RLIMIT_FSIZE, resource.RLIMIT_AS)],
            "priority": os.getpriority(os.PRIO_PROCESS, 0),
            "signal mask": sorted(map(str, signal.pthread_sigmask(signal.SIG_BLOCK, [])))}


def children():
    try:
        pid, status = os.waitpid(-1, os.WNOHANG)
        return "left" if pid == 0 else "zombie"
    except ChildProcessError:
        return "none"


def guarded(fn, tmp, *args):
    """Run in a session, with monitors of the process state"""
    os.mkdir(tmp)
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    out = os.path.join(tmp, "..", "output")
    fd = os.open(out, os.O_CREAT | os.O_TRUNC | os.O_RDWR, 0o600)
    os.dup2(fd, 1)
    os.close(fd)
    r, w = os.pipe()
    os.write(w, b"user input")
    os.dup2(r, 0)
    # (files that exist for a short time change the time of the directory)
    os.mkdir(tmp + "-cwd")
    os.chdir(tmp + "-cwd")
    before = process_state()
    result = fn(*args)
    after = process_state()
    for k in before:
        check(before[k] == after[k],
              f"{k} changed from {str(before[k])[:300]} to {str(after[k])[:300]}")
    sys.stdout.flush()
    check(os.fstat(1).st_size == 0,
          f"standard output was written: {open(out).read()[:300]}")
    check(os.read(0, 100) == b"user input", "standard input was consumed")
    return result


def write_history(realm, other, seed, hostile, ctx, fail):
    rng = gen.rng_for("c16 write", seed)
    world = World(realm, rng, ctx, hostile)
    tvl, us = lib.get_top_level_metadata_objects("git", realm)
    for o, new in ((world.n_tvl, tvl), (world.n_us, us)):
        check(new is None, "content")
    world.seed_store()
    failed = 0
    for i in range(20):
        op = world.step()
        if fail and rng.random() < 0.25:
            node, obj = world.pick()
            k = rng.randint(0, 6)
            spy = Spy(lambda r: "fail" if r.is_write and r.index >= k else None)
            with spy:
                try:
                    obj.write_out(realm)
                    node.mark_saved()
                except RuntimeError:
                    failed += 1
            break
    if not failed:
        world.final()
        world.us.deepcopy(new_destination=other)
    lib.flush_object_references(Path(realm))
    with lib.locked_backend(Path(realm)):
        pass
    return failed, ctx.counters


def read_history(realm, other, seed):
    rng = gen.rng_for("c16 read", seed)
    tvl, us = lib.get_top_level_metadata_objects("git", realm)
    a, b = lib.get_top_level_metadata_objects("git", Path(realm))
    n = 0
    if tvl is not None:
        model.dump_list(tvl)
        keys = list(tvl.versions_and_prefix_paths())
        list(tvl.versions())
        for v, p in keys[:4]:
            ts, _, e = tvl.get_versioned_element(v, p)
            model.dump_element(e)
            e.is_saved_on(realm)
            if isinstance(e, lib.DatasetTree):
                for path, mrr in e.dataset_paths:
                    check(path in e, "path")
                    mrr.is_saved_on(realm)
                list(e.get_paths_recursive(True))
                e.purge()
            list(tvl.get_versioned_elements(v))
            n += 1
        list(tvl.versioned_elements)
        tvl.is_saved_on(realm)
        tvl.write_out(realm)
        tvl.purge()
        tvl.ensure_mapped()
        if rng.random() < 0.5:
            tvl.deepcopy(new_destination=other)
    if us is not None:
        model.dump_uuid_set(us)
        for i in list(us.uuids()):
            us.get_version_list(i)
            us.unget_version_list(i)
        us.write_out()
        us.purge()
    for _ in range(3):
        path = rng.choice(["", "a/b"])
        lib.get_top_nodes_and_metadata_root_record(
            "git", realm, uuid.uuid4(), "v", lib.P(""), lib.P(path),
            uuid.uuid4(), "w")
    return n


def run_case(case, ctx):
    rng = gen.rng_for("c16", case["seed"])
    home = ctx.path("home")
    os.mkdir(home)
    with open(os.environ["GIT_CONFIG_GLOBAL"]) as f:
        base = f.read()
    os.environ.update(HOME=home, XDG_CONFIG_HOME=home, GIT_CONFIG_GLOBAL=home + "/.gitconfig")
    with open(home + "/.gitconfig", "w") as f:
        f.write(base)
    realm = user_repository(ctx, rng, case)
    with open(home + "/.gitconfig", "a") as f:
        f.write(gen.HOSTILE_GITCONFIG[case["config"]])
    other = store.init(ctx.path("other"))
    for name in ("touched", "hooks"):
        if os.path.exists(ctx.path(name)):
            os.unlink(ctx.path(name))
    n = 0

    def reading():
        nonlocal n
        n += 1
        if os.path.exists(ctx.path("touched")):
            os.unlink(ctx.path("touched"))
        before = snapshot(realm, True)
        session(guarded, read_history, ctx.path(f"tmp{n}"), realm, other,
                f"{case['seed']}/{n}")
        same(ctx, before, snapshot(realm, True), "reading")
        check(not os.path.exists(ctx.path("touched")), "reading updated references")
        ctx.count("read_histories")
        ctx.count("process_states")
    # an empty store, and a directory that is no repository
    reading()
    plain = ctx.path("plain")
    os.mkdir(plain)
    check(session(guarded, lib.get_top_level_metadata_objects, ctx.path("tmpx"), "git",
                  plain) == (None, None), "plain directory has metadata")
    check(os.listdir(plain) == [], "reading created files in a plain directory")
    for fail in (False, True) if rng.random() < 0.6 else (True, False):
        objects = store.all_objects(realm)
        n += 1
        for ref in store.refs(realm):
            if ref in METADATA_REFS:
                store.git(realm, "update-ref", "-d", ref)
        before = snapshot(realm)
        refs = store.refs(realm)
        if os.path.exists(ctx.path("touched")):
            os.unlink(ctx.path("touched"))
        failed, counters = session(
            guarded, write_history, ctx.path(f"tmp{n}"), realm, other,
            f"{case['seed']}/{n}", case["hostile"], ctx, fail)
        same(ctx, before, snapshot(realm), "writing")
        after = store.refs(realm)
        for r in refs:
            check(after.get(r) == refs[r], f"reference {r} was changed")
        for r in after:
            check(r in refs or r.startswith(METADATA_REFS), f"reference {r} was created")
        if os.path.exists(ctx.path("touched")):
            for line in open(ctx.path("touched")):
                r = line.split()[2]
                check(r.startswith(METADATA_REFS), f"reference {r} was touched")
        left = set(objects) - set(store.all_objects(realm))
        check(not left, f"objects were removed: {sorted(left)[:3]}")
        check(store.fsck(realm)[0] == 0, f"repository is damaged: {store.fsck(realm)[1][:300]}")
        check(not os.path.exists(ctx.path("hooks")),
              "user hooks other than reference-transaction were started")
        ctx.count("write_histories")
        ctx.count("process_states")
        ctx.count("failed_writes", 1 if failed else 0)
        check(sorted(os.listdir(home)) == [".gitconfig"], "files were created in HOME")
    reading()
    ctx.sample = f"snapshot of {len(before)} files"
