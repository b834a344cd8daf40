"""C07: concurrent writers that use the backend lock lose nothing"""
import contextlib
import json
import os
import signal
import time
import uuid
from pathlib import Path

from .. import env, gen, lib, model, store
from ..proc import Child, session, unwrap
from ..runner import Inconclusive, Violation, check
from ..spy import Spy

LEVEL = "exploration"
RULE = ("Several processes run read-modify-write operations (with the lock held "
        "from load to flush) or unlocked flushes on one store, with random delays "
        "injected at git commands, nested locking, different spellings of "
        "the repository path, operations that raise an exception or are killed inside "
        "the lock. Each operation appends a unique entry. The recorded log of "
        "critical sections (monotonic clock) must not overlap; the final "
        "store must contain the entries of all completed operations and of no "
        "incomplete ones; the object index must contain everything that was "
        "registered. Non-trivial: distinct orders in which the processes "
        "got the lock.")
ASSUMPTIONS = ["All writers run on one host with working flock/lockf",
               "Writers of one store are processes, not threads"]
REQUIRED = {"critical_sections": 60, "handovers": 20, "flushes": 20,
            "exceptions_inside": 3, "kills_inside": 3, "nested": 5,
            "waited": 10,
            "releases_probed": 8, "seconds_held": 1000}

KINDS = ["rmw", "flush", "spelling", "fault", "legacy", "first", "release"]


def cases(tier, seed):
    n = {"quick": 28, "thorough": 490}[tier]
    return [{"seed": f"{seed}/{i}", "kind": KINDS[i % len(KINDS)],
             "n": 3 + (i // len(KINDS)) % 3} for i in range(n)]


def delays(rng, probability, maximum):
    def hook(record):
        if rng.random() < probability:
            return rng.random() * maximum
    return hook


class Log:
    """One line per event, appended atomically"""
    def __init__(self, path):
        self.fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)

    def add(self, *event):
        os.write(self.fd, (json.dumps([time.monotonic_ns(), *event]) + "\n").encode())

    @staticmethod
    def read(path):
        if not os.path.exists(path):
            return []
        return [json.loads(line) for line in open(path)]


def seed_store(realm, ident):
    us = lib.UUIDSet()
    us.set_version_list(uuid.UUID(ident), lib.VersionList())
    tvl = lib.TreeVersionList()
    tvl.write_out(realm)
    us.write_out(realm)
    lib.flush_object_references(Path(realm))


def modify(realm, rng, ident, worker, n):
    """Append unique entries to both top-level objects and save them"""
    tvl, us = lib.get_top_level_metadata_objects("git", str(realm))
    tvl = lib.TreeVersionList() if tvl is None else tvl
    us = lib.UUIDSet() if us is None else us
    mrr = model.build_mrr(model.Mrr(
        ident, f"{worker}-{n}", model.Meta([gen.run(rng, False)]),
        {("f%d" % rng.randint(0, 3),): model.Meta([gen.run(rng, False)])}))
    tree = lib.DatasetTree()
    tree.add_dataset(lib.P(""), mrr)
    tvl.set_dataset_tree(f"{worker}-{n}", "1.0", lib.P(""), tree)
    u = uuid.UUID(ident)
    if u not in us.uuids():
        us.set_version_list(u, lib.VersionList())
    us.get_version_list(u).set_versioned_element(f"{worker}-{n}", "1.0", lib.P(""), mrr)
    tvl.write_out(str(realm))
    us.write_out(str(realm))
    lib.flush_object_references(Path(realm))


class Deliberate(Exception):
    pass


# what ends an operation: errors, the user, the end of the program
ENDS = (Deliberate, KeyboardInterrupt, SystemExit)


def spellings(realm, ctx_dir):
    link = os.path.join(ctx_dir, "link")
    if not os.path.exists(link):
        with contextlib.suppress(FileExistsError):
            os.symlink(realm, link)
    near = [".", "./.", "../" + os.path.basename(os.getcwd())] if os.path.samefile(
        os.getcwd(), realm) else []
    return [*near, realm, realm + "/", os.path.join(realm, "..", os.path.basename(realm)),
            link, store.relative(realm), os.path.join(realm, ".")]


def worker(case, realm, log_path, w, ident):
    rng = gen.rng_for("c07", case["seed"], w)
    log = Log(log_path)
    done = []
    hook = delays(rng, 0.15, 0.01)
    kind = case["kind"]
    ctx_dir = os.path.dirname(realm)
    other = os.path.join(ctx_dir, f"other{w}")
    if kind == "spelling":
        store.init(other)
    with Spy(hook):
        for n in range(rng.randint(2, 4)):
            if kind == "spelling" and rng.random() < 0.7:
                # the same relative name stood for another repository before
                os.chdir(other)
                with lib.locked_backend(Path(".")):
                    pass
                os.chdir(realm)
            name = rng.choice(spellings(realm, ctx_dir)) if kind == "spelling" else realm
            path = Path(name)
            time.sleep(rng.random() * 0.01)
            fault = rng.random() if kind == "fault" else 1
            log.add("want", w, n)
            try:
                with lib.locked_backend(path):
                    log.add("enter", w, n)
                    if rng.random() < 0.3:
                        # locks can be nested, in every spelling
                        inner = Path(rng.choice(spellings(realm, ctx_dir)))
                        with lib.locked_backend(inner):
                            log.add("nested", w, n)
                        time.sleep(rng.random() * 0.005)
                    if fault < 0.25:
                        log.add("exception", w, n)
                        raise rng.choice(ENDS)()
                    if fault < 0.45:
                        log.add("killed", w, n)
                        os.kill(os.getpid(), signal.SIGKILL)
                    modify(realm if kind != "spelling" else name, rng, ident, w, n)
                    log.add("leave", w, n)
            except ENDS:
                log.add("left", w, n)
                continue
            done.append(f"{w}-{n}")
            log.add("done", w, n)
    return done


def flusher(case, realm, log_path, w):
    """Registers objects and flushes, without taking the lock itself"""
    from dataladmetadatamodel.mapper.gitmapper.objectreference import (
        add_blob_reference, add_tree_reference)
    rng = gen.rng_for("c07f", case["seed"], w)
    added = []
    with Spy(delays(rng, 0.3, 0.02)):
        for n in range(rng.randint(2, 4)):
            for _ in range(rng.randint(1, 4)):
                meta = gen.meta(rng, False, 1)
                if rng.random() < 0.5:
                    tree = model.build_file_tree({("f",): meta})
                    added.append(("tree", tree.write_out(realm).location))
                else:
                    oid = store.git(realm, "hash-object", "-w", "--stdin",
                                    input=f"{w} {n} {rng.random()}").strip()
                    add_blob_reference(oid, realm)
                    added.append(("blob", oid))
            lib.flush_object_references(Path(realm))
    return added


FASTER = 240

PROBE = """
import os, sys, time
# the clocks of this process run fast, to see what happens after long waits
def hurry(clock, factor=int(sys.argv[3])):
    start = clock()
    return lambda: start + (clock() - start) * factor
for name in ("time", "monotonic", "perf_counter", "time_ns", "monotonic_ns", "perf_counter_ns"):
    setattr(time, name, hurry(getattr(time, name)))
time.sleep = lambda s, sleep=time.sleep, factor=int(sys.argv[3]): sleep(max(s / factor, 0.001))
sys.path.insert(0, sys.argv[1])
from pathlib import Path
from dataladmetadatamodel.mapper.gitmapper.utils import locked_backend
os.write(1, b"s")
with locked_backend(Path(sys.argv[2])):
    os.write(1, b"e")
os.write(1, b"x")
"""


def start_probe(realm, factor=1):
    """Another program that gets the lock and leaves immediately"""
    import subprocess
    import sys
    p = subprocess.Popen([sys.executable, "-c", PROBE, env.REPO, realm, str(factor)],
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if os.read(p.stdout.fileno(), 1) != b"s":
        raise Inconclusive(f"probe did not start: {p.stderr.read()[-300:]}")
    return p


def entered(p, timeout):
    import select
    ready, _, _ = select.select([p.stdout], [], [], timeout)
    return bool(ready) and os.read(p.stdout.fileno(), 1) == b"e"


def release(case, ctx):
    """The lock excludes others exactly as long as it is held"""
    rng = gen.rng_for("c07r", case["seed"])
    realm = ctx.repo("re po")
    if rng.random() < 0.5:
        modify(realm, rng, gen.ident(rng), 0, 0)
    hows = ["normal", "exception", "interrupt", "exit", "nested", "nested-exception",
            "nested-interrupt", "flush", "failing-flush"]
    long = rng.choice(hows)
    for how in hows:
        names = [Path(rng.choice(spellings(realm, ctx.dir))) for _ in range(3)]
        probe = None
        end = KeyboardInterrupt if "interrupt" in how else SystemExit if how == "exit" \
            else Deliberate if "exception" in how else None
        try:
            with lib.locked_backend(names[0]):
                if "nested" in how:
                    with contextlib.suppress(*ENDS):
                        with lib.locked_backend(names[1]):
                            if end:
                                raise end()
                elif how == "flush":
                    modify(realm, rng, gen.ident(rng), 0, 1)
                elif how == "failing-flush":
                    tree = model.build_file_tree({("f",): gen.meta(rng)})
                    tree.write_out(realm)
                    with Spy(lambda r: "fail"), contextlib.suppress(Exception):
                        lib.flush_object_references(names[1])
                probe = start_probe(str(names[2]), FASTER)
                hold = 2.5 if how == long else 0.15
                check(not entered(probe, hold),
                      f"the lock was given to another process while it was held ({how}), "
                      f"after {hold * FASTER} seconds")
                check(probe.poll() is None,
                      f"another process does not wait for the lock ({how})")
                ctx.count("seconds_held", int(hold * FASTER))
                if end:
                    raise end()
        except ENDS:
            pass
        ok = entered(probe, 60)
        probe.kill()
        probe.wait()
        check(ok, f"the lock is not released after use ({how})")
        ctx.count("releases_probed")
        ctx.saw(how, [str(n) == realm for n in names])
    waiting(case, ctx, rng, realm)
    ctx.sample = "lock excludes and is released"


HOLDER = """
import os, sys
sys.path.insert(0, sys.argv[1])
from pathlib import Path
from dataladmetadatamodel.mapper.gitmapper.utils import locked_backend
with locked_backend(Path(sys.argv[2])):
    os.write(1, b"e")
    sys.stdin.read()
os.write(1, b"x")
"""


def waiting(case, ctx, rng, realm):
    """A process that is interrupted while it waits for the lock, does not have it,
    waits when it asks again, and gets it afterwards"""
    import signal
    import subprocess
    import sys

    def interrupted(*_):
        raise end()
    for end in (KeyboardInterrupt, SystemExit, Deliberate):
        names = [Path(rng.choice(spellings(realm, ctx.dir))) for _ in range(3)]
        p = subprocess.Popen([sys.executable, "-c", HOLDER, env.REPO, str(names[2])],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        previous = signal.signal(signal.SIGALRM, interrupted)
        try:
            if not entered(p, 60):
                raise Inconclusive("holder did not get the lock")
            for name in names[:2]:
                inside = False
                signal.setitimer(signal.ITIMER_REAL, 0.3)
                try:
                    with lib.locked_backend(name):
                        inside = True
                except ENDS:
                    pass
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                check(not inside, "the lock was given to a process while another one holds it, "
                      f"after waiting for it was interrupted ({end.__name__})")
                ctx.count("waits_interrupted")
        finally:
            signal.signal(signal.SIGALRM, previous)
            p.stdin.close()
            p.wait(60)
        with lib.locked_backend(names[0]):
            probe = start_probe(str(names[1]), FASTER)
            check(not entered(probe, 0.3),
                  f"the lock does not exclude others after an interrupted wait ({end.__name__})")
        ok = entered(probe, 60)
        probe.kill()
        probe.wait()
        check(ok, f"the lock is not released after an interrupted wait ({end.__name__})")


def run_case(case, ctx):
    if case["kind"] == "release":
        return release(case, ctx)
    rng = gen.rng_for("c07", case["seed"], "main")
    realm = ctx.repo("repo")
    log_path = ctx.path("log")
    ident = gen.ident(rng)
    kind = case["kind"]
    if kind != "first":
        session(seed_store, realm, ident)
    expected_index = set()
    if kind == "legacy":
        from .c04 import make_legacy
        session(_fill, realm, case["seed"], ident)
        expected_index = store.index_entries(realm)
        make_legacy(realm)
    if kind in ("flush", "legacy"):
        children = [Child(flusher, case, realm, log_path, w) for w in range(case["n"])]
    else:
        children = [Child(worker, case, realm, log_path, w, ident)
                    for w in range(case["n"])]
    results = []
    for w, c in enumerate(children):
        k, v = c.wait(100)
        if k == "died" and kind == "fault":
            results.append(None)
        else:
            results.append(unwrap(k, v, f"process {w}"))

    if kind in ("flush", "legacy"):
        for r in results:
            expected_index.update(tuple(e) for e in r)
            ctx.count("flushes", len(r))
        index = store.index_entries(realm)
        missing = expected_index - index
        check(not missing, f"{len(missing)} of {len(expected_index)} registered objects "
                           f"are missing in the object index after concurrent flushes")
        ctx.saw(sorted(index))
        store.git(realm, "gc", "-q", "--prune=now")
        objects = store.all_objects(realm)
        gone = [e for e in expected_index if e[1] not in objects]
        check(not gone, f"{len(gone)} registered objects are collected")
        ctx.sample = f"{case['n']} processes, {len(index)} index entries"
        return

    events = Log.read(log_path)
    judge_log(events, ctx)
    completed = {f"{e[2]}-{e[3]}" for e in events if e[1] == "leave"}
    done = {e for r in results if r for e in r}
    tvl, us = session(read_versions, realm, ident)
    check(done <= completed, "log is inconsistent")
    for name, versions in (("tree version list", tvl), ("UUID set", us)):
        lost = completed - versions
        check(not lost, f"updates {sorted(lost)} of completed locked operations "
                        f"are lost in the {name}")
        extra = versions - completed
        check(not extra, f"{name} has unexpected entries {sorted(extra)}")
    with store.Decoder(realm) as d:
        d.version_list(lib.REF_TVL)
        d.uuid_set(lib.REF_UUID)
    store.git(realm, "gc", "-q", "--prune=now")
    with store.Decoder(realm) as d:
        n = len(d.version_list(lib.REF_TVL))
    check(n == len(completed), "entries are gone after garbage collection")
    ctx.sample = f"{case['n']} processes, order " + " ".join(
        str(e[2]) for e in events if e[1] == "enter")


def _fill(realm, seed, ident):
    rng = gen.rng_for("c07", seed, "fill")
    for n in range(2):
        modify(realm, rng, ident, "old", n)


def read_versions(realm, ident):
    tvl, us = lib.get_top_level_metadata_objects("git", realm)
    if tvl is None or us is None:
        return set(), set()
    versions = set()
    if uuid.UUID(ident) in us.uuids():
        versions = set(us.get_version_list(uuid.UUID(ident)).versions())
    return set(tvl.versions()), versions


def judge_log(events, ctx):
    """No two critical sections overlap"""
    events.sort()
    holder = None
    order = []
    wants = {}
    for t, what, w, n in events:
        if what == "want":
            wants[w] = t
            if holder is not None:
                ctx.count("waited")
        elif what == "enter":
            check(holder is None,
                  f"process {w} got the lock while process {holder} holds it")
            holder = w
            if order and order[-1] != w:
                ctx.count("handovers")
            order.append(w)
            ctx.count("critical_sections")
        elif what == "nested":
            ctx.count("nested")
        elif what in ("leave", "exception", "killed"):
            check(holder == w, "critical section was left twice")
            holder = None
            if what == "exception":
                ctx.count("exceptions_inside")
            elif what == "killed":
                ctx.count("kills_inside")
    ctx.saw(order)
