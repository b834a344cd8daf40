"""C25: readers see complete, current states while others write"""
import json
import os
import time
import uuid
from pathlib import Path

from .. import gen, lib, model, store
from ..model import posix
from ..proc import Child, session, unwrap
from ..runner import Violation, check
from ..spy import Spy
from .c07 import Log, delays

LEVEL = "exploration"
RULE = ("Sessions that read a store (complete dumps, and lookups of single records, locally and through a "
        "remote URL) are interleaved with sessions that modify, save and flush it, "
        "including the first ones on an empty store: a reader at every point (git command) of a writing "
        "session, a writing session, with or without a garbage collection, at every point of a reading one, and free running "
        "readers and writers (which use the backend lock) with random delays. Oracle: the list of published states "
        "(decoded from the repository after each update of a top-level reference). "
        "Each top-level object that was read must be one of them, "
        "not older than what was published before the reading started, and not from the "
        "future; elements that are loaded later belong to the same state. "
        "Non-trivial: distinct (point, states) that were observed.")
ASSUMPTIONS = ["The tree version list and the UUID set are published one after the "
               "other; a reader may see the new one of the first and the old one of the second",
               "Garbage collections that run concurrently do not prune young objects (default of git)"]
REQUIRED = {"reads_at_points": 100, "writes_at_points": 40, "old_states": 10, "new_states": 20,
            "stress_reads": 60, "stress_overlaps": 1, "lookups": 60, "first": 10, "remote": 3,
            "collections": 5}

KINDS = ["steps", "held", "stress", "first", "held"]


def cases(tier, seed):
    n = {"quick": 25, "thorough": 400}[tier]
    return [{"seed": f"{seed}/{i}", "kind": KINDS[i % len(KINDS)], "hostile": i % 3 == 2,
             "remote": i % 10 == 9, "all": tier == "thorough"} for i in range(n)]


def change(realm, rng, hostile, first=False):
    """One read-modify-write operation"""
    tvl, us = lib.get_top_level_metadata_objects("git", realm)
    tvl = lib.TreeVersionList() if tvl is None else tvl
    us = lib.UUIDSet() if us is None else us
    keys = list(tvl.versions_and_prefix_paths())
    for _ in range(rng.randint(1, 2)):
        r = rng.random()
        if keys and r < 0.6:
            _, _, tree = tvl.get_dataset_tree(*rng.choice(keys))
            paths = list(tree.dataset_paths)
            if paths:
                mrr = tree.get_metadata_root_record(rng.choice(paths)[0])
                files = mrr.get_file_tree()
                if files is None or r < 0.2:
                    mrr.set_file_tree(model.build_file_tree(gen.files(rng, 2, hostile)))
                else:
                    for p in list(files.get_paths_recursive())[:2]:
                        model.add_run(files.get_metadata(p[0]), gen.run(rng, hostile))
            else:
                tree.add_dataset(lib.P("x"), model.build_mrr(gen.mrr(rng, hostile, 2)))
        else:
            tvl.set_dataset_tree(gen.version(rng, hostile), "1.0", lib.P(posix(gen.prefix(rng, hostile))),
                                 model.build_dataset_tree(gen.dataset_tree(rng, 2, hostile, 2)))
    ids = sorted(us.uuids(), key=str)
    if ids and rng.random() < 0.5:
        vl = us.get_version_list(rng.choice(ids))
        vl.set_versioned_element(gen.version(rng, hostile), "2", lib.P(""),
                                 model.build_mrr(gen.mrr(rng, hostile, 2)))
    else:
        us.set_version_list(uuid.UUID(gen.ident(rng)), model.build_list(
            gen.version_list(rng, 1, hostile, "mrr", 2)))
    tvl.write_out(realm)
    us.write_out(realm)
    lib.flush_object_references(Path(realm))


def fill(realm, seed, hostile):
    rng = gen.rng_for("c25 fill", seed)
    for k in range(KNOWN):
        tvl, us, _ = lookup(realm, seed, k, True)
        tvl.write_out(realm)
        us.write_out(realm)
    for _ in range(2):
        change(realm, rng, hostile)


def decoded(realm):
    """[tree version list, UUID set] as published, independent of the library"""
    refs = store.refs(realm)
    with store.Decoder(realm) as d:
        return [model.flat_list(d.version_list(lib.REF_TVL)) if lib.REF_TVL in refs else None,
                model.flat_uuid_set(d.uuid_set(lib.REF_UUID)) if lib.REF_UUID in refs else None]


def load(realm):
    return lib.get_top_level_metadata_objects("git", realm)


def undisturbed(fn, *args, **kwargs):
    """Another session, started from within a hook"""
    from .. import spy

    def run():
        import subprocess
        subprocess.Popen = spy._original
        return fn(*args)
    return session(run, **kwargs)


def walk(tops):
    tvl, us = tops
    return [None if tvl is None else model.dump_list(tvl),
            None if us is None else model.dump_uuid_set(us)]


def dump(realm):
    return walk(load(realm))


KNOWN = 3


def known(seed, k):
    rng = gen.rng_for("c25 known", seed, k)
    return uuid.UUID(gen.ident(rng)), gen.version(rng, False)


def lookup(realm, seed, k, create=False):
    """Ask for one record, as a program that is started for each lookup does"""
    ident, version = known(seed, k)
    return lib.get_top_nodes_and_metadata_root_record(
        "git", realm, ident, version, lib.P(""), lib.P(""), None, None, create)


def extend_known(realm, seed, rng, hostile):
    tvl, us, record = lookup(realm, seed, rng.randrange(KNOWN), True)
    model.add_run(record.get_dataset_level_metadata(), gen.run(rng, hostile))
    tvl.write_out(realm)
    us.write_out(realm)
    lib.flush_object_references(Path(realm))


def look(realm, seed, k):
    record = lookup(realm, seed, k)[2]
    return None if record is None else model.dump_mrr(record)


def record_in(state, seed, k):
    """The same record in a published tree version list"""
    return state[model.canon([known(seed, k)[1], []])][1]["tree"]["[]"]


def which(got, history, what, low=0, high=None):
    """Index of the state in the history of published states"""
    high = len(history) - 1 if high is None else high
    for i in range(high, low - 1, -1):
        if model.diff(history[i], got) is None:
            return i
    for i, s in enumerate(history):
        if model.diff(s, got) is None:
            raise Violation(f"{what}: state {i} was read, but only {low} to {high} "
                            f"(of {len(history)}) were current")
    raise Violation(f"{what}: never published: {model.diff(history[high], got)}")


def judge(ctx, got, histories, what, low=(0, 0)):
    """got: [tvl, us]; histories: published states of each"""
    seen = []
    for g, h, l, part in zip(got, histories, low, ("tree version list", "UUID set")):
        i = which(g, h, f"{what}: {part}", l)
        ctx.count("new_states" if i == len(h) - 1 else "old_states")
        seen.append(i)
    ctx.saw(what, seen)
    return seen


# -- a reader at every point of a writing session ---------------------------
TOP = (lib.REF_TVL, lib.REF_UUID)
ALL = (*TOP, lib.REF_OBJECTS)


def steps_session(case, realm, view, chosen):
    ctx_counters = {}
    current, values = [decoded(realm)], [store.references(realm, TOP)]
    position, busy = [-1], [False]

    def hook(record):
        if busy[0]:
            return
        position[0] += 1
        if position[0] in chosen:
            got = undisturbed(dump, view, what=f"reading before command {position[0]} "
                                           f"({record.command}) of the writer")
            for g, e, part in zip(got, current[-1], ("tree version list", "UUID set")):
                d = model.diff(e, g)
                check(d is None, f"reading before command {position[0]} ({record!r}) of the "
                                 f"writer: {part} is not the published state: {d}")
            ctx_counters["reads_at_points"] = ctx_counters.get("reads_at_points", 0) + 1

    def after(record):
        now = store.references(realm, TOP)
        if now != values[-1]:
            values.append(now)
            busy[0] = True
            current.append(decoded(realm))
            busy[0] = False
    with Spy(hook, after):
        rng = gen.rng_for("c25 steps", case["seed"])
        change(realm, rng, case["hostile"])
        change(realm, rng, case["hostile"])
    return ctx_counters, position[0] + 1, len(current)


def count_commands(case, realm):
    """For each command: does it publish something"""
    values, publishes = [store.references(realm, ALL)], []

    def after(record):
        if record.is_git:
            values.append(store.references(realm, ALL))
            publishes.append(values[-1] != values[-2])
    with Spy(after=after):
        rng = gen.rng_for("c25 steps", case["seed"])
        change(realm, rng, case["hostile"])
        change(realm, rng, case["hostile"])
    return publishes


def steps(case, ctx, rng, realm, view):
    import shutil
    probe = ctx.path("probe")
    shutil.copytree(realm, probe)
    commands = session(count_commands, case, probe)
    chosen = set()
    for i, publishes in enumerate(commands):
        if publishes:
            chosen.update((i, i + 1))
    rest = [i for i in range(len(commands)) if i not in chosen]
    chosen.update(rest if case["all"] else rng.sample(rest, min(len(rest), 15)))
    counters, n, states = session(steps_session, case, realm, view, chosen, timeout=140)
    for k, v in counters.items():
        ctx.count(k, v)
    check(states >= 5, "the writer published nothing")
    ctx.count("new_states", counters["reads_at_points"])
    ctx.saw("steps", case["seed"], sorted(chosen))
    ctx.sample = f"{n} commands of the writer, {len(chosen)} readers, {states} states"


# -- a writing session at every point of a reading one ----------------------
def write_and_collect(realm, seed, hostile, collect, case_seed):
    rng = gen.rng_for("c25 write", seed)
    change(realm, rng, hostile)
    if case_seed:
        extend_known(realm, case_seed, rng, hostile)
    if collect:
        store.git(realm, "gc", "-q")


def disturbed(case, realm, view, at, collect, how):
    """Read, with a write before command number at"""
    done = []

    def hook(record):
        if record.index == at and not done:
            done.append(record)
            undisturbed(write_and_collect, realm, f"{case['seed']}/{at}", case["hostile"], collect, how == "look" and case["seed"])
    with Spy(hook) as spy:
        if how == "look":
            got = [look(view, case["seed"], k) for k in range(KNOWN)]
            n = len(spy.git())
    if how == "look":
        return got, bool(done), 0, n, [look(view, case["seed"], k) for k in range(KNOWN)]
    with spy:
        tops = load(view)
        loaded = len(spy.git())
        if how == "purge" and None not in tops:
            # load some elements before
            for v, p in list(tops[0].versions_and_prefix_paths())[:1]:
                tops[0].get_versioned_element(v, p)
        got = walk(tops)
        n = len(spy.git())
    return got, bool(done), loaded, n, dump(view)


def held(case, ctx, rng, realm, view):
    points, n, at = 0, None, 0
    while n is None or (at < n and (case["all"] or points < 8)):
        before = decoded(realm)
        collect = rng.random() < 0.3
        how = rng.choice(["", "purge", "look"])
        got, done, loaded, n, again = session(
            disturbed, case, realm, view, at, collect, how,
            what=f"reading, with a write before command {at}")
        after = decoded(realm)
        histories = [[b, a] if b != a else [a] for b, a in zip(before, after)]
        what = f"reading, with a write before command {at}{', and gc' * collect}"
        if how == "look":
            # both states are possible for each record
            for k in range(KNOWN):
                h = [record_in(x[0], case["seed"], k) for x in (before, after)]
                which(got[k], h, f"{what}: record")
                which(again[k], h[1:], "lookup after a write")
                ctx.count("lookups", 2)
            if done:
                ctx.count("collections", collect)
                ctx.count("writes_at_points")
                ctx.saw("look", at, case["seed"])
            points += 1
            at += 1 if case["all"] else rng.choice([1, 2, 3])
            continue
        seen = judge(ctx, got, histories, what)
        if done:
            # loaded objects belong to the state that was current before
            if at >= loaded and not case["remote"]:
                check(seen == [0, 0], f"{what}: loaded objects changed to state {seen}")
            judge(ctx, again, histories, "reading after a write",
                  [len(h) - 1 for h in histories])
            ctx.count("writes_at_points")
            ctx.count("collections", collect)
            if case["remote"]:
                ctx.count("remote")
        points += 1
        at += 1 if case["all"] else rng.choice([1, 1, 2, 5, max(1, (n - at) // 3)])
    ctx.sample = f"{points} of {n} points of the reader"


def first(case, ctx, rng, ctx_dir):
    at, n = 0, 1
    while at <= n and at < 30:
        realm = ctx.repo(f"first{at}")
        got, done, loaded, n, again = session(
            disturbed, case, realm, realm, at, False, "",
            what=f"reading a new store, with the first write before command {at}")
        after = decoded(realm)
        if done:
            histories = [[None, a] for a in after]
            judge(ctx, got, histories, f"reading a new store, first write before command {at}")
            judge(ctx, again, histories, "reading after the first write", [1, 1])
            ctx.count("first")
        at += 1
    ctx.sample = f"{at} points of the first reader"


# -- free running -----------------------------------------------------------
def stress_writer(case, realm, log_path, w, n):
    rng = gen.rng_for("c25 writer", case["seed"], w)
    log = Log(log_path)
    started, values = [None], [None]

    def after(record):
        # (other writers do nothing now, because this one holds the lock)
        before, start = values[0], started[0]
        now = store.references(realm, TOP)
        if now != before:
            end = time.monotonic_ns()
            content = decoded(realm)
            for part in (0, 1):
                if now[part] != before[part]:
                    log.add("published", part, start, end, content[part])
    wait = delays(rng, 0.1, 0.01)

    def hook(record):
        r = wait(record)
        if r:
            time.sleep(r)
        values[0] = store.references(realm, TOP)
        started[0] = time.monotonic_ns()
    with Spy(hook, after):
        for _ in range(n):
            with lib.locked_backend(Path(realm)):
                if rng.random() < 0.4:
                    extend_known(realm, case["seed"], rng, case["hostile"])
                else:
                    change(realm, rng, case["hostile"])


def stress_reader(case, realm, log_path, r, stop):
    rng = gen.rng_for("c25 reader", case["seed"], r)
    log = Log(log_path)
    held = None
    with Spy(delays(rng, 0.1, 0.01)):
        while not os.path.exists(stop):
            start = time.monotonic_ns()
            with Spy(delays(rng, 0.5, 0.04)):
                tops = load(realm)
            end = time.monotonic_ns()
            state = walk(tops)
            log.add("read", r, start, end, state)
            k = rng.randrange(KNOWN)
            start = time.monotonic_ns()
            record = look(realm, case["seed"], k)
            log.add("look", r, start, time.monotonic_ns(), k, record)
            if held is not None:
                old, digest = held
                check(model.digest(walk(old)) == digest,
                      "objects that are kept by a reader changed")
            held = tops, model.digest(state)


def stress(case, ctx, rng, realm):
    initial = decoded(realm)
    stop = ctx.path("stop")
    logs = [ctx.path(f"log{i}") for i in range(5)]
    readers = [Child(stress_reader, case, realm, logs[i], i, stop) for i in range(3)]
    writers = [Child(stress_writer, case, realm, logs[3 + i], i, 5) for i in range(2)]
    results = [w.wait(100) for w in writers]
    open(stop, "w").close()
    results += [r.wait(100) for r in readers]
    for i, (kind, value) in enumerate(results):
        unwrap(kind, value, "writer" if i < 2 else "reader")
    events = [e[1:] for l in logs for e in Log.read(l)]
    # (start, end, state) of the publications, in their order
    published = [[(0, 0, initial[k])] + sorted(
        ((e[2], e[3], e[4]) for e in events if e[0] == "published" and e[1] == k),
        key=lambda p: p[0]) for k in (0, 1)]
    check(all(4 <= len(p) <= 11 for p in published), f"publications are missing or unexpected: {[len(p) for p in published]}")
    for h in published:
        for a, b in zip(h, h[1:]):
            check(a[1] <= b[0], "publications overlap")
    progress = {}
    reads = sorted((e for e in events if e[0] == "read"), key=lambda e: e[2])
    for _, r, start, end, state in reads:
        for k, part in enumerate(("tree version list", "UUID set")):
            states = [p[2] for p in published[k]]
            low = max(i for i, p in enumerate(published[k]) if p[1] <= start)
            high = max(i for i, p in enumerate(published[k]) if p[0] <= end)
            low = max(low, progress.get((r, k), 0))
            i = which(state[k], states, f"reader {r}: {part}", low, high)
            progress[r, k] = i
            ctx.saw("stress", case["seed"], k, i)
            if high > low:
                ctx.count("stress_overlaps")
        ctx.count("stress_reads")
    for _, r, start, end, k, record in (e for e in events if e[0] == "look"):
        low = max(i for i, p in enumerate(published[0]) if p[1] <= start)
        high = max(i for i, p in enumerate(published[0]) if p[0] <= end)
        which(record, [record_in(p[2], case["seed"], k) for p in published[0]],
              f"reader {r}: record {k}", low, high)
        ctx.count("lookups")
    ctx.sample = f"{len(reads)} reads during {len(published[0]) - 1} publications"


def run_case(case, ctx):
    rng = gen.rng_for("c25", case["seed"])
    if case["kind"] == "first":
        return first(case, ctx, rng, ctx.dir)
    realm = ctx.repo("repo")
    session(fill, realm, case["seed"], case["hostile"])
    view = realm
    if case["remote"]:
        view = "https://rv.example/" + uuid.UUID(int=rng.getrandbits(128)).hex
        # git takes some unusual paths for URLs
        os.symlink(realm, ctx.path("link"))
        with open(os.environ["GIT_CONFIG_GLOBAL"], "a") as f:
            f.write(f'[url "{ctx.path("link")}"]\n\tinsteadOf = "{view}"\n')
    if case["kind"] == "steps":
        steps(case, ctx, rng, realm, view)
    elif case["kind"] == "held":
        held(case, ctx, rng, realm, view)
    else:
        stress(case, ctx, rng, realm)
