"""C05: a crash never damages the stored metadata"""
import os
import shutil
import signal
from pathlib import Path

from .. import faults, gen, lib, model, store
from ..proc import Child, session, try_session
from ..runner import Inconclusive, Violation, check
from ..spy import Spy
from .c02 import read_back

LEVEL = "fault_enumeration"
RULE = ("Random sessions (load, modify, partially and completely save, flush) on "
        "an existing store are killed with SIGKILL before every command that "
        "writes to the repository (quick tier: before and after all reference "
        "updates, and 10 others), after the last one, and at some reading "
        "commands; a share of them on an initially empty repository or on one "
        "with an old-format object index. Afterwards each of the top-level "
        "objects must be a state that the session published (prefix of the "
        "sequence of published states), readable by decoder and library, the object "
        "index must contain all old entries and only existing objects, git fsck "
        "must be clean, and a repetition of the session must lead to the "
        "intended state (that survives a garbage collection, if nothing was published before the crash). Non-trivial: "
        "distinct (session, kill point) pairs in which the kill happened.")
ASSUMPTIONS = ["git itself is not killed while it updates its files",
               "No garbage collection between a crash after publication of a "
               "top-level object and the next flush of the same objects",
               "The kernel keeps the effects of completed system calls"]
REQUIRED = {"kills": 60, "recovered": 60, "states_old": 10, "states_new": 5}



def cases(tier, seed):
    n, groups = {"quick": (5, 3), "thorough": (25, 8)}[tier]
    return [{"seed": f"{seed}/{i}", "hostile": i % 4 == 3, "group": g,
             "start": ["normal", "normal", "empty", "normal", "legacy"][i % 5],
             "groups": groups, "all": tier == "thorough"}
            for i in range(n) for g in range(groups)]


def prepare(ctx, case, rng):
    base = ctx.repo("base")
    m = session(_initial, case["seed"], base, case["hostile"])
    steps = faults.plan(rng, m, case["hostile"], 6)
    if case["start"] == "empty":
        shutil.rmtree(base)
        store.init(base)
        steps = [s for s in steps if s[0] in ("new_version", "new_list", "auto_create")]
        steps += [("new_version", ("v", ()), gen.dataset_tree(rng, 2, False, 2)),
                  ("auto_create", gen.ident(rng), "v3", gen.run(rng)),
                  ("new_list", gen.ident(rng), gen.version_list(rng, 1, False, "mrr", 2))]
    if case["start"] == "legacy":
        from .c04 import make_legacy
        make_legacy(base)
    return base, steps


def _initial(seed, base, hostile):
    return faults.initial(gen.rng_for("fi", seed), base, hostile)


TOP = (lib.REF_TVL, lib.REF_UUID)


def published_states(realm, steps):
    """All states of the top-level references in the order of publication"""
    states = []

    def after(record):
        if record.is_git and not record.is_read:
            states.append(dict(zip(TOP, store.references(realm, TOP))))
    states.append(store.refs(realm))
    with Spy(after=after):
        faults.run_session(realm, steps)
    states.append(store.refs(realm))
    out = []
    for s in states:
        pair = (s.get(lib.REF_TVL), s.get(lib.REF_UUID))
        if not out or out[-1] != pair:
            out.append(pair)
    return out


def decode_pair(realm, pair):
    with store.Decoder(realm) as d:
        return [None if pair[0] is None else model.flat_list(d.version_list(pair[0])),
                None if pair[1] is None else model.flat_uuid_set(d.uuid_set(pair[1]))]


def legacy_entries(realm):
    out = set()
    for ref in (lib.REF_LEGACY_TREES, lib.REF_LEGACY_BLOBS):
        if ref in store.refs(realm):
            for line in store.git(realm, "ls-tree", ref).splitlines():
                out.add(tuple(line.split("\t")[0].split()[1:]))
    return out


def neutral(flat):
    """content without the time stamps that auto-creation invents"""
    def walk(x):
        if isinstance(x, list) and len(x) == 2 and isinstance(x[0], str):
            return ["*", x[1]]
        return x
    tvl, us = flat
    return [None if tvl is None else {k: walk(v) for k, v in tvl.items()},
            None if us is None else {u: {k: walk(v) for k, v in l.items()}
                                     for u, l in us.items()}]


def kill_at(realm, steps, index, how):
    def hook(record):
        if record.index == index:
            return how
    with Spy(hook):
        faults.run_session(realm, steps)


def run_case(case, ctx):
    rng = gen.rng_for("c05", case["seed"])
    base, steps = prepare(ctx, case, rng)
    probe = faults.copy_repo(base, ctx.path("probe"))
    log = session(faults.recorded, probe, steps)
    ref_run = faults.copy_repo(base, ctx.path("ref"))
    states = session(published_states, ref_run, steps)
    contents = [neutral(decode_pair(ref_run, s)) for s in states]
    final = contents[-1]
    writes = [i for i, r in enumerate(log) if r[1]]
    check(writes, "the session wrote nothing") if steps else None
    points = [(i, "kill-before") for i in writes]
    points += [(len(log) - 1, "kill-after")]
    reads = [i for i, r in enumerate(log) if not r[1]]
    points += [(i, "kill-after") for i in rng.sample(reads, min(4, len(reads)))]
    if not case["all"]:
        # around all publications, and some other ones
        important = [p for p in points if any(
            r[0] == "update-ref" for r in log[max(0, p[0] - 1):p[0] + 1])]
        others = [p for p in points if p not in important]
        points = important + rng.sample(others, min(10, len(others)))
    points = points[case["group"]::case["groups"]]
    old_index = store.index_entries(base) | legacy_entries(base)

    for index, how in points:
        realm = faults.copy_repo(base, ctx.path("crash"))
        kind, value = try_session(kill_at, realm, steps, index, how)
        if kind != "died" or not os.WIFSIGNALED(value):
            if kind == "ok":
                # fewer commands than in the recorded run
                ctx.count("kill_point_not_reached")
                shutil.rmtree(realm)
                continue
            raise Violation(f"session failed without a fault: {value}")
        ctx.count("kills")
        label = f"kill at command {index} ({log[index][0]}, during {log[index][2]}, {how})"
        refs = store.refs(realm)
        try:
            got = neutral(decode_pair(realm, (
                refs.get(lib.REF_TVL), refs.get(lib.REF_UUID))))
            entries = store.index_entries(realm)
        except (store.DecodeError, KeyError, ValueError) as e:
            raise Violation(f"{label}: stored metadata is damaged: {e}")
        matching = [i for i, c in enumerate(contents)
                    if model.diff(c, got) is None]
        check(matching, f"{label}: the repository holds a state that was never "
                        f"published: {model.diff(contents[0], got)}")
        ctx.count("states_old" if matching[0] == 0 else
                  "states_new" if matching[-1] == len(contents) - 1 else
                  "states_between")
        missing = old_index - entries - legacy_entries(realm)
        check(not missing, f"{label}: {len(missing)} entries of the object index are lost")
        objects = store.all_objects(realm)
        for k, oid in entries:
            check(objects.get(oid) == k, f"{label}: object index names missing {k} {oid}")
        code, text = store.fsck(realm)
        check(code == 0, f"{label}: git fsck reports {text[:300]}")
        if refs.get(lib.REF_TVL) and refs.get(lib.REF_UUID):
            lib_view = session(read_back, realm, what=f"{label}: reading")
            d = model.diff(got, neutral([lib_view["tvl"], lib_view["us"]]))
            check(d is None, f"{label}: library reads {d}")
        # repeat the session
        session(faults.run_session, realm, steps, what=f"{label}: repetition")
        if matching[0] == 0:
            # Nothing was published before the crash. (What a crashed session
            # published, but did not flush, is not protected against gc.)
            store.git(realm, "gc", "-q", "--prune=now")
            ctx.count("collected")
        refs = store.refs(realm)
        try:
            got = neutral(decode_pair(realm, (refs[lib.REF_TVL], refs[lib.REF_UUID])))
        except (store.DecodeError, KeyError) as e:
            raise Violation(f"{label}: repeated session is incomplete: {e}")
        d = model.diff(final, got)
        check(d is None, f"{label}: repeated session leads to {d}")
        ctx.count("recovered")
        ctx.saw(case["seed"], index, how)
        shutil.rmtree(realm)
    ctx.sample = (f"{case['start']} store, {len(log)} commands, {len(writes)} writing, "
                  f"{len(states)} published states, steps {[s[0] for s in steps]}")
