"""C20: data written by earlier releases stays readable and extensible"""
import copy
import os
import shutil
import uuid
from pathlib import Path

from .. import encode, faults, gen, lib, model, store
from ..model import posix
from ..proc import session
from ..runner import check
from .c05 import neutral

LEVEL = "exploration"
RULE = ("An independent encoder writes random stores in random mixtures of the older variants: "
        "references to FileTree, DatasetTree and MTreeNode, references with a storage family, "
        "references with locations of missing, moved or foreign repositories, other JSON formatting, "
        "object index as tree and blob lists, new index, or mixtures. They are read completely and by "
        "look-ups; then a random session modifies, saves and flushes them. The same session on the same "
        "store in the current variant is the oracle for the result, which is decoded independently and read "
        "by the library, before and after git gc --prune=now, "
        "saving the loaded store to another one and back, "
        "and after copying to a repository without the others. Non-trivial: distinct (store, session).")
ASSUMPTIONS = ["The object index of the old store was complete"]
REQUIRED = {"stores_read": 25, "sessions": 25, "collected": 25, "variants": 100,
            "migrations": 10, "copies": 4, "lookups": 40, "back_and_forth": 25}

INDEX = ["legacy", "new", "both", "trees", "blobs", "legacy"]


def cases(tier, seed):
    n = {"quick": 36, "thorough": 700}[tier]
    return [{"seed": f"{seed}/{i}", "hostile": i % 2 == 0, "index": INDEX[i % len(INDEX)]}
            for i in range(n)]


def dump(realm):
    tvl, us = lib.get_top_level_metadata_objects("git", realm)
    check(tvl is not None and us is not None, "top-level objects are reported as missing")
    return [model.dump_list(tvl), model.dump_uuid_set(us)]


def decoded(realm):
    d = faults.decode_store(realm)
    return [d["tvl"], d["us"]]


def lookups(realm, m, seed):
    """Root records by the consistent way of datalad"""
    rng = gen.rng_for("c20 lookup", seed)
    n = 0
    tvl, us = lib.get_top_level_metadata_objects("git", realm)
    for ident, vl in m["us"].items():
        for (version, prefix), (ts, mrr) in vl.items():
            e = us.get_version_list(uuid.UUID(ident)).get_versioned_element(
                version, lib.P(posix(prefix)))
            check(e[0] == ts, "time stamp differs")
            d = model.diff(mrr.flat(), model.dump_mrr(e[2]))
            check(d is None, f"record of {ident} differs: {d}")
            n += 1
    for (version, prefix), (ts, tree) in m["tvl"].items():
        _, _, t = tvl.get_dataset_tree(version, lib.P(posix(prefix)))
        for path, mrr in tree.items():
            r = t.get_metadata_root_record(lib.P(posix(path)))
            check(r is not None, f"record of {path} is not found")
            check(str(r.dataset_identifier) == mrr.ident and r.dataset_version == mrr.version,
                  "record differs")
            files = list(mrr.files)
            if files:
                p = rng.choice(files)
                got = r.get_file_tree().get_metadata(lib.P(posix(p)))
                check(got is not None and model.dump_metadata(got) == mrr.files[p].flat(),
                      f"metadata of {p} differs")
            n += 1
    return n


def copy_to(realm, other):
    tvl, us = lib.get_top_level_metadata_objects("git", realm)
    tvl.deepcopy(new_destination=other)
    us.deepcopy(new_destination=other)
    lib.flush_object_references(Path(other))


def nodes_of(o):
    o = getattr(o, "mtree", o)
    o.ensure_mapped()
    for s in list(o.modifiable_sub_objects):
        yield from nodes_of(s)
    yield o


def back_and_forth(old, other, seed):
    """Loaded from the old store, saved to another one, and, modified or not,
    saved to the old one again"""
    rng = gen.rng_for("c20 back", seed)
    tops = lib.get_top_level_metadata_objects("git", old)
    for o in tops:
        for n in list(nodes_of(o)):
            if rng.random() < 0.2:
                n.write_out(other)
        o.write_out(other)
    for o in tops:
        for n in list(nodes_of(o)):
            if rng.random() < 0.3:
                n.touch()
        o.write_out(old)
    for realm in (old, other):
        lib.flush_object_references(Path(realm))


def run_case(case, ctx):
    rng = gen.rng_for("c20", case["seed"])
    hostile = case["hostile"]
    m = {"tvl": gen.version_list(rng, rng.choice([1, 2]), hostile, "tree", 3),
         "us": gen.uuid_set(rng, 2, hostile, "mrr", 3)}
    for key, root in m["tvl"].items():
        if not root[1]:
            root[1][()] = gen.mrr(rng, hostile, 3)
    foreign = ctx.repo("foreign")
    session(faults.initial, gen.rng_for("foreign", case["seed"]), foreign, False)
    old, new = ctx.repo("old"), ctx.repo("new")
    encoder = encode.Encoder(old, rng, True, [
        "/no/such/place", foreign, "", ".", "https://example.com/store", "git@host:x", new,
        None, ctx.path("moved")])
    encoder.store(m["tvl"], m["us"], case["index"])
    encode.Encoder(new).store(m["tvl"], m["us"])
    ctx.count("variants", sum(encoder.variants.values()))
    expected = [model.flat_list(m["tvl"]), model.flat_uuid_set(m["us"])]
    for what, realm in (("old", old), ("current", new)):
        d = model.diff(expected, decoded(realm))
        check(d is None, f"encoder or decoder of the check is wrong: {d}")
        d = model.diff(expected, session(dump, realm))
        check(d is None, f"store in {what} variant is read with differences: {d}")
        ctx.count("lookups", session(lookups, realm, m, case["seed"]))
    ctx.count("stores_read")
    if rng.random() < 0.5:
        moved = ctx.path("renamed")
        os.rename(old, moved)
        old = moved
    if rng.random() < 0.5:
        other = ctx.repo("copy")
        session(copy_to, old, other)
        hidden = old + "-hidden"
        os.rename(old, hidden)
        store.git(other, "gc", "-q", "--prune=now")
        d = model.diff(expected, decoded(other))
        check(d is None, f"copy of an old store differs: {d}")
        os.rename(hidden, old)
        ctx.count("copies")

    twin, other = ctx.path("twin"), ctx.repo("other")
    shutil.copytree(old, twin)
    session(back_and_forth, twin, other, case["seed"])
    for what, realm in (("saved to another store", other), ("saved to another store and back", twin)):
        os.rename(other if realm == twin else twin, ctx.path("away"))
        objects = store.all_objects(realm)
        lost = [(k, i) for k, i in store.index_entries(realm) if objects.get(i) != k]
        check(not lost, f"old store {what}: the object index names {lost[:1]}, which does not exist")
        store.git(realm, "gc", "-q", "--prune=now")
        try:
            d = model.diff(expected, decoded(realm))
        except store.DecodeError as e:
            d = e
        check(d is None, f"old store {what} differs: {d}")
        os.rename(ctx.path("away"), other if realm == twin else twin)
    shutil.rmtree(twin)
    shutil.rmtree(other)
    ctx.count("back_and_forth")

    plan = faults.plan(rng, copy.deepcopy(m), hostile, rng.choice([0, 1, 3, 6]))
    for realm in (old, new):
        session(faults.run_session, realm, copy.deepcopy(plan), what=f"{plan and [p[0] for p in plan]}")
    ctx.count("sessions")
    refs = store.refs(old)
    legacy = [r for r in (lib.REF_LEGACY_BLOBS, lib.REF_LEGACY_TREES) if r in refs]
    check(not legacy, f"the old index {legacy} is still there after flushing")
    if case["index"] != "new":
        ctx.count("migrations")
    lost = encoder.index - store.index_entries(old)
    check(not lost, f"entries of the old index are lost: {sorted(lost)[:3]}")
    final = neutral(decoded(new))
    store.git(new, "gc", "-q", "--prune=now")
    for what in ("", " after gc"):
        try:
            got = neutral(decoded(old))
        except store.DecodeError as e:
            check(False, f"modified old store{what} is damaged: {e}")
        d = model.diff(final, got)
        check(d is None, f"modified old store{what} differs from the current variant: {d}")
        d = model.diff(final, neutral(session(dump, old)))
        check(d is None, f"modified old store{what} is read with differences: {d}")
        if not what:
            store.git(old, "reflog", "expire", "--expire=now", "--all")
            store.git(old, "gc", "-q", "--prune=now")
            shutil.rmtree(foreign)
            shutil.rmtree(new)
    ctx.count("collected")
    ctx.saw(model.digest(expected), [p[0] for p in plan])
    ctx.sample = f"index {case['index']}, variants {encoder.variants}, steps {[p[0] for p in plan]}"
