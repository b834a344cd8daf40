"""C08: deep copies are faithful, independent, self-contained"""
import copy
import hashlib
import os
import shutil
from pathlib import Path

from .. import gen, lib, model, store
from ..model import posix
from ..proc import session
from ..runner import Violation, check
from ..spy import Spy
from ..world import (
    NDatasets, NDict, NFiles, NList, NMeta, NMrr, NUuids, World, decode, dump,
    location, node_mrr)

LEVEL = "exploration"
RULE = ("Each case builds a random object (all classes) in a random memory state "
        "(new, saved, saved and purged, loaded, partly loaded, modified after save) "
        "in repository A and copies it to repository B, or A again. Monitors: "
        "content of copy and source equal the model, the copy is decodable "
        "from B by the independent decoder and by another process after A was "
        "deleted and (for top-level objects, after a flush) B garbage-collected, "
        "no write reaches A, modifying one does not change the other, the "
        "source keeps its memory and save state. Twin histories: a whole "
        "store and its copy (same or other repository) undergo random changes, saves, "
        "purges alternately; both must follow their own model. Non-trivial: distinct "
        "(class, state, content).")
ASSUMPTIONS = ["A destination is given"]
REQUIRED = {"copies": 100, "independence_checks": 40, "a_deleted": 40, "twin_checks": 80,
            "objects_there_before": 40, "copies_collected": 8}

KINDS = ["NMeta", "NFiles", "NMrr", "NDatasets", "NList", "NTvl", "NUuids", "text"]
STATES = ["new", "saved", "purged", "loaded", "partial", "modified"]


def cases(tier, seed):
    n = {"quick": 96, "thorough": 1600}[tier]
    twins = {"quick": 32, "thorough": 500}[tier]
    return [{"seed": f"{seed}/{i}", "kind": KINDS[i % len(KINDS)],
             "state": STATES[(i // len(KINDS)) % len(STATES)],
             "same": i % 5 == 4, "prefix": i % 3 == 0, "hostile": i % 2 == 0,
             "prefilled": ["", "tree", "all", "", "blob", "tree", ""][i % 7]}
            for i in range(n)] + [
        {"seed": f"{seed}/t{i}", "kind": "twins", "same": i % 4 != 3,
         "hostile": i % 2 == 0, "before": 4 + 3 * (i % 5), "steps": 24}
        for i in range(twins)]


def make(kind, rng, hostile):
    if kind == "NMeta":
        return NMeta(gen.meta(rng, hostile))
    if kind == "NFiles":
        return NFiles({p: NMeta(m) for p, m in gen.files(rng, rng.choice([0, 1, 5, 8]), hostile).items()})
    if kind == "NMrr":
        return node_mrr(gen.mrr(rng, hostile, 4))
    if kind == "NDatasets":
        return NDatasets({p: node_mrr(m) for p, m in gen.dataset_tree(
            rng, rng.choice([0, 1, 3]), hostile, 2).items()})
    if kind in ("NList", "NTvl"):
        vl = gen.version_list(rng, rng.choice([0, 1, 2, 3, 4]), hostile, "tree" if kind == "NTvl" else None, 2)
        return NList({k: (ts, node_mrr(e) if isinstance(e, model.Mrr) else
                          NDatasets({p: node_mrr(m) for p, m in e.items()}))
                      for k, (ts, e) in vl.items()}, tree=kind == "NTvl")
    return NUuids({k: make("NList", rng, hostile) for k in
                   [gen.ident(rng) for _ in range(rng.choice([0, 1, 2, 4]))]})


def fresh(obj, realm):
    """A new object that refers to the saved state of obj"""
    ref = lib.Reference(
        type(obj).__name__ if not hasattr(obj, "mtree") else "MTreeNode",
        location(obj))
    if isinstance(obj, (lib.FileTree, lib.DatasetTree)):
        return type(obj)(None, realm, ref)
    if isinstance(obj, lib.Metadata):
        return lib.Metadata(realm, ref)
    if isinstance(obj, lib.MetadataRootRecord):
        return lib.MetadataRootRecord.get_empty_instance(realm, ref)
    if isinstance(obj, lib.Text):
        return lib.Text(None, realm, ref)
    return type(obj)(realm=realm, reference=ref)


def metas(node, obj):
    """All (model, metadata object) below an object"""
    if isinstance(node, NMeta):
        return [(node, obj)]
    out = []
    if isinstance(node, NFiles):
        for p, n in node.d.items():
            out += metas(n, obj.get_metadata(lib.P(posix(p))))
    elif isinstance(node, NMrr):
        if node.dlm is not None:
            out += metas(node.dlm, obj.get_dataset_level_metadata())
        if node.files is not None:
            out += metas(node.files, obj.get_file_tree())
    elif isinstance(node, NDatasets):
        for p, n in node.d.items():
            out += metas(n, obj.get_metadata_root_record(lib.P(posix(p))))
    elif isinstance(node, NList):
        for (v, p), (_, n) in node.d.items():
            out += metas(n, obj.get_versioned_element(v, lib.P(posix(p)))[2])
    elif isinstance(node, NUuids):
        import uuid
        for k, n in node.d.items():
            out += metas(n, obj.get_version_list(uuid.UUID(k)))
    return out


def snapshot(realm):
    out = {}
    for root, dirs, files in os.walk(realm):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as fd:
                out[p] = hashlib.sha1(fd.read()).hexdigest()
    return out


def read_other(kind_name, loc, realm, cls_name):
    cls = getattr(lib, cls_name)
    ref = lib.Reference(
        "MTreeNode" if cls_name in ("FileTree", "DatasetTree") else cls_name, loc)
    if cls_name in ("FileTree", "DatasetTree"):
        return dump(cls(None, realm, ref))
    if cls_name == "Metadata":
        return dump(cls(realm, ref))
    if cls_name == "MetadataRootRecord":
        return dump(cls.get_empty_instance(realm, ref))
    return dump(cls(realm=realm, reference=ref))


def text_case(case, ctx, rng):
    a, b = ctx.repo("a"), ctx.repo("b")
    content = gen.string(rng) + "\n" + gen.string(rng)
    t = lib.Text(content)
    if case["state"] != "new":
        t.write_out(a)
    if case["state"] in ("purged", "partial"):
        t.purge()
    c = t.deepcopy(new_destination=b)
    c.ensure_mapped()
    t.ensure_mapped()
    check(c.content == content, f"copied text differs: {c.content!r}")
    check(t.content == content, f"text differs after it was copied: {t.content!r}")
    with store.Decoder(b) as d:
        check(d.get(location(c), "blob").decode() == content, "stored text differs")
    ctx.count("copies")
    ctx.saw("text", case["state"], content)


class Twin(World):
    """Two histories in one repository must not load each other's heads"""
    OPS = [(n, w) for n, w in World.OPS if n not in ("reload", "copy")]


def twins_case(case, ctx, rng):
    """A store and its copy are changed, saved, and purged independently"""
    a, b = ctx.repo("a"), ctx.repo("b")
    if case["same"]:
        b = a
    first = Twin(a, rng, ctx, case["hostile"])
    first.seed_store()
    for _ in range(case["before"]):
        first.step()
    if rng.random() < 0.7:
        first.write(first.n_tvl, first.tvl)
        first.write(first.n_us, first.us)
    second = Twin(b, rng, ctx, case["hostile"])
    for name, n_name in (("tvl", "n_tvl"), ("us", "n_us")):
        node, obj = getattr(first, n_name), getattr(first, name)
        twin = copy.deepcopy(node)
        setattr(second, name, obj.deepcopy(new_destination=b))
        twin.mark_saved()
        twin.detach()
        setattr(second, n_name, twin)
        ctx.count("copies")
    for i in range(case["steps"]):
        world, other = rng.choice([(first, second), (second, first)])
        world.step()
        if i % 4 == 3:
            try:
                other.compare(other.n_tvl, other.tvl)
                other.compare(other.n_us, other.us)
            except Violation as e:
                raise Violation(
                    f"a top-level object and its copy in "
                    f"{'the same' if case['same'] else 'another'} repository "
                    f"are not independent: {e}")
            ctx.count("twin_checks")
    for world in (first, second):
        for node, obj in ((world.n_tvl, world.tvl), (world.n_us, world.us)):
            world.write(node, obj)
            # the refs of a shared repository show the last write only
            with store.Decoder(world.realm) as d:
                got = decode(d, obj, location(obj))
            diff = model.diff(node.flat(), got)
            check(diff is None, f"stored twin differs: {diff}")
            obj.purge()
            node.detach()
            world.compare(node, obj)
    ctx.saw("twins", case["same"], model.digest(first.n_us.flat()),
            model.digest(second.n_us.flat()))


def prefill(node, b, how, ctx):
    """The destination has some of the objects already, e.g. because another
    copying was interrupted, and nothing refers to them"""
    c = ctx.repo("c")
    node.build().write_out(c)
    for oid, kind in store.all_objects(c).items():
        if how == "all" or how == kind:
            os.makedirs(os.path.join(b, ".git/objects", oid[:2]), exist_ok=True)
            shutil.copy(os.path.join(c, ".git/objects", oid[:2], oid[2:]),
                        os.path.join(b, ".git/objects", oid[:2], oid[2:]))
            ctx.count("objects_there_before")
    lib.flush_object_references(Path(c))
    shutil.rmtree(c)


def run_case(case, ctx):
    rng = gen.rng_for("c08", case["seed"])
    if case["kind"] == "twins":
        return twins_case(case, ctx, rng)
    kind, state = case["kind"], case["state"]
    if kind == "text":
        return text_case(case, ctx, rng)
    a, b = ctx.repo("a"), ctx.repo("b")
    if case["same"]:
        b = a
    node = make(kind, rng, case["hostile"])
    obj = node.build()
    if state != "new":
        obj.write_out(a)
        if not case["same"]:
            lib.flush_object_references(Path(a))
    empty_loc = state != "new" and location(obj) == store.NONE
    if state in ("loaded", "purged", "partial") and not empty_loc:
        node.detach()
        if rng.random() < 0.5:
            obj.purge()
        else:
            obj = fresh(obj, a)
        if state == "loaded":
            obj.ensure_mapped()
            dump(obj)
        elif state == "partial":
            all_metas = metas(node, obj)
            if all_metas and rng.random() < 0.5:
                all_metas[0][1].purge()
    elif state == "modified":
        for n, m in metas(node, obj)[:2]:
            run = gen.run(rng, case["hostile"])
            model.add_run(m, run)
            n.meta.add(run)
    if not case["same"] and case["prefilled"]:
        prefill(node, b, case["prefilled"], ctx)
    expected = node.flat()
    saved_before = obj.is_saved_on(a)
    before = snapshot(a)

    kwargs = {}
    if kind in ("NList", "NTvl") and case["prefix"]:
        prefix = gen.prefix(rng, case["hostile"])
        kwargs["path_prefix"] = lib.P(posix(prefix))
    with Spy() as spy:
        copied = obj.deepcopy(new_destination=b, **kwargs)
    ctx.count("copies")
    check(type(copied) is type(obj), f"copy is a {type(copied).__name__}")
    if not case["same"]:
        check(snapshot(a) == before, f"copying a {state} {kind[1:]} changes the "
                                     f"repository of the source")
        check(obj.is_saved_on(a) == saved_before,
              "copying changes the save state of the source")
    expected_copy = expected
    if kwargs:
        expected_copy = NList({(v, prefix + p): e for (v, p), e in node.d.items()}).flat()
    # decoded from the destination
    loc = location(copied)
    check(copied.is_saved_on(b), "copy is not saved on the destination")
    if loc != store.NONE:
        with store.Decoder(b) as d:
            try:
                got = decode(d, copied, loc)
            except (store.DecodeError, KeyError) as e:
                raise Violation(f"copy of a {state} {kind[1:]} is not complete in "
                                f"the destination: {e}")
        diff = model.diff(expected_copy, got)
        check(diff is None, f"stored copy of a {state} {kind[1:]} differs: {diff}")
    if kind in ("NTvl", "NUuids"):
        ref = lib.REF_TVL if kind == "NTvl" else lib.REF_UUID
        check(store.refs(b).get(ref) == loc,
              "copy of a top-level object is not published in the destination")
    # the source still has its content
    diff = model.diff(expected, dump(obj))
    check(diff is None, f"source differs after copying: {diff}")

    if not case["same"]:
        # independence
        lib.flush_object_references(Path(b))
        target = metas(node, obj)
        source_is_mutable = bool(target)
        if source_is_mutable:
            n, m = target[0]
            run = gen.run(rng, False)
            model.add_run(m, run)
            for _, iset in m.extractor_runs:
                for inst in iset:
                    if isinstance(inst.metadata_content, dict):
                        inst.metadata_content["mutated"] = True
        os.rename(a, a + "-gone")
        ctx.count("a_deleted")
        diff = model.diff(expected_copy, dump(copied))
        check(diff is None, f"copy changes with the source, or depends on it: {diff}")
        if loc != store.NONE:
            got = session(read_other, kind, loc, b, type(obj).__name__,
                          what="reading the copy")
            diff = model.diff(expected_copy, got)
            check(diff is None, f"another process reads the copy as: {diff}")
            if kind in ("NTvl", "NUuids"):
                store.git(b, "gc", "-q", "--prune=now")
                with store.Decoder(b) as d:
                    try:
                        got = decode(d, copied, loc)
                    except store.DecodeError as e:
                        raise Violation(f"garbage collection damaged the copy: {e}")
                check(model.diff(expected_copy, got) is None, "copy damaged by gc")
                ctx.count("copies_collected")
        os.rename(a + "-gone", a)
        # modifications of the copy do not reach the source
        if not kwargs:
            nodes = copy.deepcopy(node)
            for n, m in metas(nodes, copied)[:2]:
                model.add_run(m, gen.run(rng, False))
            if source_is_mutable and state in ("new", "modified"):
                n, m = target[0]
                got = {model.canon([e, i.metadata_content]) for e, s in m.extractor_runs for i in s}
                check(model.canon([run["extractor"], {**run["content"], "mutated": True}]) in got
                      , "source lost its modification")
            elif saved_before and loc != store.NONE and location(obj) != store.NONE:
                diff = model.diff(expected, dump(fresh(obj, a))) if not source_is_mutable else None
                check(diff is None, f"source differs after modifying the copy: {diff}")
            ctx.count("independence_checks")
    ctx.saw(kind, state, model.digest(expected))
    ctx.sample = f"{kind[1:]} {state} -> {'same' if case['same'] else 'other'} repository: {str(expected)[:200]}"
