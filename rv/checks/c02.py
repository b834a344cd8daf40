"""C02: no modification is ever lost"""
from .. import gen, lib, model, store
from ..proc import session
from ..runner import check
from ..world import (
    NDatasets, NFiles, NList, NMeta, NMrr, NUuids, World, decode, dump, location)

LEVEL = "exploration"
RULE = ("Each case is a random history of 30 to 60 operations (extend, replace, "
        "remove, share, save whole or in part, unget, purge, load, copy, start a "
        "new session) on a store with a tree version list and a UUID set. A "
        "model with object identity predicts the content; dumps are compared "
        "during the history, after the final save by an independent decoder, "
        "and by another process through the library. A second kind of cases has one container "
        "(of each class) of 2 to 17 elements whose contents are taken from a pool of three values, exchanged, "
        "and saved on their own, before the container is saved. Non-trivial: distinct "
        "final content.")
ASSUMPTIONS = [
    "Objects are reached from the two top-level objects; handles to elements "
    "of containers that were purged in the meantime are not used any more",
    "One repository per history, one session at a time",
]
REQUIRED = {"writes": 200, "purges": 100, "ungets": 30, "refused_purges": 10,
            "reloads": 10, "final_comparisons": 20, "sibling_saves": 400}


def cases(tier, seed):
    n = {"quick": 64, "thorough": 1200}[tier]
    return [{"seed": f"{seed}/{i}", "hostile": i % 4 == 3,
             "steps": 30 + (i * 7) % 31} for i in range(n)] + [
        {"seed": f"{seed}/s{i}", "kind": SIBLINGS[i % len(SIBLINGS)]}
        for i in range({"quick": 96, "thorough": 1200}[tier])]


SIBLINGS = ["files", "deep files", "datasets", "records", "trees", "uuids"]
IDENT = "11111111-2222-4333-8444-55555555555%x"


def leaf_meta(value):
    return NMeta(model.Meta([{
        "ts": 1.5, "extractor": "core", "author": "a", "email": "e", "version": "1",
        "params": {"p": 1}, "content": {"value": value}}]))


def siblings(case, ctx):
    """Elements of one container are changed, exchanged, and saved on their own"""
    rng = gen.rng_for("c02s", case["seed"])
    realm = ctx.repo("repo")
    n = rng.choice([2, 3, 5, 8, 9, 17])
    kind = case["kind"]
    leaves = [leaf_meta(rng.randrange(3)) for _ in range(n)]
    records = [NMrr(IDENT % (i % 16), "v", m, None) for i, m in enumerate(leaves)]
    if kind == "files":
        root = NFiles({(f"f{i}",): m for i, m in enumerate(leaves)})
    elif kind == "deep files":
        root = NFiles({(f"d{i % 2}", f"e{i % 3}", f"f{i}"): m for i, m in enumerate(leaves)})
    elif kind == "datasets":
        root = NDatasets({(f"s{i % 3}", f"t{i}"): r for i, r in enumerate(records)})
    elif kind == "records":
        root = NList({("v", (f"p{i}",)) if i % 2 else (f"v{i}", ()): ("1", r)
                      for i, r in enumerate(records)})
    elif kind == "trees":
        root = NList({(f"v{i // 2}", (f"p{i}",)): ("1", NDatasets({("s",): r}))
                      for i, r in enumerate(records)}, tree=True)
    else:
        root = NUuids({"11111111-2222-4333-8444-5555555555%02x" % i: NList({("v", ()): ("1", r)})
                       for i, r in enumerate(records)})
    obj = root.build()

    def chain(i):
        """The elements from the container to the i-th metadata object"""
        P, parts = lib.P, []
        if isinstance(root, NFiles):
            node = obj.mtree
            for name in list(root.d)[i]:
                node = node.get_child(name)
                parts.append(node)
            parts[-1].ensure_mapped()
            return parts
        if isinstance(root, NDatasets):
            parts.append(obj.get_metadata_root_record(P(model.posix(list(root.d)[i]))))
        elif isinstance(root, NList):
            v, p = list(root.d)[i]
            parts.append(obj.get_versioned_element(v, P(model.posix(p)))[2])
            if kind == "trees":
                parts.append(parts[-1].get_metadata_root_record(P("s")))
        else:
            import uuid
            parts.append(obj.get_version_list(uuid.UUID(list(root.d)[i])))
            parts.append(parts[-1].get_versioned_element("v", P(""))[2])
        parts.append(parts[-1].get_dataset_level_metadata())
        return parts

    def put(i, value):
        run = list(leaf_meta(value).meta.runs.values())[0]
        model.add_run(chain(i)[-1], run)
        leaves[i].meta.add(run)

    def value(i):
        return list(leaves[i].meta.runs.values())[0]["content"]["value"]

    def save(i):
        for part in reversed(chain(i)[rng.randint(0, 1):]):
            part.write_out(realm)

    def verify(where):
        loc = obj.write_out(realm).location
        with store.Decoder(realm) as d:
            got = decode(d, obj, loc)
        difference = model.diff(root.flat(), got)
        check(difference is None, f"{kind} of {n} elements, saved after {where}: {difference}")
        ctx.count("sibling_saves")

    verify("creation")
    for _ in range(12):
        op = rng.choice(["put", "exchange", "exchange", "rotate", "purge", "save all"])
        i, j = rng.sample(range(n), 2)
        changed = [i]
        if op == "put":
            put(i, rng.randrange(3))
        elif op == "exchange":
            a, b = value(i), value(j)
            put(i, b)
            put(j, a)
            changed = [i, j]
        elif op == "rotate":
            values = [value(k) for k in range(n)]
            for k in range(n):
                put(k, values[k - 1])
            changed = list(range(n))
        elif op == "purge":
            obj.write_out(realm)
            obj.purge()
        else:
            changed = list(range(n))
        if op != "purge":
            for k in changed:
                if rng.random() < 0.9:
                    save(k)
        if rng.random() < 0.8:
            verify(op)
    difference = model.diff(root.flat(), dump(obj))
    check(difference is None, f"{kind} shows: {difference}")
    verify("the end")
    ctx.saw(kind, n, model.digest(root.flat()))


def read_back(realm):
    tvl, us = lib.get_top_level_metadata_objects("git", realm)
    check(tvl is not None and us is not None,
          "published top-level objects are reported as missing")
    return {"tvl": model.dump_list(tvl), "us": model.dump_uuid_set(us)}


def run_case(case, ctx):
    if case.get("kind") in SIBLINGS:
        return siblings(case, ctx)
    rng = gen.rng_for("c02", case["seed"])
    realm = ctx.repo("repo")
    world = World(realm, rng, ctx, case["hostile"])
    world.seed_store()
    history = []
    for _ in range(case["steps"]):
        history.append(world.step())
    expected = world.final()
    ctx.count("operations", len(history))
    got = session(read_back, realm, what="reading the final state")
    d = model.diff(expected, got)
    check(d is None, f"a new session reads: {d}")
    ctx.count("final_comparisons")
    ctx.saw(model.digest(expected))
    ctx.sample = " ".join(history)
