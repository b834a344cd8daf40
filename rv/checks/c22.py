"""C22: several stores in one process do not influence each other"""
import os
from pathlib import Path

from .. import gen, lib, model, store
from ..proc import session
from ..runner import Violation, check
from ..world import NDatasets, NList, NMeta, NUuids, World, node_mrr
from .c02 import read_back

LEVEL = "exploration"
RULE = ("Each case interleaves random histories on two or three stores in one "
        "process, including flushes, copies between the stores, and sessions, or saves "
        "one changing object graph to several stores in turn, or saves partly loaded objects of one store to another one "
        "(must be refused, or complete there). "
        "Afterwards every store must hold exactly its own content, its object "
        "index must name only objects that exist in it, and after deleting all "
        "other stores and a garbage collection it must still be complete. "
        "Non-trivial: distinct final contents.")
ASSUMPTIONS = []
REQUIRED = {"stores_compared": 24, "index_entries": 50, "switches": 200,
            "cross_refused": 10, "cross_saved": 10}


def cases(tier, seed):
    n = {"quick": 32, "thorough": 640}[tier]
    return [{"seed": f"{seed}/{i}", "n": 2 + i % 2, "hostile": i % 5 == 4,
             "kind": "same" if i % 8 > 4 else "several"} for i in range(n)] + [
        {"seed": f"{seed}/c{i}", "n": 2, "hostile": i % 5 == 4, "kind": "cross"}
        for i in range(n // 2)] + [
        {"seed": f"{seed}/p{i}", "n": 2 + i // 3 % 2, "hostile": i % 5 == 4,
         "kind": "places", "how": ["cwd", "link", "swap"][i % 3]}
        for i in range(n // 2)]


def decode(realm):
    refs = store.refs(realm)
    with store.Decoder(realm) as dec:
        return {"tvl": (model.flat_list(dec.version_list(lib.REF_TVL))
                        if lib.REF_TVL in refs else None),
                "us": (model.flat_uuid_set(dec.uuid_set(lib.REF_UUID))
                       if lib.REF_UUID in refs else None)}


def same_objects(case, ctx, rng):
    """One object graph is changed and saved to several stores in turn"""
    realms = [ctx.repo(f"store{i}") for i in range(case["n"])]
    node = NList({(gen.version(rng), gen.prefix(rng)): (str(rng.random()), NDatasets(
        {p: node_mrr(m) for p, m in gen.dataset_tree(rng, None, case["hostile"], 2).items()}))
        for _ in range(rng.randint(1, 2))}, True)
    uuids = NUuids({gen.ident(rng): NList({(gen.version(rng), ()): (
        "1.0", node_mrr(gen.mrr(rng, case["hostile"], 2)))})})
    tvl, us = node.build(), uuids.build()
    held = {r: {"tvl": None, "us": None} for r in realms}
    last = None
    for _ in range(14):
        action = rng.choice(["run", "file", "element", "save", "save", "everywhere", "flush"])
        ctx.log(action)
        key = rng.choice(sorted(node.d))
        tree = tvl.get_dataset_tree(key[0], lib.P(model.posix(key[1])))[2]
        records = node.d[key][1].d
        path = rng.choice(sorted(records)) if records else None
        if action == "element":
            key = (gen.version(rng), gen.prefix(rng))
            new = NDatasets({(): node_mrr(gen.mrr(rng, case["hostile"], 2))})
            tvl.set_dataset_tree(key[0], "2.0", lib.P(model.posix(key[1])), new.build())
            node.d[key] = ("2.0", new)
        elif action == "run" and path is not None and records[path].dlm is not None:
            run = gen.run(rng, case["hostile"])
            model.add_run(tree.get_metadata_root_record(lib.P(model.posix(path)))
                          .get_dataset_level_metadata(), run)
            records[path].dlm.meta.add(run)
        elif action == "file" and path is not None and records[path].files:
            files = records[path].files
            p = gen.path(rng, False, 2)
            if gen.compatible(files.d, p):
                n = NMeta(gen.meta(rng, case["hostile"], 1))
                tree.get_metadata_root_record(lib.P(model.posix(path))).get_file_tree(
                    ).add_metadata(lib.P(model.posix(p)), n.build())
                files.d[p] = n
        elif action in ("save", "everywhere"):
            chosen = rng.sample(realms, len(realms) if action == "everywhere" else 1)
            for r in chosen:
                if last is not None and last != r:
                    ctx.count("switches")
                last = r
                for name, obj, n in (("tvl", tvl, node), ("us", us, uuids)):
                    if rng.random() < 0.8:
                        obj.write_out(r)
                        held[r][name] = n.flat()
                for x in realms:
                    d = model.diff(held[x], decode(x))
                    check(d is None, f"after saving the same objects to store "
                                     f"{realms.index(r)}, store {realms.index(x)} holds: {d}")
        elif action == "flush":
            lib.flush_object_references(Path(rng.choice(realms)))
    for r in realms:
        tvl.write_out(r)
        us.write_out(r)
        lib.flush_object_references(Path(r))
    expected = {"tvl": node.flat(), "us": uuids.flat()}
    for i, realm in enumerate(realms):
        for other in realms:
            if other != realm:
                os.rename(other, other + "-hidden")
        objects = store.all_objects(realm)
        for kind, oid in store.index_entries(realm):
            check(objects.get(oid) == kind,
                  f"the object index of store {i} names the {kind} {oid}, which is missing there")
            ctx.count("index_entries")
        store.git(realm, "gc", "-q", "--prune=now")
        d = model.diff(expected, session(read_back, realm, what="reading a store"))
        check(d is None, f"store {i}, saved from the same objects: {d}")
        d = model.diff(expected, decode(realm))
        check(d is None, f"store {i} after garbage collection: {d}")
        ctx.count("stores_compared")
        ctx.saw(model.digest(expected), i)
        for other in realms:
            if other != realm:
                os.rename(other + "-hidden", other)
    ctx.sample = f"same objects in {case['n']} stores"


def load_all(o):
    o.ensure_mapped()
    for s in list(getattr(o, "mtree", o).modifiable_sub_objects):
        load_all(s)


def cross(case, ctx, rng):
    """Objects that were loaded from one store are saved to another one"""
    a, b = ctx.repo("a"), ctx.repo("b")
    world = World(a, rng, ctx, case["hostile"])

    def save(node, obj):
        world._written(node, obj, obj.write_out(a))

    world.seed_store()
    for _ in range(10):
        world.step()
    world.op_reload()
    held = {"tvl": None, "us": None}
    if rng.random() < 0.5:
        other = World(b, rng, ctx, case["hostile"])
        other.seed_store()
        held = other.final()
        lib.flush_object_references(Path(b))
    # from here on, only what is needed is in memory
    save(world.n_tvl, world.tvl)
    save(world.n_us, world.us)
    world.published = {"tvl": None, "us": None}
    for node, obj in ((world.n_tvl, world.tvl), (world.n_us, world.us)):
        obj.purge()
        node.detach()
    changes = ["op_add_run", "op_add_file", "op_set_dlm", "op_set_element", "op_add_dataset"]
    for _ in range(6):
        for _ in range(rng.choice([0, 1, 1, 2])):
            getattr(world, rng.choice(changes))()
        if rng.random() < 0.5:
            world.pick()
        name, node, obj = rng.choice([("tvl", world.n_tvl, world.tvl), ("us", world.n_us, world.us)])
        complete = rng.random() < 0.25
        if complete:
            load_all(obj)
        ctx.log("save to the other store", name, complete)
        try:
            obj.write_out(b)
        except RuntimeError as e:
            check(not complete, f"saving a completely loaded object to another store fails: {e}")
            ctx.count("cross_refused")
        else:
            held[name] = node.flat()
            if obj.mapped:
                check(obj.is_saved_on(b), "object is not saved on the store it was saved to")
            ctx.count("cross_saved")
        try:
            got = decode(b)
        except (store.DecodeError, KeyError) as e:
            raise Violation(f"after saving a partly loaded object to another store, that store "
                            f"cannot be read: {e}")
        d = model.diff(held, got)
        check(d is None, f"after saving an object of one store to another one, that one holds: {d}")
        if rng.random() < 0.3:
            save(node, obj)
            if rng.random() < 0.5:
                obj.purge()
                node.detach()
    world.published = {"tvl": None, "us": None}
    expected = {"tvl": world.n_tvl.flat(), "us": world.n_us.flat()}
    save(world.n_tvl, world.tvl)
    save(world.n_us, world.us)
    lib.flush_object_references(Path(a))
    lib.flush_object_references(Path(b))
    for realm, other, content in ((a, b, expected), (b, a, held)):
        os.rename(other, other + "-hidden")
        objects = store.all_objects(realm)
        for kind, oid in store.index_entries(realm):
            check(objects.get(oid) == kind,
                  f"the object index of store {realm[-1]} names the {kind} {oid}, which is missing there")
            ctx.count("index_entries")
        store.git(realm, "gc", "-q", "--prune=now")
        d = model.diff(content, decode(realm))
        check(d is None, f"store {realm[-1]} alone: {d}")
        os.rename(other + "-hidden", other)
        ctx.count("stores_compared")
        ctx.saw(model.digest(content), realm == a)


def places(case, ctx, rng):
    """One name stands for different stores, one after the other"""
    how = case["how"]
    realms = [os.path.realpath(ctx.repo(f"place{i}")) for i in range(case["n"])]
    name = rng.choice([".", "x/..", "./"]) if how == "cwd" else ctx.path("name")
    current = None

    def enter(i):
        nonlocal current
        if current == i:
            return
        ctx.count("places_changed")
        if how == "cwd":
            os.chdir(realms[i])
            os.makedirs("x", exist_ok=True)
        elif how == "link":
            if current is not None:
                os.unlink(name)
            os.symlink(realms[i], name)
        else:
            # objects are registered for the repository with a name,
            # this can only be kept until the repository is moved
            if current is not None:
                lib.flush_object_references(Path(name))
                os.rename(name, realms[current])
            os.rename(realms[i], name)
        current = i

    old = os.getcwd()
    try:
        worlds = []
        for i in range(case["n"]):
            worlds.append(World(name, rng, ctx, case["hostile"]))
            enter(i)
            worlds[i].seed_store()
        for _ in range(20 * case["n"]):
            i = rng.randrange(case["n"])
            if i != current:
                ctx.count("switches")
            enter(i)
            if rng.random() < 0.05:
                # the same content is stored everywhere
                with lib.locked_backend(Path(name)):
                    same = model.build_metadata(model.Meta([{
                        "ts": 1.5, "extractor": "core", "author": "a", "email": "e",
                        "version": "1", "params": {}, "content": {}}]))
                    location = same.write_out(name).location
                with store.Decoder(realms[i] if how != "swap" else name) as dec:
                    dec.metadata(location)
            worlds[i].step()
        expected = []
        for i in range(case["n"]):
            enter(i)
            expected.append(worlds[i].final())
        order = list(range(case["n"]))
        rng.shuffle(order)
        for i in order:
            enter(i)
            lib.flush_object_references(Path(name))
        enter(0)
        if how == "swap":
            os.rename(name, realms[0])
    finally:
        os.chdir(old)
    for i, realm in enumerate(realms):
        objects = store.all_objects(realm)
        for kind, oid in store.index_entries(realm):
            check(objects.get(oid) == kind,
                  f"the object index of store {i} names the {kind} {oid}, which is missing there ({how})")
            ctx.count("index_entries")
        os.rename(realm, realm + "-alone")
        realm += "-alone"
        store.git(realm, "gc", "-q", "--prune=now")
        try:
            d = model.diff(expected[i], decode(realm))
        except (store.DecodeError, KeyError) as e:
            d = e
        check(d is None, f"store {i}, used with the same name as others ({how}), "
                         f"after garbage collection: {d}")
        d = model.diff(expected[i], session(read_back, realm, what="reading a store"))
        check(d is None, f"store {i}, used with the same name as others ({how}): {d}")
        ctx.count("stores_compared")
        ctx.saw(model.digest(expected[i]), how)
    ctx.sample = f"{case['n']} stores with one name ({how})"


def run_case(case, ctx):
    if case["kind"] == "places":
        return places(case, ctx, gen.rng_for("c22", case["seed"]))
    rng = gen.rng_for("c22", case["seed"])
    if case["kind"] == "cross":
        return cross(case, ctx, rng)
    if case["kind"] == "same":
        return same_objects(case, ctx, rng)
    realms = [ctx.repo(f"store{i}") for i in range(case["n"])]
    worlds = [World(r, rng, ctx, case["hostile"]) for r in realms]
    for w in worlds:
        w.seed_store()
    last = None
    for _ in range(25 * case["n"]):
        w = rng.choice(worlds)
        if w is not last:
            ctx.count("switches")
        last = w
        if rng.random() < 0.1:
            copy_between(rng.sample(worlds, 2), rng, ctx)
        else:
            w.step()
    expected = [w.final() for w in worlds]
    order = list(range(case["n"]))
    rng.shuffle(order)
    for i in order:
        lib.flush_object_references(Path(realms[i]))
    for i, realm in enumerate(realms):
        got = session(read_back, realm, what="reading a store")
        d = model.diff(expected[i], got)
        check(d is None, f"store {i} of {case['n']}: {d}")
        objects = store.all_objects(realm)
        for kind, oid in store.index_entries(realm):
            check(objects.get(oid) == kind,
                  f"the object index of store {i} names the {kind} {oid}, which "
                  f"is {objects.get(oid, 'missing')} there")
            ctx.count("index_entries")
        store.git(realm, "gc", "-q", "--prune=now")
        with store.Decoder(realm) as dec:
            got = {"tvl": model.flat_list(dec.version_list(lib.REF_TVL)),
                   "us": model.flat_uuid_set(dec.uuid_set(lib.REF_UUID))}
        d = model.diff(expected[i], got)
        check(d is None, f"store {i} after garbage collection: {d}")
        ctx.count("stores_compared")
        ctx.saw(model.digest(expected[i]))
    ctx.sample = f"{case['n']} stores, sizes {[len(str(e)) for e in expected]}"


def copy_between(pair, rng, ctx):
    """Copy a record of one store into the other one"""
    import copy
    from ..world import NMrr, NDatasets
    source, destination = pair
    node, obj = source.pick(NMrr)
    target, tree = destination.pick(NDatasets)
    if node is None or target is None:
        return
    p = gen.path(rng, False, 2) + ("copy%d" % rng.randint(0, 10 ** 6),)
    n = copy.deepcopy(node)
    n.saved_at = 0
    n.detach()
    copied = obj.deepcopy(new_destination=destination.realm)
    tree.add_dataset(lib.P(model.posix(p)), copied)
    for x in n.subtree():
        x.touch()
    target.d[p] = n
    n.mark_saved()
    target.touch()
    ctx.count("copies_between_stores")
