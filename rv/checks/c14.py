"""C14: the object index holds exactly what was registered"""
import os
from pathlib import Path

from .. import encode, gen, lib, model, store
from ..proc import session
from ..runner import Violation, check
from dataladmetadatamodel.mapper.gitmapper.objectreference import (
    add_blob_reference, add_tree_reference)
from dataladmetadatamodel.mapper.gitmapper.treeupdater import (
    DirEntry, EntryType, PathInfo, add_paths)

LEVEL = "exploration"
RULE = ("Random registrations of object names (with 0 to 39 leading digits in common with each other "
        "and with existing entries, 1 to 700 per flush, repeated ones, both types) for one "
        "to three repositories, given in different spellings, interleaved with flushes, in several sessions, "
        "with and without an old-format index. After every flush the index "
        "is decoded independently and compared with a set model per repository, and its "
        "git trees are checked for duplicates and order. A second "
        "kind of cases does the same for the tree updater with arbitrary "
        "paths, including refused ones. Non-trivial: distinct index contents.")
ASSUMPTIONS = ["An object name is registered with one type only"]
REQUIRED = {"flushes": 100, "registrations": 1500, "entries_compared": 2000,
            "shared_prefixes": 300, "migrations": 8, "idle_flushes": 20,
            "path_updates": 60, "path_refusals": 15}


def cases(tier, seed):
    n = {"quick": 40, "thorough": 900}[tier]
    return [
        {"seed": f"{seed}/m{i}", "kind": "many", "n": [1500, 2600, 4100][i % 3],
         "legacy": i % 2 == 1}
        for i in range({"quick": 2, "thorough": 12}[tier])] + [
        {"seed": f"{seed}/{i}", "kind": "paths" if i % 4 == 3 else "index",
             "legacy": i % 4 in (1, 2), "big": i % 16 == 0} for i in range(n)]


class Names:
    def __init__(self, rng):
        self.rng, self.known = rng, []

    def new(self):
        rng = self.rng
        if self.known and rng.random() < 0.75:
            base = rng.choice(self.known)
            n = rng.choice([1, 2, 3, 3, 4, 6, 6, 7, 8, 9, 9, 10, 20, 38, 39])
        else:
            base, n = "", 0
        name = base[:n] + "%040x" % rng.getrandbits(160)
        name = name[:40]
        if n and name not in self.known:
            self.shared = getattr(self, "shared", 0) + 1
        if name not in self.known:
            self.known.append(name)
        return name


def spellings(ctx, realm):
    link = realm + "-link"
    if not os.path.islink(link):
        os.symlink(realm, link)
    return [realm, Path(realm), link, store.relative(realm), realm + "/",
            os.path.join(os.path.dirname(realm), ".", os.path.basename(realm))]


def check_trees(realm):
    """All levels of the index are well-formed git trees"""
    if lib.REF_OBJECTS not in store.refs(realm):
        return
    with store.Decoder(realm) as d:
        def walk(oid, depth):
            entries = d.tree(oid)
            names = [n for _, n, _ in entries]
            check(len(set(names)) == len(names), f"duplicated index entries {names}")
            keys = [n + "/" if m == "40000" else n for m, n, _ in entries]
            check(keys == sorted(keys), f"index tree is not sorted: {keys}")
            check(names, "empty tree in the index")
            for m, n, o in entries:
                if depth < 3:
                    walk(o, depth + 1)
        walk(lib.REF_OBJECTS, 0)


def put_legacy(realm, rng, names, types):
    """Create an old-format index; returns its entries"""
    entries = set()
    for kind, ref, mode in (("tree", lib.REF_LEGACY_TREES, "040000"),
                            ("blob", lib.REF_LEGACY_BLOBS, "100644")):
        if rng.random() < 0.2:
            continue
        mine = set()
        for _ in range(rng.choice([0, 1, 5, 30])):
            n = names.new()
            if types.setdefault(n, kind) == kind:
                mine.add((kind, n))
        text = "".join(f"{mode} {k} {n}\t{n}\n" for k, n in sorted(mine))
        tree = store.git(realm, "mktree", "--missing", input=text).strip()
        store.git(realm, "update-ref", ref, tree)
        entries |= mine
    return entries


def index_session(seed, ctx_dir, realms, state, types, names, steps, big, realmless):
    """One process: registrations and flushes. Returns counters and the model"""
    rng = gen.rng_for("c14 session", seed)
    names.rng = rng
    counters = {"flushes": 0, "registrations": 0, "entries_compared": 0,
                "idle_flushes": 0}
    pending = [set() for _ in realms]
    seen = []
    for _ in range(steps):
        r = rng.random()
        i = rng.randrange(len(realms))
        if r < 0.6:
            for _ in range(rng.choice([1, 2, 5, 20, 700 if big else 40])):
                n = (rng.choice(names.known)
                     if names.known and rng.random() < 0.15 else names.new())
                kind = types.setdefault(n, rng.choice(["tree", "blob"]))
                fn = add_tree_reference if kind == "tree" else add_blob_reference
                if realmless:
                    fn(n)
                else:
                    fn(n, rng.choice(spellings(None, realms[i])))
                pending[i].add((kind, n))
                counters["registrations"] += 1
            big = False
            continue
        where = rng.choice([s for s in spellings(None, realms[i])])
        before = store.refs(realms[i])
        idle = not pending[i] and not any(
            x in before for x in (lib.REF_LEGACY_BLOBS, lib.REF_LEGACY_TREES))
        objects = store.all_objects(realms[i]) if idle else None
        others = [store.refs(x) for k, x in enumerate(realms) if k != i]
        lib.flush_object_references(Path(where))
        counters["flushes"] += 1
        state[i] |= pending[i]
        pending[i] = set()
        if idle:
            check(store.refs(realms[i]) == before and
                  store.all_objects(realms[i]) == objects,
                  "a flush without registrations changed the repository")
            counters["idle_flushes"] += 1
        else:
            after = store.refs(realms[i])
            for ref in (lib.REF_LEGACY_BLOBS, lib.REF_LEGACY_TREES):
                check(ref not in after, f"{ref} still exists after the conversion")
        check(others == [store.refs(x) for k, x in enumerate(realms) if k != i],
              "flushing one repository changed another one")
        got = store.index_entries(realms[i])
        check(not state[i] - got, f"index lost or did not get {sorted(state[i] - got)[:3]}")
        check(not got - state[i], f"unexpected index entries {sorted(got - state[i])[:3]}")
        check_trees(realms[i])
        counters["entries_compared"] += len(got)
        seen.append((i, len(got), model.digest(sorted(got))))
    # nothing that is pending is lost
    for i, realm in enumerate(realms):
        lib.flush_object_references(Path(realm))
        state[i] |= pending[i]
        got = store.index_entries(realm)
        check(got == state[i], "index differs after the last flush of the session: "
              f"{sorted(got ^ state[i])[:3]}")
    return counters, state, types, names, seen


def index_case(case, ctx, rng):
    realms = [ctx.repo(f"r{i}") for i in range(rng.choice([1, 2, 3]))]
    names, types = Names(rng), {}
    state = [set() for _ in realms]
    realmless = len(realms) == 1 and rng.random() < 0.3
    for s in range(2):
        if case["legacy"] and (s == 0 or rng.random() < 0.3):
            for i, realm in enumerate(realms):
                if i == 0 or rng.random() < 0.5:
                    names.rng = rng
                    state[i] |= put_legacy(realm, rng, names, types)
                    ctx.count("migrations")
        counters, state, types, names, seen = session(
            index_session, f"{case['seed']}/{s}", ctx.dir, realms, state, types,
            names, 14, case["big"] and s == 0, realmless)
        for k, v in counters.items():
            ctx.count(k, v)
        for x in seen:
            ctx.saw(*x)
    ctx.count("shared_prefixes", getattr(names, "shared", 0))
    ctx.sample = f"{[len(s) for s in state]} entries in {len(realms)} repositories"


# -- tree updater ---------------------------------------------------------------
def read_tree(d, oid):
    out = {}
    for mode, name, o in d.tree(oid):
        if mode == "40000":
            try:
                out[name] = read_tree(d, o)
            except store.DecodeError:
                out[name] = ("tree", o)
        else:
            out[name] = ("blob", o)
    return out


def insert(tree, elements, leaf):
    """Returns False if the addition is in conflict with the tree"""
    head, tail = elements[0], elements[1:]
    existing = tree.get(head)
    if not tail:
        if isinstance(existing, dict):
            return False
        if existing is not None and existing[0] != leaf[0]:
            return False
        tree[head] = leaf
        return True
    if existing is None:
        existing = tree[head] = {}
    if not isinstance(existing, dict):
        return False
    return insert(existing, tail, leaf)


def paths_case(case, ctx, rng):
    import copy
    realm = ctx.repo("repo")
    names = Names(rng)
    current, oid = {}, None
    pool = ["a", "b", "c", "dir", "a-b", "a.b", "a0", "x y", "f1"]
    for _ in range(20):
        infos, trial, ok, used = [], copy.deepcopy(current), True, set()
        for _ in range(rng.choice([1, 2, 6, 20])):
            elements = tuple(rng.choice(pool) for _ in range(rng.randint(1, 4)))
            if elements in used and rng.random() < 0.93:
                continue
            candidate = copy.deepcopy(trial)
            if not insert(candidate, elements, ("blob", "x")) and rng.random() < 0.93:
                continue
            if elements in used:
                ok = False
            used.add(elements)
            leaf = ("blob", names.new())
            infos.append(PathInfo(list(elements), leaf[1], EntryType.File))
            if not insert(trial, elements, leaf):
                ok = False
        if not infos:
            continue
        entries = []
        if oid:
            with store.Decoder(realm) as d:
                entries = [
                    DirEntry(EntryType.Directory if m == "40000" else EntryType.File, o, n)
                    for m, n, o in d.tree(oid)]
        before = {i: (tuple(p.elements), p.object_hash) for i, p in enumerate(infos)}
        try:
            new = add_paths(Path(realm), infos, entries)
        except ValueError:
            check(not ok, f"valid update is refused: {before}")
            ctx.count("path_refusals")
        else:
            check(ok, f"update with conflicting paths is accepted: {before}")
            current, oid = trial, new
            ctx.count("path_updates")
        if oid:
            with store.Decoder(realm) as d:
                got = read_tree(d, oid)
            check(got == current, f"updated tree differs: {got} instead of {current}")
            ctx.saw(model.digest([str(sorted(current))]))


def many_case(case, ctx, rng):
    """Very many registrations for one flush"""
    realm = ctx.repo("repo")
    state = set()
    if case["legacy"]:
        old = encode.Encoder(realm)
        for kind in ("tree", "blob"):
            new = {(kind, "%040x" % rng.getrandbits(160)) for _ in range(case["n"] // 2)}
            store.git(realm, "update-ref", f"refs/datalad/object-references/{kind}s",
                      old.legacy_index(new, kind))
            state |= new

    def register(new):
        for kind, name in new:
            (add_tree_reference if kind == "tree" else add_blob_reference)(name, realm)
        lib.flush_object_references(Path(realm))

    for n in (3, case["n"], 5):
        new = {(rng.choice(["tree", "blob"]), "%040x" % rng.getrandbits(160)) for _ in range(n)}
        session(register, sorted(new))
        state |= new
        got = store.index_entries(realm)
        check(got == state, f"after a flush of {n} entries, the index lacks "
                            f"{len(state - got)} and has {len(got - state)} unexpected entries")
        ctx.count("flushes")
        ctx.count("registrations", n)
        ctx.count("entries_compared", len(got))
    check_trees(realm)
    ctx.saw(case["n"], model.digest(sorted(state)))


def run_case(case, ctx):
    rng = gen.rng_for("c14", case["seed"])
    if case["kind"] == "many":
        return many_case(case, ctx, rng)
    if case["kind"] == "paths":
        paths_case(case, ctx, rng)
    else:
        index_case(case, ctx, rng)
