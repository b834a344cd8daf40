"""C03: operations touch only the elements they need"""
import copy
import gc
import uuid
from pathlib import Path

from .. import gen, lib, model, store
from ..model import posix
from ..proc import session
from ..runner import check
from ..spy import Spy

LEVEL = "exploration"
RULE = ("Each case stores a random store, then sessions look up, extend or "
        "enumerate single randomly chosen elements while every git command is "
        "recorded. The independent decoder computes the objects on the path to "
        "the element; everything that is read or written besides these is "
        "reported. A survey enumerates every container in every way, and asks for unknown elements; it may read "
        "only the container. Non-trivial: distinct (operation, path objects) pairs.")
ASSUMPTIONS = ["All reads and writes are done with git commands"]
REQUIRED = {"lookups": 40, "updates": 15, "noop_saves": 10, "iterations": 15,
            "off_path_objects": 200, "surveys": 200, "copy_samples": 50, "wide_copies": 5}


def cases(tier, seed):
    n = {"quick": 32, "thorough": 600}[tier]
    return [{"seed": f"{seed}/w{i}", "kind": WIDE[i % len(WIDE)]}
            for i in range({"quick": 5, "thorough": 40}[tier])] + [
        {"seed": f"{seed}/{i}", "hostile": i % 3 == 2} for i in range(n)]


def build(m, realm):
    model.build_list(m["tvl"], lib.TreeVersionList).write_out(realm)
    model.build_uuid_set(m["us"]).write_out(realm)
    lib.flush_object_references(Path(realm))


class Paths:
    """Objects on the path to an element, with their direct children"""
    def __init__(self, decoder):
        self.d = decoder
        self.on_path, self.children = set(), set()

    def oid(self, name):
        self.d.get(name)
        return self.d.cache[name][0]

    def tree_path(self, location, parts):
        """objects from the tree at location to the entry at path parts"""
        for p in parts:
            self.on_path.add(location)
            entries = {name: oid for _, name, oid in self.d.tree(location)}
            self.children.update(entries.values())
            location = entries[p]
        self.on_path.add(location)
        return location

    def refs(self, obj):
        if isinstance(obj, dict):
            if "location" in obj and "class_name" in obj:
                self.children.add(obj["location"])
            for v in obj.values():
                self.refs(v)
        elif isinstance(obj, list):
            for v in obj:
                self.refs(v)

    def json(self, name):
        self.on_path.add(self.oid(name))
        obj = self.d.json(name)
        self.refs(obj)
        return obj

    def metadata(self, location):
        self.on_path.add(self.json(location)["location"])

    def entry(self, name, key):
        for e in self.json(name):
            if model.vl_key(e["primary_data_version"], e["path"]) == key:
                return e["dataset_tree"]["location"]


MRR = gen.MRR_NAME


def choose(rng, m):
    """A random element: (root, list key, dataset path or uuid, what, path)"""
    out = []
    for key, (_, tree) in m["tvl"].items():
        for p, mrr in tree.items():
            out.append(("tvl", key, p, mrr))
    for ident, vl in m["us"].items():
        for key, (_, mrr) in vl.items():
            out.append(("us", key, ident, mrr))
    if not out:
        return None
    with_files = [o for o in out if o[3].files]
    root, key, where, mrr = rng.choice(with_files or out)
    targets = ["mrr"]
    if mrr.dlm is not None:
        targets.append("dlm")
    if mrr.files:
        targets += ["file"] * 3
    what = rng.choice(targets)
    path = rng.choice(list(mrr.files)) if what == "file" else None
    return root, key, where, mrr, what, path


def needed(realm, target):
    root, key, where, _, what, path = target
    d = store.Decoder(realm)
    try:
        p = Paths(d)
        if root == "tvl":
            tree = p.entry(lib.REF_TVL, key)
            mrr = p.tree_path(tree, tuple(where) + (MRR,))
        else:
            us = p.oid(lib.REF_UUID)
            vl = p.tree_path(us, (where,))
            mrr = p.entry(vl, key)
            p.on_path.add(mrr)
        obj = p.json(mrr)
        if what == "dlm":
            loc = obj["dataset_level_metadata"]["location"]
            p.on_path.add(loc)
            p.metadata(loc)
        elif what == "file":
            loc = p.tree_path(obj["file_tree"]["location"], path)
            p.metadata(loc)
        # The two top-level objects are always read completely
        on_top = p.on_path | {p.oid(lib.REF_TVL), p.oid(lib.REF_UUID)}
        for name in (lib.REF_TVL,):
            p.refs(d.json(name))
        p.children.update(oid for _, _, oid in d.tree(lib.REF_UUID))
        return p.on_path, on_top, p.on_path | p.children | on_top
    finally:
        d.close()


def get(tvl, us, target):
    root, key, where, _, what, path = target
    if root == "tvl":
        _, _, tree = tvl.get_dataset_tree(key[0], lib.P(posix(key[1])))
        mrr = tree.get_metadata_root_record(lib.P(posix(where)))
    else:
        vl = us.get_version_list(uuid.UUID(where))
        _, _, mrr = vl.get_versioned_element(key[0], lib.P(posix(key[1])))
    if what == "dlm":
        return mrr.get_dataset_level_metadata()
    if what == "file":
        return mrr.get_file_tree().get_metadata(lib.P(posix(path)))
    return mrr


def lookup(realm, target, expected):
    """Look the element up, report the ids that are read and listed"""
    with Spy() as spy:
        tvl, us = lib.get_top_level_metadata_objects("git", realm)
        obj = get(tvl, us, target)
        if target[4] == "mrr":
            content = {"id": str(obj.dataset_identifier),
                       "version": obj.dataset_version}
        else:
            content = model.dump_metadata(obj)
        # saving, although nothing was modified
        n = len(spy.records)
        tvl.write_out(realm)
        us.write_out(realm)
        lib.flush_object_references(Path(realm))
    check(content == expected, f"lookup of {target[4]} returns other content")
    writes = [repr(r) for r in spy.records if r.is_write]
    check(not writes, f"saving an unmodified store wrote: {writes[:3]}")
    late = [repr(r) for r in spy.records[n:]
            if r.command in ("show", "cat-file") and r.ids_in()]
    return ids(spy), len(late)


def ids(spy):
    reads = set()
    listed = set()
    for r in spy.records:
        if r.is_git and not r.is_write:
            reads.update(r.ids_in())
            if r.command in ("cat-file", "ls-tree", "show"):
                listed.update(r.ids_out())
    return reads, listed


def written(spy):
    n = 0
    for r in spy.records:
        if r.command == "hash-object":
            if "--stdin-paths" in r.args:
                n += len([line for line in (r.input or b"").split(b"\n") if line])
            else:
                n += 1
        elif r.command == "mktree":
            n += (r.input or b"").count(b"\n\n") + 1
    return n


def update(realm, target, run):
    with Spy() as spy:
        tvl, us = lib.get_top_level_metadata_objects("git", realm)
        obj = get(tvl, us, target)
        model.add_run(obj, run)
        top = tvl if target[0] == "tvl" else us
        top.write_out(realm)
    reads, listed = ids(spy)
    return reads, listed, written(spy)


def iterate(realm, location, cls):
    """Enumerate a complete tree; nothing of it may stay in memory"""
    if cls == "FileTree":
        tree = lib.FileTree(None, realm, lib.Reference("FileTree", location))
    else:
        tree = lib.DatasetTree(None, realm, lib.Reference("DatasetTree", location))

    def population():
        gc.collect()
        return sum(isinstance(o, (lib.MTreeNode, lib.Metadata,
                                  lib.MetadataRootRecord))
                   for o in gc.get_objects())

    before = population()
    paths = [model.canon(model.parts(p)) for p, _ in tree.get_paths_recursive()]
    after = population()
    check(after <= before,
          f"enumerating an unmapped {cls} leaves {after - before} elements in memory")
    return sorted(paths)


WIDE = ["files", "datasets", "records", "trees", "uuids"]
BOUND = 24


def wide(case, ctx):
    """Copy a container of many containers; only a few are in memory at any time"""
    a, b = store.init(ctx.path("repo")), store.init(ctx.path("other"))
    n, peak, samples = session(copying, a, b, case["kind"], case["seed"])
    ctx.count("copy_samples", samples)
    ctx.count("wide_copies")
    ctx.saw(case["kind"], n, peak)
    ctx.sample = f"{case['kind']} of {n} elements: {peak} in memory at the same time"


def copying(realm, other, kind, seed):
    rng = gen.rng_for("c03 copy", seed)
    n = rng.randint(32, 36)
    metas = [gen.meta(rng, False, 1) for _ in range(n)]
    ident = gen.ident(rng)
    P = lib.P

    def record(i):
        return model.build_mrr(model.Mrr(ident, str(i), None, {(f"d{i}", "f"): metas[i]}))

    if kind == "files":
        o = model.build_file_tree({(f"d{i}", "e", "f"): m for i, m in enumerate(metas)})
    elif kind == "datasets":
        o = lib.DatasetTree()
        for i in range(n):
            o.add_dataset(P(f"d{i}/e"), record(i))
    elif kind in ("records", "trees"):
        o = lib.VersionList() if kind == "records" else lib.TreeVersionList()
        for i in range(n):
            e = record(i)
            if kind == "trees":
                e = lib.DatasetTree()
                e.add_dataset(P("d/e"), record(i))
            o.set_versioned_element(f"v{i % 7}", "1.0", P(f"p{i}"), e)
    else:
        o = lib.UUIDSet()
        for i in range(n):
            vl = lib.VersionList()
            vl.set_versioned_element("v", "1.0", P(""), record(i))
            o.set_version_list(uuid.UUID(int=i + 1), vl)
    o.write_out(realm)
    o.purge()

    def elements():
        gc.collect()
        return [x for x in gc.get_objects() if isinstance(
            x, (lib.MTreeNode, lib.Metadata, lib.MetadataRootRecord, lib.VersionList))]

    before, loaded = len(elements()), []

    def sample(record):
        if record.index % 4 == 0:
            loaded.append(sum(x.mapped for x in elements()))

    with Spy(sample):
        copied = o.deepcopy(new_destination=other)
    kept = len(elements()) - before
    check(kept <= 2, f"copying {kind} leaves {kept} elements in memory")
    check(copied.is_saved_on(other), "the copy is not saved")
    peak = max(loaded)
    check(peak <= BOUND, f"while {kind} are copied, {peak} of {n} elements are in memory at the same time")
    return n, peak, len(loaded)


def survey(realm, m, seed):
    """Enumerations and lookups. Returns [(what, read objects)]"""
    rng = gen.rng_for("c03 survey", seed)
    out = []

    def step(what, fn):
        with Spy() as spy:
            result = fn()
        out.append((what, ids(spy)[0]))
        return result

    tvl, us = step(("tops",), lambda: lib.get_top_level_metadata_objects("git", realm))
    P = lib.P
    got = step(("tops",), lambda: (
        sorted(tvl.versions()), len(tvl),
        sorted((v, str(p)) for v, p in tvl.versions_and_prefix_paths()),
        sorted((v, str(p)) for v, (_, p, _) in tvl.versioned_elements),
        [("v", P("unknown")) in tvl.versions_and_prefix_paths()],
        sorted(map(str, us.uuids()))))
    check(got[1] == len(m["tvl"]) and len(got[2]) == len(got[3]) == got[1]
          and got[5] == sorted(m["us"]), "enumeration reports other elements")
    for what, fn in (
            (("tops",), lambda: tvl.get_versioned_element("unknown", P(""))),
            (("tops",), lambda: us.get_version_list(uuid.UUID(int=7))),
            (("tops",), lambda: list(tvl.get_dataset_trees("unknown")))):
        try:
            step(what, fn)
        except KeyError:
            pass
    for ident in rng.sample(sorted(m["us"]), min(2, len(m["us"]))):
        vl = step(("list", ident), lambda: us.get_version_list(uuid.UUID(ident)))
        step(("list", ident), lambda: (
            len(vl), sorted(vl.versions()), list(vl.versions_and_prefix_paths()),
            list(vl.versioned_elements)))
        if m["us"][ident]:
            v = rng.choice(sorted(m["us"][ident]))[0]
            step(("list elements", ident, v), lambda: list(vl.get_versioned_elements(v)))
    if m["tvl"]:
        key = rng.choice(sorted(m["tvl"]))
        step(("trees", key[0]), lambda: list(tvl.get_dataset_trees(key[0])))
        tree = tvl.get_dataset_tree(key[0], P(posix(key[1])))[2]
        paths = sorted(m["tvl"][key][1]) + [("unknown",), ("un", "known")]
        step(("tree", key), lambda: [(P(posix(p)) / "x" / "y") in tree.mtree for p in paths])
        got = step(("tree", key), lambda: sorted(str(p) for p, _ in tree.dataset_paths))
        check(len(got) == len(paths) - 2, "enumeration reports other datasets")
        step(("tree", key), lambda: list(tree.get_paths_recursive(True)))
        step(("tree", key), lambda: tree.is_saved_on(realm))
        step(("tree", key), lambda: [tree.get_metadata_root_record(P("unknown/one"))])
        with_files = [p for p in m["tvl"][key][1] if m["tvl"][key][1][p].files]
        if with_files:
            where = rng.choice(with_files)
            record = tree.get_metadata_root_record(P(posix(where)))
            files = step(("files", key, where), record.get_file_tree)
            known = list(m["tvl"][key][1][where].files)
            step(("files", key, where), lambda: [
                files.get_metadata(P("unknown")),
                [P(posix(p)) in files for p in known], (P("un/known")) in files])
            got = step(("files", key, where), lambda: list(files.get_paths_recursive()))
            check(len(got) == len(known), "enumeration reports other files")
            step(("files", key, where), lambda: list(files.get_paths_recursive(True)))
    return out


def trees_below(d, location):
    """Object names of all directories"""
    if location == store.NONE:
        return set()
    out = {location}
    for mode, name, oid in d.tree(location):
        if mode == "40000":
            out |= trees_below(d, oid)
    return out


def check_survey(case, ctx, realm, m, contents):
    found = session(survey, realm, m, case["seed"])
    with store.Decoder(realm) as d:
        p = Paths(d)
        tops = {p.oid(lib.REF_TVL), p.oid(lib.REF_UUID)}
        for what, reads in found:
            kind, allowed = what[0], set(tops)
            if kind in ("list", "list elements"):
                vl = p.tree_path(p.oid(lib.REF_UUID), (what[1],))
                allowed.add(vl)
                if kind == "list elements":
                    allowed |= {e["dataset_tree"]["location"] for e in d.json(vl)
                                if e["primary_data_version"] == what[2]}
            elif kind == "trees":
                allowed |= {e["dataset_tree"]["location"] for e in d.json(lib.REF_TVL)
                            if e["primary_data_version"] == what[1]}
            elif kind == "tree":
                allowed |= trees_below(d, p.entry(lib.REF_TVL, what[1]))
            elif kind == "files":
                record = p.tree_path(p.entry(lib.REF_TVL, what[1]), tuple(what[2]) + (MRR,))
                allowed |= trees_below(d, p.json(record)["file_tree"]["location"])
            off = (reads & contents) - allowed
            check(not off, f"enumerating {kind} reads {len(off)} objects that do not "
                           f"belong to it: {[d.get(o)[0] for o in sorted(off)[:3]]}")
            ctx.count("surveys")


def run_case(case, ctx):
    if "kind" in case:
        return wide(case, ctx)
    rng = gen.rng_for("c03", case["seed"])
    h = case["hostile"]
    realm = store.init(ctx.path("repo"))
    m = {"tvl": gen.version_list(rng, rng.choice([2, 3]), h, "tree", 6),
         "us": gen.uuid_set(rng, 3, h, "mrr", 6)}
    session(build, m, realm)
    contents = set(store.all_objects(realm))
    check_survey(case, ctx, realm, m, contents)

    for i in range(5):
        target = choose(rng, m)
        if target is None:
            return
        root, key, where, mrr, what, path = target
        on_path, on_top, allowed = needed(realm, target)
        run = None
        if i < 3 or what == "mrr":
            expected = ({"id": mrr.ident, "version": mrr.version}
                        if what == "mrr" else
                        (mrr.dlm if what == "dlm" else mrr.files[path]).flat())
            (reads, listed), late = session(lookup, realm, target, expected)
            ctx.count("lookups")
            ctx.count("noop_saves")
            check(late == 0, f"saving an unmodified store reads {late} objects")
            label = f"looking up the {what}"
        else:
            run = gen.run(rng, h)
            before = set(store.all_objects(realm))
            reads, listed, n_written = session(update, realm, target, copy.deepcopy(run))
            new = set(store.all_objects(realm)) - before
            ctx.count("updates")
            ctx.count("objects_written", n_written)
            label = f"adding metadata to the {what}"
            # The objects on the path are replaced, the others are not.
            check(len(new) <= len(on_path),
                  f"{label} creates {len(new)} objects, {len(on_path)} are on "
                  f"the path to it")
            check(n_written <= len(on_path),
                  f"{label} writes {n_written} objects, {len(on_path)} are on "
                  f"the path to it")
            (mrr.dlm if what == "dlm" else mrr.files[path]).add(run)
        # what was not written by the session itself
        reads, listed = reads & contents, listed & contents
        off = reads - on_top
        check(not off, f"{label} reads {len(off)} objects that are not on the "
                       f"path to it: {sorted(off)[:3]}")
        off = listed - allowed
        check(not off, f"{label} lists {len(off)} objects that are neither on "
                       f"the path to it, nor children of those: {sorted(off)[:3]}")
        contents = set(store.all_objects(realm))
        ctx.count("on_path_objects", len(on_path))
        ctx.count("off_path_objects", len(contents - on_top))
        ctx.saw(what, root, sorted(on_path))

    for _ in range(3):
        root, key, where, mrr, what, path = target = choose(rng, m)
        with store.Decoder(realm) as d:
            p = Paths(d)
            if root == "tvl" and rng.random() < 0.5:
                location = p.entry(lib.REF_TVL, key)
                expected = [list(q) + [MRR] for q in m["tvl"][key][1]]
                cls = "DatasetTree"
            else:
                if root == "tvl":
                    loc = p.tree_path(p.entry(lib.REF_TVL, key), tuple(where) + (MRR,))
                else:
                    loc = p.entry(p.tree_path(p.oid(lib.REF_UUID), (where,)), key)
                location = p.json(loc)["file_tree"]["location"]
                if location == store.NONE:
                    continue
                expected = [list(q) for q in mrr.files]
                cls = "FileTree"
        got = session(iterate, realm, location, cls)
        check(got == sorted(model.canon(e) for e in expected),
              f"enumerating a {cls} reports other paths")
        ctx.count("iterations")
    ctx.sample = f"{len(contents)} objects; last target {what} {root}: {len(on_path)} objects on path"
