"""C18: stored identity depends on content only"""
import copy
from pathlib import Path

from .. import gen, lib, model, store, sub
from ..model import Meta, Mrr, posix
from ..proc import session
from ..runner import check

LEVEL = "exploration"
RULE = ("Random content of all seven stored kinds is saved by many routes: shuffled order of tree entries, other "
        "repositories, leaves or inner nodes written first one by one, purged before the container is "
        "written, default destination, written "
        "in one batch, deep copied, in processes with another hash seed and locale, loaded and saved, "
        "loaded, modified, modified back and saved. All routes must give one location. A table of "
        "location and content over all objects of the case, including minimally modified variants (one field, name, version, "
        "prefix, time stamp changed), must be one-to-one. Non-trivial: distinct (content, route) pairs.")
ASSUMPTIONS = ["The order of runs in metadata, of keys in JSON content, and of entries in version lists is "
               "part of the content"]
REQUIRED = {"same_location": 500, "variants": 60, "modified_back": 60, "processes": 10}

KINDS = ["metadata", "file tree", "record", "dataset tree", "list", "tree list", "uuid set"]


def cases(tier, seed):
    n = {"quick": 10, "thorough": 240}[tier]
    return [{"seed": f"{seed}/{i}", "hostile": i % 3 != 2, "config": i % 3} for i in range(n)]


def generate(kind, rng, hostile):
    if kind == "metadata":
        return gen.meta(rng, hostile)
    if kind == "file tree":
        return gen.files(rng, rng.choice([1, 3, 6, 12]), hostile)
    if kind == "record":
        return gen.mrr(rng, hostile)
    if kind == "dataset tree":
        return gen.dataset_tree(rng, rng.choice([1, 1, 2, 3]), hostile, 1)
    if kind == "uuid set":
        return gen.uuid_set(rng, None, hostile, "mrr", 2)
    return gen.version_list(rng, None, hostile, None, 2)


def flat(kind, m):
    if kind in ("metadata", "record"):
        return m.flat()
    if kind in ("file tree", "dataset tree"):
        return model.flat_tree(m)
    return model.flat_uuid_set(m) if kind == "uuid set" else model.flat_list(m)


def build(kind, m):
    return {"metadata": model.build_metadata, "file tree": model.build_file_tree,
            "record": model.build_mrr, "dataset tree": model.build_dataset_tree,
            "list": model.build_list, "uuid set": model.build_uuid_set,
            "tree list": lambda x: model.build_list(x, lib.TreeVersionList)}[kind](m)


def reopen(kind, realm, reference):
    if kind == "metadata":
        return lib.Metadata(realm, reference)
    if kind == "record":
        return lib.MetadataRootRecord(None, None, None, None, realm, reference)
    cls = {"file tree": lib.FileTree, "dataset tree": lib.DatasetTree, "list": lib.VersionList,
           "tree list": lib.TreeVersionList, "uuid set": lib.UUIDSet}[kind]
    return cls(None, realm, reference)


def dump(kind, o):
    return {"metadata": model.dump_metadata, "file tree": model.dump_file_tree,
            "record": model.dump_mrr, "dataset tree": model.dump_dataset_tree,
            "list": model.dump_list, "tree list": model.dump_list,
            "uuid set": model.dump_uuid_set}[kind](o)


def shuffled(rng, m):
    """Same content, other order of tree entries"""
    if isinstance(m, Meta):
        return m
    if isinstance(m, Mrr):
        return Mrr(m.ident, m.version, m.dlm, shuffled(rng, m.files))
    keys = list(m)
    if keys and isinstance(keys[0], tuple) and isinstance(m[keys[0]], tuple):
        return {k: (ts, shuffled(rng, e)) for k, (ts, e) in m.items()}
    rng.shuffle(keys)
    return {k: shuffled(rng, m[k]) for k in keys}


# -- routes --------------------------------------------------------------------
def nodes_of(o):
    """mappable sub-objects, deepest first"""
    o = getattr(o, "mtree", o)
    for s in list(o.modifiable_sub_objects):
        s = getattr(s, "mtree", s)
        yield from nodes_of(s)
        yield s


def write_plain(kind, o, realm, rng):
    return o.write_out(realm)


def write_parts(kind, o, realm, rng):
    for s in list(nodes_of(o)):
        if rng.random() < 0.5:
            s.write_out(realm)
    return o.write_out(realm)


def write_purged(kind, o, realm, rng):
    for s in list(nodes_of(o)):
        if rng.random() < 0.5:
            s.write_out(realm)
            if s.is_saved_on(realm) and rng.random() < 0.7 \
                    and not s.reference.is_none_reference():
                s.purge()
    return o.write_out(realm)


def write_forced(kind, o, realm, rng):
    o.write_out(realm)
    return o.write_out(realm, "git", True)


def write_twice(kind, o, realm, rng):
    other = store.init(realm + "-first")
    o.write_out(other)
    return o.write_out(realm)


def write_default(kind, o, realm, rng):
    getattr(o, "mtree", o).realm = realm
    return o.write_out()


ROUTES = {f.__name__[6:]: f for f in (write_plain, write_parts, write_purged, write_forced,
                                     write_twice, write_default)}


def save(kind, m, realm, route, seed):
    rng = gen.rng_for("c18 save", seed)
    model.EMPTY_FILE_TREES = rng.random() < 0.5
    o = build(kind, m)
    model.EMPTY_FILE_TREES = False
    r = ROUTES[route](kind, o, realm, rng)
    if not r.is_none_reference():
        lib.flush_object_references(Path(realm))
    return r.class_name, r.location


def save_many(realm, work, seed):
    """in a new interpreter"""
    rng = gen.rng_for("c18 many", seed)
    return [save(kind, shuffled(rng, m), realm, rng.choice(["plain", "parts", "purged"]), (seed, i))
            for i, (kind, m) in enumerate(work)]


def loaded(kind, realm, reference, seed):
    """Locations after loading and saving again"""
    rng = gen.rng_for("c18 loaded", seed)
    out = []
    o = reopen(kind, realm, reference)
    out.append(o.write_out().location)
    o.ensure_mapped()
    out.append(o.write_out(realm).location)
    dump(kind, o)
    out.append(o.write_out().location)
    out.append(o.write_out(realm, "git", True).location)
    # everything in memory, everything regarded as modified
    o = reopen(kind, realm, reference)
    o.ensure_mapped()

    def touch(x):
        x = getattr(x, "mtree", x)
        x.ensure_mapped()
        for s in list(x.modifiable_sub_objects):
            touch(s)
        if rng.random() < 0.7:
            x.touch()
    touch(o)
    out.append(o.write_out(realm).location)
    o.purge()
    out.append(o.write_out(realm).location)
    return out


def modify_back(kind, m, realm, reference, seed):
    """Modify the loaded object, save it (or not), undo, save"""
    rng = gen.rng_for("c18 back", seed)
    o = reopen(kind, realm, reference)
    o.ensure_mapped()
    keep = rng.random() < 0.5      # save the modified state, too
    n = 0

    def between():
        if keep:
            check(o.write_out(realm).location != reference.location,
                  f"a modified {kind} is saved to the location of the unmodified one")
    if kind == "file tree":
        p = rng.choice([("new",), ("new", "deep", "er")] + [
            k[:-1] + ("newname",) for k in m])
        if gen.compatible(m, p) and p[0] not in ("new",) or gen.compatible(m, ("new",)):
            if gen.compatible(m, p):
                o.add_metadata(lib.P(posix(p)), model.build_metadata(gen.meta(rng)))
                between()
                o.mtree.remove_child_at(lib.P(posix(p)))
                n += 1
        if m:
            p = rng.choice(list(m))
            old = o.get_metadata(lib.P(posix(p)))
            o.mtree.remove_child_at(lib.P(posix(p)))
            between()
            o.add_metadata(lib.P(posix(p)), old if rng.random() < 0.5
                           else model.build_metadata(m[p]))
            n += 1
    elif kind == "dataset tree":
        p = ("brand", "new")
        if not any(k[:1] == ("brand",) for k in m):
            o.add_dataset(lib.P(posix(p)), model.build_mrr(gen.mrr(rng)))
            between()
            if rng.random() < 0.5:
                o.delete_subtree(lib.P("brand"))
            else:
                o.delete_subtree(lib.P("brand/new"))
            n += 1
        full = [k for k in m if k and not any(q[:len(k)] == k and q != k for q in m)]
        if full:
            p = rng.choice(full)
            rec = model.build_mrr(m[p])
            o.delete_subtree(lib.P(posix(p)))
            between()
            o.add_dataset(lib.P(posix(p)), rec)
            n += 1
    elif kind == "record":
        if not m.files:
            o.set_file_tree(model.build_file_tree({("other", "x"): gen.meta(rng)}))
            between()
            o.get_file_tree().mtree.remove_child_at(lib.P(rng.choice(["other", "other/x"])))
            n += 1
        if m.files:
            old = o.get_file_tree()
            o.set_file_tree(model.build_file_tree({("other",): gen.meta(rng)}))
            between()
            o.set_file_tree(old if rng.random() < 0.5 else model.build_file_tree(m.files))
            n += 1
        if m.dlm is not None:
            old = o.get_dataset_level_metadata()
            while True:
                other = gen.meta(rng)
                if other.flat() != m.dlm.flat():
                    break
            o.set_dataset_level_metadata(model.build_metadata(other))
            between()
            o.set_dataset_level_metadata(old if rng.random() < 0.5
                                         else model.build_metadata(m.dlm))
            n += 1
    elif kind in ("list", "tree list"):
        for (v, p), (ts, e) in list(m.items())[:2]:
            o.set_versioned_element(v, ts + "x", lib.P(posix(p)), model.build_element(gen.mrr(rng)))
            between()
            o.set_versioned_element(v, ts, lib.P(posix(p)), model.build_element(e))
            n += 1
    elif kind == "uuid set":
        for i, vl in list(m.items())[:2]:
            import uuid
            old = o.get_version_list(uuid.UUID(i))
            o.set_version_list(uuid.UUID(i), model.build_list(
                gen.version_list(rng, 2, True, "mrr", 1)))
            between()
            o.set_version_list(uuid.UUID(i), old if rng.random() < 0.5 else model.build_list(vl))
            n += 1
    return o.write_out(realm).location, n


# -- minimal variants -------------------------------------------------------------
def variant(rng, m):
    """A copy that differs in one place"""
    if isinstance(m, Meta):
        runs = [dict(r) for r in m.runs.values()]
        if not runs or rng.random() < 0.1:
            return Meta(runs + [gen.run(rng)])
        if rng.random() < 0.1:
            runs.pop(rng.randrange(len(runs)))
            return Meta(runs)
        r = rng.choice(runs)
        f = rng.choice(["extractor", "author", "email", "version", "ts", "params", "content"])
        if f == "ts":
            r[f] = r[f] + 1
        elif f == "params":
            r[f] = dict(r[f], extra=7)
        elif f == "content":
            r[f] = rng.choice([{"content": r[f]}, [r[f]], dict(r[f], extra=None)])
        else:
            r[f] = rng.choice([r[f] + " ", r[f] + "x", "_" + r[f], r[f] + "\n", r[f].upper()])
        return Meta(runs)
    if isinstance(m, Mrr):
        f = rng.randrange(4)
        if f == 0:
            return Mrr(gen.ident(rng), m.version, m.dlm, m.files)
        if f == 1:
            return Mrr(m.ident, m.version + rng.choice([" ", "\n", "0"]), m.dlm, m.files)
        if f == 2:
            return Mrr(m.ident, m.version, variant(rng, m.dlm) if m.dlm else gen.meta(rng), m.files)
        return Mrr(m.ident, m.version, m.dlm,
                   variant(rng, m.files) if m.files else {("f",): gen.meta(rng)})
    m = dict(m)
    if not m:
        return m
    k = rng.choice(list(m))
    if isinstance(m[k], tuple):
        ts, e = m[k]
        f = rng.randrange(5)
        if f == 0:
            m[k] = (ts + "0", e)
        elif f == 1:
            del m[k]
            m[(k[0] + "x", k[1])] = (ts, e)
        elif f == 2:
            del m[k]
            m[(k[0], k[1] + ("sub",))] = (ts, e)
        elif f == 3:
            del m[k]
        else:
            m[k] = (ts, variant(rng, e))
        return m
    f = rng.randrange(3)
    if f == 0 and len(m) > 1:
        del m[k]
    elif f == 1 and isinstance(k, tuple) and k and gen.compatible(
            {q: 1 for q in m if q != k}, k[:-1] + (k[-1] + "x",)):
        m[k[:-1] + (k[-1] + "x",)] = m.pop(k)
    elif f == 1 and isinstance(k, str):
        m[gen.ident(rng)] = m.pop(k)
    else:
        m[k] = variant(rng, m[k])
    return m


class Table:
    """location <-> content"""
    def __init__(self):
        self.by_location, self.by_content = {}, {}

    def add(self, kind, content, location, what):
        kind = "list" if kind == "tree list" else kind
        content = model.canon(content)
        known = self.by_content.setdefault((kind, content), location)
        check(known == location,
              f"{what}: equal content is stored as {known} and as {location}: {content[:300]}")
        known = self.by_location.setdefault(location, (kind, content))
        if location != "*None*":
            check(known == (kind, content) or known[0] != kind,
                  f"{what}: different content has the location {location}")


def run_case(case, ctx):
    rng = gen.rng_for("c18", case["seed"])
    hostile = case["hostile"]
    table = Table()
    realm = ctx.repo("base")
    work = []
    for i, kind in enumerate(KINDS):
        m = generate(kind, rng, hostile)
        work.append((kind, m))
        content = flat(kind, m)
        cls, base = session(save, kind, m, realm, "plain", (case["seed"], i, 0))
        table.add(kind, content, base, "first save")
        reference = lib.Reference(cls, base)

        def same(location, what):
            table.add(kind, content, location, f"{kind}: {what}")
            ctx.count("same_location")
            ctx.saw(base, what)
        for j, route in enumerate(ROUTES):
            where = ctx.repo(f"r{i}-{j}")
            variant_ = shuffled(rng, m)
            same(session(save, kind, variant_, where, route, (case["seed"], i, j))[1], route)
        if base == "*None*":
            continue
        # objects of the first repository
        for what, loc in zip(["unmapped", "mapped", "read", "forced", "touched", "purged"],
                             session(loaded, kind, realm, reference, (case["seed"], i))):
            same(loc, "loaded, " + what)

        copied = ctx.repo(f"copy{i}")
        same(session(lambda: reopen(kind, realm, reference).deepcopy(
            new_destination=copied).reference.location), "deep copy")
        for k in range(3):
            loc, n = session(modify_back, kind, m, realm, reference, (case["seed"], i, k))
            same(loc, "modified and modified back")
            ctx.count("modified_back", n)
        # variants
        for k in range(3):
            v = copy.deepcopy(m)
            for _ in range(k + 1):
                v = variant(rng, v)
            c = flat(kind, v)
            loc = session(save, kind, v, realm, rng.choice(["plain", "parts"]),
                          (case["seed"], i, k))[1]
            table.add(kind, c, loc, f"variant of {kind}")
            if c != content:
                check(loc != base, f"a different {kind} is stored at the same location")
                ctx.count("variants")
                ctx.saw("variant", model.digest(c))
    # the name of a directory outside ASCII cannot be given in an ASCII locale
    many = store.init(ctx.path("many")) if case["config"] == 1 else ctx.repo("many")
    env_ = [{"PYTHONHASHSEED": str(rng.randint(1, 1 << 30))},
            {"PYTHONHASHSEED": "random", "LANG": "C", "LC_ALL": "C", "PYTHONUTF8": "0",
             "PYTHONCOERCECLOCALE": "0"},
            {"PYTHONHASHSEED": str(rng.randint(1, 1 << 30)), "TZ": "Asia/Tokyo",
             "GIT_CONFIG_COUNT": "1", "GIT_CONFIG_KEY_0": "core.quotePath",
             "GIT_CONFIG_VALUE_0": "false"}][case["config"]]
    for (kind, m), (cls, loc) in zip(work, sub.call(ctx, save_many, many, work, case["seed"],
                                                    environment=env_)):
        table.add(kind, flat(kind, m), loc, f"{kind} saved by a new process ({env_})")
        ctx.count("same_location")
    ctx.count("processes")
    ctx.sample = f"{len(table.by_location)} locations"
