"""C01: what was saved is what is read back, in a new process"""
import os

from .. import gen, lib, model, store
from ..proc import session
from ..runner import check

LEVEL = "exploration"
RULE = ("Each case stores a randomly generated object graph (one of: metadata, "
        "file tree, metadata root record, dataset tree, version list, tree "
        "version list, UUID set, text, complete store) with hostile names and "
        "JSON content under one of 10 git configurations, and two other "
        "processes read it back: one through the library, one with an "
        "independent decoder of the git objects. Scaled cases store wide, deep, and large "
        "instances (thousands of files in a directory, paths of 80 components, megabytes of "
        "JSON, hundreds of runs, versions, and datasets). Non-trivial: the read-back "
        "digest was not seen before in this run and the graph is not empty.")
ASSUMPTIONS = [
    "Names do not contain '/', NUL, lone surrogates, and are not '.', '..', '.git'",
    "git is version 2.43 with SHA-1 objects",
]
REQUIRED = {"objects_compared": 50, "leaves_compared": 200, "scaled": 5}

KINDS = ["metadata", "file_tree", "mrr", "dataset_tree", "version_list",
         "tree_version_list", "uuid_set", "text", "store"]
SCALES = ["wide", "deep", "content", "runs", "nested", "versions", "uuids", "datasets", "text"]


def cases(tier, seed):
    n = {"quick": 126, "thorough": 1800}[tier]
    scaled = {"quick": 1, "thorough": 5}[tier]
    return [{"kind": KINDS[i % len(KINDS)], "seed": f"{seed}/{i}",
             "config": (i // len(KINDS)) % (len(gen.HOSTILE_GITCONFIG) + 1)}
            for i in range(n)] + [
        {"kind": None, "scale": scale, "seed": f"{seed}/{scale}/{i}", "config": 0,
         "n": (1, 2, 3, 5, 10)[i]}
        for i in range(scaled) for scale in SCALES]


def generate_scaled(scale, n, rng):
    """Large instances: (kind, model)"""
    small = lambda: model.Meta([gen.run(rng, False)])
    if scale == "wide":
        # many entries in one directory, with all names that are prefixes of each other
        files = {("d", "%x" % i): small() for i in range(1500 * n)}
        for i in range(100):
            files["d." + "x" * i, "f"] = small()
        return "file_tree", files
    if scale == "deep":
        return "mrr", model.Mrr(gen.ident(rng), "v", small(), {
            tuple("d%d" % j for j in range(i)) + (f"f{i}",): small()
            for i in (1, 2, 10, 40, 60 + 20 * n)})
    if scale == "content":
        run = gen.run(rng)
        run["content"]["large"] = [
            "".join(rng.choice(gen.STRINGS) for _ in range(100)) for _ in range(1000 * n)]
        run["params"]["large"] = "p" * 100000 * n
        run["author"] = "ä" * 70000
        return "metadata", model.Meta([run, gen.run(rng)])
    if scale == "runs":
        return "metadata", model.Meta([gen.run(rng) for _ in range(500 * n)])
    if scale == "nested":
        run, value = gen.run(rng), None
        for i in range(150):
            value = [value, i] if i % 2 else {"k": value, "": i}
        run["content"]["nested"] = value
        return "metadata", model.Meta([run])
    if scale == "versions":
        mrr = gen.mrr(rng, n_files=1)
        return "version_list", {
            (f"{i // 2:040x}", ("p", str(i)) if i % 2 else ()): (str(i), mrr)
            for i in range(150 * n)}
    if scale == "uuids":
        mrr = gen.mrr(rng, n_files=1)
        return "uuid_set", {gen.ident(rng): {("v", ("p",)): (str(i), mrr)}
                            for i in range(100 * n)}
    if scale == "datasets":
        mrr = gen.mrr(rng, False, n_files=1)
        return "dataset_tree", {("s", str(i // 10), str(i)): mrr for i in range(100 * n)}
    return "text", "line ä\r\n\n" * 100000 * n


def generate(kind, rng):
    if kind == "metadata":
        return model.Meta([gen.bare(rng, gen.run(rng))
                           for _ in range(rng.choice([0, 1, 1, 2, 3, 6]))])
    if kind == "file_tree":
        return gen.files(rng, rng.choice([1, 3, 8, 15]))
    if kind == "mrr":
        return gen.mrr(rng)
    if kind == "dataset_tree":
        return gen.dataset_tree(rng, rng.choice([0, 1, 3, 5]), n_files=2)
    if kind in ("version_list", "tree_version_list"):
        return gen.version_list(
            rng, rng.choice([0, 1, 3, 4]), n_files=2,
            kind=None if kind == "version_list" else rng.choice(["tree", None]))
    if kind == "uuid_set":
        return gen.uuid_set(rng, None, kind=rng.choice(["mrr", None]), n_files=2)
    if kind == "text":
        return "".join(gen.string(rng) + rng.choice(["", "\n", "\r\n"])
                       for _ in range(rng.randint(0, 4)))
    return {"tvl": gen.version_list(rng, rng.choice([1, 2]), kind="tree", n_files=2),
            "uuid": gen.uuid_set(rng, rng.choice([1, 2]), n_files=2)}


def build(kind, m):
    return {
        "metadata": model.build_metadata,
        "file_tree": model.build_file_tree,
        "mrr": model.build_mrr,
        "dataset_tree": model.build_dataset_tree,
        "version_list": model.build_list,
        "tree_version_list": lambda v: model.build_list(v, lib.TreeVersionList),
        "uuid_set": model.build_uuid_set,
        "text": lib.Text,
    }[kind](m)


def flat(kind, m):
    if kind in ("metadata", "mrr"):
        return m.flat()
    if kind in ("file_tree", "dataset_tree"):
        return model.flat_tree(m)
    if kind in ("version_list", "tree_version_list"):
        return model.flat_list(m)
    if kind == "uuid_set":
        return model.flat_uuid_set(m)
    return m


def write(kind, m, realm):
    if kind == "store":
        tvl = build("tree_version_list", m["tvl"])
        us = build("uuid_set", m["uuid"])
        refs = [tvl.write_out(realm), us.write_out(realm)]
        lib.flush_object_references(lib_path(realm))
        return [(r.class_name, r.location) for r in refs]
    ref = build(kind, m).write_out(realm)
    return [(ref.class_name, ref.location)]


def lib_path(realm):
    from pathlib import Path
    return Path(realm)


def read(kind, refs, realm):
    if kind == "store":
        tvl, us = lib.get_top_level_metadata_objects("git", realm)
        check(tvl is not None and us is not None,
              "stored top-level objects are reported as missing")
        return {"tvl": model.dump_list(tvl), "uuid": model.dump_uuid_set(us)}
    ref = lib.Reference(*refs[0])
    if kind == "metadata":
        obj = lib.Metadata(realm, ref)
        return model.dump_metadata(obj)
    if kind == "file_tree":
        return model.dump_file_tree(lib.FileTree(None, realm, ref))
    if kind == "mrr":
        return model.dump_mrr(
            lib.MetadataRootRecord.get_empty_instance(realm, ref))
    if kind == "dataset_tree":
        return model.dump_dataset_tree(lib.DatasetTree(None, realm, ref))
    if kind == "version_list":
        return model.dump_list(lib.VersionList(realm=realm, reference=ref))
    if kind == "tree_version_list":
        return model.dump_list(lib.TreeVersionList(realm=realm, reference=ref))
    if kind == "uuid_set":
        return model.dump_uuid_set(lib.UUIDSet(realm=realm, reference=ref))
    text = lib.Text.get_empty_instance(realm, ref)
    text.read_in()
    return text.content


def decode(kind, refs, realm):
    with store.Decoder(realm) as d:
        if kind == "store":
            return {"tvl": model.flat_list(d.version_list(lib.REF_TVL)),
                    "uuid": model.flat_uuid_set(d.uuid_set(lib.REF_UUID))}
        location = refs[0][1]
        if kind == "metadata":
            return d.metadata(location).flat()
        if kind == "file_tree":
            return model.flat_tree(d.file_tree(location))
        if kind == "mrr":
            return d.mrr(location).flat()
        if kind == "dataset_tree":
            return model.flat_tree(d.dataset_tree(location))
        if kind in ("version_list", "tree_version_list"):
            return model.flat_list(d.version_list(location))
        if kind == "uuid_set":
            return model.flat_uuid_set(d.uuid_set(location))
        return d.get(location, "blob").decode()


def leaves(x):
    if isinstance(x, dict):
        return sum(leaves(v) for v in x.values()) or 1
    if isinstance(x, list):
        return sum(leaves(v) for v in x)
    return 1


def run_case(case, ctx):
    rng = gen.rng_for("c01", case["seed"])
    kind = case["kind"]
    if kind is None:
        kind, m = generate_scaled(case["scale"], case["n"], rng)
        ctx.count("scaled")
    else:
        m = generate(kind, rng)
    realm = ctx.repo("repo")
    if case["config"]:
        with open(os.path.join(realm, ".git", "config"), "a") as f:
            f.write(gen.HOSTILE_GITCONFIG[case["config"] - 1])
    if rng.random() < 0.3:
        with open(os.path.join(realm, ".gitattributes"), "w") as f:
            f.write("* text=auto eol=crlf working-tree-encoding=UTF-16 ident\n")

    if kind == "store":
        expected = {"tvl": model.flat_list(m["tvl"]),
                    "uuid": model.flat_uuid_set(m["uuid"])}
    else:
        expected = flat(kind, m)

    refs = session(write, kind, m, realm, what=f"writing {kind}")
    got = session(read, kind, refs, realm, what=f"reading {kind}")
    d = model.diff(expected, got)
    check(d is None, f"{kind} read back differs: {d}")
    if not (kind == "store" or refs[0][1] == store.NONE):
        d = model.diff(expected, decode(kind, refs, realm))
        check(d is None, f"{kind} in the repository differs: {d}")
    elif kind == "store":
        d = model.diff(expected, decode(kind, refs, realm))
        check(d is None, f"{kind} in the repository differs: {d}")
    ctx.count("objects_compared")
    n = leaves(expected)
    ctx.count("leaves_compared", n)
    ctx.count(f"kind_{kind}")
    if expected:
        ctx.saw(model.digest(expected))
    ctx.sample = f"{kind}, {n} leaves, config {case['config']}: {str(expected)[:200]}"
