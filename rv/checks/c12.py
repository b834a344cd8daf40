"""C12: serialised objects round-trip, foreign ones are refused"""
import copy
import json
import uuid
from pathlib import Path

from .. import gen, lib, model, store
from ..runner import Violation, check

LEVEL = "exploration"
RULE = ("Random objects of all serialisable classes are converted to JSON objects and "
        "text and back; the result must be equal, show the same content, and have the same "
        "JSON text again. Then every version and type field at any nesting level is "
        "removed or replaced by values of a fixed list, and the result is given to "
        "the restoring functions directly, and stored in a repository in place "
        "of valid metadata, metadata root records, version lists, and top-level objects; "
        "every one must be refused, on the first access and on a repeated one. "
        "Non-trivial: distinct (class, position, replacement) triples.")
ASSUMPTIONS = ["Python runs without -O, because type checks are assertions",
               "Refusal means an exception, or no object in the case of metadata sources"]
REQUIRED = {"round_trips": 600, "mutants_refused": 5000, "stored_mutants_refused": 800}

VERSIONS = ["1.0", "2.1", "3.0", "2", "2.0.0", "", "2.0 ", "v2.0", None, 2, 2.0, ["2.0"],
            {"2.0": 1}, True]
TYPES = ["", "metadata", "Text", "UUIDSet", None, 0, ["Metadata"], "MTreeNode",
         "Metadata ", "Reference", "MetadataInstance", "MetadataInstanceSet", "Metadata",
         "ExtractorConfiguration", "LocalGitMetadataSource", "ImmediateMetadataSource"]


def cases(tier, seed):
    n = {"quick": 24, "thorough": 480}[tier]
    return [{"seed": f"{seed}/{i}", "hostile": i % 2 == 0} for i in range(n)]


def headers(obj, own=True, path=()):
    """Paths of all format headers in a serialised object. Does not look into
    user content."""
    out = []
    if isinstance(obj, dict):
        if own and "@" in obj:
            out.append(path)
        for k, v in obj.items():
            if k in ("metadata_content", "parameter", "content", "@"):
                continue
            out += headers(v, True, path + (k,))
    elif isinstance(obj, list):
        for i, v in enumerate(obj):
            out += headers(v, True, path + (i,))
    return out


def at(obj, path):
    for p in path:
        obj = obj[p]
    return obj


def mutants(obj):
    """(description, mutated object)"""
    for path in headers(obj):
        good = at(obj, path)["@"]
        for field, values in (("version", VERSIONS), ("type", TYPES)):
            for v in values:
                if type(v) is type(good[field]) and v == good[field]:
                    continue
                m = copy.deepcopy(obj)
                at(m, path)["@"][field] = v
                yield (path, field, v), m
            m = copy.deepcopy(obj)
            del at(m, path)["@"][field]
            yield (path, field, "missing"), m
        m = copy.deepcopy(obj)
        del at(m, path)["@"]
        yield (path, "@", "missing"), m


def position(path):
    return tuple("*" if isinstance(p, int) or i == 1 else p
                 for i, p in enumerate(path))


def refuse(ctx, fn, what, none_allowed=False):
    try:
        r = fn()
    except (Exception, AssertionError):
        return
    if none_allowed and r is None:
        return
    raise Violation(f"{what} is accepted")


def objects(rng, hostile):
    m = model.build_metadata(gen.meta(rng, hostile, 3))
    run = gen.bare(rng, gen.run(rng, hostile))
    cfg = lib.ExtractorConfiguration(run["version"], run["params"])
    inst = lib.MetadataInstance(run["ts"], run["author"], run["email"], cfg,
                                run["content"])
    iset = lib.MetadataInstanceSet()
    for _ in range(rng.randint(0, 3)):
        r = gen.run(rng, hostile)
        iset.add_metadata_instance(lib.MetadataInstance(
            r["ts"], r["author"], r["email"],
            lib.ExtractorConfiguration(r["version"], r["params"]), r["content"]))
    ref = lib.Reference(rng.choice(["Metadata", "MTreeNode", "FileTree"]),
                        rng.choice(["%040x" % rng.getrandbits(160), "*None*",
                                    gen.string(rng, hostile)]))
    local = lib.LocalGitMetadataSource(
        Path("/" + "/".join(gen.name(rng, hostile) for _ in range(2))),
        "%040x" % rng.getrandbits(160))
    immediate = lib.ImmediateMetadataSource(gen.json_value(rng, 3, hostile))
    return m, cfg, inst, iset, ref, local, immediate


def fields(o):
    """Content of a serialisable object, independent of its serialisation"""
    if isinstance(o, lib.Metadata):
        return model.dump_metadata(o)
    if isinstance(o, lib.ExtractorConfiguration):
        return [o.version, dict(o.parameter)]
    if isinstance(o, lib.MetadataInstance):
        return model.dump_run("", o)
    if isinstance(o, lib.MetadataInstanceSet):
        return sorted(model.canon(model.dump_run("", i)) for i in o)
    if isinstance(o, lib.Reference):
        return [o.class_name, o.location]
    if isinstance(o, lib.LocalGitMetadataSource):
        return [str(o.git_repository_path), o.object_reference]
    return o.content


def round_trips(ctx, objs):
    for o in objs:
        name = type(o).__name__
        before = model.canon(fields(o))
        if isinstance(o, lib.Metadata):
            text = o.to_json()
            again = [lib.Metadata.from_json(text)]
            target = lib.Metadata()
            target.init_from_json(text)
            again.append(target)
            to_text = lib.Metadata.to_json
        else:
            text = o.to_json_str()
            cls = type(o)
            again = [cls.from_json_obj(json.loads(json.dumps(o.to_json_obj()))),
                     cls.from_json_str(text),
                     cls.from_json_obj(json.loads(text))]
            if isinstance(o, lib.MetadataSource):
                again += [lib.MetadataSource.from_json_str(text),
                          lib.MetadataSource.from_json_obj(json.loads(text))]
            to_text = cls.to_json_str
        check(model.canon(fields(o)) == before, f"serialising a {name} changes it")
        for r in again:
            check(type(r) is type(o), f"{name} is restored as {type(r).__name__}")
            check(r == o and o == r and not (r != o), f"restored {name} is not equal: {text}")
            d = model.diff(before, model.canon(fields(r)))
            check(d is None, f"restored {name} differs: {d}")
            check(to_text(r) == text, f"JSON of restored {name} differs from: {text}")
            ctx.count("round_trips")
        ctx.saw(name, before)


def restorers(o):
    if isinstance(o, lib.Metadata):
        def init(text):
            m = lib.Metadata()
            m.init_from_json(text)
            return m
        return [lambda m: lib.Metadata.from_json(json.dumps(m)),
                lambda m: init(json.dumps(m))]
    cls = type(o)
    out = [cls.from_json_obj, lambda m: cls.from_json_str(json.dumps(m))]
    if isinstance(o, lib.MetadataSource):
        out += [lib.MetadataSource.from_json_obj,
                lambda m: lib.MetadataSource.from_json_str(json.dumps(m))]
    return out


def direct_mutants(ctx, rng, objs):
    for o in objs:
        name = type(o).__name__
        source = isinstance(o, lib.MetadataSource)
        obj = json.loads(o.to_json() if isinstance(o, lib.Metadata)
                         else o.to_json_str())
        fns = restorers(o)
        for (path, field, v), m in mutants(obj):
            fn = rng.choice(fns)
            refuse(ctx, lambda: fn(copy.deepcopy(m)),
                   f"{name} with {field} {v!r} at {path}", source)
            ctx.count("mutants_refused")
            ctx.saw(name, position(path), field, repr(v))
        if source:
            for v in ("", None, "Other", 1, "LocalGitMetadataSource",
                      "ImmediateMetadataSource"):
                m = copy.deepcopy(obj)
                if m["metadata_source_type"] == v:
                    continue
                m["metadata_source_type"] = v
                for fn in fns:
                    refuse(ctx, lambda: fn(copy.deepcopy(m)),
                           f"{name} with source type {v!r}", True)
                    ctx.count("mutants_refused")


def put(realm, obj):
    text = obj if isinstance(obj, str) else json.dumps(obj)
    return store.git(realm, "hash-object", "-w", "--stdin", input=text).strip()


def stored(ctx, rng, realm, hostile):
    meta = gen.meta(rng, hostile, 2)
    while not meta.runs:
        meta = gen.meta(rng, hostile, 2)
    mrr = gen.mrr(rng, hostile, 2)
    mrr.dlm = mrr.dlm or meta
    while not mrr.files:
        mrr.files = gen.files(rng, 2, hostile)
    o_mrr = model.build_mrr(mrr)
    o_mrr.write_out(realm)
    mrr_loc = o_mrr.reference.location
    o_meta = model.build_metadata(meta)
    o_meta.write_out(realm)

    def read_meta(location):
        def fn():
            m = lib.Metadata(realm, lib.Reference("Metadata", location))
            way = rng.randrange(4)
            first = None
            try:
                return touch(m, way)
            except Exception as e:
                first = e
            # the object must not pretend to be there on the next access
            return touch(m, rng.randrange(4))
        return fn

    def touch(m, way):
        if way == 0:
            return m.read_in()
        if way == 1:
            m.ensure_mapped()
            return m
        if way == 2:
            return list(m.extractors)
        return list(m.extractor_runs)

    ref_loc = o_meta.reference.location
    with store.Decoder(realm) as d:
        ref_obj = d.json(ref_loc)
        meta_obj = d.json(ref_obj["location"])
        mrr_obj = d.json(mrr_loc)
    # reference to the metadata, metadata
    chosen = rng.sample(list(mutants(ref_obj)), 8)
    for what, m in chosen:
        loc = put(realm, m)
        refuse(ctx, read_meta(loc), f"stored reference with {what}")
        ctx.count("stored_mutants_refused")
        ctx.saw("stored ref", what[1], repr(what[2]))
    for what, m in rng.sample(list(mutants(meta_obj)), 12):
        loc = put(realm, lib.Reference("Metadata", put(realm, m)).to_json_str())
        refuse(ctx, read_meta(loc), f"stored metadata with {what}")
        ctx.count("stored_mutants_refused")
        ctx.saw("stored meta", position(what[0]), what[1], repr(what[2]))

    # references in metadata root records
    def read_mrr(location):
        def fn():
            r = lib.MetadataRootRecord(None, None, None, None, realm,
                                       lib.Reference("MetadataRootRecord", location))
            return model.dump_mrr(r)
        return fn
    check(read_mrr(put(realm, mrr_obj))() == mrr.flat(), "valid record is not readable")
    mrr_mutants = list(mutants(mrr_obj))
    for part, wrong in (("dataset_level_metadata", ["Text", "MTreeNode", "FileTree"]),
                        ("file_tree", ["Text", "Metadata", "UUIDSet"])):
        for c in wrong:
            m = copy.deepcopy(mrr_obj)
            m[part]["class_name"] = c
            mrr_mutants.append(((part, "class_name", c), m))
    for what, m in rng.sample(mrr_mutants, 12):
        refuse(ctx, read_mrr(put(realm, m)), f"stored root record with {what}")
        ctx.count("stored_mutants_refused")
        ctx.saw("stored mrr", what[0], what[1], repr(what[2]))

    # references in version lists, as objects and as top-level object
    vl = gen.version_list(rng, 2, hostile, None, 1)
    o_vl = model.build_list(vl, lib.TreeVersionList)
    o_vl.write_out(realm)
    with store.Decoder(realm) as d:
        vl_obj = d.json(o_vl.reference.location)
    vl_mutants = list(mutants(vl_obj))
    for i in range(len(vl_obj)):
        for c in ("Text", "Metadata", "UUIDSet", "", None):
            m = copy.deepcopy(vl_obj)
            m[i]["dataset_tree"]["class_name"] = c
            vl_mutants.append(((i, "class_name", c), m))

    def read_vl(location, top):
        def fn():
            if top:
                store.git(realm, "update-ref", lib.REF_TVL, location)
                store.git(realm, "update-ref", lib.REF_UUID, store.git(
                    realm, "mktree", input="").strip())
                tvl, us = lib.get_top_level_metadata_objects("git", realm)
                check(tvl is not None, "top-level object is reported as missing")
                return list(tvl.versions())
            v = lib.VersionList(realm=realm,
                                reference=lib.Reference("VersionList", location))
            return [e for e in v.versions()]
        return fn
    for what, m in rng.sample(vl_mutants, 12):
        loc = put(realm, m)
        # a Violation is an exception, too: distinguish
        try:
            read_vl(loc, rng.random() < 0.4)()
        except Violation:
            raise
        except Exception:
            pass
        else:
            raise Violation(f"stored version list with {what} is accepted")
        ctx.count("stored_mutants_refused")
        ctx.saw("stored list", what[1], repr(what[2]))


def run_case(case, ctx):
    rng = gen.rng_for("c12", case["seed"])
    realm = ctx.repo("repo")
    for i in range(4):
        objs = objects(rng, case["hostile"])
        round_trips(ctx, objs)
        if i < 2:
            direct_mutants(ctx, rng, objs)
    stored(ctx, rng, realm, case["hostile"])
    ctx.sample = f"7 classes, {ctx.counters['mutants_refused']} mutants"
