"""C11: bookkeeping of extractor runs"""
import copy
import time

from .. import gen, lib, model, store
from ..model import Meta
from ..runner import Violation, check

LEVEL = "exploration"
RULE = ("Random sequences of added runs (few extractors and configurations, repeated "
        "configurations, missing time stamps, hostile parameters) on metadata objects "
        "and through file trees, with saves, purges and loads in between, compared "
        "with a dictionary model through all query interfaces; and a "
        "differential check of equality: objects made from the same runs in different "
        "orders are equal, any changed field makes them unequal. Non-trivial: "
        "distinct run sets.")
ASSUMPTIONS = ["Configurations are compared by version and parameters; values that "
               "are equal in Python (1, 1.0, True) denote the same parameter"]
REQUIRED = {"runs_added": 500, "runs_replaced": 200, "equality_checks": 150,
            "inequality_checks": 150, "default_time_stamps": 30}


def cases(tier, seed):
    n = {"quick": 160, "thorough": 4000}[tier]
    return [{"seed": f"{seed}/{i}", "hostile": i % 2 == 0} for i in range(n)]


def observe(ctx, metadata, meta, what):
    """All query interfaces agree with the model"""
    runs = {}
    for run in meta.runs.values():
        runs.setdefault(run["extractor"], []).append(run)
    extractors = list(metadata.extractors)
    check(sorted(extractors) == sorted(runs), f"{what}: extractors are {extractors}")
    seen = {}
    for extractor, iset in metadata.extractor_runs:
        check(extractor not in seen, f"{what}: extractor is reported twice")
        seen[extractor] = iset
        same = metadata.extractor_runs_for_extractor(extractor)
        check(same == iset, f"{what}: runs of {extractor} differ by interface")
        expected = runs.get(extractor, [])
        instances = list(iset)
        check(len(instances) == len(expected),
              f"{what}: {len(instances)} runs of {extractor}, expected {len(expected)}")
        configurations = iset.configurations
        check(len(configurations) == len(expected),
              f"{what}: {len(configurations)} configurations, expected {len(expected)}")
        for run in expected:
            c = lib.ExtractorConfiguration(run["version"], copy.deepcopy(run["params"]))
            check(c in configurations, f"{what}: configuration {c.parameter} is missing")
            inst = iset.get_instance_for_configuration(c)
            d = model.diff(model.canon(run), model.canon(
                model.dump_run(extractor, inst)))
            check(d is None, f"{what}: run of {extractor} differs: {d}")
            by_index = iset.get_instance_for_configuration_index(
                configurations.index(c))
            check(by_index == inst, f"{what}: run by index differs")
            check(inst in list(iset.instances.values()), f"{what}: instances differ")
        unknown = lib.ExtractorConfiguration("no such version", {"x": "y"})
        try:
            iset.get_instance_for_configuration(unknown)
        except (ValueError, KeyError):
            pass
        else:
            raise Violation(f"{what}: unknown configuration has a run")
    try:
        metadata.extractor_runs_for_extractor("no such extractor")
    except KeyError:
        pass
    else:
        raise Violation(f"{what}: unknown extractor has runs")
    d = model.diff(meta.flat(), model.dump_metadata(metadata))
    check(d is None, f"{what}: {d}")


def reordered(rng, value):
    """A copy, in which the elements of dictionaries have another order"""
    if isinstance(value, dict):
        return {k: reordered(rng, value[k]) for k in rng.sample(sorted(value), len(value))}
    if isinstance(value, list):
        return [reordered(rng, v) for v in value]
    return value


def add(ctx, rng, target, meta, hostile, path=None):
    run = gen.bare(rng, gen.run(rng, hostile, rng.choice(["core", "custom", "third"])))
    pool = [("1", {}), ("1", {"p": 2}), ("2", {}), ("1", {"q": "2"}),
            ("", {"p": 2, "q": "2"}), ("1", {"q": "2", "p": 2}), ("1", {"p": "2"}),
            ("1", {"p": None}), ("1", {"p": "None"}), ("1", {"p": [2]}), ("1", {"p": "[2]"}),
            ("1", {"p": {"a": 2, "b": [{"c": 3, "d": None}]}}), ("1", {"p": []}),
            ("1", {"p": {}}), ("1", {"p": ""}), ("1", {"": 2}), ("1", {"P": 2}),
            ("1 ", {"p": 2}), ("1", {"p": [2, 3]}), ("1", {"p": [3, 2]})]
    if rng.random() < 0.7:
        run["version"], run["params"] = rng.choice(pool[:8] if rng.random() < 0.5 else pool)
    # the order of parameters is not relevant
    run["params"] = reordered(rng, run["params"])
    ts = run["ts"]
    default = rng.random() < 0.2
    args = [None if default else ts, run["extractor"], run["author"], run["email"],
            lib.ExtractorConfiguration(run["version"], copy.deepcopy(run["params"])),
            copy.deepcopy(run["content"])]
    before = time.time()
    if path is None:
        target.add_extractor_run(*args)
        metadata = target
    else:
        target.add_extractor_run(lib.P(path), *args)
        metadata = target.get_metadata(lib.P(path))
    after = time.time()
    if default:
        inst = metadata.extractor_runs_for_extractor(
            run["extractor"]).get_instance_for_configuration(args[4])
        check(isinstance(inst.time_stamp, float) and
              before - 1 <= inst.time_stamp <= after + 1,
              f"time stamp of a run without time stamp is {inst.time_stamp}")
        run["ts"] = inst.time_stamp
        ctx.count("default_time_stamps")
    if meta.key(run) in meta.runs:
        ctx.count("runs_replaced")
    meta.add(run)
    ctx.count("runs_added")


def changed(rng, runs):
    """The runs, with one change"""
    runs = copy.deepcopy(runs)
    run = rng.choice(runs)
    field = rng.choice(["ts", "author", "email", "version", "params", "content",
                        "extractor", "drop", "extra"])
    if field == "drop":
        runs.remove(run)
    elif field == "extra":
        new = copy.deepcopy(run)
        new["version"] += "x"
        runs.append(new)
    elif field == "ts":
        run["ts"] = run["ts"] * 2 + 1
    elif field == "params":
        k = rng.choice(sorted(run["params"])) if run["params"] else None
        if k is not None and rng.random() < 0.6:
            # similar, but not the same
            v = run["params"][k]
            run["params"][k] = rng.choice([str(v), [v], {"": v}, None, "", [], {}])
        else:
            run["params"]["another"] = "x"
    elif field == "content":
        content = run["content"]
        if isinstance(content, dict) and "v" in content:
            content["v"] = [content["v"]]
        else:
            run["content"] = [content]
    else:
        run[field] += "x"
    return field, Meta(runs)


def run_case(case, ctx):
    rng = gen.rng_for("c11", case["seed"])
    realm = ctx.repo("repo")
    metadata, meta = lib.Metadata(), Meta()
    other, other_meta = lib.Metadata(), Meta()
    tree, files = lib.FileTree(), {}
    for i in range(40):
        r = rng.random()
        if r < 0.5:
            add(ctx, rng, metadata, meta, case["hostile"])
        elif r < 0.6:
            add(ctx, rng, other, other_meta, case["hostile"])
        elif r < 0.8:
            p = rng.choice(["a", "d/b", "d/e/c", "x y"])
            add(ctx, rng, tree, files.setdefault(p, Meta()), case["hostile"], p)
        elif r < 0.9:
            for o in (metadata, other, tree):
                o.write_out(realm)
                if rng.random() < 0.6:
                    o.purge()
        else:
            ref = metadata.write_out(realm)
            metadata = lib.Metadata(realm, ref)
        if i % 4 == 0:
            observe(ctx, metadata, meta, "metadata")
    observe(ctx, metadata, meta, "metadata")
    observe(ctx, other, other_meta, "another metadata object")
    for p, m in files.items():
        observe(ctx, tree.get_metadata(lib.P(p)), m, f"file {p}")
    ctx.saw(meta.flat())
    # equality
    for _ in range(12):
        base = Meta([gen.bare(rng, gen.run(rng, case["hostile"], rng.choice(["core", "custom"])))
                     for _ in range(rng.randint(1, 5))])
        runs = list(base.runs.values())
        a = model.build_metadata(base)
        shuffled = runs[:]
        rng.shuffle(shuffled)
        b = model.build_metadata(Meta([
            {**r, "params": reordered(rng, r["params"]),
             "content": reordered(rng, r["content"])} for r in shuffled]))
        check(a == b and b == a, "objects with the same runs in another order differ")
        check(not (a != b), "equal objects are also unequal")
        check(a == a, "object is not equal to itself")
        c = lib.Metadata.from_json(a.to_json())
        check(a == c and c == b, "restored object differs")
        ctx.count("equality_checks")
        field, m = changed(rng, runs)
        if m.flat() == base.flat():
            continue
        d = model.build_metadata(m)
        check(not (a == d) and not (d == a) and a != d,
              f"objects that differ in '{field}' are equal")
        ctx.count("inequality_checks")
        ctx.saw(field, base.flat())
    ctx.sample = f"{len(meta.runs)} runs in {len(set(r['extractor'] for r in meta.runs.values()))} extractors"
