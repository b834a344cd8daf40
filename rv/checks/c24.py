"""C24: a purged object behaves like a loaded one"""
import copy
import itertools
import uuid
from pathlib import Path

from .. import gen, lib, model, store
from ..model import Mrr, posix
from ..proc import session
from ..runner import check
from .c18 import KINDS, build, dump, flat, generate, reopen

LEVEL = "exploration"
RULE = ("Twins of one stored object are brought into up to eight memory states (in memory since it was "
        "built, purged, purged twice, opened from its reference, opened and loaded, loaded completely, with "
        "randomly purged parts, deep copied). The same operation is executed on every twin: all public queries, modifications, "
        "enumerations, copies, saves, and refused calls with known and unknown arguments. Results (including the kind of error), content afterwards, save state, the location "
        "after saving, and the decoded stored content must be identical for all twins. Loading and purging "
        "without modification, in random repetition, must keep content, location and save state; the default "
        "destination must be the repository of the last save or load in every state. "
        "Non-trivial: distinct (kind, operation, state) triples and contents.")
ASSUMPTIONS = ["Attributes of objects that are not in memory, and objects that are kept from an enumeration of a purged "
               "object, are not covered: the content is accessed with methods",
               "The result of ensure_mapped() tells whether the object was loaded by this call"]
REQUIRED = {"comparisons": 1000, "operations": 250, "cycles": 150,
            "default_destinations": 200}

STATES = ["built", "purged", "purged twice", "opened", "loaded", "complete", "parts purged",
          "copied"]


def cases(tier, seed):
    n = {"quick": 35, "thorough": 1100}[tier]
    return [{"seed": f"{seed}/{i}", "kind": KINDS[i % len(KINDS)], "hostile": i % 2 == 0}
            for i in range(n)]


def real(o):
    return getattr(o, "mtree", o)


def parts_of(o):
    for s in list(real(o).modifiable_sub_objects):
        yield from parts_of(s)
        yield s


def load_all(o):
    o.ensure_mapped()
    for s in list(real(o).modifiable_sub_objects):
        load_all(s)


class Twins:
    def __init__(self, ctx, kind, m, realm, seed):
        self.ctx, self.kind, self.m, self.realm, self.seed = ctx, kind, m, realm, seed
        base = build(kind, m)
        self.reference = base.write_out(realm)

    def make(self, state):
        kind, realm = self.kind, self.realm
        if state in ("built", "purged", "purged twice", "parts purged"):
            o = build(kind, self.m)
            o.write_out(realm)
        else:
            o = reopen(kind, realm, self.reference)
        if state in ("purged", "purged twice"):
            o.purge()
            if state == "purged twice":
                o.ensure_mapped()
                dump(kind, o)
                o.purge()
                o.purge()
        elif state == "loaded":
            o.ensure_mapped()
        elif state == "complete":
            load_all(o)
        elif state == "parts purged":
            rng = gen.rng_for("parts", self.seed)
            for s in parts_of(o):
                if rng.random() < 0.5 and real(s).reference is not None:
                    s.purge()
        elif state == "copied":
            o = o.deepcopy(new_destination=realm)
        return o

    def none(self):
        return self.reference.location == store.NONE


# -- operations: functions of (object, random generator), results are comparable ------
def operations(kind, m, realm, other):
    P = lib.P
    ops = []

    def op(name):
        def add(fn):
            ops.append((name, fn))
            return fn
        return add

    @op("write_out")
    def _(o, rng):
        return o.write_out(realm).location

    @op("write_out default")
    def _(o, rng):
        return o.write_out().location

    @op("purge")
    def _(o, rng):
        return o.purge()

    @op("is_saved_on")
    def _(o, rng):
        return o.is_saved_on(realm), o.is_saved_on("/elsewhere"), o.is_saved_on(other)

    @op("read_in")
    def _(o, rng):
        return dump(kind, o.read_in())

    @op("deepcopy")
    def _(o, rng):
        c = o.deepcopy(new_destination=other)
        return c.reference.location, c.is_saved_on(other), c.is_saved_on(realm), dump(kind, c)

    @op("dump")
    def _(o, rng):
        return dump(kind, o)

    if kind == "metadata":
        names = sorted({r["extractor"] for r in m.runs.values()}) + ["unknown"]

        @op("extractors")
        def _(o, rng):
            return sorted(o.extractors)

        @op("extractor_runs")
        def _(o, rng):
            return sorted((n, s.to_json_str()) for n, s in o.extractor_runs)

        @op("runs for extractor")
        def _(o, rng):
            return o.extractor_runs_for_extractor(rng.choice(names)).to_json_str()

        @op("equal")
        def _(o, rng):
            v = model.build_metadata(m)
            w = model.build_metadata(gen.meta(rng))
            x = model.build_metadata(m)
            x.write_out(realm)
            x.purge()
            return (o == v, v == o, o == w, w == o, o != v, o == lib.Metadata(), o == x, x == o,
                    w == x, x == w)

        @op("to_json")
        def _(o, rng):
            return o.to_json()

        @op("add run")
        def _(o, rng):
            r = gen.run(rng)
            if rng.random() < 0.6:
                r["extractor"] = rng.choice(names)
            if m.runs and rng.random() < 0.5:
                k = rng.choice(list(m.runs.values()))
                r.update(extractor=k["extractor"], version=k["version"],
                         params=copy.deepcopy(k["params"]))
            r["content"]["id"] = 0
            model.add_run(o, r)
            return o.is_saved_on(realm)

    if kind == "file tree":
        paths = [posix(p) for p in m] + ["unknown", "a", ""] + [posix(p[:-1]) for p in m] + [
            posix(p) + "/below" for p in m]

        @op("get_metadata")
        def _(o, rng):
            r = o.get_metadata(P(rng.choice(paths)))
            return None if r is None else model.dump_metadata(r)

        @op("add_metadata")
        def _(o, rng):
            p = rng.choice(paths + ["new/path", "x"])
            o.add_metadata(P(p), model.build_metadata(gen.meta(rng, True, 1)))
            return o.is_saved_on(realm)

        @op("add run")
        def _(o, rng):
            r = gen.run(rng)
            p = rng.choice(paths[:len(m)] + ["new/file"])
            o.add_extractor_run(P(p), r["ts"], r["extractor"], r["author"], r["email"],
                                lib.ExtractorConfiguration(r["version"], r["params"]), {"x": 1})
            return o.is_saved_on(realm)

        @op("unget")
        def _(o, rng):
            if m:
                x = o.get_metadata(P(posix(rng.choice(sorted(m)))))
                model.add_run(x, dict(gen.run(rng), content=1))
                o.unget_metadata(x, realm)
                return o.is_saved_on(realm), model.dump_metadata(x)

    if kind == "dataset tree":
        paths = [posix(p) for p in m] + ["unknown", ""] + [posix(p[:1]) for p in m] + [
            posix(p) + "/below" for p in m]

        @op("get record")
        def _(o, rng):
            r = o.get_metadata_root_record(P(rng.choice(paths)))
            return None if r is None else model.dump_mrr(r)

        @op("add dataset")
        def _(o, rng):
            o.add_dataset(P(rng.choice(paths + ["new/set"])), model.build_mrr(gen.mrr(rng, True, 1)))
            return o.is_saved_on(realm)

        @op("contains dataset")
        def _(o, rng):
            return [P(p) in o for p in paths]

        @op("dataset_paths")
        def _(o, rng):
            return sorted(str(p) for p, _ in o.dataset_paths)

        @op("add_subtree")
        def _(o, rng):
            o.add_subtree(model.build_dataset_tree(gen.dataset_tree(rng, 1, True, 1)),
                          P(rng.choice(["sub/new", "n"] + paths)))
            return o.is_saved_on(realm)

        @op("delete_subtree")
        def _(o, rng):
            o.delete_subtree(P(rng.choice(paths[:len(m)] + ["unknown"])))
            return o.is_saved_on(realm)

        @op("modify record")
        def _(o, rng):
            r = o.get_metadata_root_record(P(posix(rng.choice(sorted(m)))))
            r.set_dataset_level_metadata(model.build_metadata(gen.meta(rng)))
            return o.is_saved_on(realm)

    if kind in ("file tree", "dataset tree"):
        @op("contains")
        def _(o, rng):
            return [P(p) in o for p in paths]

        @op("paths")
        def _(o, rng):
            return sorted((str(p), type(n).__name__) for p, n in o.get_paths_recursive(
                rng.random() < 0.5))

        @op("partial iteration")
        def _(o, rng):
            it = iter(o.get_paths_recursive())
            k = rng.randint(0, 2)
            n = 0
            for _ in it:
                n += 1
                if n > k:
                    break
            it.close()
            return n

        @op("children")
        def _(o, rng):
            t = real(o)
            names = [p[0] for p in m] + ["unknown"]
            return [(t.contains_child(n), type(t.get_child(n)).__name__, P(n) in t)
                    for n in names]

        @op("object at path")
        def _(o, rng):
            return [type(real(o).get_object_at_path(P(p))).__name__ for p in paths]

        @op("remove")
        def _(o, rng):
            real(o).remove_child_at(P(rng.choice(
                [p if kind == "file tree" else p + "/" + gen.MRR_NAME for p in paths[:len(m)]]
                + ["unknown"])))
            return o.is_saved_on(realm)

        @op("remove child")
        def _(o, rng):
            real(o).remove_child(rng.choice([p[0] if p else gen.MRR_NAME for p in m] + ["unknown"]))

        @op("add child")
        def _(o, rng):
            if kind == "file tree":
                n, c = rng.choice([p[0] for p in m] + ["newchild"]), build("metadata", gen.meta(rng))
            elif rng.random() < 0.5:
                n, c = gen.MRR_NAME, build("record", gen.mrr(rng, True, 1))
            else:
                n = rng.choice([p[0] for p in m if p] + ["newchild"])
                c = model.build_dataset_tree(gen.dataset_tree(rng, 1, True, 1)).mtree
            real(o).add_child(n, c)
            return o.is_saved_on(realm)

    if kind == "record":
        @op("get file tree")
        def _(o, rng):
            t = o.get_file_tree()
            return None if t is None else model.dump_file_tree(t)

        @op("file_tree property")
        def _(o, rng):
            return None if o.file_tree is None else sorted(
                str(p) for p, _ in o.file_tree.get_paths_recursive())

        @op("get metadata")
        def _(o, rng):
            t = o.get_dataset_level_metadata()
            return None if t is None else model.dump_metadata(t)

        @op("set file tree")
        def _(o, rng):
            o.set_file_tree(model.build_file_tree(gen.files(rng, 2)))
            return o.is_saved_on(realm)

        @op("assign file tree")
        def _(o, rng):
            o.file_tree = model.build_file_tree(gen.files(rng, 2))
            return o.is_saved_on(realm)

        @op("set metadata")
        def _(o, rng):
            o.set_dataset_level_metadata(model.build_metadata(gen.meta(rng)))
            return o.is_saved_on(realm)

        @op("modify file")
        def _(o, rng):
            t = o.get_file_tree()
            if t is not None and m.files:
                model.add_run(t.get_metadata(P(posix(rng.choice(sorted(m.files))))),
                              dict(gen.run(rng), content=1))
            return o.is_saved_on(realm)

    if kind in ("list", "tree list"):
        keys = sorted(m) + [("unknown", ()), ("v", ("x",))]
        if m:
            keys.append((sorted(m)[0][0], ("unknown",)))

        @op("len")
        def _(o, rng):
            return len(o)

        @op("versions")
        def _(o, rng):
            return sorted(o.versions())

        @op("pairs")
        def _(o, rng):
            return sorted((v, str(p)) for v, p in o.versions_and_prefix_paths())

        @op("get element")
        def _(o, rng):
            k = rng.choice(keys)
            ts, p, e = o.get_versioned_element(k[0], P(posix(k[1])))
            return ts, str(p), model.dump_element(e)

        @op("get elements")
        def _(o, rng):
            return sorted((str(p), ts, model.canon(model.dump_element(e)))
                          for ts, p, e in o.get_versioned_elements(rng.choice(keys)[0]))

        @op("versioned_elements")
        def _(o, rng):
            return sorted((v, str(p), ts, type(e).__name__)
                          for v, (ts, p, e) in o.versioned_elements)

        @op("set element")
        def _(o, rng):
            k = rng.choice(keys)
            o.set_versioned_element(k[0], "9", P(posix(k[1])),
                                    model.build_element(gen.mrr(rng, True, 1)))
            return o.is_saved_on(realm), len(o)

        @op("unget element")
        def _(o, rng):
            k = rng.choice(keys)
            o.unget_versioned_element(k[0], P(posix(k[1])), realm)
            return o.is_saved_on(realm)

        @op("modify element")
        def _(o, rng):
            if m:
                k = rng.choice(sorted(m))
                e = o.get_versioned_element(k[0], P(posix(k[1])))[2]
                if isinstance(e, lib.MetadataRootRecord):
                    e.set_dataset_level_metadata(model.build_metadata(gen.meta(rng)))
                else:
                    e.add_dataset(P("brand/new"), model.build_mrr(gen.mrr(rng, True, 1)))
            return o.is_saved_on(realm)

        @op("deepcopy prefix")
        def _(o, rng):
            return dump(kind, o.deepcopy(new_destination=other, path_prefix=P("pre/fix")))

        if kind == "tree list":
            @op("get tree")
            def _(o, rng):
                k = rng.choice(keys)
                ts, p, e = o.get_dataset_tree(k[0], P(posix(k[1])))
                return ts, str(p), model.dump_element(e)

            @op("get trees")
            def _(o, rng):
                return sorted((str(p), ts) for ts, p, e in o.get_dataset_trees(
                    rng.choice(keys)[0]))

            @op("set tree")
            def _(o, rng):
                k = rng.choice(keys)
                o.set_dataset_tree(k[0], "9", P(posix(k[1])),
                                   model.build_dataset_tree(gen.dataset_tree(rng, 1, True, 1)))
                return o.is_saved_on(realm)

            @op("unget tree")
            def _(o, rng):
                k = rng.choice(keys)
                o.unget_dataset_tree(k[0], P(posix(k[1])), realm)
                return o.is_saved_on(realm)

    if kind == "uuid set":
        ids = [uuid.UUID(i) for i in sorted(m)] + [uuid.UUID(int=5)]

        @op("uuids")
        def _(o, rng):
            return sorted(str(i) for i in o.uuids())

        @op("get list")
        def _(o, rng):
            return model.dump_list(o.get_version_list(rng.choice(ids)))

        @op("set list")
        def _(o, rng):
            o.set_version_list(rng.choice(ids), model.build_list(
                gen.version_list(rng, 1, True, "mrr", 1)))
            return o.is_saved_on(realm)

        @op("unget list")
        def _(o, rng):
            o.unget_version_list(rng.choice(ids))
            return o.is_saved_on(realm)

        @op("modify list")
        def _(o, rng):
            if m:
                vl = o.get_version_list(uuid.UUID(rng.choice(sorted(m))))
                vl.set_versioned_element("new", "1", P(""), model.build_mrr(gen.mrr(rng, True, 1)))
            return o.is_saved_on(realm)
    return ops


def observe(twins, state, ops, seed):
    """Execute operations on a twin; everything that can be observed"""
    out = []
    o = twins.make(state)
    for i, (name, fn) in enumerate(ops):
        gen._counter[0] = 10 ** 6 * (i + 1)
        try:
            r = ["result", fn(o, gen.rng_for("c24 op", seed, i))]
        except Exception as e:
            r = ["error", type(e).__name__]
        out.append([name, r])
    out.append(["content", dump(twins.kind, o)])
    loc = o.write_out(twins.realm).location
    out.append(["location", loc])
    out.append(["saved", o.is_saved_on(twins.realm)])
    if loc != store.NONE:
        with store.Decoder(twins.realm) as d:
            got = {"metadata": d.metadata, "file tree": d.file_tree, "record": d.mrr,
                   "dataset tree": d.dataset_tree, "list": d.version_list,
                   "tree list": d.version_list, "uuid set": d.uuid_set}[twins.kind](loc)
        out.append(["stored", flat(twins.kind, got)])
    return out


def first_difference(a, b):
    for (name, x), (name_2, y) in zip(a, b):
        if name != name_2 or x != y:
            d = model.diff(x, y) if isinstance(x, (dict, list)) else None
            return f"{name}: {d or (str(x)[:300] + ' and ' + str(y)[:300])}"
    return None if len(a) == len(b) else "different length"


def cycles(ctx, twins, rng):
    """Loading and purging without modification"""
    kind, realm = twins.kind, twins.realm
    for state in rng.sample(STATES, 3):
        o = twins.make(state)
        objects = None
        for _ in range(8):
            step = rng.choice(["load", "read", "purge", "purge parts", "load all", "write", "dump",
                               "is_saved"])
            if step == "load":
                o.ensure_mapped()
                check(o.ensure_mapped() is False, "an object in memory is loaded again")
            elif step == "read":
                check(o.read_in() is o or real(o) is not o, "read_in returns another object")
            elif step == "purge":
                o.purge()
            elif step == "purge parts":
                for s in parts_of(o):
                    if rng.random() < 0.5:
                        s.purge()
            elif step == "load all":
                load_all(o)
            elif step == "write":
                check(o.write_out(realm).location == twins.reference.location,
                      "loading and purging changed the location")
            elif step == "dump":
                d = model.diff(flat(kind, twins.m), dump(kind, o))
                check(d is None, f"loading and purging changed the content: {d}")
            check(o.is_saved_on(realm), f"{step} of an unmodified object revokes its save state")
            check(o.reference.location == twins.reference.location,
                  f"{step} of an unmodified object changes its location")
            ctx.count("cycles")
        objects = store.all_objects(realm)
        o.write_out(realm)
        check(store.all_objects(realm) == objects, "saving an unmodified object wrote objects")


def destinations(ctx, kind, m, rng):
    """The default destination is the repository of the last save or load"""
    names = ["a", "z"]
    rng.shuffle(names)
    first, last = (ctx.repo("dest-" + n) for n in names)
    for state in ("built", "purged", "purged twice", "opened", "parts purged", "copied", "saved again"):
        o = build(kind, m)
        if o.write_out(first).location == store.NONE:
            return
        reference = o.write_out(last)
        if state == "opened":
            o = reopen(kind, last, reference)
        elif state == "copied":
            o = o.deepcopy(new_destination=last)
        elif state == "parts purged":
            for s in parts_of(o):
                if rng.random() < 0.5:
                    s.purge()
        elif state == "saved again":
            o.write_out(first)
            o.write_out(last)
        elif state.startswith("purged"):
            o.purge()
            if state == "purged twice":
                dump(kind, o)
                o.purge()
        parts = [s for s in parts_of(o) if real(s).reference.location != store.NONE]
        for x in rng.sample(parts, min(2, len(parts))) + [o]:
            x.ensure_mapped()
            real(x).touch()
            check(not x.is_saved_on(first) and not x.is_saved_on(last),
                  "a touched object claims to be saved")
            x.write_out()
            check(x.is_saved_on(last) and not x.is_saved_on(first),
                  f"{state}: {type(x).__name__} that was last saved to {last[-1]} is, without "
                  f"destination, saved to {'another repository' if x.is_saved_on(first) else 'none'}")
            ctx.count("default_destinations")
        ungets(ctx, kind, o, first, last)


def ungets(ctx, kind, o, first, last):
    """An element that is put back is saved on the given destination"""
    if kind == "file tree":
        for _, e in itertools.islice(list(o.get_paths_recursive()), 2):
            load_all(e)
            e.touch()
            o.unget_metadata(e, first)
            check(e.is_saved_on(first), "metadata, put back to a repository, is not saved there")
            ctx.count("destinations_of_elements")
    elif kind in ("list", "tree list"):
        for v, p in itertools.islice(list(o.versions_and_prefix_paths()), 2):
            e = o.get_versioned_element(v, p)[2]
            load_all(e)
            for s in [*parts_of(e), e]:
                real(s).touch()
            o.unget_versioned_element(v, p, first)
            check(e.is_saved_on(first), "an element, put back to a repository, is not saved there")
            ctx.count("destinations_of_elements")


def work(case, ctx, realm, other):
    rng = gen.rng_for("c24", case["seed"])
    kind = case["kind"]
    m = generate(kind, rng, case["hostile"])
    if kind in ("file tree", "dataset tree") and not m:
        m[("x",)] = gen.meta(rng) if kind == "file tree" else gen.mrr(rng)
    twins = Twins(ctx, kind, m, realm, case["seed"])
    ops = operations(kind, m, realm, other)
    rounds = [[o] for o in ops]
    for _ in range(6):
        rounds.append(rng.sample(ops, 2) + [rng.choice(ops)])
    states = STATES[1:]
    for i, chosen in enumerate(rounds):
        seed = (case["seed"], i)
        expected = observe(twins, "built", chosen, seed)
        for state in rng.sample(states, 4):
            got = observe(twins, state, chosen, seed)
            d = first_difference(expected, got)
            check(d is None, f"{kind}, {[n for n, _ in chosen]}: in memory and {state} differ: {d}")
            ctx.count("comparisons")
            for n, _ in chosen:
                ctx.saw(kind, n, state)
        ctx.count("operations", len(chosen))
        ctx.saw(model.canon(expected[-1]))
    cycles(ctx, twins, rng)
    destinations(ctx, kind, m, rng)
    ctx.sample = f"{kind}: {len(rounds)} sequences of operations"


def run_case(case, ctx):
    work(case, ctx, ctx.repo("repo"), ctx.repo("other"))
