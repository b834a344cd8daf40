"""C23: version lists and UUID sets behave like maps"""
import copy
import uuid

from .. import gen, lib, model, store
from ..model import Mrr, posix
from ..proc import session
from ..runner import Violation, check

LEVEL = "exploration"
RULE = ("Random sequences of set, replace, get, enumerate, size, modify through a returned element, "
        "unget, save, purge and reload operations on version lists, tree version lists and UUID sets with "
        "few colliding keys and hostile versions and prefixes (in several spellings) are mirrored by dictionaries. "
        "After every operation all queries of the object are compared with the dictionary, known and unknown keys, "
        "identity of the returned elements while they are in memory, and content afterwards. The "
        "stored form is compared with an independent decoder. Refused and failing operations must not change anything. "
        "Some lists have hundreds of entries. Non-trivial: distinct (operation, memory state, size, key known) tuples and contents.")
ASSUMPTIONS = ["An UUID set does not list a data set of which the version list is not set"]
REQUIRED = {"operations": 900, "queries": 8000, "unknown_keys": 900, "replaced": 60,
            "purges": 60, "reloads": 60, "modified": 60, "large": 2}


def cases(tier, seed):
    n = {"quick": 96, "thorough": 2400}[tier]
    return [{"seed": f"{seed}/{i}", "kind": ["list", "tree list", "uuid set"][i % 3],
             "hostile": i % 2 == 0} for i in range(n)] + [
        {"seed": f"{seed}/large/{i}", "kind": ["list", "tree list"][i % 2],
         "hostile": False, "large": [90, 140][i // 2 % 2]} for i in range(n // 24)]


def spell(rng, prefix):
    """A path object for the prefix, from several spellings"""
    text = posix(prefix)
    r = rng.random()
    if r < 0.4 or not prefix:
        return lib.P(text if r < 0.8 else "")
    if r < 0.6:
        return lib.P("//".join(prefix))
    if r < 0.8:
        return lib.P(*prefix)
    p = lib.P("")
    for x in prefix:
        p = p / x
    return p


class Keys:
    def __init__(self, rng, hostile):
        self.versions = [gen.version(rng, hostile) for _ in range(3)] + ["v", "v "]
        base = [gen.prefix(rng, hostile) for _ in range(2)]
        self.prefixes = [(), ("a",), ("a", "b"), ("ab",)] + base
        self.rng = rng

    def any(self):
        return self.rng.choice(self.versions), self.rng.choice(self.prefixes)


def small_element(rng, hostile, tree_only):
    if tree_only or rng.random() < 0.5:
        return {p: Mrr(gen.ident(rng), gen.version(rng, hostile), gen.meta(rng, hostile, 1), {})
                for p in rng.sample([(), ("s",), ("s", "t")], rng.choice([1, 1, 2]))}
    return Mrr(gen.ident(rng), gen.version(rng, hostile), gen.meta(rng, hostile, 1), {})


def modify_element(rng, m, o):
    """Modify an element through the object and in the model"""
    meta = gen.meta(rng, True, 1)
    if isinstance(m, Mrr):
        m.dlm = meta
        o.set_dataset_level_metadata(model.build_metadata(meta))
        return
    p = rng.choice(list(m))
    if rng.random() < 0.5:
        m[p].dlm = meta
        o.get_metadata_root_record(lib.P(posix(p))).set_dataset_level_metadata(
            model.build_metadata(meta))
    else:
        q = ("n%d" % rng.randint(0, 1000),)
        if q not in m:
            m[q] = Mrr(gen.ident(rng), "v", meta, {})
            o.add_dataset(lib.P(posix(q)), model.build_mrr(m[q]))


class ListMirror:
    """A version list and its model {key: [time stamp, element model, object or None]}"""
    def __init__(self, ctx, rng, cls, hostile, realm, keys=None):
        self.ctx, self.rng, self.cls, self.hostile, self.realm = ctx, rng, cls, hostile, realm
        self.keys = keys or Keys(rng, hostile)
        self.m = {}
        self.saved = False      # for lists in UUID sets: was saved once
        self.o = cls()
        self.tree_only = cls is lib.TreeVersionList and rng.random() < 0.7
        if rng.random() < 0.2:
            init = {}
            for _ in range(2):
                k = self.keys.any()
                ts, e = "1", small_element(rng, hostile, self.tree_only)
                obj = model.build_element(e)
                init.setdefault(k[0], {})[lib.P(posix(k[1]))] = lib.VersionRecord(
                    ts, lib.P(posix(k[1])) if k[1] or rng.random() < 0.5 else None, obj)
                self.m[k] = [ts, e, obj]
            self.o = cls(initial_set=init)

    # -- operations -----------------------------------------------------------
    def set(self):
        rng = self.rng
        k = self.keys.any()
        ts = rng.choice(["1.0", "2.5", "", gen.string(rng, self.hostile)])
        e = small_element(rng, self.hostile, self.tree_only)
        obj = model.build_element(e)
        path = spell(rng, k[1])
        if k in self.m:
            self.ctx.count("replaced")
        if self.cls is lib.TreeVersionList and isinstance(obj, lib.DatasetTree) \
                and rng.random() < 0.5:
            self.o.set_dataset_tree(k[0], ts, path, obj)
        else:
            self.o.set_versioned_element(k[0], ts, path, obj)
        self.m[k] = [ts, e, obj]

    def get(self, k):
        path = spell(self.rng, k[1])
        if self.cls is lib.TreeVersionList and self.rng.random() < 0.5:
            return self.o.get_dataset_tree(k[0], path)
        return self.o.get_versioned_element(k[0], path)

    def modify(self):
        if self.m:
            k = self.rng.choice(list(self.m))
            ts, prefix, e = self.get(k)
            modify_element(self.rng, self.m[k][1], e)
            self.ctx.count("modified")

    def unget(self):
        rng = self.rng
        if not self.m or rng.random() < 0.3:
            k = self.keys.any()
            if k not in self.m:
                self.unknown(lambda: self.o.unget_versioned_element(
                    k[0], spell(rng, k[1]), self.realm), k)
                return
        else:
            k = rng.choice(list(self.m))
        if self.cls is lib.TreeVersionList and isinstance(self.m[k][1], dict) and rng.random() < 0.5:
            self.o.unget_dataset_tree(k[0], spell(rng, k[1]), self.realm)
        else:
            self.o.unget_versioned_element(k[0], spell(rng, k[1]), self.realm)

    def write(self):
        self.o.write_out(self.realm)

    def purge(self):
        if self.rng.random() < 0.3:
            try:
                self.o.purge()
            except ValueError:
                self.ctx.count("refused_purges")
                return
        else:
            self.o.write_out(self.realm)
            self.o.purge()
        for v in self.m.values():
            v[2] = None
        self.ctx.count("purges")

    def reload(self):
        ref = self.o.write_out(self.realm)
        with store.Decoder(self.realm) as d:
            got = model.flat_list(d.version_list(ref.location))
        diff = model.diff(self.flat(), got)
        check(diff is None, f"stored version list differs: {diff}")
        self.o = self.cls(realm=self.realm, reference=ref)
        for v in self.m.values():
            v[2] = None
        self.ctx.count("reloads")

    # -- oracle -----------------------------------------------------------------
    def flat(self):
        return model.flat_list({k: (v[0], v[1]) for k, v in self.m.items()})

    def unknown(self, fn, k):
        try:
            fn()
        except KeyError:
            self.ctx.count("unknown_keys")
            return
        except Exception as e:
            raise Violation(f"query of the unknown key {k} raises {type(e).__name__} instead of a key error")
        raise Violation(f"query of the unknown key {k} does not fail")

    def entry(self, version, ts, prefix, e, what):
        k = (version, tuple(prefix.parts))
        check(isinstance(prefix, lib.P), f"{what}: prefix is a {type(prefix).__name__}")
        check(k in self.m, f"{what} reports the unknown entry {k}")
        ts_, m, obj = self.m[k]
        check(ts == ts_, f"{what}: time stamp of {k} is {ts!r}, not {ts_!r}")
        if obj is not None:
            check(e is obj, f"{what}: another object is returned for {k}")
        else:
            self.m[k][2] = e
        return k

    def verify(self, deep):
        rng, o, m = self.rng, self.o, self.m
        queries = ["len", "versions", "pairs", "all", "elements", "get", "unknown"]
        rng.shuffle(queries)
        saved = o.is_saved_on(self.realm)
        for q in queries:
            self.ctx.count("queries")
            if q == "len":
                check(len(o) == len(m), f"size is {len(o)}, not {len(m)}")
            elif q == "versions":
                got = sorted(o.versions())
                check(got == sorted(k[0] for k in m), f"versions are {got}")
            elif q == "pairs":
                got = sorted((v, tuple(p.parts)) for v, p in o.versions_and_prefix_paths())
                check(got == sorted(m), f"keys are {got}, not {sorted(m)}")
            elif q == "all":
                got = sorted(self.entry(v, *r, "versioned_elements") for v, r in o.versioned_elements)
                check(got == sorted(m), f"versioned_elements has keys {got}, not {sorted(m)}")
            elif q == "elements":
                for v in {k[0] for k in m}:
                    fn = o.get_dataset_trees if self.cls is lib.TreeVersionList \
                        and rng.random() < 0.5 else o.get_versioned_elements
                    got = sorted(self.entry(v, *r, "get_versioned_elements") for r in fn(v))
                    check(got == sorted(k for k in m if k[0] == v),
                          f"elements of version {v!r} are {got}")
            elif q == "get":
                for k in m:
                    ts, prefix, e = self.get(k)
                    check((k[0], tuple(prefix.parts)) == k, f"prefix of {k} is {prefix}")
                    self.entry(k[0], ts, prefix, e, "get_versioned_element")
                    self.ctx.count("queries")
                    if deep:
                        d = model.diff(model.flat_element(m[k][1]), model.dump_element(e))
                        check(d is None, f"content of {k} differs: {d}")
            else:
                for _ in range(3):
                    k = self.keys.any()
                    if rng.random() < 0.3:
                        k = rng.choice([("unknown", k[1]), (k[0], ("unknown",)),
                                        (k[0] + " ", k[1]), (k[0], k[1] + k[1] + ("x",))])
                    if k not in m:
                        self.unknown(lambda: self.get(k), k)
                    if k[0] not in {x[0] for x in m}:
                        self.unknown(lambda: list(o.get_versioned_elements(k[0])), k[0])
        check(o.is_saved_on(self.realm) == saved, "queries changed the save state")

    OPS = ["set", "set", "set", "modify", "unget", "write", "purge", "reload"]

    def run(self, steps):
        self.verify(True)
        for i in range(steps):
            op = self.rng.choice(self.OPS)
            state = (self.o.mapped, self.o.is_saved_on(self.realm), len(self.m))
            self.ctx.log(op, state)
            getattr(self, op)()
            self.ctx.count("operations")
            self.ctx.saw(self.cls.__name__, op, state)
            if self.rng.random() < 0.7:
                self.verify(i % 5 == 4)
        self.verify(True)
        self.reload()
        self.verify(True)
        self.ctx.saw(model.digest(self.flat()))


class SetMirror:
    def __init__(self, ctx, rng, hostile, realm):
        self.ctx, self.rng, self.hostile, self.realm = ctx, rng, hostile, realm
        self.o = lib.UUIDSet()
        self.ids = [uuid.UUID(gen.ident(rng)) for _ in range(5)] + [
            uuid.UUID(int=0), uuid.UUID(int=(1 << 128) - 1)]
        self.m = {}     # uuid -> ListMirror
        if rng.random() < 0.2:
            vl = self.new_list()
            self.m[self.ids[0]] = vl
            self.o = lib.UUIDSet(initial_set={self.ids[0]: vl.o})

    def new_list(self):
        vl = ListMirror(self.ctx, self.rng, lib.VersionList, self.hostile, self.realm)
        for _ in range(self.rng.choice([0, 1, 2])):
            vl.set()
        return vl

    def key(self, rng):
        i = rng.choice(self.ids)
        return uuid.UUID(str(i)) if rng.random() < 0.5 else uuid.UUID(str(i).upper())

    def set(self):
        i = self.key(self.rng)
        vl = self.new_list()
        if i in self.m:
            self.ctx.count("replaced")
        self.o.set_version_list(i, vl.o)
        self.m[i] = vl

    def modify(self):
        if self.m:
            i = self.rng.choice(list(self.m))
            vl = self.m[i]
            vl.o = self.o.get_version_list(i)
            self.rng.choice([vl.set, vl.modify, vl.modify])()
            self.ctx.count("modified")

    def unget(self):
        i = self.key(self.rng)
        if i not in self.m:
            ListMirror.unknown(self, lambda: self.o.unget_version_list(i), i)
            return
        try:
            self.o.unget_version_list(i)
        except AssertionError:
            # a list that was never saved has no destination
            check(not self.m[i].saved, "unget of a saved version list is refused")
            self.ctx.count("refused_ungets")
            return
        for v in self.m[i].m.values():
            v[2] = None

    def write(self):
        self.o.write_out(self.realm)
        for vl in self.m.values():
            vl.saved = True

    def forget(self):
        for vl in self.m.values():
            vl.o = None
            vl.saved = True
            for v in vl.m.values():
                v[2] = None

    def purge(self):
        if self.rng.random() < 0.3:
            try:
                self.o.purge()
            except ValueError:
                self.ctx.count("refused_purges")
                return
        else:
            self.o.write_out(self.realm)
            self.o.purge()
        self.forget()
        self.ctx.count("purges")

    def flat(self):
        return {str(i): vl.flat() for i, vl in sorted(self.m.items(), key=lambda x: str(x[0]))}

    def reload(self):
        ref = self.o.write_out(self.realm)
        with store.Decoder(self.realm) as d:
            got = model.flat_uuid_set(d.uuid_set(ref.location))
        diff = model.diff(self.flat(), got)
        check(diff is None, f"stored UUID set differs: {diff}")
        self.o = lib.UUIDSet(realm=self.realm, reference=ref)
        self.forget()
        self.ctx.count("reloads")

    def verify(self, deep):
        rng, o = self.rng, self.o
        saved = o.is_saved_on(self.realm)
        for q in rng.sample(["uuids", "get", "unknown"], 3):
            self.ctx.count("queries")
            if q == "uuids":
                got = list(o.uuids())
                check(sorted(got, key=str) == sorted(self.m, key=str), f"uuids are {got}")
                check(all(isinstance(i, uuid.UUID) for i in got), "uuids are not UUIDs")
            elif q == "get":
                for i, vl in self.m.items():
                    got = o.get_version_list(i)
                    if vl.o is not None:
                        check(got is vl.o, f"another version list is returned for {i}")
                    vl.o = got
                    self.ctx.count("queries")
                    if deep or rng.random() < 0.2:
                        vl.verify(deep)
            else:
                for i in self.ids + [uuid.uuid4()]:
                    if i not in self.m:
                        ListMirror.unknown(self, lambda: o.get_version_list(i), i)
        check(o.is_saved_on(self.realm) == saved, "queries changed the save state")

    OPS = ListMirror.OPS
    cls = lib.UUIDSet
    run = ListMirror.run


def work(case, ctx, realm):
    rng = gen.rng_for("c23", case["seed"])
    if case["kind"] == "uuid set":
        mirror = SetMirror(ctx, rng, case["hostile"], realm)
        mirror.run(18)
    else:
        cls = lib.TreeVersionList if case["kind"] == "tree list" else lib.VersionList
        mirror = ListMirror(ctx, rng, cls, case["hostile"], realm)
        if case.get("large"):
            # limits show only in large lists
            mirror.keys.prefixes += [("p%d" % i,) for i in range(case["large"])]
            mirror.keys.versions += ["v%d" % i for i in range(case["large"] // 4)]
            element = small_element(rng, case["hostile"], mirror.tree_only)
            keys = [("v", p) for p in mirror.keys.prefixes] + [
                (v, ("a",)) for v in mirror.keys.versions]
            for k in keys:
                if k not in mirror.m:
                    obj = model.build_element(element)
                    mirror.o.set_versioned_element(k[0], "1", lib.P(posix(k[1])), obj)
                    mirror.m[k] = ["1", copy.deepcopy(element), obj]
            mirror.run(3)
            ctx.count("large")
        else:
            mirror.run(26)
    ctx.sample = f"{case['kind']} with {len(mirror.m)} entries"


def run_case(case, ctx):
    work(case, ctx, ctx.repo("repo"))
