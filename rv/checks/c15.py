"""C15: lookup and automatic creation of metadata root records"""
import copy
import time
import uuid
from pathlib import Path

from .. import gen, lib, model, store
from ..model import Meta, Mrr, posix
from ..proc import session
from ..runner import check
from dataladmetadatamodel.common import get_metadata_root_record_from_top_nodes

LEVEL = "exploration"
RULE = ("Random sequences of queries for datasets and sub-datasets (from a small universe of datasets, "
        "versions, path prefixes and tree paths, so that parts of what is queried exist), with and "
        "without automatic creation, in several sessions that extend the returned records and save both, "
        "only one, or none of the top-level objects. A model predicts the returned record "
        "and the created elements; after every session the stored state is decoded and compared, "
        "and queries without creation must leave the repository unchanged. "
        "Non-trivial: distinct (stored content, query) pairs.")
ASSUMPTIONS = ["A version identifies a state of one dataset, a tree path within it one "
               "sub-dataset version"]
REQUIRED = {"queries": 300, "created": 80, "found": 100, "not_found": 50,
            "sub_dataset_queries": 120, "states_compared": 60}


def cases(tier, seed):
    n = {"quick": 40, "thorough": 900}[tier]
    return [{"seed": f"{seed}/{i}", "hostile": i % 3 == 2} for i in range(n)]


class Universe:
    def __init__(self, rng, hostile):
        self.ids = [gen.ident(rng) for _ in range(3)]
        self.versions = {i: ["%040x" % rng.getrandbits(160) for _ in range(2)]
                         for i in self.ids}
        name = lambda: next(n for n in iter(lambda: gen.name(rng, hostile), None)
                            if gen.valid_name(n) and n != gen.MRR_NAME)
        a, b = name(), name()
        self.prefixes = [(), (a,), (a, b)]
        self.paths = [(a,), (a, b), (b,), (a, b, a)]
        self.subs = {}
        self.asked = []
        for i in self.ids:
            for v in self.versions[i]:
                for p in self.paths:
                    s = rng.choice([x for x in self.ids if x != i])
                    self.subs[v, p] = (s, rng.choice(self.versions[s]))

    def query(self, rng):
        if self.asked and rng.random() < 0.4:
            return rng.choice(self.asked)
        q = self.new_query(rng)
        self.asked.append(q)
        return q

    def new_query(self, rng):
        i = rng.choice(self.ids)
        v = rng.choice(self.versions[i])
        prefix = rng.choice(self.prefixes)
        if rng.random() < 0.5:
            return i, v, prefix, (), None, None
        p = rng.choice(self.paths)
        return (i, v, prefix, p) + self.subs[v, p]


class Model:
    """tvl: {(version, prefix): [ts, {path: Mrr}]}, us: {id: {(version, prefix):
    [ts, Mrr]}}"""
    def __init__(self):
        self.tvl, self.us = None, None

    def consistent(self, i, v, prefix, path, si, sv):
        """Everything about this dataset is registered in both, or in none"""
        if self.tvl is None or self.us is None:
            return self.tvl is self.us
        wanted = [(i, v, prefix, ())]
        if path:
            wanted.append((si, sv, (), path))
        for ident, version, p, where in wanted:
            a = where in self.tvl.get((v, prefix), (0, {}))[1]
            b = (version, p) in self.us.get(ident, {})
            if a != b and not (where and b):
                return False
        return True

    def query(self, i, v, prefix, path, si, sv, create):
        """(record or None, number of created elements)"""
        created = 0
        if self.tvl is None or self.us is None:
            if not create:
                return None, 0
            self.tvl = {} if self.tvl is None else self.tvl
            self.us = {} if self.us is None else self.us
        root_prefix = prefix
        if path:
            if i not in self.us:
                if not create:
                    return None, 0
                self.us[i] = {}
                created += 1
        if (v, root_prefix) not in self.tvl:
            if not create:
                return None, 0
            self.tvl[v, root_prefix] = ["*", {}]
            created += 1
        tree = self.tvl[v, root_prefix][1]
        ident, version = i, v
        if path:
            if () not in tree:
                if not create:
                    return None, 0
                tree[()] = Mrr(i, v, Meta(), {})
                created += 1
            if (v, root_prefix) not in self.us[i]:
                self.us[i][v, root_prefix] = ["*", tree[()]]
                created += 1
            ident, version, prefix = si, sv, ()
        if ident not in self.us:
            if not create:
                return None, 0
            self.us[ident] = {}
            created += 1
        if path not in tree:
            if not create:
                return None, 0
            tree[path] = Mrr(ident, version, Meta(), {})
            created += 1
        if (version, prefix) not in self.us[ident]:
            self.us[ident][version, prefix] = ["*", tree[path]]
            created += 1
        return tree[path], created

    def flat_tvl(self):
        return None if self.tvl is None else {
            model.canon([v, list(p)]): [ts, {"tree": model.flat_tree(t)}]
            for (v, p), (ts, t) in self.tvl.items()}

    def flat_us(self):
        return None if self.us is None else {
            i: {model.canon([v, list(p)]): [ts, m.flat()] for (v, p), (ts, m) in l.items()}
            for i, l in self.us.items()}


def stamps(flat, before, after, known):
    """Replace time stamps of created entries by '*', after checking them"""
    def entry(key, e):
        ts = e[0]
        if key not in known:
            t = float(ts)
            check(before - 1 <= t <= after + 1, f"time stamp of created entry: {ts}")
            known[key] = ts
        check(known[key] == ts, "time stamp of an existing entry was changed")
        return ["*", e[1]]
    tvl, us = flat
    return (None if tvl is None else {k: entry(("tvl", k), e) for k, e in tvl.items()},
            None if us is None else {i: {k: entry((i, k), e) for k, e in l.items()}
                                     for i, l in us.items()})


def stored(realm):
    refs = store.refs(realm)
    with store.Decoder(realm) as d:
        return (model.flat_list(d.version_list(lib.REF_TVL))
                if lib.REF_TVL in refs else None,
                model.flat_uuid_set(d.uuid_set(lib.REF_UUID))
                if lib.REF_UUID in refs else None)


def run_session(realm, seed, m, universe, hostile, ctx_case):
    rng = gen.rng_for("c15 session", seed)
    counters = {}
    seen = []

    def count(k, n=1):
        counters[k] = counters.get(k, 0) + n
    for _ in range(rng.choice([1, 2, 3])):
        q = universe.query(rng)
        if q[3]:
            count("sub_dataset_queries")
        i, v, prefix, path, si, sv = q
        args = ("git", realm,
                uuid.UUID(i), v, lib.P(posix(prefix)), lib.P(posix(path)),
                None if si is None else uuid.UUID(si), sv)
        create = rng.random() < 0.55
        consistent = m.consistent(*q)
        before = (store.refs(realm), store.all_objects(realm))
        t0 = time.time()
        if rng.random() < 0.8:
            tvl, us, record = lib.get_top_nodes_and_metadata_root_record(*args, create)
            if not create and (m.tvl is None or m.us is None):
                check((tvl, us, record) == (None, None, None),
                      f"query {q}: a top-level object is missing, but got {(tvl, us, record)}")
                count("nothing_to_look_up")
        else:
            # the two steps done by the caller
            tvl, us = lib.get_top_level_metadata_objects("git", realm)
            if create:
                tvl = lib.TreeVersionList() if tvl is None else tvl
                us = lib.UUIDSet() if us is None else us
            own, root = ((uuid.UUID(si), sv), (uuid.UUID(i), v)) if path else \
                ((uuid.UUID(i), v), (None, None))
            record = get_metadata_root_record_from_top_nodes(
                tvl, us, own[0], own[1], args[4], args[5], root[0], root[1], create)
        check((store.refs(realm), store.all_objects(realm)) == before,
              "a query changed the repository")
        count("queries")
        trial = copy.deepcopy(m)
        expected, created = trial.query(*q, create)
        if not create and not consistent:
            # Only one of the top-level objects knows the dataset. Nothing
            # is specified about the answer, but there must not be a wrong one
            if record is not None:
                tree = (m.tvl or {}).get((v, prefix), (0, {}))[1]
                check(path in tree and tree[path].flat() == model.dump_mrr(record),
                      "wrong record was returned")
            continue
        what = f"query {q} (creation: {create})"
        if expected is None:
            check(record is None, f"{what}: got a record, although there is none")
            count("not_found")
            seen.append(("none", q))
            if tvl is not None and us is not None and rng.random() < 0.5:
                # the returned objects are still the stored ones
                flat = stamps((model.dump_list(tvl), model.dump_uuid_set(us)),
                              0, 0, dict(ctx_case["known"]))
                check(flat == (m.flat_tvl(), m.flat_us()),
                      f"{what}: top-level objects were changed by a lookup")
            continue
        check(record is not None, f"{what}: record was not found")
        check(isinstance(record, lib.MetadataRootRecord), f"{what}: got {record!r}")
        d = model.diff(expected.flat(), model.dump_mrr(record))
        check(d is None, f"{what}: returned record differs: {d}")
        count("created" if created else "found")
        seen.append((created, q, model.digest(expected.flat())))
        if not create:
            continue
        # extend the record that was returned
        if rng.random() < 0.7:
            run = gen.run(rng, hostile)
            dlm = record.get_dataset_level_metadata()
            check(dlm is not None, "record has no dataset-level metadata")
            model.add_run(dlm, run)
            expected.dlm.add(run)
        if rng.random() < 0.6:
            files = record.get_file_tree()
            if files is None:
                files = lib.FileTree()
                record.set_file_tree(files)
            p = ("f", "%08x" % rng.getrandbits(32))
            meta = gen.meta(rng, hostile, 2)
            files.add_metadata(lib.P(posix(p)), model.build_metadata(meta))
            expected.files[p] = meta
        what = rng.choice(["both"] * 6 + ["tvl", "us", "none"])
        if what in ("both", "tvl"):
            tvl.write_out(realm)
            m.tvl = copy.deepcopy(trial.tvl)
        if what in ("both", "us"):
            us.write_out(realm)
            m.us = copy.deepcopy(trial.us)
        if what != "none":
            lib.flush_object_references(Path(realm))
        flat = stamps(stored(realm), t0, time.time(), ctx_case["known"])
        for e, g, part in zip((m.flat_tvl(), m.flat_us()), flat,
                              ("tree version list", "UUID set")):
            d = model.diff(e, g)
            check(d is None, f"after {q} and saving {what}: {part}: {d}")
        count("states_compared")
    return counters, m, ctx_case, seen, universe.asked


def run_case(case, ctx):
    rng = gen.rng_for("c15", case["seed"])
    realm = ctx.repo("repo")
    universe = Universe(rng, case["hostile"])
    m, shared = Model(), {"known": {}}
    for s in range(9):
        # the model shares records between its two parts only within a session
        counters, m, shared, seen, universe.asked = session(
            run_session, realm, f"{case['seed']}/{s}", m, universe,
            case["hostile"], shared)
        for k, v in counters.items():
            ctx.count(k, v)
        for x in seen:
            ctx.saw(*x)
    ctx.sample = f"{len(m.tvl or {})} versions, {len(m.us or {})} datasets"
