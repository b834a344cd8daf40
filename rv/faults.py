"""Sessions for crash and failure enumeration.

A session consists of steps that may be repeated: repeating a step that was
executed completely or in part leads to the same content."""
import copy
import os
import shutil
import uuid
from pathlib import Path

from . import gen, lib, model, store
from .model import posix
from .spy import Spy


def initial(rng, realm, hostile=False):
    """Store and flush a random store, returns its content"""
    m = {"tvl": gen.version_list(rng, 2, hostile, "tree", 3),
         "us": gen.uuid_set(rng, 2, hostile, "mrr", 3)}
    for root in m["tvl"].values():
        if () not in root[1]:
            root[1][()] = gen.mrr(rng, hostile, 3)
    model.build_list(m["tvl"], lib.TreeVersionList).write_out(realm)
    model.build_uuid_set(m["us"]).write_out(realm)
    lib.flush_object_references(Path(realm))
    return m


def mrrs(m):
    for key, (_, tree) in m["tvl"].items():
        for p, mrr in tree.items():
            yield ("tvl", key, p), mrr
    for ident, vl in m["us"].items():
        for key, (_, mrr) in vl.items():
            yield ("us", key, ident), mrr


def plan(rng, m, hostile=False, size=6, realm_b=None):
    """Random list of (operation, arguments)"""
    steps = []
    records = sorted(mrrs(m), key=lambda x: repr(x[0]))
    kinds = ["run_on_file", "run_on_file", "run_on_dlm", "new_file",
             "unget_file", "write_mrr", "set_dlm", "set_files",
             "new_dataset", "new_version", "new_list", "unget_tree",
             "auto_create", "flush", "remove_file", "write_files"]
    for _ in range(size):
        kind = rng.choice(kinds)
        where, mrr = rng.choice(records)
        run = gen.run(rng, hostile)
        if kind in ("run_on_file", "unget_file", "remove_file"):
            if not mrr.files:
                continue
            path = rng.choice(sorted(mrr.files))
            steps.append((kind, where, path, run))
            if kind == "remove_file":
                del mrr.files[path]
        elif kind == "run_on_dlm":
            if mrr.dlm is not None:
                steps.append((kind, where, run))
        elif kind == "new_file":
            p = gen.path(rng, hostile, 3)
            if mrr.files and gen.valid_path(p) and gen.compatible(mrr.files, p):
                mrr.files[p] = model.Meta()
                steps.append((kind, where, p, run))
        elif kind == "set_dlm":
            mrr.dlm = gen.meta(rng, hostile, 2)
            steps.append((kind, where, mrr.dlm.copy()))
        elif kind == "set_files":
            mrr.files = gen.files(rng, 3, hostile)
            steps.append((kind, where, copy.deepcopy(mrr.files)))
        elif kind in ("write_mrr", "write_files"):
            steps.append((kind, where))
        elif kind == "new_dataset":
            key = rng.choice(sorted(m["tvl"]))
            p = ("new%d" % rng.randint(0, 99), "sub")
            steps.append((kind, key, p, gen.mrr(rng, hostile, 2)))
        elif kind == "new_version":
            steps.append((kind, (gen.version(rng, hostile), ()),
                          gen.dataset_tree(rng, 2, hostile, 2)))
        elif kind == "new_list":
            steps.append((kind, gen.ident(rng),
                          gen.version_list(rng, 1, hostile, "mrr", 2)))
        elif kind == "unget_tree":
            steps.append((kind, rng.choice(sorted(m["tvl"]))))
        elif kind == "auto_create":
            steps.append((kind, gen.ident(rng), gen.version(rng, False), run))
        elif kind == "flush":
            steps.append((kind,))
    return steps


class Session:
    def __init__(self, realm, steps):
        self.realm, self.steps = realm, steps
        self.tvl = self.us = None
        self.position = 0
        self.phase = "load"

    def load(self):
        self.phase = "load"
        tvl, us = lib.get_top_level_metadata_objects("git", self.realm)
        # What a program does if there is no metadata yet
        self.tvl = lib.TreeVersionList() if tvl is None else tvl
        self.us = lib.UUIDSet() if us is None else us

    def mrr(self, where):
        root, key, x = where
        if root == "tvl":
            _, _, tree = self.tvl.get_dataset_tree(key[0], lib.P(posix(key[1])))
            return tree.get_metadata_root_record(lib.P(posix(x)))
        vl = self.us.get_version_list(uuid.UUID(x))
        return vl.get_versioned_element(key[0], lib.P(posix(key[1])))[2]

    def step(self, step):
        kind, *a = step
        P = lib.P
        realm = self.realm
        if kind in ("run_on_file", "unget_file"):
            tree = self.mrr(a[0]).get_file_tree()
            metadata = tree.get_metadata(P(posix(a[1])))
            model.add_run(metadata, a[2])
            if kind == "unget_file":
                tree.unget_metadata(metadata, realm)
        elif kind == "new_file":
            tree = self.mrr(a[0]).get_file_tree()
            r = a[2]
            tree.add_extractor_run(
                P(posix(a[1])), r["ts"], r["extractor"], r["author"], r["email"],
                lib.ExtractorConfiguration(r["version"], copy.deepcopy(r["params"])),
                copy.deepcopy(r["content"]))
        elif kind == "remove_file":
            tree = self.mrr(a[0]).get_file_tree()
            if tree.get_metadata(P(posix(a[1]))) is not None:
                tree.mtree.remove_child_at(P(posix(a[1])))
        elif kind == "run_on_dlm":
            model.add_run(self.mrr(a[0]).get_dataset_level_metadata(), a[1])
        elif kind == "set_dlm":
            self.mrr(a[0]).set_dataset_level_metadata(model.build_metadata(a[1]))
        elif kind == "set_files":
            self.mrr(a[0]).set_file_tree(model.build_file_tree(a[1]))
        elif kind == "write_mrr":
            self.mrr(a[0]).write_out(realm)
        elif kind == "write_files":
            tree = self.mrr(a[0]).get_file_tree()
            if tree is not None:
                tree.write_out(realm)
        elif kind == "new_dataset":
            _, _, tree = self.tvl.get_dataset_tree(a[0][0], P(posix(a[0][1])))
            if P(posix(a[1])) not in tree:
                tree.add_dataset(P(posix(a[1])), model.build_mrr(a[2]))
        elif kind == "new_version":
            self.tvl.set_dataset_tree(a[0][0], "1.0", P(posix(a[0][1])),
                                      model.build_dataset_tree(a[1]))
        elif kind == "new_list":
            self.us.set_version_list(uuid.UUID(a[0]), model.build_list(a[1]))
        elif kind == "unget_tree":
            self.tvl.unget_dataset_tree(a[0][0], P(posix(a[0][1])), realm)
        elif kind == "auto_create":
            # Uses and saves its own top-level objects, therefore the other
            # ones have to be saved before, and loaded again.
            self.save()
            tvl, us, mrr = lib.get_top_nodes_and_metadata_root_record(
                "git", realm, uuid.UUID(a[0]), a[1], P(""), P(""), None, None, True)
            model.add_run(mrr.get_dataset_level_metadata(), a[2])
            self.tvl, self.us = tvl, us
            self.save()
        elif kind == "flush":
            lib.flush_object_references(Path(realm))

    def save(self):
        self.tvl.write_out(self.realm)
        self.us.write_out(self.realm)
        lib.flush_object_references(Path(self.realm))

    def run(self):
        if self.us is None:
            self.load()
        while self.position < len(self.steps):
            self.phase = self.steps[self.position][0]
            self.step(self.steps[self.position])
            self.position += 1
        self.phase = "save"
        self.save()


def spread(rng, points, n, key):
    """A random selection that contains rare kinds of points as well"""
    if len(points) <= n:
        return points
    groups = {}
    for point in rng.sample(points, len(points)):
        groups.setdefault(key(point), []).append(point)
    order = rng.sample(sorted(groups, key=repr), len(groups))
    chosen = []
    while len(chosen) < n:
        for k in order:
            if groups[k] and len(chosen) < n:
                chosen.append(groups[k].pop())
    return chosen


def run_session(realm, steps):
    Session(realm, steps).run()


def recorded(realm, steps):
    """Run a session, returns [(command, is_write, phase)]"""
    s = Session(realm, steps)
    log = []
    with Spy(lambda r: log.append((r.command, r.is_write, s.phase, r.args[:1]))):
        s.run()
    return log


def copy_repo(source, destination):
    shutil.copytree(source, destination, symlinks=True)
    return destination


def decode_store(realm):
    with store.Decoder(realm) as d:
        r = store.refs(realm)
        return {
            "tvl": (model.flat_list(d.version_list(lib.REF_TVL))
                    if lib.REF_TVL in r else None),
            "us": (model.flat_uuid_set(d.uuid_set(lib.REF_UUID))
                   if lib.REF_UUID in r else None)}
