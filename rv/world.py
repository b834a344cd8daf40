"""Random histories on a complete metadata store, mirrored by a model.

The model is a graph of nodes with identity: an object that is part of two
containers is one node. Loading a purged container again creates new objects,
so purging a container replaces its children in the model by copies."""
import copy
import time
import uuid as uuid_module
from pathlib import Path

from . import gen, lib, model, store
from .model import Meta, Mrr, posix
from .runner import Violation, check

_tick = [0]


def tick():
    # increases in all processes of a case
    _tick[0] = max(_tick[0] + 1, time.monotonic_ns())
    return _tick[0]


class Node:
    def __init__(self):
        self.mut = tick()
        self.saved_at = 0

    def touch(self):
        self.mut = tick()

    def children(self):
        return []

    def subtree(self):
        yield self
        for c in self.children():
            yield from c.subtree()

    def mark_saved(self):
        t = tick()
        for n in self.subtree():
            n.saved_at = t

    def clean(self):
        return self.saved_at >= max(n.mut for n in self.subtree())

    def detach(self):
        """The object is purged: its children will be loaded as new objects"""


class NMeta(Node):
    def __init__(self, meta):
        super().__init__()
        self.meta = meta

    def flat(self):
        return self.meta.flat()

    def build(self):
        return model.build_metadata(self.meta)


class NDict(Node):
    def __init__(self, d):
        super().__init__()
        self.d = d

    def children(self):
        return list(self.d.values())

    def detach(self):
        for c in self.d.values():
            c.detach()
        self.d = {k: copy.deepcopy(v) for k, v in self.d.items()}


class NFiles(NDict):
    def flat(self):
        return model.flat_tree(self.d)

    def build(self):
        t = lib.FileTree()
        for p, n in self.d.items():
            t.add_metadata(lib.P(posix(p)), n.build())
        return t


class NMrr(Node):
    def __init__(self, ident, version, dlm, files):
        super().__init__()
        self.ident, self.version, self.dlm, self.files = ident, version, dlm, files

    def children(self):
        return [c for c in (self.dlm, self.files) if c is not None]

    def flat(self):
        return {"id": self.ident, "version": self.version,
                "dlm": None if self.dlm is None else self.dlm.flat(),
                "files": {} if self.files is None else self.files.flat()}

    def detach(self):
        for c in self.children():
            c.detach()
        self.dlm = copy.deepcopy(self.dlm)
        self.files = copy.deepcopy(self.files)
        if self.files is not None and not self.files.d:
            # an empty file tree is stored as "no file tree"
            self.mut = max(self.mut, self.files.mut)
            self.files = None

    def build(self):
        return lib.MetadataRootRecord(
            uuid_module.UUID(self.ident), self.version,
            None if self.dlm is None else self.dlm.build(),
            None if self.files is None else self.files.build())


class NDatasets(NDict):
    def flat(self):
        return {"tree": model.flat_tree(self.d)}

    def build(self):
        t = lib.DatasetTree()
        for p, n in self.d.items():
            t.add_dataset(lib.P(posix(p)), n.build())
        return t


class NList(Node):
    def __init__(self, d, tree=False):
        super().__init__()
        self.d = d          # key -> (ts, node)
        self.tree = tree

    def children(self):
        return [n for _, n in self.d.values()]

    def flat(self):
        return {model.canon([k[0], list(k[1])]): [ts, n.flat()]
                for k, (ts, n) in self.d.items()}

    def detach(self):
        for _, n in self.d.values():
            n.detach()
        self.d = {k: (ts, copy.deepcopy(n)) for k, (ts, n) in self.d.items()}

    def build(self):
        vl = lib.TreeVersionList() if self.tree else lib.VersionList()
        for (v, p), (ts, n) in self.d.items():
            vl.set_versioned_element(v, ts, lib.P(posix(p)), n.build())
        return vl


class NUuids(NDict):
    def flat(self):
        return {k: v.flat() for k, v in self.d.items()}

    def build(self):
        us = lib.UUIDSet()
        for k, n in self.d.items():
            us.set_version_list(uuid_module.UUID(k), n.build())
        return us


def node_mrr(m):
    return NMrr(m.ident, m.version, None if m.dlm is None else NMeta(m.dlm),
                NFiles({p: NMeta(x) for p, x in m.files.items()})
                if m.files else None)


def dump(obj):
    if isinstance(obj, lib.Metadata):
        return model.dump_metadata(obj)
    if isinstance(obj, lib.FileTree):
        return model.dump_file_tree(obj)
    if isinstance(obj, (lib.MetadataRootRecord, lib.DatasetTree)):
        return model.dump_element(obj)
    if isinstance(obj, lib.VersionList):
        return model.dump_list(obj)
    return model.dump_uuid_set(obj)


def location(obj):
    ref = obj.mtree.reference if isinstance(
        obj, (lib.FileTree, lib.DatasetTree)) else obj.reference
    return None if ref is None else ref.location


def decode(decoder, obj, where):
    if isinstance(obj, lib.Metadata):
        return decoder.metadata(where).flat()
    if isinstance(obj, lib.FileTree):
        return model.flat_tree(decoder.file_tree(where))
    if isinstance(obj, lib.MetadataRootRecord):
        return decoder.mrr(where).flat()
    if isinstance(obj, lib.DatasetTree):
        return {"tree": model.flat_tree(decoder.dataset_tree(where))}
    if isinstance(obj, lib.VersionList):
        return model.flat_list(decoder.version_list(where))
    return model.flat_uuid_set(decoder.uuid_set(where))


class World:
    def __init__(self, realm, rng, ctx, hostile=False):
        self.realm, self.rng, self.ctx, self.hostile = realm, rng, ctx, hostile
        self.n_tvl, self.n_us = NList({}, tree=True), NUuids({})
        self.tvl, self.us = self.n_tvl.build(), self.n_us.build()
        self.published = {"tvl": None, "us": None}
        self.pending_flush = False

    # -- navigation -----------------------------------------------------------
    def handles(self):
        """All paths from the roots to objects, as lists of steps"""
        out = []

        def walk(node, get, depth):
            out.append((node, get))
            if isinstance(node, NUuids):
                for k, n in node.d.items():
                    walk(n, lambda get=get, k=k: get().get_version_list(
                        uuid_module.UUID(k)), depth + 1)
            elif isinstance(node, NList):
                for (v, p), (_, n) in node.d.items():
                    walk(n, lambda get=get, v=v, p=p:
                         get().get_versioned_element(v, lib.P(posix(p)))[2],
                         depth + 1)
            elif isinstance(node, NDatasets):
                for p, n in node.d.items():
                    walk(n, lambda get=get, p=p:
                         get().get_metadata_root_record(lib.P(posix(p))),
                         depth + 1)
            elif isinstance(node, NMrr):
                if node.dlm is not None:
                    walk(node.dlm, lambda get=get:
                         get().get_dataset_level_metadata(), depth + 1)
                if node.files is not None and (node.files.d or node.files.mut > node.files.saved_at):
                    walk(node.files, lambda get=get: get().get_file_tree(),
                         depth + 1)
            elif isinstance(node, NFiles):
                for p, n in node.d.items():
                    walk(n, lambda get=get, p=p:
                         get().get_metadata(lib.P(posix(p))), depth + 1)

        walk(self.n_tvl, lambda: self.tvl, 0)
        walk(self.n_us, lambda: self.us, 0)
        return out

    def pick(self, *kinds):
        candidates = [h for h in self.handles()
                      if not kinds or isinstance(h[0], kinds)]
        if not candidates:
            return None, None
        # favour deep objects
        kind = self.rng.choice(sorted({type(c[0]).__name__ for c in candidates}))
        node, get = self.rng.choice(
            [c for c in candidates if type(c[0]).__name__ == kind])
        obj = get()
        check(obj is not None, f"stored object is gone: {type(node).__name__}")
        return node, obj

    # -- operations ------------------------------------------------------------
    def _run(self):
        return gen.run(self.rng, self.hostile,
                       self.rng.choice(["core", "custom", "e3"]))

    def op_add_run(self):
        node, obj = self.pick(NMeta)
        if node is None:
            return
        run = self._run()
        if node.meta.runs and self.rng.random() < 0.3:
            # replace the run of a known configuration
            old = self.rng.choice(list(node.meta.runs.values()))
            run.update(extractor=old["extractor"], version=old["version"],
                       params=old["params"])
        model.add_run(obj, run)
        node.meta.add(run)
        node.touch()

    def _new_path(self, d, max_depth=3, obj=None):
        for _ in range(20):
            p = gen.path(self.rng, self.hostile, max_depth)
            if gen.valid_path(p) and gen.compatible(d, p):
                # A directory that became empty stays a directory
                if obj is None or not self._tree_node_at(obj, p):
                    return p

    def op_add_file(self):
        node, obj = self.pick(NFiles)
        if node is None:
            return
        p = self._new_path(node.d, 3, obj)
        if p is None:
            return
        if self.rng.random() < 0.5:
            n = NMeta(gen.meta(self.rng, self.hostile, 2))
            obj.add_metadata(lib.P(posix(p)), n.build())
        else:
            run = self._run()
            n = NMeta(Meta([run]))
            obj.add_extractor_run(
                lib.P(posix(p)), run["ts"], run["extractor"], run["author"],
                run["email"], lib.ExtractorConfiguration(
                    run["version"], copy.deepcopy(run["params"])),
                copy.deepcopy(run["content"]))
        node.d[p] = n
        node.touch()

    def op_add_file_run(self):
        node, obj = self.pick(NFiles)
        if node is None or not node.d:
            return
        p = self.rng.choice(list(node.d))
        run = self._run()
        obj.add_extractor_run(
            lib.P(posix(p)), run["ts"], run["extractor"], run["author"],
            run["email"], lib.ExtractorConfiguration(
                run["version"], copy.deepcopy(run["params"])),
            copy.deepcopy(run["content"]))
        node.d[p].meta.add(run)
        node.d[p].touch()

    def op_add_existing_file(self):
        node, obj = self.pick(NFiles)
        if node is None or not node.d:
            return
        p = self.rng.choice(list(node.d))
        q = self.rng.choice([p, p + ("below",), p[:-1] or p])
        try:
            obj.add_metadata(lib.P(posix(q)), lib.Metadata())
        except ValueError:
            self.ctx.count("refused_adds")
        else:
            raise Violation(f"adding at {q} replaced the metadata of {p}")

    def op_remove_file(self):
        node, obj = self.pick(NFiles)
        if node is None or not node.d:
            return
        p = self.rng.choice(list(node.d))
        p = p[:self.rng.randint(1, len(p))]
        obj.mtree.remove_child_at(lib.P(posix(p)))
        for q in list(node.d):
            if q[:len(p)] == p:
                del node.d[q]
        node.touch()

    def op_set_dlm(self):
        node, obj = self.pick(NMrr)
        if node is None:
            return
        node.dlm = NMeta(gen.meta(self.rng, self.hostile, 2))
        obj.set_dataset_level_metadata(node.dlm.build())
        node.touch()

    def op_set_files(self):
        node, obj = self.pick(NMrr)
        if node is None:
            return
        node.files = NFiles({p: NMeta(m) for p, m in gen.files(
            self.rng, None, self.hostile, 3).items()})
        if self.rng.random() < 0.5:
            obj.set_file_tree(node.files.build())
        else:
            obj.file_tree = node.files.build()
        node.touch()

    def op_add_dataset(self):
        node, obj = self.pick(NDatasets)
        if node is None:
            return
        p = () if self.rng.random() < 0.3 else gen.path(self.rng, self.hostile, 3)
        if not gen.valid_path(p) or gen.MRR_NAME in p:
            return
        n = node_mrr(gen.mrr(self.rng, self.hostile, 2))
        if p in node.d:
            try:
                obj.add_dataset(lib.P(posix(p)), n.build())
            except ValueError:
                self.ctx.count("refused_adds")
                return
            raise Violation(f"existing dataset at {p} was replaced")
        n_obj = n.build()
        obj.add_dataset(lib.P(posix(p)), n_obj)
        node.d[p] = n
        node.touch()
        # share the record with the list of its UUID, as the library does
        if self.rng.random() < 0.5:
            self._share(n, n_obj)

    def _share(self, n, n_obj):
        key = (n.version, ())
        ident = uuid_module.UUID(n.ident)
        if self.n_us.d and self.rng.random() < 0.5:
            k = self.rng.choice(list(self.n_us.d))
            vl_node, vl = self.n_us.d[k], self.us.get_version_list(uuid_module.UUID(k))
        else:
            vl_node = NList({})
            vl = vl_node.build()
            self.us.set_version_list(ident, vl)
            self.n_us.d[n.ident] = vl_node
            self.n_us.touch()
        ts = str(self.rng.random())
        vl.set_versioned_element(key[0], ts, lib.P(""), n_obj)
        vl_node.d[key] = (ts, n)
        vl_node.touch()

    def op_delete_subtree(self):
        node, obj = self.pick(NDatasets)
        if node is None:
            return
        candidates = [p for p in node.d if p]
        if not candidates:
            return
        p = self.rng.choice(candidates)
        p = p[:self.rng.randint(1, len(p))]
        obj.delete_subtree(lib.P(posix(p)))
        for q in list(node.d):
            if q[:len(p)] == p:
                del node.d[q]
        node.touch()

    def op_add_subtree(self):
        node, obj = self.pick(NDatasets)
        if node is None:
            return
        p = gen.path(self.rng, self.hostile, 2)
        if not gen.valid_path(p) or gen.MRR_NAME in p:
            return
        if any(q[:len(p)] == p for q in node.d) or self._tree_node_at(obj, p):
            return
        sub = NDatasets({q: node_mrr(m) for q, m in gen.dataset_tree(
            self.rng, self.rng.choice([1, 2]), self.hostile, 1).items()})
        obj.add_subtree(sub.build(), lib.P(posix(p)))
        for q, n in sub.d.items():
            node.d[p + q] = n
        node.touch()

    @staticmethod
    def _tree_node_at(obj, p):
        return obj.mtree.get_object_at_path(lib.P(posix(p))) is not None

    def op_set_element(self):
        node, obj = self.pick(NList)
        if node is None:
            return
        if node.d and self.rng.random() < 0.3:
            key = self.rng.choice(list(node.d))
        else:
            key = (gen.version(self.rng, self.hostile),
                   gen.prefix(self.rng, self.hostile))
        ts = str(self.rng.random())
        if node.tree or self.rng.random() < 0.3:
            n = NDatasets({p: node_mrr(m) for p, m in gen.dataset_tree(
                self.rng, None, self.hostile, 2).items()})
        else:
            n = node_mrr(gen.mrr(self.rng, self.hostile, 2))
        if node.tree:
            obj.set_dataset_tree(key[0], ts, lib.P(posix(key[1])), n.build())
        else:
            obj.set_versioned_element(key[0], ts, lib.P(posix(key[1])), n.build())
        node.d[key] = (ts, n)
        node.touch()

    def op_retime(self):
        """The same element with another time stamp"""
        node, obj = self.pick(NList)
        if node is None or not node.d:
            return
        key = self.rng.choice(list(node.d))
        prefix = lib.P(posix(key[1]))
        _, _, element = obj.get_versioned_element(key[0], prefix)
        ts = str(self.rng.random())
        if node.tree and self.rng.random() < 0.5:
            obj.set_dataset_tree(key[0], ts, prefix, element)
        else:
            obj.set_versioned_element(key[0], ts, prefix, element)
        node.d[key] = (ts, node.d[key][1])
        node.touch()

    def op_set_list(self):
        k = gen.ident(self.rng)
        if self.n_us.d and self.rng.random() < 0.2:
            k = self.rng.choice(list(self.n_us.d))
        vl = NList({})
        for _ in range(self.rng.randint(0, 2)):
            vl.d[(gen.version(self.rng, self.hostile), ())] = (
                "1.0", node_mrr(gen.mrr(self.rng, self.hostile, 1)))
        self.us.set_version_list(uuid_module.UUID(k), vl.build())
        self.n_us.d[k] = vl
        self.n_us.touch()

    # -- persistence operations -------------------------------------------------
    def _written(self, node, obj, ref):
        check(isinstance(ref, lib.Reference), f"write_out returned {ref!r}")
        node.mark_saved()
        check(obj.is_saved_on(self.realm),
              f"{type(obj).__name__} is not saved after write_out")
        if node is self.n_tvl:
            self.published["tvl"] = copy.deepcopy(node)
        if node is self.n_us:
            self.published["us"] = copy.deepcopy(node)
        self.ctx.count("writes")

    def write(self, node, obj):
        default = node.saved_at > 0 and self.rng.random() < 0.3
        ref = obj.write_out() if default else obj.write_out(self.realm)
        self._written(node, obj, ref)
        return ref

    def op_write(self):
        node, obj = self.pick()
        self.write(node, obj)

    def op_write_root(self):
        node, obj = self.rng.choice(
            [(self.n_tvl, self.tvl), (self.n_us, self.us)])
        self.write(node, obj)

    def op_purge(self):
        node, obj = self.pick()
        clean = node.clean()
        try:
            obj.purge()
        except ValueError:
            check(not clean,
                  f"purge of a completely saved {type(obj).__name__} is refused")
            self.ctx.count("refused_purges")
            return
        self.ctx.count("purges")
        self.ctx.count("purges_of_clean" if clean else "purges_of_unclean")
        node.detach()

    def op_write_purge(self):
        node, obj = self.pick()
        self.write(node, obj)
        obj.purge()
        node.detach()
        self.ctx.count("purges")

    def op_unget(self):
        r = self.rng.random()
        if r < 0.4:
            node, obj = self.pick(NFiles)
            if node is None or not node.d:
                return
            p = self.rng.choice(list(node.d))
            m = obj.get_metadata(lib.P(posix(p)))
            if self.rng.random() < 0.7:
                run = self._run()
                model.add_run(m, run)
                node.d[p].meta.add(run)
                node.d[p].touch()
            obj.unget_metadata(m, self.realm)
            node.d[p].mark_saved()
            self._published_check(node.d[p])
        elif r < 0.8:
            node, obj = self.pick(NList)
            if node is None or not node.d:
                return
            key = self.rng.choice(list(node.d))
            prefix = lib.P(posix(key[1]))
            if node.tree:
                obj.unget_dataset_tree(key[0], prefix, self.realm)
            else:
                obj.unget_versioned_element(key[0], prefix, self.realm)
            node.d[key][1].mark_saved()
            node.d[key][1].detach()
        else:
            known = [k for k, n in self.n_us.d.items() if n.saved_at > 0]
            if not known:
                return
            k = self.rng.choice(known)
            self.us.unget_version_list(uuid_module.UUID(k))
            self.n_us.d[k].mark_saved()
            self.n_us.d[k].detach()
        self.ctx.count("ungets")

    def _published_check(self, node):
        pass

    def op_load(self):
        node, obj = self.pick()
        if self.rng.random() < 0.5:
            obj.ensure_mapped()
        else:
            obj.read_in()

    def op_force_write(self):
        node, obj = self.pick()
        if node.saved_at:
            ref = obj.write_out(self.realm, "git", True)
            self._written(node, obj, ref)

    def op_flush(self):
        lib.flush_object_references(Path(self.realm))

    def op_query(self):
        node, obj = self.pick()
        self.compare(node, obj)

    def op_copy(self):
        node, obj = self.pick()
        if isinstance(node, (NMeta, NFiles, NMrr)):
            c = obj.deepcopy(new_destination=self.realm)
            d = model.diff(node.flat(), dump(c))
            check(d is None, f"deep copy of {type(obj).__name__} differs: {d}")

    def op_reload(self):
        """A new session: only what was published survives"""
        if self.published["tvl"] is None or self.published["us"] is None:
            return
        if self.rng.random() < 0.8:
            self.write(self.n_tvl, self.tvl)
            self.write(self.n_us, self.us)
        self.tvl, self.us = lib.get_top_level_metadata_objects("git", self.realm)
        check(self.tvl is not None and self.us is not None,
              "published top-level objects are reported as missing")
        self.n_tvl = copy.deepcopy(self.published["tvl"])
        self.n_us = copy.deepcopy(self.published["us"])
        for n in (self.n_tvl, self.n_us):
            n.detach()
        self.ctx.count("reloads")

    # -- oracles -----------------------------------------------------------------
    def compare(self, node, obj):
        d = model.diff(node.flat(), dump(obj))
        check(d is None, f"{type(obj).__name__} shows other content than was "
                         f"stored: {d}")
        self.ctx.count("dumps_compared")

    def final(self):
        self.write(self.n_tvl, self.tvl)
        self.write(self.n_us, self.us)
        expected = {"tvl": self.n_tvl.flat(), "us": self.n_us.flat()}
        with store.Decoder(self.realm) as d:
            got = {"tvl": model.flat_list(d.version_list(lib.REF_TVL)),
                   "us": model.flat_uuid_set(d.uuid_set(lib.REF_UUID))}
        diff = model.diff(expected, got)
        check(diff is None, f"after the final save, the repository holds: {diff}")
        return expected

    OPS = [
        ("add_run", 10), ("add_file", 8), ("add_file_run", 4),
        ("add_existing_file", 2), ("remove_file", 4), ("set_dlm", 4),
        ("set_files", 3), ("add_dataset", 6), ("delete_subtree", 3),
        ("add_subtree", 2), ("set_element", 5), ("set_list", 3), ("retime", 3),
        ("write", 8), ("write_root", 4), ("purge", 8), ("write_purge", 5),
        ("unget", 7), ("load", 3), ("force_write", 2), ("flush", 2),
        ("query", 3), ("copy", 1), ("reload", 3),
    ]

    def step(self):
        names = [n for n, _ in self.OPS]
        weights = [w for _, w in self.OPS]
        op = self.rng.choices(names, weights)[0]
        self.ctx.log(op)
        getattr(self, "op_" + op)()
        self.ctx.count("op_" + op)
        return op

    def seed_store(self):
        for _ in range(2):
            self.op_set_element()
        self.op_set_list()
        for _ in range(2):
            self.op_add_dataset()
