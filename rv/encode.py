"""Independent encoder of the persistent format, in its current and older variants.
Writes loose objects directly."""
import hashlib
import json
import os
import zlib

from .model import Mrr, posix
from .store import NONE, git

MRR_NAME = ".datalad_metadata_root_record"


class Encoder:
    def __init__(self, realm, rng=None, old=False, realms=("/no/such/place",)):
        self.realm, self.rng, self.old, self.realms = realm, rng, old, realms
        self.index = set()
        self.variants = {}

    def chance(self, p):
        return self.old and self.rng.random() < p

    def put(self, kind, data):
        raw = b"%s %d\0" % (kind.encode(), len(data)) + data
        oid = hashlib.sha1(raw).hexdigest()
        d = os.path.join(self.realm, ".git", "objects", oid[:2])
        p = os.path.join(d, oid[2:])
        if not os.path.exists(p):
            os.makedirs(d, exist_ok=True)
            with open(p, "wb") as f:
                f.write(zlib.compress(raw))
            os.chmod(p, 0o444)
        return oid

    def reordered(self, items):
        """The order of the keys of JSON objects is not relevant"""
        if len(items) > 1 and self.chance(0.3):
            self.rng.shuffle(items)
            self.count("order")
        return items

    def count(self, name):
        self.variants[name] = self.variants.get(name, 0) + 1

    def json(self, obj):
        if self.chance(0.2):
            self.count("formatting")
            text = json.dumps(obj, indent=self.rng.choice([None, 1, 4]),
                              separators=self.rng.choice([None, (",", ":")]))
        else:
            text = json.dumps(obj)
        return self.put("blob", text.encode())

    def tree(self, entries):
        """entries: {name: (mode, oid)}"""
        def key(item):
            return item[0].encode() + (b"/" if item[1][0] == "40000" else b"")
        return self.put("tree", b"".join(
            f"{mode} {name}".encode() + b"\0" + bytes.fromhex(oid)
            for name, (mode, oid) in sorted(entries.items(), key=key)))

    @staticmethod
    def header(kind):
        return {"type": kind, "version": "2.0"}

    def reference(self, cls, location):
        obj = {"@": self.header("Reference")}
        alias = {"FileTree": ["FileTree", "MTreeNode"],
                 "DatasetTree": ["DatasetTree", "MTreeNode"]}.get(cls)
        if alias:
            cls = self.rng.choice(alias) if self.old else "MTreeNode"
            if cls != "MTreeNode":
                self.count("class names")
        if self.chance(0.6):
            obj["mapper_family"] = "git"
            self.count("mapper_family")
        if self.chance(0.6):
            obj["realm"] = self.rng.choice(self.realms)
            self.count("realm")
        obj["class_name"] = cls
        obj["location"] = location
        return obj

    # -- model classes -----------------------------------------------------------
    def metadata(self, meta):
        sets = {}
        for run in meta.runs.values():
            sets.setdefault(run["extractor"], []).append(run)
        out = {}
        for extractor, runs in sets.items():
            cfg = [{"@": self.header("ExtractorConfiguration"), "version": r["version"],
                    "parameter": r["params"]} for r in runs]
            out[extractor] = {
                "@": self.header("MetadataInstanceSet"),
                "parameter_set": cfg,
                "instance_set": {
                    str(i): {"@": self.header("MetadataInstance"), "time_stamp": r["ts"],
                             "author": r["author"], "author_email": r["email"],
                             "configuration": cfg[i], "metadata_content": r["content"]}
                    for i, r in self.reordered(list(enumerate(runs)))}}
        blob = self.json({"@": self.header("Metadata"), "instance_sets": out})
        self.index.add(("blob", blob))
        return self.json(self.reference("Metadata", blob))

    def mtree(self, leaves, leaf):
        if not leaves:
            return NONE
        entries, sub = {}, {}
        for path, value in leaves.items():
            if len(path) == 1:
                entries[path[0]] = ("100644", leaf(value))
            else:
                sub.setdefault(path[0], {})[path[1:]] = value
        for name, inner in sub.items():
            entries[name] = ("40000", self.mtree(inner, leaf))
        return self.tree(entries)

    def mrr(self, mrr, indexed=False):
        files = self.mtree(mrr.files, self.metadata)
        if files != NONE:
            self.index.add(("tree", files))
        dlm = NONE if mrr.dlm is None else self.metadata(mrr.dlm)
        if dlm != NONE:
            self.index.add(("blob", dlm))
        oid = self.json({
            "dataset_identifier": mrr.ident, "dataset_version": mrr.version,
            "dataset_level_metadata": self.reference("Metadata", dlm),
            "file_tree": self.reference("FileTree", files)})
        if indexed:
            self.index.add(("blob", oid))
        return oid

    def dataset_tree(self, tree):
        oid = self.mtree({p + (MRR_NAME,): m for p, m in tree.items()}, self.mrr)
        if oid != NONE:
            self.index.add(("tree", oid))
        return oid

    def version_list(self, vl):
        out = []
        for (version, prefix), (ts, e) in vl.items():
            if isinstance(e, Mrr):
                ref = self.reference("MetadataRootRecord", self.mrr(e, True))
            else:
                ref = self.reference("DatasetTree", self.dataset_tree(e))
            out.append({"primary_data_version": version, "time_stamp": ts,
                        "path": posix(prefix), "dataset_tree": ref})
        return self.json(out)

    def uuid_set(self, us):
        return self.tree({i: ("100644", self.version_list(vl)) for i, vl in us.items()})

    # -- index --------------------------------------------------------------------
    def new_index(self, entries):
        def level(items, depth):
            if depth == 3:
                return self.tree({rest: ("40000" if k == "tree" else "100644", oid)
                                  for k, oid, rest in items})
            sub = {}
            for k, oid, rest in items:
                sub.setdefault(rest[:3], []).append((k, oid, rest[3:]))
            return self.tree({n: ("40000", level(i, depth + 1)) for n, i in sub.items()})
        return level([(k, o, o) for k, o in entries], 0)

    def legacy_index(self, entries, kind):
        return self.tree({o: ("40000" if k == "tree" else "100644", o)
                          for k, o in entries if k == kind})

    def store(self, tvl, us, index="new"):
        """index: new, legacy, both, or trees/blobs (this part is in the old format)"""
        ref = lambda name, oid: git(self.realm, "update-ref", name, oid)
        ref("refs/datalad/dataset-tree-version-list", self.version_list(tvl))
        ref("refs/datalad/dataset-uuid-set", self.uuid_set(us))
        e = sorted(self.index)
        legacy = {"new": [], "legacy": e, "trees": [x for x in e if x[0] == "tree"],
                  "blobs": [x for x in e if x[0] == "blob"], "both": e[::2]}[index]
        new = [x for x in e if x not in legacy]
        if new:
            ref("refs/datalad/object-references-2.0", self.new_index(new))
        for kind in ("tree", "blob"):
            if any(k == kind for k, _ in legacy):
                ref(f"refs/datalad/object-references/{kind}s", self.legacy_index(legacy, kind))
