"""Reference model: plain data that mirrors what a user stored.

 Meta       one metadata object:   {(extractor, configuration): run}
 file tree  {path tuple: Meta}
 Mrr        metadata root record
 ds tree    {path tuple: Mrr}
 list       {(version, prefix path): (time stamp, ds tree or Mrr)}
 uuid set   {uuid string: list}
"""
import copy
import json
import uuid as uuid_module


def canon(obj) -> str:
    """JSON text that distinguishes everything JSON distinguishes"""
    return json.dumps(obj, sort_keys=True, ensure_ascii=True)


def vl_key(version, prefix):
    return version, tuple(p for p in prefix.split("/") if p)


class Meta:
    def __init__(self, runs=()):
        self.runs = {}
        for r in runs:
            self.add(r)

    @staticmethod
    def key(run):
        return run["extractor"], canon([run["version"], run["params"]])

    def add(self, run):
        self.runs[self.key(run)] = run

    def flat(self):
        return {canon(list(k)): canon(r) for k, r in sorted(self.runs.items())}

    def copy(self):
        return Meta(self.runs.values())


class Mrr:
    def __init__(self, ident, version, dlm, files):
        self.ident, self.version, self.dlm = str(ident), version, dlm
        self.files = files or {}

    def flat(self):
        return {"id": self.ident, "version": self.version,
                "dlm": None if self.dlm is None else self.dlm.flat(),
                "files": flat_tree(self.files)}


def flat_tree(tree):
    return {canon(list(k)): v.flat() for k, v in sorted(tree.items())}


def flat_element(e):
    return e.flat() if isinstance(e, Mrr) else {"tree": flat_tree(e)}


def flat_list(vl):
    return {canon([k[0], list(k[1])]): [ts, flat_element(e)]
            for k, (ts, e) in sorted(vl.items())}


def flat_uuid_set(us):
    return {k: flat_list(v) for k, v in sorted(us.items())}


def digest(flat):
    import hashlib
    return hashlib.sha1(canon(flat).encode()).hexdigest()[:16]


def diff(expected, got, path=""):
    """First difference between two flat structures, as text"""
    if isinstance(expected, dict) and isinstance(got, dict):
        for k in expected:
            if k not in got:
                return f"{path}[{k}] is missing"
        for k in got:
            if k not in expected:
                return f"{path}[{k}] is unexpected"
        for k in expected:
            d = diff(expected[k], got[k], f"{path}[{k}]")
            if d:
                return d
        return None
    if isinstance(expected, list) and isinstance(got, list) \
            and len(expected) == len(got):
        for i, (a, b) in enumerate(zip(expected, got)):
            d = diff(a, b, f"{path}[{i}]")
            if d:
                return d
        return None
    if type(expected) is not type(got) or expected != got:
        return f"{path}: expected {str(expected)[:300]!r}, got {str(got)[:300]!r}"
    return None


# -- building library objects from the model ---------------------------------
def posix(path):
    return "/".join(path)


def add_run(metadata, run):
    from . import lib
    metadata.add_extractor_run(
        run["ts"], run["extractor"], run["author"], run["email"],
        lib.ExtractorConfiguration(run["version"],
                                   copy.deepcopy(run["params"])),
        copy.deepcopy(run["content"]))


def build_metadata(meta):
    from . import lib
    metadata = lib.Metadata()
    for run in meta.runs.values():
        add_run(metadata, run)
    return metadata


def build_file_tree(files):
    from . import lib
    tree = lib.FileTree()
    for path, meta in files.items():
        tree.add_metadata(lib.P(posix(path)), build_metadata(meta))
    return tree


# whether records without files get an empty file tree or none
EMPTY_FILE_TREES = False


def build_mrr(mrr):
    from . import lib
    return lib.MetadataRootRecord(
        uuid_module.UUID(mrr.ident), mrr.version,
        None if mrr.dlm is None else build_metadata(mrr.dlm),
        build_file_tree(mrr.files) if mrr.files or EMPTY_FILE_TREES else None)


def build_dataset_tree(tree):
    from . import lib
    result = lib.DatasetTree()
    for path, mrr in tree.items():
        result.add_dataset(lib.P(posix(path)), build_mrr(mrr))
    return result


def build_element(e):
    return build_mrr(e) if isinstance(e, Mrr) else build_dataset_tree(e)


def build_list(vl, cls=None):
    from . import lib
    result = (cls or lib.VersionList)()
    for (version, prefix), (ts, e) in vl.items():
        result.set_versioned_element(
            version, ts, lib.P(posix(prefix)), build_element(e))
    return result


def build_uuid_set(us):
    from . import lib
    result = lib.UUIDSet()
    for ident, vl in us.items():
        result.set_version_list(uuid_module.UUID(ident), build_list(vl))
    return result


# -- dumping library objects into flat structures -----------------------------
def dump_run(extractor, inst):
    return {"extractor": extractor, "ts": inst.time_stamp,
            "author": inst.author_name, "email": inst.author_email,
            "version": inst.configuration.version,
            "params": dict(inst.configuration.parameter),
            "content": inst.metadata_content}


def meta_of(metadata):
    meta = Meta()
    n = 0
    for extractor, iset in list(metadata.extractor_runs):
        for inst in iset:
            meta.add(dump_run(extractor, inst))
            n += 1
    if n != len(meta.runs):
        raise ValueError("duplicated runs in metadata object")
    return meta


def dump_metadata(metadata):
    return meta_of(metadata).flat()


def parts(path):
    return list(path.parts)


def dump_file_tree(tree):
    result = {}
    for path, metadata in tree.get_paths_recursive():
        key = canon(parts(path))
        if key in result:
            raise ValueError(f"path reported twice: {path}")
        mapped = metadata.ensure_mapped()
        result[key] = dump_metadata(metadata)
        if mapped:
            metadata.purge()
    return dict(sorted(result.items()))


def dump_mrr(mrr):
    mrr.ensure_mapped()
    dlm = mrr.get_dataset_level_metadata()
    files = mrr.get_file_tree()
    return {"id": str(mrr.dataset_identifier), "version": mrr.dataset_version,
            "dlm": None if dlm is None else dump_metadata(dlm),
            "files": {} if files is None else dump_file_tree(files)}


def dump_dataset_tree(tree):
    from . import lib
    result = {}
    for path, _ in tree.dataset_paths:
        key = canon(parts(path))
        if key in result:
            raise ValueError(f"path reported twice: {path}")
        result[key] = dump_mrr(tree.get_metadata_root_record(path))
    return dict(sorted(result.items()))


def dump_element(e):
    from . import lib
    if isinstance(e, lib.MetadataRootRecord):
        return dump_mrr(e)
    return {"tree": dump_dataset_tree(e)}


def dump_list(vl):
    result = {}
    for version, prefix in list(vl.versions_and_prefix_paths()):
        ts, prefix_2, e = vl.get_versioned_element(version, prefix)
        key = canon([version, parts(prefix)])
        if key in result:
            raise ValueError(f"entry reported twice: {key}")
        if prefix != prefix_2:
            raise ValueError(f"prefix path differs: {prefix} {prefix_2}")
        result[key] = [ts, dump_element(e)]
    return dict(sorted(result.items()))


def dump_uuid_set(us):
    return {
        str(ident): dump_list(us.get_version_list(ident))
        for ident in sorted(us.uuids(), key=str)}
