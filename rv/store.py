"""Independent access to git repositories and an independent decoder of the
persistent format. Uses plumbing commands only, nothing of the library."""
import hashlib
import json
import os
import re
import subprocess
import zlib

from .model import Meta, Mrr, vl_key

NONE = "*None*"
OID = re.compile("[0-9a-f]{40}")


def git(repo, *args, input=None, check=True, text=True, env=None):
    r = subprocess.run(
        ["git", "--git-dir", os.path.join(repo, ".git"), *args],
        input=input.encode() if isinstance(input, str) else input,
        stdin=subprocess.DEVNULL if input is None else None,
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    if check and r.returncode != 0:
        raise RuntimeError(f"rv git {args} failed: {r.stderr[-500:]!r}")
    if not check:
        return r
    return r.stdout.decode("utf8", "surrogateescape") if text else r.stdout


_template = None


def init(path, template=True):
    """Create a repository (copies a template, faster than git init)"""
    global _template
    import shutil
    from . import env
    if _template is None:
        t = os.path.join(env.scratch(), f"template-{os.getpid()}")
        if not os.path.exists(t):
            subprocess.run(["git", "init", "-q", t], check=True)
            shutil.rmtree(os.path.join(t, ".git", "hooks"), ignore_errors=True)
        _template = t
    shutil.copytree(_template, path, dirs_exist_ok=True)
    return path


def relative(repo):
    """The relative path (a name like `host:path` would be a URL, also for git)"""
    path = os.path.relpath(repo)
    return repo if ":" in path else path


def refs(repo):
    out = git(repo, "for-each-ref", "--format=%(objectname) %(refname)")
    return {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in out.splitlines()}


def references(repo, names):
    """Values of some references, without running a command"""
    packed = {}
    try:
        with open(os.path.join(repo, ".git", "packed-refs")) as f:
            for line in f:
                if line[:1] not in "#^\n":
                    value, name = line.rstrip("\n").split(" ", 1)
                    packed[name] = value
    except FileNotFoundError:
        pass
    out = []
    for name in names:
        try:
            with open(os.path.join(repo, ".git", name)) as f:
                out.append(f.read().strip())
        except (FileNotFoundError, NotADirectoryError):
            out.append(packed.get(name))
    return out


def all_objects(repo):
    out = git(repo, "cat-file", "--batch-all-objects", "--batch-check")
    return {l.split()[0]: l.split()[1] for l in out.splitlines()}


# checks of git that concern the check-out of trees as working trees: names of
# metadata trees are arbitrary
FSCK_IGNORE = [a for name in (
    "gitattributesLarge", "gitattributesBlob", "gitattributesLineLength",
    "gitattributesMissing", "gitattributesSymlink", "gitignoreSymlink",
    "mailmapSymlink", "gitmodulesBlob", "gitmodulesLarge", "gitmodulesMissing",
    "gitmodulesName", "gitmodulesParse", "gitmodulesPath", "gitmodulesSymlink",
    "gitmodulesUpdate", "gitmodulesUrl", "hasDotgit", "largePathname")
    for a in ("-c", f"fsck.{name}=ignore")]


def fsck(repo):
    r = git(repo, *FSCK_IGNORE, "fsck", "--full", "--no-dangling", "--no-progress",
            check=False)
    return r.returncode, (r.stdout + r.stderr).decode("utf8", "replace")


class DecodeError(Exception):
    pass


class Decoder:
    """Decodes stored metadata into the reference model"""
    def __init__(self, repo):
        self.repo = repo
        self.process = subprocess.Popen(
            ["git", "--git-dir", os.path.join(repo, ".git"), "cat-file",
             "--batch"],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL)
        self.cache = {}
        self.visited = set()

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def close(self):
        if self.process:
            self.process.stdin.close()
            self.process.stdout.close()
            self.process.wait()
            self.process = None

    def loose(self, name):
        """Read a loose object without git (faster)"""
        if not OID.fullmatch(name):
            return None
        try:
            with open(os.path.join(self.repo, ".git", "objects", name[:2], name[2:]), "rb") as f:
                raw = f.read()
        except OSError:
            return None
        try:
            raw = zlib.decompress(raw)
        except zlib.error as e:
            raise DecodeError(f"object {name} is damaged: {e}")
        if hashlib.sha1(raw).hexdigest() != name:
            raise DecodeError(f"object {name} is damaged")
        header, _, data = raw.partition(b"\0")
        return name, header.split()[0].decode(), data

    def get(self, name, expected=None):
        if name not in self.cache:
            found = self.loose(name)
            if found:
                self.cache[name] = found
        if name not in self.cache:
            self.process.stdin.write(name.encode() + b"\n")
            self.process.stdin.flush()
            header = self.process.stdout.readline().decode()
            fields = header.split()
            if len(fields) != 3:
                raise DecodeError(f"object {name}: {header.strip()}")
            data = self.process.stdout.read(int(fields[2]))
            self.process.stdout.read(1)
            self.cache[name] = (fields[0], fields[1], data)
        oid, kind, data = self.cache[name]
        self.visited.add(oid)
        if expected and kind != expected:
            raise DecodeError(f"object {name} is a {kind}, not a {expected}")
        return data

    def json(self, name):
        data = self.get(name, "blob")
        try:
            return json.loads(data.decode())
        except ValueError as e:
            raise DecodeError(f"object {name} is not JSON: {e}")

    def tree(self, name):
        data = self.get(name, "tree")
        pos, result = 0, []
        while pos < len(data):
            sp = data.index(b" ", pos)
            nul = data.index(b"\0", sp)
            mode = data[pos:sp].decode()
            entry = data[sp + 1:nul].decode("utf8", "surrogateescape")
            oid = data[nul + 1:nul + 21].hex()
            result.append((mode, entry, oid))
            pos = nul + 21
        return result

    @staticmethod
    def versioned(obj, kind):
        if not isinstance(obj, dict) or obj.get("@") != {
                "type": kind, "version": "2.0"}:
            raise DecodeError(f"not a {kind} 2.0 object: {str(obj)[:200]}")
        return obj

    def reference(self, obj, classes):
        self.versioned(obj, "Reference")
        if obj["class_name"] not in classes:
            raise DecodeError(f"reference to {obj['class_name']}, "
                              f"expected one of {classes}")
        return obj["location"]

    # -- the model classes ---------------------------------------------------
    def metadata_blob(self, location):
        obj = self.versioned(self.json(location), "Metadata")
        meta = Meta()
        for extractor, iset in obj["instance_sets"].items():
            self.versioned(iset, "MetadataInstanceSet")
            configurations = [
                self.versioned(c, "ExtractorConfiguration")
                for c in iset["parameter_set"]]
            if len(iset["instance_set"]) != len(configurations):
                raise DecodeError("instances and configurations differ")
            for key, inst in iset["instance_set"].items():
                self.versioned(inst, "MetadataInstance")
                cfg = self.versioned(inst["configuration"],
                                     "ExtractorConfiguration")
                if configurations[int(key)] != cfg:
                    raise DecodeError("instance under wrong configuration")
                meta.add({
                    "extractor": extractor,
                    "ts": inst["time_stamp"],
                    "author": inst["author"],
                    "email": inst["author_email"],
                    "version": cfg["version"],
                    "params": cfg["parameter"],
                    "content": inst["metadata_content"]})
        return meta

    def metadata(self, location):
        inner = self.reference(self.json(location), ("Metadata",))
        return self.metadata_blob(inner)

    def mtree(self, location, leaf, prefix=()):
        """{path tuple: leaf(location)}"""
        if location == NONE:
            return {}
        result = {}
        for mode, name, oid in self.tree(location):
            if mode == "40000":
                sub = self.mtree(oid, leaf, prefix + (name,))
                if not sub:
                    raise DecodeError(f"empty tree stored at {prefix}/{name}")
                result.update(sub)
            elif mode == "100644":
                result[prefix + (name,)] = leaf(oid)
            else:
                raise DecodeError(f"unexpected mode {mode} of {name}")
        return result

    def file_tree(self, location):
        return self.mtree(location, self.metadata)

    def mrr(self, location):
        obj = self.json(location)
        dlm = self.reference(obj["dataset_level_metadata"], ("Metadata",))
        files = self.reference(obj["file_tree"], ("FileTree", "MTreeNode"))
        return Mrr(
            obj["dataset_identifier"],
            obj["dataset_version"],
            None if dlm == NONE else self.metadata(dlm),
            {} if files == NONE else self.file_tree(files))

    def dataset_tree(self, location):
        result = {}
        for path, mrr in self.mtree(location, self.mrr).items():
            if path[-1] != ".datalad_metadata_root_record":
                raise DecodeError(f"unexpected entry in dataset tree: {path}")
            result[path[:-1]] = mrr
        return result

    def version_list(self, location):
        result = {}
        for entry in self.json(location):
            ref = entry["dataset_tree"]
            where = self.reference(
                ref, ("DatasetTree", "MTreeNode", "MetadataRootRecord"))
            if ref["class_name"] == "MetadataRootRecord":
                element = self.mrr(where)
            else:
                element = self.dataset_tree(where)
            key = vl_key(entry["primary_data_version"], entry["path"])
            if key in result:
                raise DecodeError(f"duplicated version list entry {key}")
            result[key] = (entry["time_stamp"], element)
        return result

    def uuid_set(self, location):
        result = {}
        for mode, name, oid in self.tree(location):
            if mode != "100644":
                raise DecodeError(f"unexpected mode {mode} in UUID set")
            result[name] = self.version_list(oid)
        return result


REF_OBJECTS = "refs/datalad/object-references-2.0"


def index_entries(realm):
    """Entries of the object index: {(type, object id)}, without descending
    into the indexed trees"""
    if REF_OBJECTS not in refs(realm):
        return set()
    out = set()
    with Decoder(realm) as d:
        def walk(name, depth, prefix):
            for mode, entry, oid in d.tree(name):
                kind = "tree" if mode == "40000" else "blob"
                if depth < 3:
                    if kind != "tree":
                        raise DecodeError(f"object index has a {kind} {prefix}/{entry}")
                    walk(oid, depth + 1, prefix + entry)
                else:
                    if prefix + entry != oid:
                        raise DecodeError(f"object index has {oid} as {prefix}{entry}")
                    out.add((kind, oid))
        walk(REF_OBJECTS, 0, "")
    return out
