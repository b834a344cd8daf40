"""C17: metadata sources deliver exactly the referenced bytes"""
import copy
import io
import json
import os
import random
import threading
from pathlib import Path

from .. import gen, lib, model, store
from ..runner import Violation, check
from ..spy import Spy

LEVEL = "exploration"
RULE = ("Blobs of every kind (empty, single bytes, all byte values, line endings, invalid UTF-8, "
        "texts that look like git headers, sizes around pipe and buffer limits, megabytes) are stored "
        "in repositories with hostile path names, under several git configurations, loose and packed. "
        "A source for each must write exactly these bytes to files (at any position), pipes and text "
        "streams, and copy them to other repositories under the same name, where they are read back "
        "with git after the source is hidden. Missing, damaged and wrong objects, "
        "missing and damaged repositories, full devices, and failing git commands must raise an error. "
        "Immediate sources: JSON text, independence of copies, mutation of either side. All sources: "
        "JSON round trip. Non-trivial: distinct (content, path, way) triples.")
ASSUMPTIONS = ["The object reference is the name of the object, as git reports it"]
REQUIRED = {"writes": 200, "copies": 200, "failures_reported": 100, "immediate": 100,
            "round_trips": 200}


def cases(tier, seed):
    n = {"quick": 24, "thorough": 360}[tier]
    return [{"seed": f"{seed}/{i}", "config": i % (len(gen.HOSTILE_GITCONFIG) + 1),
             "large": 1 << (20 if tier == "quick" else 24) if i % 6 == 0 else 0}
            for i in range(n)]


def contents(rng, large):
    fixed = [b"", b"\n", b"\0", b"x", b"\r\n", b"a\r\nb\nc\r", bytes(range(256)), b"\xff\xfe",
             b"\xef\xbb\xbfbom", "ä\u2028日".encode(), b"blob 3\0abc", b"no newline", b"{}",
             b'{"a": 1}\n', b"  lead", b"trailing  ", b"\n\n\n", b"$Id$", b"\x1b[31mred",
             b"ident $Id: x $", b"\x80" * 10, "\ud7ff".encode(), b"%s %d", b"tree 0\0"]
    out = rng.sample(fixed, 8)
    for n in rng.sample([255, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 131073, 300001], 3):
        out.append(rng.randbytes(n))
    out.append(("line %d äöü\r\n" % rng.randint(0, 9) * 500).encode("latin1"))
    out.append(json.dumps(gen.json_value(rng, 4)).encode())
    if large:
        out.append(rng.randbytes(large + rng.randint(0, 1000)))
    return out


def repository(ctx, rng, name):
    base = ctx.path(name)
    os.mkdir(base)
    parts = []
    for _ in range(rng.randint(1, 2)):
        while True:
            p = gen.name(rng)
            if gen.valid_name(p):
                break
        parts.append(p)
    if rng.random() < 0.1:
        parts.append(os.fsdecode(b"non-utf8-\xff\xe4"))
    path = os.path.join(base, *parts)
    os.makedirs(path)
    store.init(path)
    return path


def put(realm, data):
    return store.git(realm, "hash-object", "-w", "--stdin", "--literally", "-t", "blob",
                     input=data).strip()


def written(ctx, source, way, data):
    """Bytes that the source writes"""
    p = ctx.path("out")
    if way == "file":
        with open(p, "wb") as f:
            source.write_object_to(f)
        with open(p, "rb") as f:
            return f.read()
    if way == "text file":
        with open(p, "w", encoding="ascii") as f:
            source.write_object_to(f)
        with open(p, "rb") as f:
            return f.read()
    if way == "position":
        with open(p, "wb") as f:
            f.write(b"before")
            f.flush()
            source.write_object_to(f)
            f.seek(0, 2)
            f.write(b"after")
        with open(p, "rb") as f:
            got = f.read()
        check(got.startswith(b"before") and got.endswith(b"after"),
              "writing at a position overwrote other data of the file")
        return got[6:-5]
    if way == "append":
        with open(p, "wb") as f:
            f.write(b"old")
        with open(p, "ab") as f:
            source.write_object_to(f)
            source.write_object_to(f)
        with open(p, "rb") as f:
            got = f.read()
        check(got == b"old" + data + data, "appending twice did not write the content twice")
        return data
    r, w = os.pipe()
    got = []

    def reader():
        with os.fdopen(r, "rb") as f:
            got.append(f.read())
    thread = threading.Thread(target=reader)
    thread.start()
    try:
        with os.fdopen(w, "wb") as f:
            source.write_object_to(f)
    finally:
        thread.join()
    return got[0]


def refused(ctx, fn, what):
    try:
        r = fn()
    except (Exception, AssertionError):
        ctx.count("failures_reported")
        return
    raise Violation(f"no error is raised, although {what} (returned {r!r})")


def objects_of(realm):
    return store.all_objects(realm)


def failures(ctx, rng, realm, dest, data):
    good = put(realm, data or b"x")
    data = data or b"x"
    tree = store.git(realm, "mktree", input="").strip()
    commit = store.git(realm, "-c", "user.name=a", "-c", "user.email=a@b", "commit-tree", tree,
                       "-m", "x").strip()
    damaged = put(realm, data + b"damaged")
    p = os.path.join(realm, ".git", "objects", damaged[:2], damaged[2:])
    os.chmod(p, 0o600)
    with open(p, "r+b") as f:
        f.truncate(rng.choice([0, 1, 8]))
    before = objects_of(dest)
    for what, oid in (("the object is missing", "%040x" % rng.getrandbits(160)),
                      ("the object is a tree", tree), ("the object is a commit", commit),
                      ("the object name is empty", ""), ("it is no object name", "nonsense"),
                      ("the object is damaged", damaged)):
        s = lib.LocalGitMetadataSource(Path(realm), oid)
        with open(ctx.path("sink"), "wb") as sink:
            refused(ctx, lambda: s.write_object_to(sink), what + " (write)")
        refused(ctx, lambda: s.copy_object_to(Path(dest)), what + " (copy)")
        ctx.saw("failure", what)
    check(objects_of(dest) == before, "a failed copy stored an object in the destination")
    os.unlink(p)
    # other repositories
    for what, repo in (("the repository does not exist", realm + "-missing"),
                       ("the directory is no repository", ctx.path(".")),):
        s = lib.LocalGitMetadataSource(Path(repo), good)
        with open(ctx.path("sink"), "wb") as sink:
            refused(ctx, lambda: s.write_object_to(sink), what + " (write)")
        refused(ctx, lambda: s.copy_object_to(Path(dest)), what + " (copy)")
        g = lib.LocalGitMetadataSource(Path(realm), good)
        refused(ctx, lambda: g.copy_object_to(Path(repo)), what + " (destination)")
        ctx.saw("failure", what)
    # the content can not be stored
    g = lib.LocalGitMetadataSource(Path(realm), good)
    with open("/dev/full", "wb") as full:
        refused(ctx, lambda: g.write_object_to(full), "the device is full")
    broken = store.init(ctx.path("broken"))
    os.rename(os.path.join(broken, ".git", "objects"), os.path.join(broken, "o"))
    with open(os.path.join(broken, ".git", "objects"), "w"):
        pass
    refused(ctx, lambda: g.copy_object_to(Path(broken)), "the destination is damaged")
    # failing git commands
    for k in range(3):
        for action in ("fail", "fail-after", "killed"):
            hit = []

            def decide(r):
                if r.index >= k:
                    hit.append(r)
                    return action
            with Spy(decide):
                try:
                    result = g.copy_object_to(Path(dest))
                except (Exception, AssertionError):
                    check(hit, "copy failed without a reason")
                    ctx.count("failures_reported")
                else:
                    check(not hit, f"no error is raised, although {hit and hit[0].command} failed")
                    check(result == good, "wrong object name")
        for action in ("fail", "killed"):
            with open(ctx.path("sink"), "wb") as sink:
                hit = []
                with Spy(lambda r: (hit.append(1), action)[1] if r.index >= k else None):
                    try:
                        g.write_object_to(sink)
                    except (Exception, AssertionError):
                        ctx.count("failures_reported")
                    else:
                        check(not hit, f"writing: no error is raised, although git failed ({action})")
    # and without failures again
    check(g.copy_object_to(Path(dest)) == good
          and store.git(dest, "cat-file", "blob", good, text=False) == data,
          "copying after failures does not work")


PATHS = ["~", "~/x", "~root/x", "$HOME/x", "${HOME}", "%TEMP%", ".", "..", "./x", "a/../b",
         "x/", "/", "/a//b", "//host/share", "a b", " lead", "trail ", "-x", "C:\\x", "x\ny",
         "https:/h/x", "file:///x", "git@h:x", "ä/日", "e\u0301", "\u00e9", "*", "x?y", "'", '"q"',
         "\\", "A", "a"]


def identities(ctx, rng):
    """Path and object name are kept as they are"""
    oid = "%040x" % rng.getrandbits(160)
    everything = {}
    for text in PATHS:
        path = Path(text)
        s = lib.LocalGitMetadataSource(path, oid)
        obj = json.loads(s.to_json_str())
        check(Path(obj["git_repository_path"]) == path,
              f"the path {text!r} is stored as {obj['git_repository_path']!r}")
        for again in (lib.MetadataSource.from_json_str(s.to_json_str()), copy.deepcopy(s)):
            check(again == s and again.git_repository_path == path
                  and str(again.git_repository_path) == str(path)
                  and again.object_reference == oid,
                  f"source for the path {text!r} is restored as {again.git_repository_path!r}")
            ctx.count("round_trips")
        for other, known in everything.items():
            check((s == known) == (path == other),
                  f"sources for {path!r} and {other!r}: equal is {s == known}")
        everything[path] = s


def mutate(rng, value):
    """change a mutable JSON value in place; False, if there is nothing to change"""
    if isinstance(value, dict):
        inner = [v for v in value.values() if isinstance(v, (dict, list))]
        if inner and rng.random() < 0.7 and mutate(rng, rng.choice(inner)):
            return True
        value["changed"] = [1]
        return True
    if isinstance(value, list):
        inner = [v for v in value if isinstance(v, (dict, list))]
        if inner and rng.random() < 0.7 and mutate(rng, rng.choice(inner)):
            return True
        value.append("changed")
        return True
    return False


def reordered(value):
    if isinstance(value, dict):
        return {k: reordered(v) for k, v in reversed(value.items())}
    return [reordered(x) for x in value] if isinstance(value, list) else value


def immediate(ctx, rng):
    value = gen.json_value(rng, 4)
    if rng.random() < 0.7:
        value = {"k": value, "l": [value, {"deep": [[]]}]}
    text = json.dumps(value)
    value = json.loads(text)
    s = lib.ImmediateMetadataSource(value)
    out = io.StringIO()
    s.write_object_to(out)
    check(model.canon(json.loads(out.getvalue())) == model.canon(value),
          f"immediate source of {text[:200]} writes {out.getvalue()[:200]}")
    with open(ctx.path("text"), "w", encoding="utf8") as f:
        s.write_object_to(f)
    with open(ctx.path("text"), encoding="utf8") as f:
        check(f.read() == out.getvalue(), "immediate source writes different texts")
    for encoding in ("ascii", "latin-1", "cp1252", "utf-16", "koi8-r", "shift-jis"):
        with open(ctx.path("text"), "w", encoding=encoding) as f:
            try:
                s.write_object_to(f)
            except UnicodeError as e:
                raise Violation(f"immediate source cannot be written to a {encoding} stream: {e}")
        with open(ctx.path("text"), encoding=encoding) as f:
            check(model.canon(json.load(f)) == model.canon(value),
                  f"immediate source of {text[:200]} is not readable from a {encoding} stream")
    c = s.deepcopy()
    check(type(c) is type(s) and c == s and s == c, "copy of an immediate source differs")
    check(model.canon(c.content) == model.canon(value), "content of a copy differs")
    turned = lib.ImmediateMetadataSource(reordered(value))
    check(s == turned and turned == s, "sources with the same content in another order of keys differ")
    for a, b in ((c, s), (s, c.deepcopy())):
        before = model.canon(b.content)
        if mutate(rng, a.content):
            check(model.canon(b.content) == before,
                  "modifying the content of a source changes that of its copy")
            check(a != b, "sources with different content are equal")
            ctx.count("independent")
    serial = s.to_json_obj()
    before = model.canon(serial)
    again = lib.MetadataSource.from_json_obj(json.loads(json.dumps(serial)))
    check(again == s and model.canon(again.to_json_obj()) == before, "round trip differs")
    check(lib.MetadataSource.from_json_str(s.to_json_str()) == s, "round trip differs")
    s.copy_object_to(Path(ctx.path("nowhere")))
    check(not os.path.exists(ctx.path("nowhere")), "immediate copy created files")
    ctx.count("immediate")
    ctx.count("round_trips")
    ctx.saw("immediate", before)


def run_case(case, ctx):
    rng = gen.rng_for("c17", case["seed"])
    if case["config"] < len(gen.HOSTILE_GITCONFIG):
        with open(os.environ["GIT_CONFIG_GLOBAL"], "a") as f:
            f.write(gen.HOSTILE_GITCONFIG[case["config"]])
    realm, dest = repository(ctx, rng, "source"), repository(ctx, rng, "dest")
    for r in (realm, dest):
        with open(os.path.join(r, ".gitattributes"), "w") as f:
            f.write("* text=auto eol=crlf ident\n")
    blobs = {}
    for data in contents(rng, case["large"]):
        blobs[put(realm, data)] = data
    if rng.random() < 0.4:
        store.git(realm, "repack", "-adkq")
    sources = {}
    cwd = os.getcwd()
    relative = rng.random() < 0.3
    if relative:
        os.chdir(os.path.dirname(realm))
    try:
        for oid, data in blobs.items():
            path = Path(os.path.basename(realm)) if relative else Path(realm)
            s = lib.LocalGitMetadataSource(path, rng.choice([oid, oid + "\n", f" {oid} "]))
            text = s.to_json_str()
            again = [lib.MetadataSource.from_json_str(text),
                     lib.MetadataSource.from_json_obj(json.loads(text)),
                     lib.LocalGitMetadataSource.from_json_obj(s.to_json_obj())]
            for a in again:
                check(a == s and s == a and a.to_json_str() == text
                      and a.git_repository_path == path and a.object_reference == oid,
                      f"source restored from JSON differs: {text}")
                ctx.count("round_trips")
            other = lib.LocalGitMetadataSource(path, "%040x" % rng.getrandbits(160))
            check(other != s, "sources of different objects are equal")
            check(lib.LocalGitMetadataSource(path / "x", oid) != s,
                  "sources of different repositories are equal")
            used = rng.choice(again + [s])
            for way in rng.sample(["file", "text file", "position", "append", "pipe"], 2):
                got = written(ctx, used, way, data)
                check(got == data, f"{way}: {len(data)} bytes {data[:60]!r} are written as "
                                   f"{len(got)} bytes {got[:60]!r}")
                ctx.count("writes")
                ctx.saw(way, oid, str(path.name))
            sources[oid] = used
        before = objects_of(realm)
        for oid, s in sources.items():
            for _ in range(rng.choice([1, 1, 2])):
                r = s.copy_object_to(Path(dest))
                check(r == oid, f"copy of {oid} is named {r}")
            ctx.count("copies")
        if rng.random() < 0.3:
            oid = rng.choice(list(sources))
            check(sources[oid].copy_object_to(Path(realm)) == oid, "copy to itself")
        check(objects_of(realm) == before, "copying changed the source")
    finally:
        os.chdir(cwd)
    check(set(objects_of(dest)) == set(blobs), "the destination has other objects than copied")
    check(store.refs(dest) == {} and store.refs(realm) == {}, "references were created")
    hidden = ctx.path("hidden")
    os.rename(realm, hidden)
    for oid, data in blobs.items():
        check(store.git(dest, "cat-file", "blob", oid, text=False) == data,
              "copied content differs")
        back = lib.LocalGitMetadataSource(Path(dest), oid)
        check(written(ctx, back, "file", data) == data, "copied content differs")
        ctx.count("writes")
    os.rename(hidden, realm)
    failures(ctx, rng, realm, dest, rng.choice(list(blobs.values())))
    identities(ctx, rng)
    for _ in range(8):
        immediate(ctx, rng)
    ctx.sample = f"{len(blobs)} blobs, {sum(map(len, blobs.values()))} bytes"
