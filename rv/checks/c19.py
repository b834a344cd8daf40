"""C19: batched writing of file metadata stores every object"""
import gc
import hashlib
import os
import tempfile
from pathlib import Path

from .. import gen, lib, model, store
from ..model import posix
from ..proc import session
from ..runner import check
from ..spy import Spy

LEVEL = "exploration"
RULE = ("File trees with sizes around multiples of the batch size of the library (and, if the "
        "batch size can be changed, around multiples of small batch sizes) are written in several "
        "shapes: flat, nested, equal contents, partially saved, extended after saving, several trees "
        "in records and lists, non-ASCII and large contents, temporary directories with unusual "
        "names, git filters. After each write, without any further call of the library, an "
        "independent decoder reads the complete tree, and each object name is "
        "recomputed with SHA-1. Failures (k-th git command, exceptions in the serialisation, "
        "interrupts, missing temporary directory) are injected in the middle of batches, then the writing is "
        "repeated. Non-trivial: distinct (size, shape, batch size, failure) combinations.")
ASSUMPTIONS = []
REQUIRED = {"trees": 40, "files": 15000, "names_recomputed": 15000, "failures": 15}

REAL = [0, 1, 2, 499, 500, 999, 1000, 1001, 1500, 1999, 2000, 2001, 2999, 3000, 3001]
SHAPES = ["flat", "nested", "equal", "partial", "extended", "record", "mixed", "two realms"]


def cases(tier, seed):
    out = []
    rng = gen.rng_for("c19 cases", seed)
    if tier == "quick":
        sizes = [0, 1, 999, 1000, 1001, 1999, 2000, 2001] + rng.sample(REAL, 6)
        for i, n in enumerate(sizes):
            out.append({"size": n, "shape": SHAPES[(i + rng.randrange(8)) % len(SHAPES)], "batch": 0,
                        "fail": 0})
        n_small, n_fail = 60, 40
    else:
        for n in REAL + [4000, 4001, 5000]:
            for shape in SHAPES:
                out.append({"size": n, "shape": shape, "batch": 0, "fail": 0})
        n_small, n_fail = 1500, 1500
    for i in range(n_small):
        batch = rng.choice([1, 2, 3, 4, 5, 7, 8])
        out.append({"size": max(0, batch * rng.randint(0, 4) // rng.choice([1, 2])
                                + rng.randint(-1, 1)),
                    "shape": SHAPES[i % len(SHAPES)], "batch": batch, "fail": 0})
    for i in range(n_fail):
        big = i % 4 == 0
        out.append({"size": rng.choice([999, 1000, 1001, 1400]) if big else rng.randint(1, 12),
                    "shape": rng.choice(SHAPES), "batch": 0 if big else rng.choice([0, 2, 3, 4]),
                    "fail": 1 + i % 5})
    for i, c in enumerate(out):
        c["seed"] = f"{seed}/{i}"
    return out


def set_batch(size):
    """Use another batch size, if the library has the place to set it"""
    try:
        from dataladmetadatamodel.mapper.gitmapper import metadatamapper
        original = metadatamapper.GitBlobCache

        class SmallCache(original):
            def __init__(self, realm, maxsize=size):
                super().__init__(realm, maxsize)
        metadatamapper.GitBlobCache = SmallCache
        return True
    except Exception:
        return False


def small_meta(rng, i, equal):
    r = {"extractor": "ex", "ts": 1.5, "author": "a", "email": "e", "version": "1", "params": {},
         "content": {"i": 0 if equal else i}}
    if not equal:
        k = rng.random()
        if k < 0.05:
            r["content"]["text"] = "äöü 日本 \u2028 \r\n" * rng.randint(1, 50)
        elif k < 0.06:
            r["content"]["large"] = "x" * rng.randint(1, 200000)
    return model.Meta([r])


def make(rng, case):
    n, shape = case["size"], case["shape"]
    files = {}
    for i in range(n):
        if shape == "nested":
            p = (f"d{i % 7}", f"e{i % 3}", f"f{i}")
        elif shape == "mixed" and i % 50 == 0:
            p = (gen.name(rng), f"x{i}")
            if not gen.valid_path(p) or not gen.compatible(files, p):
                p = (f"x{i}",)
        else:
            p = (f"file {i}",)
        files[p] = gen.meta(rng) if shape == "mixed" and rng.random() < 0.05 \
            else small_meta(rng, i, shape == "equal")
    return files


class Verify:
    def __init__(self, ctx):
        self.ctx = ctx

    def tree(self, realm, location, files, what):
        """The complete tree is stored"""
        with store.Decoder(realm) as d:
            try:
                got = {} if location == store.NONE else d.file_tree(location)
            except store.DecodeError as e:
                check(False, f"{what}: stored tree is not complete: {e}")
            for p in files:
                check(p in got, f"{what}: file {p} is missing in the stored tree")
                check(got[p].flat() == files[p].flat(), f"{what}: metadata of {p} differs")
            check(len(got) == len(files), f"{what}: the stored tree has {len(got)} files, "
                                          f"not {len(files)}")
            for name, (oid, kind, data) in d.cache.items():
                computed = hashlib.sha1(b"%s %d\0" % (kind.encode(), len(data)) + data).hexdigest()
                check(computed == oid == name, f"object {computed} is stored as {oid}")
                self.ctx.count("names_recomputed")
        self.ctx.count("trees")
        self.ctx.count("files", len(files))

    def objects(self, realm, tree, files, what):
        """Every object in memory reports the location at which it is stored"""
        paths = list(files)
        with store.Decoder(realm) as d:
            for p in paths:
                m = tree.mtree.get_object_at_path(lib.P(posix(p)))
                check(m is not None and m.reference is not None, f"{what}: {p} has no reference")
                check(d.metadata(m.reference.location).flat() == files[p].flat(),
                      f"{what}: the location of {p} has other content")
                check(m.is_saved_on(realm), f"{what}: {p} is not reported as saved")
        self.ctx.count("locations", len(paths))


def write(ctx, case, tree, files, realm, what):
    v = Verify(ctx)
    with Spy() as spy:
        ref = tree.write_out(realm)
    v.tree(realm, ref.location, files, what)
    if files:
        v.objects(realm, tree, files, what)
        check(tree.is_saved_on(realm), f"{what}: written tree is not reported as saved")
    ctx.maximum("git_commands", len(spy.git()))
    return ref


def scenario(ctx, case, rng, realm, other):
    files = make(rng, case)
    shape = case["shape"]
    tree = model.build_file_tree(files)
    if shape == "partial":
        for i, p in enumerate(files):
            if i % 97 == 1 or case["size"] < 50 and rng.random() < 0.4:
                m = tree.get_metadata(lib.P(posix(p)))
                m.write_out(realm)
                if rng.random() < 0.5:
                    m.purge()
    if shape == "record":
        extra = make(rng, dict(case, size=min(case["size"], 3)))
        record = model.Mrr(gen.ident(rng), "v", gen.meta(rng), files)
        second = model.Mrr(gen.ident(rng), "v2", None, extra)
        vl = lib.TreeVersionList()
        dt = lib.DatasetTree()
        objs = {}
        for name, m in (("", record), ("sub", second)):
            objs[name] = model.build_mrr(m)
            dt.add_dataset(lib.P(name), objs[name])
        vl.set_versioned_element("v", "1", lib.P(""), dt)
        ref = vl.write_out(realm)
        with store.Decoder(realm) as d:
            got = d.version_list(ref.location)
        expected = {("v", ()): ("1", {(): record, ("sub",): second})}
        check(model.flat_list(got) == model.flat_list(expected), "stored version list differs: "
              + str(model.diff(model.flat_list(expected), model.flat_list(got))))
        ctx.count("trees", 2)
        ctx.count("files", len(files) + len(extra))
        if files:
            Verify(ctx).objects(realm, objs[""].get_file_tree(), files, "record")
        ctx.count("names_recomputed", 0)
    else:
        write(ctx, case, tree, files, realm, shape)
    if shape == "extended":
        for _ in range(2):
            n = len(files)
            for i in range(n, n + rng.choice([1, 2, 3, 1000 if case["size"] > 900 else 4])):
                files[(f"file {i}",)] = small_meta(rng, i, False)
                tree.add_metadata(lib.P(f"file {i}"), model.build_metadata(files[(f"file {i}",)]))
            for p in rng.sample(sorted(files), min(5, len(files))):
                r = gen.run(rng)
                files[p] = files[p].copy()
                files[p].add(r)
                model.add_run(tree.get_metadata(lib.P(posix(p))), r)
            write(ctx, case, tree, files, realm, "extended")
    if shape == "two realms":
        write(ctx, case, tree, files, other, "second realm")
        third = {("a",): gen.meta(rng), ("b",): gen.meta(rng)}
        t = model.build_file_tree(third)
        write(ctx, case, t, third, other, "other tree")
        write(ctx, case, t, third, realm, "other tree, first realm")
    # another tree, and metadata that is not written in a batch
    more = {("m",): gen.meta(rng)}
    write(ctx, case, model.build_file_tree(more), more, realm, "next tree")
    single = gen.meta(rng)
    loc = model.build_metadata(single).write_out(realm).location
    with store.Decoder(realm) as d:
        check(d.metadata(loc).flat() == single.flat(), "single metadata differs")
    if len(files) < 60:
        # expensive for many objects, and subject of other checks
        lib.flush_object_references(Path(realm))
        lib.flush_object_references(Path(other))
    ctx.saw(case["size"], shape, case["batch"], case["fail"])
    return ctx.counters, ctx.distinct


class Bomb:
    """Not serialisable"""


class Interrupt(BaseException):
    pass


def failing(ctx, case, rng, realm, other):
    """Failures in the middle, then again"""
    files = make(rng, case)
    tree = model.build_file_tree(files)
    kind = case["fail"]
    what = {1: "git failure", 2: "not serialisable", 3: "interrupt", 4: "no temporary directory",
            5: "failure after git took effect"}[kind]
    with_record = rng.random() < 0.4
    top = tree
    mrr = model.Mrr(gen.ident(rng), "v", None, files)
    if with_record:
        import uuid
        top = lib.MetadataRootRecord(uuid.UUID(mrr.ident), mrr.version, None, tree)

    def attempt():
        return top.write_out(realm)
    failed = 0
    for round_ in range(rng.choice([1, 1, 2, 3])):
        if kind in (1, 5):
            k = rng.choice([0, 0, 1, 2, 3])
            hook = (lambda r: ("fail" if kind == 1 else "fail-after")
                    if r.index == k and r.is_write else None)
            spy = Spy(hook)
            with spy:
                try:
                    attempt()
                except Exception:
                    failed += 1
                else:
                    check(not any(r.injected for r in spy.records),
                          f"{what}: no error is raised")
        elif kind == 2:
            p = rng.choice(sorted(files))
            m = tree.get_metadata(lib.P(posix(p)))
            inst = next(iter(next(iter(m.extractor_runs))[1]), None) \
                if files[p].runs else None
            if inst is not None:
                good = inst.metadata_content
                inst.metadata_content = Bomb()
                try:
                    attempt()
                except TypeError:
                    failed += 1
                finally:
                    inst.metadata_content = good
                m.touch()
        elif kind == 3:
            k = rng.choice([0, 0, 1, 2])

            def interrupt(r):
                if r.index == k:
                    raise Interrupt()
            with Spy(interrupt):
                try:
                    attempt()
                except Interrupt:
                    failed += 1
        else:
            saved = tempfile.tempdir
            tempfile.tempdir = ctx.path("does not exist")
            try:
                attempt()
            except OSError:
                failed += 1
            finally:
                tempfile.tempdir = saved
        # nothing may be reported as saved that is not stored
        for o in [tree] + [n for _, n in tree.get_paths_recursive()][:50]:
            if o.is_saved_on(realm):
                loc = o.reference.location
                check(loc == store.NONE or store.git(
                    realm, "cat-file", "-e", loc, check=False).returncode == 0,
                    f"{what}: an object claims to be saved, but is not stored")
    # other trees, other realms, single objects work
    order = ["same", "other", "realm", "single"]
    rng.shuffle(order)
    for o in order:
        if o == "same":
            ref = attempt()
            v = Verify(ctx)
            if with_record:
                with store.Decoder(realm) as d:
                    try:
                        got = d.mrr(ref.location).flat()
                    except store.DecodeError as e:
                        check(False, f"after {what}: record is not complete: {e}")
                check(got == mrr.flat(), f"after {what}: record differs")
                ctx.count("trees")
                ctx.count("files", len(files))
            else:
                v.tree(realm, ref.location, files, f"after {what}")
            v.objects(realm, tree, files, f"after {what}")
        elif o in ("other", "realm"):
            more = {("m",): gen.meta(rng), ("d", "n"): gen.meta(rng)}
            write(ctx, case, model.build_file_tree(more), more,
                  realm if o == "other" else other, f"other tree after {what}")
        else:
            single = gen.meta(rng)
            loc = model.build_metadata(single).write_out(realm).location
            with store.Decoder(realm) as d:
                check(d.metadata(loc).flat() == single.flat(),
                      f"single metadata after {what} differs")
    ctx.count("failures", failed)
    ctx.saw(case["size"], case["shape"], case["batch"], what, failed)
    if len(files) > 60:
        return ctx.counters, ctx.distinct
    # everything is registered
    lib.flush_object_references(Path(realm))
    store.git(realm, "-c", "gc.auto=0", "prune", "--expire=now")
    if not with_record and files:
        Verify(ctx).tree(realm, tree.reference.location, files, f"after {what} and pruning")
    return ctx.counters, ctx.distinct


def run_case(case, ctx):
    rng = gen.rng_for("c19", case["seed"])
    with open(os.environ["GIT_CONFIG_GLOBAL"], "a") as f:
        # (a small bigFileThreshold creates a pack for every object: too slow for large trees)
        f.write(rng.choice([c for c in gen.HOSTILE_GITCONFIG
                            if case["size"] < 60 or "bigFileThreshold" not in c]))
        if rng.random() < 0.5:
            f.write('[filter "x"]\n\tclean = tr a-z A-Z\n\trequired = true\n')
    realm, other = store.init(ctx.path("repo")), store.init(ctx.path("other"))
    for r in (realm, other):
        with open(os.path.join(r, ".gitattributes"), "w") as f:
            f.write("* text=auto eol=crlf filter=x ident working-tree-encoding=UTF-16\n")
    os.chdir(rng.choice([realm, ctx.dir]))
    tmp = ctx.path(rng.choice(["tmp", "t m p", "tmp-ä日", "tmp'\"$x", ".tmp"]))
    os.mkdir(tmp)
    with open(os.path.join(tmp, ".gitattributes"), "w") as f:
        f.write("* text eol=crlf filter=x\n")
    tempfile.tempdir = tmp
    os.environ["TMPDIR"] = tmp
    if case["batch"] and set_batch(case["batch"]):
        ctx.count("small_batches")
    (failing if case["fail"] else scenario)(ctx, case, rng, realm, other)
    gc.collect()
    check(os.listdir(tmp) == [".gitattributes"],
          f"temporary files are left: {os.listdir(tmp)[:3]}")
    ctx.sample = f"{case['size']} files, {case['shape']}, batch size {case['batch'] or 'default'}"
