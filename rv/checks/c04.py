"""C04: everything saved survives repository maintenance and transfer"""
import os
import shutil
import subprocess
from pathlib import Path

from .. import gen, lib, model, store
from ..proc import session
from ..runner import check
from ..world import World
from .c02 import read_back

LEVEL = "exploration"
RULE = ("Each case runs several sessions that modify, save, and flush a store. "
        "After each of them one of: git gc --prune=now, repack -ad + prune, "
        "clone of the metadata references into an empty repository, bundle, "
        "mirror clone. Then the complete content must be decodable, "
        "readable through the library, and git fsck must report no missing "
        "object that belongs to it. Non-trivial: distinct contents that "
        "survived.")
ASSUMPTIONS = ["A session ends with saving both top-level objects and flushing"]
REQUIRED = {"maintenance": 40, "objects_removed": 20, "leaves_compared": 500}

ACTIONS = ["gc", "repack", "fetch", "bundle", "mirror", "legacy-gc"]


def cases(tier, seed):
    n = {"quick": 36, "thorough": 700}[tier]
    return [{"seed": f"{seed}/{i}", "hostile": i % 4 == 3,
             "action": ACTIONS[i % len(ACTIONS)],
             "style": (i // len(ACTIONS)) % 3} for i in range(n)]


def maintain(realm, action, ctx, n):
    """Returns the path of the repository to check"""
    if action in ("gc", "legacy-gc"):
        store.git(realm, "reflog", "expire", "--expire=now", "--all")
        store.git(realm, "gc", "-q", "--prune=now")
        return realm
    if action == "repack":
        store.git(realm, "repack", "-a", "-d", "-q")
        store.git(realm, "prune", "--expire=now")
        return realm
    new = ctx.path(f"transfer{n}")
    # git takes some unusual paths for URLs
    plain = ctx.path(f"link{n}")
    os.symlink(realm, plain)
    realm = plain
    if action == "fetch":
        store.init(new)
        store.git(new, "fetch", "-q", realm, "+refs/datalad/*:refs/datalad/*")
    elif action == "bundle":
        bundle = ctx.path(f"b{n}")
        store.git(realm, "bundle", "create", "-q", bundle, "--all")
        store.init(new)
        store.git(new, "fetch", "-q", bundle, "+refs/datalad/*:refs/datalad/*")
    else:
        os.mkdir(new)
        subprocess.run(["git", "clone", "-q", "--mirror", "--no-local", realm,
                        os.path.join(new, ".git")], check=True,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        store.git(new, "config", "core.bare", "false")
    return new


def save(world):
    """End of a session"""
    world.write(world.n_tvl, world.tvl)
    world.write(world.n_us, world.us)
    lib.flush_object_references(Path(world.realm))


def open_world(realm, rng, ctx, hostile, content):
    world = World(realm, rng, ctx, hostile)
    if content is not None:
        world.published = content
        world.rng, r = _Never(), world.rng
        world.op_reload()
        world.rng = r
    return world


class _Never:
    @staticmethod
    def random():
        return 1.0


def leaves(x):
    if isinstance(x, dict):
        return sum(leaves(v) for v in x.values()) or 1
    if isinstance(x, list):
        return sum(leaves(v) for v in x)
    return 1


def work(realm, seed, hostile, content, style, case):
    """One session in its own process; returns the published content"""
    from ..runner import Ctx
    ctx = Ctx(os.path.dirname(realm), case)
    rng = gen.rng_for("c04w", seed)
    world = open_world(realm, rng, ctx, hostile, content)
    if content is None:
        world.seed_store()
    if style != 1:
        for _ in range(20):
            world.step()
    else:
        # only few changes
        for _ in range(2):
            world.op_add_run()
            world.op_add_file()
        if rng.random() < 0.5:
            world.op_add_dataset()
    save(world)
    return {k: v for k, v in world.published.items()}, ctx.counters


def make_legacy(realm):
    """Turn the object index into its old format"""
    entries = store.index_entries(realm)
    for kind, ref, mode in (("tree", lib.REF_LEGACY_TREES, "040000"),
                            ("blob", lib.REF_LEGACY_BLOBS, "100644")):
        text = "".join(f"{mode} {kind} {oid}\t{oid}\n"
                       for k, oid in sorted(entries) if k == kind)
        if text:
            tree = store.git(realm, "mktree", input=text).strip()
            store.git(realm, "update-ref", ref, tree)
    store.git(realm, "update-ref", "-d", lib.REF_OBJECTS)


def run_case(case, ctx):
    rng = gen.rng_for("c04", case["seed"])
    realm = ctx.repo("repo")
    content = None
    for n in range(3):
        content, counters = session(work, realm, f"{case['seed']}/{n}",
                                    case["hostile"], content, case["style"], case)
        if case["action"] == "legacy-gc" and n < 2:
            make_legacy(realm)
            if n == 1:
                # an unrelated flush must migrate the old index
                session(lib.flush_object_references, Path(realm))
        before = len(store.all_objects(realm))
        target = maintain(realm, case["action"], ctx, n)
        after = len(store.all_objects(target))
        ctx.count("maintenance")
        ctx.count("objects_removed", max(0, before - after))
        expected = {k: v.flat() for k, v in content.items()}
        with store.Decoder(target) as d:
            try:
                got = {"tvl": model.flat_list(d.version_list(lib.REF_TVL)),
                       "us": model.flat_uuid_set(d.uuid_set(lib.REF_UUID))}
            except store.DecodeError as e:
                got = None
                check(False, f"after {case['action']} of session {n}: {e}")
        diff = model.diff(expected, got)
        check(diff is None, f"after {case['action']} of session {n}: {diff}")
        got = session(read_back, target, what=f"reading after {case['action']}")
        diff = model.diff(expected, got)
        check(diff is None, f"library, after {case['action']}: {diff}")
        code, text = store.fsck(target)
        check(code == 0 and "missing" not in text and "broken" not in text,
              f"fsck after {case['action']} reports: {text[:300]}")
        ctx.count("leaves_compared", leaves(expected))
        ctx.saw(case["action"], model.digest(expected))
        realm = target
        for v in content.values():
            v.detach()
    ctx.sample = f"{case['action']}: {after} of {before} objects left in last round"
