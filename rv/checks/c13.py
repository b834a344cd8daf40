"""C13: remote stores are readable, current, separate, and never written"""
import hashlib
import os
import uuid
from pathlib import Path

from .. import gen, lib, model, store
from ..model import posix
from ..proc import Child, session, try_session, unwrap
from ..runner import Violation, check
from ..spy import Spy

LEVEL = "exploration"
RULE = ("Two or three repositories are made available under remote URLs of all supported forms "
        "(git's url.insteadOf leads to local repositories). Other processes update "
        "them, sessions load them through the URL (whole dumps, single lookups, "
        "several remotes interleaved, in several processes at once, one with a similar URL at "
        "every point of a load) and the content is compared "
        "with the model; objects loaded from the URL are modified and saved (default "
        "and explicit destination, must be refused), and copied to a local "
        "repository, which is read after the remote was made unavailable. Loading an unavailable remote must "
        "fail and not report an empty store. A byte "
        "snapshot of the remotes is compared around all of that. Non-trivial: distinct "
        "contents seen through a URL.")
ASSUMPTIONS = ["Network protocols are replaced by the local transport of git"]
REQUIRED = {"remote_dumps": 60, "refused_writes": 200, "updates_seen": 12,
            "copies": 8, "interleaved": 40, "snapshots": 30, "unavailable": 8, "missing": 12,
            "hook_environments": 10, "broken_starts": 10,
            "cleared": 6}

FORMS = ["https://{h}/{p}", "http://{h}/{p}", "ssh://git@{h}/{p}", "git@{h}:{p}",
         "git://{h}/{p}", "https://user:pw@{h}:8443/{p}.git", "https://{h}/{p}?x=1&y",
         "https://{h}/~u/{p}/"]


def cases(tier, seed):
    n = {"quick": 12, "thorough": 240}[tier]
    return [{"seed": f"{seed}/{i}", "hostile": i % 2 == 0, "form": i % len(FORMS), "index": i}
            for i in range(n)]


def snapshot(directory):
    out = {}
    for base, dirs, files in os.walk(directory):
        out[base] = "dir"
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as fd:
                out[p] = hashlib.sha1(fd.read()).hexdigest()
    return out


class Remotes:
    def __init__(self, ctx, rng, n, form):
        self.ctx, self.config = ctx, ctx.path("gitconfig")
        self.paths, self.urls = [], []
        ids = uuid.UUID(int=rng.getrandbits(128)).hex
        for i in range(n):
            self.paths.append(store.init(ctx.path(f"remote{i}")))
            template = FORMS[(form + (i if rng.random() < 0.5 else 0)) % len(FORMS)]
            self.urls.append(template.format(
                h="rv.example", p=f"{ids}/{rng.choice(['repo', 'x y', 'r'])}{i}"))
        with open(os.environ["GIT_CONFIG_GLOBAL"]) as f:
            self.base = f.read()
        os.environ["GIT_CONFIG_GLOBAL"] = self.config
        self.connect()

    def connect(self, available=True):
        with open(self.config, "w") as f:
            f.write(self.base)
            for path, url in zip(self.paths, self.urls):
                if not available:
                    path = self.ctx.path("nowhere")
                f.write(f'[url "{path}"]\n\tinsteadOf = "{url}"\n')

    def snapshot(self):
        return [snapshot(p) for p in self.paths]


def populate(path, seed, hostile, steps):
    """A session of the owner of the remote: extends it, returns its content"""
    rng = gen.rng_for("c13 populate", seed)
    tvl, us = lib.get_top_level_metadata_objects("git", path)
    tvl = lib.TreeVersionList() if tvl is None else tvl
    us = lib.UUIDSet() if us is None else us
    for _ in range(steps):
        v, p = gen.version(rng, hostile), gen.prefix(rng, hostile)
        tvl.set_versioned_element(v, "1.0", lib.P(posix(p)), model.build_dataset_tree(
            gen.dataset_tree(rng, rng.randint(1, 2), hostile, 2)))
        us.set_version_list(uuid.UUID(gen.ident(rng)), model.build_list(
            gen.version_list(rng, 1, hostile, "mrr", 2)))
    versions = list(tvl.versions_and_prefix_paths())
    if len(versions) > 1:
        # also modify an existing element
        _, _, tree = tvl.get_dataset_tree(*versions[0])
        tree.add_dataset(lib.P(f"added {rng.getrandbits(32)}"),
                         model.build_mrr(gen.mrr(rng, hostile, 1)))
    tvl.write_out(path)
    us.write_out(path)
    lib.flush_object_references(Path(path))
    with store.Decoder(path) as d:
        return (model.flat_list(d.version_list(lib.REF_TVL)),
                model.flat_uuid_set(d.uuid_set(lib.REF_UUID)))


def dump_realm(realm):
    tvl, us = lib.get_top_level_metadata_objects("git", realm)
    if tvl is None or us is None:
        return None if tvl is None and us is None else "only one"
    return model.dump_list(tvl), model.dump_uuid_set(us)


def compare(ctx, expected, got, what):
    check(got is not None and got != "only one", f"{what}: store is reported as missing")
    for e, g, part in zip(expected, got, ("tree version list", "UUID set")):
        d = model.diff(e, g)
        check(d is None, f"{what}: {part} differs: {d}")
    ctx.count("remote_dumps")
    ctx.saw(model.digest([expected[0], expected[1]]))


def refused(ctx, obj, url, changed, what):
    for args in ((), (url,), (url, "git", True)):
        if not changed and args != (url,):
            continue
        try:
            obj.write_out(*args)
        except RuntimeError:
            ctx.count("refused_writes")
        except (AssertionError, ValueError):
            ctx.count("refused_writes")
        else:
            check(not changed, f"{what}: a modified object was saved to a remote store")
        if changed:
            check(not obj.is_saved_on(url),
                  f"{what}: claims to be saved on a remote store")


def writes(ctx, rng, url, hostile):
    """Modified and new objects cannot be saved to the remote"""
    tvl, us = lib.get_top_level_metadata_objects("git", url)
    cwd = sorted(os.listdir("."))
    key = rng.choice(list(tvl.versions_and_prefix_paths()))
    _, _, tree = tvl.get_dataset_tree(*key)
    refused(ctx, tree, url, False, "unmodified tree")
    path, _ = rng.choice(tree.dataset_paths)
    mrr = tree.get_metadata_root_record(path)
    dlm = mrr.get_dataset_level_metadata()
    if dlm is None:
        dlm = lib.Metadata()
        mrr.set_dataset_level_metadata(dlm)
    model.add_run(dlm, gen.run(rng, hostile))
    for o, what in ((dlm, "metadata"), (mrr, "root record"), (tree, "dataset tree"),
                    (tvl, "tree version list")):
        refused(ctx, o, url, True, what)
    files = mrr.get_file_tree()
    if files is None:
        files = lib.FileTree()
        mrr.set_file_tree(files)
    files.add_metadata(lib.P(f"new {rng.getrandbits(32)}"),
                       model.build_metadata(gen.meta(rng, hostile)))
    refused(ctx, files, url, True, "file tree")
    us.set_version_list(uuid.UUID(gen.ident(rng)), lib.VersionList())
    refused(ctx, us, url, True, "UUID set")
    new = model.build_file_tree(gen.files(rng, 2, hostile))
    if list(new.get_paths_recursive()):
        refused(ctx, new, url, True, "new file tree")
    refused(ctx, model.build_mrr(gen.mrr(rng, hostile, 1)), url, True, "new root record")
    refused(ctx, lib.Text("text"), url, True, "new text")
    refused(ctx, lib.UUIDSet(), url, True, "new UUID set")
    refused(ctx, lib.TreeVersionList(), url, True, "new tree version list")
    # deep copies into the remote
    try:
        dlm.deepcopy(new_destination=url)
    except RuntimeError:
        ctx.count("refused_writes")
    else:
        raise Violation("metadata was copied to a remote store")
    check(sorted(os.listdir(".")) == cwd, "writing to a remote store created files")
    return ctx.counters


def copies(ctx, url, local):
    tvl, us = lib.get_top_level_metadata_objects("git", url)
    a = tvl.deepcopy(new_destination=local)
    b = us.deepcopy(new_destination=local)
    check(a.is_saved_on(local) and b.is_saved_on(local), "copy is not saved")
    lib.flush_object_references(Path(local))
    return True


def lookups(ctx, rng, remotes, contents):
    """Interleaved single lookups on several remotes in one process"""
    tops = [lib.get_top_level_metadata_objects("git", u) for u in remotes.urls]
    for _ in range(6):
        i = rng.randrange(len(tops))
        tvl, us = tops[i]
        keys = list(tvl.versions_and_prefix_paths())
        check(len(keys) == len(contents[i][0]), "wrong number of versions")
        v, p = rng.choice(keys)
        ts, _, e = tvl.get_versioned_element(v, p)
        d = model.diff(contents[i][0][model.canon([v, model.parts(p)])],
                       [ts, model.dump_element(e)])
        check(d is None, f"element of a remote differs: {d}")
        ident = rng.choice(sorted(us.uuids(), key=str))
        d = model.diff(contents[i][1][str(ident)],
                       model.dump_list(us.get_version_list(ident)))
        check(d is None, f"version list of a remote differs: {d}")
    return True


def similar(rng, ids):
    """URLs that are different remotes, but differ only a bit"""
    h, p = "rv.example", f"{ids}/near"
    pairs = [(f"https://{h}/{p}", f"https://{h}/{p.upper()}"),
             (f"https://{h}/{p}", f"http://{h}/{p}"),
             (f"ssh://one@{h}/{p}", f"ssh://two@{h}/{p}"),
             (f"https://{h}/{p}", f"https://{h}:8443/{p}"),
             (f"https://{h}/{p}?a=1", f"https://{h}/{p}?a=2"),
             (f"https://{h}/{p}/x", f"https://{h}/x/{p}"),
             (f"https://{h}/{p}", f"https://{h}.org/{p}"),
             (f"git@{h}:{p}", f"git@{h}:/{p}"),
             (f"https://{h}/a%20b/{p}", f"https://{h}/a+b/{p}"),
             (f"https://{h}/{p}#a", f"https://{h}/{p}#b"),
             (f"https://{h}/{p}", f"https://{h}/{p}.git"),
             (f"ssh://{h}/{p}", f"ssh://{h}/{p}/"),
             (f"https://{h}/a{p}/{'long/' * 45}repo", f"https://{h}/b{p}/{'long/' * 45}repo"),
             (f"https://{h}/{p}/{'long/' * 45}a", f"https://{h}/{p}/{'long/' * 45}b")]
    return pairs


def disturbed(url, other, at, seen):
    """Load from url, while another process loads from a similar URL"""
    busy = []

    def hook(record):
        if not busy and record.index == at:
            busy.append(record)
            busy.append(session(dump_realm, other))
    with Spy(hook) as spy:
        result = dump_realm(url)
    return result, len(busy) > 1 and busy[1], len(spy.git())


def near(case, ctx, rng, remotes):
    ids = f"{rng.getrandbits(64):x}"
    pairs = similar(rng, ids)
    paths = [store.init(ctx.path("near0")), store.init(ctx.path("near1"))]
    contents = [session(populate, p, f"{case['seed']}/{p}", case["hostile"], 1) for p in paths]
    at = 5 * case["index"]
    for pair in (pairs + pairs)[at % len(pairs):][:5]:
        with open(remotes.config, "a") as f:
            for path, url in zip(paths, pair):
                f.write(f'[url "{path}"]\n\tinsteadOf = "{url}"\n')
        # the second one is a prefix of the first one, or not: longest match wins
        order = [0, 1]
        rng.shuffle(order)
        a, b = order
        at, n = 0, 6
        while at < min(n, 14):
            got, other, n = session(disturbed, pair[a], pair[b], at, None)
            compare(ctx, contents[a], got, f"{pair[a]}, while {pair[b]} is loaded")
            if other:
                compare(ctx, contents[b], other, f"{pair[b]}, during a load of {pair[a]}")
                ctx.count("interleaved")
            at += rng.choice([1, 1, 2])
        compare(ctx, contents[b], session(dump_realm, pair[b]), pair[b])
        remotes.connect()


def one_more(case, ctx, remotes, name):
    path = store.init(ctx.path(name))
    content = session(populate, path, f"{case['seed']}/{name}", case["hostile"], 1)
    url = remotes.urls[0].replace("rv.example", f"{name}.example")
    remotes.paths.append(path)
    remotes.urls.append(url)
    remotes.connect()
    return url, content


def hook_environment(case, ctx, rng, remotes):
    """Load a remote, and copy it, from within a hook of another repository"""
    user = store.init(ctx.path("user"))
    store.git(user, "commit", "-q", "--allow-empty", "-m", "x")
    url, content = one_more(case, ctx, remotes, "hook")
    local = store.init(ctx.path("hooklocal"))
    values = {"GIT_DIR": user + "/.git", "GIT_WORK_TREE": user,
              "GIT_INDEX_FILE": user + "/.git/index", "GIT_PREFIX": ""}
    chosen = rng.sample(sorted(values), rng.randint(1, len(values)))
    if rng.random() < 0.7 and "GIT_DIR" not in chosen:
        chosen.append("GIT_DIR")

    def in_hook():
        os.environ.update({k: values[k] for k in chosen})
        os.chdir(user)
        first = dump_realm(url)
        copies(ctx, url, local)
        return first, dump_realm(url), dump_realm(local)
    before = snapshot(user)
    for got, what in zip(session(in_hook), ("remote", "remote again", "local copy")):
        compare(ctx, content, got, f"{what}, in the environment {chosen}")
    check(snapshot(user) == before, f"the repository of the hook was changed ({chosen})")
    compare(ctx, content, session(dump_realm, url), f"remote, first loaded in a hook ({chosen})")
    ctx.count("hook_environments")


def broken_start(case, ctx, rng, remotes):
    """The first access to a remote fails at some command, later ones do not"""
    url, content = one_more(case, ctx, remotes, "broken")
    at, how = rng.choice([0, 1, 2]), rng.choice(["fail", "fail-after", "kill-before", "kill-after",
                                                "nospace", "nospace"])
    if how == "nospace" and rng.random() < 0.6:
        at = 0

    def failing():
        with Spy(lambda r: how if r.index == at else None):
            return dump_realm(url)
    kind, value = try_session(failing)
    if kind == "ok":
        check(value is not None, f"a remote is missing after a failure of git ({how} {at})")
    for _ in range(2):
        compare(ctx, content, session(dump_realm, url), f"remote, after {how} at command {at}")
    ctx.count("broken_starts")


def cleared(case, ctx, rng, remotes):
    """The user's cache directory is emptied, or collected, at any time"""
    url, content = one_more(case, ctx, remotes, "cleared")

    def disturbed_session(how):
        base = os.path.join(os.environ["XDG_CACHE_HOME"], "datalad-metalad", "local-git-cache")
        before = dump_realm(url)
        tvl, us = lib.get_top_level_metadata_objects("git", url)
        keys = list(tvl.versions_and_prefix_paths())
        tvl.get_versioned_element(*keys[0])
        refs = store.refs(remotes.paths[-1])
        for name in os.listdir(base):
            # other cases use that directory, too
            if any(store.git(os.path.join(base, name), "cat-file", "-e", r, check=False).returncode
                   for r in (refs[lib.REF_TVL], refs[lib.REF_UUID])):
                continue
            ctx.count("cleared")
            if how == "removed":
                os.rename(os.path.join(base, name), ctx.path("cleared-" + name))
            else:
                store.git(os.path.join(base, name), "gc", "-q", "--prune=now")
        return (before, (model.dump_list(tvl), model.dump_uuid_set(us)), dump_realm(url),
                ctx.counters.get("cleared", 0))
    how = rng.choice(["removed", "collected"])
    *dumps, n = session(disturbed_session, how)
    ctx.count("cleared", n)
    for got, what in zip(dumps, ("before", "while", "after")):
        compare(ctx, content, got, f"remote, {what} the cache was {how}")
    compare(ctx, content, session(dump_realm, url), f"remote, after the cache was {how}")


def run_case(case, ctx):
    rng = gen.rng_for("c13", case["seed"])
    remotes = Remotes(ctx, rng, rng.choice([2, 3]), case["form"])
    contents = []
    # an empty remote is reported as missing
    for i, url in enumerate(remotes.urls):
        check(session(dump_realm, url) is None, "empty remote has content")
        ctx.count("missing")
        contents.append(session(populate, remotes.paths[i], f"{case['seed']}/{i}",
                                case["hostile"], 2))
    for round_ in range(2):
        before = remotes.snapshot()
        for i, url in enumerate(remotes.urls):
            compare(ctx, contents[i], session(dump_realm, url), f"remote {url}")
        compare(ctx, session(dump_realm, remotes.paths[0]),
                session(dump_realm, remotes.urls[0]), "remote and local")
        session(lookups, ctx, rng, remotes, contents)
        n = session(writes, ctx, rng, rng.choice(remotes.urls), case["hostile"])
        ctx.count("refused_writes", n.get("refused_writes", 0))
        check(remotes.snapshot() == before, "a remote repository was changed")
        ctx.count("snapshots", 2)
        # update by the owner; also visible in a process that knows the old state
        i = rng.randrange(len(remotes.urls))
        url = remotes.urls[i]

        def update_and_reload():
            old = dump_realm(url)
            held = lib.get_top_level_metadata_objects("git", url)
            new = session(populate, remotes.paths[i], f"{case['seed']}/{round_}/u",
                          case["hostile"], 1)
            return old, new, dump_realm(url), held[0] is not None
        old, contents[i], seen, _ = session(update_and_reload)
        check(old is not None, "remote is missing")
        compare(ctx, contents[i], seen, "updated remote in the same process")
        compare(ctx, contents[i], session(dump_realm, url), "updated remote")
        ctx.count("updates_seen")
    # several processes at once, one remote with a cold cache
    cold = store.init(ctx.path("cold"))
    remotes.paths.append(cold)
    remotes.urls.append(remotes.urls[0].replace("rv.example", "cold.example"))
    contents.append(session(populate, cold, case["seed"] + "/cold", case["hostile"], 1))
    # the creation of a repository takes long, if there are many templates
    template = ctx.path("template/hooks")
    os.makedirs(template)
    for i in range(rng.choice([0, 300, 1500])):
        open(f"{template}/{i}", "w").close()
    remotes.base += f'[init]\n\ttemplateDir = "{os.path.dirname(template)}"\n'
    remotes.connect()
    warm = rng.randrange(len(remotes.urls) - 1)
    children = [Child(dump_realm, remotes.urls[k]) for k in (warm, warm, -1, -1)]
    for k, c in zip((warm, warm, -1, -1), children):
        kind, value = c.wait()
        if kind == "error" and "lock" in value[1]:
            # refused because of the other process: that is a report
            ctx.count("concurrent_refused")
            continue
        compare(ctx, contents[k], unwrap(kind, value, "concurrent load"),
                "concurrent load")
        ctx.count("concurrent_loads")
    near(case, ctx, rng, remotes)
    hook_environment(case, ctx, rng, remotes)
    broken_start(case, ctx, rng, remotes)
    cleared(case, ctx, rng, remotes)
    # copy to a local repository, read it without the remote
    before = remotes.snapshot()
    local = store.init(ctx.path("local"))
    i = rng.randrange(len(contents))
    session(copies, ctx, remotes.urls[i], local)
    check(remotes.snapshot() == before, "copying from a remote repository changed it")
    remotes.connect(False)
    store.git(local, "gc", "-q", "--prune=now")
    compare(ctx, contents[i], session(dump_realm, local), "local copy of a remote")
    ctx.count("copies")
    # an unavailable remote is not an empty one

    def unavailable():
        try:
            r = lib.get_top_level_metadata_objects("git", remotes.urls[i])
        except Exception:
            return "error"
        return "missing" if r == (None, None) else "content"
    r = session(unavailable)
    check(r != "missing", "an unavailable remote is reported as empty store")
    check(r == "error", "loading from a remote that is not available reports no error")
    ctx.count("unavailable")

    # also in a process that loaded it before
    def lost():
        remotes.connect()
        first = dump_realm(remotes.urls[i])
        remotes.connect(False)
        return first, unavailable()
    first, r = session(lost)
    compare(ctx, contents[i], first, "remote, before it is lost")
    check(r == "error", f"loading from a remote that is lost meanwhile reports {r}")
    ctx.sample = f"remotes {remotes.urls}"
