"""C21: an object that claims to be saved, is saved"""
import uuid

from .. import gen, lib, model, store
from ..model import posix
from ..runner import Violation, check
from ..world import World, decode, location, node_mrr
from ..world import NDatasets, NList, NMrr, NUuids

LEVEL = "exploration"
RULE = ("Two kinds of histories: (a) random operations on a complete store, (b) "
        "random modifications, partial and complete saves to two to four repositories, "
        "purges and refused saves of one object graph. After every few steps "
        "all reachable objects are asked whether they are saved on each "
        "repository; every positive answer is verified by decoding the "
        "reported location there with the independent decoder and comparing it "
        "with the model. Non-trivial: distinct verified contents.")
ASSUMPTIONS = []
REQUIRED = {"claims_verified": 400, "not_saved_answers": 100,
            "second_realm_claims": 20}


def cases(tier, seed):
    n = {"quick": 120, "thorough": 1800}[tier]
    return [{"seed": f"{seed}/{i}", "kind": ["store", "two"][i % 2],
             "hostile": i % 8 >= 6} for i in range(n)]


def verify(ctx, obj, node_flat, realm, what):
    if not obj.is_saved_on(realm):
        ctx.count("not_saved_answers")
        return False
    where = location(obj)
    check(isinstance(where, str), f"saved {what} has no location")
    if where == store.NONE:
        # only trees can be empty
        empty = {"tree": {}} if isinstance(obj, lib.DatasetTree) else {}
        check(node_flat == empty,
              f"{what} claims to be saved, but is stored as empty object")
    else:
        with store.Decoder(realm) as d:
            try:
                got = decode(d, obj, where)
            except (store.DecodeError, KeyError) as e:
                raise Violation(f"{what} claims to be saved, but cannot be "
                                f"decoded from its location: {e}")
        d = model.diff(node_flat, got)
        check(d is None, f"{what} claims to be saved, but the repository "
                         f"holds: {d}")
    ctx.count("claims_verified")
    ctx.saw(model.digest(node_flat))
    return True


def store_case(case, ctx, rng):
    realm = ctx.repo("repo")
    world = World(realm, rng, ctx, case["hostile"])
    world.seed_store()
    for i in range(30):
        op = world.step()
        if i % 3 and not op.startswith(("write", "unget", "purge")):
            continue
        handles = world.handles()
        for node, get in rng.sample(handles, min(6, len(handles))):
            verify(ctx, get(), node.flat(), realm,
                   f"{type(node).__name__[1:]} after {op}")
    ctx.sample = "complete store, 30 operations"


def nodes(node, obj):
    """(node, object) of all elements, without mapping anything for good"""
    out = [(node, obj)]
    if isinstance(node, NUuids):
        for k, n in node.d.items():
            out += nodes(n, obj.get_version_list(uuid.UUID(k)))
    elif isinstance(node, NList):
        for (v, p), (_, n) in node.d.items():
            out += nodes(n, obj.get_versioned_element(v, lib.P(posix(p)))[2])
    elif isinstance(node, NDatasets):
        for p, n in node.d.items():
            out += nodes(n, obj.get_metadata_root_record(lib.P(posix(p))))
    elif isinstance(node, NMrr):
        if node.dlm is not None:
            out.append((node.dlm, obj.get_dataset_level_metadata()))
        if node.files is not None:
            tree = obj.get_file_tree()
            out.append((node.files, tree))
            for p, n in node.files.d.items():
                out.append((n, tree.get_metadata(lib.P(posix(p)))))
    return out


def two_realms(case, ctx, rng):
    realms = [ctx.repo(c) for c in "abcd"[:rng.choice([2, 3, 4])]]

    def record(size=2):
        return node_mrr(gen.mrr(rng, case["hostile"], size))

    def datasets():
        return NDatasets({p: node_mrr(m) for p, m in gen.dataset_tree(
            rng, 2, case["hostile"], 2).items()})

    def versions(make, n):
        return NList({(gen.version(rng, case["hostile"]), gen.prefix(rng, case["hostile"])):
                      (str(rng.random()), make()) for _ in range(n)}, make is datasets)
    kind = rng.randrange(5)
    root = (record(3) if kind == 0 else datasets() if kind == 1 else
            versions(record, 2) if kind == 2 else versions(datasets, 1) if kind == 3 else
            NUuids({gen.ident(rng): versions(record, 1) for _ in range(2)}))
    obj = root.build()
    history = []
    for _ in range(30):
        elements = nodes(root, obj)
        node, element = rng.choice(elements)
        realm = rng.choice(realms)
        op = rng.choice(["modify", "modify", "refresh", "revert", "write", "write", "write_root",
                         "write_everywhere", "purge", "force"]
                        + ["retime", "retime", "add"] * (kind > 1))
        history.append(op)
        ctx.log(op, type(node).__name__, realm[-1])
        try:
            if op == "modify":
                metas = [e for e in elements if type(e[0]).__name__ == "NMeta"]
                if metas:
                    n, o = rng.choice(metas)
                    run = gen.run(rng, case["hostile"])
                    model.add_run(o, run)
                    n.meta.add(run)
                    o_saved = [r for r in realms if o.is_saved_on(r)]
                    check(not o_saved, "modified metadata claims to be saved")
            elif op in ("refresh", "revert"):
                metas = [e for e in elements if type(e[0]).__name__ == "NMeta" and e[0].meta.runs]
                if not metas:
                    continue
                n, o = rng.choice(metas)
                old = rng.choice(list(n.meta.runs.values()))
                # the same configuration, and only one other value
                field = rng.choice(["ts", "ts", "author", "email", "content"])
                new = dict(old, **{field: {"ts": rng.random(), "content": {"r": rng.random()}}.get(
                    field, str(rng.random()))})
                for run in (new,) if op == "refresh" else (new, old):
                    model.add_run(o, run)
                    n.meta.add(run)
                    check(not [r for r in realms if o.is_saved_on(r) or obj.is_saved_on(r)],
                          f"metadata, of which the {field} was modified, claims to be saved")
                    if op == "revert":
                        # saved there only, but as it was everywhere before
                        o.write_out(realm)
                if op == "revert" and rng.random() < 0.7:
                    for x in (element, obj):
                        if x.is_saved_on(realm):
                            x.purge()
                            (node if x is element else root).detach()
                            break
                ctx.count(op)
            elif op in ("retime", "add"):
                lists = [e for e in elements if isinstance(e[0], NList)]
                if not lists:
                    continue
                n, o = rng.choice(lists)
                if op == "add" or not n.d:
                    key = (gen.version(rng, case["hostile"]), gen.prefix(rng, case["hostile"]))
                    new = (datasets if n.tree else record)()
                    new_obj = new.build()
                else:
                    # the same element with another time stamp
                    key = rng.choice(list(n.d))
                    new = n.d[key][1]
                    new_obj = o.get_versioned_element(key[0], lib.P(posix(key[1])))[2]
                ts = str(rng.random())
                (o.set_dataset_tree if n.tree and rng.random() < 0.5 else o.set_versioned_element)(
                    key[0], ts, lib.P(posix(key[1])), new_obj)
                n.d[key] = (ts, new)
                check(not [r for r in realms if o.is_saved_on(r) or obj.is_saved_on(r)],
                      "modified version list claims to be saved")
            elif op == "write":
                element.write_out(realm)
                check(element.is_saved_on(realm),
                      f"{type(element).__name__} is not saved after it was written")
            elif op == "write_root":
                obj.write_out(realm)
                check(obj.is_saved_on(realm), "root is not saved after write")
            elif op == "write_everywhere":
                for r in rng.sample(realms, len(realms)):
                    obj.write_out(r)
                    check(obj.is_saved_on(r), "root is not saved after write")
            elif op == "force":
                if element.is_saved_on(realm):
                    element.write_out(realm, "git", True)
            else:
                element.purge()
                node.detach()
        except (RuntimeError, ValueError) as e:
            # a purge of unsaved, or a save of elements that are only
            # available in the other repository can be refused
            if op in ("modify", "refresh", "revert", "retime", "add") or (op == "purge") != isinstance(e, ValueError):
                raise
            ctx.count("refusals")
        elements = nodes(root, obj)
        for n, o in rng.sample(elements, min(5, len(elements))) + elements[:1]:
            for r in realms:
                if verify(ctx, o, n.flat(), r, type(o).__name__) and r != realms[0]:
                    ctx.count("second_realm_claims")
    # content is intact
    from ..world import dump
    d = model.diff(root.flat(), dump(obj))
    check(d is None, f"content differs at the end: {d}")
    ctx.sample = " ".join(history)


def run_case(case, ctx):
    rng = gen.rng_for("c21", case["seed"])
    {"store": store_case, "two": two_realms}[case["kind"]](case, ctx, rng)
