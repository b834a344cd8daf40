"""C06: failing git commands are reported, nothing is lost, retry succeeds"""
import random
import shutil

from .. import faults, gen, lib, model, store
from ..proc import session
from ..runner import Violation, check
from ..spy import Spy
from .c05 import TOP, decode_pair, legacy_entries, neutral, prepare

LEVEL = "fault_enumeration"
RULE = ("Random sessions (load, modify, partially and completely save, flush, "
        "copy to another repository) are executed with one git command failing "
        "without effect (with a message, killed silently, or not started at all), failing after its effect, "
        "killed after a part of its output, unable to write any file (disk full), interrupted by the user, "
        "or all commands failing from one on. Monitors: the session must either report an error or have had "
        "its full effect; after the failure, the stored state is one of the "
        "states that the session publishes and the object index lost nothing and "
        "names no missing object; when the session continues after the failure "
        "(the failed step is repeated in the same process), the intended "
        "state is stored completely and survives a garbage collection. "
        "Non-trivial: distinct (session, command, mode) in which the failure "
        "was delivered.")
ASSUMPTIONS = ["A command that was reported as failing leaves either no effect or "
               "its full effect"]
REQUIRED = {"failures_injected": 60, "reported": 50, "recovered": 60}


def cases(tier, seed):
    n, groups = {"quick": (8, 2), "thorough": (60, 8)}[tier]
    return [{"seed": f"{seed}/{i}", "hostile": i % 4 == 3, "group": g,
             "groups": groups, "all": tier == "thorough",
             "start": ["normal", "legacy", "empty", "copy", "legacy"][i % 5]}
            for i in range(n) for g in range(groups)]


class CopySession(faults.Session):
    """Copies the complete store to a second repository"""
    def __init__(self, realm, steps):
        super().__init__(realm, steps)
        self.destination = realm + "-copy"

    def load(self):
        tvl, us = lib.get_top_level_metadata_objects("git", self.realm + "-source")
        check(tvl is not None and us is not None,
              "existing objects are reported as missing")
        self.tvl, self.us = tvl, us

    def save(self):
        from pathlib import Path
        self.tvl.deepcopy(new_destination=self.realm)
        self.us.deepcopy(new_destination=self.realm)
        lib.flush_object_references(Path(self.realm))


def make_session(case, realm, steps):
    return (CopySession if case["start"] == "copy" else faults.Session)(realm, steps)


def attempt(case, realm, steps, index, mode, result_path):
    """Run with failure, then judge, then continue without failures"""
    s = make_session(case, realm, steps)
    delivered = []

    def hook(record):
        if mode.startswith("persist"):
            if record.index >= index:
                delivered.append(record)
                return "fail" if mode == "persist" else "nospace"
        elif record.index == index:
            delivered.append(record)
            return mode
    error = None
    with Spy(hook):
        try:
            s.run()
        except (Exception, KeyboardInterrupt) as e:
            error = e
    if not delivered:
        return {"delivered": False}
    state = {"delivered": True, "error": None if error is None else repr(error)[:200],
             "phase": s.phase, "command": repr(delivered[0])}
    state["after"] = snapshot(realm)
    if error is not None:
        for _ in range(3):
            try:
                s.run()
                break
            except Exception as e:
                state["retry_error"] = f"{type(e).__name__}: {e}"[:400]
                # a program might have to start over
                return state
    state.pop("retry_error", None)
    state["final"] = snapshot(realm)
    return state


def snapshot(realm):
    refs = store.refs(realm)
    try:
        pair = decode_pair(realm, (refs.get(lib.REF_TVL), refs.get(lib.REF_UUID)))
        entries = sorted(store.index_entries(realm))
        objects = store.all_objects(realm)
    except (store.DecodeError, KeyError, ValueError) as e:
        return {"damaged": str(e)}
    missing = [e for e in entries if objects.get(e[1]) != e[0]]
    return {"state": neutral(pair), "entries": entries, "missing": missing,
            "legacy": sorted(legacy_entries(realm))}


def log_of(case, realm, steps):
    s = make_session(case, realm, steps)
    log, states = [], [store.refs(realm)]

    def hook(r):
        log.append((r.command, r.is_write, s.phase,
                    r.args[0] if r.args and r.args[0].startswith("-") else ""))

    def after(r):
        if r.is_git and not r.is_read:
            states.append(dict(zip(TOP, store.references(realm, TOP))))
    with Spy(hook, after):
        s.run()
    pairs = []
    for r in states:
        p = (r.get(lib.REF_TVL), r.get(lib.REF_UUID))
        if p not in pairs:
            pairs.append(p)
    return log, [neutral(decode_pair(realm, p)) for p in pairs]


def run_case(case, ctx):
    rng = gen.rng_for("c06", case["seed"])
    base, steps = prepare(ctx, case, rng)
    if case["start"] == "copy":
        source = base
        base = store.init(ctx.path("base2"))
        steps = []

    def instance(name):
        path = faults.copy_repo(base, ctx.path(name))
        if case["start"] == "copy":
            faults.copy_repo(source, path + "-source")
        return path

    log, contents = session(log_of, case, instance("probe"), steps)
    plain = session(snapshot, ctx.path("probe"))
    points = [(i, "fail") for i in range(len(log))]
    points += [(i, "fail-after") for i, r in enumerate(log) if r[1]]
    points += [(i, "persist") for i in range(len(log))]
    points += [(i, "killed") for i in range(len(log))]
    points += [(i, "no-start") for i in range(len(log))]
    points += [(i, "partial") for i in range(len(log))]
    points += [(i, "interrupt") for i in range(len(log))]
    points += [(i, "interrupt-after") for i in range(len(log))]
    points += [(i, "nospace") for i, r in enumerate(log) if r[1]]
    points += [(i, "persist-nospace") for i in range(len(log))]
    if not case["all"]:
        # Every kind of command fails, and has (a part of) its effect
        points = faults.spread(rng, points, 50, lambda p: (
            log[p[0]][0], log[p[0]][3],
            {"fail": 0, "killed": 0, "no-start": 0, "persist": 1,
             "interrupt": 2, "interrupt-after": 2}.get(p[1], 3 if "nospace" in p[1] else 2)))
    points = points[case["group"]::case["groups"]]
    old_index = store.index_entries(base) | legacy_entries(base)
    final = contents[-1]

    for index, mode in points:
        realm = instance("try")
        label = (f"{mode} of command {index} ({log[index][0]}, during "
                 f"{log[index][2]}, {case['start']} store)")
        state = session(attempt, case, realm, steps, index, mode, None, what=label)
        if not state["delivered"]:
            ctx.count("not_delivered")
        else:
            judge(case, ctx, label, state, contents, final, old_index, realm, index, mode, plain)
        shutil.rmtree(realm)
        if case["start"] == "copy":
            shutil.rmtree(realm + "-source")
    ctx.sample = (f"{case['start']} store, {len(log)} commands, "
                  f"steps {[s[0] for s in steps]}")


def judge(case, ctx, label, state, contents, final, old_index, realm, index, mode, plain):
    ctx.count("failures_injected")
    ctx.saw(case["seed"], index, mode)
    after = state["after"]
    check("damaged" not in after,
          f"{label}: stored metadata is damaged: {after.get('damaged')}")
    check(not after["missing"],
          f"{label}: the object index names missing objects: {after['missing'][:2]}")
    lost = old_index - {tuple(e) for e in after["entries"] + after["legacy"]}
    if state["error"] is None:
        ctx.count("survived")
        d = model.diff(final, after["state"])
        check(d is None, f"{label}: the failure was not reported, but: {d}")
        check(after["legacy"] == plain["legacy"],
              f"{label}: the failure was not reported, but the old object index is not converted")
        n = len(set(map(tuple, plain["entries"])) - set(map(tuple, after["entries"])))
        check(not n, f"{label}: the failure was not reported, but {n} objects are not registered")
    else:
        ctx.count("reported")
        check(not lost, f"{label}: {len(lost)} entries of the object index are lost")
        check(any(model.diff(c, after["state"]) is None for c in contents),
              f"{label}: after the failure, the repository holds a state that is "
              f"never published: {model.diff(contents[0], after['state'])}")
    check("retry_error" not in state,
          f"{label}: retry is impossible: {state.get('retry_error')}")
    got = state["final"]
    check("damaged" not in got, f"{label}: after retry: {got.get('damaged')}")
    d = model.diff(final, got["state"])
    check(d is None, f"{label} ({state['error']}): after retry: {d}")
    check(got["legacy"] == plain["legacy"],
          f"{label}: after retry, the old object index is not converted")
    check(not got["missing"], f"{label}: after retry, the object index names missing "
                              f"objects: {got['missing'][:2]}")
    store.git(realm, "gc", "-q", "--prune=now")
    collected = snapshot(realm)
    check("damaged" not in collected,
          f"{label}: after retry and garbage collection: {collected.get('damaged')}")
    d = model.diff(final, collected["state"])
    check(d is None, f"{label}: after retry and garbage collection: {d}")
    lost = old_index - store.index_entries(realm) - legacy_entries(realm)
    check(not lost, f"{label}: after retry, {len(lost)} entries of the object index are lost")
    ctx.count("recovered")
