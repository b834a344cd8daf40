"""Runs the cases of a check, collects what the monitors observed, reports.

Every case is executed in a freshly forked process, i.e. with a fresh state of
the library under test, in its own scratch directory. The verdict of a case is

 - "held": the oracle observed the execution and found nothing wrong,
 - "violated": the oracle rejected the execution. An exception of the library
   that the oracle does not expect is a rejection, too,
 - "inconclusive": the execution could not be judged (watchdog, resources).
"""
import hashlib
import importlib
import json
import os
import re
import select
import shutil
import signal
import sys
import time
import traceback

from . import env

WATCHDOG_S = 150


class Violation(Exception):
    """Raised by oracles"""
    def __init__(self, message, **details):
        super().__init__(message)
        self.message = message
        self.details = details


class Inconclusive(Exception):
    pass


PLACES = ["", "with blank", "dätä", "a'b", 'a"b', "git@host:x", "user git:y", "http:", "x.git", "-d",
          "a\\b", "$HOME", "#1?x=2", "%20", "~", "a;b&c", "*", "ends ", "日本", "ssh:/rv.example", "x://y"]


class Ctx:
    """Passed to the cases: scratch directory, counters, observations"""
    def __init__(self, workdir, case):
        self.dir = workdir
        self.case = case
        self.counters = {}
        self.distinct = set()
        self.sample = None
        self.trace = []

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def maximum(self, name, n):
        key = "max:" + name
        self.counters[key] = max(self.counters.get(key, 0), n)

    def saw(self, *what):
        """Register a distinct observed state/event for the evidence"""
        self.distinct.add(hashlib.sha1(repr(what).encode(
            "utf8", "backslashreplace")).hexdigest()[:16])

    def log(self, *what):
        self.trace.append(" ".join(str(w) for w in what)[:300])

    def path(self, name):
        return os.path.join(self.dir, name)

    def repo(self, name):
        """A new repository, below a directory with an unusual name"""
        from . import store
        n = int(hashlib.sha1(repr(sorted(self.case.items(), key=repr)).encode()).hexdigest(), 16)
        place = os.path.join(self.dir, PLACES[n % len(PLACES)])
        if n // len(PLACES) % 2:
            # all repositories have the same name, in different directories
            place, name = os.path.join(place, name), "repo"
        os.makedirs(place, exist_ok=True)
        return store.init(os.path.join(place, name))


def check(condition, message, **details):
    if not condition:
        raise Violation(message, **details)


def _run_in_child(module, case, workdir, write_fd):
    os.mkdir(workdir)
    os.chdir(workdir)
    # cases might change the configuration of git
    config = os.path.join(workdir, ".rv-gitconfig")
    shutil.copy(os.environ["GIT_CONFIG_GLOBAL"], config)
    os.environ["GIT_CONFIG_GLOBAL"] = config
    ctx = Ctx(workdir, case)
    result = {"verdict": "held"}
    try:
        module.run_case(case, ctx)
    except Violation as e:
        result = {"verdict": "violated", "message": e.message,
                  "details": e.details}
    except Inconclusive as e:
        result = {"verdict": "inconclusive", "message": str(e)}
    except (MemoryError, BlockingIOError) as e:
        result = {"verdict": "inconclusive", "message": repr(e)}
    except OSError as e:
        if e.errno in (28, 12, 24, 11):
            result = {"verdict": "inconclusive", "message": repr(e)}
        else:
            result = {"verdict": "violated",
                      "message": f"unexpected exception {e!r}",
                      "details": {"traceback": traceback.format_exc()[-3000:]}}
    except BaseException as e:
        result = {"verdict": "violated",
                  "message": f"unexpected exception {type(e).__name__}: {e}"[:1500],
                  "details": {"traceback": traceback.format_exc()[-3000:]}}
    result["counters"] = ctx.counters
    result["distinct"] = sorted(ctx.distinct)
    result["sample"] = ctx.sample
    if result["verdict"] != "held":
        result["trace"] = ctx.trace[-80:]
    data = json.dumps(result, default=repr).encode()
    with os.fdopen(write_fd, "wb") as f:
        f.write(data)


class Running:
    def __init__(self, module, index, case, attempt):
        self.index, self.case, self.attempt = index, case, attempt
        self.workdir = os.path.join(env.scratch(), "work", f"{index}-{attempt}")
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                os.close(r)
                devnull = os.open(os.devnull, os.O_RDWR)
                os.dup2(devnull, 0)
                if not os.environ.get("RV_DEBUG"):
                    os.dup2(devnull, 1)
                    os.dup2(devnull, 2)
                _run_in_child(module, case, self.workdir, w)
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        self.fd = r
        self.data = b""
        self.started = time.monotonic()
        self.deadline = self.started + WATCHDOG_S * (1 + self.attempt)

    def finish(self, kill=False):
        if kill:
            for target in (lambda: os.killpg(self.pid, signal.SIGKILL),
                           lambda: os.kill(self.pid, signal.SIGKILL)):
                try:
                    target()
                except OSError:
                    pass
        os.close(self.fd)
        _, status = os.waitpid(self.pid, 0)
        try:
            # end processes that the case might have left behind
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass
        _rmtree(self.workdir)
        return status


def _rmtree(path):
    assert path.startswith(env.scratch() + os.sep)
    for _ in range(3):
        shutil.rmtree(path, ignore_errors=True)
        if not os.path.exists(path):
            return


def execute(module, cases, jobs=None, deadline=None, stop_after=3):
    """Run cases in parallel, yields (case, result)"""
    jobs = jobs or int(os.environ.get("RV_JOBS", "8"))
    pending = list(enumerate(cases))
    pending.reverse()
    running = {}
    violations = 0
    while pending or running:
        while pending and len(running) < jobs:
            if (deadline and time.monotonic() > deadline) or violations >= stop_after:
                pending = []
                break
            index, case = pending.pop()
            r = Running(module, index, case, 0)
            running[r.fd] = r
        if not running:
            break
        ready, _, _ = select.select(list(running), [], [], 1.0)
        for fd in ready:
            r = running[fd]
            chunk = os.read(fd, 1 << 20)
            if chunk:
                r.data += chunk
                continue
            del running[fd]
            status = r.finish()
            try:
                result = json.loads(r.data)
            except ValueError:
                result = {"verdict": "inconclusive", "counters": {},
                          "distinct": [],
                          "message": f"case process died, status {status}"}
            if result["verdict"] == "violated":
                violations += 1
            if os.environ.get("RV_TIMES"):
                print(f"{time.monotonic() - r.started:6.1f}s {json.dumps(r.case)}",
                      file=sys.stderr)
            yield r.case, result
        now = time.monotonic()
        for fd, r in list(running.items()):
            if now > r.deadline:
                del running[fd]
                r.finish(kill=True)
                if r.attempt == 0:
                    retry = Running(module, r.index, r.case, 1)
                    running[retry.fd] = retry
                else:
                    yield r.case, {
                        "verdict": "inconclusive", "counters": {},
                        "distinct": [], "hang": True,
                        "message": "did not finish within the watchdog time"}


def load_known_findings(prop):
    """Lines 'known: property=<id> key=<regex> <text>'"""
    found = []
    path = os.path.join(env.VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                found.append((m.group(2), m.group(3)))
    return found


def run_check(prop, tier, seed, replay=None):
    env.setup()
    t0 = time.monotonic()
    module = importlib.import_module(f"rv.checks.{prop.lower()}")
    # Import the library once, the forked case processes inherit it
    try:
        importlib.import_module("rv.lib")
    except BaseException:
        if os.environ.get("RV_DEBUG"):
            raise
        # A tree whose library cannot be imported breaks everything.
        return _report_import_error(prop, tier, seed)

    if replay:
        cases = [json.load(open(replay))["case"]]
    else:
        cases = module.cases(tier, seed)
    if os.environ.get("RV_ONLY"):
        cases = [c for c in cases
                 if all(str(c.get(k)) == v for k, v in
                        (p.split("=") for p in os.environ["RV_ONLY"].split(",")))]

    limit = 780 if tier == "quick" else float(os.environ.get("RV_LIMIT", "840"))
    counters, distinct, samples, violations, inconclusive = {}, set(), [], [], []
    evaluations = nontrivial = 0
    for case, result in execute(module, cases, deadline=t0 + limit):
        evaluations += 1
        for k, v in result["counters"].items():
            if k.startswith("max:"):
                counters[k] = max(counters.get(k, 0), v)
            else:
                counters[k] = counters.get(k, 0) + v
        if set(result["distinct"]) - distinct:
            nontrivial += 1
        distinct.update(result["distinct"])
        if len(samples) < 4 and result.get("sample"):
            samples.append(result["sample"])
        if result["verdict"] == "violated":
            violations.append((case, result))
        elif result["verdict"] == "inconclusive":
            inconclusive.append((case, result))

    # A case that hangs twice is a violation where the module says that
    # termination is part of the property.
    if getattr(module, "HANG_IS_VIOLATION", False):
        hangs = [(c, r) for c, r in inconclusive if r.get("hang")]
        violations.extend(hangs)
        inconclusive = [(c, r) for c, r in inconclusive if not r.get("hang")]

    known = load_known_findings(prop)
    reported_known = set()
    real = []
    for case, result in violations:
        for key, text in known:
            if re.search(key, result.get("message", "")):
                reported_known.add(text)
                break
        else:
            real.append((case, result))

    os.makedirs(env.EVIDENCE, exist_ok=True)
    replay_dir = os.path.join(env.EVIDENCE, "replay")
    os.makedirs(replay_dir, exist_ok=True)
    lines = []
    for n, (case, result) in enumerate(real[:3]):
        path = os.path.join("evidence", "replay", f"{prop}-{n}.json")
        with open(os.path.join(env.VERIF, path), "w") as f:
            json.dump({"property": prop, "case": case, "seed": seed,
                       "message": result.get("message"),
                       "details": result.get("details"),
                       "trace": result.get("trace"),
                       "replay_cmd": f"./check {prop} --replay {path}"},
                      f, indent=1, default=repr)
        lines.append((path, result.get("message", "")))

    wall = time.monotonic() - t0
    required = getattr(module, "REQUIRED", {})
    missing = [
        f"{name}={counters.get(name, 0)}<{minimum}"
        for name, minimum in required.items()
        if counters.get(name, 0) < minimum
    ] if not replay else []
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": module.LEVEL,
        "coverage": {
            "evaluations": evaluations,
            "planned": len(cases),
            "distinct_nontrivial": nontrivial,
            "rule": module.RULE,
            "samples": samples or [json.dumps(c)[:500] for c in cases[:2]],
            "distinct_observations": len(distinct),
            "observed": dict(sorted(counters.items())),
            "inconclusive": len(inconclusive),
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(real),
    }
    if not replay:
        with open(os.path.join(env.EVIDENCE, f"{prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1, default=repr)
            f.write("\n")

    for text in sorted(reported_known):
        print(f"KNOWN-FINDING: property={prop} {text}")
    for case, result in inconclusive[:3]:
        print(f"inconclusive: {json.dumps(case)[:200]}: {result.get('message')}"
              [:600])
    if real:
        for path, message in lines:
            print(f"VIOLATION property={prop} replay={path}")
            print("  " + message.replace("\n", "\n  ")[:1500])
        return 1
    print(f"{prop} {tier} seed={seed}: {evaluations}/{len(cases)} cases, "
          f"{len(distinct)} distinct observations, {wall:.1f}s, "
          + ", ".join(f"{k}={v}" for k, v in sorted(counters.items())))
    if missing:
        print(f"INCONCLUSIVE: monitors observed too little: {missing}")
        return 2
    if not replay and evaluations and len(inconclusive) > max(2, evaluations // 20):
        print(f"INCONCLUSIVE: {len(inconclusive)} cases could not be judged")
        return 2
    if not evaluations:
        print("INCONCLUSIVE: no case was executed")
        return 2
    return 0


def _report_import_error(prop, tier, seed):
    os.makedirs(os.path.join(env.EVIDENCE, "replay"), exist_ok=True)
    path = os.path.join("evidence", "replay", f"{prop}-import.json")
    message = traceback.format_exc()[-3000:]
    with open(os.path.join(env.VERIF, path), "w") as f:
        json.dump({"property": prop, "message": message}, f)
    print(f"VIOLATION property={prop} replay={path}")
    print("  the library cannot be imported:\n" + message)
    return 1


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    args = argv[1:]
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--seed":
            seed = int(args.pop(0))
        elif a == "--replay":
            replay = args.pop(0)
        else:
            raise SystemExit(f"unknown argument {a}")
    try:
        code = run_check(prop, tier, seed, replay)
    finally:
        env.cleanup()
    sys.stdout.flush()
    return code


if __name__ == "__main__":
    # the checks import this module by its name
    sys.exit(importlib.import_module("rv.runner").main(sys.argv[1:]))
