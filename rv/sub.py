"""Run a function in a new interpreter ("another process of the user"), i.e.
with another hash seed, locale, and without anything inherited in memory"""
import importlib
import os
import pickle
import subprocess
import sys
import traceback

from . import env
from .runner import Inconclusive, Violation


def call(ctx, fn, *args, environment=None, name="sub", timeout=120):
    source, target = ctx.path(name + ".in"), ctx.path(name + ".out")
    with open(source, "wb") as f:
        pickle.dump((fn.__module__, fn.__name__, args), f)
    e = dict(os.environ, RV_TMP=ctx.dir, RV_REPO=env.REPO)
    e.update(environment or {})
    try:
        r = subprocess.run(
            [sys.executable, "-m", "rv.sub", source, target], cwd=env.VERIF, env=e,
            stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
            timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Inconclusive("process did not finish in time")
    if not os.path.exists(target):
        raise Inconclusive(f"process ended with {r.returncode}: {r.stderr[-300:]!r}")
    with open(target, "rb") as f:
        kind, value = pickle.load(f)
    os.unlink(target)
    if kind == "ok":
        return value
    if kind == "violation":
        raise Violation(value)
    raise Violation(f"{fn.__name__} in a new process: {value[0]}"[:1500], traceback=value[1])


def main():
    source, target = sys.argv[1:]
    env.setup()
    try:
        with open(source, "rb") as f:
            module, fn, args = pickle.load(f)
        try:
            result = ("ok", getattr(importlib.import_module(module), fn)(*args))
        except Violation as e:
            result = ("violation", e.message)
        except Exception as e:
            result = ("error", (f"{type(e).__name__}: {e}", traceback.format_exc()[-3000:]))
        with open(target + ".tmp", "wb") as f:
            pickle.dump(result, f)
        os.rename(target + ".tmp", target)
    finally:
        env.cleanup()


if __name__ == "__main__":
    main()
