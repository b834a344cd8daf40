"""C10: metadata paths are relative, normalised values"""
import copy
import os
import pickle
from pathlib import PurePosixPath

from .. import gen, lib
from ..runner import check

LEVEL = "exploration"
RULE = ("Random argument lists (strings with leading, doubled, trailing slashes, dots, "
        "special characters, plain and metadata paths) are given to the constructor, "
        "and to all derivations of paths (join, parent, parents, with_name, "
        "with_suffix, relative_to, ...). Every resulting path is compared with a model of "
        "component tuples, and must be relative, equal to and hashed like the path "
        "made from its own text, ordered, usable as key, copied and "
        "pickled without change. Non-trivial: distinct component tuples.")
ASSUMPTIONS = ["POSIX path semantics of the standard library (a later absolute "
               "argument replaces the earlier ones)"]
REQUIRED = {"paths": 2000, "derived": 4000, "absolute_inputs": 300}


def cases(tier, seed):
    n = {"quick": 16, "thorough": 400}[tier]
    return [{"seed": f"{seed}/{i}", "n": 150} for i in range(n)]


def model_parts(args):
    """Components of the path that the arguments denote"""
    out = []
    for a in args:
        if a.startswith("/"):
            out = []
        out += [c for c in a.split("/") if c not in ("", ".")]
    return tuple(out)


def random_text(rng):
    parts = [rng.choice(["", ".", "..", gen.name(rng), gen.name(rng, False)])
             for _ in range(rng.randint(0, 4))]
    parts = [p for p in parts if "\0" not in p]
    text = rng.choice(["/", "//", "///"]).join(parts)
    return rng.choice(["", "", "", "/", "//", "///", "./"]) + text + rng.choice(["", "", "/"])


def random_argument(rng, text):
    r = rng.random()
    if r < 0.7:
        return text
    if r < 0.85:
        return PurePosixPath(text)
    return lib.P(text)


def observe(ctx, p, parts, what):
    """p must be the path with the given components"""
    check(isinstance(p, lib.P), f"{what} is a {type(p).__name__}")
    check(tuple(p.parts) == parts, f"{what} has components {p.parts}, not {parts}")
    check(not p.is_absolute(), f"{what} is absolute: {p}")
    text = "/".join(parts)
    check(str(p) == text, f"{what} has text {str(p)!r}, not {text!r}")
    check(len(p) == len(parts), f"{what} has length {len(p)}")
    check(bool(p) == bool(parts), f"truth value of {what}")
    q = lib.P(text)
    check(p == q and hash(p) == hash(q), f"{what} differs from path {text!r}")
    check(not p != q, f"{what} is unequal to itself")
    check(lib.P(p) == p and lib.P(str(p)) == p, f"{what} is not stable")
    check(lib.P(*parts) == p, f"{what} differs from the path of its components")
    check({p: 1}.get(q) == 1, f"{what} is no usable key")
    check(os.fspath(p) == (text or "."), f"{what} has file system path {os.fspath(p)}") \
        if parts else None
    check(lib.P(p.as_posix()) == p, f"{what} is not restored from its posix text")
    for r in (pickle.loads(pickle.dumps(p)), copy.copy(p), copy.deepcopy(p)):
        check(type(r) is type(p) and r == p and tuple(r.parts) == parts
              and str(r) == text, f"copied {what} differs")
    ctx.count("paths")
    ctx.saw(parts)


def run_case(case, ctx):
    rng = gen.rng_for("c10", case["seed"])
    P = lib.P
    for _ in range(case["n"]):
        texts = [random_text(rng) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
        args = [random_argument(rng, t) for t in texts]
        # nested metadata paths are already relative
        texts = [str(a) if isinstance(a, P) else t for a, t in zip(args, texts)]
        parts = model_parts(texts)
        if any(t.startswith("/") for t in texts):
            ctx.count("absolute_inputs")
        p = P(*args)
        observe(ctx, p, parts, f"path of {args!r}")

        other_text = random_text(rng)
        other = P(other_text)
        other_parts = model_parts([other_text])
        derived = [
            (p / other, parts + other_parts, "p / q"),
            (p.joinpath(other, other), parts + other_parts * 2, "joinpath"),
            (p / str(other), parts + other_parts, "p / text"),
            (p / other_text, model_parts(["/".join(parts), other_text]),
             "p / unnormalised text"),
            (str(other) / p, other_parts + parts, "text / p"),
            (p.parent, parts[:-1], "parent"),
        ]
        for n, parent in enumerate(p.parents):
            derived.append((parent, parts[:len(parts) - 1 - n], "parents"))
        joined = p / other
        derived.append((joined.relative_to(p), other_parts, "relative_to"))
        check(joined.is_relative_to(p), "a joined path is not relative to its base")
        if parts and parts[-1] not in ("..",):
            check(p.name == parts[-1], "name differs")
            name = gen.name(rng, False)
            derived.append((p.with_name(name), parts[:-1] + (name,), "with_name"))
            if name not in (".", ".."):
                derived.append((p.parent / name, parts[:-1] + (name,), "sibling"))
        for i in range(len(parts) + 1):
            derived.append((P(*parts[:i]) / P(*parts[i:]), parts, "split and joined"))
            derived.append((P("/".join(parts[i:])), parts[i:], "tail"))
        for d, expected, what in derived:
            observe(ctx, d, expected, f"{what} of {p!r} and {other_text!r}")
            ctx.count("derived")
        check((p == other) == (parts == other_parts), f"{p!r} == {other!r} is wrong")
        check((p < other) == (parts < other_parts), f"{p!r} < {other!r} is wrong")
        check(P("") / p == p and p / P("") == p, "empty path is not neutral")
        check(("x" in {p}) is False, "path equals text")
    ctx.sample = f"{args!r} -> {p.parts!r}"
