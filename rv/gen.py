"""Seeded generators for hostile inputs"""
import copy
import random
import uuid

from .model import Meta, Mrr

TOKENS = [
    "a", "b", "c", "dir", "sub", "file.txt", "data", "README.md", "x y",
    "ä", "日本", "\U0001F600", "e\u0301", "\u00e9", "q\"uote", '"', '""', '"a"',
    "back\\slash", "\\", "a\\nb", "a\nb", "\n", "tab\there", "\r", "cr\r\nlf",
    "semi;colon", "$(id)", "`x`", "'", "*", "?", "[a]", "#c", "-", "--help",
    "-rf", "~", "..a", "...", "a..", ".hidden", "*None*", "\u2028sep",
    "nel\u0085x", "\x0b\x0c", "\x1c\x1d", "\x7f", "\x01", "trailing ", " lead",
    "100644 blob", "a:b", "a%b", "%2F", "\\303\\244", "\\", "\\t",
    ".datalad_metadata_root_recorc", "A", "a.b", "a-b", "a0", "HEAD", "refs",
    "@{u}", "con", "0", "1e5", "None", "null", "e" * 180,
]
PLAIN = ["a", "b", "c", "d", "dir", "sub", "f1", "f2", "x.txt", "data", "a.b",
         "a-b", "a0", "0"]
STRINGS = TOKENS + [
    "", " ", "line\n", "\n\n", "crlf\r\n", "\\u0000", "\u0000", "\ufeffbom",
    "</json>", "{}", "[]", "\ud7ff", "\u2029", "x" * 3000, "true", "NaN",
    "ünïcödé " * 5, "refs/datalad/x", "git@x:y", "2.0", "*None*",
]
NUMBERS = [0, 1, -1, 2 ** 31, 2 ** 63, -2 ** 64, 10 ** 30, 0.1, -0.0, 1e300,
           1e-300, 1.5, 3.0, float("inf")]


def rng_for(*seed):
    return random.Random(repr(seed))


def name(rng, hostile=True):
    if not hostile:
        return rng.choice(PLAIN)
    r = rng.random()
    if r < 0.35:
        return rng.choice(PLAIN)
    if r < 0.8:
        return rng.choice(TOKENS)
    return "".join(rng.choice(TOKENS) for _ in range(rng.randint(2, 3)))[:200]


def string(rng, hostile=True):
    if not hostile:
        return rng.choice(PLAIN) + str(rng.randint(0, 99))
    r = rng.random()
    if r < 0.6:
        return rng.choice(STRINGS)
    if r < 0.8:
        return "".join(chr(rng.choice([rng.randint(0, 127),
                                       rng.randint(128, 0x2100),
                                       rng.randint(0x10000, 0x1ffff)]))
                       for _ in range(rng.randint(0, 12)))
    return rng.choice(STRINGS) + rng.choice(STRINGS)


def json_value(rng, depth=3, hostile=True):
    r = rng.random()
    if depth == 0 or r < 0.45:
        return rng.choice([
            lambda: None,
            lambda: rng.random() < 0.5,
            lambda: rng.choice(NUMBERS),
            lambda: rng.randint(-1000, 1000),
            lambda: string(rng, hostile),
            lambda: string(rng, hostile)])()
    if r < 0.7:
        return [json_value(rng, depth - 1, hostile)
                for _ in range(rng.randint(0, 4))]
    return {string(rng, hostile): json_value(rng, depth - 1, hostile)
            for _ in range(rng.randint(0, 4))}


def params(rng, hostile=True):
    """Extractor parameters. Free of values that are different in JSON, but
    equal for Python (1, 1.0, true), because configurations are compared."""
    def value(depth):
        r = rng.random()
        if depth == 0 or r < 0.7:
            return rng.choice([lambda: rng.randint(2, 6),
                               lambda: string(rng, hostile),
                               lambda: None])()
        if r < 0.85:
            return [value(depth - 1) for _ in range(rng.randint(0, 3))]
        return {string(rng, hostile): value(depth - 1)
                for _ in range(rng.randint(0, 3))}
    return {rng.choice(["p", "q", "r", string(rng, hostile)]): value(2)
            for _ in range(rng.choice([0, 1, 1, 2, 3]))}


_counter = [0]


def run(rng, hostile=True, extractor=None):
    _counter[0] += 1
    return {
        "extractor": extractor if extractor is not None else (
            rng.choice(["core", "custom", "ex", "metalad_core"])
            if rng.random() < 0.7 else string(rng, hostile)),
        "ts": rng.choice([0.0, 1.0, 1631234567.123456, 1e10, 5,
                          rng.random() * 1e9]),
        "author": string(rng, hostile),
        "email": string(rng, hostile),
        "version": rng.choice(["1", "2", "0.1-rc", "", string(rng, hostile)]),
        "params": params(rng, hostile),
        "content": {"id": _counter[0], "v": json_value(rng, 3, hostile)},
    }


def bare(rng, r, p=0.25):
    """Sometimes the result of an extractor is no object, or it is empty"""
    if rng.random() < p:
        r["content"] = copy.deepcopy(rng.choice([
            [], {}, "", 0, None, 2.5, "text", [[]], [{}], [None], "null"]))
    return r


def meta(rng, hostile=True, max_runs=4):
    n = rng.choice([1, 1, 2, 3, max_runs])
    if rng.random() < 0.05:
        n = 0
    return Meta([run(rng, hostile) for _ in range(n)])


def path(rng, hostile=True, max_depth=4):
    return tuple(name(rng, hostile) for _ in range(rng.randint(1, max_depth)))


def compatible(tree, p):
    """p can be added as leaf: no prefix of it is a leaf, it is no prefix"""
    if not p or p in tree:
        return False
    for q in tree:
        n = min(len(p), len(q))
        if p[:n] == q[:n]:
            return False
    return True


FORBIDDEN = {"", ".", ".."}


def valid_name(n):
    return (n not in FORBIDDEN and "/" not in n and "\0" not in n
            and n.lower() != ".git" and len(n.encode()) < 250)


def valid_path(p):
    return all(valid_name(n) for n in p)


def files(rng, n=None, hostile=True, max_depth=4):
    n = rng.choice([0, 1, 2, 5, 8]) if n is None else n
    result = {}
    for _ in range(n * 3):
        if len(result) >= n:
            break
        p = path(rng, hostile, max_depth)
        if result and rng.random() < 0.5:
            q = rng.choice(list(result))
            p = q[:rng.randint(0, len(q) - 1)] + p[:2]
        if valid_path(p) and compatible(result, p):
            result[p] = meta(rng, hostile, 2)
    return result


def ident(rng):
    return str(uuid.UUID(int=rng.getrandbits(128), version=4))


def version(rng, hostile=True):
    if rng.random() < 0.7:
        return "%040x" % rng.getrandbits(160)
    return string(rng, hostile) or "v"


def mrr(rng, hostile=True, n_files=None, ident_=None, version_=None):
    return Mrr(
        ident_ or ident(rng),
        version_ or ("" if hostile and rng.random() < 0.03 else version(rng, hostile)),
        None if rng.random() < 0.15 else meta(rng, hostile),
        files(rng, n_files, hostile) if rng.random() < 0.85 else {})


MRR_NAME = ".datalad_metadata_root_record"


def dataset_tree(rng, n=None, hostile=True, n_files=None):
    n = rng.choice([0, 1, 1, 2, 4]) if n is None else n
    result = {}
    while len(result) < n:
        p = path(rng, hostile, 3) if rng.random() < 0.7 else ()
        if result and rng.random() < 0.4:
            p = rng.choice(list(result)) + p[:1]
        if valid_path(p) and p not in result and MRR_NAME not in p:
            result[p] = mrr(rng, hostile, n_files)
    return result


def prefix(rng, hostile=True):
    if rng.random() < 0.4:
        return ()
    while True:
        p = path(rng, hostile, 3)
        if valid_path(p):
            return p


def version_list(rng, n=None, hostile=True, kind=None, n_files=None):
    n = rng.choice([0, 1, 2, 3]) if n is None else n
    result = {}
    versions = [version(rng, hostile) for _ in range(2)]
    while len(result) < n:
        k = (rng.choice(versions) if rng.random() < 0.6
             else version(rng, hostile), prefix(rng, hostile))
        e = (mrr(rng, hostile, n_files)
             if kind == "mrr" or (kind is None and rng.random() < 0.5)
             else dataset_tree(rng, None, hostile, n_files))
        result[k] = (rng.choice(["1.5", "0", "1631234567.1", string(rng, hostile)]), e)
    return result


def uuid_set(rng, n=None, hostile=True, kind="mrr", n_files=None):
    n = rng.choice([0, 1, 2, 3]) if n is None else n
    return {ident(rng): version_list(rng, None, hostile, kind, n_files)
            for _ in range(n)}


HOSTILE_GITCONFIG = [
    "[core]\n\tquotepath = false\n",
    "[core]\n\tquotepath = true\n\tautocrlf = true\n\teol = crlf\n",
    "[color]\n\tui = always\n[color \"diff\"]\n\tmeta = red\n",
    "[core]\n\tpager = false\n[pager]\n\tshow = true\n\tls-tree = true\n",
    "[core]\n\tabbrev = 7\n[log]\n\tshowSignature = true\n\tdecorate = full\n[format]\n\tpretty = short\n",
    "[core]\n\tcompression = 0\n\tbigFileThreshold = 1\n\tloosecompression = 9\n",
    "[core]\n\tsafecrlf = true\n\tignorecase = true\n\tprecomposeunicode = true\n\tprotectHFS = true\n\tprotectNTFS = true\n",
    "[i18n]\n\tcommitEncoding = latin1\n\tlogOutputEncoding = latin1\n",
    "[gc]\n\tauto = 1\n[transfer]\n\tfsckObjects = true\n[core]\n\tlogAllRefUpdates = always\n",
]
