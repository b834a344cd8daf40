"""C09: trees behave like maps from paths to elements"""
from .. import gen, lib, model, store
from ..model import posix
from ..runner import Violation, check

LEVEL = "exploration"
RULE = ("Random histories (60 operations) of add, remove, subtree insertion and removal, lookup, "
        "membership, enumeration with and without intermediate nodes, save, "
        "purge and reload on a tree of texts, a file tree, or a dataset "
        "tree, with colliding paths (prefixes of existing paths, paths below "
        "leaves, names that sort or quote unusually). A nested-dictionary model "
        "predicts the result of every operation, including refusals; a refused "
        "operation must not change anything. Non-trivial: distinct tree "
        "contents.")
ASSUMPTIONS = ["Names are valid git tree entry names"]
REQUIRED = {"operations": 800, "refusals": 60, "lookups": 400, "enumerations": 200,
            "purges": 50, "reloads": 20}


def cases(tier, seed):
    n = {"quick": 48, "thorough": 1200}[tier]
    return [{"seed": f"{seed}/{i}", "kind": ["mtree", "files", "datasets"][i % 3],
             "hostile": i % 2 == 0} for i in range(n)]


class Tree:
    """Model: nested dictionaries, leaves are strings"""
    def __init__(self):
        self.root = {}

    def at(self, path):
        node = self.root
        for p in path:
            if not isinstance(node, dict) or p not in node:
                return None
            node = node[p]
        return node

    def can_add(self, path):
        node = self.root
        for p in path[:-1]:
            if p not in node:
                return True
            node = node[p]
            if not isinstance(node, dict):
                return False
        return path[-1] not in node

    def add(self, path, value):
        node = self.root
        for p in path[:-1]:
            node = node.setdefault(p, {})
        node[path[-1]] = value

    def remove(self, path):
        del self.at(path[:-1])[path[-1]]

    def leaves(self, node=None, prefix=()):
        node = self.root if node is None else node
        out = {}
        for k, v in node.items():
            if isinstance(v, dict):
                out.update(self.leaves(v, prefix + (k,)))
            else:
                out[prefix + (k,)] = v
        return out

    def inner(self, node=None, prefix=()):
        node = self.root if node is None else node
        out = {prefix}
        for k, v in node.items():
            if isinstance(v, dict):
                out |= self.inner(v, prefix + (k,))
        return out

    def drop_empty(self, node=None):
        """What is left if the tree is stored and loaded"""
        node = self.root if node is None else node
        for k, v in list(node.items()):
            if isinstance(v, dict):
                self.drop_empty(v)
                if not v:
                    del node[k]


class Mtree:
    def __init__(self, rng, hostile):
        self.rng, self.hostile = rng, hostile
        self.tree = lib.MTreeNode(lib.Text)

    def leaf(self):
        s = "t%d" % self.rng.getrandbits(60)
        return lib.Text(s), s

    def value(self, obj):
        obj.ensure_mapped()
        return obj.content

    def add(self, path, obj):
        self.tree.add_child_at(obj, lib.P(posix(path)))

    def remove(self, path):
        self.tree.remove_child_at(lib.P(posix(path)))

    def node(self, path):
        return self.tree.get_object_at_path(lib.P(posix(path)))

    def contains(self, path):
        return None

    def get(self, path):
        node = self.node(path)
        return None if node is None or isinstance(node, lib.MTreeNode) else self.value(node)

    def paths(self, intermediate):
        return self.tree.get_paths_recursive(intermediate)

    def reload(self, realm, ref):
        self.tree = lib.MTreeNode(lib.Text, realm, ref)

    def root(self):
        return self.tree


class Files(Mtree):
    def __init__(self, rng, hostile):
        super().__init__(rng, hostile)
        self.tree = lib.FileTree()

    def leaf(self):
        meta = gen.meta(self.rng, self.hostile, 1)
        return model.build_metadata(meta), model.digest(meta.flat())

    def value(self, obj):
        obj.ensure_mapped()
        return model.digest(model.dump_metadata(obj))

    def add(self, path, obj):
        self.tree.add_metadata(lib.P(posix(path)), obj)

    def remove(self, path):
        self.tree.mtree.remove_child_at(lib.P(posix(path)))

    def node(self, path):
        return self.tree.mtree.get_object_at_path(lib.P(posix(path)))

    def contains(self, path):
        return lib.P(posix(path)) in self.tree

    def get(self, path):
        m = self.tree.get_metadata(lib.P(posix(path)))
        return None if m is None else self.value(m)

    def reload(self, realm, ref):
        self.tree = lib.FileTree(None, realm, ref)

    def root(self):
        return self.tree.mtree


class Datasets(Files):
    def __init__(self, rng, hostile):
        Mtree.__init__(self, rng, hostile)
        self.tree = lib.DatasetTree()

    def leaf(self):
        mrr = gen.mrr(self.rng, self.hostile, 1)
        return model.build_mrr(mrr), model.digest(mrr.flat())

    def value(self, obj):
        return model.digest(model.dump_mrr(obj))

    def add(self, path, obj):
        assert path[-1] == gen.MRR_NAME
        self.tree.add_dataset(lib.P(posix(path[:-1])), obj)

    def remove(self, path):
        self.tree.delete_subtree(lib.P(posix(path)))

    def contains(self, path):
        return lib.P(posix(path)) in self.tree

    def get(self, path):
        m = self.tree.get_metadata_root_record(lib.P(posix(path)))
        return None if m is None else self.value(m)

    def reload(self, realm, ref):
        self.tree = lib.DatasetTree(None, realm, ref)


def run_case(case, ctx):
    rng = gen.rng_for("c09", case["seed"])
    realm = ctx.repo("repo")
    kind = case["kind"]
    cls = {"mtree": Mtree, "files": Files, "datasets": Datasets}[kind]
    real, m = cls(rng, case["hostile"]), Tree()
    names = [gen.name(rng, case["hostile"]) for _ in range(6)]
    names = [n for n in names if gen.valid_name(n)] + ["a", "a-b", "a.b", "a0"][:rng.randint(1, 4)]
    saved = [None]      # (reference, model leaves)

    def some_path():
        existing = list(m.leaves()) + list(m.inner() - {()})
        r = rng.random()
        if existing and r < 0.55:
            p = rng.choice(existing)
            r = rng.random()
            if r < 0.3:
                p = p[:rng.randint(1, len(p))]
            elif r < 0.5:
                p = p + (rng.choice(names),)
            if kind == "datasets":
                p = tuple(x for x in p if x != gen.MRR_NAME) or (names[0],)
            return p
        return tuple(rng.choice(names) for _ in range(rng.randint(1, 4)))

    def compare(what):
        got = [tuple(model.parts(p)) for p, _ in real.paths(False)]
        check(len(set(got)) == len(got), f"{what}: a path is enumerated twice")
        expected = set(m.leaves())
        check(set(got) == expected,
              f"{what}: enumeration reports {sorted(set(got) ^ expected)[:3]} wrongly")
        ctx.count("enumerations")

    def values():
        for p, v in m.leaves().items():
            q = p[:-1] if kind == "datasets" else p
            check(real.get(q) == v, f"element at {q} is not the one that was added")
            ctx.count("lookups")

    def refused(fn, what):
        """fn must raise, and must not change anything"""
        try:
            fn()
        except Exception:
            ctx.count("refusals")
        else:
            raise Violation(f"{what} is not refused")
        compare(f"after refused {what}")

    ops = (["add"] * 10 + ["remove"] * 5 + ["lookup"] * 8 + ["subtree"] * 2 +
           ["write"] * 3 + ["purge"] * 4 + ["partial"] * 3 + ["reload"] * 2 +
           ["intermediate"] * 3 + ["values"] * 2)
    history = []
    for _ in range(60):
        op = rng.choice(ops)
        p = some_path()
        leaf_path = p + (gen.MRR_NAME,) if kind == "datasets" else p
        history.append(f"{op} {p}")
        ctx.log(op, p)
        ctx.count("operations")
        if op == "add":
            obj, value = real.leaf()
            if m.can_add(leaf_path):
                real.add(leaf_path, obj)
                m.add(leaf_path, value)
            else:
                there = real.node(leaf_path)
                if there is not None and rng.random() < 0.5:
                    # an element that is equal to the one that is there
                    ref = None if isinstance(there, lib.MTreeNode) else there.reference
                    if ref is not None and there.is_saved_on(realm):
                        obj = type(there).get_empty_instance(
                            realm, lib.Reference(ref.class_name, ref.location))
                        ctx.count("equal_additions")
                    else:
                        obj = there
                refused(lambda: real.add(leaf_path, obj), f"adding at {p}")
        elif op == "remove":
            if m.at(p) is not None:
                real.remove(p)
                m.remove(p)
            else:
                refused(lambda: real.remove(p), f"removing the missing {p}")
        elif op == "lookup":
            node = m.at(p)
            got = real.node(p)
            check((got is None) == (node is None),
                  f"path {p} is {'found' if got is not None else 'not found'}")
            check(isinstance(got, lib.MTreeNode) == isinstance(node, dict),
                  f"node at {p} has the wrong kind")
            if kind == "datasets":
                value = m.at(leaf_path)
                check(real.contains(p) == (value is not None),
                      f"membership of {p} is wrong")
                check(real.get(p) == value, f"dataset at {p} is wrong")
            else:
                check(real.contains(p) in (None, node is not None),
                      f"membership of {p} is wrong")
                if not isinstance(node, dict):
                    check(real.get(p) == node, f"element at {p} is wrong")
            ctx.count("lookups")
        elif op == "subtree":
            sub, sub_m = cls(rng, case["hostile"]), Tree()
            for _ in range(rng.randint(1, 3)):
                q = tuple(rng.choice(names) for _ in range(rng.randint(1, 2)))
                if kind == "datasets":
                    q += (gen.MRR_NAME,)
                obj, value = sub.leaf()
                if sub_m.can_add(q):
                    sub.add(q, obj)
                    sub_m.add(q, value)

            def add():
                if kind == "datasets":
                    real.tree.add_subtree(sub.tree, lib.P(posix(p)))
                else:
                    real.root().add_child_at(sub.root(), lib.P(posix(p)))
            if m.can_add(p):
                add()
                m.add(p, sub_m.root)
            else:
                refused(add, f"adding a subtree at {p}")
        elif op == "write":
            ref = real.tree.write_out(realm)
            saved[0] = (ref, m.leaves())
        elif op == "purge":
            saved[0] = (real.tree.write_out(realm), m.leaves())
            real.tree.purge()
            m.drop_empty()
            ctx.count("purges")
        elif op == "partial":
            node = real.node(p)
            if node is not None:
                node.write_out(realm)
                node.purge()
                if isinstance(m.at(p), dict):
                    m.drop_empty(m.at(p))
                ctx.count("purges")
        elif op == "reload":
            ref = real.tree.write_out(realm)
            real.reload(realm, lib.Reference("MTreeNode", ref.location))
            m.drop_empty()
            ctx.count("reloads")
        elif op == "intermediate":
            got = []
            for q, node in real.paths(True):
                got.append((tuple(model.parts(q)), isinstance(node, lib.MTreeNode)))
            expected = ({(q, True) for q in m.inner()}
                        | {(q, False) for q in m.leaves()})
            check(len(got) == len(set(got)) and set(got) == expected,
                  f"enumeration with intermediate nodes reports "
                  f"{sorted(set(got) ^ expected)[:3]} wrongly")
            ctx.count("enumerations")
        else:
            values()
        compare(f"after {op} {p}")
        if kind == "datasets" and rng.random() < 0.3:
            got = sorted(tuple(model.parts(q)) for q, _ in real.tree.dataset_paths)
            check(got == sorted(q[:-1] for q in m.leaves()),
                  "dataset enumeration is wrong")
        ctx.saw(sorted(m.leaves().items()))
    values()
    # an independent view of the final tree
    ref = real.tree.write_out(realm)
    m.drop_empty()
    if m.root:
        out = store.git(realm, "ls-tree", "-r", "-z", "--name-only", ref.location)
        got = {tuple(x.split("/")) for x in out.split("\0") if x}
        check(got == set(m.leaves()), f"stored tree has other paths: "
                                      f"{sorted(got ^ set(m.leaves()))[:3]}")
    else:
        check(ref.is_none_reference(), "empty tree is not stored as empty")
    ctx.sample = "; ".join(history[:12])
