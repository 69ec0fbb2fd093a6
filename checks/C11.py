"""
Package tree: explicit-state exploration of the operations that build a tree of packages.
The model is a nested list of names.  Every transition (state, operation) of the bounded
state space is replayed on the real code, followed by a comparison of the whole tree and
of every query with the model.  All operation sequences up to a smaller length are run
without merging of states as well.
"""
import itertools
import re

import autosar.xml.document as ar_document
import autosar.xml.element as ar
import autosar.xml.workspace as ar_workspace
from autosar.xml.exception import DuplicateElement
from mc.harness import attempt, run

NAMES = ("A", "B")
DEPTH = 3                      # deepest package
ROOTS = {"doc": ar_document.Document, "ws": ar_workspace.Workspace}
ELEM = ((ar.SwBaseType, ar.SwBaseTypeRef), (ar.Unit, ar.UnitRef))


def elem_of(name):
    """Class of the elements of that name, and of references to them"""
    return ELEM[(sum(map(ord, name)) + 1) % 2]


# Model: a container is a tuple of (name, None) for elements and (name, container) for packages, in order of
# insertion.

def lookup(tree, path):
    """-> container | None (element) ; KeyError when there is nothing"""
    for name in path:
        if tree is None:
            raise KeyError(path)
        tree = dict(tree)[name]
    return tree


def insert(tree, path, item):
    if not path:
        if item[0] in dict(tree):
            raise DuplicateElement(item[0])
        return tree + (item,)
    return tuple((n, insert(sub, path[1:], item)) if n == path[0] else (n, sub) for n, sub in tree)


def make(tree, base, ref):
    """-> (tree, KeyError | None): what the packages of ref are to be"""
    path = list(base)
    for name in ref.split("/"):
        here = dict(lookup(tree, path))
        if name not in here:
            tree = insert(tree, path, (name, ()))
        elif here[name] is None:
            return tree, KeyError
        path.append(name)
    return tree, None


def packages(tree, path=()):
    yield path
    for name, sub in tree:
        if sub is not None:
            yield from packages(sub, path + (name,))


def size(tree):
    return sum(1 + (size(sub) if sub else 0) for _, sub in tree)


FILLED = (("B", None), ("A", (("A", None),)))


def operations(tree):
    for path in packages(tree):
        p = "/".join(path)
        for name in NAMES:
            if len(path) < DEPTH:
                yield ("package", p, name)
                yield ("create", p, name)
                if len(path) < DEPTH - 1:
                    yield ("filled", p, name)
            if path:
                yield ("element", p, name)
        for ref in ("A", "A/B", "B/A", "A/A/A"):
            if len(path) + len(ref.split("/")) <= DEPTH:
                yield ("make", p, ref)
                if not path:
                    yield ("make", p, "/" + ref)
        yield ("other", p, None)
    yield ("makes", "", ("A/B", "/B", "A"))
    yield ("makes", "", ())
    yield ("makes", "", ("A", "/A"))
    yield ("makes", "", ("A/B", "A", "A/B", "A/B"))


def step(tree, op):
    """-> (tree, exception class | None)"""
    kind, where, arg = op
    path = tuple(where.split("/")) if where else ()
    try:
        if kind in ("package", "create"):
            return insert(tree, path, (arg, ())), None
        if kind == "filled":
            return insert(tree, path, (arg, rename(FILLED))), None
        if kind == "element":
            return insert(tree, path, (arg, None)), None
        if kind == "make":
            return make(tree, path, arg.lstrip("/"))
        if kind == "makes":
            for ref in arg:
                tree, ex = make(tree, (), ref.lstrip("/"))
                if ex:
                    return tree, ex
            return tree, None
    except DuplicateElement:
        return tree, ValueError if kind == "create" else DuplicateElement
    assert kind == "other"
    return tree, TypeError


# The real code

NAMED = list(NAMES)            # what A and B are called


def rename(item):
    """The same operation or tree with other names"""
    if isinstance(item, (tuple, list)):
        return tuple(rename(x) for x in item)
    return item and "/".join(NAMED[NAMES.index(n)] if n in NAMES else n for n in item.split("/"))



def path_ref(path):
    return "/" + "/".join(path)


def apply(root, op):
    """-> (result, exception, objects that were to be added, path of each when it was)"""
    kind, where, arg = op
    target = root if not where else root.find("/" + where)
    if kind == "package":
        item = ar.Package(arg)
        return attempt(target.append, item) + (item,)
    if kind == "filled":
        item = ar.Package(arg)
        first, second = NAMED[:2]
        item.append(elem_of(second)[0](second))
        item.make_packages(first).append(elem_of(first)[0](first))
        return attempt(target.append, item) + (item,)
    if kind == "element":
        item = elem_of(arg)[0](arg)
        return attempt(target.append, item) + (item,)
    if kind == "create":
        res, ex = attempt(target.create_package, arg)
        return res, ex, None
    if kind == "make":
        res, ex = attempt(target.make_packages, arg)
        return res, ex, None
    if kind == "makes":
        res, ex = attempt(target.make_packages, *arg)
        return res, ex, None
    res, ex = attempt(target.append, ar.VariableDataPrototype("A"))
    return res, ex, None


def same(real, tree, path, root):
    """Compares a real container and everything in it with the model"""
    want_e = [n for n, sub in tree if sub is None]
    want_p = [n for n, sub in tree if sub is not None]
    got_p = [x.name for x in real.packages]
    if got_p != want_p:
        return f"packages of {path_ref(path)}: {got_p}, expected {want_p}"
    if path:
        got_e = [x.name for x in real.elements]
        if got_e != want_e:
            return f"elements of {path_ref(path)}: {got_e}, expected {want_e}"
        if not isinstance(real, ar.Package) or type(real.ref()) is not ar.PackageRef \
                or str(real.ref()) != path_ref(path):
            return f"ref() of {path_ref(path)} is {real.ref()}"
        for pattern in patterns():
            want = [n for n in want_e if re.match(pattern, n)]
            for p in (pattern, re.compile(pattern)):
                got = [x.name for x in real.filter_regex(p)]
                if got != want:
                    return f"filter_regex({p}) of {path_ref(path)}: {got}, expected {want}"
            anycase = re.compile(pattern, re.IGNORECASE)
            got = [x.name for x in real.filter_regex(anycase)]
            if got != [n for n in want_e if anycase.match(n)]:
                return f"filter_regex({anycase}) of {path_ref(path)}: {got}"
        for names in (), NAMED[:1], NAMED[::-1], ["X", NAMED[1], NAMED[1]], NAMED[1:], [n[:-1] for n in NAMED], [NAMED[0] + "X"]:
            got = [x.name for x in real.filter(*names)]
            if got != [n for n in want_e if n in names]:
                return f"filter{names} of {path_ref(path)}: {got}"
        for elem in real.elements:
            cls, ref = elem_of(elem.name)
            if not isinstance(elem, cls) or elem.parent is not real or elem.root_collection() is not root:
                return f"{path_ref(path)}/{elem.name}: wrong object, parent or root"
            if type(elem.ref()) is not ref or str(elem.ref()) != path_ref(path + (elem.name,)):
                return f"ref() of {path_ref(path + (elem.name,))} is {elem.ref()}"
    for sub in real.packages:
        if sub.parent is not real or sub.root_collection() is not root:
            return f"parent or root of {path_ref(path)}/{sub.name} is wrong"
        msg = same(sub, dict(tree)[sub.name], path + (sub.name,), root)
        if msg:
            return msg
    return None


def patterns():
    yield from ("X?$", ".", "")
    for name in NAMED[:3]:
        plain = re.escape(name)
        yield from (plain, plain + "$", plain + "X?$", re.escape(name[:-1]), re.escape(name[1:]), re.escape(name[:1]), ".*" + re.escape(name[-1]),
                    "(?i)" + plain, ".{%d}$" % len(name))
    yield "|".join(re.escape(n) for n in NAMED)


def holder(root, path):
    """The object at a path, by walking through the lists"""
    here = root
    for name in path:
        here = [x for x in list(here.packages) + list(getattr(here, "elements", ())) if x.name == name]
        if len(here) != 1:
            return None
        here = here[0]
    return here


def paths(tree, path=()):
    """All paths of a tree, and similar ones"""
    for name, sub in tree:
        here = path + (name,)
        yield here
        yield here + ("X",)
        yield here + (name,)
        yield path + (name + "X",)
        yield path + (name.swapcase(),)
        yield path[:-1] + (name,)
        yield path[1:] + (name,)
        if name[1:]:
            yield path + (name[:-1],)
            yield path + (name[1:],)
        yield from paths(sub or (), here)


def queries(root, tree):
    for n in range(1, DEPTH + 3) if len(NAMED) == 2 else (0,):
        for path in itertools.product(NAMED + (["X"] if n == 1 else []), repeat=n) if n else paths(tree):
            try:
                lookup(tree, path)
                want = holder(root, path)
            except KeyError:
                want = None
            text = "/".join(path)
            refs = [text, "/" + text]
            if n in (0, 2):
                refs.append(ar.PackageRef("/" + text))
            for ref in refs:
                got = root.find(ref)
                if got is not want:
                    return f"find({str(ref)!r}) gives {getattr(got, 'name', got)!r} expected {want and path_ref(path)}"
            if len(path) > 1 and isinstance(holder(root, path[:1]), ar.Package):
                for rest in ("/".join(path[1:]), "/" + "/".join(path[1:])):
                    got = holder(root, path[:1]).find(rest)
                    if got is not want:
                        return f"{path[0]}.find({rest!r}) gives {got!r}"
    return None


def judge(data):
    NAMED[:] = data.get("names", NAMES)
    root = ROOTS[data["root"]]()
    tree = ()
    last = len(data["ops"]) - 1
    for i, op in enumerate(data["ops"]):
        op = tuple(tuple(x) if isinstance(x, list) else x for x in op)
        if len(NAMED) == 2:
            op = (op[0], *rename(op[1:]))
        known = {id(o) for o in objects(root)}
        before = tree
        tree, want_ex = step(tree, op)
        res, ex, item = apply(root, op)
        if (type(ex) if ex else None) is not want_ex and not (want_ex and isinstance(ex, want_ex)):
            return f"step {i} {op}: raised {ex!r}, expected {want_ex and want_ex.__name__}"
        if i < last and not data.get("all"):
            continue
        msg = same(root, tree, (), root) or queries(root, tree)
        if msg:
            return f"after step {i} {op}: {msg}"
        if tree == before and {id(o) for o in objects(root)} != known:
            return f"step {i} {op} replaced an object"
        where = tuple(op[1].split("/")) if op[1] else ()
        if item is not None and ex is None and holder(root, where + (op[2],)) is not item:
            return f"step {i} {op}: another object was added"
        if item is not None and ex is not None and (item.parent is not None or item.ref() is not None):
            return f"step {i} {op}: failed but set the parent"
        if op[0] in ("create", "make") and ex is None:
            if res is not holder(root, where + tuple(op[2].lstrip("/").split("/"))):
                return f"step {i} {op}: returned another object"
        if op[0] == "makes" and ex is None:
            want = [holder(root, r.lstrip("/").split("/")) for r in op[2]]
            if len(res) != len(want) or any(x is not y for x, y in zip(res, want)):
                return f"step {i} {op}: returned {res}"
    return None


def objects(root):
    for p in root.packages:
        yield p
        yield from getattr(p, "elements", ())
        yield from objects(p)


# Enumeration

PLAN = []
LIMIT = {False: (5, 6, 2), True: (7, 7, 3)}     # nodes in the tree, depth of merged search, length of sequences


# Other names: parts of each other, equal up to case, long ones, and words with a meaning elsewhere
OTHER = [("A", "AB"), ("AB", "A"), ("BA", "A"), ("a", "A"), ("A1", "A10"), ("_", "__"), ("A_B", "A"), ("x" * 40, "x" * 39), ("x" * 40, "x" * 41),
         ("packages", "elements"), ("name", "parent"), ("None", "0"), ("AR", "AUTOSAR"), ("A.B", "AxB"), ("Z" * 127, "Z" * 128), ("10", "2"),
         ("e", "\u00e9"), ("A-B", "A"), ("B", "A"), ("A*", "A+")]


def large(most):
    """Deep and wide trees, one operation after the other"""
    for n in range(2, most + 1):
        for names in ([f"N{i}" for i in range(n)], [f"N{n - i}" for i in range(n)], ["x" * (i + 1) for i in range(n)], ["x" * (n - i) for i in range(n)]):
            if n == 2:
                names = names + ["C"]
            yield names, [("create", "", name) for name in names] + [("package", "", name) for name in names]
            yield names, [("make", "", "/".join(names)), ("element", "/".join(names), names[0]), ("make", "", "/" + "/".join(names))]
            yield names, [("package", "/".join(names[:i]), name) for i, name in enumerate(names)] + [("create", "/".join(names[:-1]), names[-1])]
            yield names, [("create", "", "P")] + [("element" if i % 3 else "package", "P", name) for i, name in enumerate(names * 2)]
            yield names, [("makes", "", tuple(names)), ("makes", "", tuple("P/" + n for n in names)), ("makes", "", tuple(names[:2] * 3))]
            yield names, [("make", "", "P/" + "/".join(names[i:i + 3])) for i in range(n)]


def plan(thorough, limit=None):
    nodes, depth, length = limit or LIMIT[thorough]
    seen, front = {(): ()}, [()]
    out = []
    for _ in range(depth):
        new = []
        for tree in front:
            for op in operations(tree):
                nxt, ex = step(tree, op)
                ops = seen[tree] + (op,)
                out.append((ops, ex, False))
                if nxt not in seen and size(nxt) <= nodes:
                    seen[nxt] = ops
                    new.append(nxt)
        front = new

    def sequences(tree, ops):
        if len(ops) == length:
            out.append((ops, None, True))
            return
        for op in operations(tree):
            sequences(step(tree, op)[0], ops + (op,))
    sequences((), ())
    return out, len(seen)


def groups(thorough):
    PLAN[:], states = plan(thorough)
    run.states = states
    return [(r, i) for r in ROOTS for i in (*range(32), *OTHER, "large")]


def cases(group, thorough):
    rname, index = group
    if index == "large":
        for names, ops in large(32 if thorough else 16):
            for last in (False, True) if len(names) < 8 else (False,):
                yield f"{rname}: {len(names)} {names[:2]} {' ; '.join(map(str, ops))} {last}", {"root": rname, "ops": ops, "all": last, "names": names}, \
                    "large", len(ops)
        return
    if isinstance(index, tuple):
        for ops, ex, every in plan(thorough, (4, 4, 2) if thorough else (3, 3, 1))[0]:
            yield (f"{rname}: {index} {' ; '.join(map(str, ops))}", {"root": rname, "ops": ops, "all": every, "names": list(index)},
                   "other names", len(ops))
        return
    for n, (ops, ex, every) in enumerate(PLAN):
        if n % 32 == index:
            yield (f"{rname}: {' ; '.join(map(str, ops))}", {"root": rname, "ops": ops, "all": every},
                   ("sequence" if every else "rejected" if ex else "accepted"), len(ops))


if __name__ == "__main__":
    run("C11", groups, cases, judge,
        assumptions=["names from a two letter alphabet represent all names; three levels represent all depths",
                     "an object is put into one place only"])
