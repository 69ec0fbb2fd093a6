"""
C17: write_documents writes what the workspace holds, where it was asked to, and changes nothing.

Every case is a history: a workspace is built, documents and document mappings are requested, then a
script of write / grow steps is played.  After every write step the files are exactly the ones the
model predicts, every file is what a document built independently from the same parts is written as,
and the workspace is as it was: all references, parents, orders and look-ups.
"""
import itertools
import os
import shutil
import tempfile
import xml.etree.ElementTree as ElementTree

from mc.harness import attempt, run
from mc.names import UNUSUAL
import autosar.base as ar_base
from autosar.xml import document as ar_document
from autosar.xml import element as ar
from autosar.xml import reader as ar_reader
from autosar.xml import workspace as ar_workspace
from autosar.xml import writer as ar_writer

NS = "{http://autosar.org/schema/r4.0}"

# name of element -> how it is made
ELEMENTS = {
    "u": lambda n: ar.Unit(n, display_name="km"),
    "b": lambda n: ar.SwBaseType(n, size=8),
    "a": lambda n: ar.ApplicationSoftwareComponentType(n),    # holds a port
    "c": lambda n: ar.CompositionSwComponentType(n),
    "i": lambda n: ar.SwcImplementation(n),
}
# package tree: path -> element names ("kind:name"), in order of creation
TREES = {
    "nested": [("/P", ["u:U", "u:U_I", "b:B", "u:UI"]), ("/P/S", ["b:B"]), ("/P/S/T", ["u:U"]), ("/Q", []),
               ("/Q/S", ["u:A"]), ("/PS", ["b:X"])],
    "plain": [("/Q", ["u:U"]), ("/P", ["a:C", "i:C_I", "c:B", "i:B_I", "i:C_J", "u:C_K"]), ("/P/S", [])],
    "late": [("/P/S/T", ["u:U"]), ("/P/S", ["a:A_I", "a:A", "i:A_J", "a:A_I_I"]), ("/P", ["b:B"]), ("/Q/S", ["b:B"])],
}
# many packages, and many elements whose names differ in the case of letters, in length or in digits
PARTS = ["_b", "_B", "_10", "_2", "_1", "__x", "_b_b", "b", "B", "_I", "_i", "_"]
WIDE = {"wide": [("/P", ["a:A", *("i:A" + s for s in PARTS), "a:a", "i:a_B", "i:a_b", "a:Ab_b"]),
                 *((f"/W{n}", [f"u:U{n}"]) for n in range(24)), *((f"/W1/S{n}", [f"b:B{n}"]) for n in range(12)),
                 ("/D" * 14, ["a:Deep", "i:Deep_I"]), ("/" + "Long" * 40, ["u:" + "Name" * 40, "a:" + "Name" * 39]), ("/M", [f"a:T{n}" for n in range(24)])]}
GROW = {"element": lambda t: t + [("/P", ["u:ZZ"])], "package": lambda t: t + [("/P/S/N", ["b:B"]), ("/Q/N", [])],
        "first": lambda t: t + [("/P", ["u:AA", "i:ZZ_I"])]}


MARK = [""]                       # settings of all packages and elements there are, changed by the step "change"


def make(spec):
    """element of 'kind:name'"""
    kind, name = spec.split(":")
    elem = ELEMENTS[kind](name)
    if kind == "a":
        elem.create_provide_port("Port" + name, ar.ParameterInterface("I"))
    if MARK[0]:
        change(elem)
    return elem


def change(elem):
    """Give an element other settings and more content"""
    elem.category = "CAT" + MARK[0]
    if isinstance(elem, ar.ApplicationSoftwareComponentType):
        elem.create_provide_port("New" + elem.name, ar.ParameterInterface("I"))


class Tree:
    """Model of a package tree: ordered children"""

    def __init__(self, entries):
        self.top = {}                     # name -> node
        for path, specs in entries:
            node = self.node(path, True)
            for spec in specs:
                node["elements"][spec.split(":")[1]] = spec

    def node(self, path, create=False):
        children, node = self.top, None
        for name in path.strip("/").split("/"):
            if name not in children:
                if not create:
                    return None
                children[name] = {"name": name, "elements": {}, "packages": {}}
            node = children[name]
            children = node["packages"]
        return node


def fill(collection, entries):
    """Put packages and elements into a workspace or document"""
    for path, specs in entries:
        package = collection.make_packages(path)
        for spec in specs:
            package.append(make(spec))


def decorate(package):
    """Packages have more than a name and content"""
    package.category = "CAT_" + package.name + MARK[0]


def pack(node):
    """The whole package, built anew"""
    package = ar.Package(node["name"])
    decorate(package)
    for spec in node["elements"].values():
        package.append(make(spec))
    for sub in node["packages"].values():
        package.append(pack(sub))
    return package


def walk(collection, prefix=""):
    for package in collection.packages:
        path = prefix + "/" + package.name
        yield path, package
        for elem in package.elements:
            yield path + "/" + elem.name, elem
        yield from walk(package, path)


def snapshot(workspace):
    return [(path, id(item), id(item.parent), str(item.ref()), workspace.find(path) is item)
            for path, item in walk(workspace)]


def expected_document(tree, refs, version):
    """-> (document, None) or (None, ValueError expected)"""
    paths = []
    for ref in refs:
        parts = [p for p in ref.split("/") if p]
        node = tree.node(ref) if parts else None
        if node is None:
            parent = tree.node("/".join(parts[:-1])) if len(parts) > 1 else None
            if parent is not None and parts[-1] in parent["elements"]:
                return None
            continue                       # nothing there (yet): nothing is written
        path = "/" + "/".join(parts)
        if path not in paths:
            paths.append(path)
    document = ar_document.Document(schema_version=version)
    for path in paths:
        if any(path.startswith(other + "/") for other in paths):
            continue
        head = path.rpartition("/")[0]
        parent = document.make_packages(head) if head else document
        parent.append(pack(tree.node(path)))
    return document


def expected_mapping(tree, ref, kinds, suffixes, version):
    """-> {file name: document}"""
    node = tree.node(ref)
    files = {}
    if node is None:
        return files
    for name, spec in node["elements"].items():
        if spec[0] not in kinds:
            continue
        names = {name} | {name + s for s in suffixes if s and name + s in node["elements"]}
        document = ar_document.Document(schema_version=version)
        package = document.make_packages("/" + "/".join(p for p in ref.split("/") if p))
        for item in sorted(names):
            package.append(make(node["elements"][item]))
        files[name + ".arxml"] = document
    return files


TYPES = {"SwComponentType": (ar.SwComponentType, "ac"), "Unit": (ar.Unit, "u"), "pair": ((ar.Unit, ar.SwBaseType), "ub"),
         "ARElement": (ar.ARElement, "ubaci"), "Package": (ar.Package, ""),
         "Composition": ((ar.CompositionSwComponentType,), "c"), "SwcImplementation": (ar.SwcImplementation, "i")}


def tree_of(text):
    """[(path, [element names])] by another parser than the library's"""
    res = []

    def visit(node, prefix):
        for package in node.findall(f"{NS}AR-PACKAGES/{NS}AR-PACKAGE"):
            path = prefix + "/" + package.findtext(f"{NS}SHORT-NAME")
            elements = package.find(f"{NS}ELEMENTS")
            res.append((path, [e.findtext(f"{NS}SHORT-NAME") for e in elements] if elements is not None else []))
            visit(package, path)

    visit(ElementTree.fromstring(text), "")
    return res


def tree_of_document(document):
    return [(path, [e.name for e in item.elements]) for path, item in walk(document) if isinstance(item, ar.Package)]


def judge(data):
    scratch = tempfile.mkdtemp(prefix="mc-c17-")
    old = os.getcwd()
    try:
        os.chdir(scratch)
        return play(data, scratch)
    finally:
        os.chdir(old)
        shutil.rmtree(scratch, ignore_errors=True)


def play(data, scratch):
    entries = list((TREES | WIDE)[data["tree"]])
    roots = [data.get("dir", "out")]
    root = os.path.join(scratch, roots[0])
    os.makedirs(os.path.join(root, "sub"))
    how = data.get("root", "constructor")
    MARK[0] = ""
    workspace = ar_workspace.Workspace(document_root=root if how == "constructor" else None)
    if how == "set":
        workspace.set_document_root(os.path.join(scratch, "nowhere"))
        workspace.set_document_root(root)
    elif how == "relative":
        workspace.set_document_root(roots[0])
    elif how == "none":
        os.chdir(root)
    fill(workspace, entries)
    for path, item in walk(workspace):
        if isinstance(item, ar.Package):
            decorate(item)

    def request():
        for name, refs in data["documents"]:
            if refs == "single":
                workspace.create_document(name, "/P")
            elif refs is None:
                workspace.create_document(name)
            else:
                workspace.create_document(name, list(refs))
        for ref, types, suffixes in data.get("mappings", ()):
            workspace.create_document_mapping(ref, TYPES[types][0], suffixes)

    if data.get("when") != "late":
        request()
    requested = data.get("when") != "late"
    for num, step in enumerate(data["script"]):
        kind, _, arg = step.partition(":")
        if kind == "change":
            MARK[0] = "_" + arg
            for path, item in walk(workspace):
                if isinstance(item, ar.Package):
                    decorate(item)
                else:
                    change(item)
            continue
        if kind == "grow":
            more = GROW[arg]([])
            entries = entries + more
            fill(workspace, more)
            for path, item in walk(workspace):
                if isinstance(item, ar.Package):
                    decorate(item)
            continue
        if kind == "root":            # from here on elsewhere
            roots.append(arg)
            root = os.path.join(scratch, arg)
            os.makedirs(os.path.join(root, "sub"))
            workspace.set_document_root(root)
            continue
        if not requested:
            request()
            requested = True
        version = int(arg) if arg else ar_base.DEFAULT_SCHEMA_VERSION
        tree = Tree(entries)
        files, error = {}, False
        for name, refs in data["documents"]:
            refs = ["/P"] if refs == "single" else refs or []
            document = expected_document(tree, refs, version)
            if document is None:
                error = True
                break
            files[os.path.normpath(name)] = document
        if not error:
            for ref, types, suffixes in data.get("mappings", ()):
                suffixes = [suffixes] if isinstance(suffixes, str) else suffixes
                files.update(expected_mapping(tree, ref, TYPES[types][1], suffixes, version))
        before = snapshot(workspace)
        others = contents(scratch, root)
        for path, dirs, names in os.walk(root):
            for name in names:
                os.unlink(os.path.join(path, name))
        if arg:
            _, ex = attempt(workspace.write_documents, schema_version=version) if num % 2 else \
                attempt(workspace.write_documents, version)
        else:
            _, ex = attempt(workspace.write_documents)
        if contents(scratch, root) != others:
            return f"step {num} {step}: files outside the document root have changed"
        if error != isinstance(ex, ValueError) or not error and ex is not None:
            return f"step {num} {step}: {ex!r}"
        if snapshot(workspace) != before:
            return f"step {num} {step}: writing changed the workspace"
        if any(not item[4] for item in before):
            return f"step {num}: {[i[0] for i in before if not i[4]]} cannot be found"
        got = sorted(os.path.relpath(os.path.join(path, name), root)
                     for path, _, names in os.walk(root) for name in names)
        if got != sorted(files):
            return f"step {num} {step}: files {got}, expected {sorted(files)}"
        if sorted(os.listdir(scratch)) != sorted({name.split("/")[0] for name in roots}):
            return f"step {num} {step}: files outside the document root: {sorted(os.listdir(scratch))}"
        for name, document in files.items():
            with open(os.path.join(root, name), encoding="utf-8") as fh:
                text = fh.read()
            if f"AUTOSAR_{version:05d}.xsd" not in text:
                return f"step {num} {step}: {name} is not of schema version {version}"
            if tree_of(text) != tree_of_document(document):
                return f"step {num} {step}: {name} holds {tree_of(text)}, expected {tree_of_document(document)}"
            if text != ar_writer.Writer().write_str(document, skip_root_attr=False):
                return f"step {num} {step}: {name} differs from what the document has to be: {text!r}"
            copy = ar_reader.Reader().read_file(os.path.join(root, name))
            if tree_of_document(copy) != tree_of_document(document):
                return f"step {num} {step}: {name} is read as {tree_of_document(copy)}"
            for path, item in walk(copy):
                original = workspace.find(path)
                if original is None or str(original.ref()) != path or type(original) is not type(item):
                    return f"step {num} {step}: {path} of {name} is {original!r} in the workspace"
    return None


def contents(folder, without):
    """What is in the files of a folder, except those of another folder in it"""
    res = {}
    for path, dirs, names in os.walk(folder):
        dirs[:] = [d for d in dirs if os.path.join(path, d) != without]
        for name in names:
            with open(os.path.join(path, name), "rb") as fh:
                res[os.path.join(path, name)] = fh.read()
    return res


REFS = ["/P", "/Q", "/P/S", "/P/S/T", "/Q/S", "/PS", "/none", "P/S", "/P/", "/P/S/none"]
SUFFIXES = [[], "_I", ["_I"], ["_I", "_J"], ["_J", "_K", "_I"], ["", "_I"], ["_none"], ["I"]]
SCRIPTS = [["write"], ["write", "write"], ["write:51", "write"], ["write", "grow:element", "write"],
           ["grow:package", "write", "grow:first", "write:48"], ["write", "change:1", "write", "grow:first", "write"]]
VERSIONS = sorted({getattr(ar_base, n) for n in ("DEFAULT_SCHEMA_VERSION",)} | {48, 49, 50, 51})


def groups(thorough):
    for tree in TREES:
        for num in range(len(SCRIPTS)):
            for part in range(4 if thorough else 2):
                yield ["single", tree, num, part, 4 if thorough else 2]
        for num in range(len(REFS)):
            yield ["double", tree, num]
        for types in TYPES:
            yield ["mapping", tree, types]
    yield ["forms"]
    yield ["wide"]


def cases(group, thorough):
    for data in _cases(group, thorough):
        yield " ".join(f"{k}={v}" for k, v in data.items()), data, None, len(data["script"])


def _cases(group, thorough):
    if group[0] == "single":
        _, tree, script, part, parts = group
        deep = 4 if thorough else 3
        lists = [refs for n in range(deep + 1) for refs in itertools.product(REFS, repeat=n)]
        if not thorough and script not in (1, 5):
            lists = [refs for refs in lists if len(refs) < 3]
        for num, refs in enumerate(lists):
            if num % parts == part:
                yield {"tree": tree, "documents": [("D.arxml", refs)], "script": SCRIPTS[script]}
    elif group[0] == "double":
        _, tree, first = group
        ends = [refs for n in range(1, 3) for refs in itertools.product(REFS[:6] if not thorough else REFS, repeat=n)]
        for refs in ends:
            for more in ([], [REFS[0]], [REFS[2]]) if not thorough else ([], *[[r] for r in REFS]):
                for name in ("E.arxml", "D.arxml"):
                    if name == "D.arxml" and len(refs) > 1:
                        continue
                    yield {"tree": tree, "documents": [("D.arxml", [REFS[first], *more]), (name, refs)],
                           "script": SCRIPTS[1]}
    elif group[0] == "mapping":
        _, tree, types = group
        for ref in REFS:
            for suffixes in SUFFIXES:
                for script in SCRIPTS[1:]:
                    yield {"tree": tree, "documents": [], "mappings": [(ref, types, suffixes)], "script": script}
                for other in TYPES if thorough else ("SwComponentType", types):
                    for ref2 in ("/P", "/P/S"):
                        yield {"tree": tree, "documents": [("D.arxml", ["/P"])], "script": SCRIPTS[1],
                               "mappings": [(ref, types, suffixes), (ref2, other, "_I")]}
    elif group[0] == "wide":
        tops, subs = [f"/W{n}" for n in range(24)], [f"/W1/S{n}" for n in range(12)]
        for n in range(1, 25):
            for order in (1, -1):
                for refs in (tops[:n], [*tops[24 - n:], "/P"], [*subs[:n], *tops[2:n]], [*subs[:n], "/W1"], tops[:n] * 2):
                    yield {"tree": "wide", "documents": [("D.arxml", refs[::order])], "script": SCRIPTS[5]}
            yield {"tree": "wide", "documents": [(f"D{k}.arxml", [tops[k], subs[k % 12]]) for k in range(n)], "script": SCRIPTS[1]}
            yield {"tree": "wide", "documents": [("D.arxml", ["/D" * min(n, 14), "/D" * 3])], "script": SCRIPTS[1]}
            yield {"tree": "wide", "documents": [("D.arxml", ["/" + "Long" * 40, *tops[:n]])], "script": SCRIPTS[1]}
            yield {"tree": "wide", "documents": [], "mappings": [("/" + "Long" * 40, "ARElement", "_I")], "script": SCRIPTS[1]}
            yield {"tree": "wide", "documents": [], "mappings": [("/D" * min(n, 14), "ARElement", ["_I"])], "script": SCRIPTS[1]}
        for n in range(len(PARTS) + 1):
            for suffixes in itertools.permutations(PARTS, n) if n < 4 else (PARTS[:n], PARTS[n - 12:], PARTS[:n][::-1]):
                if n < 3 or thorough or n > 3 or suffixes[0] in ("_b", "_10"):
                    for types in TYPES if n < 3 else ("SwComponentType",):
                        yield {"tree": "wide", "documents": [], "mappings": [("/P", types, list(suffixes))], "script": SCRIPTS[0]}
        for suffixes in (["_1"], ["1", "2"]):
            for script in SCRIPTS[:5]:
                yield {"tree": "wide", "documents": [], "mappings": [("/M", "SwComponentType", suffixes)], "script": script}
        for ref, other in itertools.permutations(["/P", "/M", "/D" * 14], 2):
            yield {"tree": "wide", "documents": [], "mappings": [(ref, "ARElement", PARTS), (other, "SwComponentType", ["_I"])],
                   "script": SCRIPTS[1]}
    else:
        for tree in TREES:
            for root in ("constructor", "set", "relative", "none"):
                for refs in ("single", None, ["/P"], ["/Q", "/P"], [], ["/none"]):
                    for name in ("D.arxml", "sub/D.arxml", "D", "sub/../D.xml"):
                        for when in ("early", "late"):
                            yield {"tree": tree, "documents": [(name, refs)], "root": root, "script": SCRIPTS[4],
                                   "when": when, "mappings": [("/P", "SwComponentType", "_I")] if when == "late" else []}
            for what in UNUSUAL:
                for root in ("constructor", "set", "relative", "none"):
                    for folder, name in ((what, "D.arxml"), ("out", what), ("out", what + ".arxml"), ("out", "sub/" + what),
                                         (what + "/" + what, what), (what, f"./sub//../{what}.xml")):
                        yield {"tree": tree, "documents": [(name, ["/P"])], "root": root, "dir": folder, "script": SCRIPTS[0],
                               "mappings": [("/P", "SwComponentType", "_I")]}
            for root in ("constructor", "set", "relative", "none"):
                for script in (["write", "root:new", "write"], ["root:new", "write", "root:new2/deep", "write:48"],
                               ["write", "root:new", "grow:element", "write", "change:1", "root:out2", "write"]):
                    for names in (["D.arxml"], ["sub/D.arxml", "E.arxml"], []):
                        yield {"tree": tree, "documents": [(n, ["/P", "/Q"][k:]) for k, n in enumerate(names)], "root": root,
                               "script": script, "mappings": [("/P", "SwComponentType", "_I")]}
            for version in VERSIONS:
                for second in VERSIONS:
                    yield {"tree": tree, "documents": [("D.arxml", ["/P/S", "/Q"])], "script":
                           [f"write:{version}", f"write:{second}"], "mappings": [("/P", "ARElement", ["_I"])]}
            for ref in ("/P/U", "/P/S/A", "/P/C", "/P/B", "P/B"):
                for others in ([], ["/P"]):
                    for order in (1, -1):
                        yield {"tree": tree, "documents": [("C.arxml", ["/Q"]), ("D.arxml", [ref, *others][::order])],
                               "script": SCRIPTS[0]}


if __name__ == "__main__":
    run("C17", groups, cases, judge, environment="workspace", threads="documents", assumptions=[
        "a reference to a package that does not exist (yet) is skipped, as documented by the code's own condition",
        "packages above a written package hold nothing but their name in the written document"])
