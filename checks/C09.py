"""
Documents and files: every package forest up to a size, built in every way, in every
schema version, written to a string and to a file and read from a string and a file,
is the same document; single elements are written as their fragment of the document.
"""
import itertools
import os
import tempfile
from xml.sax.saxutils import escape

import autosar.xml.element as ar
from mc import build as b
from mc import spec
from mc.cases import ordered
from mc.harness import quiet, run
from mc.names import UNUSUAL
from mc.spec import SPEC

VERSIONS = [45, 46, 47, 48, 49, 50, 51, 52, 53, 54]
# classes which have no reader or writer of their own outside their parent
NO_FRAGMENT = {"LanguageOverviewParagraph", "ValueGroup", "Package", "ExternalTriggeringPointIdent",
               "ModeAccessPointIdent", "ExclusiveArea"}
TYPED = {"ApplicationArrayElement"}
HOWS = ["constructor", "append", "create", "make", "bottom up"]


def forests(n):
    """All ordered forests with n nodes, as nested tuples"""
    if n == 0:
        yield ()
        return
    for first in range(1, n + 1):
        for kids in forests(first - 1):
            for rest in forests(n - first):
                yield (kids,) + rest


def elem(kind, name):
    return {"U": lambda: ar.Unit(name, factor=2.0),
            "C": lambda: ar.ConstantSpecification.make_constant(name, 7),
            "B": lambda: ar.SwBaseType(name, size=8)}[kind]()


def names(forest, elems, counter, prefix=""):
    """[(path, [element names], children)] preorder numbering"""
    out = []
    for kids in forest:
        n = next(counter)
        name = f"P{n}"
        here = f"{prefix}/{name}"
        out.append((here, [f"{k}{i}" for i, k in enumerate(elems[n % len(elems)])],
                    names(kids, elems, counter, here)))
    return out


def construct(how, plan, version):
    """Document for the plan"""
    def fill(pkg, kinds):
        for k in kinds:
            pkg.append(elem(k[0], k))

    def bottom_up(item):
        pkg = ar.Package(item[0].rpartition("/")[2])
        for k in item[2]:
            pkg.append(bottom_up(k))
        fill(pkg, item[1])
        return pkg

    def top_down(parent, item):
        pkg = ar.Package(item[0].rpartition("/")[2])
        if how == "append":
            parent.append(pkg)
        elif how == "create":
            pkg = parent.create_package(pkg.name)
        else:
            pkg = doc.make_packages(item[0])
        fill(pkg, item[1])
        for k in item[2]:
            top_down(pkg, k)

    if how == "constructor":
        return b.ar_document.Document([bottom_up(i) for i in plan], version)
    doc = b.ar_document.Document(schema_version=version)
    if how == "bottom up":
        for i in plan:
            doc.append(bottom_up(i))
    else:
        for i in plan:
            top_down(doc, i)
    return doc


def compare_tree(root, plan, version):
    """The XML tree is what the plan prescribes"""
    def node(item):
        n = spec.Node("AR-PACKAGE", children=[spec.Node("SHORT-NAME", "str", item[0].rpartition("/")[2])])
        if item[1]:
            n.children.append(spec.Node("ELEMENTS", children=[spec.ser(DESC[k[0]](k), None, version)
                                                              for k in item[1]]))
        if item[2]:
            n.children.append(spec.Node("AR-PACKAGES", children=[node(k) for k in item[2]]))
        return n
    want = spec.Node("AUTOSAR", "el", None, None,
                     [spec.Node("AR-PACKAGES", children=[node(i) for i in plan])] if plan else [])
    for key in list(root.attrib):
        del root.attrib[key]
    return b.tree_diff(want, root)


DESC = {"U": lambda n: {"c": "Unit", "p": {"name": n, "factor": 2.0}},
        "C": lambda n: {"c": "ConstantSpecification",
                        "p": {"name": n, "value": {"c": "NumericalValueSpecification", "p": {"value": 7}}}},
        "B": lambda n: {"c": "SwBaseType", "p": {"name": n, "size": 8}}}


def check_tree(doc, plan, version, who):    # pylint: disable=too-many-return-statements
    """Structure, back references and lookup of a document"""
    if doc.schema_version != version:
        return f"{who}: schema version {doc.schema_version} instead of {version}"

    def level(parent, packs, items):
        if [p.name for p in packs] != [i[0].rpartition("/")[2] for i in items]:
            return f"{who}: packages {[p.name for p in packs]} instead of {[i[0] for i in items]}"
        for p, (path, kinds, kids) in zip(packs, items):
            if p.parent is not parent:
                return f"{who}: parent of {path} is wrong"
            if str(p.ref()) != path or doc.find(path) is not p or doc.find(path[1:]) is not p:
                return f"{who}: {path} is referenced as {p.ref()} or not found"
            if [e.name for e in p.elements] != kinds:
                return f"{who}: elements of {path} are {[e.name for e in p.elements]}"
            for e in p.elements:
                if e.parent is not p or str(e.ref()) != f"{path}/{e.name}" or doc.find(e.ref()) is not e:
                    return f"{who}: {path}/{e.name} is referenced as {e.ref()} or not found"
            msg = level(p, p.packages, kids)
            if msg:
                return msg
        return None
    return level(doc, doc.packages, plan)


def judge(data):    # pylint: disable=too-many-return-statements,too-many-branches,too-many-locals
    if data["kind"] == "map":
        return judge_map(*data["refs"])
    if data["kind"] == "fragment":
        return judge_fragment(data["class"], data["params"])
    version = data["version"]
    plan = names(eval(data["forest"]), data["elems"], itertools.count())   # pylint: disable=eval-used
    doc = construct(data["how"], plan, version)
    msg = check_tree(doc, plan, version, "built")
    if msg:
        return msg
    writer = b.ar_writer.Writer()
    text = writer.write_str(doc, False)
    short = b.ar_writer.Writer().write_str(doc)
    head, line, rest = text.split("\n", 2) if text.count("\n") > 1 else (text, "", "")
    if head != '<?xml version="1.0" encoding="utf-8"?>':
        return f"first line is {head!r}"
    root = b.parse(text)
    want_attrs = {"{http://www.w3.org/2001/XMLSchema-instance}schemaLocation":
                  "http://autosar.org/schema/r4.0 AUTOSAR_%05d.xsd" % version}
    if dict(root.attrib) != want_attrs or root.nsmap.get(None) != "http://autosar.org/schema/r4.0":
        return f"root element {line!r}"
    if short != text.replace(line, "<AUTOSAR>", 1):
        return "write_str without root attributes differs in more than the root element"
    msg = compare_tree(root, plan, version)
    if msg:
        return msg
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, data.get("file", "d.arxml"))
        if data["how"] == "append":       # overwrites what was there
            with open(path, "w", encoding="utf-8") as fh:
                fh.write("x" * (len(text) + 100))
        writer.write_file(doc, path)
        with open(path, "rb") as fh:
            raw = fh.read()
        if os.listdir(tmp) != [os.path.basename(path)]:
            return f"write_file leaves {os.listdir(tmp)}"
        if raw != text.encode("utf-8"):
            return "write_file and write_str give different text"
        back, out, err = quiet(b.ar_reader.Reader().read_file, path)
        if out or err:
            return f"read_file printed {(out + err)[:100]!r}"
    msg = check_tree(back, plan, version, "read_file")
    if msg:
        return msg
    back2, out, err = quiet(b.ar_reader.Reader().read_str, text)
    msg = check_tree(back2, plan, version, "read_str")
    if msg or out or err:
        return msg or f"read_str printed {(out + err)[:100]!r}"
    return b.diff_values(back.packages, back2.packages, "packages") or b.diff_values(doc.packages, back.packages, "p")


def dedent(text):
    return "\n".join(line.strip() for line in text.splitlines())


def judge_fragment(cname, params):
    """An element on its own: text is the fragment of the document, reading it gives the element"""
    d = ordered(cname, params)
    obj = b.build(d)
    text = b.ar_writer.Writer().write_str_elem(obj)
    top = b.embed(cname, d)
    whole = b.ar_writer.Writer().write_str(b.make_document([top], 51))
    if dedent(text) not in dedent(whole):
        return f"write_str_elem gives {text[:200]!r}, which is not part of the document"
    back, out, err = quiet(b.ar_reader.Reader().read_str_elem, text, *([cname] if cname in TYPED else []))
    if out or err:
        return f"read_str_elem printed {(out + err)[:100]!r}"
    msg = b.diff_values(obj, back, cname)
    if msg:
        return msg
    if cname in b.TOP:
        with tempfile.TemporaryDirectory() as tmp:
            path = os.path.join(tmp, "e.xml")
            b.ar_writer.Writer().write_file_elem(obj, path)
            with open(path, encoding="utf-8", newline="") as fh:
                if fh.read() != text:
                    return "write_file_elem and write_str_elem give different text"
    return None


REFS = [None, "", "/A", "/A/B", "/a_1/B-2/c", "/P/Q & R<\"'>", " /A "]


def judge_map(impl, group):
    """The only element that exists on its own only: the map of a mode group to a data type"""
    rows = [("IMPLEMENTATION-DATA-TYPE", impl), ("MODE-GROUP", group)]
    lines = [f'  <{tag}-REF DEST="{dest}">{escape(text)}</{tag}-REF>' if text else f'  <{tag}-REF DEST="{dest}"/>'
             for (tag, text), dest in zip(rows, ("IMPLEMENTATION-DATA-TYPE", "MODE-DECLARATION-GROUP")) if text is not None]
    want = "\n".join(["<MODE-REQUEST-TYPE-MAP>", *lines, "</MODE-REQUEST-TYPE-MAP>"]) if lines else "<MODE-REQUEST-TYPE-MAP/>"
    obj = ar.ModeRequestTypeMap(None if impl is None else ar.ImplementationDataTypeRef(impl),
                                None if group is None else ar.ModeDeclarationGroupRef(group))
    text = b.ar_writer.Writer().write_str_elem(obj)
    flat = [[(x.tag, dict(x.attrib), x.text or "" if not len(x) else None) for x in b.ElementTree.fromstring(t).iter()]
            for t in (text, want)]
    if flat[0] != flat[1]:
        return f"write_str_elem gives {text!r}, expected {want!r}"
    back, out, err = quiet(b.ar_reader.Reader().read_str_elem, text)
    if out or err:
        return f"read_str_elem printed {(out + err)[:100]!r}"
    if "" in (impl, group):
        return None
    return b.diff_values(obj, back, "map")


def chain(n):
    """n packages inside each other"""
    out = ()
    for _ in range(n):
        out = (out,)
    return out


# what a size limit would show in: (packages, kinds of elements per package)
BIG = {f"chain {n}": (chain(n), ["U", "", "CB"]) for n in (8, 20, 40)}
BIG |= {f"wide {n}": (((),) * n, ["U", ""]) for n in (12, 40, 120)}
BIG |= {f"wide below {n}": ((((),) * n,), ["", "U"]) for n in (12, 40, 120)}
BIG |= {f"elements {n}": (((),), ["UCB" * n]) for n in (5, 30, 110)}
BIG |= {f"comb {n}": (((chain(n), ()),) * n, ["U" * n]) for n in (3, 6)}
ELEMS = [["", "U"], ["U", "UC"], ["UCB"], [""], ["B", "", "CU"]]


def groups(thorough):
    out = [("map",)] + [("docs", n, f) for n in range(0, 7 if thorough else 5) for f in forests(n)]
    out += [("big", name) for name in BIG] + [("files",)]
    return out + [("fragment", c) for c in SPEC if SPEC[c].tag != "TAG" and c not in NO_FRAGMENT and c in b.PATHS]


def gen(group, thorough):
    if group[0] == "map":
        for refs in itertools.product(REFS, repeat=2):
            yield f"map {refs}", {"kind": "map", "refs": refs}, "map", 2
        return
    if group[0] == "fragment":
        cname = group[1]
        from mc.cases import cases
        for label, p in cases(cname, False):
            if thorough or label in ("min", "full") or (label.startswith("min+") and label.count("+") == 1):
                yield f"{cname}:{label}", {"kind": "fragment", "class": cname, "params": p}, "fragment", 3
        return
    if group[0] == "files":
        for file, how, elems in itertools.product(UNUSUAL, HOWS, ELEMS[:2]):
            yield (f"file {file} {how} {elems}", {"kind": "doc", "forest": "((), ((),))", "elems": elems, "how": how,
                                                  "version": 51, "file": file}, "file", 6)
        return
    if group[0] == "big":
        forest, elems = BIG[group[1]]
        for how in HOWS:
            for version in VERSIONS if thorough else (45, 51):
                yield (f"{group[1]} {how} @{version}",
                       {"kind": "doc", "forest": repr(forest), "elems": elems, "how": how, "version": version},
                       "big", 6)
        return
    _, n, forest = group
    for e, elems in enumerate(ELEMS):
        for how in HOWS:
            for version in VERSIONS if n <= 3 or thorough else (48, 51):
                yield (f"{forest} {elems} {how} @{version}",
                       {"kind": "doc", "forest": repr(forest), "elems": elems, "how": how, "version": version},
                       "document", 6)


run("C09", groups, gen, judge, environment="documents", extra={"schema_versions": VERSIONS, "ways_of_building": HOWS},
    assumptions=["package forests up to 4 (thorough 6) packages with up to 3 elements each, and 13 large shapes with up to "
                 "120 packages, 40 levels and 330 elements; lxml itself reads no more than 256 levels of XML"])
