"""
Containment of errors in the input: every single corruption of every element of the
fully populated document of every class, and every duplicate name, must be reported
and must not affect any other element.  stop_on_error turns the report into an error.
"""
import copy
import itertools
import os
import re
import tempfile

import autosar.xml.exception as ar_exception
from mc import build as b
from mc import spec
from mc.cases import ordered
from mc.harness import attempt, quiet, run
from mc.names import UNUSUAL
from mc.spec import Node

BEFORE = {"c": "Unit", "p": {"name": "AaBefore", "factor": 2.0}}
AFTER = {"c": "Unit", "p": {"name": "ZzAfter", "offset": 3.0}}
GARBAGE = ["?!", "", "  ", "-1", "1e999", "0x", "true", "/a//b/", "x" * 5000]
HEADER = re.compile(r"^\((\d+)\): ")


def subject(cname, label):
    d = b.embed(cname, ordered(cname, b.full(cname)["p"] if label == "full" else b.minimal(cname)["p"]))
    root = b.package_node([BEFORE, d, AFTER], 51)
    return d, root


def elements(node, parent=None, top=None):
    """(node, parent, is inside the subject)"""
    yield node, parent
    for c in node.children:
        if isinstance(c, Node):
            yield from elements(c, node)


def subject_nodes(root):
    """All elements of the corrupted element: everything but the package frame and the two neighbours"""
    skip = {id(n) for e in root.children[1].children if name_of(e) in ("AaBefore", "ZzAfter") for n, _ in elements(e)}
    frame = {id(root), id(root.children[0]), id(root.children[1])}
    if root.children[-1].tag == "AR-PACKAGES":
        frame.add(id(root.children[-1]))
    return [(n, p) for n, p in elements(root) if id(n) not in skip and id(n) not in frame]


def name_of(node):
    for c in node.children:
        if isinstance(c, Node) and c.tag == "SHORT-NAME":
            return c.value
    return None



def corrupt(root, data):
    """Applies the corruption, returns True when it makes the value itself illegal"""
    node, parent = subject_nodes(root)[data["at"]]
    i = next(k for k, c in enumerate(parent.children) if c is node)
    how, arg = data["how"], data.get("arg")
    if how == "delete":
        del parent.children[i]
    elif how == "duplicate":
        parent.children.insert(i, copy.deepcopy(node))
    elif how == "swap":
        parent.children[i], parent.children[i + 1] = parent.children[i + 1], parent.children[i]
    elif how == "text":
        node.children, node.kind, node.value = [], "str", arg
    elif how == "empty":
        node.children, node.kind = [], "el"
    elif how == "attrs":
        node.attrs = {}
    elif how == "attr":
        node.attrs = {**node.attrs, arg: "?!"}
    elif how == "rename":
        node.tag = arg
    elif how == "nest":
        parent.children[i] = Node(node.tag, children=[node])
    elif how == "hoist":
        parent.children[i:i + 1] = [c for c in node.children if isinstance(c, Node)]
    elif how == "inside":
        node.children = [*(node.children or [Node("", "raw", spec.esc(node.value or ""))]), Node("", "raw", arg)]
        node.kind, node.value = "el", None
    elif how == "beside":
        parent.children.insert(i + 1, Node("", "raw", arg))
    elif how == "thrice":
        parent.children[i:i] = [copy.deepcopy(node), copy.deepcopy(node)]
    elif how == "twice":
        node.children = node.children + copy.deepcopy(node.children)
    else:
        raise KeyError(how)


def illegal(root, data):
    """Must the corruption be reported?"""
    node, _ = subject_nodes(root)[data["at"]]
    if data["how"] == "text" and data["arg"] == "?!":
        return (node.kind == "num" and node.tag != "SW-AXIS-INDEX") or (node.kind == "str" and node.value in ("true", "false"))
    if data["how"] in ("beside", "inside", "thrice"):
        return True
    if data["how"] == "rename" and data["arg"] == "VENDOR-X" and node.tag in INLINE:
        return True
    if data["how"] == "attr":
        return data["arg"] in ("DEST", "INTERVAL-TYPE", "L") and data["arg"] in node.attrs
    return False




def judge(data):
    kind = data["kind"]
    if kind == "corrupt":
        _, root = subject(data["class"], data["label"])
        must = illegal(root, data)
        corrupt(root, data)
        text = spec.document(spec.to_xml(root), 51)
        return judge_corrupt(text, must, root)
    if kind == "duplicate":
        return judge_duplicate(data)
    if kind == "many":
        return judge_many(data)
    return judge_package_duplicate(data)


def read(text, stop=False):
    return quiet(b.ar_reader.Reader().read_str, text, stop)


def judge_corrupt(text, must, root):    # pylint: disable=too-many-return-statements,too-many-branches
    res, ex = attempt(read, text)
    if ex is not None:
        return f"{type(ex).__name__} escapes read_str: {str(ex)[:150]}"
    doc, out, err = res
    ref = b.make_document([BEFORE, AFTER], 51).packages[0]
    if len(doc.packages) != 1:
        return f"{len(doc.packages)} packages read instead of 1"
    pkg = doc.packages[0]
    got = {e.name: e for e in pkg.elements}
    for want in ref.elements:
        if want.name not in got:
            return f"neighbour {want.name} is lost"
        d = b.diff_values(want, got[want.name], want.name)
        if d:
            return f"neighbour changed: {d}"
        if pkg.find(want.name) is not got[want.name]:
            return f"neighbour {want.name} is not found by name"
    inside = len([n for n in root.children[1].children]) - 2
    if len(root.children) > 2 and root.children[2].tag == "AR-PACKAGES":
        inside = sum(1 for n in root.children[2].children if n.tag == "AR-PACKAGE")
        present = len(pkg.packages)
    else:
        present = len(pkg.elements) - 2
    if present < inside and not (out or err):
        return f"{inside - present} element(s) dropped without any message"
    if must and not (out or err):
        return "illegal value is accepted without any message"
    for line in out.splitlines():
        if not line.startswith("    ") and not HEADER.match(line):
            return f"message without position: {line[:100]!r}"
    res2, ex2 = attempt(read, text, True)
    if out:
        if ex2 is None:
            return "stop_on_error does not stop at the error"
        if not isinstance(ex2, (ar_exception.ParseError, ar_exception.DuplicateElement)):
            return f"stop_on_error raises {type(ex2).__name__}: {str(ex2)[:100]}"
        return None
    if ex2 is not None:
        return f"stop_on_error raises {type(ex2).__name__} although nothing was reported: {str(ex2)[:100]}"
    d = b.diff_values(doc.packages, res2[0].packages, "packages")
    return d and "stop_on_error changes the content: " + d


def judge_duplicate(data):
    """Two elements (or packages) of one name in one package: the first stays, the second is reported"""
    first, second = data["first"], data["second"]
    a, z = b.full(first, name="Same"), b.full(second, name="Same")
    nodes = [spec.ser(d, None, 51) for d in (a, z)]
    root = b.package_node([BEFORE, AFTER], 51)
    box = root.children[1]
    subs = [n for n in nodes if n.tag == "AR-PACKAGE"]
    elems = [n for n in nodes if n.tag != "AR-PACKAGE"]
    box.children[1:1] = elems
    if subs:
        root.children.append(Node("AR-PACKAGES", children=subs))
    kept = (elems + subs)[0]
    want = b.make_document([BEFORE, a if nodes[0] is kept else z, AFTER], 51)
    text = spec.document(spec.to_xml(root), 51)
    doc, out, err = read(text)
    if not out or "Same" not in out:
        return f"duplicate name is not reported ({(out + err)[:80]!r})"
    d = b.diff_values(want.packages, doc.packages, "packages")
    if d:
        return d
    _, ex = attempt(read, text, True)
    if not isinstance(ex, (ar_exception.DuplicateElement, ar_exception.ParseError)):
        return f"stop_on_error gives {type(ex).__name__}"
    # the object model rejects it as well, and stays as it was
    pkg = b.make_document([BEFORE, a], 51).packages[0]
    snap = b.snapshot(pkg)
    _, ex = attempt(pkg.append, b.build(z))
    if not isinstance(ex, ar_exception.DuplicateElement):
        return f"Package.append gives {type(ex).__name__}"
    if b.snapshot(pkg) != snap:
        return "failed Package.append changed the package"
    return None


def judge_package_duplicate(data):
    """names: packages in order, at the top or one level down"""
    names, level = data["names"], data["level"]
    nodes, want_names = [], []
    for n, name in enumerate(names):
        nodes.append(b.package_node([{"c": "Unit", "p": {"name": f"U{n}"}}], 51, name))
        if name not in [w for w, _ in want_names]:
            want_names.append((name, n))
    body = "".join(spec.to_xml(n) for n in nodes)
    if level:
        body = f"<AR-PACKAGE><SHORT-NAME>Top</SHORT-NAME><AR-PACKAGES>{body}</AR-PACKAGES></AR-PACKAGE>"
    text = spec.document(body, 51)
    doc, out, err = read(text)
    packs = doc.packages[0].packages if level else doc.packages
    got = [(p.name, [e.name for e in p.elements]) for p in packs]
    want = [(name, [f"U{n}"]) for name, n in want_names]
    if got != want:
        return f"packages {got} instead of {want}"
    lost = len(names) - len(want)
    if len(out.splitlines()) != lost:
        return f"{lost} duplicate(s), messages {(out + err)!r}"
    _, ex = attempt(read, text, True)
    if bool(lost) != isinstance(ex, ar_exception.DuplicateElement):
        return f"stop_on_error gives {type(ex).__name__}: {ex}"
    return None


FAULTS = {   # what: (text of the element, is it kept)
    "number": "<UNIT><SHORT-NAME>{0}</SHORT-NAME><FACTOR-SI-TO-UNIT>x{0}</FACTOR-SI-TO-UNIT></UNIT>",
    "no name": "<UNIT><DISPLAY-NAME>{0}</DISPLAY-NAME></UNIT>",
    "same": "<UNIT><SHORT-NAME>AaFirst</SHORT-NAME><CATEGORY>c</CATEGORY></UNIT>",
    "same other": "<CONSTANT-SPECIFICATION><SHORT-NAME>AaFirst</SHORT-NAME></CONSTANT-SPECIFICATION>",
    "attribute": "<CONSTANT-SPECIFICATION><SHORT-NAME>{0}</SHORT-NAME><VALUE-SPEC><CONSTANT-REFERENCE>"
                 '<CONSTANT-REF DEST="X-{0}">/A</CONSTANT-REF></CONSTANT-REFERENCE></VALUE-SPEC></CONSTANT-SPECIFICATION>',
}


def judge_many(data):    # pylint: disable=too-many-locals
    """marks: per element None or its fault; box: how the elements are spread over packages"""
    marks, box = data["marks"], data["box"]
    names = [f"E{n}" for n in range(len(marks))]
    texts = [(FAULTS[m] if m else "<UNIT><SHORT-NAME>{0}</SHORT-NAME><OFFSET-SI-TO-UNIT>1.5</OFFSET-SI-TO-UNIT></UNIT>")
             .format(n) for m, n in zip(marks, names)]
    first = "<UNIT><SHORT-NAME>AaFirst</SHORT-NAME></UNIT>"

    def pack(name, inner, subs=""):
        return (f"<AR-PACKAGE>\n<SHORT-NAME>{name}</SHORT-NAME>\n<ELEMENTS>\n{first}\n{inner}\n</ELEMENTS>\n" +
                (f"<AR-PACKAGES>\n{subs}\n</AR-PACKAGES>\n" if subs else "") + "</AR-PACKAGE>")

    if box == "one":
        body = pack("P", "\n".join(texts))
        paths = ["/P"] * len(texts)
    elif box == "wide":
        body = "\n".join(pack(f"P{n}", t) for n, t in enumerate(texts))
        paths = [f"/P{n}" for n in range(len(texts))]
    else:
        body, paths = "", []
        for n in reversed(range(len(texts))):
            body = pack(f"P{n}", texts[n], body)
        for n in range(len(texts)):
            paths.append((paths[-1] if paths else "") + f"/P{n}")
    text = spec.document(body, 51)
    lines = text.split("\n")
    spot, at = [], 0
    for t in texts:
        at = lines.index(t, at) + 1
        spot.append(at)
    faults = [line for line, m in zip(spot, marks) if m]
    with tempfile.TemporaryDirectory() as tmp:
        base = data.get("file", "many.arxml")
        path = os.path.join(tmp, base)
        with open(path, "w", encoding="utf-8") as fh:
            fh.write(text)
        for how in ("str", "file", "path"):
            reader = b.ar_reader.Reader(use_full_path_on_warning=how == "path")
            act, arg = (reader.read_str, text) if how == "str" else (reader.read_file, path)
            prefix = {"str": "", "file": base, "path": path}[how]
            doc, out, err = quiet(act, arg)
            want = {}
            for p, name, m in zip(paths, names, marks):
                want.setdefault(p, ["AaFirst"])
                if not m:
                    want[p].append(name)
            got, todo = {}, list(doc.packages)
            while todo:
                pkg = todo.pop()
                got[str(pkg.ref())] = [e.name for e in pkg.elements]
                todo.extend(pkg.packages)
                for e in pkg.elements:
                    if e.name != "AaFirst" and e.offset != 1.5:
                        return f"{how}: {e.name} is not what it was"
            if got != want:
                return f"{how}: elements {got} instead of {want}"[:300]
            heads = [x for x in out.splitlines() if not x.startswith("    ")]
            if err or [x.partition(": ")[0] for x in heads] != [f"{prefix}({n})" for n in faults]:
                return f"{how}: messages {heads} {err}, faults in lines {faults}"[:300]
            res, ex = attempt(quiet, act, arg, True)
            if not faults:
                if ex is not None:
                    return f"{how}: stop_on_error gives {ex!r}"
                continue
            if not isinstance(ex, (ar_exception.ParseError, ar_exception.DuplicateElement)):
                return f"{how}: stop_on_error gives {ex!r}, {res and res[1]!r}"
            if not str(ex).startswith(f"{prefix}({faults[0]}): "):
                return f"{how}: stop_on_error reports {ex}, first fault in line {faults[0]}"
    return None


def gen_many(box, thorough):
    kinds = [None, *FAULTS]
    for name in UNUSUAL:
        for marks in ([None], ["number"], ["same", None, "number"]):
            yield (f"many {box} {marks} in {name}", {"kind": "many", "marks": marks, "box": box, "file": name}, "many", 6)
    for n in range(1, 5 if thorough else 4):
        for marks in itertools.product(kinds, repeat=n):
            yield f"many {box} {marks}", {"kind": "many", "marks": marks, "box": box}, "many", 6
    for n in (12, 40) if not thorough else (12, 40, 70, 100):
        for fault in FAULTS:
            for at in range(n):
                marks = [fault if i == at else None for i in range(n)]
                yield f"many {box} {fault} {at}/{n}", {"kind": "many", "marks": marks, "box": box}, "many", 6
                marks = [None if i == at else fault for i in range(n)]
                yield f"many {box} all {fault} but {at}/{n}", {"kind": "many", "marks": marks, "box": box}, "many", 6
            marks = [fault] * n
            yield f"many {box} all {fault}/{n}", {"kind": "many", "marks": marks, "box": box}, "many", 6


# elements within text
INLINE = ("TT", "E", "SUB", "SUP", "IE", "BR")
# alternatives of which an element may have one only
EXCLUSIVE = {"COMPU-CONST": "<COMPU-RATIONAL-COEFFS><COMPU-NUMERATOR><V>1</V></COMPU-NUMERATOR></COMPU-RATIONAL-COEFFS>",
             "COMPU-RATIONAL-COEFFS": "<COMPU-CONST><VT>x</VT></COMPU-CONST>", "VT": "<V>1</V>"}


def gen_corrupt(cname, label, thorough):    # pylint: disable=too-many-branches
    _, root = subject(cname, label)
    nodes = subject_nodes(root)
    base = {"kind": "corrupt", "class": cname, "label": label}
    for at, (node, parent) in enumerate(nodes):
        hows = [("delete", None), ("duplicate", None), ("empty", None), ("nest", None), ("rename", "VENDOR-X"),
                ("hoist", None), ("twice", None), ("rename", "SHORT-NAME")]
        i = next(k for k, c in enumerate(parent.children) if c is node)
        if i + 1 < len(parent.children) and isinstance(parent.children[i + 1], Node):
            hows.append(("swap", None))
        if node.tag == "TT":
            hows += [("inside", "<VENDOR-X/>"), ("inside", "<E>e</E>")]
        if node.tag in EXCLUSIVE:
            hows.append(("beside", EXCLUSIVE[node.tag]))
        if node.tag == "V" and parent.tag == "COMPU-CONST":
            hows.append(("beside", "<VT>x</VT>"))
        if node.tag == "MODE-IREF":
            hows.append(("thrice", None))
        if node.attrs:
            hows.append(("attrs", None))
        for a in list(node.attrs) + ["DEST"]:
            hows.append(("attr", a))
        for g in GARBAGE if node.kind in ("str", "num") or thorough else GARBAGE[:1]:
            hows.append(("text", g))
        if thorough:
            for tag in ("P", "AR-PACKAGE", "ELEMENTS", "UNIT", "V", "L-4", "TT", "SDGS", "VG"):
                hows.append(("rename", tag))
        for how, arg in hows:
            key = f"{cname}:{label}:{how} {arg[:12] if arg else ''} {parent.tag}/{node.tag}@{at}"
            yield key, {**base, "at": at, "how": how, "arg": arg}, how, 2


def groups(thorough):
    out = [("corrupt", c, lab) for c in b.PATHS for lab in ("full", "min")]
    out += [("duplicate", c) for c in b.TOP]
    out += [("packages", lev) for lev in (0, 1)]
    out += [("many", box) for box in ("one", "wide", "deep")]
    return out


def gen(group, thorough):
    if group[0] == "corrupt":
        yield from gen_corrupt(group[1], group[2], thorough)
    elif group[0] == "many":
        yield from gen_many(group[1], thorough)
    elif group[0] == "duplicate":
        for second in b.TOP:
            yield (f"duplicate {group[1]}/{second}", {"kind": "duplicate", "first": group[1], "second": second},
                   "duplicate", 3)
    else:
        for n in range(1, 6 if thorough else 5):
            for names in itertools.product("ABC", repeat=n):
                yield (f"packages {''.join(names)} level {group[1]}",
                       {"kind": "packages", "names": list(names), "level": group[1]}, "packages", 2)


run("C08", groups, gen, judge, extra={"classes": len(b.PATHS)},
    assumptions=["one corruption at a time, of the listed kinds, in the documents of every class; any number of faulty "
                 "elements of five kinds in packages of units; text that is not well-formed XML is out of scope"])
