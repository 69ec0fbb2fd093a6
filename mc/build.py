"""
Binding of the reference schema (mc.spec) to the real library: builds real
objects from descriptors through the public constructors, compares objects and
XML trees, and generates the bounded alphabets that the checks enumerate.
"""
import itertools
import math

import lxml.etree as ElementTree

import autosar.xml
import autosar.xml.document as ar_document
import autosar.xml.element as ar
import autosar.xml.enumeration as ar_enum
import autosar.xml.reader as ar_reader
import autosar.xml.writer as ar_writer
from mc import spec
from mc.spec import SPEC, ENUMS, REFS, Node, expand

NS = "{http://autosar.org/schema/r4.0}"
VERSIONS = (48, 49, 50, 51)

# --------------------------------------------------------------------------
# descriptor -> real object


def enum_value(d):
    ename, member = d["e"].split(".")
    return getattr(getattr(ar_enum, ename), member)


def ref_value(d):
    return getattr(ar, d["r"])(d["v"], getattr(ar_enum.IdentifiableSubTypes, d["d"]))


def pyval(d):
    """descriptor -> python value"""
    if isinstance(d, dict):
        if "e" in d:
            return enum_value(d)
        if "r" in d:
            return ref_value(d)
        if "c" in d:
            return build(d)
        if "nv" in d:
            return ar.NumericalValue(d["nv"], getattr(ar_enum.ValueFormat, d["f"]))
        raise KeyError(d)
    if isinstance(d, list):
        return [pyval(x) for x in d]
    return d


# constructors that take one item only and are filled with append()
APPENDED = {"long_name", "paragraph", "element"}


def build(d):
    cls = SPEC[d["c"]]
    kwargs, later, appended = {}, [], []
    for row in cls.all_rows():
        if row.param not in d["p"]:
            continue
        v = d["p"][row.param]
        if row.codec in ("setobj", "setlist"):
            later.append((row.param, pyval(v)))
        elif row.codec == "append":
            appended = [pyval(x) for x in v]
        elif cls.name == "SwcModeSwitchEvent" and row.param == "mode" and isinstance(v, list):
            val = pyval(v)
            kwargs["mode"] = val[0] if len(val) == 1 else tuple(val)
        else:
            kwargs[row.param] = pyval(v)
    for limit in ("lower_limit_type", "upper_limit_type"):
        if limit in d["p"]:
            kwargs[limit] = pyval(d["p"][limit])
    obj = getattr(ar, d["c"])(**kwargs)
    for name, val in later:
        setattr(obj, name, val)
    for item in appended:
        obj.append(item)
    if d["c"] == "Package":
        for sub in d.get("sub", []):
            obj.append(build(sub))
    return obj


# --------------------------------------------------------------------------
# comparison of real objects

STATE = ("_internal_behavior",)     # state behind a property


def public_vars(obj):
    return {k: v for k, v in vars(obj).items() if k != "parent" and (not k.startswith("_") or k in STATE)}


INTS_STAY = True         # an integer is not read as a float
LOOSE_NUMBERS = False    # a float and an integer literal that denote the same double are equal


def diff_values(a, b, path="", skip_parent=True):
    """First difference between two library objects (a: built, b: read back), or None"""
    if LOOSE_NUMBERS:
        a = a.value if isinstance(a, ar.NumericalValue) else a
        b = b.value if isinstance(b, ar.NumericalValue) else b
    if isinstance(a, bool) or isinstance(b, bool):
        return None if type(a) is type(b) and a == b else f"{path}: {a!r} became {b!r}"
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if isinstance(a, int) and isinstance(b, float) and INTS_STAY:
            return f"{path}: {a!r} became {b!r}"
        if a == b or (a != a and b != b):
            return None
        if LOOSE_NUMBERS and float in (type(a), type(b)) and float(a) == float(b):
            return None
        return f"{path}: {a!r} became {b!r}"
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {len(a)} item(s) became {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff_values(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            return f"{path}: keys {list(a)} became {list(b)}"
        for k in a:
            d = diff_values(a[k], b[k], f"{path}[{k!r}]")
            if d:
                return d
        return None
    if type(a) is not type(b):
        return f"{path}: {short(a)} became {short(b)}"
    if isinstance(a, (ar.NumericalValue, ar.PositiveIntegerValue)):
        return diff_values(a.value, b.value, path + ".value")
    if hasattr(a, "__dict__") and not isinstance(a, ar_enum.Enum):
        va, vb = public_vars(a), public_vars(b)
        for k in sorted(set(va) | set(vb)):
            if isinstance(va.get(k), ar_enum.ValueFormat):
                continue     # the output format of a number is not part of the document
            d = diff_values(va.get(k), vb.get(k), f"{path}.{k}")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {a!r} became {b!r}"


def short(v):
    if v is None or isinstance(v, (str, int, float, list, tuple)):
        return repr(v)[:80]
    return type(v).__name__


def snapshot(obj, seen=None):
    """Hashable picture of everything observable in an object graph (parents as identity of ancestors only)"""
    if isinstance(obj, (str, int, float, bool, type(None))):
        return repr(obj)
    if isinstance(obj, ar_enum.Enum):
        return str(obj)
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__,) + tuple(snapshot(x) for x in obj)
    if isinstance(obj, dict):
        return ("dict",) + tuple((repr(k), snapshot(v)) for k, v in obj.items())
    if hasattr(obj, "__dict__"):
        return (type(obj).__name__,) + tuple(
            (k, snapshot(v)) for k, v in sorted(vars(obj).items())
            if k != "parent" and (not k.startswith("_") or k in STATE)) + (
                ("parent", type(getattr(obj, "parent", None)).__name__,
                 getattr(getattr(obj, "parent", None), "name", None)),)
    return repr(obj)


# --------------------------------------------------------------------------
# comparison of XML trees

class TreeDiff(Exception):
    pass


def local(tag):
    return tag[len(NS):] if tag.startswith(NS) else tag


def same_number(text, value):
    t = (text or "").strip()
    try:
        got = int(t, 0)
    except ValueError:
        try:
            got = float(t)
        except ValueError:
            return False
    if got != got or value != value:
        return got != got and value != value
    return got == value


def tree_diff(exp, act, path=""):
    """Compare Node with an lxml element; returns message or None"""
    tag = local(act.tag) if isinstance(act.tag, str) else str(act.tag)
    path = f"{path}/{exp.tag}"
    if tag != exp.tag:
        return f"{path}: found <{tag}>"
    attrs = {k: v for k, v in act.attrib.items()}
    if attrs != exp.attrs:
        return f"{path}: attributes {attrs}, expected {exp.attrs}"
    if exp.kind in ("str", "num"):
        if len(act):
            return f"{path}: unexpected child elements"
        text = act.text or ""
        if exp.kind == "num":
            if not same_number(text, exp.value):
                return f"{path}: text {text!r}, expected the number {exp.value!r}"
        elif text != str(exp.value):
            return f"{path}: text {text!r}, expected {exp.value!r}"
        return None
    if exp.kind == "mixed":
        parts = [act.text] if act.text else []
        for ch in act:
            parts.append(ch)
            if ch.tail:
                parts.append(ch.tail)
        if len(parts) != len(exp.children):
            return f"{path}: mixed content has {len(parts)} parts, expected {len(exp.children)}"
        for e, a in zip(exp.children, parts):
            if isinstance(e, str) or isinstance(a, str):
                if e != a:
                    return f"{path}: mixed text {a!r}, expected {e!r}"
            else:
                d = tree_diff(e, a, path)
                if d:
                    return d
        return None
    if (act.text or "").strip():
        return f"{path}: unexpected text {act.text!r}"
    kids = list(act)
    exp_tags = [c.tag for c in exp.children]
    act_tags = [local(c.tag) if isinstance(c.tag, str) else "?" for c in kids]
    if exp_tags != act_tags:
        return f"{path}: children {act_tags}, expected {exp_tags}"
    for e, a in zip(exp.children, kids):
        if (a.tail or "").strip():
            return f"{path}: unexpected text {a.tail!r}"
        d = tree_diff(e, a, path)
        if d:
            return d
    return None


# --------------------------------------------------------------------------
# alphabets

TEXTS = ["txt", "a<b>&\"c'd]]>", "\u00e5\u00df \u03bb\u65e5", "two  words"]
NAMES = ["Nm", "Other_Name1"]
INTS = [3, 0, 1, 2 ** 40]
NUMS = [7, 0, 0.5, -3, -1.5, 1e-9, 123456789.125, 2 ** 40]
FLOATS = [0.5, 0.0, 2.0, -1.5, 1e-9, 123456789.125, 1e22]
LIMITS = [7, 0, 0.5, -3, float("inf"), float("-inf"), 1e-9]
REQUIRED = {"IndexEntry": ["text"], "TechnicalTerm": ["text"], "Subscript": ["text"], "Superscript": ["text"],
            "LanguageLongName": ["language"], "LanguageOverviewParagraph": ["language"],
            "LanguageParagraph": ["language"], "LanguageVerbatim": ["language"],
            "CompuConst": ["value"], "CompuRational": ["numerator"], "EmphasisText": ["elements"],
            # an event list entry/wait point etc. has no further mandatory content
            "PortInCompositionTypeInstanceRef": ["component_ref", "port_ref"],
            "ExclusiveAreaRefConditional": ["exclusive_area"],
            # a mixed content list holding nothing cannot be distinguished from its absence
            "SingleLanguageUnitNames": ["parts"],
            "CompuScale": [], }
EXCLUDED_REP = {("DocumentationBlock", "element")}


def required(cname):
    c = SPEC[cname]
    req = list(REQUIRED.get(cname, []))
    if c.kind in ("ident", "referrable"):
        req.insert(0, "name")
    return req


def ref_desc(rclass, dest=None, v="/Pkg/Target"):
    return {"r": rclass, "v": v, "d": dest or REFS[rclass][0]}


_min_cache = {}


def minimal(cname, name=None):
    """Descriptor with only what the constructor requires"""
    p = {}
    for param in required(cname):
        p[param] = rep(cname, param)
    if name and "name" in p:
        p["name"] = name
    return {"c": cname, "p": p}


def named(cname, name):
    return minimal(cname, name)


def small(cname, name=None, depth=0):
    """Minimal plus one more parameter, so that the element is not empty"""
    d = minimal(cname, name)
    own = [r for r in SPEC[cname].rows if r.param not in d["p"]]
    if not d["p"] or (set(d["p"]) == {"name"}):
        own.sort(key=lambda r: r.codec in ("obj", "wrap", "list", "append"))
        for r in own[:1]:
            d["p"][r.param] = rep(cname, r.param, depth + 1)
    return d


def rep(cname, param, depth=0):
    return alts(cname, param, depth)[0]


def full(cname, depth=0, name=None):
    """Descriptor with every parameter set to its representative"""
    d = {"c": cname, "p": {}}
    for row in SPEC[cname].all_rows():
        d["p"][row.param] = alts(cname, row.param, depth)[0]
    if name and "name" in d["p"]:
        d["p"]["name"] = name
    return d


def obj_alts(classes, depth, name=None):
    """Alternatives for a nested object: non-empty, bare, and (shallow) everything set"""
    out = []
    for i, (c, _) in enumerate(classes):
        out.append(small(c, name, depth))
    if depth < 2:
        for c, _ in classes:
            m = minimal(c, name)
            if m not in out:
                out.append(m)
            f = full(c, depth + 1, name)
            if f not in out:
                out.append(f)
    return out


def item_alts(kind, args, depth):
    if kind == "obj":
        return obj_alts(expand(args[0]), depth)
    if kind == "ref":
        return [ref_desc(args[0], d) for d in REFS[args[0]]]
    if kind == "num":
        return list(NUMS)
    if kind == "int":
        return list(INTS)
    return list(TEXTS)


def with_names(items):
    """Give list items distinct names, in no alphabetical order, and references distinct targets but for every fourth (copy)"""
    items = list(items)
    out = []
    for i, it in enumerate(items):
        if isinstance(it, dict) and "c" in it and "name" in it["p"]:
            it = {"c": it["c"], "p": dict(it["p"], name=f"Item{len(items) - i}")}
        elif isinstance(it, dict) and it.get("c") == "PortApiOption":
            it = {"c": it["c"], "p": dict(it["p"], port=ref_desc("PortPrototypeRef", None, f"/Pkg/Port{i}"))}
        elif isinstance(it, dict) and "r" in it and len(items) > 1:
            it = dict(it, v="/Pkg/Target" if i % 4 == 3 else f"/Pkg/Target{len(items) - i}")
        out.append(it)
    return out


def lists_of(items):
    """Lists of length 1 (each item), 2 (ordered pairs of the first two) and all-in-one"""
    out = [[items[0]]]
    if len(items) > 1:
        out.append(with_names([items[0], items[1]]))
        out.append(with_names([items[1], items[0]]))
        out += [[x] for x in items[1:]]
    out.append(with_names([items[0], items[0]]))
    out.append(with_names(items[:3] + items[:3]))
    if len(items) > 3:
        out.append(with_names(items))
    return out


_alts_cache = {}


def alts(cname, param, depth=0):
    key = (cname, param, min(depth, 2))
    if key not in _alts_cache:
        _alts_cache[key] = _alts(cname, param, min(depth, 2))
    return _alts_cache[key]


def mixed_alts(classes, depth):
    objs = [minimal(c) for c, _ in classes]
    out = [["lead ", small(classes[0][0], None, depth), " tail"], ["only text"], ["a<b>&\"c'd"]]
    for o in objs:
        out += [[o], ["x ", o], [o, " y"], ["x ", o, " y"], [o, o], ["x ", o, " y ", o, " z"]]
    for a, b in itertools.permutations(objs, 2):
        out += [[a, b], ["x ", a, " y ", b, " z"], [a, " m ", b]]
    for c, _ in classes:
        if SPEC[c].rows:
            out.append(["x ", full(c, depth + 1), " y"])
    return out


def _alts(cname, param, depth):    # pylint: disable=too-many-return-statements,too-many-branches
    row = SPEC[cname].row(param)
    cd, a = row.codec, row.args
    if param == "name":
        return list(NAMES)
    if (cname, param) == ("TextValueSpecification", "value"):
        return list(TEXTS) + [""]
    if cd == "str":
        return list(TEXTS)
    if cd == "fmtstr":
        return ["%d", "%5.2f", "%x", "%-4s"]
    if cd == "int":
        return list(INTS)
    if cd == "num":
        return list(NUMS)
    if cd == "float":
        return list(FLOATS)
    if cd == "bool":
        return [True, False]
    if cd == "align":
        return [8, 1, "UNKNOWN", "UNSPECIFIED", "BOOLEAN", "PTR"]
    if cd == "axisidx":
        return [1, 0, 2]
    if cd == "enum":
        return [{"e": f"{a[0]}.{m}"} for m in ENUMS[a[0]]]
    if cd == "ref":
        return [ref_desc(a[0], d) for d in REFS[a[0]]]
    if cd == "portref":
        # hosted by the provider side of a connector; the requester side is covered as part of its host
        return [ref_desc("PortPrototypeRef", "P_PORT_PROTOTYPE"), ref_desc("PortPrototypeRef", "PR_PORT_PROTOTYPE")]
    if cd in ("obj", "setobj", "wrap"):
        return obj_alts(expand(a[0]), depth)
    if cd in ("list", "setlist"):
        if (cname, param) == ("SwcModeSwitchEvent", "mode"):
            return [x for x in lists_of(item_alts(a[1], a[2:], depth)) if len(x) <= 2]   # one mode or a transition
        return lists_of(item_alts(a[1], a[2:], depth))
    if cd == "append":
        items = obj_alts(expand(a[0]), depth)
        out = [[items[0]]] + [[x] for x in items[1:]]
        out += [[x, y] for x, y in itertools.permutations(items[:3], 2)] or [[items[0], items[0]]]
        if a[0] in ("LanguageLongName", "LanguageOverviewParagraph", "LanguageParagraph", "LanguageVerbatim"):
            two = [{"c": a[0], "p": {"language": {"e": "Language.DE"}, "parts": ["deutsch"]}},
                   {"c": a[0], "p": {"language": {"e": "Language.EN"}, "parts": ["english"]}}]
            out += [two, two[::-1]]
        return out
    if cd == "vlist":
        if cname == "ValueList":
            return [[4], [4, 5], [0], [1, 2, 3]]
        vg = {"c": "ValueGroup", "p": {"values": [1, "t", 2.5]}}
        out = [[1, 2], [1], [0], [-3], [0.5], [1e-9], ["txt"], ["a<b>&"], ["1"], [""], [1, "", 2], [1, "txt", 2], [1.5, -2, 0],
               [vg], [1, vg, "x"], [vg, vg]]
        if depth < 2:
            out.append([{"c": "ValueGroup", "p": {"values": [vg, 7]}}])
        return out
    if cd == "constval":
        return [5, "Text", 0, -1, 0.5, 1e-9, "5", "a<b>&", "two words", ""]
    if cd == "limit":
        return list(LIMITS)
    if cd == "#mixed" or row.xml == "#mixed":
        return mixed_alts(expand(cd), depth)
    if cd == "portiref":
        dests = ["P_PORT_PROTOTYPE", "PR_PORT_PROTOTYPE"] if a[0] == "P" else ["R_PORT_PROTOTYPE", "PR_PORT_PROTOTYPE"]
        return [port_inst(d) for d in dests]
    if cd == "innerport":
        return [port_inst("P_PORT_PROTOTYPE"), port_inst("R_PORT_PROTOTYPE"), port_inst("PR_PORT_PROTOTYPE")]
    if cd == "exarea":
        one = small("ExclusiveAreaRefConditional")
        two = {"c": "ExclusiveAreaRefConditional",
               "p": {"exclusive_area": ref_desc("ExclusiveAreaRef", None, "/Pkg/Swc/Beh/Second")}}
        return [[one], [one, two], [two, one]]
    raise KeyError((cname, param, cd))


def port_inst(dest):
    return {"c": "PortInCompositionTypeInstanceRef",
            "p": {"component_ref": ref_desc("SwComponentPrototypeRef", None, "/Pkg/Comp/Inst"),
                  "port_ref": ref_desc("PortPrototypeRef", dest, "/Pkg/Swc/Port")}}


LIMIT_PARAMS = ("lower_limit", "upper_limit")

# --------------------------------------------------------------------------
# host paths: how an element of a class gets into a document

TOP = ["CompuMethod", "DataConstraint", "Unit", "SwBaseType", "ImplementationDataType",
       "ApplicationPrimitiveDataType", "ApplicationArrayDataType", "ApplicationRecordDataType",
       "DataTypeMappingSet", "SwAddrMethod", "ConstantSpecification", "Package", "ModeDeclarationGroup",
       "SenderReceiverInterface", "NvDataInterface", "ParameterInterface", "ClientServerInterface",
       "ModeSwitchInterface", "E2EProfileCompatibilityProps", "ApplicationSoftwareComponentType",
       "CompositionSwComponentType", "SwcImplementation"]


def uses():
    """(host class, row, child class) for every containment in the schema"""
    for h in SPEC.values():
        for row in h.all_rows():
            cd, a = row.codec, row.args
            if cd in ("obj", "wrap", "setobj", "append"):
                group = a[0]
            elif cd in ("list", "setlist") and a[1] == "obj":
                group = a[2]
            elif row.xml == "#mixed":
                group = cd
            elif cd == "vlist" and h.name != "ValueList":
                group = "ValueGroup"
            elif cd in ("portiref", "innerport"):
                group = "PortInCompositionTypeInstanceRef"
            elif cd == "exarea":
                group = "ExclusiveAreaRefConditional"
            else:
                continue
            for c, _ in expand(group):
                yield h.name, row, c


def host_paths():
    """BFS from the package elements: class -> [(host, row), ...] outermost first"""
    paths = {t: [] for t in TOP}
    frontier = list(TOP)
    by_host = {}
    for h, row, c in uses():
        by_host.setdefault(h, []).append((row, c))
    while frontier:
        nxt = []
        for h in frontier:
            for row, c in by_host.get(h, []):
                if c not in paths:
                    paths[c] = paths[h] + [(h, row)]
                    nxt.append(c)
        frontier = nxt
    return paths


PATHS = host_paths()


def put(host, row, d):
    """Minimal host descriptor holding d in row"""
    h = minimal(host, host)
    if row.codec in ("list", "setlist", "append", "vlist", "exarea"):
        h["p"][row.param] = [d]
    elif row.xml == "#mixed":
        h["p"][row.param] = [d]
    else:
        h["p"][row.param] = d
    return h


def embed(cname, d, path=None):
    """Top-level descriptor that contains d"""
    for host, row in reversed(PATHS[cname] if path is None else path):
        d = put(host, row, d)
    return d


def package_node(tops, ver, name="Pkg"):
    n = Node("AR-PACKAGE")
    n.children.append(Node("SHORT-NAME", "str", name))
    elems = [spec.ser(t, None, ver) for t in tops if t["c"] != "Package"]
    packs = [spec.ser(t, None, ver) for t in tops if t["c"] == "Package"]
    if elems:
        n.children.append(Node("ELEMENTS", children=elems))
    if packs:
        n.children.append(Node("AR-PACKAGES", children=packs))
    return n


def make_document(tops, ver):
    """Real document with one package holding the described elements"""
    pkg = ar.Package("Pkg")
    for t in tops:
        pkg.append(build(t))
    return ar_document.Document([pkg], schema_version=ver)


def parse(text):
    return ElementTree.fromstring(text.encode("utf-8"))


def package_elem(xml_text):
    root = parse(xml_text)
    packs = [c for c in root if local(c.tag) == "AR-PACKAGES"]
    if len(packs) != 1 or len(packs[0]) != 1:
        raise TreeDiff("document does not hold exactly one package")
    return packs[0][0]
