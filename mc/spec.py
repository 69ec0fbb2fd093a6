"""
Reference model of the AUTOSAR XML schema subset the library supports:

* spec/schema.txt  -> what element/attribute every constructor parameter maps to, in order
* spec/enums.json  -> XML spelling of every enumeration value

and a deliberately boring serializer from descriptors (plain JSON-able trees)
to the XML tree the schema prescribes.

Descriptor forms
  scalar               str/int/float/bool
  {"e": "Enum.MEMBER"}             enumeration
  {"r": RefClass, "v": value, "d": DEST}   reference
  {"c": Class, "p": {param: descriptor}}   object
  {"nv": value, "f": FORMAT}       NumericalValue wrapper
  [ ... ]                          list
"""
import json
import os
from collections import namedtuple

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

Row = namedtuple("Row", "xml param codec args")


class Cls:
    def __init__(self, name, tag, kind):
        self.name, self.tag, self.kind, self.rows = name, tag, kind, []

    def row(self, param):
        for r in self.all_rows():
            if r.param == param:
                return r
        raise KeyError((self.name, param))

    def all_rows(self):
        """header rows followed by own rows"""
        return HEADER.get(self.kind, []) + self.rows


HEADER = {
    "referrable": [Row("SHORT-NAME", "name", "str", [])],
    "ident": [Row("SHORT-NAME", "name", "str", []),
              Row("LONG-NAME", "long_name", "obj", ["MultilanguageLongName"]),
              Row("DESC", "desc", "obj", ["MultiLanguageOverviewParagraph"]),
              Row("CATEGORY", "category", "str", []),
              Row("INTRODUCTION", "introduction", "setobj", ["DocumentationBlock"]),
              Row("ANNOTATIONS", "annotations", "setlist", ["ANNOTATION", "obj", "Annotation"]),
              Row("@UUID", "uuid", "str", [])],
}

GROUPS = {
    "VALSPEC": ["TextValueSpecification", "NumericalValueSpecification", "NotAvailableValueSpecification",
                "ArrayValueSpecification", "RecordValueSpecification", "ApplicationValueSpecification",
                "ConstantReference"],
    "ProvidePortComSpec": ["ModeSwitchSenderComSpec", "QueuedSenderComSpec", "NonqueuedSenderComSpec",
                           "NvProvideComSpec", "ParameterProvideComSpec", "ServerComSpec"],
    "RequirePortComSpec": ["QueuedReceiverComSpec", "NonqueuedReceiverComSpec", "NvRequireComSpec",
                           "ParameterRequireComSpec", "ModeSwitchReceiverComSpec", "ClientComSpec"],
    "SwcSupportedFeature": ["CommunicationBufferLocking"],
    "RteEvent": ["AsynchronousServerCallReturnsEvent", "BackgroundEvent", "DataReceiveErrorEvent",
                 "DataReceivedEvent", "DataSendCompletedEvent", "DataWriteCompletedEvent",
                 "ExternalTriggerOccurredEvent", "InitEvent", "InternalTriggerOccurredEvent",
                 "ModeSwitchedAckEvent", "OperationInvokedEvent", "SwcModeManagerErrorEvent",
                 "SwcModeSwitchEvent", "TimingEvent", "TransformerHardErrorEvent"],
}


def expand(alts):
    """'A|B@TAG|GROUP' -> [(class, tag or None)]"""
    out = []
    for a in alts.split("|"):
        name, _, tag = a.partition("@")
        for n in GROUPS.get(name, [name]):
            out.append((n, tag or None))
    return out


def load_schema():
    spec = {}
    with open(os.path.join(VERIF, "spec", "schema.txt"), encoding="utf-8") as fh:
        cur = None
        for line in fh:
            if line.startswith("#") or not line.strip():
                continue
            w = line.split()
            if w[0] == "class":
                cur = Cls(w[1], w[2], w[3] if len(w) > 3 else None)
                spec[cur.name] = cur
            else:
                cur.rows.append(Row(w[0], w[1], w[2], w[3:]))
    return spec


SPEC = load_schema()


def load_enums():
    with open(os.path.join(VERIF, "spec", "enums.json"), encoding="utf-8") as fh:
        return json.load(fh)


ENUMS = load_enums()     # {Enum: {MEMBER: xml text}}
REFS = json.load(open(os.path.join(VERIF, "spec", "refs.json"), encoding="utf-8"))   # {RefClass: [DEST,...]}

P_PORT_DEST = {"ABSTRACT_PROVIDED_PORT_PROTOTYPE", "P_PORT_PROTOTYPE", "PR_PORT_PROTOTYPE"}
R_PORT_DEST = {"ABSTRACT_REQUIRED_PORT_PROTOTYPE", "R_PORT_PROTOTYPE", "PR_PORT_PROTOTYPE"}


class Node:
    """Expected XML element.  kind: 'el' (children), 'str', 'num', 'mixed', 'raw' (XML text)"""
    __slots__ = ("tag", "attrs", "children", "kind", "value")

    def __init__(self, tag, kind="el", value=None, attrs=None, children=None):
        self.tag, self.kind, self.value = tag, kind, value
        self.attrs = attrs or {}
        self.children = children if children is not None else []


def enum_xml(d):
    ename, member = d["e"].split(".")
    return ENUMS[ename][member]


def dest_xml(member):
    return ENUMS["IdentifiableSubTypes"][member]


def num_node(tag, v, attrs=None):
    return Node(tag, "num", v, attrs)


def ser_ref(tag, d):
    return Node(tag, "str", d["v"], {"DEST": dest_xml(d["d"])})


def ser(d, tag=None, ver=51):
    """descriptor of an object -> Node"""
    c = SPEC[d["c"]]
    n = Node(tag or c.tag)
    for row in c.all_rows():
        if row.param in d["p"]:
            emit(n, row, d["p"][row.param], d["p"], ver)
    return n


def emit_item(parent, tag, kind, args, item, ver):
    if kind == "obj":
        own = dict(expand(args[0]))[item["c"]]
        parent.children.append(ser(item, own or (None if tag == "*" else tag), ver))
    elif kind == "ref":
        parent.children.append(ser_ref(tag, item))
    elif kind in ("num", "int"):
        parent.children.append(num_node(tag, item))
    else:
        parent.children.append(Node(tag, "str", item))


def emit(n, row, v, allp, ver):   # pylint: disable=too-many-branches,too-many-statements
    x, cd, a = row.xml, row.codec, row.args
    if x.startswith("@"):
        n.attrs[x[1:]] = enum_xml(v) if cd == "enum" else v
        return
    if x == "#text":
        n.kind, n.value = "str", v
        return
    if x == "#mixed":
        n.kind = "mixed"
        for part in v:
            n.children.append(part if isinstance(part, str) else ser(part, None, ver))
        return
    if cd in ("str", "fmtstr"):
        n.children.append(Node(x, "str", v))
    elif cd in ("int", "num", "float"):
        n.children.append(num_node(x, v))
    elif cd in ("align", "axisidx"):
        n.children.append(num_node(x, v) if isinstance(v, int) else Node(x, "str", v))
    elif cd == "bool":
        n.children.append(Node(x, "str", "true" if v else "false"))
    elif cd == "enum":
        n.children.append(Node(x, "str", enum_xml(v)))
    elif cd == "ref":
        n.children.append(ser_ref(x, v))
    elif cd in ("obj", "setobj"):
        own = dict(expand(a[0]))[v["c"]]
        n.children.append(ser(v, own or (None if x == "*" else x), ver))
    elif cd == "wrap":
        own = dict(expand(a[0]))[v["c"]]
        n.children.append(Node(x, children=[ser(v, own, ver)]))
    elif cd in ("list", "setlist"):
        if not isinstance(v, list):
            v = [v]
        if v:
            box = n if x == "." else Node(x)       # "." without an element around the items
            for item in v:
                emit_item(box, a[0], a[1], a[2:], item, ver)
            if box is not n:
                n.children.append(box)
    elif cd == "append":
        for item in v:
            n.children.append(ser(item, None, ver))
    elif cd == "vlist":
        for item in v:
            if isinstance(item, dict) and "c" in item:
                n.children.append(ser(item, None, ver))
            elif isinstance(item, str):
                n.children.append(Node("VT", "str", item))
            else:
                n.children.append(num_node("V", item["nv"] if isinstance(item, dict) else item))
    elif cd == "constval":
        n.children.append(Node("VT", "str", v) if isinstance(v, str) else num_node("V", v))
    elif cd == "limit":
        typ = allp.get(a[0], {"e": "IntervalType.CLOSED"})
        n.children.append(num_node(x, v, {"INTERVAL-TYPE": enum_xml(typ)}))
    elif cd == "portref":
        raise AssertionError("portref is emitted by its host")
    elif cd == "portiref":
        n.children.append(port_iref(v, x, a[0], ver))
    elif cd == "innerport":
        dest, outer = v["p"]["port_ref"]["d"], allp.get("outer_port", {}).get("d")
        require = outer not in P_PORT_DEST if outer and dest == "PR_PORT_PROTOTYPE" else dest not in P_PORT_DEST
        side = "R" if require else "P"
        n.children.append(Node(x, children=[port_iref(v, f"{side}-PORT-IN-COMPOSITION-INSTANCE-REF", side, ver)]))
    elif cd == "exarea":
        if ver >= 50:
            n.children.append(Node(x, children=[ser(i, None, ver) for i in v]))
        else:
            n.children.append(Node(a[0], children=[ser_ref(a[1], i["p"]["exclusive_area"]) for i in v]))
    else:
        raise KeyError(cd)


def port_iref(v, tag, side, ver):
    n = Node(tag)
    if "component_ref" in v["p"]:
        n.children.append(ser_ref("CONTEXT-COMPONENT-REF", v["p"]["component_ref"]))
    if "port_ref" in v["p"]:
        n.children.append(ser_ref(f"TARGET-{side}-PORT-REF", v["p"]["port_ref"]))
    return n


# --------------------------------------------------------------------------
# XML text of an expected tree (an independent, trivially correct serializer)

def esc(s, attr=False):
    s = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("\r", "&#13;")
    if attr:
        s = s.replace('"', "&quot;").replace("\n", "&#10;").replace("\t", "&#9;")
    return s


def num_text(v):
    if isinstance(v, bool):
        raise TypeError(v)
    if isinstance(v, int):
        return str(v)
    if v != v:
        return "NaN"
    if v in (float("inf"), float("-inf")):
        return "INF" if v > 0 else "-INF"
    return repr(v)


def to_xml(n, indent=""):
    if n.kind == "raw":
        return n.value
    at = "".join(f' {k}="{esc(v, True)}"' for k, v in n.attrs.items())
    if n.kind == "el":
        if not n.children:
            return f"{indent}<{n.tag}{at}/>\n"
        return (f"{indent}<{n.tag}{at}>\n" + "".join(to_xml(c, indent + " ") for c in n.children)
                + f"{indent}</{n.tag}>\n")
    if n.kind == "mixed":
        body = "".join(esc(c) if isinstance(c, str) else to_xml(c).rstrip("\n") for c in n.children)
    elif n.kind == "num":
        body = num_text(n.value)
    else:
        body = esc(n.value)
    return f"{indent}<{n.tag}{at}>{body}</{n.tag}>\n"


def document(packages_xml, ver=51):
    return ('<?xml version="1.0" encoding="utf-8"?>\n'
            '<AUTOSAR xsi:schemaLocation="http://autosar.org/schema/r4.0 AUTOSAR_%05d.xsd" '
            'xmlns="http://autosar.org/schema/r4.0" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance">\n'
            '<AR-PACKAGES>\n%s</AR-PACKAGES>\n</AUTOSAR>\n' % (ver, packages_xml))
