"""
Tolerance of the reader: content the library does not know, comments, processing
instructions, white space and namespace spelling never change what is read.

Every position of every element of the fully populated (thorough: and of every
single-parameter) document of every class gets every kind of foreign content.
"""
import os
import re
import tempfile

from mc import build as b
from mc import spec
from mc.cases import cases, ordered
from mc.harness import quiet, run
from mc.spec import SPEC, Node

UNKNOWN = {
    "leaf": ("<VENDOR-X>text</VENDOR-X>", "VENDOR-X"),
    "named": ("<VENDOR-X><SHORT-NAME>vv</SHORT-NAME><CATEGORY>c</CATEGORY></VENDOR-X>", "VENDOR-X"),
    "foreign": ('<v:CATEGORY xmlns:v="http://vendor.example">c</v:CATEGORY>', "{http://vendor.example}CATEGORY"),
    "foreign name": ('<v:SHORT-NAME xmlns:v="http://vendor.example">c</v:SHORT-NAME>',
                     "{http://vendor.example}SHORT-NAME"),
}
NOTES = {"comment": "<!-- <CATEGORY>x</CATEGORY> -->", "pi": "<?tool x?>", "both": "<!-- a --><?b c?><!-- d -->"}
ATTRS = {"vendor": {"VENDOR-X": "1"}, "legal": {"S": "sum", "T": "2024-01-01T00:00:00Z"}, "blueprint": {"BLUEPRINT-VALUE": "b"}}
# places where the schema wants exactly one child or text and elements mixed, or where the library refuses content it
# does not know: there the element may be dropped instead, with a message
STRICT = {"L-1", "L-2", "L-4", "L-5", "DISPLAY-NAME", "UNIT-DISPLAY-NAME", "EVENTS", "PROVIDED-COM-SPECS",
          "REQUIRED-COM-SPECS", "VALUE-SPEC", "FIELDS", "VG", "INIT-VALUE", "RAM-BLOCK-INIT-VALUE",
          "ROM-BLOCK-INIT-VALUE", "TIMEOUT-SUBSTITUTION-VALUE", "PORT-DEFINED-ARGUMENT-VALUE/VALUE",
          "ARRAY-VALUE-SPECIFICATION/ELEMENTS"}
# content of the AUTOSAR schema the library does not support
KNOWN = [tag for tag in (
    "VARIATION-POINT SETTER-REF GETTER-REF DATA-UPDATE-PERIOD CONSTANT-VALUE-MAPPING-REFS COMPOSITE-NETWORK-REPRESENTATIONS "
    "VENDOR-ID VARIATION-POINT-PROXYS USED-LANGUAGES USED-CODE-GENERATOR UNIT-GROUP-REFS TYPE-BLUEPRINTS "
    "SWC-MAPPING-CONSTRAINT-REFS SWC-BSW-MAPPING-REF SW-VERSION SW-VALUE-BLOCK-SIZE-MULTS SW-COMPONENT-DOCUMENTATIONS "
    "SUPPORTS-MULTIPLE-INSTANTIATION STATIC-MEMORYS SHARED-PARAMETERS SERVICE-INTERFACE-ELEMENT-MAPPING-REFS "
    "SERVICE-DEPENDENCYS SENDER-INTENT SECTION-TYPE SECTION-INITIALIZATION-POLICY RESOURCE-CONSUMPTION "
    "REQUIRED-GENERATOR-TOOLS REQUIRED-ARTIFACTS RECEIVER-INTENT PROGRAMMING-LANGUAGE POSSIBLE-AP-ERROR-SET-REFS "
    "POSSIBLE-AP-ERROR-REFS PORT-API-OPTIONS PER-INSTANCE-PARAMETERS PER-INSTANCE-MEMORYS PER-INSTANCE-MEMORY-SIZES OPTIONS "
    "NAMESPACES META-DATA-ITEM-SETS MEMORY-ALLOCATION-KEYWORD-POLICY MC-SUPPORT MAPPING-REF LINKERS "
    "INSTANTIATION-RTE-EVENT-PROPSS INSTANTIATION-DATA-DEF-PROPSS INCLUDED-MODE-DECLARATION-GROUP-SETS "
    "INCLUDED-DATA-TYPE-SETS HW-ELEMENT-REFS HANDLE-TERMINATION-AND-RESTART GENERATED-ARTIFACTS EXTERNAL-REPLACEMENT-REF "
    "EXPLICIT-INTER-RUNNABLE-VARIABLES EXCLUSIVE-AREA-POLICYS EXCLUSIVE-AREA-NESTING-ORDERS DOC-REVISIONS "
    "CONSTANT-MEMORYS CONSISTENCY-NEEDSS COMPILERS CLIENT-INTENT CALLBACK-HEADER-REFS BUILD-ACTION-MANIFESTS "
    "AR-TYPED-PER-INSTANCE-MEMORYS SHORT-NAME-FRAGMENTS SYMBOL-PROPS FILE-INFO-COMMENT").split()
    if not any(row.xml == tag for c in SPEC.values() for row in c.all_rows())]
INNER = '<SHORT-LABEL>x</SHORT-LABEL><SDG GID="q"><SD>1</SD></SDG><A-REF DEST="UNIT">/A/B</A-REF>'
IN_TEXT = {"L-1": ["FT", "STD", "TRACE-REF", "XDOC", "XFILE", "XREF", "XREF-TARGET"], "L-2": ["FT", "TRACE-REF", "XREF"],
           "L-5": ["XREF"]}
SD = '<SD GID="k">v</SD>'
ADMIN = {
    "empty": "", "language": "<LANGUAGE>EN</LANGUAGE><USED-LANGUAGES><L-10 L='EN' xml:space='preserve'>E</L-10></USED-LANGUAGES>",
    "revisions": "<DOC-REVISIONS><DOC-REVISION><REVISION-LABEL>1.0</REVISION-LABEL></DOC-REVISION></DOC-REVISIONS>",
    "no groups": "<SDGS/>", "empty group": '<SDGS><SDG GID="g"/></SDGS>', "no names": "<SDGS><SDG><SD>v</SD></SDG></SDGS>",
    "one": f'<SDGS><SDG GID="g">{SD}</SDG></SDGS>', "two": f'<SDGS><SDG GID="g">{SD}{SD}</SDG><SDG GID="h">{SD}</SDG></SDGS>',
    "nested": f'<SDGS><SDG GID="g"><SDG GID="g">{SD}</SDG></SDG></SDGS>',
    "mixed": f'<SDGS><SDG GID="g"><SDG-CAPTION><SHORT-NAME>c</SHORT-NAME></SDG-CAPTION><SDG GID="h">{SD}</SDG><SD/>'
             '<SDF GID="f">1.5</SDF><SD-REF DEST="UNIT">/A/B</SD-REF></SDG></SDGS>',
    "noted": f'<!-- a --><SDGS><!-- b --><SDG GID="g"><!-- c -->{SD}</SDG></SDGS>',
}
HEAD = {"SHORT-NAME", "LONG-NAME", "DESC", "CATEGORY"}
BEFORE = {"c": "Unit", "p": {"name": "AaBefore", "factor": 2.0}}
AFTER = {"c": "Unit", "p": {"name": "ZzAfter", "offset": 3.0}}


def params_of(cname, label):
    for lab, p in cases(cname, False):
        if lab == label:
            return p
    raise KeyError((cname, label))


_cache = {}


def subject(cname, label):
    if (cname, label) not in _cache:
        _cache.clear()
        d = b.embed(cname, ordered(cname, params_of(cname, label)))
        _cache[cname, label] = ([BEFORE, d, AFTER], b.make_document([BEFORE, d, AFTER], 51))
    return _cache[cname, label]


def positions(node, parent=None):
    """(node, parent, index) for every child position below node"""
    if node.kind in ("el", "mixed"):
        for i in range(len(node.children) + 1):
            yield node, parent, i
        for c in node.children:
            if isinstance(c, Node):
                yield from positions(c, node)


def elements(node):
    yield node
    for c in node.children:
        if isinstance(c, Node) and c.kind != "raw":
            yield from elements(c)


def strict(node, parent):
    return node.tag in STRICT or (parent is not None and f"{parent.tag}/{node.tag}" in STRICT)


def read(text, **kwargs):
    reader = b.ar_reader.Reader(**kwargs)
    doc, out, err = quiet(reader.read_str, text)
    return doc, out, err


def same(expect, doc):
    return b.diff_values(expect.packages, doc.packages, "packages")


def without_admin(obj):
    """The library does not keep these data yet: what it has of them does not matter"""
    todo, seen = [obj], set()
    while todo:
        item = todo.pop()
        if isinstance(item, (list, tuple)):
            todo.extend(item)
        elif hasattr(item, "__dict__") and id(item) not in seen and not isinstance(item, type):
            seen.add(id(item))
            if getattr(item, "admin_data", None) is not None:
                item.admin_data = None
            todo.extend(v for k, v in vars(item).items() if k not in ("parent", "_parent"))
    return obj


def judge_known(cname, label, kind, what, at):
    """Content of the schema which the library does not support"""
    tops, expect = subject(cname, label)
    root = b.package_node(tops, 51)
    tags = [what]
    if kind == "known":
        node = list(elements(root))[at]
        tags = [t for t in KNOWN if t != node.tag]
        if not node.children:
            node.kind = "el"
        node.children.extend(Node("", "raw", f"<{t}>{INNER}</{t}>") for t in tags)
    elif kind == "in text":
        node, _, i = list(positions(root))[at]
        node.children.insert(i, Node("", "raw", f'<{what} DEST="UNIT">/A/B</{what}>'))
    else:
        node = list(elements(root))[at]
        i = max(n for n, c in enumerate(node.children) if isinstance(c, Node) and c.tag in HEAD) + 1
        node.children.insert(i, Node("", "raw", f"<ADMIN-DATA>{ADMIN[what]}</ADMIN-DATA>"))
        tags = ["ADMIN-DATA"]
    for warn in (True, False):
        doc, out, err = read(spec.document(spec.to_xml(root), 51), warn_on_unprocessed_element=warn)
        d = same(expect, without_admin(doc))
        if d:
            return d
        if out or (err and not warn):
            return f"printed {(out + err)[:150]!r}"
        lines = err.splitlines()
        for line in lines:
            if not any(line.endswith(f"Unprocessed element <{t}>") for t in tags):
                return f"reported {line[:150]!r}"
        if len({x.rpartition(": ")[2] for x in lines}) != len(lines):
            return f"reported more than once: {lines[0][:150]!r}"
    return None


def judge(data):    # pylint: disable=too-many-return-statements,too-many-branches
    cname, label, kind = data["class"], data["label"], data["kind"]
    if kind == "many":
        return judge_many(cname, label, data["count"], data["at"])
    if kind in ("known", "in text", "admin"):
        return judge_known(cname, label, kind, data["what"], data["at"])
    tops, expect = subject(cname, label)
    root = b.package_node(tops, 51)
    if kind == "unknown":
        xml, tag = UNKNOWN[data["what"]]
        places = list(positions(root))
        chosen = [places[n] for n in data["at"]]
        for node, _, i in sorted(chosen, key=lambda t: -t[2]):
            node.children.insert(i, Node("", "raw", xml))
        text = spec.document(spec.to_xml(root), 51)
        doc, out, err = read(text)
        return judge_unknown(expect, doc, out, err, chosen, tag, text)
    if kind == "note":
        node, _, i = list(positions(root))[data["at"]]
        if not node.children:
            node.kind = "mixed"       # no white space around the note
        node.children.insert(i, Node("", "raw", NOTES[data["what"]]))
        text = spec.document(spec.to_xml(root), 51)
    elif kind == "attr":
        node = list(elements(root))[data["at"]]
        node.attrs = {**node.attrs, **ATTRS[data["what"]]}
        text = spec.document(spec.to_xml(root), 51)
    elif kind == "layout":
        text = LAYOUTS[data["what"]](spec.document(spec.to_xml(root), 51))
    elif kind == "file":
        return judge_file(root, expect, data["at"])
    doc, out, err = read(text)
    d = same(expect, doc)
    if d:
        return d
    if out or err:
        return f"printed {(out + err)[:150]!r}"
    return None


def judge_many(cname, label, count, at):
    """Many unknown elements: in one place, or (at is None) in every place that allows them"""
    tops, expect = subject(cname, label)
    root = b.package_node(tops, 51)
    parents = {id(c): node for node in elements(root) for c in node.children if isinstance(c, Node)}
    nodes = [n for n in elements(root) if n.kind == "el" and not holds_one(n, parents.get(id(n)))]
    must, allowed = [], []
    for n, node in enumerate(nodes if at is None else [nodes[at]]):
        named = any(isinstance(c, Node) and c.tag == "SHORT-NAME" for c in node.children)
        tags = [f"VENDOR-{n}-{i}" for i in range(count)]
        (must if named else allowed).extend(tags)
        for i, tag in enumerate(tags):      # spread over the element, the first behind the first child
            node.children.insert(1 + (i * 7) % len(node.children),
                                 Node("", "raw", f"<{tag}><SHORT-NAME>vv</SHORT-NAME></{tag}>" * (1 + i % 2)))
    doc, out, err = read(spec.document(spec.to_xml(root), 51))
    d = same(expect, doc)
    if d:
        return d
    if out:
        return f"printed {out[:150]!r}"
    lines = err.splitlines()
    got = [x.partition("Unprocessed element <")[2][:-1] for x in lines]
    for line, tag in zip(lines, got):
        if not line.endswith(f"Unprocessed element <{tag}>") or tag not in must + allowed:
            return f"reported {line[:150]!r}"
    if len(set(got)) != len(got):
        return "an unknown element is reported more than once"
    lost = [t for t in must if t not in got]
    return f"{len(lost)} of {len(must)} unknown elements are not reported: {lost[:3]}" if lost else None


def judge_unknown(expect, doc, out, err, chosen, tag, text):
    d = same(expect, doc)
    first_only = any(n.tag == "INNER-PORT-IREF" and i == 0 for n, _, i in chosen)
    if first_only:
        return None
    if any(strict(n, p) for n, p, _ in chosen):
        if d and not (out or err):
            return f"content changed without any message: {d}"
        names = [e.name for e in doc.packages[0].elements]
        if names[:1] != ["AaBefore"] or names[-1:] != ["ZzAfter"]:
            return f"other elements of the package are lost: {names}"
        return None
    if d:
        return d
    line = f"Unprocessed element <{tag}>"
    if out:
        return f"printed {out[:150]!r}"
    extra = [x for x in err.splitlines() if not x.endswith(line)]
    if extra:
        return f"reported {extra[0][:150]!r}"
    named = any(isinstance(c, Node) and c.tag == "SHORT-NAME" for n, _, _ in chosen for c in n.children)
    n = err.count(line)
    if named and n == 0:
        return "unknown element is not reported"
    if n > 1:
        return f"unknown element is reported {n} times"
    doc2, out2, err2 = read(text, warn_on_unprocessed_element=False)
    if out2 or err2:
        return f"warnings are switched off but {(out2 + err2)[:100]!r} is printed"
    d = same(expect, doc2)
    return d and f"with warnings switched off: {d}"


def judge_file(root, expect, at):
    """Reported position: file name and line of the unknown element"""
    places = [t for t in positions(root) if t[0].kind == "el" and not strict(t[0], t[1])]
    node, _, i = places[at]
    node.children.insert(i, Node("", "raw", "<VENDOR-X>text</VENDOR-X>\n"))
    text = spec.document(spec.to_xml(root), 51)
    line = text[:text.index("<VENDOR-X>")].count("\n") + 1
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "in put.arxml")
        with open(path, "w", encoding="utf-8", newline="") as fh:
            fh.write(text)
        for full in (False, True):
            reader = b.ar_reader.Reader(use_full_path_on_warning=full)
            doc, out, err = quiet(reader.read_file, path)
            d = same(expect, doc)
            if d and not (node.tag == "INNER-PORT-IREF" and i == 0):
                return "read_file: " + d
            if out:
                return f"printed {out[:150]!r}"
            want = f"{path if full else 'in put.arxml'}({line}): Unprocessed element <VENDOR-X>"
            if err.strip() not in ("", want):
                return f"reported {err.strip()[:200]!r}, expected {want!r}"
    return None


def between(sep):
    """Replaces white space between tags"""
    return lambda t: re.sub(r">\s+<", lambda m: ">" + sep + "<", t)


def prefixed(t):
    head, tail = t.split("<AUTOSAR", 1)
    body = ("<AUTOSAR" + tail).replace('xmlns="', 'xmlns:ar="')
    body = re.sub(r"<(/?)([A-Z])", r"<\1ar:\2", body)
    return head + body


LAYOUTS = {
    "dense": between(""), "newlines": between("\n"), "tabs": between("\n\t\t"), "crlf": between("\r\n  "),
    "spaces": between("   "), "blank lines": between("\n\n\n"),
    "comments": lambda t: re.sub(r">\s+<(?=[A-Z/])", "><!-- note --><", t),
    "pis": lambda t: re.sub(r">\s+<(?=[A-Z/])", "><?tool x?><", t),
    "prefix": prefixed,
    "trailing": lambda t: t + "\n\n<!-- end -->\n<?x y?>\n",
    "attr quotes": lambda t: re.sub(r'(DEST|L|UUID|INTERVAL-TYPE)="([^"\']*)"', r"\1='\2'", t),
    "attr space": lambda t: re.sub(r'(DEST|L|UUID|INTERVAL-TYPE)="([^"\']*)"', '\n \\1 = "\\2" ', t),
    "end tag space": lambda t: re.sub(r"</([A-Z0-9-]+)>", r"</\1 >", t),
    "empty elements": lambda t: re.sub(r"<([A-Z0-9-]+)((?: [^<>]*)?)/>", r"<\1\2></\1>", t),
    "declaration": lambda t: t.replace('<?xml version="1.0" encoding="utf-8"?>\n', ""),
    "declaration standalone": lambda t: t.replace('encoding="utf-8"?>', 'encoding="UTF-8" standalone="no"?>'),
    "bom": lambda t: "\ufeff" + t,
}


def holds_one(node, parent):
    """Places where the library wants to know everything"""
    return strict(node, parent) or not any(isinstance(c, Node) for c in node.children)


def labels(cname, thorough):
    out = ["full"]
    for lab, _ in cases(cname, False):
        if thorough and lab.startswith("min+") and lab.count("+") == 1 and lab.endswith("#0"):
            out.append(lab)
    return out


def groups(thorough):
    return [(c, lab) for c in b.PATHS for lab in labels(c, thorough)]


def gen(group, thorough):    # pylint: disable=too-many-locals
    cname, label = group
    tops, _ = subject(cname, label)
    root = b.package_node(tops, 51)
    places = list(positions(root))
    base = {"class": cname, "label": label}

    def case(kind, what, at):
        tag = places[at][0].tag if kind in ("unknown", "note") and isinstance(at, int) else ""
        return f"{cname}:{label}:{kind} {what} in {tag}@{at}", {**base, "kind": kind, "what": what, "at": at}, kind

    for n in range(len(places)):
        whats = UNKNOWN if thorough or label == "full" else ["named"]
        for what in whats:
            key, data, out = case("unknown", what, n)
            yield key, {**data, "at": [n]}, out, 2
        for what in NOTES if thorough else ["both"]:
            yield case("note", what, n)
    if label == "full" and thorough:
        for i in range(len(places)):
            for j in range(i + 1, len(places)):
                if len(places) > 60 and j > i + 12:
                    continue
                yield f"{cname}:{label}:unknown twice@{i},{j}", {**base, "kind": "unknown", "what": "named",
                                                               "at": [i, j]}, "unknown", 2
    for n in range(len(list(elements(root)))):
        for what in ATTRS:
            yield case("attr", what, n)
    parents = {id(c): node for node in elements(root) for c in node.children if isinstance(c, Node)}
    for n, node in enumerate(elements(root)):
        if node.kind == "el" and not holds_one(node, parents.get(id(node))):
            yield case("known", "", n)
        if any(isinstance(c, Node) and c.tag == "SHORT-NAME" for c in node.children):
            for what in ADMIN:
                yield case("admin", what, n)
    many = [n for n in elements(root) if n.kind == "el" and not holds_one(n, parents.get(id(n)))]
    for count in (12, 40) if not thorough else (2, 5, 12, 40, 130):
        for at in [None, *range(len(many))]:
            yield (f"{cname}:{label}:{count} unknown @{at}",
                   {**base, "kind": "many", "count": count, "at": at}, "many", 1)
    for n, (node, _, _) in enumerate(places):
        for what in IN_TEXT.get(node.tag, []):
            if node.kind == "mixed":
                yield case("in text", what, n)
    for what in LAYOUTS:
        yield case("layout", what, 0)
    plain = [t for t in places if t[0].kind == "el" and not strict(t[0], t[1])]
    for n in range(len(plain)):
        yield case("file", "", n)


run("C07", groups, gen, judge, extra={"classes": len(b.PATHS)},
    assumptions=["foreign content is represented by four kinds of unknown element, three kinds of note and three sets "
                 "of attributes; two foreign elements in any two places at a time (thorough), or up to 40 (thorough 130) different ones in one "
                 "element or in all elements",
                 "inside " + ", ".join(sorted(STRICT)) + " unknown elements may make the reader reject the element, "
                 "with a message"])
