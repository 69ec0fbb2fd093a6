"""
C18: Values built from Python data are written as exactly that data.

All terms of the value language (scalars, labels, arrays and records, nested) up to a size are given
to every entry point of it; the written XML is decoded by an independent decoder into a term again,
which has to be the one given (keys in their canonical form).  Terms outside of the language are
refused.
"""
import itertools
import math
import xml.etree.ElementTree as ElementTree

from mc.harness import attempt, run
import autosar.xml.document as ar_document
import autosar.xml.element as ar
import autosar.xml.reader as ar_reader
import autosar.xml.writer as ar_writer

NS = "{http://autosar.org/schema/r4.0}"
INTS = [0, 1, -1, 255, 2 ** 64 - 1, -2 ** 63, 10 ** 30]
FLOATS = [0.0, 1.5, -2.25, 1e-7, 1e300, 5e-324, 0.1, 100.0, float("inf"), float("-inf")]
TEXTS = ["x", "Text value", "1", "0x10", "<&>\"'", "ARRAY", "é€", "None"]
LABELS = ["L", "Label2", "A"]
BAD = [b"x", {}, {"a": 1}, set(), object(), 1j, [], (), [1], [["A"]], [None], ["B", 1], ["", 1], ["ARR"], ("L",), (1, 2),
       (None, 1), ("L", 1, 2, 3), ("L", ("M", 1)), ("L", []), ("L", ["X", 1]), ("L", b"x"), (["A"], 1), ("L", 5, 255),
       ("L", "t", 255), ("L", ["A", 1], 255), ("L", None, -1), ("L", None, "x"), ("L", None, 1.5), ("L", {}),
       ["A", b"x"], ["A", []], ["R", ("L",)], ["A", ["R", {}]], ["A", 1, (1, 2)], ar.Unit("u"), ar.NumericalValueSpecification]


WRITER, READER = ar_writer.Writer(), ar_reader.Reader()


def meaning(data):
    """Canonical form: (kind, label, content)"""
    label, value, pattern = None, data, None
    if isinstance(data, tuple):
        label, value = data[:2]
        pattern = data[2] if len(data) > 2 else None
    if value is None:
        return ("none", label, pattern)
    if isinstance(value, str):
        return ("text", label, value)
    if isinstance(value, (int, float)):
        return ("number", label, value)
    kind = {"A": "array", "ARRAY": "array", "R": "record", "RECORD": "record"}[value[0].upper()]
    return (kind, label, tuple(meaning(v) for v in value[1:]))


def number(text):
    """Number of the XML"""
    if text in ("INF", "-INF"):
        return float(text.lower())
    try:
        return int(text)
    except ValueError:
        return float(text)


def decode(node):
    """Canonical form of an XML value"""
    label = node.findtext(f"{NS}SHORT-LABEL")
    tag = node.tag[len(NS):]
    known = {f"{NS}SHORT-LABEL"}
    if tag == "NUMERICAL-VALUE-SPECIFICATION":
        known.add(f"{NS}VALUE")
        res = ("number", label, number(node.findtext(f"{NS}VALUE")))
    elif tag == "TEXT-VALUE-SPECIFICATION":
        known.add(f"{NS}VALUE")
        res = ("text", label, node.findtext(f"{NS}VALUE"))
    elif tag == "NOT-AVAILABLE-VALUE-SPECIFICATION":
        known.add(f"{NS}DEFAULT-PATTERN")
        text = node.findtext(f"{NS}DEFAULT-PATTERN")
        res = ("none", label, None if text is None else int(text))
    elif tag in ("ARRAY-VALUE-SPECIFICATION", "RECORD-VALUE-SPECIFICATION"):
        name = {"A": "ELEMENTS", "R": "FIELDS"}[tag[0]]
        known.add(NS + name)
        parts = node.find(NS + name)
        res = ({"A": "array", "R": "record"}[tag[0]], label, tuple(decode(n) for n in (parts if parts is not None else ())))
    elif tag == "CONSTANT-REFERENCE":
        known.add(f"{NS}CONSTANT-REF")
        ref = node.find(f"{NS}CONSTANT-REF")
        res = ("constant", label, (ref.text, ref.get("DEST")))
    else:
        raise AssertionError(tag)
    extra = {n.tag for n in node} - known
    if extra:
        raise AssertionError(f"{tag} has {extra}")
    return res


def same(one, two):
    """Same canonical form; numbers of the same kind and value"""
    if one[0] != two[0] or one[1] != two[1]:
        return False
    if one[0] in ("array", "record"):
        return len(one[2]) == len(two[2]) and all(same(a, b) for a, b in zip(one[2], two[2]))
    if one[0] == "number":
        return one[2] == two[2] and (isinstance(two[2], int) or isinstance(one[2], float) or two[2] == int(two[2]))
    return one[2] == two[2] and type(one[2]) is type(two[2])


def documents(elem):
    document = ar_document.Document()
    package = document.make_packages("/P")
    package.append(elem)
    return document


def value_node(document_text, tag):
    root = ElementTree.fromstring(document_text)
    nodes = root.findall(f".//{NS}{tag}")
    assert len(nodes) == 1
    return None if len(nodes[0]) == 0 else nodes[0][0]


def interface():
    """A sender-receiver interface with one element, in a package"""
    document = ar_document.Document()
    port_interface = ar.SenderReceiverInterface("I")
    port_interface.create_data_element("E")
    document.make_packages("/P").append(port_interface)
    return document, port_interface


def entry_points(data):
    """(name, document, tag of the value in XML) for every way to give the value"""
    constant = ar.ConstantSpecification("C", ar.ValueSpecification.make_value(data))
    yield "make_value", documents(constant), "VALUE-SPEC"
    yield "make_constant", documents(ar.ConstantSpecification.make_constant("C", data)), "VALUE-SPEC"
    yield ("make_constant named", documents(ar.ConstantSpecification.make_constant(name="C", value=data, category="K")),
           "VALUE-SPEC")
    if data is None:
        if ar.ValueSpecification.make_value_with_check(data) is not None:
            raise AssertionError("make_value_with_check(None) is not None")
        return
    constant = ar.ConstantSpecification("C", ar.ValueSpecification.make_value_with_check(data))
    yield "make_value_with_check", documents(constant), "VALUE-SPEC"
    for cls, make, create in ((ar.ProvidePortComSpec, "make_non_queued_sender_com_spec", "create_provide_port"),
                              (ar.RequirePortComSpec, "make_non_queued_receiver_com_spec", "create_require_port")):
        swc = ar.ApplicationSoftwareComponentType("S")
        document = documents(swc)
        other, port_interface = interface()
        spec = getattr(cls, make)(data, data_element_ref=port_interface.data_elements[0].ref())
        getattr(swc, create)("p", port_interface, [spec])
        yield make, document, "INIT-VALUE"
        swc = ar.ApplicationSoftwareComponentType("S")
        document = documents(swc)
        getattr(swc, create)("p", port_interface, com_spec={"init_value": data})
        yield create, document, "INIT-VALUE"


def judge_constant(ref):
    """A reference to a constant is wrapped"""
    value = ar.ConstantRef(ref)
    want = ("constant", None, (ref, "CONSTANT-SPECIFICATION"))
    made = ar.ValueSpecification.make_value_with_check(value)
    swc1, swc2 = ar.ApplicationSoftwareComponentType("S"), ar.ApplicationSoftwareComponentType("S")
    _, port_interface = interface()
    points = [("make_value_with_check", documents(ar.ConstantSpecification("C", made)), "VALUE-SPEC")]
    for cls, make, create in ((ar.ProvidePortComSpec, "make_non_queued_sender_com_spec", "create_provide_port"),
                              (ar.RequirePortComSpec, "make_non_queued_receiver_com_spec", "create_require_port")):
        swc1, swc2 = ar.ApplicationSoftwareComponentType("S"), ar.ApplicationSoftwareComponentType("S")
        points += [(make, documents(swc1), "INIT-VALUE"), (create, documents(swc2), "INIT-VALUE")]
        spec = getattr(cls, make)(init_value=value, data_element_ref=port_interface.data_elements[0].ref())
        getattr(swc1, create)("p", port_interface, [spec])
        getattr(swc2, create)("p", port_interface, com_spec={"init_value": value})
    for name, document, tag in points:
        text = WRITER.write_str(document, skip_root_attr=False)
        got = decode(value_node(text, tag))
        if got != want:
            return f"{name}: {got}, expected {want}"
        if WRITER.write_str(READER.read_str(text), skip_root_attr=False) != text:
            return f"{name}: not read back"
    return None


def judge(data):
    if data["kind"] == "constant":
        return judge_constant(data["term"])
    term = untuple(data["term"])
    if data["kind"] == "bad":
        return judge_bad(BAD[data["term"]])
    want = meaning(term)
    for name, document, tag in entry_points(term):
        text = WRITER.write_str(document, skip_root_attr=False)
        got = decode(value_node(text, tag))
        if not same(want, got):
            return f"{name}: {want} is written as {got}"
        copy = READER.read_str(text)
        again = WRITER.write_str(copy, skip_root_attr=False)
        if again != text:
            return f"{name}: read back and written as {again!r}"
    # a value that is one already, and a constant reference, are taken as they are
    value = ar.ValueSpecification.make_value(term)
    if ar.ValueSpecification.make_value_with_check(value) is not value:
        return "a value specification is not taken as it is"
    return None


def judge_bad(term):
    for name, func in (("make_value", ar.ValueSpecification.make_value),
                       ("make_constant", lambda t: ar.ConstantSpecification.make_constant("C", t)),
                       ("make_value_with_check", ar.ValueSpecification.make_value_with_check)):
        res, ex = attempt(func, term)
        if ex is None:
            text, ex = attempt(lambda: WRITER.write_str(documents(
                res if name == "make_constant" else ar.ConstantSpecification("C", res))))   # pylint: disable=W0640
        if ex is None:
            return f"{name}({term!r}) is accepted: {text!r}"
    return None


def untuple(item):
    """Terms travel through replay files as {"t": [...]} for tuples, {"f": ...} for special floats"""
    if isinstance(item, dict):
        if "t" in item:
            return tuple(untuple(i) for i in item["t"])
        return float(item["f"])
    if isinstance(item, list):
        return [untuple(i) for i in item]
    return item


def pack(item):
    if isinstance(item, tuple):
        return {"t": [pack(i) for i in item]}
    if isinstance(item, list):
        return [pack(i) for i in item]
    if isinstance(item, float) and math.isinf(item):
        return {"f": str(item)}
    return item


def labelled(values, labels):
    for value in values:
        yield value
        for label in labels:
            yield (label, value)


def level0(thorough):
    return [*labelled(INTS + FLOATS + TEXTS, LABELS), *labelled([None], LABELS), ("L", None, 0), ("L", None, 255),
            ("L", None, 2 ** 40)]


def small():
    return [1, ("F", 2.5), "t", ("L", None, 7), None]


def lists(inner, marks, sizes):
    for mark in marks:
        for size in sizes:
            for content in itertools.product(inner, repeat=size):
                yield [mark, *content]


def large(kind, thorough):
    """Long lists, deep lists, long texts"""
    sizes = (*range(4, 41), 64, 65, 100, 101, 128, 129, 255, 256, 257, *((1000, 1001) if thorough else ()))
    if kind == "long":
        for n in sizes:
            for mark in ("A", "R"):
                yield [mark, *range(n)]
                yield [mark, *(f"t{i}" for i in range(n))]
                yield ("L", [mark, *((f"L{i}", i * 0.5) for i in range(n))])
                yield [mark, *(small()[i % 5] for i in range(n))]
                yield [mark, *([None] * (n - 1)), 5]
                yield [mark, *([7] * n)]
                if n < 20:
                    yield [mark, *(["RA"[i % 2], *range(i)] for i in range(n))]
                    yield [mark, *((f"L{i}", [mark, *range(n)]) for i in range(n))]
    elif kind == "deep":
        for n in range(2, 41 if thorough else 25):
            for marks in ("A", "R", "AR", "RRA"):
                for leaf in (1, "t", ("L", 2.5), None):
                    plain = wrapped = tail = leaf
                    for i in range(n):
                        mark = marks[i % len(marks)]
                        plain, wrapped, tail = [mark, plain], (f"L{i}", [mark, wrapped]), [mark, i, tail, i + 1]
                    yield plain
                    yield wrapped
                    yield tail
    else:
        for n in (*sizes, 1000, 5000):
            for text in ("x" * n, "x" * n + "y", "a " * n + "b", "0" * n, "9" * n):
                yield text
                yield ["A", text, ("L", text)]
            yield ("L" * n, 1)
            yield ("L" * n + "M", ["R", ("L" * n, 2), ("L" * n, None)])
            if n < 300:
                yield 10 ** n - 1
                yield ["A", -10 ** n, ("L", 10 ** n + 1)]


MARKS = ["A", "ARRAY", "a", "Array", "R", "RECORD", "r", "Record"]


def groups(thorough):
    yield ["scalars"]
    yield ["bad"]
    yield ["constants"]
    for kind in ("long", "deep", "text"):
        yield ["large", kind]
    for mark in MARKS:
        yield ["flat", mark]
    for mark in ("A", "R"):
        for num in range(24):
            yield ["nested", mark, num]


def cases(group, thorough):
    if group[0] == "bad":
        for num, term in enumerate(BAD):
            yield f"bad {term!r}"[:150], {"kind": "bad", "term": num}
        return
    if group[0] == "constants":
        for ref in ("/C", "/Package/Constant", "/a/b/c/d"):
            yield f"constant {ref}", {"kind": "constant", "term": ref}
        return
    for term in large(group[1], thorough) if group[0] == "large" else terms(group, thorough):
        yield repr(term)[:300], {"kind": "good", "term": pack(term)}


def terms(group, thorough):
    if group[0] == "scalars":
        yield from level0(thorough)
    elif group[0] == "flat":
        for size in range(5 if thorough else 4):
            yield from labelled(lists(small(), [group[1]], [size]), LABELS[:1])
        yield from ([group[1], item] for item in level0(thorough))
        yield from ([group[1], item, 1, item] for item in level0(thorough))
    else:
        _, mark, num = group
        inner = list(labelled(lists([1, ("F", "t"), None], ["A", "RECORD"], range(3)), ["G"]))
        inner2 = list(labelled(lists(inner[::5] + [1], ["ARRAY", "R"], range(2)), ["H"]))
        count = 0
        pool = inner + [1, ("F", 2.5)] + inner2
        for size in (1, 2, 3) if thorough else (1, 2):
            for content in itertools.product(pool if size < 3 else pool[::3], repeat=size):
                count += 1
                if count % 24 == num:
                    yield [mark, *content]
                    if size == 1:
                        yield ("L", [mark, *content])


if __name__ == "__main__":
    run("C18", groups, cases, judge)
