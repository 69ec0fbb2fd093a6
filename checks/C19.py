"""
C19: Computations and constraints mean in XML what they were made of.

All value tables, linear computations and constraints over a grid of contents are made by the
convenience methods (and by the constructors they stand for) and written.  An independent interpreter
of the XML evaluates them for all values of a grid: the text, the number or the verdict has to be
what the arguments say.  check_value gives the interpreter's verdict before writing and after reading.
"""
import itertools
import math
import xml.etree.ElementTree as ElementTree
from fractions import Fraction

from mc.harness import attempt, run
import autosar.xml.document as ar_document
import autosar.xml.element as ar
import autosar.xml.enumeration as ar_enum
import autosar.xml.reader as ar_reader
import autosar.xml.writer as ar_writer

NS = "{http://autosar.org/schema/r4.0}"
WRITER, READER = ar_writer.Writer(), ar_reader.Reader()
CLOSED, OPEN = ar_enum.IntervalType.CLOSED, ar_enum.IntervalType.OPEN
KINDS = {None: None, "CLOSED": CLOSED, "OPEN": OPEN}
INF = float("inf")

ITEMS = ["Off", "On & <off>", ["t", 5, "A"], ["t", -3, "B"], ["t", 1, 4, "C"], ["t", 0, "Off"], ["t", 2, 7], ["t", 1, 2, 2.5],
         ["t", 2.5, "Half"], ["t", -10, -8, "Neg " * 80 + "end"], ["t", 4, 1, "Empty"], ["t", 2 ** 63, "Big"],
         ["t", 0.1 + 0.2, "Sum"], ["t", 1e-7, 1e22, 1e-7]]
BAD_ITEMS = [1, None, ["t"], ["t", 1], ["t", 1, 2, 3, 4], ["l", 1, "A"], {}, ["t", 1, None], b"x", ["t", None, "A", "B"]]
DEFAULTS = [None, "dflt", 0, -1, 2.5, ["c", "const"], ["c", 9], 1e-7, 2 ** 53 + 1]
GRID = [-11, -10, -9, -8, -3, -1, 0, 1, 2, 2.25, 2.5, 3, 4, 5, 6, 100, 2 ** 63, 2 ** 63 - 1, 1e-7, 1e22]


def term(item):
    """Python value of an item of a replay file"""
    if isinstance(item, list):
        if item[0] == "t":
            return tuple(item[1:])
        if item[0] == "c":
            return ar.CompuConst(item[1])
        if item[0] == "f":
            return float(item[1])
        return item[1:]
    return item


def plain(item):
    return item[1] if isinstance(item, list) else item


def number(text):
    if text in ("INF", "-INF"):
        return float(text.lower())
    try:
        return int(text, 0)
    except ValueError:
        return float(text)


def write_and_read(elem):
    """-> (XML node of the element, element read back) or raises AssertionError"""
    document = ar_document.Document()
    document.make_packages("/P").append(elem)
    text = WRITER.write_str(document, skip_root_attr=False)
    copy = READER.read_str(text)
    if WRITER.write_str(copy, skip_root_attr=False) != text:
        raise AssertionError("not read back the same: " + text)
    return ElementTree.fromstring(text).find(f".//{NS}ELEMENTS")[0], copy.find(f"/P/{elem.name}")


def bound(node, tag):
    """-> (number, closed) or None"""
    child = node.find(NS + tag)
    if child is None:
        return None
    return number(child.text), {"CLOSED": True, "OPEN": False}[child.get("INTERVAL-TYPE", "CLOSED")]


def inside(value, lower, upper):
    """Is the value between two bounds?"""
    if value != value:
        return False
    if lower is not None and not (value > lower[0] or lower[1] and value == lower[0]):
        return False
    return not (upper is not None and not (value < upper[0] or upper[1] and value == upper[0]))


def constant(node):
    """Value of a COMPU-CONST"""
    text, value = node.find(f"{NS}VT"), node.find(f"{NS}V")
    if (text is None) == (value is None):
        raise AssertionError("neither text nor number: " + ElementTree.tostring(node, "unicode"))
    return (text.text or "") if text is not None else number(value.text)


def scales(node):
    """[(lower, upper, label, content)] and default of a computation"""
    res = []
    for scale in node.findall(f"{NS}COMPU-SCALES/{NS}COMPU-SCALE"):
        content = None
        if scale.find(f"{NS}COMPU-CONST") is not None:
            content = constant(scale.find(f"{NS}COMPU-CONST"))
        elif scale.find(f"{NS}COMPU-RATIONAL-COEFFS") is not None:
            content = tuple([Fraction(v.text) for v in scale.findall(f"{NS}COMPU-RATIONAL-COEFFS/{NS}{tag}/{NS}V")]
                            for tag in ("COMPU-NUMERATOR", "COMPU-DENOMINATOR"))
        res.append((bound(scale, "LOWER-LIMIT"), bound(scale, "UPPER-LIMIT"), scale.findtext(f"{NS}SHORT-LABEL"), content))
    default = node.find(f"{NS}COMPU-DEFAULT-VALUE")
    return res, None if default is None else constant(default)


def poly(coeffs, value):
    return sum((c * Fraction(repr(value)) ** n for n, c in enumerate(coeffs)), Fraction(0))


def evaluate(table, default, value):
    """Interpreter of computations"""
    for lower, upper, _, content in table:
        if inside(value, lower, upper):
            if isinstance(content, tuple):
                return poly(content[0], value) / poly(content[1], value)
            return content
    return default


def equal(one, two):
    """Same text or same number"""
    return isinstance(one, str) == isinstance(two, str) and one == two


def method(computation, where):
    """CompuMethod around a computation"""
    if where == "int_to_phys":
        return ar.CompuMethod("M", computation)
    return ar.CompuMethod("M", phys_to_int=computation)


def node_of(xml, where):
    nodes = [xml.find(NS + t) for t in ("COMPU-INTERNAL-TO-PHYS", "COMPU-PHYS-TO-INTERNAL")]
    if where == "phys_to_int":
        nodes.reverse()
    assert nodes[0] is not None and nodes[1] is None
    return nodes[0]


def judge_table(data):
    items = [term(i) for i in data["items"]]
    args = {}
    if data["default"] is not None:
        args["default_value"] = term(data["default"])
    if data["auto_label"] is not None:
        args["auto_label"] = data["auto_label"]
    if data["how"] == "positional":
        computation = ar.Computation.make_value_table(items, args.get("default_value"), args.get("auto_label", True))
    else:
        computation = ar.Computation.make_value_table(elements=items, **args)
    xml, copy = write_and_read(method(computation, data["where"]))
    table, default = scales(node_of(xml, data["where"]))
    # what the arguments say
    want = []
    for num, item in enumerate(items):
        low, high, text = (num, num, item) if isinstance(item, str) else (item[0], item[-2], item[-1])
        want.append((low, high, text))
    if len(table) != len(want):
        return f"{len(table)} scales for {len(want)} items"
    for (low, high, label, content), (wlow, whigh, wtext) in zip(table, want):
        if low != (wlow, True) or high != (whigh, True) or not equal(content, wtext):
            return f"scale {(low, high, content)}, expected {(wlow, whigh, wtext)}"
        wlabel = wtext if isinstance(wtext, str) and data["auto_label"] is not False else None
        if label != wlabel:
            return f"label {label!r}, expected {wlabel!r}"
    wdefault = plain(data["default"])
    if not equal(default, wdefault) and default is not wdefault:
        return f"default {default!r}, expected {wdefault!r}"
    for value in GRID:
        result = evaluate(table, default, value)
        expected = next((t for l, h, t in want if l <= value <= h), wdefault)
        if not equal(result, expected) and result is not expected:
            return f"{value} is {result!r}, expected {expected!r}"
    back = getattr(copy, data["where"])
    if [(s.lower_limit, s.upper_limit, s.label, s.content.value) for s in back.compu_scales] != \
            [(w[0], w[1], t[2], w[2]) for w, t in zip(want, table)]:
        return "the table read back is another one"
    return content_types(ar_enum.CompuScaleContent.CONSTANT, computation, back)


def content_types(expected, *computations):
    for computation in computations:
        for scale in computation.compu_scales:
            if scale.content_type != expected:
                return f"content type {scale.content_type}, expected {expected}"
    if ar.CompuScale().content_type != ar_enum.CompuScaleContent.NONE:
        return f"content type {ar.CompuScale().content_type} of a scale without content"
    return None


def judge_bad_table(data):
    items = [term(i) for i in data["items"]]
    res, ex = attempt(ar.Computation.make_value_table, items)
    if ex is None:
        res, ex = attempt(write_and_read, ar.CompuMethod("M", res))
    if ex is None or isinstance(ex, AssertionError) and "not read back" in str(ex):
        return f"{items} is accepted: {res}"
    return None


def judge_rational(data):
    args = {k: term(v) for k, v in data["args"].items()}
    for name in ("lower_limit_type", "upper_limit_type"):
        if name in args:
            args[name] = KINDS[args[name]]
    order = ("scaling_factor", "offset", "lower_limit", "upper_limit", "default_value", "lower_limit_type",
             "upper_limit_type")
    if data["how"] == "positional":
        blank = dict(scaling_factor=1, offset=0, lower_limit=None, upper_limit=None, default_value=None,
                     lower_limit_type=CLOSED, upper_limit_type=CLOSED)
        computation = ar.Computation.make_rational(*[{**blank, **args}[n] for n in order])
    else:
        computation = ar.Computation.make_rational(**args)
    xml, copy = write_and_read(method(computation, data["where"]))
    table, default = scales(node_of(xml, data["where"]))
    if len(table) != 1:
        return f"{len(table)} scales"
    low, high = [None if args.get(n + "_limit") is None else
                 (args[n + "_limit"], args.get(n + "_limit_type", CLOSED) == CLOSED) for n in ("lower", "upper")]
    if table[0][0] != low or table[0][1] != high or table[0][2] is not None:
        return f"scale {table[0][:3]}, expected {(low, high, None)}"
    wdefault = plain(data["args"].get("default_value"))
    factor, offset = [Fraction(repr(args.get(n, d))) for n, d in (("scaling_factor", 1), ("offset", 0))]
    for value in GRID:
        result = evaluate(table, default, value)
        expected = offset + factor * Fraction(repr(value)) if inside(value, low, high) else wdefault
        if not equal(result, expected) and result is not expected:
            return f"{value} is {result!r}, expected {expected!r}"
    return content_types(ar_enum.CompuScaleContent.RATIONAL, computation, getattr(copy, data["where"]))


VALUES = [-INF, -1e300, -2, -1.5, -1, -0.5, 0, 0.5, 1, 1.5, 2, 1e300, INF, math.nan, 2 ** 70, True, -0.0, 1e-7, 9e-8, 2 ** 53, 2 ** 53 + 1, 2 ** 53 + 2, 0.3333333,
          1 / 3]
LIMITS = [None, -1, 0, 1, -1.5, 1.5, ["f", "inf"], ["f", "-inf"], 0.0, 1e-7, 2 ** 53 + 1, 1 / 3, -1e300]
EXTRAS = {"max_gradient": [5, 2.5, 0, 1e-7], "max_diff": [7, 0.25, 0, 1e22], "monotony": ["DECREASING", "NO_MONOTONY"],
          "scale_constr": [0, 1, 2], "unit_ref": ["/P/U"]}


def scale_constraint(num):
    return ar.ScaleConstraint(f"S{num}", lower_limit=num, upper_limit=num + 1,
                              validity=list(ar_enum.ScaleConstraintValidity)[num],
                              upper_limit_type=OPEN if num else CLOSED)


def judge_constraint(data):
    kind = data["constraint"]
    args = {}
    for name, value in data["args"].items():
        value = term(value)
        if name.endswith("_type"):
            value = KINDS[value]
        elif name == "monotony":
            value = getattr(ar_enum.Monotony, value)
        elif name == "scale_constr":
            value = [scale_constraint(n) for n in range(value)]
        elif name == "unit_ref":
            value = ar.UnitRef(value)
        args[name] = value
    cls = ar.PhysicalConstraint if kind == "physical" else ar.InternalConstraint
    if data["how"] == "make":
        make = ar.DataConstraint.make_physical if kind == "physical" else ar.DataConstraint.make_internal
        elem = make("D" * 130, category="CAT", **args)
    elif data["how"] == "positional":
        make = ar.DataConstraint.make_physical if kind == "physical" else ar.DataConstraint.make_internal
        order = ["lower_limit", "upper_limit", "scale_constr", "max_gradient", "max_diff", "monotony"] + \
            (["unit_ref"] if kind == "physical" else []) + ["lower_limit_type", "upper_limit_type"]
        elem = make("D" * 130, *[args.get(n, CLOSED if n.endswith("type") else None) for n in order], category="CAT")
    else:
        elem = ar.DataConstraint("D" * 130, [ar.DataConstraintRule(**{kind: cls(**args)})], category="CAT")
    if elem.category != "CAT" or elem.name != "D" * 130 or len(elem.rules) != 1:
        return "not one rule, or not the name"
    rule = elem.rules[0]
    made = getattr(rule, kind)
    if getattr(rule, "internal" if kind == "physical" else "physical") is not None or not isinstance(made, cls):
        return f"rule of the wrong kind {made!r}"
    xml, copy = write_and_read(elem)
    nodes = {t: xml.find(f"{NS}DATA-CONSTR-RULES/{NS}DATA-CONSTR-RULE/{NS}{t}") for t in ("PHYS-CONSTRS", "INTERNAL-CONSTRS")}
    node = nodes.pop("PHYS-CONSTRS" if kind == "physical" else "INTERNAL-CONSTRS")
    if list(nodes.values())[0] is not None:
        return "both kinds of constraint are written"
    low, high = [None if args.get(n + "_limit") is None else
                 (args[n + "_limit"], args.get(n + "_limit_type", CLOSED) == CLOSED) for n in ("lower", "upper")]
    if node is None:
        if set(args) - {"lower_limit_type", "upper_limit_type"} and any(v is not None for v in (low, high)):
            return "nothing is written"
        return None if not set(data["args"]) & set(EXTRAS) or data["args"] == {"scale_constr": 0} else "nothing is written"
    if bound(node, "LOWER-LIMIT") != low or bound(node, "UPPER-LIMIT") != high:
        return f"limits {bound(node, 'LOWER-LIMIT')} {bound(node, 'UPPER-LIMIT')}, expected {low} {high}"
    texts = {"max_gradient": "MAX-GRADIENT", "max_diff": "MAX-DIFF"}
    for name, tag in texts.items():
        text = node.findtext(NS + tag)
        if (None if text is None else number(text)) != args.get(name):
            return f"{tag} is {text}, expected {args.get(name)}"
    text = node.findtext(f"{NS}MONOTONY")
    if text != (None if "monotony" not in args else args["monotony"].name.replace("_", "-")):
        return f"MONOTONY is {text}"
    text = node.findtext(f"{NS}UNIT-REF")
    if text != (None if "unit_ref" not in args else str(args["unit_ref"])):
        return f"UNIT-REF is {text}"
    parts = node.findall(f"{NS}SCALE-CONSTRS/{NS}SCALE-CONSTR")
    want = [(f"S{n}", (n, True), (n + 1, not n)) for n in range(len(args.get("scale_constr", ())))]
    if [(p.findtext(f"{NS}SHORT-LABEL"), bound(p, "LOWER-LIMIT"), bound(p, "UPPER-LIMIT")) for p in parts] != want:
        return "other scale constraints"
    back = getattr(copy.rules[0], kind)
    for value in VALUES:
        want = inside(value, low, high)
        for name, item in (("made", made), ("read", back)):
            if item.check_value(value) is not want:
                return f"check_value({value}) of the constraint {name} is {item.check_value(value)}, expected {want}"
    for num, part in enumerate(back.scale_constrs):
        for value in VALUES:
            want = inside(value, (num, True), (num + 1, not num))
            if part.check_value(value) is not want or made.scale_constrs[num].check_value(value) is not want:
                return f"check_value({value}) of scale constraint {num}"
    return None


def groups(thorough):
    yield ["bad"]
    for num in range(len(ITEMS)):
        yield ["table", num]
    yield ["tables"]
    for factor in range(len(FACTORS)):
        yield ["rational", factor]
    for kind in ("physical", "internal"):
        for low in range(len(LIMITS)):
            yield ["limits", kind, low]
        yield ["extras", kind]


def cases(group, thorough):
    for data in _cases(group, thorough):
        yield " ".join(f"{k}={v}" for k, v in data.items()), data


FACTORS = [1, 0.1, -2, 0.5, 1e-9, 3, 1e20, 0.0625, 1 / 3, 123456789.12345679, -5e-324]
OFFSETS = [0, -40, 0.5, 1e-3, 10 ** 15, -0.1, 1e-7, -2 / 3, 2 ** 53 + 1, 1e300, 0.1 + 0.2]


def _cases(group, thorough):
    kind = group[0]
    if kind == "table":
        for size in range(3 if not thorough else 4):
            for rest in itertools.product(range(len(ITEMS)), repeat=size):
                items = [ITEMS[group[1]], *[ITEMS[r] for r in rest]]
                yield {"kind": "table", "items": items, "default": None, "auto_label": None, "where": "int_to_phys",
                       "how": "named"}
                if size < 2:
                    for default, auto, where in itertools.product(DEFAULTS, (None, True, False),
                                                                  ("int_to_phys", "phys_to_int")):
                        for how in ("named", "positional"):
                            yield {"kind": "table", "items": items, "default": default, "auto_label": auto,
                                   "where": where, "how": how}
    elif kind == "tables":
        yield {"kind": "table", "items": [f"T{n}" for n in range(300)], "default": "d", "auto_label": None,
               "where": "int_to_phys", "how": "named"}
        yield {"kind": "table", "items": [], "default": "d", "auto_label": None, "where": "int_to_phys", "how": "named"}
    elif kind == "bad":
        for item in BAD_ITEMS:
            for items in ([item], ["A", item], [item, ["t", 1, "B"]]):
                yield {"kind": "bad_table", "items": items}
    elif kind == "rational":
        factor = FACTORS[group[1]]
        for offset in OFFSETS:
            for low, high in itertools.product([None, -3, 0, 2.5, ["f", "-inf"]], [None, 5, 2.5, ["f", "inf"]]):
                for kinds in itertools.product((None, "CLOSED", "OPEN"), repeat=2):
                    for default in DEFAULTS if thorough else (None, 0, "dflt", ["c", 9]):
                        args = {"scaling_factor": factor, "offset": offset, "lower_limit": low, "upper_limit": high,
                                "lower_limit_type": kinds[0], "upper_limit_type": kinds[1], "default_value": default}
                        args = {k: v for k, v in args.items() if v is not None}
                        if group[1] % 2 and offset == 0:
                            del args["offset"]
                        if factor == 1 and offset:
                            del args["scaling_factor"]
                        yield {"kind": "rational", "args": args, "where": "int_to_phys" if offset < 1 else "phys_to_int",
                               "how": "named" if low is None else "positional"}
    elif kind == "limits":
        for high in LIMITS:
            for kinds in itertools.product((None, "CLOSED", "OPEN"), repeat=2):
                for how in ("make", "positional", "constructor"):
                    args = {"lower_limit": LIMITS[group[2]], "upper_limit": high, "lower_limit_type": kinds[0],
                            "upper_limit_type": kinds[1]}
                    yield {"kind": "constraint", "constraint": group[1], "how": how,
                           "args": {k: v for k, v in args.items() if v is not None}}
    else:
        names = [n for n in EXTRAS if n != "unit_ref" or group[1] == "physical"]
        for values in itertools.product(*[[None, *EXTRAS[n]] for n in names]):
            for limits in ({}, {"lower_limit": 0}, {"upper_limit": 2, "upper_limit_type": "OPEN"}):
                for how in ("make", "positional", "constructor"):
                    yield {"kind": "constraint", "constraint": group[1], "how": how,
                           "args": {**limits, **{n: v for n, v in zip(names, values) if v is not None}}}


def judge(data):
    return {"table": judge_table, "bad_table": judge_bad_table, "rational": judge_rational,
            "constraint": judge_constraint}[data["kind"]](data)


if __name__ == "__main__":
    run("C19", groups, cases, judge)
