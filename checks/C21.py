"""
C21: Components and connectors of a composition connect exactly the ports they were asked to connect.

All histories of component prototypes and connectors (every pair of ports of inner components, inner
compositions and the composition itself, in both directions, plus references that lead nowhere) are
played on the real code next to a model of compositions.  Every operation succeeds or is refused as the
model says; at the end all prototypes and connectors are compared object by object and in the XML.
"""
import itertools
import xml.etree.ElementTree as ElementTree

from mc.harness import attempt, run
import autosar.xml.document as ar_document
import autosar.xml.element as ar
import autosar.xml.reader as ar_reader
import autosar.xml.workspace as ar_workspace
import autosar.xml.writer as ar_writer

NS = "{http://autosar.org/schema/r4.0}"
WRITER, READER = ar_writer.Writer(), ar_reader.Reader()

# component types: name -> (class, DEST, package, {port: kind})
TYPES = {
    "A": (ar.ApplicationSoftwareComponentType, "APPLICATION-SW-COMPONENT-TYPE", "/T", {"p": "P", "r": "R", "x": "PR"}),
    "B": (ar.ApplicationSoftwareComponentType, "APPLICATION-SW-COMPONENT-TYPE", "/T/Sub", {"p": "P", "b_r": "R"}),
    "C": (ar.CompositionSwComponentType, "COMPOSITION-SW-COMPONENT-TYPE", "/T", {"p": "P", "r": "R", "x": "PR"}),
    "E": (ar.CompositionSwComponentType, "COMPOSITION-SW-COMPONENT-TYPE", "/T", {}),
}
OUTER = {"p2": "P", "p": "P", "r": "R", "r2": "R", "x": "PR", "x2": "PR"}
PROTOTYPES = [("A", "A"), ("a", "A"), ("A_B", "A"), ("a", "B"), ("b", "B"), ("B", "B"), ("c", "C"), ("p", "A"), ("E", "E")]
START = [("A", "A"), ("b", "B"), ("c", "C")]          # made before the history
ENDS = [f"{n}/{p}" for n, t in START for p in TYPES[t][3]] + list(OUTER)
LATE = ["a/p", "a/r", "A_B/x"]                        # exist only after a prototype was made
WRONG = ["", "/", "A", "nope", "A/", "A/nope", "nope/p", "A/p/x", "b/x", "b/r", "c/p2", "no", "A/p2", "e/A", "gone/p", "A//p",
         "E/p", "c/inner"]


class Refused(Exception):
    """The model refuses the operation"""


class Model:
    """A composition"""

    def __init__(self):
        self.prototypes, self.connectors = [], []
        self.types = {n: (t[2], dict(t[3])) for n, t in TYPES.items()}
        self.ports = dict(OUTER)

    def names(self):
        return [n for n, _ in self.prototypes] + [c[1] for c in self.connectors] + list(self.ports)

    def prototype(self, name, kind):
        if name in self.names():
            raise Refused
        self.prototypes.append((name, kind))

    def port(self, ref):
        """-> (component or None, type name, port, kind)"""
        parts = ref.split("/")
        if len(parts) == 1 and parts[0] in self.ports:
            if any(parts[0] == n for n, _ in self.prototypes) or any(parts[0] == c[1] for c in self.connectors):
                raise Refused
            return None, None, parts[0], self.ports[parts[0]]
        if len(parts) == 2:
            for name, kind in self.prototypes:
                if name == parts[0] and parts[1] in self.types.get(kind, (0, {}))[1]:
                    return name, kind, parts[1], self.types[kind][1][parts[1]]
        raise Refused

    def connect(self, ref1, ref2):
        one, two = self.port(ref1), self.port(ref2)
        if one[0] is None and two[0] is None:
            if "P" in one[3] and "R" in two[3]:
                provide, require = one, two
            elif "R" in one[3] and "P" in two[3]:
                provide, require = two, one
            else:
                raise Refused
            conn = ("PASS-THROUGH-SW-CONNECTOR", f"{provide[2]}_{require[2]}",
                    {"PROVIDED-OUTER-PORT-REF": self.outer(provide), "REQUIRED-OUTER-PORT-REF": self.outer(require)})
        elif one[0] is None or two[0] is None:
            inner, outer = (two, one) if one[0] is None else (one, two)
            if not set(inner[3]) & set(outer[3]):
                raise Refused
            name = ((inner[0], inner[2], outer[2]) if outer[3] == "P" else (outer[2], inner[0], inner[2]))
            side = inner[3] if inner[3] != "PR" else "R" if outer[3] == "R" else "P"
            conn = ("DELEGATION-SW-CONNECTOR", "_".join(name),
                    {f"INNER-PORT-IREF/{side}-PORT-IN-COMPOSITION-INSTANCE-REF": self.inner(inner, side),
                     "OUTER-PORT-REF": self.outer(outer)})
        else:
            if "P" in one[3] and "R" in two[3]:
                provide, require = one, two
            elif "R" in one[3] and "P" in two[3]:
                provide, require = two, one
            else:
                raise Refused
            conn = ("ASSEMBLY-SW-CONNECTOR", "_".join((provide[0], provide[2], require[0], require[2])),
                    {"PROVIDER-IREF": self.inner(provide, "P"), "REQUESTER-IREF": self.inner(require, "R")})
        if conn[1] in self.names():
            raise Refused
        self.connectors.append(conn)
        return conn

    def change(self, op, world, top):
        """Ports and types appear, in the model and in the workspace"""
        kind, name, *rest = op
        if kind == "outer":
            self.ports[name] = rest[0]
            top.append_port(PORT_CLASS[rest[0]](name))
        elif kind == "inner":
            self.types[rest[0]][1][name] = rest[1]
            world.find(f"{self.types[rest[0]][0]}/{rest[0]}").append_port(PORT_CLASS[rest[1]](name))
        elif kind == "type":
            self.types[name] = ("/T", {rest[0]: rest[1]})
            component = ar.ApplicationSoftwareComponentType(name)
            component.append_port(PORT_CLASS[rest[1]](rest[0]))
            world.find("/T").append(component)
        else:
            num = [n for n, _ in self.prototypes].index(name)
            self.prototypes[num] = (name, rest[0])
            top.components[num].type_ref = world.find(f"{self.types[rest[0]][0]}/{rest[0]}").ref()

    @staticmethod
    def outer(port):
        return (f"{port[3]}-PORT-PROTOTYPE", f"/Comp/Top/{port[2]}")

    def inner(self, port, side):
        name, kind, port_name, port_kind = port
        return {"CONTEXT-COMPONENT-REF": ("SW-COMPONENT-PROTOTYPE", f"/Comp/Top/{name}"),
                f"TARGET-{side}-PORT-REF": (f"{port_kind}-PORT-PROTOTYPE", f"{self.types[kind][0]}/{kind}/{port_name}")}


PORT_CLASS = {"P": ar.ProvidePortPrototype, "R": ar.RequirePortPrototype, "PR": ar.PRPortPrototype}


def build(root):
    """-> workspace or document, composition, {type name: component type}"""
    world = ar_workspace.Workspace(document_root="/nowhere") if root == "workspace" else ar_document.Document()
    types = {}
    for name, (cls, _, path, ports) in TYPES.items():
        types[name] = cls(name)
        for port, kind in ports.items():
            types[name].append_port(PORT_CLASS[kind](port))
        world.make_packages(path).append(types[name])
    inner = ar.SwComponentPrototype("inner", types["A"].ref())
    types["C"].append_component(inner)
    top = ar.CompositionSwComponentType("Top")
    for port, kind in OUTER.items():
        top.append_port(PORT_CLASS[kind](port))
    world.make_packages("/Comp").append(top)
    return world, top, types


def refs(node):
    """References in a node"""
    res = {}
    for child in node:
        tag = child.tag[len(NS):]
        if tag == "SHORT-NAME":
            continue
        if child.get("DEST"):
            value = (child.get("DEST"), child.text)
        elif tag == "INNER-PORT-IREF" and len(child) == 1:
            tag = f"{tag}/{child[0].tag[len(NS):]}"
            value = refs(child[0])
        else:
            value = refs(child)
        if tag in res:
            return {"twice": tag}
        res[tag] = value
    return res


def judge(data):
    world, top, types = build(data["root"])
    model = Model()
    made = []                      # objects, in order
    before = {n: WRITER.write_str_elem(t) for n, t in types.items()}
    ports = list(top.ports)
    for op in [["prototype", n, t] for n, t in START] + data["history"]:
        counts = (len(top.components), len(top.connectors))
        if op[0] == "change":
            model.change(op[1], world, top)
            before = {n: WRITER.write_str_elem(t) for n, t in types.items()}
            ports = list(top.ports)
            continue
        if op[0] == "prototype":
            name, kind = op[1:]
            _, refused = attempt(model.prototype, name, kind)
            args = () if name == kind else (name,)
            obj, error = attempt(top.create_component_prototype, types[kind], *args)
        elif op[0] == "dangling":              # a prototype of a type that is not there
            refused = None
            try:
                model.prototype(op[1], "Gone" if op[2] == "/T/Gone" else None)
            except Refused:
                continue
            obj = ar.SwComponentPrototype(op[1], ar.SwComponentTypeRef(
                op[2], ar.ar_enum.IdentifiableSubTypes.APPLICATION_SW_COMPONENT_TYPE) if op[2] else None)
            _, error = attempt(top.append_component, obj)
        else:
            _, refused = attempt(model.connect, *op[1:])
            obj, error = attempt(top.create_connector, op[1], op[2], world)
        if refused is not None and not isinstance(refused, Refused):
            raise refused
        if refused is not None:
            if error is None:
                return f"{op} is accepted"
            if op[0] == "prototype" and not isinstance(error, ValueError):
                return f"{op} raised {error!r}"
            if op[0] == "connect" and not isinstance(error, ValueError) and all(op[1:]):
                return f"{op} raised {error!r}"
            if (len(top.components), len(top.connectors)) != counts:
                return f"{op} was refused but left something behind"
            continue
        if error is not None:
            return f"{op} raised {error!r}"
        if op[0] == "connect":
            if len(top.connectors) != counts[1] + 1 or top.connectors[-1] is not obj:
                return f"{op} did not return the new connector"
        elif len(top.components) != counts[0] + 1 or top.components[-1] is not obj:
            return f"{op} did not return the new prototype"
        made.append((model.connectors[-1][1] if op[0] == "connect" else op[1], obj))
    for name, obj in made:
        if obj.name != name or obj.parent is not top:
            return f"{name}: name is {obj.name}, parent {obj.parent!r}"
        if top.find(name) is not obj or world.find(f"/Comp/Top/{name}") is not obj:
            return f"{name} is not found"
    if [a is b for a, b in zip(top.ports, ports)] != [True] * len(ports) or len(top.ports) != len(ports):
        return "ports have changed"
    if before != {n: WRITER.write_str_elem(t) for n, t in types.items()}:
        return "a component type was changed"
    text = WRITER.write_str_elem(top)
    root = ElementTree.fromstring(f'<X xmlns="{NS[1:-1]}">{text}</X>')
    protos = [(n.findtext(f"{NS}SHORT-NAME"), refs(n)) for n in root.findall(f".//{NS}SW-COMPONENT-PROTOTYPE")]
    want = [(n, {"TYPE-TREF": (TYPES[t][1], f"{TYPES[t][2]}/{t}")} if t in TYPES else None) for n, t in model.prototypes]
    if len(protos) != len(want) or any(a[0] != b[0] or (b[1] and a[1] != b[1]) for a, b in zip(protos, want)):
        return f"prototypes are written as {protos}, expected {want}"
    conns = [(n.tag[len(NS):], n.findtext(f"{NS}SHORT-NAME"), refs(n)) for n in root.findall(f".//{NS}CONNECTORS/*")]
    if conns != model.connectors:
        return f"connectors are written as {conns}, expected {model.connectors}"
    for tag, _, content in conns:              # every reference leads to something of that kind
        for value in content.values():
            for _, ref in ([value] if isinstance(value, tuple) else value.values()):
                if not isinstance(world.find(ref), (ar.PortPrototype, ar.SwComponentPrototype)):
                    return f"{tag}: {ref} leads to {world.find(ref)!r}"
    again = READER.read_str_elem(text)
    if WRITER.write_str_elem(again) != text:
        return "reads back different"
    return None


def operations():
    res = [["connect", a, b] for a in ENDS for b in ENDS]
    res += [["connect", a, b] for a in WRONG for b in ("A/p", "p", "r")]
    res += [["connect", b, a] for a in WRONG for b in ("A/r", "p", "r")]
    res += [["connect", a, b] for a in WRONG for b in WRONG if a == b or a in ("", "nope/p") or b == "nope"]
    res += [["connect", a, b] for a in LATE for b in ("A/r", "b/p", "p", "r", "x")]
    res += [["prototype", *p] for p in PROTOTYPES] + [["prototype", "A_p_b_b_r", "A"], ["prototype", "p_r", "B"]]
    res += [["dangling", "gone", "/T/Gone"], ["dangling", "gone", "/Comp/Top/p"], ["dangling", "gone", None]]
    return res


def reduced(thorough):
    res = [["connect", a, b] for a, b in (
        ("A/p", "b/b_r"), ("b/b_r", "A/p"), ("A/x", "b/b_r"), ("A/x", "c/x"), ("c/x", "A/x"), ("p", "r"), ("r", "p"),
        ("x", "x2"), ("p", "A/p"), ("A/p", "p"), ("r", "A/r"), ("A/x", "r"), ("A/x", "x"), ("a/p", "A/r"), ("a/p", "p"))]
    res += [["prototype", n, t] for n, t in (("A", "A"), ("a", "A"), ("a", "B"), ("p", "A"), ("A_p_p", "B"))]
    if thorough:
        res += [["connect", a, b] for a, b in (
            ("c/p", "b/b_r"), ("A/p", "A/r"), ("c/r", "r2"), ("r2", "c/r"), ("x2", "p"), ("x2", "x"), ("A_B/p", "c/r"),
            ("p2", "r2"), ("b/p", "p2"), ("nope", "p"), ("A/p", "nope/x"), ("gone/p", "A/r"), ("p", "r2"))]
        res += [["prototype", "A_B", "A"], ["dangling", "gone", "/T/Gone"], ["prototype", "p_r", "C"]]
    return res


CHANGES = [["outer", "no", "P"], ["outer", "nope", "R"], ["inner", "nope", "A", "PR"], ["inner", "r", "B", "R"], ["inner", "x", "B", "PR"],
           ["inner", "p2", "C", "P"], ["type", "Gone", "p", "P"], ["retype", "A", "B"], ["retype", "b", "A"], ["retype", "c", "B"],
           ["retype", "A", "E"]]


def large(thorough):
    """Many prototypes, connectors and ports"""
    for n in (12, 40) if not thorough else (9, 12, 40, 110):
        protos = {"short": [f"n{i}" for i in range(n)], "long": [f"a_{'b' * (i + 60)}" for i in range(n)],
                  "numbers": [f"A_{n - i}" for i in range(n)]}
        for (names, protos), kind, root in itertools.product(protos.items(), "ABC", ("workspace", "document")):
            made = [["prototype", p, kind] for p in protos]
            require = "b_r" if kind == "B" else "r"
            plans = {
                "chain": [["connect", f"{a}/p", f"{z}/{require}"] for a, z in zip(protos, protos[1:])],
                "backwards": [["connect", f"{z}/{require}", f"{a}/p"] for a, z in zip(protos, protos[1:])][::-1],
                "star": [["connect", "A/p", f"{a}/{require}"] for a in protos],
                "out": [["connect", f"{a}/p", "p"] for a in protos], "in": [["connect", "r", f"{a}/{require}"] for a in protos],
                "ports": [["change", ["outer", f"more{i}", "PR" if i % 2 else "P"]] for i in range(n)] +
                         [["connect", f"{a}/p", f"more{i}"] for i, a in enumerate(protos)] +
                         [["connect", f"more{i}", "r2"] for i in range(n)],
                "inner ports": [["change", ["inner", f"more{i}", kind, "PR" if i % 2 else "R"]] for i in range(n)] +
                               [["connect", f"{a}/more{i}", "A/p"] for i, a in enumerate(protos)],
                "types": [["change", ["type", f"T{i}", "t", "P"]] for i in range(n)] +
                         [["change", ["retype", p, f"T{i}"]] for i, p in enumerate(protos)] +
                         [["connect", f"{a}/t", "A/r"] for a in protos]}
            for name, plan in plans.items():
                again = [op for op in plan if op[0] == "connect"]
                yield (f"{n} {names} {kind} {name} {root}", {"root": root, "history": made + plan + again[-3:] + again[:3]})
                if name in ("chain", "star", "out"):
                    mixed = [op for pair in itertools.zip_longest(made, plan) for op in pair if op]
                    yield (f"{n} {names} {kind} {name} {root} mixed", {"root": root, "history": mixed + plan[-2:]})


def groups(thorough):
    for i in range(8):
        yield ("large", i)
    for i in range(len(CHANGES)):
        yield ("change", i)
    ops = operations()
    for i in range(len(ops)):
        yield ("pair", i)
    for i in range(len(reduced(thorough))):
        yield ("deep", i)


def cases(group, thorough):
    kind, i = group
    if kind == "large":
        yield from itertools.islice(large(thorough), i, None, 8)
        return
    if kind == "pair":
        ops = operations()
        for root in ("workspace", "document"):
            yield f"{root} {ops[i]}", {"root": root, "history": [ops[i]]}
        for other in ops:
            yield f"{other} {ops[i]}", {"root": "workspace", "history": [other, ops[i]]}
        return
    if kind == "change":
        dangling = ["dangling", "gone", "/T/Gone"]
        for op in operations():
            yield f"{op} {CHANGES[i]} again", {"root": "workspace", "history": [dangling, op, ["change", CHANGES[i]], op]}
            if thorough:
                for other in CHANGES:
                    if other[:2] != CHANGES[i][:2] and "retype" in (other[0], CHANGES[i][0]):
                        yield f"{op} {CHANGES[i]} {other} again", {"root": "workspace", "history": [
                            dangling, op, ["change", CHANGES[i]], op, ["change", other], op]}
        return
    ops = reduced(thorough)
    for n in (2, 3) if thorough else (2,):
        if n == 3:
            ops = reduced(False)
        if i >= len(ops):
            break
        for rest in itertools.product(range(len(ops)), repeat=n):
            yield (f"{i} {rest}", {"root": "workspace" if n == 2 else "document",
                                   "history": [ops[i]] + [ops[j] for j in rest]})


if __name__ == "__main__":
    run("C21", groups, cases, judge, {
        "bounds": "8 plans with 12 and 40 (thorough 110) prototypes, connectors and ports; all pairs of 14 ports (and wrong references), after every other operation; all histories of "
                  "3 (thorough 4) operations of the reduced set of 20 (36); all operations before and after each of 11 changes of types and ports (thorough: two)",
        "oracle": "model of compositions; XML decoded by a second parser; look-up of every reference"})
