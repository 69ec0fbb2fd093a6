"""
References: every place an element can be in x every way to get it there x every order of
attaching the parts.  At each stage the references of all objects in the tree have to
be what the containment says, and looking a reference up gives that object.
"""
import itertools

import autosar.xml.document as ar_document
import autosar.xml.element as ar
import autosar.xml.reader as ar_reader
import autosar.xml.workspace as ar_workspace
import autosar.xml.writer as ar_writer
from mc import build as b
from mc import spec
from mc.cases import ordered
from mc.harness import quiet, run
from mc.spec import SPEC

# XML element of classes that have one depending on where they are
DEST = {"VariableDataPrototype": "VARIABLE-DATA-PROTOTYPE", "ParameterDataPrototype": "PARAMETER-DATA-PROTOTYPE",
        "ModeDeclarationGroupPrototype": "MODE-DECLARATION-GROUP-PROTOTYPE", "VariableAccess": "VARIABLE-ACCESS",
        "ApplicationArrayElement": "APPLICATION-ARRAY-ELEMENT"}
# elements that are not part of the namespace of the element they are in (their own schema says so)
FOREIGN = {("replace_with", "VariableAccess")}

# containers whose find() leads into them: what they contain that can be found
SEARCHABLE = {"ImplementationDataType": ("sub_elements",), "ModeDeclarationGroup": ("mode_declarations",
                                                                                  "mode_transitions"),
              "ApplicationSoftwareComponentType": ("ports",),
              "CompositionSwComponentType": ("components", "connectors", "ports")}
APPEND = {
    ("ApplicationRecordDataType", "elements"): "append", ("ApplicationSoftwareComponentType", "ports"): "append_port",
    ("ClientServerInterface", "operations"): "append_operation",
    ("ClientServerInterface", "possible_errors"): "append_possible_errors",
    ("ClientServerOperation", "arguments"): "append_argument",
    ("CompositionSwComponentType", "components"): "append_component",
    ("CompositionSwComponentType", "connectors"): "append_connector",
    ("CompositionSwComponentType", "ports"): "append_port",
    ("ImplementationDataType", "sub_elements"): "append",
    ("ImplementationDataTypeElement", "sub_elements"): "append",
    ("ModeDeclarationGroup", "mode_declarations"): "append_mode_declaratation",
    ("ModeDeclarationGroup", "mode_transitions"): "append_mode_transition",
    ("NvDataInterface", "data_elements"): "append_data_element",
    ("ParameterInterface", "parameters"): "append_parameter",
    ("SenderReceiverInterface", "data_elements"): "append_data_element",
    ("SwcImplementation", "code_descriptors"): "append_code_descriptor",
    ("SwcInternalBehavior", "events"): "append_event",
    ("SwcInternalBehavior", "exclusive_areas"): "append_exclusive_area",
    ("SwcInternalBehavior", "runnables"): "append_runnable",
    ("RunnableEntity", "activation_reasons"): "append_activation_reason",
}
for _p in ("async_server_call_result_point", "data_read_access", "data_receive_point_by_argument",
           "data_receive_point_by_value", "data_send_point", "data_write_access", "external_triggering_point",
           "internal_triggering_point", "mode_access_point", "mode_switch_point", "parameter_access",
           "read_local_variable", "server_call_point", "wait_point", "write_local_variable"):
    APPEND["RunnableEntity", _p] = "append_" + _p

SETTER = {("ApplicationSoftwareComponentType", "internal_behavior"): "internal_behavior"}


def contents(obj):
    """Objects directly inside an object: (attribute, object)"""
    for attr, value in b.public_vars(obj).items():
        for item in items_of(value):
            yield attr, item


def items_of(value):
    if isinstance(value, (list, tuple)):
        for x in value:
            yield from items_of(x)
    elif isinstance(value, dict):
        for x in value.values():
            yield from items_of(x)
    elif isinstance(value, ar.ARObject):
        yield value


def walk(obj, path, findable):
    """(object, path, whether find leads to it) of everything that has a SHORT-NAME and a reference"""
    if isinstance(obj, ar.Identifiable):
        path = path + (obj.name,)
        yield obj, path, findable
    for attr, item in contents(obj):
        if (attr, type(item).__name__) in FOREIGN:
            continue
        if isinstance(obj, ar.Package):
            inside = findable
        elif isinstance(obj, ar.ImplementationDataTypeElement):
            inside = False
        else:
            inside = findable and attr in SEARCHABLE.get(type(obj).__name__, ())
        yield from walk(item, path, inside)


def dest_of(obj):
    name = type(obj).__name__
    return DEST.get(name) or SPEC[name].tag if name in SPEC else "AR-PACKAGE"


def verify(top, root, above=()):
    """
    Everything in top: with a root the complete references and the way back, without one none
    """
    named = list(walk(top, above, True))
    by_path = {}
    for obj, path, _ in named:
        by_path.setdefault(path, []).append(obj)
    for obj, path, findable in named:
        where = "/" + "/".join(path)
        what = f"{type(obj).__name__} at {where}"
        if obj.root_collection() is not root:
            return f"{what}: root_collection() is {obj.root_collection()!r}"
        parts = []
        obj.update_ref_parts(parts)
        if root is None:
            if hasattr(obj, "ref") and obj.ref() is not None:
                return f"{what}: ref() is {obj.ref()} though it is in no package of a document"
            if parts[-1] is not None:
                return f"{what}: parts of its reference are {parts}"
            continue
        if "/".join(reversed(parts)) != where:
            return f"{what}: parts of its reference are {parts}"
        found = root.find(where)
        if found is not None and not any(found is x for x in by_path[path]):
            return f"{what}: find gives {type(found).__name__} {getattr(found, 'name', '')}"
        if findable and found is None:
            return f"{what}: find gives nothing"
        if hasattr(obj, "ref"):
            ref = obj.ref()
            if str(ref) != where:
                return f"{what}: ref() is {ref}"
            if spec.dest_xml(ref.dest.name) != dest_of(obj):
                return f"{what}: DEST is {ref.dest}"
            if root.find(ref) is not found:
                return f"{what}: find of its reference and of its path differ"
    return None


# ways of getting there


def chain_of(slot):
    """[(host class, row)...] from the package down to the place, for (host, param, class)"""
    host, param, _ = slot
    if host is None:
        return []
    return b.PATHS[host] + [(host, SPEC[host].row(param))]


def slots():
    for t in b.TOP:
        yield (None, None, t)
    for h, row, c in b.uses():
        if h in b.PATHS and c in b.PATHS:
            yield (h, row.param, c)


def attach(host, row, item):
    key = (type(host).__name__, row.param)
    if key in SETTER:
        setattr(host, SETTER[key], item)
    else:
        getattr(host, APPEND[key])(item)


def describe(slot, config):
    c = slot[2]
    p = dict(b.full(c)["p"] if config == "full" else b.minimal(c)["p"])
    if slot[1] == "require_port":
        p["port_ref"] = b.ref_desc("PortPrototypeRef", "R_PORT_PROTOTYPE")
    return ordered(c, p)


def segments(slot, desc):
    """
    The chain cut into pieces that can be built on their own and joined by append methods:
    [(object, row by which the next piece is attached | None)]
    """
    pieces, d = [], desc
    for host, row in reversed(chain_of(slot)):
        if (host, row.param) in APPEND or (host, row.param) in SETTER:
            pieces.append((d, row))
            d = {"c": host, "p": {k: v for k, v in b.put(host, row, desc)["p"].items() if k != row.param}}
        else:
            d = b.put(host, row, d)
    pieces.append((d, None))
    return list(reversed(pieces))       # outermost first; the row tells how it is attached to the previous one


def hosts_of(obj, row):
    """the innermost object of the built chain that the next piece belongs to"""
    found = None
    todo = [obj]
    while todo:
        o = todo.pop(0)
        if (type(o).__name__, row.param) in APPEND or (type(o).__name__, row.param) in SETTER:
            found = o
        todo += [x for _, x in contents(o)]
    return found


def judge(data):
    if data["mode"] == "large":
        return judge_large(data)
    slot, mode, order = data["slot"], data["mode"], data.get("order")
    desc = describe(slot, data["config"])
    roots = {"doc": ar_document.Document, "ws": ar_workspace.Workspace}
    if mode == "built":
        top = b.build(b.embed(slot[2], desc, chain_of(slot)))
        msg = verify(top, None)
        if msg:
            return "before it is in a package: " + msg
        root = roots[data["root"]]()
        package = root.make_packages(data["package"])
        package.append(top)
        return verify(top, root, tuple(data["package"].split("/")))
    if mode in ("moved", "renamed"):
        top = b.build(b.embed(slot[2], desc, chain_of(slot)))
        first = roots[data["root"]]()
        package = first.make_packages("A/B")
        package.append(top)
        msg = verify(top, first, ("A", "B"))
        if msg:
            return "where it was made: " + msg
        if mode == "renamed":                  # what is inside of an element is called otherwise later
            for obj, path, _ in list(walk(top, (), True)):
                if obj is not top:
                    obj.name += "_New"
                    msg = verify(top, first, ("A", "B"))
                    if msg:
                        return f"{'/'.join(path)} renamed: {msg}"
            return None
        root = roots[data["to"]]()
        item, place = data["move"]
        moved = {"element": top, "B": package, "A": first.find("A")}[item]
        if place == "":
            root.append(moved)
        else:
            root.make_packages(place).append(moved)
        place = tuple(place.split("/")) if place else ()
        return verify(moved, root, place)
    if mode == "read":
        doc = b.make_document([b.embed(slot[2], desc, chain_of(slot))], 51)
        text = ar_writer.Writer().write_str(doc, False)
        back, _, _ = quiet(ar_reader.Reader().read_str, text)
        return verify(back.packages[0], back)
    # joined in some order: the pieces, the package and the root
    pieces = [(b.build(d), row) for d, row in segments(slot, desc)]
    root, package = roots[data["root"]](), ar.Package("Pkg")
    joins = [lambda: root.append(package), lambda: package.append(pieces[0][0])]
    for (host, _), (item, row) in zip(pieces, pieces[1:]):
        inner = hosts_of(host, row)
        joins.append(lambda h=inner, i=item, r=row: attach(h, r, i))
    done = set()
    for i in order:
        joins[i]()
        done.add(i)
        reach = 0
        while reach in done:
            reach += 1
        # pieces 0 .. reach-2 are connected to the root (joins 0, 1, ... have been done)
        if 0 in done:
            msg = verify(package, root)
            if msg:
                return f"after joins {sorted(done)}: {msg}"
        for n, (obj, _) in enumerate(pieces):
            connected = all(j in done for j in range(n + 2))
            if not connected:
                msg = verify(obj, None)
                if msg:
                    return f"after joins {sorted(done)}: {msg}"
    return None


def judge_large(data):
    """Many elements in one place, or many levels"""
    slot, count, how, root = data["slot"], data["count"], data["how"], data["root"]
    host, param, cname = slot
    root = {"doc": ar_document.Document, "ws": ar_workspace.Workspace}[root]()
    if how == "deep":       # levels of packages, all of them kept to be asked again
        path = [f"P{i}" if i % 3 else "P" if i % 2 else "Long" * 32 for i in range(count)]
        top = b.build(b.embed(cname, describe(slot, "min"), chain_of(slot)))
        msg = None
        if data["order"] == "down":
            package = root.make_packages("/".join(path))
            package.append(top)
        else:               # the innermost first: everything is without reference until the last step
            item = top
            for name in reversed(path):
                package = ar.Package(name)
                package.append(item)
                item = package
            msg = verify(item, None)
            root.append(item)
        return msg or verify(root.packages[0], root)
    if how == "nested":     # elements in elements
        item = ar.ImplementationDataTypeElement("E", category="VALUE")
        for i in range(count):
            item = ar.ImplementationDataTypeElement(f"E{i}" if i % 3 else "E", sub_elements=[item])
        top = ar.ImplementationDataType("Type", sub_elements=[item])
        msg = verify(top, None)
        root.make_packages("A/B").append(top)
        return msg or verify(root.packages[0], root)
    inside = []
    for i in range(count):
        d = describe(slot, "min")
        kind = ("xItem", "item", "Item")[i % 3]     # names that end, begin or, but for the case of letters, read like others
        inside.append({"c": cname, "p": {**d["p"], "name": f"{kind}{(count - 1 - i) // 3}"}})
    if host is None:
        package = root.make_packages("A/B")
        for d in inside:
            package.append(b.build(d))
        return verify(root.packages[0], root)
    top = b.build(b.embed(cname, inside[0], chain_of(slot)))
    row = SPEC[host].row(param)
    holder = hosts_of(top, row)
    for n, d in enumerate(inside[1:]):
        if n == count // 2:
            msg = verify(top, None)
            if msg:
                return "before it is in a package: " + msg
            root.make_packages("A/B").append(top)
        attach(holder, row, b.build(d))
    return verify(root.packages[0], root)


def large(thorough):
    """Cases of judge_large for one slot each"""
    for slot in slots():
        host, param, cname = slot
        name = f"{host or 'Package'}.{param or 'elements'}:{cname}"
        if not any(r.param == "name" for r in SPEC[cname].all_rows()):
            continue
        if host is None or (host, param) in APPEND:
            for count in (12, 40) if not thorough else (12, 40, 130):
                for root in ("doc", "ws"):
                    yield (f"{name} {count} items {root}", {"slot": slot, "mode": "large", "how": "many", "count": count,
                                                            "root": root}, "large", count)
        for count in (12, 40) if not thorough else (12, 40, 130):
            for order in ("down", "up"):
                for root in ("doc", "ws"):
                    yield (f"{name} {count} packages {order} {root}",
                           {"slot": slot, "mode": "large", "how": "deep", "count": count, "order": order, "root": root},
                           "large", 2)
    for count in range(1, 41):
        for root in ("doc", "ws"):
            yield (f"sub elements {count} {root}", {"slot": (None, None, None), "mode": "large", "how": "nested",
                                                    "count": count, "root": root}, "large", 2)


def groups(thorough):
    return list(slots()) + [("large", part) for part in range(8)]


def cases(slot, thorough):
    if slot[0] == "large":
        yield from itertools.islice(large(thorough), slot[1], None, 8)
        return
    name = "/".join(h + "." + r.param for h, r in chain_of(slot)) + ":" + slot[2]
    configs = ["min", "full"]
    for config in configs:
        for root in ("doc", "ws"):
            for package in ("Pkg", "A/B", "A/B/A"):
                yield (f"{name} {config} built {root} {package}",
                       {"slot": slot, "config": config, "mode": "built", "root": root, "package": package}, "built", 2)
        for one, two in (("doc", "ws"), ("ws", "doc"), ("doc", "doc")):
            for move in (("element", "A"), ("element", "A/B/C"), ("B", ""), ("B", "Z"), ("A", ""), ("A", "Z/B")):
                yield (f"{name} {config} {one} {two} moved {move}", {"slot": slot, "config": config, "mode": "moved",
                                                                     "root": one, "to": two, "move": move}, "moved", 2)
        if slot[0]:
            yield f"{name} {config} renamed", {"slot": slot, "config": config, "mode": "renamed", "root": "ws"}, "renamed", 2
        yield (f"{name} {config} read", {"slot": slot, "config": config, "mode": "read"}, "read", 2)
        n = len(segments(slot, describe(slot, config))) + 1
        for root in ("doc", "ws") if thorough else ("ws",):
            for order in itertools.permutations(range(n)):
                yield (f"{name} {config} {root} order {order}",
                       {"slot": slot, "config": config, "mode": "joined", "order": order, "root": root}, "joined", n)


if __name__ == "__main__":
    run("C12", groups, cases, judge,
        assumptions=["an element is part of one container only"])
