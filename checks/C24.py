"""
C24: Every type is made once and defined once, after all that it needs, whatever the order of requests.

All small graphs of types (scalars, references, arrays, structures over base types with and without
declaration), under all assignments of names, are built as XML elements; for every sequence of requests
(of types, base types, and of elements which cannot be created) the implementation model and the order of
type definitions are compared with the graph.
"""
import itertools

from mc import ctypes_model as ct
from mc.harness import attempt, run
import autosar.model.element as rte
import autosar.model.enumeration as rte_enum
import autosar.xml.element as ar
import autosar.xml.enumeration as ar_enum
from autosar.generator import TypeGenerator
from autosar.model import ImplementationModel

CLASSES = {"SCALAR": rte.ScalarType, "REF": rte.RefType, "ARRAY": rte.ArrayType, "STRUCT": rte.RecordType}
BAD = ("union", "nested", "dangling", "late", "unit")


def make_bad(graph, world):
    """Elements which cannot be made to types"""
    package = world.make_packages("/Z")
    category, props = ct.target_props(graph, ["T", 0])
    package.append(ar.ImplementationDataType("union", category="UNION"))
    package.append(ar.ImplementationDataType("nested", category="STRUCTURE", sub_elements=[
        ar.ImplementationDataTypeElement("a", category=category, sw_data_def_props=props),
        ar.ImplementationDataTypeElement("b", category="UNION")]))
    gone = ar.SwDataDefPropsConditional(impl_data_type_ref=ar.ImplementationDataTypeRef("/Z/Gone"))
    package.append(ar.ImplementationDataType("dangling", category="TYPE_REFERENCE", sw_data_def_props=gone))
    package.append(ar.ImplementationDataType("late", category="STRUCTURE", sub_elements=[
        ar.ImplementationDataTypeElement("a", category=category, sw_data_def_props=props),
        ar.ImplementationDataTypeElement("b", category="TYPE_REFERENCE", sw_data_def_props=gone)]))
    package.append(ar.Unit("unit"))


def wrong_target(graph, model, element, target, ref):
    """Compare the type of an array or structure element"""
    expected = model.data_types.get(ct.target_ref(graph, target))
    if expected is None:
        return f"{ct.target_ref(graph, target)} was not created for {ref}"
    if target[0] == "B":
        good = type(element) is rte.ScalarType and element.base_type is expected
    else:
        good = type(element) is rte.RefType and element.impl_type is expected
    return None if good and element.ref.startswith(ref + "/") else f"element of {ref} is {element!r} {element.ref}"


def wrong_type(graph, model, ref):
    """Compare one type of the model with the graph"""
    item = model.data_types[ref]
    if item.ref != ref:
        return f"{ref} is known as {item.ref}"
    for i, native in enumerate(graph["bases"]):
        if ct.base_ref(graph, i) == ref:
            if type(item) is not rte.BaseType or item.name != ct.base_name(graph, i) or item.native_declaration != native:
                return f"{ref} is {item.name} {item.native_declaration}"
            return None
    i = next(i for i in range(len(graph["nodes"])) if ct.node_ref(graph, i) == ref)
    node = graph["nodes"][i]
    if type(item) is not CLASSES[node[0]]:
        return f"{ref} is a {type(item).__name__}"
    have = (item.name, item.symbol_name, item.type_emitter)
    if have != (graph["names"][i], ct.label(graph, i), graph["emitters"][i]):
        return f"{ref} has name, symbol and emitter {have}"
    if node[0] == "SCALAR":
        return None if item.base_type is model.data_types.get(ct.base_ref(graph, node[1])) else f"base type of {ref}"
    if node[0] == "REF":
        return None if item.impl_type is model.data_types.get(ct.node_ref(graph, node[1])) else f"target of {ref}"
    subs = item.sub_elements
    if node[0] == "ARRAY":
        if [(s.name, s.array_size, s.ref) for s in subs] != [(f"Dim{k}", n, f"{ref}/Dim{k}") for k, n in enumerate(node[2])]:
            return f"dimensions of {ref} are {[(s.name, s.array_size, s.ref) for s in subs]}"
        return wrong_target(graph, model, subs[-1].data_type, node[1], ref)
    if [(s.name, s.ref) for s in subs] != [(f"m{k}", f"{ref}/m{k}") for k in range(len(node[1]))]:
        return f"members of {ref} are {[(s.name, s.ref) for s in subs]}"
    for sub, target in zip(subs, node[1]):
        msg = wrong_target(graph, model, sub.data_type, target, ref)
        if msg:
            return msg
    return None


def wrong_tree(graph, node):
    have = [c.data.ref for c in node.children]
    if have != ct.needs(graph, node.data.ref):
        return f"{node.data.ref} depends on {have}"
    for child in node.children:
        msg = wrong_tree(graph, child)
        if msg:
            return msg
    return None


def after(graph, world, elements, requests, texts):
    """One sequence of requests"""
    model = ImplementationModel(world)
    wanted = []
    generator = TypeGenerator(model)           # is used in between, too
    for k, (ref, form) in enumerate(requests):
        if ref.startswith("/Z/"):
            element = world.find(ref)
            before = set(model.source_type_refs)
            result, error = attempt(model.create_from_element, element) if form else attempt(model.create_from_ref, ref)
            if error is None:
                return f"{ref} was created as {result!r}"
            if not isinstance(error, (NotImplementedError, KeyError)):
                return f"{ref} raised {error!r}"
            if model.source_type_refs != before or ref in model.data_types:
                return f"{ref} failed but is kept"
            continue
        result = model.create_from_element(elements[ref]) if form else model.create_from_ref(elements[ref].ref())
        wanted.append(ref)
        if result is not model.data_types.get(ref):
            return f"request {k} returned {result!r}"
        again = model.create_from_ref(ref, is_source=False)
        if again is not result:
            return f"{ref} is made twice"
        if k + 1 < len(requests):
            generator.write_type_header_str()
    failed = [r for r, _ in requests if r in ("/Z/nested", "/Z/late")]
    known = ct.closure(graph, wanted, ct.uses)
    if not failed and sorted(model.data_types) != sorted(known):
        return f"types {sorted(model.data_types)} were made, expected {sorted(known)}"
    for ref in model.data_types:
        msg = wrong_type(graph, model, ref)
        if msg:
            return msg
    trees = model.gen_type_dependency_trees()
    if [t.data.ref for t in trees] != sorted(set(wanted)):
        return f"trees of {[t.data.ref for t in trees]}, expected {sorted(set(wanted))}"
    for tree in trees:
        msg = wrong_tree(graph, tree)
        if msg:
            return msg
    order = [t.ref for t in generator.gen_data_type_creation_order()]
    expected = [r for r in ct.closure(graph, wanted, ct.needs) if ct.is_generated(graph, r)]
    if sorted(order) != sorted(expected):
        return f"definitions of {order}, expected {sorted(expected)}"
    for i, ref in enumerate(order):
        for need in ct.needs(graph, ref):
            if need in order[i:]:
                return f"{ref} is defined before {need}, which it needs"
    if any(model.data_types[r] is not t for r, t in zip(order, generator.gen_data_type_creation_order())):
        return "a definition is not of the type of the model, or the order changes"
    text = generator.write_type_defs_str()
    first, whole = texts.setdefault(tuple(sorted(set(wanted))), (text, generator.write_type_header_str()))
    fresh = TypeGenerator(model)
    if first != text or fresh.write_type_defs_str() != text or whole != generator.write_type_header_str():
        return f"definitions depend on the order of requests: {first!r} {text!r}"
    return None


def sequences(graph, thorough):
    """Sequences of requests"""
    types = [ct.node_ref(graph, i) for i in range(len(graph["nodes"]))]
    for n in range(1, len(types) + 1):
        for k, refs in enumerate(itertools.permutations(types, n)):
            yield [(r, (k + j) % 2) for j, r in enumerate(refs)]
    top = types[-1]
    for i in range(len(graph["bases"])):
        base = ct.base_ref(graph, i)
        yield [(top, 1), (base, 1)]
        yield [(base, 0), (top, 1)]
        yield [(types[0], 1), (base, 1), (top, 0), (types[0], 0)]
    for k, bad in enumerate(BAD):
        yield [("/Z/" + bad, k % 2), (top, 1)]
        yield [(top, 0), ("/Z/" + bad, k % 2), (types[0], 1)]
        yield [("/Z/" + bad, 1), (types[0], 1), ("/Z/" + bad, 0)]


def orders(graph):
    """Some requests for many types"""
    types = [ct.node_ref(graph, i) for i in range(len(graph["nodes"]))]
    for k, refs in enumerate((types, types[::-1], types[-1:], types[:1], types[::2] + types[1::2], types + types[::-1])):
        yield [(r, (j + k) % 2) for j, r in enumerate(refs)]


def judge_late(graph):
    """A type that failed can be made as soon as what it needs is there"""
    world, elements = ct.build(graph)
    make_bad(graph, world)
    model = ImplementationModel(world)
    for name in ("dangling", "late"):
        _, error = attempt(model.create_from_ref, "/Z/" + name)
        if not isinstance(error, KeyError):
            return f"{name} raised {error!r}"
    world.find("/Z").append(ar.ImplementationDataType("Gone", category="VALUE",
                                                      sw_data_def_props=ct.target_props(graph, ["B", 0])[1]))
    late, dangling = model.create_from_ref("/Z/late"), model.create_from_ref("/Z/dangling")
    gone = model.data_types.get("/Z/Gone")
    if gone is None or dangling.impl_type is not gone or late.sub_elements[1].data_type.impl_type is not gone:
        return "a type that failed first is made wrong later"
    order = [t.ref for t in TypeGenerator(model).gen_data_type_creation_order()]
    needed = {"/Z/Gone", "/Z/late", "/Z/dangling"}
    if not needed <= set(order) or order.index("/Z/Gone") > min(order.index("/Z/late"), order.index("/Z/dangling")):
        return f"definitions {order} after failures"
    return None


def judge_policy(data):
    """Policies of arrays are those of the last dimension; pointers know their target"""
    graph = {"bases": ["unsigned char", None], "nodes": [["SCALAR", 0]], "names": ["a"], "symbols": [None], "emitters": [None]}
    world, _ = ct.build(graph)
    category, props = ct.target_props(graph, data["target"])
    if "pointer" in data:
        target = ar.SwPointerTargetProps(target_category=category, sw_data_def_props=props)
        world.find("/T").append(ar.ImplementationDataType(
            "P", category="DATA_REFERENCE", symbol_props=ar.SymbolProps("S", symbol=data["symbol"]), type_emitter=data["emitter"],
            sw_data_def_props=ar.SwDataDefPropsConditional(ptr_target_props=target)))
        model = ImplementationModel(world)
        wanted, target_ref = {"/T/P"}, ct.target_ref(graph, data["target"])
        for step in data["pointer"]:
            if step == "target":
                model.create_from_ref(target_ref)
                wanted.add(target_ref)
            else:
                model.create_from_ref(target_ref if step == "use" else "/T/P", is_source=False)
        item = model.create_from_ref("/T/P")
        if model.source_type_refs != wanted:
            return f"types asked for are {model.source_type_refs}, expected {wanted}"
        if model.create_from_element(world.find("/T/P")) is not item or model.data_types.get("/T/P") is not item:
            return "pointer is made twice"
        if sorted(model.data_types) != sorted({"/T/P", target_ref, *ct.closure(graph, [target_ref], ct.uses)}):
            return f"types are {sorted(model.data_types)}"
        if type(item) is not rte.PointerType or item.target_type is not model.data_types.get(target_ref):
            return f"pointer {item!r} to {item.target_type!r}"
        have = [item.name, item.symbol_name, item.type_emitter, item.ref]
        return None if have == ["P", data["symbol"] or "P", data["emitter"], "/T/P"] else f"pointer {have}"
    policies = {k: v and getattr(ar_enum, c)[v] for (k, c), v in zip(POLICIES.items(), data["policy"])}
    subs = [ar.ImplementationDataTypeElement("Dim0", category="ARRAY", array_size=2)] if data["dims"] == 2 else []
    subs.append(ar.ImplementationDataTypeElement("Last", category=category, array_size=3, sw_data_def_props=props, **policies))
    world.find("/T").append(ar.ImplementationDataType("A", category="ARRAY", sub_elements=subs))
    item = ImplementationModel(world).create_from_ref("/T/A").sub_elements[-1]
    have = [item.impl_policy, item.size_handling, item.size_semantics]
    want = [v and getattr(rte_enum, c)[v] for c, v in zip(POLICIES.values(), data["policy"])]
    return None if have == want else f"policies {have}, expected {want}"


def judge(data):
    if "target" in data:
        return judge_policy(data)
    graph = data["graph"]
    if data.get("late"):
        return judge_late(graph)
    world, elements = ct.build(graph)
    make_bad(graph, world)
    texts = {}
    for requests in [data["requests"]] if "requests" in data else orders(graph) if data.get("orders") else sequences(graph, True):
        msg = after(graph, world, elements, requests, texts)
        if msg:
            return f"{requests}: {msg}"
    return None


DIMS = [[3], [2, 5]]


def decorations(count):
    """Assignments of symbols and emitters: one type differs"""
    yield [None] * count, [None] * count
    for i in range(count):
        for symbol, emitter in (("Sym", None), (None, "RTE"), (None, "rte"), (None, "Other"), ("Sym", "Other")):
            yield [symbol if k == i else None for k in range(count)], [emitter if k == i else None for k in range(count)]


POLICIES = {"array_impl_policy": "ArrayImplPolicy", "array_size_handling": "ArraySizeHandling",
            "array_size_semantics": "ArraySizeSemantics"}


def groups(thorough):
    yield ["policies", "", 0, 1, True]
    for k, kind in enumerate(ct.FAMILIES):
        yield ["family", kind, k, 1, thorough]
    yield ["family", "names", 0, 1, thorough]
    for count in (1, 2):
        for names in itertools.permutations("abc"[:count]):
            yield [count, "".join(names), 0, 1, True]
    parts = 16
    for names in itertools.permutations("abc"):
        if thorough or names in (("a", "b", "c"), ("c", "b", "a"), ("b", "c", "a")):
            for p in range(parts):
                yield [3, "".join(names), p, parts, thorough or names[0] != "b"]
    for p in range(parts):
        yield [3, "places", p, parts, False]
    yield [1, "places", 0, 1, True]
    yield [2, "places", 0, 1, True]
    if thorough:
        for names in ("abcd", "dcba", "bdac"):
            for p in range(parts * 2):
                yield [4, names, p, parts * 2, False]


def large(kind, most):
    """Graphs with up to that many types, long names, and many emitters"""
    if kind == "names":
        for names in ct.long_names():
            for nodes in itertools.product((["SCALAR", 0], ["STRUCT", [["B", 0]]]), repeat=2):
                yield list(nodes), names, [None, None], [None, None]
                yield list(nodes), ["b", "a"], names, [None, None]
            yield [["SCALAR", 0], ["REF", 0]], names, [None, None], [None, None]
        for pair in itertools.product(ct.EMITTERS, repeat=2):
            yield [["SCALAR", 0], ["REF", 0], ["STRUCT", [["T", 0], ["T", 1]]]], ["a", "b", "c"], [None] * 3, [*pair, None]
        return
    for n in range(1, most + 1):
        nodes = ct.family(kind, n)
        count = len(nodes)
        for names in ct.namings(count):
            yield nodes, names, [None] * count, [None] * count
        yield nodes, [f"t{i}" for i in range(count)], [f"Sym{count - i}" for i in range(count)], \
            [ct.EMITTERS[i % len(ct.EMITTERS)] if i % 3 else None for i in range(count)]


def cases(group, thorough):
    count, names, part, parts, full = group
    if count == "family":
        for nodes, texts, symbols, emitters in large(names, 24 if thorough else 16):
            graph = {"bases": ["unsigned char", None], "nodes": nodes, "names": texts, "symbols": symbols, "emitters": emitters}
            yield f"{names} {nodes} {texts} {symbols} {emitters}", {"graph": graph, "orders": True}, "large", 6
        return
    if count == "policies":
        values = [[None] + [v.name for v in getattr(rte_enum, c)] for c in POLICIES.values()]
        for target in (["B", 0], ["B", 1], ["T", 0]):
            for dims in (1, 2):
                for policy in itertools.product(*values):
                    yield f"policy {target} {dims} {policy}", {"target": target, "dims": dims, "policy": policy}, "policies", 1
            for symbol, emitter in itertools.product((None, "Sym"), (None, "Other")):
                for n in range(3):
                    for steps in itertools.product(("target", "use", "pointer"), repeat=n):
                        yield (f"pointer {target} {symbol} {emitter} {steps}",
                               {"target": target, "pointer": steps, "symbol": symbol, "emitter": emitter}, "pointers", 1)
        return
    if count < 4:
        every = ct.graphs(count, 2, DIMS if count < 3 else DIMS[:1], full)
    else:
        every = (g for g in ct.graphs(4, 1, DIMS[:1], False))
    for k, nodes in enumerate(every):
        if k % parts != part:
            continue
        for symbols, emitters in decorations(count) if count < 3 else [([None] * count, [None] * count)]:
            graph = {"bases": ["unsigned char", None], "nodes": nodes, "names": list(names), "symbols": symbols,
                     "emitters": emitters}
            if names == "places":              # names that are the same in several packages, and those of base types
                graph["names"] = (["B0", "a", "a"] if k % 2 else ["a", "B1", "a"])[:count]
                graph["places"] = ["/T/S", "/B/S", "/T"][:count]
            runs = len(list(sequences(graph, thorough)))
            shape = "+".join(n[0] for n in nodes)
            key = f"{names} {symbols} {emitters} {nodes}"
            yield key, {"graph": graph}, shape if count < 3 else f"{count} types", runs
            if count < 3:
                yield key + " late", {"graph": graph, "late": True}, "late", 4


if __name__ == "__main__":
    run("C24", groups, cases, judge, environment="headers", threads="headers",
        assumptions=["categories VALUE, TYPE_REFERENCE, ARRAY and STRUCTURE; graphs without cycles; all of them up to 4 types, beyond that "
                     "ten families of chains, trees, wide and long ones"])
