"""
Graphs of data types: description, the XML elements made of it, and what it means.

A graph is {"bases": [native declaration or None, ...],
            "nodes": [["SCALAR", base], ["REF", node], ["ARRAY", target, [dimensions]], ["STRUCT", [target, ...]]],
            "names": [name of each node], "symbols": [symbol or None], "emitters": [type emitter or None]}
where a target is ["B", base] (category VALUE) or ["T", node] (category TYPE_REFERENCE).
"""
import itertools

import autosar.xml.element as ar
import autosar.xml.workspace as ar_workspace

SIZES = {"unsigned char": 1, "unsigned short": 2, "unsigned int": 4, "unsigned long long": 8, "char": 1, "signed char": 1, "short": 2,
         "signed short int": 2, "int": 4, "unsigned": 4, "long": 8, "unsigned long": 8, "long long": 8, "float": 4, "double": 8,
         "long double": 16, "void *": 8, "const char *": 8, "volatile unsigned char": 1}
PLATFORM = "unsigned short"           # what base types without native declaration are, by the stub of Rte.h
CATEGORY = {"SCALAR": "VALUE", "REF": "TYPE_REFERENCE", "ARRAY": "ARRAY", "STRUCT": "STRUCTURE"}


def base_name(graph, i):
    return graph.get("base_names", ["B0", "B1", "B2"])[i]


def base_ref(graph, i):
    return "/B/" + base_name(graph, i)


def node_ref(graph, i):
    return (graph["places"][i] if "places" in graph else "/T") + "/" + graph["names"][i]


def target_ref(graph, target):
    return base_ref(graph, target[1]) if target[0] == "B" else node_ref(graph, target[1])


def target_props(graph, target):
    """-> category and properties"""
    if target[0] == "B":
        return "VALUE", ar.SwDataDefPropsConditional(base_type_ref=ar.SwBaseTypeRef(base_ref(graph, target[1])))
    return "TYPE_REFERENCE", ar.SwDataDefPropsConditional(
        impl_data_type_ref=ar.ImplementationDataTypeRef(node_ref(graph, target[1])))


def member(graph, k):
    """Name of a member of a structure"""
    return graph["members"][k] if "members" in graph else f"m{k}"


def make_node(graph, i):
    node = graph["nodes"][i]
    symbol = graph["symbols"][i]
    args = {"category": CATEGORY[node[0]], "type_emitter": graph["emitters"][i],
            "symbol_props": symbol and ar.SymbolProps("Symbol", symbol=symbol)}
    if node[0] in ("SCALAR", "REF"):
        args["sw_data_def_props"] = target_props(graph, ["B" if node[0] == "SCALAR" else "T", node[1]])[1]
    elif node[0] == "ARRAY":
        args["sub_elements"] = []
        for k, size in enumerate(node[2]):
            category, props = target_props(graph, node[1]) if k == len(node[2]) - 1 else ("ARRAY", None)
            args["sub_elements"].append(ar.ImplementationDataTypeElement(
                f"Dim{k}", category=category, array_size=size, sw_data_def_props=props))
    else:
        args["sub_elements"] = []
        for k, target in enumerate(node[1]):
            category, props = target_props(graph, target)
            args["sub_elements"].append(ar.ImplementationDataTypeElement(
                member(graph, k), category=category, sw_data_def_props=props))
    return ar.ImplementationDataType(graph["names"][i], **args)


def build(graph):
    """-> workspace, elements by reference"""
    world = ar_workspace.Workspace(document_root="/nowhere")
    bases, types = world.make_packages("/B", "/T")
    for i, native in enumerate(graph["bases"]):
        bases.append(ar.SwBaseType(base_name(graph, i), native_declaration=native))
    for i in range(len(graph["nodes"])):
        (world.make_packages(graph["places"][i]) if "places" in graph else types).append(make_node(graph, i))
    elements = {base_ref(graph, i): bases.find(base_name(graph, i)) for i in range(len(graph["bases"]))}
    elements.update({node_ref(graph, i): world.find(node_ref(graph, i)) for i in range(len(graph["nodes"]))})
    return world, elements


def targets_of(node):
    if node[0] == "SCALAR":
        return [["B", node[1]]]
    if node[0] == "REF":
        return [["T", node[1]]]
    return [node[1]] if node[0] == "ARRAY" else node[1]


def needs(graph, ref):
    """Type definitions used by the definition of a type: base types are used in arrays and structures by their declaration"""
    for i, node in enumerate(graph["nodes"]):
        if node_ref(graph, i) == ref:
            return [target_ref(graph, t) for t in targets_of(node) if t[0] == "T" or node[0] == "SCALAR"]
    return []


def closure(graph, refs, follow):
    todo, seen = list(refs), []
    while todo:
        ref = todo.pop(0)
        if ref not in seen:
            seen.append(ref)
            todo += follow(graph, ref)
    return seen


def uses(graph, ref):
    """All types that are referenced by a type"""
    for i, node in enumerate(graph["nodes"]):
        if node_ref(graph, i) == ref:
            return [target_ref(graph, t) for t in targets_of(node)]
    return []


def is_generated(graph, ref):
    for i, native in enumerate(graph["bases"]):
        if base_ref(graph, i) == ref:
            return native is not None
    emitter = graph["emitters"][[node_ref(graph, i) for i in range(len(graph["nodes"]))].index(ref)]
    return emitter is None or emitter.upper() == "RTE"


def label(graph, i):
    """Name of a type in C"""
    return graph["symbols"][i] or graph["names"][i]


def nodes(count, bases, dims, pairs, most=2):
    """All definitions of the node with that index"""
    plain = [["B", b] for b in range(bases)] + [["T", t] for t in range(count)]
    yield from (["SCALAR", b] for b in range(bases))
    yield from (["REF", t] for t in range(count))
    yield from (["ARRAY", t, d] for t in plain for d in dims)
    yield from (["STRUCT", [t]] for t in plain)
    for n in range(2, most + 1):
        for members in itertools.product(plain, repeat=n):
            if pairs or members[-1] == ["B", 0] or members[0] == ["B", 0]:
                yield ["STRUCT", list(members)]


def graphs(count, bases, dims, pairs, most=2):
    """All lists of that many nodes which refer to nodes before them"""
    return (list(g) for g in itertools.product(*(list(nodes(i, bases, dims, pairs, most)) for i in range(count))))


def family(kind, n):
    """Definitions of n types (and what they consist of): chains, trees and wide or long ones"""
    first = ["SCALAR", 0]
    before = ["T", n - 2]
    if kind == "refs":
        return [first] + [["REF", i] for i in range(n - 1)]
    if kind == "structs":
        return [first] + [["STRUCT", [["B", 0], ["T", i]]] for i in range(n - 1)]
    if kind == "arrays":
        return [first] + [["ARRAY", ["T", i], [1 + i % 2]] for i in range(n - 1)]
    if kind == "mixed":
        return [first] + [[["REF", i], ["STRUCT", [["T", i], ["B", 1]]], ["ARRAY", ["T", i], [2]]][i % 3] for i in range(n - 1)]
    if kind == "members":
        return [["SCALAR", i % 2] for i in range(n - 1)] + [["STRUCT", [["T", i] for i in range(n - 1)] or [["B", 0]]]]
    if kind == "same":
        return [first, ["STRUCT", [["T", 0]] * n], ["STRUCT", [["B", 0]] * n + [["T", 0]]]]
    if kind == "tree":
        return [["STRUCT", [["T", k] for k in (2 * i + 1, 2 * i + 2) if k < n] or [["B", 0]]] for i in range(n)]
    if kind == "dimensions":
        return [first, ["ARRAY", ["T", 0], [2] * n], ["ARRAY", ["B", 0], [1 + i % 2 for i in range(n)]]]
    if kind == "sizes":
        return [["ARRAY", ["B", 0], [size]] for size in SIZES_OF_ARRAYS] + [["ARRAY", ["B", 0], [size, n]] for size in SIZES_OF_ARRAYS]
    assert kind == "alone" and before
    return [["SCALAR", i % 2] for i in range(n)]


SIZES_OF_ARRAYS = [1, 9, 10, 16, 255, 256, 65535, 65536, 65537, 1000000, 2 ** 31]
FAMILIES = ["refs", "structs", "arrays", "mixed", "members", "same", "tree", "dimensions", "sizes", "alone"]
EMITTERS = ["RTE_X", "XRTE", "RTEx", "R", "RT", "RTE2", "NOT_RTE", "other", "rTe", "Rte", "RTE", "rte"]


def namings(n):
    """Names for n types: their order differs from the order of creation and from that of lower case, length or number"""
    yield [f"t{i}" for i in range(n)]
    yield [f"t{n - i}" for i in range(n)]
    yield [("a" if i % 2 else "A") + "bB_c"[i % 4] * (1 + i // 4) for i in range(n)]


def long_names():
    """Pairs of names that differ at the end only"""
    for size in (*range(1, 40), 62, 63, 64, 126, 127, 128, 200):
        yield ["x" * size + "a", "x" * size + "b"]
