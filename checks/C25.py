"""
C25: The generated header compiles, as C and as C++, and defines the types that were modelled.

The headers of all small graphs of types are compiled in batches together with assertions on identity,
size, offsets and dimensions of every type, which are computed from the graph alone.  A batch that does
not compile is taken apart to find the graphs to blame.
"""
import itertools
import os
import shutil
import subprocess
import tempfile

from mc import ctypes_model as ct
from mc.harness import run
from mc.names import UNUSUAL
from autosar.generator import TypeGenerator
from autosar.model import ImplementationModel

COMPILERS = {"c": ["gcc", "-std=gnu11", "-Werror", "-x", "c"], "c++": ["g++", "-std=gnu++17", "-Werror", "-x", "c++"]}
PROLOGUE = """#include <stddef.h>
#ifdef __cplusplus
#define SAME(a, b) __is_same(a, b)
#define CHECK(x) static_assert(x, #x)
#else
#define SAME(a, b) __builtin_types_compatible_p(a, b)
#define CHECK(x) _Static_assert(x, #x)
#endif
"""


class Shape:
    """What a type is in C, by the graph"""

    def __init__(self, graph):
        self.graph = graph

    def of_target(self, target):
        if target[0] == "B":
            return self.of_base(target[1])
        return self.of(target[1])

    def of_base(self, i):
        native = self.graph["bases"][i] or ct.PLATFORM
        return {"c": native, "dims": [], "size": ct.SIZES[native], "align": ct.SIZES[native], "node": None}

    def of(self, i):
        """The type without type definitions: C name, dimensions, size, alignment, structure"""
        node = self.graph["nodes"][i]
        if node[0] == "SCALAR":
            return self.of_base(node[1])
        if node[0] == "REF":
            return self.of(node[1])
        if node[0] == "ARRAY":
            res = dict(self.of_target(node[1]))
            res["dims"] = list(node[2]) + res["dims"]
            for n in node[2]:
                res["size"] *= n
            return res
        size, align = 0, 1
        for target in node[1]:
            part = self.of_target(target)
            size = -(-size // part["align"]) * part["align"] + part["size"]
            align = max(align, part["align"])
        return {"c": "struct Rte_struct_" + ct.label(self.graph, i), "dims": [],
                "size": -(-size // align) * align, "align": align, "node": i}

    def offsets(self, i):
        size, res = 0, []
        for target in self.graph["nodes"][i][1]:
            part = self.of_target(target)
            size = -(-size // part["align"]) * part["align"]
            res.append(size)
            size += part["size"]
        return res


def spell(shape):
    return shape["c"] + "".join(f"[{n}]" for n in shape["dims"])


def defined(graph):
    """Indices of types that shall be defined by the header"""
    found = ct.closure(graph, graph["sources"], ct.needs)
    return [i for i in range(len(graph["nodes"])) if ct.node_ref(graph, i) in found and ct.is_generated(graph, ct.node_ref(graph, i))]


def stub(graph):
    """What Rte.h has to provide: platform types, and types of other emitters"""
    res = [f"typedef {ct.PLATFORM} {ct.base_name(graph, i)};" for i, native in enumerate(graph["bases"]) if native is None]
    shapes = Shape(graph)
    for i, emitter in enumerate(graph["emitters"]):
        if not ct.is_generated(graph, ct.node_ref(graph, i)):
            shape = shapes.of(i)
            dims = "".join(f"[{n}]" for n in shape["dims"])
            if shape["node"] == i:
                members = []
                for k, target in enumerate(graph["nodes"][i][1]):
                    part = shapes.of_target(target)
                    members.append(f"{part['c']} {ct.member(graph, k)}{''.join(f'[{n}]' for n in part['dims'])};")
                res.append(f"{shape['c']} {{ {' '.join(members)} }};")
            res.append(f"typedef {shape['c']} {ct.label(graph, i)}{dims};")
    return res


def asserts(graph):
    res = []
    shapes = Shape(graph)
    for i in defined(graph):
        name, shape = ct.label(graph, i), shapes.of(i)
        res.append(f"CHECK(sizeof({name}) == {shape['size']});")
        res.append(f"CHECK(__alignof__({name}) == {shape['align']});")
        res.append(f"CHECK(SAME({name}, {spell(shape)}));")
        if shape["node"] == i:
            for k, (target, offset) in enumerate(zip(graph["nodes"][i][1], shapes.offsets(i))):
                part = shapes.of_target(target)
                res.append(f"CHECK(offsetof({name}, {ct.member(graph, k)}) == {offset});")
                res.append(f"CHECK(SAME(__typeof__((({name} *)0)->{ct.member(graph, k)}), {spell(part)}));")
    for i, native in enumerate(graph["bases"]):
        if native and ct.base_ref(graph, i) in ct.closure(graph, graph["sources"], ct.needs):
            res.append(f"CHECK(SAME({ct.base_name(graph, i)}, {native}));")
    return res


def header(graph):
    world, elements = ct.build(graph)
    model = ImplementationModel(world)
    generator = TypeGenerator(model)
    for ref in graph["sources"]:
        generator.write_type_header_str()      # what was generated before does not matter
        model.create_from_element(elements[ref])
    return generator.write_type_header_str()


def renamed(graph, k):
    """The graph with names that no other graph of the batch has"""
    graph = dict(graph)
    prefix = f"g{k}_"
    plain = {ct.node_ref(graph, i): prefix + n for i, n in enumerate(graph["names"])}
    based = {ct.base_ref(graph, i): prefix + ct.base_name(graph, i) for i in range(len(graph["bases"]))}
    graph["base_names"] = [based[ct.base_ref(graph, i)] for i in range(len(graph["bases"]))]
    graph["sources"] = ["/T/" + plain[r] if r in plain else "/B/" + based[r] for r in graph["sources"]]
    graph["names"] = [prefix + n for n in graph["names"]]
    graph["symbols"] = [s and prefix + s for s in graph["symbols"]]
    return graph


def compiles(graphs, language, folder):
    """-> None or the messages of the compiler"""
    lines = [PROLOGUE]
    for k, graph in enumerate(graphs):
        graph = renamed(graph, k)
        text = header(graph)
        lines += ["#undef RTE_TYPE_H_"] + stub(graph) + [text, "#ifndef RTE_TYPE_H_", "#error no include guard", "#endif", text]
        lines += asserts(graph)
    result = subprocess.run(COMPILERS[language] + ["-fsyntax-only", "-I", folder, "-"], input="\n".join(lines),
                            capture_output=True, text=True, check=False, timeout=300)
    return None if result.returncode == 0 else result.stderr or f"compiler ended with {result.returncode}"


def to_blame(graphs, language, folder):
    """The first graph that does not compile on its own"""
    while len(graphs) > 1:
        half = graphs[:len(graphs) // 2]
        graphs = half if compiles(half, language, folder) else graphs[len(half):]
    return graphs[0], compiles(graphs, language, folder)


def judge_file(graph, where):
    """The header as a file, used in two languages that are linked"""
    base = tempfile.mkdtemp(prefix="verif_c25_")
    folder = os.path.join(base, where)
    os.makedirs(folder, exist_ok=True)
    try:
        with open(os.path.join(folder, "Rte.h"), "w", encoding="utf-8") as fh:
            fh.write("#ifndef RTE_H_\n#define RTE_H_\n" + "\n".join(stub(graph)) + "\n#endif\n")
        world, elements = ct.build(graph)
        model = ImplementationModel(world)
        for ref in graph["sources"]:
            model.create_from_element(elements[ref])
        generator = TypeGenerator(model)
        generator.write_type_header(folder)
        with open(os.path.join(folder, "Rte_Type.h"), encoding="utf-8") as fh:
            if fh.read() != generator.write_type_header_str():
                return "write_type_header and write_type_header_str differ"
        if sorted(os.listdir(folder)) != ["Rte.h", "Rte_Type.h"]:
            return f"files {os.listdir(folder)}"
        includes = '#include "Rte_Type.h"\n#include "Rte_Type.h"\n'
        for language in COMPILERS:
            result = subprocess.run(COMPILERS[language] + ["-fsyntax-only", "-I", folder, "-"], capture_output=True, text=True,
                                    input=PROLOGUE + includes + "\n".join(asserts(graph)), check=False, timeout=300)
            if result.returncode:
                return f"as {language}: {result.stderr[:600]}"
    finally:
        shutil.rmtree(base)
    return None


def judge(data):
    if "file" in data:
        return judge_file(data["file"], data.get("where", ""))
    folder = tempfile.mkdtemp(prefix="verif_c25_")
    try:
        with open(os.path.join(folder, "Rte.h"), "w", encoding="utf-8"):
            pass
        for language in COMPILERS:
            if compiles(data["graphs"], language, folder):
                graph, text = to_blame(data["graphs"], language, folder)
                return f"as {language}: {graph}: {text and text[:600]}"
    finally:
        shutil.rmtree(folder)
    return None


DIMS = [[3], [2, 5], [2, 3, 4]]
BASES = ["unsigned char", None, "unsigned long long"]


def decorations(count):
    yield [None] * count, [None] * count
    for i in range(count):
        for symbol, emitter in (("Sym", None), ("Sym", "Other"), (None, "Other"), (None, "rte")):
            yield [symbol if k == i else None for k in range(count)], [emitter if k == i else None for k in range(count)]


def self_contained(graph):
    """Types of other emitters use no types of this header"""
    return all(ct.is_generated(graph, ct.node_ref(graph, i)) or not any(
        ct.is_generated(graph, ct.target_ref(graph, t)) for t in ct.targets_of(node) if t[0] == "T")
        for i, node in enumerate(graph["nodes"]))


def all_graphs(thorough):
    for count in (1, 2):
        for nodes in ct.graphs(count, 3, DIMS, True, 3 if count == 1 else 2):
            for symbols, emitters in decorations(count):
                for names in (["a", "b"], ["b", "a"])[:count]:
                    graph = {"bases": BASES, "nodes": nodes, "names": names[:count], "symbols": symbols, "emitters": emitters}
                    types = [ct.node_ref(graph, i) for i in range(count)]
                    if self_contained(graph):
                        yield dict(graph, sources=types[-1:])
                        if symbols == emitters:
                            yield dict(graph, sources=types)
                            yield dict(graph, sources=types[-1:] + [ct.base_ref(graph, i) for i in range(3)])
    for native in ct.SIZES:
        for count in (1, 2):
            for nodes in ct.graphs(count, 1, DIMS[:2], True):
                graph = {"bases": [native], "nodes": nodes, "names": ["a", "b"][:count], "symbols": [None] * count,
                         "emitters": [None] * count}
                yield dict(graph, sources=[ct.node_ref(graph, count - 1)])
    for nodes in ct.graphs(3, 2, DIMS[:2] if thorough else DIMS[:1], thorough):
        for names in itertools.permutations("abc"):
            if thorough or names == ("c", "a", "b"):
                graph = {"bases": BASES, "nodes": nodes, "names": list(names), "symbols": [None, "Sym", None], "emitters": [None] * 3}
                yield dict(graph, sources=["/T/" + names[2]])
                yield dict(graph, sources=["/T/" + n for n in names])


def large(kind, most):
    """Many types, long names, and many emitters"""
    if kind == "names":
        for names in ct.long_names():
            for nodes in ([["SCALAR", 0], ["STRUCT", [["T", 0]]]], [["STRUCT", [["B", 0]]], ["ARRAY", ["T", 0], [2]]]):
                yield {"nodes": nodes, "names": names, "symbols": [None, None], "emitters": [None, None]}
                yield {"nodes": nodes, "names": ["b", "a"], "symbols": names, "emitters": [None, None]}
            yield {"nodes": [["SCALAR", 0], ["STRUCT", [["T", 0], ["B", 2]]]], "names": ["b", "a"], "symbols": [None, None],
                   "emitters": [None, None], "members": names}
        for pair in itertools.product(ct.EMITTERS, repeat=2):
            yield {"nodes": [["SCALAR", 0], ["STRUCT", [["B", 2]]], ["STRUCT", [["T", 0], ["T", 1]]]], "names": ["a", "b", "c"],
                   "symbols": [None] * 3, "emitters": [*pair, None]}
        return
    for n in range(1, most + 1):
        nodes = ct.family(kind, n)
        count = len(nodes)
        for names in ct.namings(count):
            yield {"nodes": nodes, "names": names, "symbols": [None] * count, "emitters": [None] * count}
        yield {"nodes": nodes, "names": [f"t{i}" for i in range(count)], "symbols": [f"Sym{count - i}" for i in range(count)],
               "emitters": [None] * count}


def groups(thorough):
    return [*range(32), *ct.FAMILIES, "names"]


def cases(group, thorough):
    total = 32
    if isinstance(group, str):
        graphs = []
        for graph in large(group, 24 if thorough else 12):
            graph["bases"] = BASES
            types = [ct.node_ref(graph, i) for i in range(len(graph["nodes"]))]
            graphs += [dict(graph, sources=types), dict(graph, sources=types[-1:])]
        for k in range(0, len(graphs), 25):
            part = graphs[k:k + 25]
            yield f"{group} {k}", {"graphs": part}, "batch of large graphs in two languages", 2 * len(part)
        return
    batch, first = [], None
    for k, graph in enumerate(all_graphs(thorough)):
        if k // 20 % total != group:
            continue
        first = k if first is None else first
        batch.append(graph)
        if len(batch) == 400:
            yield f"graphs {first}..{k}", {"graphs": batch}, "batch of 400 graphs in two languages", 800
            batch, first = [], None
    if batch:
        yield f"last graphs of {group}", {"graphs": batch}, "last batches", 2 * len(batch)
    singles = [g for g in all_graphs(False) if len(g["nodes"]) == 1]
    for k, graph in enumerate(singles):
        if k % total == group:
            yield f"file {graph['nodes']} {graph['symbols']} {graph['emitters']} {graph['sources']}", {"file": graph}, "files", 2
    if group < len(UNUSUAL):
        graph = [g for g in singles if g["nodes"][0][0] == "STRUCT"][0]
        yield f"file in {UNUSUAL[group]}", {"file": graph, "where": UNUSUAL[group]}, "files", 2
        yield f"file in sub/{UNUSUAL[group]}", {"file": graph, "where": "sub/" + UNUSUAL[group]}, "files", 2


if __name__ == "__main__":
    run("C25", groups, cases, judge, environment="headers", threads="headers",
        assumptions=["gcc and g++ of the sandbox (x86-64) decide what the header means"])
