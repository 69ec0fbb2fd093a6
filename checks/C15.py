"""
C15: Names given to packages (roles, keys, configuration) lead to the same package always.

Part 1: all namespaces over (base reference, relative path, kind of role, made by call or by
        configuration file): the package a role names, the package a template puts its element
        into, and the reference a template predicts are one and the same; every other role is
        refused.
Part 2: all histories of workspace operations up to a depth against a model (explicit-state):
        every query is made after every operation.
Part 3: all combinations of sections of a configuration file, and all faulty sections.
"""
import itertools
import os
import shutil
import tempfile

from mc.harness import attempt, run
from mc.names import UNUSUAL
from autosar.xml import element as ar_element
from autosar.xml import enumeration as ar_enum
from autosar.xml import template as ar_template
from autosar.xml import workspace as ar_workspace

ROLES = {r.name: r for r in ar_enum.PackageRole}
XML_ROLE = {"ApplicationDataType": "APPLICATION_DATA_TYPE", "BaseType": "BASE_TYPE", "ComponentType": "COMPONENT_TYPE",
            "CompuMethod": "COMPU_METHOD", "DataConstraint": "DATA_CONSTRAINT",
            "ImplementationDataType": "IMPLEMENTATION_DATA_TYPE", "ModeDeclaration": "MODE_DECLARATION",
            "PortInterface": "PORT_INTERFACE", "Unit": "UNIT", "Constant": "CONSTANT"}
XML_ROLE.update({name: name for name in XML_ROLE.values()})
BASES = [None, "/", "", "/Base", "/Base/", "Base", "/A/B", "A/B/", "/Base/.", "/A/../B"]
RELS = ["X", "/X", "X/Y", "/X/Y", "X/", "./X", "../X", "X/../Y", "", "X//Y", "/A/B/X", ".", "Base/X", "NS/X"]


def model_path(name, base, rel):
    """Reference a role stands for: the relative path below the base reference, '/' starts at the root"""
    base = name if base is None else base
    parts = []
    for part in (rel if rel.startswith("/") else base + "/" + rel).split("/"):
        if part == "..":
            parts = parts[:-1]
        elif part not in ("", "."):
            parts.append(part)
    return "/" + "/".join(parts)


def toml_str(value):
    return '"' + value.replace("\\", "\\\\").replace('"', '\\"') + '"'


def toml(config):
    """Minimal writer of configuration files"""
    lines = []
    for section, tables in config.items():
        if section == "behavior":
            lines.append("[behavior]")
            lines += [f"{toml_str(k)} = {toml_value(v)}" for k, v in tables.items()]
            continue
        for name, table in tables.items():
            lines.append(f"[{section}.{toml_str(name)}]")
            lines += [f"{toml_str(k)} = {toml_value(v)}" for k, v in table.items()]
    return "\n".join(lines) + "\n"


def toml_value(value):
    if isinstance(value, bool):
        return "true" if value else "false"
    if isinstance(value, (int, float)):
        return repr(value)
    if isinstance(value, list):
        return "[" + ", ".join(toml_value(v) for v in value) + "]"
    return toml_str(value)


class Scratch:
    """Scratch directory for configuration files"""

    def __enter__(self):
        self.path = self.folder = tempfile.mkdtemp(prefix="mc-c15-")
        return self

    def __exit__(self, *exc):
        shutil.rmtree(self.folder, ignore_errors=True)

    def file(self, text, name="config.toml"):
        path = os.path.join(self.path, name)
        with open(path, "w", encoding="utf-8") as fh:
            fh.write(text)
        return path


class Unit(ar_template.ElementTemplate):
    """Template making a Unit"""

    def create(self, package, workspace, dependencies, **kwargs):
        return ar_element.Unit(self.element_name)


# --- Part 1: one role ---


def namespace_workspace(data):
    """Workspace with the namespace(s) of the case"""
    name, base, entries, how = data["name"], data["base"], data["map"], data["how"]
    if how == "call":
        workspace = ar_workspace.Workspace()
        mapping = dict(entries)
        workspace.create_namespace(name, mapping, base)
        mapping.clear()         # the mapping belongs to the caller
        return workspace
    table = dict(entries)
    if base is not None:
        if how == "config-first":
            table = {"base_ref": base, **table}
        else:
            table["base_ref"] = base
    with Scratch() as scratch:
        path = scratch.file(toml({"namespace": {name: table}}))
        if how == "config-first":
            return ar_workspace.Workspace(path)
        workspace = ar_workspace.Workspace()
        workspace.load_config(path)
        return workspace


def judge_namespace(data):
    workspace = namespace_workspace(data)
    name, base = data["name"], data["base"]
    expected = {}
    for role, rel in data["map"]:
        expected[role[1:] if role.startswith("!") else ROLES[XML_ROLE[role]]] = model_path(name, base, rel)
    queries = list(ar_enum.PackageRole) + ["MyRole", "BaseType", "BASE_TYPE", "", "!MyRole", *OWN]
    for query in queries:
        ref, ex = attempt(workspace.get_package_ref_by_role, name, query)
        if query in expected:
            if ex is not None:
                return f"role {query}: {ex!r}"
            if ref != expected[query]:
                return f"role {query} is {ref!r}, not {expected[query]!r}"
        elif not isinstance(ex, ValueError):
            return f"role {query}, which is not in the map: {ref!r} {ex!r}"
    for bad in (None, 1, 1.5, ["MyRole"], b"MyRole", ar_enum.ByteOrder.OPAQUE):
        ref, ex = attempt(workspace.get_package_ref_by_role, name, bad)
        if not isinstance(ex, TypeError):
            return f"role {bad!r} is not refused: {ref!r} {ex!r}"
    for other in ("other", name + "x", ""):
        ref, ex = attempt(workspace.get_package_ref_by_role, other, list(expected)[0])
        if not isinstance(ex, KeyError):
            return f"namespace {other!r} is not refused: {ref!r} {ex!r}"
    seen = {}
    for num, (role, path) in enumerate(expected.items()):
        if path == "/":
            continue
        template = Unit(f"u{num}", name, role)
        want = f"{path}/u{num}"
        if template.ref(workspace) != want:
            return f"template for role {role} predicts {template.ref(workspace)!r}, not {want!r}"
        elem, ex = attempt(workspace.apply, template)
        if ex is not None:
            return f"template for role {role}: {ex!r}"
        if str(elem.ref()) != want or workspace.find(want) is not elem or elem.parent is not workspace.find(path):
            return f"element of role {role} is at {elem.ref()}, not {want}"
        seen.setdefault(path, elem.parent)
        if elem.parent is not seen[path] or elem.parent is not workspace.make_packages(path):
            return f"roles naming {path} lead to different packages"
        if template.ref(workspace) != want or workspace.get_package_ref_by_role(name, role) != path:
            return f"role {role} changes with use"
    want = set()
    for path in expected.values():
        parts = path.strip("/").split("/")
        want |= {"/" + "/".join(parts[:n + 1]) for n in range(len(parts)) if parts[0]}
    got = set(packages(workspace))
    if got != want:
        return f"packages {sorted(got)}, expected {sorted(want)}"
    return None


def packages(collection, prefix=""):
    """Paths of all packages"""
    for package in collection.packages:
        yield prefix + "/" + package.name
        yield from packages(package, prefix + "/" + package.name)


# Names of roles of the user that are close to each other
OWN = ["A", "A!", "!A", "a", " A", "A ", "AB", "", "BaseType!", "!!A"]


def namespace_cases(thorough):
    for how in ("call", "config-first", "config-last"):
        for base in BASES:
            for rel in RELS:
                for role in (["BaseType", "!MyRole"] if not thorough else [*XML_ROLE, "!MyRole"]):
                    yield {"kind": "namespace", "name": "NS", "base": base, "map": [(role, rel)], "how": how}
        for role in XML_ROLE:
            yield {"kind": "namespace", "name": "NS", "base": None, "map": [(role, "R")], "how": how}
        for base in (None, "/", "/Base"):
            for rels in itertools.product(RELS[:4] if not thorough else RELS, repeat=2):
                for roles in (("BaseType", "!BaseType"), ("CompuMethod", "Unit"), ("!A", "!B")):
                    yield {"kind": "namespace", "name": "NS", "base": base, "map": list(zip(roles, rels)), "how": how}
        for pair in itertools.permutations(OWN, 2):
            yield {"kind": "namespace", "name": "NS", "base": None, "map": [("!" + pair[0], "R"), ("!" + pair[1], "S")],
                   "how": how}
        yield {"kind": "namespace", "name": "NS", "base": None, "how": how, "map": [("!" + r, f"P{n}") for n, r in enumerate(OWN)]}
        yield {"kind": "namespace", "name": "NS", "base": None, "how": how,
               "map": [(r, r + "s") for r in XML_ROLE if r not in ROLES] + [("!" + r, "My" + r) for r in XML_ROLE]}


def judge_bad_role(data):
    """A role that does not exist is refused"""
    if data["how"] == "call":
        workspace = ar_workspace.Workspace()
        _, ex = attempt(workspace.create_namespace, "NS", {data["role"]: "X"})
    else:
        workspace = ar_workspace.Workspace()
        with Scratch() as scratch:
            _, ex = attempt(workspace.load_config, scratch.file(toml({"namespace": {"NS": {data["role"]: "X"}}})))
    if ex is None:
        return f"role {data['role']!r} is accepted"
    if "NS" in workspace.namespaces:
        return "a refused namespace exists"
    return None


# --- Part 2: histories ---

MAPS = {"M1": {"k": "/P/Q", "m": "R"}, "M2": {"k": "R", "n": "/P"}}
NAMESPACES = {"N1": ("A", {"Unit": "Us", "!My": "/P/Q"}, None), "N2": ("A", {"Unit": "/R"}, "/Z"),
              "N3": ("B", {"Constant": "C", "Unit": "../P"}, "/P")}
CONFIGS = {"C1": ["N1", "N3"], "C2": ["N2"]}
OPS = (["map:M1", "map:M2"] + ["ns:" + n for n in NAMESPACES] + ["cfg:" + c for c in CONFIGS] +
       [f"add:{k}:{e}" for k in "kn" for e in "xy"] + ["apply:A:UNIT", "apply:B:UNIT", "apply:A:My", "pkg:/P/Q", "behavior"])


class Model:
    """What the workspace has to be"""

    def __init__(self):
        self.keys = {}
        self.spaces = {}
        self.tree = {}           # path -> sorted element names; only packages
        self.settings = {}

    def make(self, path):
        parts = path.strip("/").split("/")
        for num in range(len(parts)):
            self.tree.setdefault("/" + "/".join(parts[:num + 1]), [])
        return "/" + "/".join(parts)

    def space(self, key):
        name, roles, base = NAMESPACES[key]
        self.spaces[name] = {(r[1:] if r.startswith("!") else ROLES[XML_ROLE[r]]): model_path(name, base, p)
                             for r, p in roles.items()}


def play(ops, scratch):
    """Run a history on workspace and model, comparing after each operation -> None | message"""
    workspace, model = ar_workspace.Workspace(), Model()
    for num, op in enumerate(ops):
        kind, _, arg = op.partition(":")
        error = None
        if kind == "map":
            model.keys = {k: model.make(p) for k, p in MAPS[arg].items()}
            mapping = dict(MAPS[arg])
            _, ex = attempt(workspace.create_package_map, mapping)
            mapping.clear()         # the mapping belongs to the caller
        elif kind == "ns":
            model.space(arg)
            name, roles, base = NAMESPACES[arg]
            _, ex = attempt(workspace.create_namespace, name, dict(roles), base)
        elif kind == "cfg":
            config = {}
            for key in CONFIGS[arg]:
                model.space(key)
                name, roles, base = NAMESPACES[key]
                config[name] = dict(roles) if base is None else {**roles, "base_ref": base}
            _, ex = attempt(workspace.load_config, scratch.file(toml({"namespace": config}), arg + ".toml"))
        elif kind == "add":
            key, name = arg.split(":")
            if not model.keys:
                error = RuntimeError
            elif key not in model.keys:
                error = KeyError
            elif name in model.tree[model.keys[key]]:
                error = Exception
            else:
                model.tree[model.keys[key]].append(name)
            _, ex = attempt(workspace.add_element, key, ar_element.Unit(name))
        elif kind == "apply":
            space, role = arg.split(":")
            role = ROLES.get(role, role)
            if space not in model.spaces:
                error = KeyError
            elif role not in model.spaces[space]:
                error = ValueError
            else:
                path = model.make(model.spaces[space][role])
                if "t" not in model.tree[path]:
                    model.tree[path].append("t")
            _, ex = attempt(workspace.apply, Unit("t", space, role))
        elif kind == "pkg":
            model.make(arg)
            _, ex = attempt(workspace.make_packages, arg)
        else:
            value = f"P{num}"
            model.settings["init_event_prefix"] = value
            _, ex = attempt(workspace.load_config,
                            scratch.file(toml({"behavior": {"init_event_prefix": value}}), "b.toml"))
        if error is None and ex is not None:
            return f"step {num} {op}: {ex!r}"
        if error is not None and not isinstance(ex, error):
            return f"step {num} {op}: {ex!r}, expected {error.__name__}"
        msg = compare(workspace, model)
        if msg:
            return f"after step {num} {op}: {msg}"
    return None


def compare(workspace, model):
    """Ask everything"""
    got = list(packages(workspace))
    if sorted(got) != sorted(model.tree):
        return f"packages {sorted(got)}, expected {sorted(model.tree)}"
    for path, names in model.tree.items():
        package = workspace.find(path)
        if [e.name for e in package.elements] != names:
            return f"elements of {path}: {[e.name for e in package.elements]}, expected {names}"
    for key in ("k", "m", "n", "z", ""):
        package, ex = attempt(workspace.get_package, key)
        if key in model.keys:
            path = model.keys[key]
            if ex is not None or package is not workspace.find(path):
                return f"key {key} is not the package {path}: {ex!r}"
            for name in ("x", "y", "t", "z"):
                elem, ex = attempt(workspace.find_element, key, name)
                if ex is not None or elem is not workspace.find(f"{path}/{name}"):
                    return f"find_element({key!r}, {name!r}) is {elem!r} {ex!r}"
                if (elem is not None) != (name in model.tree[path]):
                    return f"find_element({key!r}, {name!r}) is {elem!r}"
        else:
            for func in (workspace.get_package, lambda k: workspace.find_element(k, "x")):
                res, ex = attempt(func, key)
                if not isinstance(ex, KeyError if model.keys else RuntimeError):
                    return f"key {key!r}: {res!r} {ex!r}"
    for space in ("A", "B", "C"):
        found, ex = attempt(workspace.get_namespace, space)
        if (space in model.spaces) == isinstance(ex, KeyError) or ex is None and found.name != space:
            return f"namespace {space}: {found!r} {ex!r}"
        for role in (ar_enum.PackageRole.UNIT, ar_enum.PackageRole.CONSTANT, ar_enum.PackageRole.BASE_TYPE, "My"):
            ref, ex = attempt(workspace.get_package_ref_by_role, space, role)
            want = model.spaces.get(space, {}).get(role)
            if want is not None and ref != want or want is None and ex is None:
                return f"role {role} of {space} is {ref!r} {ex!r}, expected {want!r}"
    for name in ("init_event_prefix", "timing_event_prefix"):
        value, ex = attempt(workspace.behavior_settings.get_value, name)
        if value != model.settings.get(name) or value is None and not isinstance(ex, ValueError):
            return f"setting {name} is {value!r} {ex!r}"
    return None


def judge_history(data):
    with Scratch() as scratch:
        return play(data["ops"], scratch)


# --- Part 3: configuration files ---

SETTINGS = sorted(k for k in vars(ar_element.BehaviorSettings()))
GOOD = {
    "namespace": [{"A": {"BaseType": "X"}}, {"A": {"base_ref": "/B", "!R": "Y"}, "B": {"Unit": "/U"}}],
    "document": [{"D": {"packages": "/P"}}, {"D": {"packages": ["/P", "/Q"]}, "E": {"packages": "/R"}}, {"D": {}},
                 {"dir/D": {"packages": []}}],
    "document_mapping": [{"M": {"package_ref": "/P", "element_types": "Unit"}},
                         {"M": {"package_ref": "/P", "element_types": ["Unit", "SwBaseType"], "suffix_filters": "_I"},
                          "N": {"package_ref": "/Q", "element_types": "SwComponentType",
                                "suffix_filters": ["_I", "_J"]}}],
    "behavior": [{"init_event_prefix": "I"}, {s: "P" + s for s in SETTINGS}],
}
BAD = {
    "namespace": [{"A": {"NoSuchRole": "X"}}, {"A": {"": "X"}}, {"A": {"BaseType": 1}},
                  {"A": {"BaseType": "X", "base_ref": 5}}, {"A": {"BaseType": ["X"]}}],
    "document": [{"D": {"packages": 1}}, {"D": {"packages": [1]}}, {"D": {"packages": ["/P", True]}}],
    "document_mapping": [{"M": {"element_types": "Unit"}}, {"M": {"package_ref": "/P"}},
                         {"M": {"package_ref": "/P", "element_types": "NoSuchElement"}},
                         {"M": {"package_ref": "/P", "element_types": []}},
                         {"M": {"package_ref": "/P", "element_types": 1}},
                         {"M": {"package_ref": "/P", "element_types": ["Unit", 1]}},
                         {"M": {"package_ref": "/P", "element_types": ["Unit", "NoSuchElement"]}},
                         {"M": {"package_ref": "/P", "element_types": "Unit", "suffix_filters": 1}},
                         {"M": {"package_ref": "/P", "element_types": "Unit", "suffix_filters": ["a", 1]}},
                         {"M": {"package_ref": 1, "element_types": "Unit"}},
                         {"M": {"package_ref": "/P", "element_types": "annotations"}}],
    "behavior": [{"no_such_setting": "X"}, {"init_event_prefix": 1}, {"init_event_prefix": True}, {"update": "x"},
                 {"set_value": "x"}, {"get_value": "x"}, {"__class__": "x"}, {"__doc__": "x"}],
}


def judge_config(data):
    """All sections take effect, each on its own"""
    config = data["whole"] if "whole" in data else {s: GOOD[s][n] for s, n in data["sections"]}
    with Scratch() as scratch:
        path = scratch.file(toml(config), data.get("file", "config.toml"))
        if data["how"] == "constructor":
            scratch.path = os.path.join(scratch.path, data.get("file", ""))
            workspace = ar_workspace.Workspace(path, scratch.path)
        elif data["how"] == "keyword":
            workspace = ar_workspace.Workspace(config_file_path=path)
        else:
            workspace = ar_workspace.Workspace()
            for section in config:
                workspace.load_config(scratch.file(toml({section: config[section]}), section + ".toml"))
        root = scratch.path if data["how"] == "constructor" else None
        if workspace.document_root != root:
            return f"document root is {workspace.document_root!r}"
    spaces = config.get("namespace", {})
    if set(workspace.namespaces) != set(spaces):
        return f"namespaces {sorted(workspace.namespaces)}"
    for name, table in spaces.items():
        for role, rel in table.items():
            if role == "base_ref":
                continue
            role = role[1:] if role.startswith("!") else ROLES[XML_ROLE[role]]
            ref, ex = attempt(workspace.get_package_ref_by_role, name, role)
            if ref != model_path(name, table.get("base_ref"), rel):
                return f"role {role} of {name}: {ref!r} {ex!r}"
    want = [(name + ".arxml", aslist(table.get("packages", []))) for name, table in config.get("document", {}).items()]
    got = [(d.file_path, d.package_refs) for d in workspace.documents]
    if got != want:
        return f"documents {got}, expected {want}"
    want = [(t["package_ref"], {getattr(ar_element, n) for n in aslist(t["element_types"])},
             aslist(t.get("suffix_filters", []))) for t in config.get("document_mapping", {}).values()]
    got = [(m.package_ref, set(m.element_types), m.suffix_filters) for m in workspace.document_mappings]
    if got != want:
        return f"document mappings {got}, expected {want}"
    settings = config.get("behavior", {})
    for name in SETTINGS:
        if getattr(workspace.behavior_settings, name) != settings.get(name):
            return f"setting {name} is {getattr(workspace.behavior_settings, name)!r}"
    return None


def similar(n, form):
    """n different names"""
    return [(f"N{i}", f"N{n - i}", "x" * (i + 1), "x" * (n - i), ("a", "A", "_a", "_A")[i % 4] + "b" * (i // 4))[form] for i in range(n)]


def large_config(n, form):
    """Many namespaces, roles, documents, packages, mappings, types and suffixes"""
    names = similar(n, form)
    roles = list(XML_ROLE)[:10]
    types = ["Unit", "SwBaseType", "ApplicationSoftwareComponentType", "CompositionSwComponentType", "SwAddrMethod", "CompuMethod",
             "DataConstraint", "ImplementationDataType", "SwcImplementation", "ConstantSpecification"]
    return {
        "namespace": {name: {**{"!" + r: f"P{k}/{r}" for k, r in enumerate(names[:12])}, roles[i % 10]: "/" + name, roles[(i + 1) % 10]: name,
                             **({"base_ref": "/Base" + name} if i % 3 else {})} for i, name in enumerate(names)},
        "document": {"D" + name: {"packages": [f"/{k}" for k in names[i:]]} for i, name in enumerate(names)},
        "document_mapping": {"M" + name: {"package_ref": "/" + name, "element_types": types[:i % 10 + 1],
                                          "suffix_filters": ["_" + k for k in names[:i + 1]]} for i, name in enumerate(names)},
        "behavior": {setting: "P_" + names[i % n] for i, setting in enumerate(SETTINGS[:n])}}


def judge_keys(data):
    """Many keys of the package map"""
    names, shape = data["names"], data["shape"]
    ref = {"flat": lambda i: "/" + names[i], "deep": lambda i: "/" + "/".join(names[:i + 1]), "in one": lambda i: "/P/" + names[i],
           "same": lambda i: "/" + names[i // 2]}[shape]
    workspace = ar_workspace.Workspace()
    workspace.create_package_map({key: ref(i) for i, key in enumerate(names)})
    made = {}
    for k in range(2):
        for i, key in enumerate(names):
            elem = ar_element.Unit(f"u{i}_{k}")
            workspace.add_element(key, elem)
            made.setdefault(ref(i), {})[elem.name] = elem
    for i, key in enumerate(names):
        package = workspace.get_package(key)
        if package is not workspace.find(ref(i)) or str(package.ref()) != ref(i):
            return f"key {key!r} is not {ref(i)}"
        for j in range(len(names)):
            for k in range(2):
                if workspace.find_element(key, f"u{j}_{k}") is not made[ref(i)].get(f"u{j}_{k}"):
                    return f"find_element({key!r}, 'u{j}_{k}') is {workspace.find_element(key, f'u{j}_{k}')!r}"
        for other in {key + "x", key[:-1], key.swapcase(), ref(i)} - set(names):
            res, ex = attempt(workspace.get_package, other)
            if not isinstance(ex, KeyError):
                return f"key {other!r}: {res!r} {ex!r}"
    return None


def aslist(value):
    return value if isinstance(value, list) else [value]


def judge_bad_config(data):
    """A faulty section is refused"""
    config = {s: GOOD[s][0] for s in data["good"]}
    config[data["section"]] = BAD[data["section"]][data["num"]]
    workspace = ar_workspace.Workspace()
    with Scratch() as scratch:
        _, ex = attempt(workspace.load_config, scratch.file(toml(config)))
    if ex is None:
        return f"{data['section']} {config[data['section']]} is accepted"
    return None


def judge_no_config(data):
    with Scratch() as scratch:
        path = os.path.join(scratch.path, "missing.toml") if data["text"] is None else scratch.file(data["text"])
        for func in (ar_workspace.Workspace, ar_workspace.Workspace().load_config):
            res, ex = attempt(func, path)
            if (ex is None) != data["fine"]:
                return f"{data['text']!r}: {res!r} {ex!r}"
    return None


# --- frame ---


def groups(thorough):
    yield "large"
    yield "namespace"
    yield "config"
    depth = 5 if thorough else 4
    for first in OPS:
        if thorough:
            for second in OPS:
                yield ["history", [first, second], depth - 2]
        else:
            yield ["history", [first], depth - 1]


def cases(group, thorough):
    if group == "namespace":
        for data in namespace_cases(thorough):
            yield f"namespace {data['how']} base={data['base']!r} {data['map']}"[:200], data
        for how in ("call", "config"):
            for role in ("NoSuchRole", "basetype", "", "MyRole", "BaseType "):
                yield f"bad role {role!r} {how}", {"kind": "bad_role", "role": role, "how": how}
        return
    if group == "large":
        for file in UNUSUAL:
            for how in ("constructor", "keyword"):
                yield f"file {file} {how}", {"kind": "config", "whole": large_config(2, 0), "how": how, "file": file}
        for n in (*range(2, 33 if thorough else 17), 40):
            for form in range(5):
                if n <= 16:
                    for how in ("constructor", "keyword", "separately"):
                        yield f"config of {n} {form} {how}", {"kind": "config", "whole": large_config(n, form), "how": how}
                for shape in ("flat", "deep", "in one", "same"):
                    yield f"{n} keys {form} {shape}", {"kind": "keys", "names": similar(n, form), "shape": shape}
        return
    if group == "config":
        for present in itertools.product(*[[None, *range(len(GOOD[s]))] for s in GOOD]):
            sections = [(s, n) for s, n in zip(GOOD, present) if n is not None]
            orders = itertools.permutations(sections) if thorough else (sections, sections[::-1])
            for order in orders:
                for how in ("constructor", "keyword", "separately"):
                    yield f"config {order} {how}", {"kind": "config", "sections": list(order), "how": how}
        for section, items in BAD.items():
            for num in range(len(items)):
                for good in ([], [s for s in GOOD if s != section]):
                    yield (f"bad config {items[num]} {len(good)}",
                           {"kind": "bad_config", "section": section, "num": num, "good": good})
        for text, fine in ((None, False), ("", True), ("# only a comment\n", True), ("[namespace\n", False), ("x\n", False),
                           ("[other]\nx = 1\n", True)):
            yield f"file {text!r}", {"kind": "no_config", "text": text, "fine": fine}
        return
    _, first, depth = group
    for rest in itertools.product(OPS, repeat=depth):
        ops = [*first, *rest]
        yield "history " + " ".join(ops), {"kind": "history", "ops": ops}, None, len(ops)


def judge(data):
    return {"namespace": judge_namespace, "bad_role": judge_bad_role, "history": judge_history, "config": judge_config,
            "bad_config": judge_bad_config, "no_config": judge_no_config, "keys": judge_keys}[data["kind"]](data)


if __name__ == "__main__":
    run("C15", groups, cases, judge, environment="workspace", threads="workspace", assumptions=["configuration files are written with a minimal TOML writer"])
