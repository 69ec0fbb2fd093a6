"""
Two users of the library in two threads, each with a workspace of its own: whatever the order in which their
steps are interleaved (see mc.interleave), each gets what it gets alone.
"""
import json
import os
import tempfile

import autosar.xml.element as ar
import autosar.xml.template as ar_template
import autosar.xml.workspace as ar_workspace
from autosar.generator import TypeGenerator
from autosar.model import ImplementationModel
from mc import ctypes_model as ct
from mc import interleave


class Base(ar_template.ElementTemplate):
    def create(self, package, workspace, dependencies, **kwargs):
        return ar.SwBaseType(self.element_name, size=8)


class Type(ar_template.ElementTemplate):
    def create(self, package, workspace, dependencies, **kwargs):
        return ar.ImplementationDataType(self.element_name, category=" ".join(sorted(dependencies)))


def templates(who, scratch):
    """Templates that share dependencies"""
    world = ar_workspace.Workspace(document_root=scratch)
    namespace(world, who)
    bases = [Base(f"base{n}", who, ar.ar_enum.PackageRole.BASE_TYPE) for n in range(2)]
    for template in [Type(f"{who}{n}", who, ar.ar_enum.PackageRole.IMPLEMENTATION_DATA_TYPE, bases) for n in range(2)]:
        world.apply(template)
    return [str(e.ref()) + " " + str(getattr(e, "category", "")) for e in everything(world)]


def namespace(world, who):
    config = os.path.join(world.document_root, "c.toml")
    with open(config, "w", encoding="utf-8") as fh:
        fh.write(f"[namespace.{who}]\nbase_ref = \"/{who}\"\nBaseType = \"{who}Base\"\nImplementationDataType = \"Types\"\n"
                 f"[document.{who}]\npackages = [\"/{who}\"]\n[behavior]\nbackground_event_prefix = \"B{who}\"\n"
                 f"init_event_prefix = \"I{who}\"\n")
    world.load_config(config)


def behavior(who, scratch):
    """Components with behaviors"""
    world = ar_workspace.Workspace(document_root=scratch)
    namespace(world, who)
    package = world.make_packages(f"/{who}/Comp")
    swc = ar.ApplicationSoftwareComponentType(who)
    package.append(swc)
    inner = swc.create_internal_behavior()
    inner.create_runnable(f"Run{who}")
    inner.create_background_event(f"Run{who}")
    inner.create_init_event(f"Run{who}")
    inner.create_background_event(f"Run{who}")
    found = world.find(f"/{who}/Comp/{who}")
    return [found is swc, inner.name, [(e.name, str(e.start_on_event)) for e in inner.events]]


def documents(who, scratch):
    """Documents of a workspace"""
    world = ar_workspace.Workspace(document_root=scratch)
    namespace(world, who)
    world.make_packages(f"/{who}/Deep/Er").append(ar.Unit(f"u{who}"))
    world.make_packages(f"/{who}/Comp").append(ar.ApplicationSoftwareComponentType(f"Swc{who}"))
    world.create_document_mapping(package_ref=f"/{who}/Comp", element_types=ar.SwComponentType, suffix_filters=["", "_Imp"])
    world.write_documents()
    res = []
    for name in sorted(os.listdir(scratch)):
        with open(os.path.join(scratch, name), encoding="utf-8") as fh:
            res.append([name, fh.read()])
    return res


def header(who, scratch):
    """A header"""
    nodes = ct.family(sorted(ct.FAMILIES)[0], 3)
    graph = {"bases": [f"{who} char", None], "nodes": nodes, "names": [f"{who}{n}_T" for n in range(len(nodes))],
             "symbols": [None] * len(nodes), "emitters": [None] * len(nodes)}
    world, _ = ct.build(graph)
    model = ImplementationModel(world)
    for i in range(len(nodes)):
        model.create_from_ref(ct.node_ref(graph, i))
    generator = TypeGenerator(model)
    generator.write_type_header(scratch)
    with open(os.path.join(scratch, "Rte_Type.h"), encoding="utf-8") as fh:
        return [generator.write_type_header_str(), fh.read(), [t.ref for t in generator.gen_data_type_creation_order()]]


def everything(package):
    for item in package.packages:
        yield item
        yield from everything(item)
    yield from getattr(package, "elements", [])


WORK = {"templates": templates, "behavior": behavior, "documents": documents, "header": header}
WORKS = {"workspace": ["templates", "behavior", "documents"], "templates": ["templates"], "behavior": ["behavior"], "documents": ["documents"],
         "headers": ["header"]}
_alone = {}


def expected(op, who):
    if (op, who) not in _alone:
        with tempfile.TemporaryDirectory() as scratch:
            _alone[op, who] = json.dumps(WORK[op](who, scratch))
    return _alone[op, who]


def pairs(what, thorough):
    """Pairs of operations; a bound of two preemptions only where they do the same"""
    return ([{"meet": [one, two], "bound": 1} for one in WORKS[what] for two in WORKS[what]] +
            [{"meet": [op, op], "bound": 2} for op in WORKS[what] if thorough and op in ("templates", "behavior")])


def schedules(group):
    """Every schedule with one preemption at a line, or with two at calls"""
    calls = group["bound"] == 2
    counts = []
    for op, who in zip(group["meet"], ("Aa", "Bb")):
        with tempfile.TemporaryDirectory() as scratch:
            counts.append(interleave.length(lambda: WORK[op](who, scratch), calls))   # pylint: disable=cell-var-from-loop
    for k in range(counts[0]):
        for j in range(counts[1]) if calls else [None]:
            yield (f"threads {' + '.join(group['meet'])} at {k}{'' if j is None else f', {j}'}",
                   {"meet": group["meet"], "at": k, "then": j}, "threads", 1 + group["bound"])


def judge(data):
    one, two = data["meet"]
    with tempfile.TemporaryDirectory() as scratch:
        folders = [os.path.join(scratch, who) for who in ("Aa", "Bb")]
        for folder in folders:
            os.mkdir(folder)
        got = interleave.execute(lambda: WORK[one]("Aa", folders[0]), lambda: WORK[two]("Bb", folders[1]),
                                 data["at"], data["then"], data["then"] is not None)
    for op, who, (res, out, err) in zip((one, two), ("Aa", "Bb"), got):
        res = json.dumps(res[1]) if res[0] == "result" else str(res)
        if res != expected(op, who) or out or err:
            return f"{op} of {who} gives {(res, out, err)} instead of {expected(op, who)}"[:700]
    return None
