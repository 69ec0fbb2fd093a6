"""
The same work in other environments: what a process of its own gets in another locale, with another order of
hashes, without assertions or in another folder has to be what this process gets.
"""
import hashlib
import json
import os
import subprocess
import sys
import tempfile

ENVIRONMENTS = {
    "ascii": ([], {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}),
    "posix": ([], {"LC_ALL": "POSIX", "LANG": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "TZ": "Asia/Tokyo"}),
    "utf8": (["-X", "utf8"], {"LC_ALL": "C.UTF-8"}),
    "optimized": (["-O"], {}),
    "isolated": (["-s"], {"HOME": "/nowhere", "TMPDIR": "", "USER": "", "COLUMNS": "20", "TERM": "dumb"}),
    **{f"hash {n}": ([], {"PYTHONHASHSEED": str(n)}) for n in range(1, 17)}}


def names(thorough):
    return list(ENVIRONMENTS)[:None if thorough else 10]


def digest(data):
    return hashlib.sha256(data if isinstance(data, bytes) else data.encode("utf-8")).hexdigest()


def documents(scratch):
    """Documents of all classes, written and read"""
    from mc import build as b
    from mc.cases import cases, ordered
    from mc.harness import quiet
    res = {}
    path = os.path.join(scratch, "d.arxml")
    writer, reader = b.ar_writer.Writer(), b.ar_reader.Reader()
    for cname in b.PATHS:
        for label, p in cases(cname, False):
            if label not in ("min", "full"):
                continue
            for text in ("", "Gr\u00fc\u00dfe \u6f22\u5b57 \U0001f600 &<>\""):
                other = {"c": "Unit", "p": {"name": "ZzUnit", "long_name": {"c": "MultilanguageLongName", "p": {"long_name": [
                    {"c": "LanguageLongName", "p": {"language": {"e": "Language.DE"}, "parts": [text or "x"]}}]}}}}
                doc = b.make_document([b.embed(cname, ordered(cname, p)), other], 51)
                whole = writer.write_str(doc, False)
                writer.write_file(doc, path)
                with open(path, "rb") as fh:
                    raw = fh.read()
                back, out, err = quiet(reader.read_file, path)
                res[f"{cname} {label} {text}"] = [digest(whole), digest(raw), digest(writer.write_str(back, False)), out, err]
    return res


def workspace(scratch):
    """A configured workspace with templates and documents"""
    import autosar.xml.element as ar
    import autosar.xml.enumeration as ar_enum
    import autosar.xml.workspace as ar_workspace
    import autosar.xml.template as ar_template
    config = os.path.join(scratch, "c.toml")
    with open(config, "w", encoding="utf-8") as fh:
        fh.write("""
[namespace.Default]
base_ref = "/Base"
BaseType = "Types"
ImplementationDataType = "Types"
Constant = "/Const"
Unit = "Units"
ComponentType = "Comp"
[document.all]
packages = ["/Base", "/Const", "/Other/Deep", "/Base/Types"]
[document.other]
packages = "/Other"
[document_mapping.one]
package_ref = "/Base/Comp"
element_types = "SwComponentType"
suffix_filters = ["_Imp", "_A", "_C", "", "_B"]
[behavior]
data_receive_point_prefix = "\u00fc"
background_event_prefix = "BG"
""")
    world = ar_workspace.Workspace(config, scratch)

    class Base(ar_template.ElementTemplate):
        def create(self, package, workspace, dependencies, **kwargs):
            return ar.SwBaseType(self.element_name, size=8)

    class Type(ar_template.ElementTemplate):
        def create(self, package, workspace, dependencies, **kwargs):
            return ar.ImplementationDataType(self.element_name, category="VALUE", desc=" ".join(dependencies))

    bases = [Base(f"base{n}", "Default", ar.ar_enum.PackageRole.BASE_TYPE) for n in range(12)]
    types = [Type(f"type{n}", "Default", ar.ar_enum.PackageRole.BASE_TYPE, bases[n:] + bases[:n]) for n in range(12)]
    for template in reversed(types):
        world.apply(template)
    comp = world.find("/Base/Comp") or world.make_packages("/Base/Comp")
    for name in ("Alpha", "beta", "Gamma", "Alpha_A", "Alpha_B", "beta_C", "beta_Imp"):
        if "_" in name:
            comp.append(ar.SwcImplementation(name))
        else:
            swc = ar.ApplicationSoftwareComponentType(name)
            comp.append(swc)
            behavior = swc.create_internal_behavior()
            behavior.create_runnable("Run")
            for _ in range(12):
                behavior.create_background_event("Run")
    world.make_packages("/Other/Deep/Er").append(ar.Unit("u", desc="\u00fc"))
    world.make_packages("/Const").append(ar.ConstantSpecification.make_constant("c", ["R", ["A", 1, 2], "\u00fc", 2.5]))
    world.write_documents()
    res = {"refs": [str(e.ref()) for p in world.packages for e in everything(p)], "settings": repr(sorted(
        (k, v) for k, v in vars(world.behavior_settings).items() if isinstance(v, (str, type(None)))))}
    for name in sorted(os.listdir(scratch)):
        with open(os.path.join(scratch, name), "rb") as fh:
            res["file " + name] = digest(fh.read())
    return res


def everything(package):
    for item in package.packages:
        yield item
        yield from everything(item)
    yield from package.elements


def headers(scratch):
    """Headers of large sets of types"""
    from autosar.generator import TypeGenerator
    from autosar.model import ImplementationModel
    from mc import ctypes_model as ct
    res = {}
    for kind in ct.FAMILIES:
        for n in (3, 12):
            nodes = ct.family(kind, n)
            for names_ in ct.namings(len(nodes)):
                graph = {"bases": ["unsigned char", None], "nodes": nodes, "names": names_, "symbols": [None] * len(nodes),
                         "emitters": [None] * len(nodes)}
                world, _ = ct.build(graph)
                model = ImplementationModel(world)
                for i in list(range(0, len(nodes), 2)) + list(range(1, len(nodes), 2)):
                    model.create_from_ref(ct.node_ref(graph, i))
                generator = TypeGenerator(model)
                text = generator.write_type_header_str()
                generator.write_type_header(scratch)
                with open(os.path.join(scratch, "Rte_Type.h"), "rb") as fh:
                    res[f"{kind} {n} {names_[:2]}"] = [digest(text), digest(fh.read()), sorted(model.source_type_refs),
                                                      [t.ref for t in generator.gen_data_type_creation_order()]]
    return res


WORK = {"documents": documents, "workspace": workspace, "headers": headers}


def work(what):
    with tempfile.TemporaryDirectory(dir="/tmp") as scratch:
        return json.loads(json.dumps(WORK[what](scratch)))


_here = {}


def judge(what, environment):
    """None or how the result in the environment differs from the one here"""
    if what not in _here:
        _here[what] = work(what)
    flags, env = ENVIRONMENTS[environment]
    with tempfile.TemporaryDirectory(dir="/tmp") as folder:
        done = subprocess.run([sys.executable, *flags, "-m", "mc.environments", what], env={**os.environ, **env}, cwd=folder,
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE, check=False, timeout=300)
    if done.returncode:
        return f"{what} in environment {environment}: {done.stderr.decode('utf-8', 'replace')[-300:]}"
    there = json.loads(done.stdout.decode("ascii"))
    for key, value in _here[what].items():
        if there.get(key) != value:
            return f"{key} in environment {environment}: {str(there.get(key))[:150]} instead of {str(value)[:150]}"
    return None if len(there) == len(_here[what]) else f"{what} in environment {environment}: other results"


if __name__ == "__main__":
    print(json.dumps(work(sys.argv[1])))
