"""
C26: A file operation that fails or is interrupted is reported, and leaves nothing wrong behind.

Every single operation on files (open, each write, close, read) of every scenario fails once, before or
after part of the text got through; afterwards the scenario is repeated without fault.  Every prefix of
written documents is read: what was left by an interrupted write is never taken for a document.
"""
import builtins
import errno
import io
import os
import shutil
import tempfile

from mc.harness import attempt, quiet, run
import autosar.xml.document as ar_document
import autosar.xml.element as ar
import autosar.xml.enumeration as ar_enum
import autosar.xml.reader as ar_reader
import autosar.xml.workspace as ar_workspace
import autosar.xml.writer as ar_writer
from autosar.generator import TypeGenerator
from autosar.model import ImplementationModel

CONFIG = """
[namespace.Default]
base_ref = "/Root"
BaseType = "Base"
"!Own" = "Mine"
[document.one]
packages = "/Root"
[document.two]
packages = ["/Root/Base", "/Comp"]
[document_mapping.m]
package_ref = "/Comp"
element_types = "ApplicationSoftwareComponentType"
suffix_filters = ["_Impl"]
[behavior]
init_event_prefix = "IT"
"""


class Disk:
    """Stands between the library and its files; the operation with number 'at' fails"""

    def __init__(self, at, torn):
        self.at, self.torn, self.count, self.opened = at, torn, 0, []
        self.log = []

    def step(self, name):
        """True if this operation fails"""
        self.log.append(name)
        self.count += 1
        return self.count - 1 == self.at

    def open(self, *args, **kwargs):
        path = args[0] if args else kwargs.get("file")
        if not (isinstance(path, (str, os.PathLike)) and "verif_c26_" in str(path)):
            return REAL_OPEN(*args, **kwargs)
        if self.step("open"):
            if self.torn:
                REAL_OPEN(*args, **kwargs).close()
            raise OSError(errno.EMFILE, "injected")
        handle = Handle(self, REAL_OPEN(*args, **kwargs))
        self.opened.append(handle)
        return handle

    def __enter__(self):
        builtins.open = io.open = self.open
        return self

    def __exit__(self, *_):
        builtins.open = io.open = REAL_OPEN


REAL_OPEN = builtins.open


class Handle:
    """A file whose operations may fail"""

    def __init__(self, disk, real):
        self.disk, self.real = disk, real

    def write(self, text):
        if self.disk.step("write"):
            if self.disk.torn:
                self.real.write(text[:(len(text) + 1) // 2])
            raise OSError(errno.ENOSPC, "injected")
        return self.real.write(text)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def read(self, *args):
        if self.disk.step("read"):
            raise OSError(errno.EIO, "injected")
        return self.real.read(*args)

    def close(self):
        if self.real.closed:
            return
        fails = self.disk.step("close")
        self.real.close()
        if fails:
            raise OSError(errno.EIO, "injected")

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()

    def __iter__(self):
        return iter(self.real)

    def __getattr__(self, name):
        return getattr(self.real, name)


def content(world):
    """The elements of all scenarios"""
    base, comp = world.make_packages("/Root/Base", "/Comp")
    native = ar.SwBaseType("u8", native_declaration="unsigned char")
    base.append(native)
    base.append(ar.ImplementationDataType("T", category="VALUE", sw_data_def_props=ar.SwDataDefPropsConditional(
        base_type_ref=native.ref())))
    swc = ar.ApplicationSoftwareComponentType("Swc", desc="A < B")
    comp.append(swc)
    swc.create_internal_behavior().create_runnable("Run")
    comp.append(ar.SwcImplementation("Swc_Impl"))
    comp.append(ar.Unit("Else"))


class Scenario:
    """Operations on one set of objects, with the files they make"""

    def __init__(self, folder):
        self.folder = folder
        self.world = ar_workspace.Workspace(document_root=folder)
        content(self.world)
        self.writer = ar_writer.Writer()

    def path(self, name):
        return os.path.join(self.folder, name)

    def snapshot(self):
        return ar_writer.Writer().write_str(ar_document.Document(), True) + "".join(
            ar_writer.Writer().write_str_elem(p) for p in self.world.packages)


class WriteFile(Scenario):
    """One document"""
    files = ["doc.arxml"]

    def __init__(self, folder):
        super().__init__(folder)
        other = ar_workspace.Workspace()
        content(other)
        self.document = ar_document.Document([other.packages[0], other.packages[1]])

    def act(self):
        self.writer.write_file(self.document, self.path("doc.arxml"))


class WriteElem(Scenario):
    """One element"""
    files = ["elem.arxml"]

    def act(self):
        self.writer.write_file_elem(self.world.find("/Comp/Swc"), self.path("elem.arxml"))


class WriteDocuments(Scenario):
    """All documents of a workspace"""
    files = ["one.arxml", "two.arxml", "Swc.arxml"]

    def __init__(self, folder):
        super().__init__(folder)
        self.world.create_document("one.arxml", "/Root")
        self.world.create_document("two.arxml", ["/Root/Base", "/Comp"])
        self.world.create_document_mapping("/Comp", ar.ApplicationSoftwareComponentType, "_Impl")

    def act(self):
        self.world.write_documents()


class WriteHeader(Scenario):
    """Header of types"""
    files = ["Rte_Type.h"]

    def __init__(self, folder):
        super().__init__(folder)
        model = ImplementationModel(self.world)
        model.create_from_ref("/Root/Base/T")
        self.generator = TypeGenerator(model)

    def act(self):
        self.generator.write_type_header(self.folder)


class LoadConfig(Scenario):
    """Configuration, and the documents it asks for"""
    files = ["one.arxml", "two.arxml", "Swc.arxml"]

    def __init__(self, folder):
        super().__init__(folder)
        with REAL_OPEN(self.path("c.toml"), "w", encoding="utf-8") as fh:
            fh.write(CONFIG)

    def act(self):
        world = ar_workspace.Workspace(self.path("c.toml"), document_root=self.folder)
        content(world)
        assert world.get_package_ref_by_role("Default", ar_enum.PackageRole.BASE_TYPE) == "/Root/Base"
        assert world.get_package_ref_by_role("Default", "Own") == "/Root/Mine"
        assert world.behavior_settings.init_event_prefix == "IT"
        world.write_documents()


SCENARIOS = {c.__name__: c for c in (WriteFile, WriteElem, WriteDocuments, WriteHeader, LoadConfig)}


def files_of(folder, names):
    res = {}
    for name in names:
        path = os.path.join(folder, name)
        if os.path.exists(path):
            with REAL_OPEN(path, encoding="utf-8") as fh:
                res[name] = fh.read()
    return res


def undisturbed(name):
    folder = tempfile.mkdtemp(prefix="verif_c26_")
    try:
        scenario = SCENARIOS[name](folder)
        with Disk(None, False) as disk:
            scenario.act()
        return files_of(folder, scenario.files), disk.log
    finally:
        shutil.rmtree(folder)


REFERENCE = {}


def judge_fault(data):
    name = data["scenario"]
    if name not in REFERENCE:
        REFERENCE[name] = undisturbed(name)
    expected, log = REFERENCE[name]
    folder = tempfile.mkdtemp(prefix="verif_c26_")
    try:
        scenario = SCENARIOS[name](folder)
        if sorted(expected) != sorted(scenario.files) or any(not t for t in expected.values()):
            return f"without fault: files {sorted(expected)}"
        before = scenario.snapshot()
        if data["old"]:
            for file in scenario.files:
                with REAL_OPEN(os.path.join(folder, file), "w", encoding="utf-8") as fh:
                    fh.write("old text " * 2000)
        with Disk(data["at"], data["torn"]) as disk:
            _, error = attempt(scenario.act)
        left = [h for h in disk.opened if not h.real.closed]
        for handle in left:
            handle.real.close()
        what = log[data["at"]] if data["at"] < len(log) else "?"
        if not isinstance(error, OSError):
            return f"failing {what} ended in {error!r}"
        if left and name != "WriteHeader":            # its files are handled by another library
            return f"failing {what} leaves {len(left)} file(s) open"
        if scenario.snapshot() != before:
            return f"failing {what} changed the workspace"
        present = files_of(folder, scenario.files)
        if data["old"] and sorted(present) != sorted(scenario.files):
            return f"failing {what} removes files: only {sorted(present)} are left"
        for file, text in present.items():
            if not (expected[file].startswith(text) or (data["old"] and text == "old text " * 2000)):
                return f"failing {what} leaves {file} as {text[:200]!r}..."
        if data.get("again") is not None:
            with Disk(data["again"], data["torn"]) as disk:
                _, error = attempt(scenario.act)
            for handle in disk.opened:
                handle.real.close()
            if data["again"] < len(log) and not isinstance(error, OSError):
                return f"failing {what}, then failing {log[data['again']]} ended in {error!r}"
        with Disk(None, False) as disk:
            _, error = attempt(scenario.act)
        if error is not None:
            return f"after a failing {what} the same operation raised {error!r}"
        if files_of(folder, scenario.files) != expected:
            return f"after a failing {what} the same operation writes something else"
    finally:
        shutil.rmtree(folder)
    return None


def judge_prefix(data):
    """Prefixes of one document, as string and as file"""
    folder = tempfile.mkdtemp(prefix="verif_c26_")
    reader = ar_reader.Reader()
    try:
        text = REFERENCE["WriteFile"][0]["doc.arxml"] if "WriteFile" in REFERENCE else undisturbed("WriteFile")[0]["doc.arxml"]
        end = text.index("</AUTOSAR>") + len("</AUTOSAR>")
        path = os.path.join(folder, "x.arxml")
        for length in range(*data["range"]):
            if length > len(text):
                break
            with REAL_OPEN(path, "w", encoding="utf-8") as fh:
                fh.write(text[:length])
            for form, function in (("string", lambda: reader.read_str(text[:length])), ("file", lambda: reader.read_file(path))):
                (document, error), _, _ = quiet(attempt, function)
                if length < end and (error is None or document is not None):
                    return f"the first {length} characters of a document are read from a {form} as {document!r}"
                if length >= end and error is not None:
                    return f"complete document raised {error!r}"
                if length >= end and sorted(p.name for p in document.packages) != ["Comp", "Root"]:
                    return f"document read after failures holds {[p.name for p in document.packages]}"
        (document, error), out, err = quiet(attempt, reader.read_str, text)
        if error is not None or out or err or ar_writer.Writer().write_str(document, False) != text:
            return f"after torn documents a complete one is read wrong: {error!r} {out} {err}"
        for missing in ("nothing.arxml", "."):
            _, error = attempt(reader.read_file, os.path.join(folder, missing))
            if not isinstance(error, OSError):
                return f"reading {missing} ended in {error!r}"
    finally:
        shutil.rmtree(folder)
    return None


def judge_place(data):
    """Files that cannot be there: no such folder, a folder of that name, a file that may not be written"""
    name, place = data["scenario"], data["place"]
    if name not in REFERENCE:
        REFERENCE[name] = undisturbed(name)
    expected, _ = REFERENCE[name]
    folder = tempfile.mkdtemp(prefix="verif_c26_")
    try:
        scenario = SCENARIOS[name](folder)
        before = scenario.snapshot()
        hidden = folder + "_away"
        if place == "no folder":
            os.rename(folder, hidden)
        elif place == "no config":
            os.unlink(scenario.path("c.toml"))
        elif place == "config folder":
            os.unlink(scenario.path("c.toml"))
            os.mkdir(scenario.path("c.toml"))
        else:
            os.mkdir(scenario.path(data["file"]))
        _, error = attempt(scenario.act)
        if place == "no folder":
            made = files_of(folder, scenario.files) if os.path.isdir(folder) else {}
            shutil.rmtree(folder, ignore_errors=True)
            os.rename(hidden, folder)
            if not isinstance(error, OSError) and (error is not None or made != expected):
                return f"without folder: {error!r}"
        elif not isinstance(error, OSError):
            return f"{place} {data.get('file')}: {error!r}"
        if scenario.snapshot() != before:
            return f"{place}: the workspace is changed"
        if place == "no config":
            with REAL_OPEN(scenario.path("c.toml"), "w", encoding="utf-8") as fh:
                fh.write(CONFIG)
        elif place == "config folder":
            os.rmdir(scenario.path("c.toml"))
            with REAL_OPEN(scenario.path("c.toml"), "w", encoding="utf-8") as fh:
                fh.write(CONFIG)
        elif place == "folder":
            os.rmdir(scenario.path(data["file"]))
        _, error = attempt(scenario.act)
        if error is not None or files_of(folder, scenario.files) != expected:
            return f"after {place} {data.get('file')}: {error!r}, files {sorted(files_of(folder, scenario.files))}"
    finally:
        shutil.rmtree(folder)
    return None


def judge(data):
    if "place" in data:
        return judge_place(data)
    return judge_prefix(data) if "range" in data else judge_fault(data)


def groups(thorough):
    return [(n, torn, old) for n in SCENARIOS for torn in (False, True) for old in (False, True)] + [("prefix", 0, 0), ("place", 0, 0)]


def cases(group, thorough):
    name, torn, old = group
    if name == "prefix":
        for start in range(0, len(undisturbed("WriteFile")[0]["doc.arxml"]) + 1, 50):
            yield f"prefix {start}", {"range": [start, start + 50]}, "torn document", 100
        return
    if name == "place":
        for name, scenario in SCENARIOS.items():
            yield f"{name} no folder", {"scenario": name, "place": "no folder"}, "no folder", 2
            for file in scenario.files:
                yield f"{name} folder {file}", {"scenario": name, "place": "folder", "file": file}, "folder", 2
        for place in ("no config", "config folder"):
            yield f"LoadConfig {place}", {"scenario": "LoadConfig", "place": place}, place, 2
        return
    log = undisturbed(name)[1]
    for at, what in enumerate(log):
        yield f"{name} {torn} {old} {at}", {"scenario": name, "torn": torn, "old": old, "at": at}, f"failing {what}", 2
    # two failures in a row: all pairs of operations other than writes that neither begin nor end a file
    ends = [n for n, what in enumerate(log) if (thorough and len(log) < 200) or what != "write" or log[n - 1] != "write" or
            log[n + 1] != "write"]
    for at in ends:
        for again in ends:
            yield f"{name} {torn} {old} {at} then {again}", {"scenario": name, "torn": torn, "old": old, "at": at,
                                                             "again": again}, "two failures", 3


if __name__ == "__main__":
    run("C26", groups, cases, judge,
        assumptions=["faults of the operations of Python files; one fault per history"])
