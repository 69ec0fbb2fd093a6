"""
C16: Templates: every element is created once, after everything it depends on, where its role says.

Exhaustive exploration of template systems: all dependency graphs over up to 3 (4) templates, all
kinds of templates, all places, and all histories of apply / by-hand / failing operations.  The log
of create calls, their arguments, results and the package tree are compared with a model after
every step.
"""
import itertools

from mc.harness import attempt, run
from autosar.xml import element as ar
from autosar.xml import enumeration as ar_enum
from autosar.xml import template as ar_template
from autosar.xml import workspace as ar_workspace

PLACES = {"u": ("A", ar_enum.PackageRole.UNIT, "/A/Units"), "b": ("B", ar_enum.PackageRole.UNIT, "/X/Y"),
          "m": ("B", "Mine", "/A"), "n": ("A", "None", None), "z": ("Z", ar_enum.PackageRole.UNIT, None)}


class Boom(Exception):
    """Raised by a create method"""


class System:
    """Templates, workspace and model of one case"""

    def __init__(self, spec):
        self.spec = spec
        self.log = []
        self.workspace = ar_workspace.Workspace()
        self.workspace.create_namespace("A", {"Unit": "Units"})
        self.workspace.create_namespace("B", {"Unit": "/X/Y", "!Mine": "../A"})
        self.templates = []
        for num, item in enumerate(spec):
            self.templates.append(make_template(self, num, item))
        # model
        self.paths = {}             # path -> (kind, creator)
        self.expected = []
        self.failures = {}

    # -- model -----------------------------------------------------------

    def place(self, num):
        return PLACES[self.spec[num]["place"]]

    def path(self, num):
        return f"{self.place(num)[2]}/{self.spec[num]['name']}"

    def add_packages(self, path):
        parts = path.strip("/").split("/")
        for end in range(len(parts)):
            here = "/" + "/".join(parts[:end + 1])
            if self.paths.get(here, "package") != "package":
                raise KeyError(here)
            self.paths.setdefault(here, "package")

    def model_apply(self, num, kwargs=()):
        """What apply has to do; raises the exception class it has to raise"""
        item = self.spec[num]
        if item["kind"] == "generic":
            self.expected.append((num, "apply", sorted(kwargs), None))
            self.add_packages(self.place(num)[2])
            if self.paths.get(self.path(num)) is None:
                self.paths[self.path(num)] = num
            return self.path(num)
        deps = None
        if item["deps"] is not None:
            deps = []
            for dep in item["deps"]:
                ref = self.model_apply(dep)
                if self.spec[dep]["kind"] == "generic" and self.spec[dep].get("returns") == "package":
                    raise TypeError
                deps.append(ref)
        space, role, package = self.place(num)
        if package is None:
            raise KeyError if space == "Z" else ValueError
        self.add_packages(package)
        path = self.path(num)
        if path in self.paths:
            if self.paths[path] == "package":
                raise TypeError
            return path
        self.expected.append((num, package, sorted(kwargs), None if deps is None else sorted(set(deps))))
        fault = item.get("fault")
        count = self.failures[num] = self.failures.get(num, 0) + 1
        if fault and not (fault.endswith("-once") and count > 1):
            if fault.startswith("raise"):
                raise Boom
            raise TypeError
        self.paths[path] = num
        return path

    # -- comparison ------------------------------------------------------

    def compare(self):
        got = {}

        def visit(collection, prefix):
            for package in collection.packages:
                path = prefix + "/" + package.name
                got[path] = "package"
                for elem in getattr(package, "elements", ()):
                    key = path + "/" + elem.name
                    if key in got:
                        raise AssertionError(f"{key} twice")
                    got[key] = elem
                visit(package, path)

        visit(self.workspace, "")
        want = {p: w == "package" for p, w in self.paths.items()}
        if {p: g == "package" for p, g in got.items()} != want:
            return f"the workspace holds {sorted(got)}, expected {sorted(want)}"
        for path, elem in got.items():
            if elem != "package":
                if str(elem.ref()) != path or self.workspace.find(path) is not elem:
                    return f"{path} has reference {elem.ref()}"
                if elem.category != f"made by {self.paths[path]}":
                    return f"{path} is {elem.category}, expected by {self.paths[path]}"
        if self.log != self.expected:
            return f"create calls {self.log}, expected {self.expected}"
        return None


def unit(system, num):
    return ar.Unit(system.spec[num]["name"], category=f"made by {num}")


class Element(ar_template.ElementTemplate):
    """Template under the rules of the workspace"""

    system, num, calls = None, None, 0

    def create(self, package, workspace, dependencies, **kwargs):
        system, num = self.system, self.num
        item = system.spec[num]
        if workspace is not system.workspace:
            raise AssertionError("not the workspace")
        keys = None
        if dependencies is not None:
            keys = sorted(dependencies)
            for key, value in dependencies.items():
                if str(value.ref()) != key or workspace.find(key) is not value:
                    raise AssertionError(f"dependency {key} is {value!r}")
            for dep in item["deps"]:
                other = system.templates[dep]
                if isinstance(other, Element) and other.ref(workspace) not in dependencies:
                    raise AssertionError(f"dependency {other.ref(workspace)} is missing")
        if package.find(item["name"]) is not None:
            raise AssertionError("the element exists already")
        system.log.append((num, str(package.ref()), sorted(kwargs.items()), keys))
        fault = item.get("fault")
        self.calls += 1
        if fault and not (fault.endswith("-once") and self.calls > 1):
            if fault.startswith("raise"):
                raise Boom
            return {"none": None, "package": ar.Package(item["name"]), "object": 5,
                    "part": ar.ModeDeclaration(item["name"])}[fault.replace("-once", "")]
        elem = unit(system, num)
        if item["kind"] == "self":
            package.append(elem)
        return elem


class Generic(ar_template.GenericTemplate):
    """Template that does everything itself"""

    system, num = None, None

    def apply(self, workspace, **kwargs):
        system, num = self.system, self.num
        item = system.spec[num]
        system.log.append((num, "apply", sorted(kwargs.items()), None))
        package = workspace.make_packages(workspace.get_package_ref_by_role(*PLACES[item["place"]][:2]))
        elem = package.find(item["name"])
        if elem is None:
            elem = unit(system, num)
            package.append(elem)
        return package if item.get("returns") == "package" else elem


class OnlyBase(ar_template.TemplateBase):
    """Neither kind of template"""


def make_template(system, num, item):
    """The template object of an entry of the spec"""
    space, role, _ = PLACES[item["place"]]
    deps = None if item["deps"] is None else [system.templates[d] for d in item["deps"]]
    if item["kind"] == "generic":
        template = Generic()
    elif item["kind"] == "self":
        template = Element(item["name"], space, role, deps, False)
    elif deps is None:
        template = Element(item["name"], space, role)
    else:
        template = Element(item["name"], space, role, depends=deps)
    template.system, template.num = system, num
    return template


def judge(data):
    if data["kind"] == "wrong":
        return judge_wrong(data)
    system = System(data["spec"])
    for step, op in enumerate(data["ops"]):
        kind, num = op[0], op[1]
        wanted, ex, result = None, None, None
        if kind == "apply":
            kwargs = [("k", 1), ("other", "x")] if len(op) > 2 else []
            model = None
            try:
                model = system.model_apply(num, kwargs)
            except (TypeError, KeyError, ValueError, Boom) as err:
                wanted = type(err)
            result, ex = attempt(system.workspace.apply, system.templates[num], **dict(kwargs))
            if wanted is None:
                if ex is not None:
                    return f"step {step} {op}: {ex!r}"
                if system.spec[num].get("returns") == "package":
                    if result is not system.workspace.find(system.place(num)[2]):
                        return f"step {step} {op}: result {result!r}"
                elif result is not system.workspace.find(model):
                    return f"step {step} {op}: result {result!r} is not the element {model}"
                template = system.templates[num]
                if isinstance(template, ar_template.ElementTemplate) and template.ref(system.workspace) != model:
                    return f"step {step} {op}: template predicts {template.ref(system.workspace)}, is {model}"
            elif not isinstance(ex, wanted):
                return f"step {step} {op}: {result!r} {ex!r}, expected {wanted.__name__}"
        elif kind == "hand":
            package, name = system.place(num)[2], system.spec[num]["name"]
            system.add_packages(package)
            if system.path(num) not in system.paths:
                system.paths[system.path(num)] = "hand"
                system.workspace.make_packages(package).append(ar.Unit(name, category="made by hand"))
        elif kind == "package":
            if system.paths.get(system.path(num), "package") == "package":
                system.add_packages(system.path(num))
                system.workspace.make_packages(system.path(num))
        msg = system.compare()
        if msg:
            return f"after step {step} {op}: {msg}"
    return None


def judge_wrong(data):
    """Something that is not a template is refused"""
    workspace = ar_workspace.Workspace()
    thing = {"none": None, "str": "x", "element": ar.Unit("u"), "class": ar_template.ElementTemplate,
             "base": OnlyBase(), "list": []}[data["thing"]]
    res, ex = attempt(workspace.apply, thing)
    if not isinstance(ex, NotImplementedError) or workspace.packages:
        return f"{data['thing']} is applied: {res!r} {ex!r}"
    return None


def dep_lists(num, thorough):
    """All dependency lists on earlier templates"""
    yield None
    for size in range(num + 1):
        yield from itertools.permutations(range(num), size)
    if num:
        yield (0, 0)
        if thorough and num > 1:
            yield (1, 0, 1)


def groups(thorough):
    yield "wrong"
    for kinds in itertools.product(("normal", "self", "generic"), repeat=3):
        yield ["graph", kinds]
    for fault in ("none", "package", "object", "part", "raise"):
        for once in ("", "-once"):
            yield ["fault", fault + once]
    yield "large"
    yield "places"
    yield "collide"
    if thorough:
        for kinds in itertools.product(("normal", "self"), repeat=4):
            yield ["four", kinds]


def shapes(most):
    """Dependency lists of many templates: chains, stars, trees, layers, everything on everything"""
    for n in range(4, most + 1):
        yield n, [None] + [(i - 1,) for i in range(1, n)]
        yield n, [None] * (n - 1) + [tuple(range(n - 1))]
        yield n, [None] * (n - 1) + [tuple(range(n - 1))[::-1]]
        yield n, [()] + [((i - 1) // 2,) for i in range(1, n)]
        yield n, [None, (0,)] + [(i - 1, i - 2) if i % 3 == 0 else (i - 2,) for i in range(2, n)]
        yield n, [None] * (n // 2) + [tuple(range(n // 2))] * (n - n // 2)
        if n < 10:
            yield n, [tuple(range(i)) for i in range(n)]


def entry(name, place, kind, deps, **more):
    return dict(name=name, place=place, kind=kind, deps=None if deps is None else list(deps), **more)


def cases(group, thorough):
    for spec, ops in _cases(group, thorough):
        if spec is None:
            yield f"wrong {ops}", {"kind": "wrong", "thing": ops}
            continue
        text = "; ".join(f"{s['name']}@{s['place']} {s['kind']} {s['deps']} {s.get('fault', '')}{s.get('returns', '')}"
                         for s in spec)
        yield f"{text} | {ops}", {"kind": "system", "spec": spec, "ops": ops}, None, len(ops)


def _cases(group, thorough):
    if group == "wrong":
        for thing in ("none", "str", "element", "class", "base", "list"):
            yield None, thing
    elif group == "places":
        for first, second in itertools.product(PLACES, repeat=2):
            for kinds in itertools.product(("normal", "self"), repeat=2):
                spec = [entry("e", first, kinds[0], None), entry("f", second, kinds[1], (0,))]
                for ops in ([1], [0, 1], [1, 0], [1, 1], [0, 0, 1, 1]):
                    yield spec, [("apply", n) for n in ops]
    elif group == "large":
        for n, deps in shapes(24 if thorough else 16):
            for k, kinds in enumerate((("normal",), ("self",), ("normal", "self", "generic"))):
                for names in (lambda i: f"e{i}", lambda i: "x" * (i + 1), lambda i: f"E{n - i}") if k == 0 else (lambda i: f"e{i}",):
                    for places in ("u", "ubm"):
                        spec = [entry(names(i), places[i % len(places)], kinds[i % len(kinds)], deps[i]) for i in range(n)]
                        for ops in ([n - 1], [*range(n)], [*range(n)][::-1], [n - 1, 0, n - 2, n - 1], [*range(0, n, 2), *range(1, n, 2)]):
                            yield spec, [("apply", i) for i in ops]
    elif group == "collide":
        # two templates of the same name and place, elements and packages that are there already
        for kinds in itertools.product(("normal", "self", "generic"), repeat=2):
            for places in (("u", "u"), ("u", "b"), ("b", "b")):
                for deps in (None, (), (0,)):
                    spec = [entry("e", places[0], kinds[0], None), entry("e", places[1], kinds[1], deps)]
                    acts = [("apply", 0), ("apply", 1), ("hand", 0), ("hand", 1), ("apply", 1, "kw")]
                    if "generic" not in kinds:
                        acts.append(("package", 0))
                    for ops in itertools.product(acts, repeat=3):
                        if ("package", 0) in ops and any(o[0] == "hand" for o in ops):
                            continue
                        yield spec, list(ops)
        for kind in ("normal", "self"):
            spec = [entry("e", "u", "generic", None, returns="package"), entry("f", "b", kind, (0,))]
            for ops in ([0], [1], [0, 1], [1, 1]):
                yield spec, [("apply", n) for n in ops]
    elif group[0] == "fault":
        fault = group[1]
        for where in range(3):
            for kinds in itertools.product(("normal", "self"), repeat=3):
                for deps1, deps2 in itertools.product(dep_lists(1, False), dep_lists(2, False)):
                    spec = [entry("e", "u", kinds[0], None), entry("f", "b", kinds[1], deps1),
                            entry("g", "u", kinds[2], deps2)]
                    spec[where]["fault"] = fault
                    for ops in itertools.product(range(3), repeat=3 if thorough else 2):
                        yield spec, [("apply", n) for n in ops]
    elif group[0] == "graph":
        for places, names in (("uuu", ("e0", "e1", "e2")), ("ubm", ("e0", "e1", "e2")), ("ubm", ("e", "e", "e")),
                              ("uub", ("e", "E", "e"))):
            for deps in itertools.product(dep_lists(0, thorough), dep_lists(1, thorough), dep_lists(2, thorough)):
                if any(d and d.count(i) > 1 and group[1][i] == "generic" for d in deps for i in d or ()):
                    continue         # how often something generic is applied for two equal entries is nobody's concern
                spec = [entry(names[n], places[n], group[1][n], deps[n]) for n in range(3)]
                for length in (2, 3):
                    for ops in itertools.product(range(3), repeat=length):
                        yield spec, [("apply", n) if i else ("apply", n, "kw") for i, n in enumerate(ops)]
    else:
        for deps in itertools.product(dep_lists(1, False), dep_lists(2, False), dep_lists(3, False)):
            spec = [entry(f"e{n}", "ubum"[n], group[1][n], None if n == 0 else deps[n - 1]) for n in range(4)]
            for ops in itertools.product(range(4), repeat=2):
                yield spec, [("apply", n) for n in ops]


if __name__ == "__main__":
    run("C16", groups, cases, judge, environment="workspace", threads="templates", assumptions=[
        "create methods of templates with append_to_package=False append the element themselves"])
