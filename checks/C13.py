"""
C13: there is one meaning, however it is said.  An object comes out the same whether its content
is given to the constructor at once, appended step by step, or made by a create method; whether a
list of one is given as a list or as the single item, a reference as an object or as a string.
What is not accepted raises an error and changes nothing.
"""
import enum
import itertools
import os

import autosar.xml.element as ar
import autosar.xml.enumeration as ar_enum
import autosar.xml.document as ar_document
import autosar.xml.reader as ar_reader
import autosar.xml.writer as ar_writer
from mc import build as b
from mc.appends import APPEND, CREATE
from mc.cases import cases as all_cases, long_cases, ordered
from mc.harness import attempt, run
from mc.spec import REFS, SPEC

# make(name, start_on_event, ..., what the instance reference is made of): (parameter, class of the instance reference)
MAKE = {
    "DataReceiveErrorEvent": ("data", "RVariableInAtomicSwcInstanceRef", ("context_port", "target_data_element")),
    "DataReceivedEvent": ("data", "RVariableInAtomicSwcInstanceRef", ("context_port", "target_data_element")),
    "ExternalTriggerOccurredEvent": ("trigger", "RTriggerInAtomicSwcInstanceRef", ("context_port", "target_trigger")),
    "OperationInvokedEvent": ("operation", "POperationInAtomicSwcInstanceRef", ("context_port", "target_provided_operation")),
    "SwcModeManagerErrorEvent": ("mode_group", "PModeGroupInAtomicSwcInstanceRef",
                                 ("context_port", "context_mode_declaration_group_prototype")),
    "SwcModeSwitchEvent": ("mode", "RModeInAtomicSwcInstanceRef",
                           ("context_port", "context_mode_declaration_group_prototype", "target_mode_declaration")),
}
READER = ar_reader.Reader()
E_ERRORS = (TypeError, ValueError, AssertionError, NotImplementedError)

# forms that have to be accepted: (class, parameter) by form; generated from the type hints
DIRECT = ("list", "setlist", "exarea", "vlist", "append")


def parents(obj):
    """[(path, parent is the containing object | description)] of everything inside"""
    out = []

    def visit(o, path):
        for attr, value in sorted(b.public_vars(o).items()):
            todo = [(f"{path}.{attr}", value)]
            while todo:
                p, v = todo.pop(0)
                if isinstance(v, (list, tuple)):
                    todo += [(f"{p}[{i}]", x) for i, x in enumerate(v)]
                elif isinstance(v, dict):
                    todo += [(f"{p}[{k!r}]", x) for k, x in v.items()]
                elif isinstance(v, ar.ARObject):
                    out.append((p, getattr(v, "parent", None) is o))
                    visit(v, p)
    visit(obj, "")
    return out


def same(a, other):
    diff = b.diff_values(a, other)
    if diff:
        return diff
    for (p, x), (_, y) in zip(parents(a), parents(other)):
        if x != y:
            return f"parent of {p} is {'not ' if x else ''}set"
    return None


def kwargs_of(cname, p):
    """python arguments of those parameters that the constructor takes"""
    out = {}
    for row in SPEC[cname].all_rows():
        if row.param in p and row.codec not in ("setobj", "setlist", "append"):
            v = b.pyval(p[row.param])
            if cname == "SwcModeSwitchEvent" and row.param == "mode":
                v = v[0] if len(v) == 1 else tuple(v)
            out[row.param] = v
    for limit in b.LIMIT_PARAMS:
        if limit in p:
            out[limit] = b.pyval(p[limit])
    return out


def judge(data):
    return {"append": judge_append, "create": judge_create, "form": judge_form, "wrong": judge_wrong,
            "special": judge_special, "make": judge_make, "assign": judge_assign, "short": judge_short}[data["kind"]](data)


def judge_append(data):
    c, param, base, value, split = data["c"], data["param"], data["base"], data["value"], data["split"]
    whole = b.build(ordered(c, {**base, param: value}))
    first = {**base, param: value[:split]} if split else dict(base)
    obj = b.build(ordered(c, first))
    method = getattr(obj, APPEND[c, param])
    for v in value[split:]:
        method(b.pyval(v))
    msg = same(whole, obj)
    if msg:
        return f"{c}({param}=[...]) and {split} given, {len(value) - split} appended, differ: {msg}"
    return None


def judge_create(data):
    n, p, positional, before = data["row"], data["p"], data["positional"], data["before"]
    host_c, method, c, attr, pos, fixed = CREATE[n]

    def host():
        h = getattr(ar, host_c)("Host")
        for i in range(before):
            add(h, b.build(dict(b.minimal(c), p={**b.minimal(c)["p"], **({"name": f"Before{i}"} if "name" in pos else {})})))
        return h

    def add(h, item):
        if (host_c, attr) in APPEND:
            getattr(h, APPEND[host_c, attr])(item)
        else:
            setattr(h, attr, item)
            item.parent = h

    expected = host()
    add(expected, getattr(ar, c)(**kwargs_of(c, {**p, **fixed})))
    actual = host()
    kwargs = kwargs_of(c, {k: v for k, v in p.items() if k not in fixed})
    if method == "create_runnable" and kwargs.get("symbol") is None:
        kwargs["symbol"] = None       # left out means: same as the name
    args = []
    if positional:
        for k in pos:
            if k in kwargs:
                args.append(kwargs.pop(k))
            elif any(x in kwargs for x in pos[pos.index(k):]):
                args.append(None)
            else:
                break
    made = getattr(actual, method)(*args, **kwargs)
    msg = same(expected, actual)
    if msg:
        return f"{host_c}.{method}: not the same as appending a {c}: {msg}"
    held = getattr(actual, attr)
    last = held[-1] if isinstance(held, list) else held
    if made is not last:
        return f"{host_c}.{method} does not return the object it added"
    return None


def judge_make(data):
    """The make method of an event is the constructor with an instance reference made of the arguments"""
    c, event, inner, positional = data["c"], data["event"], data["inner"], data["positional"]
    param, iref, names = MAKE[c]
    kwargs = kwargs_of(c, event)
    parts = kwargs_of(iref, inner)
    rows = [r.param for r in SPEC[iref].all_rows()]
    expected = getattr(ar, c)(**kwargs, **{param: getattr(ar, iref)(**parts)})
    order = ["name", "start_on_event"] + (["activation"] if c == "SwcModeSwitchEvent" else []) + list(names)
    given = {**kwargs, **dict(zip(names, [parts.get(x) for x in parameters(iref, rows)]))}
    args = [given.pop(x, None) for x in order] if positional else []
    actual = getattr(ar, c).make(*args, **given)
    msg = same(expected, actual)
    return f"{c}.make: {msg}" if msg else None


def document(c, p):
    desc = ordered(c, p)
    obj = b.build(b.embed(c, desc) if c != "Package" else desc)
    doc = ar_document.Document(schema_version=51)
    (doc if c == "Package" else doc.create_package("Pkg")).append(obj)
    return doc


def assign(old, new):
    """Assigns what differs, as deep inside as possible -> attributes assigned"""
    count = 0
    for attr, value in sorted(vars(new).items()):
        attr = attr.removeprefix("_")
        if attr == "parent" or f"_{attr}" in vars(new) and not hasattr(type(new), attr):
            continue
        have = getattr(old, attr, None)
        if b.diff_values(have, value) is None:
            continue
        pairs = [(have, value)]
        if isinstance(value, (list, dict)) and type(have) is type(value) and len(have) == len(value):
            pairs = list(zip(have, value) if isinstance(value, list) else zip(have.values(), value.values()))
        if all(type(x) is type(y) and hasattr(y, "__dict__") and not isinstance(y, (dict, enum.Enum)) for x, y in pairs):
            for x, y in pairs:
                count += assign(x, y)
        else:
            setattr(old, attr, value)
            if getattr(value, "parent", None) is new:
                value.parent = old
            count += 1
    return count


def judge_assign(data):
    """What is assigned later is written as if it had been given to the constructor"""
    c = data["c"]
    doc, other = document(c, data["before"]), document(c, data["after"])
    writer = ar_writer.Writer(51)
    expected = writer.write_str(other)
    if data["origin"] == "written":
        writer.write_str(doc)
    elif data["origin"] == "read":
        doc = READER.read_str(writer.write_str(doc, False))
    count = sum(assign(x, y) for x, y in zip(doc.packages, other.packages))
    text = writer.write_str(doc)
    if text != expected:
        have, want = text.split("\n"), expected.split("\n")
        i = next(i for i in range(len(want)) if i >= len(have) or have[i] != want[i])
        return f"{c}: after {count} attributes were assigned, {have[i:i + 3]} is written, expected {want[i:i + 3]}"
    if count == 0 and data["before"] != data["after"] and writer.write_str(document(c, data["before"])) != expected:
        return f"{c}: nothing to assign"
    return None


def parameters(iref, rows):
    """Parameters of the instance reference in the order of its constructor"""
    code = getattr(ar, iref).__init__.__code__
    return [x for x in code.co_varnames[1:code.co_argcount] if x in rows]


def judge_form(data):
    c, param, base, value, form = data["c"], data["param"], data["base"], data["value"], data["form"]
    base = {k: v for k, v in base.items() if SPEC[c].row(k).codec not in ("setobj", "setlist", "append")}
    if form in ("single", "tuple"):
        full = {**base, param: value}
        real = b.pyval(value[0]) if form == "single" else tuple(b.pyval(value))
    elif form == "str":
        full = {**base, param: value}
        real = value["v"]
    elif form == "str in list":
        full = {**base, param: value}
        real = [x["v"] for x in value]
    else:          # a single string for a list of references
        full = {**base, param: value}
        real = value[0]["v"]
    whole = b.build(ordered(c, full))
    kwargs = kwargs_of(c, base)
    kwargs[param] = real
    obj, ex = attempt(getattr(ar, c), **kwargs)
    if ex is not None:
        if data["must"]:
            return f"{c}({param}={form}) raised {type(ex).__name__}: {ex}"
        return None if isinstance(ex, E_ERRORS + (IndexError, KeyError, AttributeError)) else f"raised {ex!r}"
    if not data["must"] and getattr(obj, param, None) is real:
        return None          # kept exactly as given
    msg = same(whole, obj)
    if msg:
        return f"{c}({param}=...) given as {form} differs from the full form: {msg}"
    return None


LANGUAGES = {"MultilanguageLongName": ("long_name", "LanguageLongName"), "MultiLanguageParagraph": ("paragraph", "LanguageParagraph"),
             "MultiLanguageOverviewParagraph": ("paragraph", "LanguageOverviewParagraph"),
             "MultiLanguageVerbatim": ("element", "LanguageVerbatim")}


def shorts(cls):
    """Short forms an object of a class may be given in: (form, short, full)"""
    if cls in LANGUAGES:
        param, inner = LANGUAGES[cls]
        for text in ("text", "", " a <b> "):
            for language in ("FOR_ALL", "EN", "DE"):
                full = {"c": cls, "p": {param: [{"c": inner, "p": {"language": {"e": f"Language.{language}"}, "parts": [text]}}]}}
                if language == "FOR_ALL":
                    yield "text", text, full
                yield "tuple", {"tuple": [{"e": f"Language.{language}"}, text]}, full
                yield "language", full["p"][param][0], full
    elif cls == "SingleLanguageUnitNames":
        for text in ("km/h", " ", "<&>"):
            yield "text", text, {"c": cls, "p": {"parts": [text]}}
    elif cls == "CompuConst":
        for value in (5, 0, -1, 2.5, 0.0, "T", "7", ""):
            yield type(value).__name__, value, {"c": cls, "p": {"value": value}}
    elif cls in ("ModeSwitchedAckRequest", "TransmissionAcknowledgementRequest"):
        for value in (5, 0, 2.5, 0.0):
            yield "number", value, {"c": cls, "p": {"timeout": value}}
    elif cls == "SwDataDefProps":
        for value in ({"c": "SwDataDefPropsConditional", "p": {}},
                      {"c": "SwDataDefPropsConditional", "p": {"impl_policy": {"e": "SwImplPolicy.QUEUED"}}}):
            yield "conditional", value, {"c": cls, "p": {"variants": [value]}}


def short_value(v):
    return tuple(b.pyval(x) for x in v["tuple"]) if isinstance(v, dict) and "tuple" in v else b.pyval(v)


def judge_short(data):
    c, param, base, how = data["c"], data["param"], data["base"], data["how"]
    base = {k: v for k, v in base.items() if SPEC[c].row(k).codec not in ("setobj", "setlist", "append")}
    whole = b.build(ordered(c, {**base, param: data["full"]}))
    if how == "make":
        obj, ex = attempt(getattr(ar, c).make, *short_value(data["short"]))
    else:
        value = short_value(data["short"])
        obj, ex = attempt(getattr(ar, c), **{**kwargs_of(c, base), param: value})
    if ex is not None:
        if data["must"]:
            return f"{c}({param}={data['short']!r}) raised {type(ex).__name__}: {ex}"
        return None if isinstance(ex, E_ERRORS) else f"raised {ex!r}"
    if how != "make" and not data["must"] and getattr(obj, param, None) is value:
        return None          # kept as given: judged by C14
    msg = same(whole, obj)
    return f"{c}({param}={data['short']!r}) differs from the full form: {msg}" if msg else None


def mode_forms():
    """Lists of modes given by name, by name and value, or as objects"""
    values = [("A", None), ("B", 7), ("C", 0)]
    for n in range(4):
        for modes in itertools.permutations(values, n):
            for forms in itertools.product(("object", "text", "tuple"), repeat=n):
                given, full = [], []
                for (name, value), form in zip(modes, forms):
                    value = None if form == "text" else value
                    full.append(ar.ModeDeclaration(name, value))
                    given.append(name if form == "text" else ar.ModeDeclaration(name, value) if form == "object" else
                                 (name,) if value is None else (name, value))
                group = ar.ModeDeclarationGroup("G", given)
                msg = same(ar.ModeDeclarationGroup("G", full), group)
                if msg:
                    return f"modes given as {forms}: {msg}"
                if [m.parent is group and m.name for m in group.mode_declarations] != [m[0] for m in modes]:
                    return f"modes given as {forms}: {[m.name for m in group.mode_declarations]}"
    for n in (9, 10, 11, 16, 33, 64, 65, 101, 257):
        modes = [(f"M{n - i}", i) for i in range(n)]
        group = ar.ModeDeclarationGroup("G", modes)
        msg = same(ar.ModeDeclarationGroup("G", [ar.ModeDeclaration(*m) for m in modes]), group)
        named = ar.ModeDeclarationGroup("G", [m[0] for m in modes])
        if msg or [(m.name, m.value) for m in named.mode_declarations] != [(m[0], None) for m in modes]:
            return f"{n} modes: {msg or [m.name for m in named.mode_declarations]}"
    return None


WRONG = {"None": None, "int": 7, "str": "text", "object": object(), "list": [], "package": None, "ref": None,
         "class": ar.Package}


def wrong_value(name):
    if name == "package":
        return ar.Package("Other")
    if name == "ref":
        return ar.SwBaseTypeRef("/Pkg/Wrong")
    if name == "enum":
        return b.enum_value({"e": "Language.EN"})
    return WRONG[name]


def judge_wrong(data):
    c, param, wrong, base = data["c"], data["param"], data["wrong"], data["base"]
    obj = b.build(ordered(c, base))
    before = b.snapshot(obj)
    value = wrong_value(wrong)
    state = b.snapshot(value) if isinstance(value, ar.ARObject) else None
    parent = getattr(value, "parent", None)
    _, ex = attempt(getattr(obj, APPEND[c, param]), value)
    if ex is None:
        return None if data["allowed"] else f"{c}.{APPEND[c, param]}({wrong}) accepted"
    if not isinstance(ex, E_ERRORS):
        return f"{c}.{APPEND[c, param]}({wrong}) raised {type(ex).__name__}: {ex}"
    if b.snapshot(obj) != before:
        return f"{c}.{APPEND[c, param]}({wrong}) raised {type(ex).__name__} but changed the object"
    if state is not None and (b.snapshot(value) != state or getattr(value, "parent", None) is not parent):
        return f"{c}.{APPEND[c, param]}({wrong}) raised {type(ex).__name__} but changed its argument"
    return None


# what append methods document to accept, of the wrong-value pool
def allowed(c, param, wrong):
    if c in ("SwValues", "ValueGroup") and wrong in ("int", "str"):
        return True
    if c == "ValueList" and wrong == "int":
        return True
    if param in ("can_enter_leave", "runs_insides") and wrong == "str":
        return True
    if param == "data_type_mappings" and wrong == "str":
        return True
    row = SPEC[c].row(param)
    if (row.codec == "#mixed" or row.xml == "#mixed") and wrong == "str":
        return True
    return False


def judge_special(data):
    what = data["what"]
    if what == "behavior name":
        for name in ("Swc", "S", "Comp_1"):
            swc = ar.ApplicationSoftwareComponentType(name)
            made = swc.create_internal_behavior()
            if made.name != name + "_InternalBehavior" or swc.internal_behavior is not made or made.parent is not swc:
                return f"create_internal_behavior() of {name}: {made.name}"
    if what == "possible error ref":
        for value in ("/Pkg/If/Err", "/A/B/C/Err"):
            for how in ("create", "str", "list", "strlist"):
                one = ar.ClientServerOperation("Op", possible_error_refs=ar.ApplicationErrorRef(value))
                if how == "create":
                    two = ar.ClientServerOperation("Op")
                    made = two.create_possible_error_ref(value)
                    if made is not two.possible_error_refs[0]:
                        return "create_possible_error_ref does not return the reference it added"
                else:
                    forms = {"str": value, "list": [ar.ApplicationErrorRef(value)], "strlist": [value]}
                    two = ar.ClientServerOperation("Op", possible_error_refs=forms[how])
                msg = same(one, two)
                if msg:
                    return f"possible error {how}: {msg}"
    if what == "invalidation policy":
        for member in ("DONT_INVALIDATE", "KEEP", "REPLACE"):
            handle = b.enum_value({"e": "HandleInvalid." + member})
            one, two = ar.SenderReceiverInterface("If"), ar.SenderReceiverInterface("If")
            one.create_invalidation_policy("/Pkg/If/Elem", handle)
            two.append_invalidation_policy(ar.InvalidationPolicy(ar.VariableDataPrototypeRef("/Pkg/If/Elem"), handle))
            msg = same(one, two)
            if msg:
                return f"invalidation policy with string: {msg}"
    if what == "runnable symbol":
        for name in ("Run", "R_1"):
            for given, expected in (((), name), (("",), name), ((None,), None), (("sym",), "sym")):
                beh = ar.SwcInternalBehavior("Beh")
                made = beh.create_runnable(name, **({"symbol": given[0]} if given else {}))
                if made.symbol != expected:
                    return f"create_runnable({name!r}, symbol={given}): symbol {made.symbol!r}"
    if what == "modes":
        return mode_forms()
    if what == "variants":
        for n in range(14):
            given = [ar.SwDataDefPropsConditional(impl_policy=list(ar_enum.SwImplPolicy)[i % len(ar_enum.SwImplPolicy)]) for i in range(n)]
            for props in (ar.SwDataDefProps(given), ar.SwDataDefProps(given[:n // 2])):
                for variant in given[len(props):]:
                    props.append(variant)
                seen = [len(props) == n, [id(x) for x in props] == [id(x) for x in given],
                        all(props[i] is given[i] and props[i - n] is given[i] for i in range(n)), isinstance(attempt(lambda: props[n])[1], IndexError)]
                if not all(seen):
                    return f"{n} variants: len, iteration, index, beyond the end: {seen}"
    if what == "runnable areas":
        return runnable_areas()
    if what == "create_package":
        for host_kind in ("document", "package"):
            def host(kind=host_kind):
                doc = ar_document.Document()
                return doc, doc if kind == "document" else doc.create_package("Top")
            for _, p in all_cases("Package"):
                kwargs = kwargs_of("Package", p)
                doc1, h1 = host()
                h1.append(ar.Package(**kwargs_of("Package", p)))
                doc2, h2 = host()
                name = kwargs.pop("name")
                made = h2.create_package(name, **kwargs)
                if made is not h2.packages[-1] or made.parent is not h2:
                    return "create_package does not return the package it added"
                for x, y in zip(doc1.packages, doc2.packages):
                    msg = same(x, y)
                    if msg:
                        return f"create_package: {msg}"
    return None


def runnable_areas():
    """names of exclusive areas, references and conditional references, in every mix of up to three"""
    kinds = ("name A", "name B", "ref A", "ref B", "cond A", "cond B")
    for n in (1, 2, 3):
        for combo in itertools.product(kinds, repeat=n):
            for wrap in (list, tuple, "one"):
                if wrap == "one" and n > 1:
                    continue
                doc = ar_document.Document()
                swc = ar.ApplicationSoftwareComponentType("Swc")
                doc.create_package("Pkg").append(swc)
                beh = swc.create_internal_behavior("Beh")
                areas = {"B": beh.create_exclusive_area("B"), "A": beh.create_exclusive_area("A")}
                args = []
                for k in combo:
                    how, name = k.split()
                    ref = areas[name].ref()
                    args.append({"name": name, "ref": ref}.get(how) or ar.ExclusiveAreaRefConditional(ref))
                given = args[0] if wrap == "one" else args if wrap is list else tuple(args)
                made, ex = attempt(beh.create_runnable, "Run", can_enter_leave=given)
                if ex is not None:
                    if wrap is tuple and isinstance(ex, TypeError):
                        continue
                    return f"create_runnable(can_enter_leave={combo}) raised {ex!r}"
                got = [str(x.exclusive_area) for x in made.can_enter_leave]
                want = ["/Pkg/Swc/Beh/" + k.split()[1] for k in combo]
                if got != want:
                    return f"create_runnable(can_enter_leave={combo}): {got}"
    doc = ar_document.Document()
    beh = ar.SwcInternalBehavior("Beh")
    for bad in ("Nope", ["Nope"]):
        _, ex = attempt(beh.create_runnable, "Run", can_enter_leave=bad)
        if not isinstance(ex, ValueError) or beh.runnables:
            return f"create_runnable(can_enter_leave={bad!r}): {ex!r}, {len(beh.runnables)} runnables"
    del doc
    return None


def bases(c, param, thorough):
    out = [("min", {k: v for k, v in b.minimal(c)["p"].items() if k != param})]
    full = {k: v for k, v in b.full(c)["p"].items() if k != param}
    if full != out[0][1]:
        out.append(("full", full))
    return out


def form_rows():
    for c in SPEC:
        for row in SPEC[c].all_rows():
            yield c, row


_long = {}


def text_cases(c):
    """Texts of every kind in each parameter that takes text"""
    full = b.full(c)["p"]
    for base, p in (("min", b.minimal(c)["p"]), ("full", full)):
        for param, value in full.items():
            if isinstance(value, str):
                for n, text in enumerate(("N" + "a" * 127, "n", "N_0", "0", " padded\t", "two words", "\u00e4&<\n\"", "N" * 300)):
                    yield f"text+{param}#{n} {base}", {**p, param: text}


def long_values(c, param, thorough):
    """Long lists for a parameter"""
    if c not in _long:
        _long.clear()
        _long[c] = list(long_cases(c, thorough))
    return [p[param] for label, p in _long[c] if label.startswith(f"long+{param}#")]


def forms_of(c, row, thorough):
    """(form, value) of one parameter"""
    values = b.alts(c, row.param) + long_values(c, row.param, thorough)
    for v in values:
        if isinstance(v, dict) and "r" in v:
            if len(REFS[v["r"]]) == 1:
                yield "str", v
        elif isinstance(v, list) and v and row.codec in DIRECT:
            if len(v) == 1:
                yield "single", v
            yield "tuple", v
            if all(isinstance(x, dict) and "r" in x and len(REFS[x["r"]]) == 1 for x in v):
                yield "str in list", v
                if len(v) == 1:
                    yield "single str", v


# forms named in the documentation (type hints): these have to be accepted
def must(c, row, form):
    key = f"{c}.{row.param}"
    return f"{form.replace(' ', '-')} {key}" in MUST


with open(os.path.join(os.path.dirname(__file__), "..", "spec", "forms.txt"), encoding="utf-8") as _fh:
    MUST = set(_fh.read().splitlines())


def groups(thorough):
    out = [("append", c, p) for c, p in sorted(APPEND)]
    out += [("create", i, None) for i in range(len(CREATE))]
    out += [("form", c, None) for c in sorted(SPEC)]
    out += [("make", c, None) for c in MAKE]
    out += [("assign", c, None) for c in sorted(SPEC) if c in b.PATHS or c == "Package"]
    out += [("special", None, None)]
    return out


def cases(group, thorough):
    kind, c, param = group
    if kind == "append":
        row = SPEC[c].row(param)
        for bname, base in bases(c, param, thorough):
            for i, value in enumerate(b.alts(c, param)):
                if not isinstance(value, list):
                    continue
                for split in range(len(value)) if row.codec != "append" else (0,):
                    yield (f"{c}.{param}#{i} {bname} split {split}",
                           {"kind": "append", "c": c, "param": param, "base": base, "value": value, "split": split},
                           "append", len(value))
            for value in long_values(c, param, thorough):
                n = len(value)
                for split in sorted({0, 1, n // 2, n - 1}) if row.codec != "append" else (0,):
                    yield (f"{c}.{param} {n} items {bname} split {split} {b.short(b.pyval(value[-2:]))}",
                           {"kind": "append", "c": c, "param": param, "base": base, "value": value, "split": split},
                           "append", n)
            for wrong in list(WRONG) + ["enum"]:
                yield (f"{c}.{param} {bname} append {wrong}",
                       {"kind": "wrong", "c": c, "param": param, "base": base, "wrong": wrong,
                        "allowed": allowed(c, param, wrong)}, "wrong")
    elif kind == "create":
        host, method, created, _, _, fixed = CREATE[c]
        for label, p in [*all_cases(created, thorough), *long_cases(created, thorough), *text_cases(created)]:
            if method == "create_invalidation_policy" and len(p) < 2:
                continue         # requires both
            if any(k in p for k in fixed) and label not in ("full",) and set(fixed) & set(label.replace("+", " ").split()):
                continue
            for positional in (False, True):
                for before in (0, 1, 2, 12, 40) if label in ("min", "full") else (0, 1, 2) if thorough else (1,):
                    yield (f"{host}.{method} {label} positional={positional} before={before}",
                           {"kind": "create", "row": c, "p": p, "positional": positional, "before": before}, "create")
    elif kind == "form":
        for row in SPEC[c].all_rows():
            for form, value in forms_of(c, row, thorough):
                for bname, base in bases(c, row.param, thorough):
                    yield (f"{c}.{row.param} {form} {b.short(b.pyval(value))} {bname}",
                           {"kind": "form", "c": c, "param": row.param, "base": base, "value": value, "form": form,
                            "must": must(c, row, form)}, form)
        for row in SPEC[c].all_rows():
            if row.codec in ("obj", "append"):
                for n, (form, short, full) in enumerate(shorts(c if row.codec == "append" else row.args[0].split("@")[0])):
                    if row.codec == "append":
                        if form == "text":
                            continue
                        short, full = short, full["p"][row.param]
                    for bname, base in bases(c, row.param, thorough):
                        for how in ("given", "make") if form == "tuple" and row.codec == "append" and hasattr(getattr(ar, c), "make") and bname == "min" else ("given",):
                            yield (f"{c}.{row.param} {form} {n} {bname} {how}",
                                   {"kind": "short", "c": c, "param": row.param, "base": base, "short": short, "full": full,
                                    "how": how, "must": f"short-{form} {c}.{row.param}" in MUST}, "short")
    elif kind == "assign":
        every = list(all_cases(c, thorough))
        ends = [(label, p) for label, p in every if label in ("min", "full")]
        for label, p in every:
            for end, q in ends:
                if p != q:
                    for origin in ("made", "written", "read"):
                        yield (f"{c}: {end} assigned to {label} {origin}",
                               {"kind": "assign", "c": c, "before": p, "after": q, "origin": origin}, "assign")
                        yield (f"{c}: {label} assigned to {end} {origin}",
                               {"kind": "assign", "c": c, "before": q, "after": p, "origin": origin}, "assign")
    elif kind == "make":
        param, iref, _ = MAKE[c]
        inner = [(lab, p) for lab, p in all_cases(iref, thorough)]
        for n, (label, p) in enumerate(all_cases(c, thorough)):
            if param in p:
                p = {k: v for k, v in p.items() if k != param}
            for lab, q in inner if n < 2 or thorough else inner[1:2]:
                for positional in (False, True):
                    yield (f"{c}.make {label} {lab} positional={positional}",
                           {"kind": "make", "c": c, "event": p, "inner": q, "positional": positional}, "make")
    else:
        for what in ("behavior name", "possible error ref", "invalidation policy", "runnable symbol", "modes", "runnable areas", "variants",
                     "create_package"):
            yield what, {"kind": "special", "what": what}, "special"


if __name__ == "__main__":
    run("C13", groups, cases, judge)
