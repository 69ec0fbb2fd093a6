"""
C23: Port access of runnables is created as asked, for exactly the port and element that were named.

All strings (prefix, port, element) over ports of all kinds and interfaces, with all forms of arguments
and settings, alone and after one another, are given to RunnableEntity.create_port_access next to a
model of runnables; the result is compared in the XML.  Names within a list of access points stay unique
however they get there, and names that are already unique are kept.
"""
import copy
import itertools
import xml.etree.ElementTree as ElementTree

from mc.harness import attempt, run
from mc.names import wrong_names
import autosar.xml.element as ar
import autosar.xml.enumeration as ar_enum
import autosar.xml.exception as ar_except
import autosar.xml.reader as ar_reader
import autosar.xml.workspace as ar_workspace
import autosar.xml.writer as ar_writer

NS = "{http://autosar.org/schema/r4.0}"
WRITER, READER = ar_writer.Writer(), ar_reader.Reader()
SWC = "/Comp/Swc"
PORTS = {"r11": ("R", "SR2"), "R1": ("R", "CS1"), "r1": ("R", "SR1"), "r2": ("R", "SR2"), "p1": ("P", "SR1"), "p2": ("P", "SR2"), "x1": ("PR", "SR1"),
         "rn": ("R", "NV1"), "pn": ("P", "NV2"), "rc": ("R", "CS1"), "rc2": ("R", "CS2"), "xc": ("PR", "CS1"), "pc": ("P", "CS1"),
         "rm": ("R", "MS"), "pm": ("P", "MS"), "xm": ("PR", "MS"), "rq": ("R", "PAR1"), "rq2": ("R", "PAR2"), "gone": ("R", "SRGone")}
CHILDREN = {"SR1": ["x"], "SR2": ["xy", "zx", "x", "y", "xx"], "NV1": ["n"], "NV2": ["nm", "mn", "n", "m", "nn"], "CS1": ["op"], "CS2": ["op2", "aop", "op", "OP", "opop"],
            "MS": ["mode"], "PAR1": ["q"], "PAR2": ["q2", "aq", "q", "Q", "qq"]}
CHILD_DEST = {"SR": "VARIABLE-DATA-PROTOTYPE", "NV": "VARIABLE-DATA-PROTOTYPE", "CS": "CLIENT-SERVER-OPERATION",
              "MS": "MODE-DECLARATION-GROUP-PROTOTYPE", "PA": "PARAMETER-DATA-PROTOTYPE"}
PORT_CLASS = {"P": ar.ProvidePortPrototype, "R": ar.RequirePortPrototype, "PR": ar.PRPortPrototype}
# list -> (tag of the list, tag of an item, setting)
LISTS = {"read": ("DATA-READ-ACCESSS", "VARIABLE-ACCESS", "data_read_access_prefix", "data_read_access"),
         "argument": ("DATA-RECEIVE-POINT-BY-ARGUMENTS", "VARIABLE-ACCESS", "data_receive_point_prefix", "data_receive_point_by_argument"),
         "value": ("DATA-RECEIVE-POINT-BY-VALUES", "VARIABLE-ACCESS", "data_receive_point_prefix", "data_receive_point_by_value"),
         "send": ("DATA-SEND-POINTS", "VARIABLE-ACCESS", "data_send_point_prefix", "data_send_point"),
         "write": ("DATA-WRITE-ACCESSS", "VARIABLE-ACCESS", "data_write_access_prefix", "data_write_access"),
         "mode": ("MODE-ACCESS-POINTS", "MODE-ACCESS-POINT", "mode_access_point_prefix", "mode_access_point"),
         "switch": ("MODE-SWITCH-POINTS", "MODE-SWITCH-POINT", "mode_switch_point_prefix", "mode_switch_point"),
         "parameter": ("PARAMETER-ACCESSS", "PARAMETER-ACCESS", "parameter_access_prefix", "parameter_access"),
         "call": ("SERVER-CALL-POINTS", None, "server_call_point_prefix", "server_call_point")}
DOCUMENTED = {"": None, "ARGUMENT": "argument", "ARG": "argument", "VALUE": "value", "VAL": "value", "READ": "read", "WRITE": "write",
              "SEND": "send", "ASYNC": "ASYNCHRONOUS-SERVER-CALL-POINT", "SYNC": "SYNCHRONOUS-SERVER-CALL-POINT",
              "ACCESS": "access", "SWITCH": "switch"}
PREFIXES = list(DOCUMENTED) + ["NOPE", "WRIT", "READ WRITE"]
ARGS = [None, {}, {"name": "N"}, {"desc": "Text"}, {"name": "N", "desc": "Text"}, {"scope": "COMMUNICATION_INTER_ECU"},
        {"return_value_provision": "NO_RETURN_VALUE_PROVIDED"}, {"timeout": 2.5}, {"nonsense": 1}, {"name": "N", "nonsense": 1}]
ENUMS = {"scope": ar_enum.VariableAccessScope, "return_value_provision": ar_enum.RteApiReturnValueProvision}
REFUSALS = (ValueError, TypeError, RuntimeError, KeyError, ar_except.InvalidReferenceError)


class Refused(Exception):
    """The model refuses the operation"""


def interface(name, children):
    if name.startswith("SR"):
        return ar.SenderReceiverInterface(name, [ar.VariableDataPrototype(n) for n in children])
    if name.startswith("NV"):
        return ar.NvDataInterface(name, [ar.VariableDataPrototype(n) for n in children])
    if name.startswith("CS"):
        return ar.ClientServerInterface(name, operations=[ar.ClientServerOperation(n) for n in children])
    if name.startswith("MS"):
        return ar.ModeSwitchInterface(name, mode_group=ar.ModeDeclarationGroupPrototype("mode"))
    return ar.ParameterInterface(name, parameters=[ar.ParameterDataPrototype(n) for n in children])


def make_port(name, kind, pi):
    port = PORT_CLASS[kind](name)
    port.port_interface_ref = ar.PortInterfaceRef("/PI/" + pi, ar_enum.IdentifiableSubTypes.SENDER_RECEIVER_INTERFACE)
    return port


def build(settings):
    world = ar_workspace.Workspace(document_root="/nowhere")
    for name in CHILDREN:
        world.make_packages("/PI").append(interface(name, CHILDREN[name]))
    swc = ar.ApplicationSoftwareComponentType("Swc")
    for name, (kind, pi) in PORTS.items():
        swc.append_port(make_port(name, kind, pi))
    world.make_packages("/Comp").append(swc)
    runnable = swc.create_internal_behavior().create_runnable("Run", symbol=None)
    for name, prefix in settings.items():
        world.behavior_settings.set_value(name, prefix)
    return world, swc, runnable


class Model:
    """A runnable: lists of [name or None, tag, content before, content after]"""

    def __init__(self, settings):
        self.settings = dict(settings)
        self.lists = {name: [] for name in LISTS}
        self.ports, self.children = dict(PORTS), {k: list(v) for k, v in CHILDREN.items()}

    def change(self, op, world, swc):
        """What the access points refer to changes, in the model and in the workspace"""
        kind, name, *rest = op
        if kind == "element":
            self.children[name].append(rest[0])
            pi = world.find("/PI/" + name)
            if name.startswith("CS"):
                pi.append_operation(ar.ClientServerOperation(rest[0]))
            elif name.startswith("PAR"):
                pi.append_parameter(ar.ParameterDataPrototype(rest[0]))
            else:
                pi.append_data_element(ar.VariableDataPrototype(rest[0]))
        elif kind == "interface":
            self.children[name] = rest[0]
            world.find("/PI").append(interface(name, rest[0]))
        elif kind == "port":
            self.ports[name] = (rest[0], rest[1])
            swc.append_port(make_port(name, *rest))
        elif kind == "redirect":
            self.ports[name] = (self.ports[name][0], rest[0])
            swc.find(name).port_interface_ref = make_port(name, *self.ports[name]).port_interface_ref
        else:
            self.settings[name] = rest[0]
            world.behavior_settings.set_value(name, rest[0])

    def access(self, text, args):
        """One element of create_port_access"""
        prefix, found, rest = text.partition(":")
        if found:
            if not prefix or prefix not in DOCUMENTED:
                raise Refused
            asked, rest = DOCUMENTED[prefix], rest.lstrip()
        else:
            asked, rest = None, text
        port, _, element = rest.partition("/")
        if port not in self.ports or self.ports[port][1] not in self.children:
            raise Refused
        side, pi = self.ports[port]
        names = self.children[pi]
        if not element and len(names) == 1:
            element = names[0]
        if element not in names:
            raise Refused
        args = dict(args or {})
        has_args = bool(args)
        family = pi[:2]
        child = f"/PI/{pi}/{element}"
        port_ref = [f"{side}-PORT-PROTOTYPE", f"{SWC}/{port}"]
        child_ref = [CHILD_DEST[family], child]
        known = {"name", "desc", "return_value_provision"}
        tag = None
        if family in ("SR", "NV"):
            known = {"name", "desc", "scope"}
            if side == "PR":
                raise Refused
            asked = asked or ("argument" if side == "R" else "send")
            if asked not in (("argument", "value", "read") if side == "R" else ("write", "send")):
                raise Refused
            where = asked
            content = [["ACCESSED-VARIABLE", ["AUTOSAR-VARIABLE-IREF", ["PORT-PROTOTYPE-REF"] + port_ref,
                                              ["TARGET-DATA-PROTOTYPE-REF"] + child_ref]]]
        elif family == "MS":
            if side == "PR" or asked not in (None, "access", "switch") or (asked == "switch" and side == "R"):
                raise Refused
            where = "switch" if asked == "switch" else "mode"
            tag = "MODE-GROUP-IREF"
            content = [[f"CONTEXT-{side}-PORT-REF"] + port_ref, ["TARGET-MODE-GROUP-REF"] + child_ref]
        elif family == "CS":
            known |= {"timeout"}
            asked = asked or DOCUMENTED["SYNC"]
            if side == "P" or not asked.endswith("CALL-POINT"):
                raise Refused
            where, tag = "call", asked
            content = [["OPERATION-IREF", ["CONTEXT-R-PORT-REF"] + port_ref, ["TARGET-REQUIRED-OPERATION-REF"] + child_ref]]
        else:
            if asked is not None:
                raise Refused
            where = "parameter"
            content = [["ACCESSED-PARAMETER", ["AUTOSAR-PARAMETER-IREF", ["PORT-PROTOTYPE-REF"] + port_ref,
                                               ["TARGET-DATA-PROTOTYPE-REF"] + child_ref]]]
        if not set(args) <= known:
            raise Refused
        name = args.get("name")
        if where == "mode":
            content = [["MODE-GROUP-IREF", [f"{side}-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF"] + content]]
        elif where == "switch":
            content = [["MODE-GROUP-IREF"] + content]
        if name is None and not (where == "mode" and asked is None and not has_args):
            if self.settings.get(LISTS[where][2]) is None:
                raise Refused
            name = "_".join([self.settings[LISTS[where][2]], port, element])
        before, after = [], []
        if "desc" in args:
            before.append(["DESC", ["L-2", args["desc"]]])
        if "return_value_provision" in args:
            before.append(["RETURN-VALUE-PROVISION", args["return_value_provision"].replace("_", "-")])
        if "scope" in args:
            after.append(["SCOPE", args["scope"].replace("_", "-")])
        if "timeout" in args:
            after.append(["TIMEOUT", f"{args['timeout']}"])
        self.lists[where].append([name, tag or LISTS[where][1], before, content + after])

    def counts(self):
        return {n: len(v) for n, v in self.lists.items()}


def tree(node):
    """XML node as a list"""
    res = [node.tag[len(NS):]]
    if node.get("DEST"):
        res.append(node.get("DEST"))
    text = (node.text or "").strip()
    return res + ([text] if text else []) + [tree(child) for child in node]


def real_args(args):
    return {k: ENUMS[k][v] if k in ENUMS else v for k, v in args.items()}


def names_of(items):
    return [getattr(getattr(i, "ident", i), "name", None) for i in items]


IDENTS = ("mode_access_point", "external_triggering_point")


def judge_lists(data):
    """Names in a list that is given to the constructor, and in one that grows"""
    make = {
        "async_server_call_result_point": ar.AsynchronousServerCallResultPoint,
        "data_read_access": ar.VariableAccess, "data_receive_point_by_argument": ar.VariableAccess,
        "data_receive_point_by_value": ar.VariableAccess, "data_send_point": ar.VariableAccess,
        "data_write_access": ar.VariableAccess, "read_local_variable": ar.VariableAccess,
        "write_local_variable": ar.VariableAccess, "mode_switch_point": ar.ModeSwitchPoint,
        "parameter_access": ar.ParameterAccess, "internal_triggering_point": ar.InternalTriggeringPoint,
        "wait_point": ar.WaitPoint,
        "server_call_point": lambda n: (ar.SynchronousServerCallPoint if n[-1] == "0" else ar.AsynchronousServerCallPoint)(n),
        "mode_access_point": lambda n: ar.ModeAccessPoint(ident=n and ar.ModeAccessPointIdent(n)),
        "external_triggering_point": lambda n: ar.ExternalTriggeringPoint(ident=n and ar.ExternalTriggeringPointIdent(n))}[data["list"]]
    names = data["names"]
    given = ar.RunnableEntity("R", **{data["list"]: [make(n) for n in names]})
    grown = ar.RunnableEntity("R")
    for n in names:
        getattr(grown, "append_" + data["list"])(make(n))
    single = ar.RunnableEntity("R", **{data["list"]: make(names[0])})
    if names_of(getattr(single, data["list"])) != names[:1]:
        return "a single element is renamed"
    wanted = [n for n in names if n]
    for item in (given, grown):
        have = names_of(getattr(item, data["list"]))
        if [n is None for n in have] != [n is None for n in names]:
            return f"{have} from {names}"
        have = [n for n in have if n]
        if len(set(wanted)) == len(wanted):
            if have != wanted:
                return f"distinct names {wanted} became {have}"
        elif data["list"] in IDENTS:
            pass                               # may keep equal names
        elif len(set(have)) != len(have):
            return f"names are not unique: {have} from {wanted}"
        elif any(not h.startswith(w) for h, w in zip(have, wanted)):
            return f"names {wanted} became {have}"
        for elem in getattr(item, data["list"]):
            owner = getattr(elem, "ident", elem)
            if owner is not None and owner.parent is not item:
                return f"parent of {owner.name} is {owner.parent!r}"
    return None


def judge(data):
    if "list" in data:
        return judge_lists(data)
    world, swc, runnable = build(data["settings"])
    model = Model(data["settings"])
    for call in data["history"]:
        if "change" in call:
            model.change(call["change"], world, swc)
            continue
        # a call is {"form": form of the argument, "items": [[text, args or None]...]}
        items = [text if args is None else (text, real_args(args)) for text, args in call["items"]]
        kept = copy.deepcopy(model.lists)
        refused = None
        for text, args in call["items"]:
            _, refused = attempt(model.access, text, args)
            if refused is not None:
                break
        if refused is not None and not isinstance(refused, Refused):
            raise refused
        if call["form"] == "tuple":
            items = [(text, args and real_args(args)) for text, args in call["items"]]
        argument = items[0] if call["form"] == "one" else items
        before = copy.deepcopy(argument)
        total = {n: len(getattr(runnable, LISTS[n][3])) for n in LISTS}
        names_before = {n: names_of(getattr(runnable, LISTS[n][3])) for n in LISTS}
        result, error = attempt(runnable.create_port_access, argument)
        if argument != before:
            return f"{call}: the argument is changed to {argument}"
        if refused is None and error is not None:
            return f"{call} raised {error!r}"
        if refused is not None:
            if error is None:
                return f"{call} is accepted"
            if not isinstance(error, REFUSALS):
                return f"{call} raised {error!r}"
            if total == {n: len(getattr(runnable, LISTS[n][3])) for n in LISTS}:
                model.lists = kept
                if names_before != {n: names_of(getattr(runnable, LISTS[n][3])) for n in LISTS}:
                    return f"{call} was refused but changed names"
        have = {n: len(getattr(runnable, LISTS[n][3])) for n in LISTS}
        if have != model.counts():
            return f"{call}: {have} access points, expected {model.counts()}"
        for n in LISTS:
            for elem in getattr(runnable, LISTS[n][3]):
                if hasattr(elem, "ref") and str(elem.ref()) != f"{runnable.ref()}/{elem.name}":
                    return f"{call}: the reference of {elem.name} is {elem.ref()}"
    text = WRITER.write_str_elem(swc)
    root = ElementTree.fromstring(f'<X xmlns="{NS[1:-1]}">{text}</X>').find(f".//{NS}RUNNABLE-ENTITY")
    want_tags = {LISTS[n][0] for n, v in model.lists.items() if v} | {"SHORT-NAME"}
    if {c.tag[len(NS):] for c in root} != want_tags or len(root) != len(want_tags):
        return f"runnable contains {[c.tag[len(NS):] for c in root]}, expected {want_tags}"
    for name, items in model.lists.items():
        real = getattr(runnable, LISTS[name][3])
        names = names_of(real)
        if [n is None for n in names] != [i[0] is None for i in items]:
            return f"{name}: names {names}"
        msg = wrong_names([i[0] for i in items if i[0]], [n for n in names if n])
        if msg:
            return f"{name}: {msg}"
        for elem in real:
            owner = getattr(elem, "ident", elem)
            if owner is not None and owner.parent is not runnable:
                return f"{name}: parent is {owner.parent!r}"
        node = root.find(NS + LISTS[name][0])
        have = [] if node is None else tree(node)[1:]
        want = []
        for (base, tag, first, last), got in zip(items, names):
            head = [["SHORT-NAME", got]] + first
            if name == "mode":
                want.append(["MODE-ACCESS-POINT"] + ([["IDENT"] + head] if base else []) + last)
            elif name == "switch":
                want.append(["MODE-SWITCH-POINT"] + head + last)
            else:
                want.append([tag] + head + last)
        if have != want:
            bad = next(pair for pair in itertools.zip_longest(have, want) if pair[0] != pair[1])
            return f"{name}: written {bad[0]}, expected {bad[1]}"
    for ref in root.iter():
        if ref.get("DEST") and ref.text.startswith(SWC) and not isinstance(world.find(ref.text), ar.PortPrototype):
            return f"{ref.text} leads nowhere"
    if WRITER.write_str_elem(READER.read_str_elem(text)) != text:
        return "reads back different"
    return None


ALL = {"data_read_access_prefix": "READ", "data_receive_point_prefix": "REC", "data_send_point_prefix": "SEND",
       "data_write_access_prefix": "WR", "mode_access_point_prefix": "MAP", "mode_switch_point_prefix": "MSP",
       "parameter_access_prefix": "PRM", "server_call_point_prefix": "SC"}
SAME = {k: "A" for k in ALL}


def texts():
    for prefix in PREFIXES:
        for port in list(PORTS) + ["nope", "Swc_InternalBehavior", ""]:
            elements = [""] + ["/" + e for e in CHILDREN.get(PORTS.get(port, ("", ""))[1], ["x"])] + ["/nope"]
            for element in elements:
                yield (prefix + ":" if prefix else "") + port + element


def short():
    res = [[t, None] for t in ("r1", "READ:r1/x", "VAL:r1", "READ: r2/y", "p1", "WRITE:p1", "rc/op", "ASYNC:rc", "rm", "ACCESS:rm",
                               "SWITCH:pm", "ACCESS:pm/mode", "rq", "rn", "r2", "SWITCH:rm", "pc")]
    res += [[t, a] for t in ("r1", "rc", "rm", "rq", "SWITCH:pm") for a in (
        {"name": "N"}, {"name": "REC_r1_x_0"}, {"desc": "Text"}, {"nonsense": 1})]
    return res


NAMES = ["X", "X_0", "X_1", "X_2", "X_1a", "Y", "X_9", "X_10"]
RUN_LISTS = ["async_server_call_result_point", "data_read_access", "data_receive_point_by_argument", "data_receive_point_by_value",
             "data_send_point", "data_write_access", "read_local_variable", "write_local_variable", "mode_switch_point",
             "parameter_access", "internal_triggering_point", "wait_point", "server_call_point", "mode_access_point",
             "external_triggering_point"]


CHANGES = [["element", n, c] for n, c in (("SR1", "y"), ("SR2", "nope"), ("NV1", "nm"), ("NV2", "zz"), ("CS1", "op2"), ("CS2", "nope"),
                                          ("PAR1", "p"), ("PAR2", "nope"))]
CHANGES += [["interface", "SRGone", ["g"]], ["interface", "SRGone", ["x", "g"]], ["port", "nope", "R", "SR1"], ["port", "nope", "P", "CS1"],
            ["port", "nope", "R", "MS"], ["redirect", "r1", "SR2"], ["redirect", "r2", "NV1"], ["redirect", "p1", "MS"],
            ["redirect", "rc", "PAR1"], ["redirect", "rq", "SRGone"], ["redirect", "gone", "CS2"], ["redirect", "rm", "SR1"]]


def affected(change):
    """Texts whose port the change may matter for"""
    for text in texts():
        port, _, _ = text.rpartition(":")[2].partition("/")
        pi = PORTS.get(port, (None, None))[1]
        if change[0] == "setting" or change[1] in (port, pi) or port == "x1" and not change[1:2] == ["nope"]:
            yield text


FAMILIES = {"SRBig": ("R", "P"), "NVBig": ("R", "P"), "CSBig": ("R", "PR"), "MS": ("R", "P"), "PARBig": ("R", "P", "PR")}


def large(thorough):
    """Many ports, many elements, many access points, long names"""
    for n in (12, 40) if not thorough else (12, 40, 110):
        for (pi, sides), form, names, settings in itertools.product(
                FAMILIES.items(), ("list", "one", "parts"), ("short", "long", "numbers"), (ALL, SAME)):
            extra = {"short": "", "long": "_" + "x" * 100, "numbers": "_0"}[names]
            elements = ["mode"] if pi == "MS" else [f"e{i}{extra}" for i in range(n)]
            if pi != "MS":
                setup = [{"change": ["interface", pi, elements[:n // 2]]}]
                setup += [{"change": ["element", pi, e]} for e in elements[n // 2:]]
            else:
                setup = []
            for side in sides:
                made = [{"change": ["port", f"q{i}{extra}", side, pi]} for i in range(n)]
                pairs = {"all elements": [[f"q{i}{extra}/{elements[i % len(elements)]}", None] for i in range(n)],
                         "one port": [[f"q{n - 1}{extra}/{e}", None] for e in elements],
                         "last element": [[f"q{i}{extra}/{elements[-1]}", None] for i in range(n)],
                         "same": [[f"q1{extra}/{elements[0]}", None]] * n}
                for what, texts_ in pairs.items():
                    if form == "list":
                        calls = [{"form": "list", "items": texts_}]
                    elif form == "one":
                        calls = [{"form": "one", "items": [t]} for t in texts_]
                    else:
                        calls = [{"form": "list", "items": texts_[:3]}, {"form": "list", "items": texts_[3:]}]
                    yield (f"{n} {pi} {side} {form} {names} {what} {settings is ALL}",
                           {"settings": settings, "history": setup + made + calls})


def groups(thorough):
    for i in range(16):
        yield ("large", i)
    for i in range(len(CHANGES) + len(ALL)):
        yield ("change", i)
    all_texts = list(texts())
    for i in range(0, len(all_texts), 25):
        yield ("one", i)
    for i in range(len(short())):
        yield ("deep", i)
    for name in RUN_LISTS:
        yield ("lists", name)


def cases(group, thorough):
    kind, i = group
    if kind == "large":
        yield from itertools.islice(large(thorough), i, None, 16)
    elif kind == "one":
        missing = [{k: v for k, v in ALL.items() if k != without} for without in ALL]
        for text in list(texts())[i:i + 25]:
            yield f"{text} tuple", {"settings": ALL, "history": [{"form": "tuple", "items": [[text, None]]}]}
            for args in ARGS:
                for n, settings in enumerate([ALL, {}, SAME] + missing):
                    yield (f"{text} {args} {n}", {"settings": settings, "history": [
                        {"form": "one" if n % 2 else "list", "items": [[text, args]]}]})
            for other in (short() if thorough else short()[:14:2]):
                yield f"{text} {other}", {"settings": ALL, "history": [{"form": "list", "items": [[text, None], other]}]}
                yield f"{other} {text}", {"settings": SAME, "history": [{"form": "list", "items": [other, [text, {"desc": "Text"}]]}]}
    elif kind == "change":
        change = (CHANGES + [["setting", name, "NEW"] for name in ALL])[i]
        for text in affected(change):
            for settings in (ALL, SAME) + (({},) if thorough or change[0] == "setting" else ()):
                call = {"form": "one", "items": [[text, None]]}
                yield f"{text} {change} again", {"settings": settings, "history": [call, {"change": change}, call]}
                if thorough:
                    for other in CHANGES:
                        if other[0] != change[0] or other[1] != change[1]:
                            yield f"{text} {change} {other} again", {"settings": settings, "history": [
                                call, {"change": change}, call, {"change": other}, call]}
    elif kind == "deep":
        ops = short()
        for n in (1, 2, 3) if thorough else (1, 2):
            for rest in itertools.product(range(len(ops) if n < 3 else 17), repeat=n):
                yield (f"{i} {rest}", {"settings": ALL if n == 2 else SAME, "history": [
                    {"form": "one", "items": [ops[j]]} for j in (i,) + rest]})
        for n in (12, 40, 120):
            yield f"{i} times {n}", {"settings": ALL, "history": [{"form": "list", "items": [ops[i]] * n}]}
    else:
        names = NAMES + ([None] if i in IDENTS else [])
        for n in range(1, 6 if thorough else 5):
            for rest in itertools.product(names if n < 5 else names[:6] + [n for n in names[6:] if n is None], repeat=n):
                yield f"{i} {rest}", {"list": i, "names": list(rest)}


if __name__ == "__main__":
    run("C23", groups, cases, judge, {
        "bounds": "all texts over 15 prefixes, 20 ports and their elements, with 10 forms of arguments and 11 settings; lists of two; all "
                  "histories of 3 (thorough 4) calls out of 37; "
                  "all texts before and after each of 28 changes of the workspace (thorough: two changes); 15 lists of access points with all names up to 4 (5) out of 6",
        "oracle": "model of runnables; XML decoded by a second parser; look-up of every port"})
