"""
C20: A port made from an interface refers to it and carries exactly the com-specs asked for.

All ways to ask for com-specs (nothing, attributes, attributes by name, instances, lists and mixtures of
them, nonsense) are given to all port builders over all kinds of interfaces; the written XML of the
component is compared with com-specs computed from the request alone.  What cannot be done is refused and
leaves the component as it was.  Histories of port creations are followed by all look-ups.
"""
import itertools
import xml.etree.ElementTree as ElementTree

from mc.harness import attempt, run
import autosar.xml.element as ar
import autosar.xml.enumeration as ar_enum
import autosar.xml.exception as ar_except
import autosar.xml.reader as ar_reader
import autosar.xml.workspace as ar_workspace
import autosar.xml.writer as ar_writer

NS = "{http://autosar.org/schema/r4.0}"
WRITER, READER = ar_writer.Writer(), ar_reader.Reader()

NUM = ("INIT-VALUE", (("NUMERICAL-VALUE-SPECIFICATION", (("VALUE", 3.0),)),))
TEXT = ("INIT-VALUE", (("TEXT-VALUE-SPECIFICATION", (("VALUE", "Off"),)),))
ARRAY = ("INIT-VALUE", (("ARRAY-VALUE-SPECIFICATION", (
    ("ELEMENTS", (("NUMERICAL-VALUE-SPECIFICATION", (("VALUE", 1.0),)), ("NUMERICAL-VALUE-SPECIFICATION", (("VALUE", 2.0),)))),)),))
# attribute of a com-spec -> (python value, what is written)
COMMON_SR = {
    "uses_end_to_end_protection": (True, ("USES-END-TO-END-PROTECTION", "true")),
    "handle_out_of_range": (ar_enum.HandleOutOfRange.IGNORE, ("HANDLE-OUT-OF-RANGE", "IGNORE")),
}
SENDER = dict(COMMON_SR, transmission_acknowledge=(2, ("TRANSMISSION-ACKNOWLEDGE", (("TIMEOUT", 2.0),))))
RECEIVER = dict(COMMON_SR, max_delta_counter_init=(4, ("MAX-DELTA-COUNTER-INIT", 4.0)))
INIT = {"init_value": (3, NUM)}
ATTRS = {
    "NONQUEUED-SENDER-COM-SPEC": dict(SENDER, init_value=(3, NUM), init_text=("Off", TEXT), init_array=(["A", 1, 2], ARRAY)),
    "QUEUED-SENDER-COM-SPEC": SENDER,
    "NONQUEUED-RECEIVER-COM-SPEC": dict(
        RECEIVER, init_value=(3, NUM), init_text=("Off", TEXT), init_array=(["A", 1, 2], ARRAY),
        alive_timeout=(5, ("ALIVE-TIMEOUT", 5.0)), enable_update=(False, ("ENABLE-UPDATE", "false")),
        handle_never_received=(True, ("HANDLE-NEVER-RECEIVED", "true"))),
    "QUEUED-RECEIVER-COM-SPEC": dict(RECEIVER, queue_length=(7, ("QUEUE-LENGTH", 7.0))),
    "SERVER-COM-SPEC": {"queue_length": (7, ("QUEUE-LENGTH", 7.0))},
    "CLIENT-COM-SPEC": {"e2e_call_respone_timeout": (2, ("END-TO-END-CALL-RESPONSE-TIMEOUT", 2.0))},
    "MODE-SWITCH-SENDER-COM-SPEC": {"enhanced_mode_api": (True, ("ENHANCED-MODE-API", "true")),
                                    "queue_length": (7, ("QUEUE-LENGTH", 7.0)),
                                    "mode_switched_ack": (2, ("MODE-SWITCHED-ACK", (("TIMEOUT", 2.0),)))},
    "MODE-SWITCH-RECEIVER-COM-SPEC": {"enhanced_mode_api": (False, ("ENHANCED-MODE-API", "false")),
                                      "supports_async": (True, ("SUPPORTS-ASYNCHRONOUS-MODE-SWITCH", "true"))},
}
REF = {"S": ("DATA-ELEMENT-REF", "VARIABLE-DATA-PROTOTYPE"), "C": ("OPERATION-REF", "CLIENT-SERVER-OPERATION"),
       "M": ("MODE-GROUP-REF", "MODE-DECLARATION-GROUP-PROTOTYPE")}
INTERFACES = ["S:", "S:n", "S:q", "S:nn", "S:nq", "S:qn", "S:nqn", "S:s", "S:m", "S:c", "S:f", "S:e", "S:v", "S:sqx", "C:", "C:o", "C:oo", "C:ooo", "M:", "M:m", "P:", "N:", None]
DEST = {"S": "SENDER-RECEIVER-INTERFACE", "C": "CLIENT-SERVER-INTERFACE", "M": "MODE-SWITCH-INTERFACE",
        "P": "PARAMETER-INTERFACE", "N": "NV-DATA-INTERFACE"}
BUILDERS = {"p": ("create_p_port", "P"), "provide": ("create_provide_port", "P"), "r": ("create_r_port", "R"),
            "require": ("create_require_port", "R"), "pr": ("create_pr_port", "PR")}
INSTANCES = {
    "P": [("NONQUEUED-SENDER-COM-SPEC", lambda: ar.NonqueuedSenderComSpec(uses_end_to_end_protection=False)),
          ("SERVER-COM-SPEC", lambda: ar.ServerComSpec(queue_length=9)),
          ("PARAMETER-PROVIDE-COM-SPEC", lambda: ar.ParameterProvideComSpec(init_value=ar.ValueSpecification.make_value(3))),
          ("NV-PROVIDE-COM-SPEC", ar.NvProvideComSpec)],
    "R": [("QUEUED-RECEIVER-COM-SPEC", lambda: ar.QueuedReceiverComSpec(queue_length=9)),
          ("NONQUEUED-RECEIVER-COM-SPEC", lambda: ar.NonqueuedReceiverComSpec(uses_end_to_end_protection=False)),
          ("PARAMETER-REQUIRE-COM-SPEC", lambda: ar.ParameterRequireComSpec(init_value=ar.ValueSpecification.make_value(3))),
          ("NV-REQUIRE-COM-SPEC", ar.NvRequireComSpec)],
}
INSTANCE_BODY = {
    "NONQUEUED-SENDER-COM-SPEC": [("USES-END-TO-END-PROTECTION", "false")], "SERVER-COM-SPEC": [("QUEUE-LENGTH", 9.0)],
    "PARAMETER-PROVIDE-COM-SPEC": [NUM], "NV-PROVIDE-COM-SPEC": [], "QUEUED-RECEIVER-COM-SPEC": [("QUEUE-LENGTH", 9.0)],
    "NONQUEUED-RECEIVER-COM-SPEC": [("USES-END-TO-END-PROTECTION", "false")], "PARAMETER-REQUIRE-COM-SPEC": [NUM],
    "NV-REQUIRE-COM-SPEC": [],
}
NONSENSE = {"int": 5, "text": "init_value", "bytes": b"x", "object": object(), "class": ar.NonqueuedSenderComSpec,
            "list of int": [5], "list of text": ["E1"], "list of dict": [{"init_value": 1}], "list of none": [None],
            "short tuple": [("E1",)], "long tuple": [("E1", {}, 1)], "set of int": {5}, "list of list": [["E1", {}]]}
WRONG = ["nonsense", "data_element_ref", "operation_ref", "mode_group_ref"]


# kinds of data elements: only those with the policy QUEUED are queued
PROPS = {char: (lambda policy=policy: ar.SwDataDefPropsConditional(impl_policy=policy)) for char, policy in {
    "q": ar_enum.SwImplPolicy.QUEUED, "s": ar_enum.SwImplPolicy.STANDARD, "m": ar_enum.SwImplPolicy.MEASUREMENT_POINT,
    "c": ar_enum.SwImplPolicy.CONST, "f": ar_enum.SwImplPolicy.FIXED}.items()}
PROPS["e"] = lambda: ar.SwDataDefPropsConditional(alignment="8")
PROPS["v"] = ar.SwDataDefProps
PROPS["x"] = lambda: ar.SwDataDefProps(ar.SwDataDefPropsConditional(impl_policy=ar_enum.SwImplPolicy.QUEUED))


class Refused(Exception):
    """The request cannot be fulfilled"""


def names_of(spec):
    """Names of the parts of an interface"""
    word = {"S": "E", "C": "Op", "M": "mode"}[spec[0]]
    # from the fourth on, some differ from their neighbours only in case, or end like them
    return [f"{word.lower()}{i}" if i > 2 and i % 3 == 0 else f"x{word}{i + 2}" if i > 2 and i % 3 == 1 else f"{word}{i + 1}"
            for i in range(len(spec) - 2)]


def make_interface(spec, name="I"):
    kind = spec[0]
    if kind == "S":
        interface = ar.SenderReceiverInterface(name)
        for part, char in zip(names_of(spec), spec[2:]):
            props = PROPS[char]() if char in PROPS else None
            interface.create_data_element(part, sw_data_def_props=props)
    elif kind == "C":
        interface = ar.ClientServerInterface(name)
        for part in names_of(spec):
            interface.create_operation(part)
    elif kind == "M":
        interface = ar.ModeSwitchInterface(name)
        if spec[2:]:
            interface.create_mode_group("mode1", ar.ModeDeclarationGroupRef("/M/G"))
    else:
        interface = {"P": ar.ParameterInterface, "N": ar.NvDataInterface}[kind](name)
    return interface


def grow(interface, spec, char):
    """One more part in an interface, -> specification it has then"""
    part = names_of(spec + char)[-1]
    if spec[0] == "S":
        interface.create_data_element(part, sw_data_def_props=PROPS[char]() if char in PROPS else None)
    elif spec[0] == "C":
        interface.create_operation(part)
    else:
        interface.create_mode_group(part, ar.ModeDeclarationGroupRef("/M/G"))
    return spec + char


def com_spec_kind(side, spec, i):
    """Tag of the com-spec for part i of an interface"""
    provide = side == "P"
    if spec[0] == "S":
        return ("QUEUED-" if spec[2 + i] in "qx" else "NONQUEUED-") + ("SENDER" if provide else "RECEIVER") + "-COM-SPEC"
    if spec[0] == "C":
        return "SERVER-COM-SPEC" if provide else "CLIENT-COM-SPEC"
    return "MODE-SWITCH-" + ("SENDER" if provide else "RECEIVER") + "-COM-SPEC"


def python_args(side, spec, attrs):
    """Attributes -> keyword arguments"""
    table = {k: v for t in ATTRS.values() for k, v in t.items()}
    if spec and len(spec) > 2:
        for i in reversed(range(len(spec) - 2)):
            table.update(ATTRS[com_spec_kind(side, spec, i)])
    return {("init_value" if name.startswith("init_") else name): (table[name][0] if name in table else "/x/y")
            for name in attrs}


def written(side, spec, i, attrs, interface="/I/I"):
    """What the com-spec of part i is written as"""
    kind = com_spec_kind(side, spec, i)
    tag, dest = REF[spec[0]]
    body = [(tag, (dest, f"{interface}/{names_of(spec)[i]}"))]
    for name in attrs:
        if name not in ATTRS[kind]:
            raise Refused
        body.append(ATTRS[kind][name][1])
    return (kind, tuple(sorted(body, key=str)))


def expected(side, spec, form):
    """List of com-specs, or Refused"""
    if form is None:
        return []
    kind = form[0]
    if kind == "nonsense":
        raise Refused
    if kind == "instance":
        return expected(side, spec, ["list", [["instance"] + form[1:]]])
    parts = names_of(spec) if spec and spec[0] in "SCM" else None
    if kind == "attrs":                       # for the only part
        if not parts or len(parts) != 1:
            raise Refused
        return [written(side, spec, 0, form[1])]
    if kind == "by name":
        if not parts or len(parts) < 2 or any(name not in parts for name, _ in form[1]):
            raise Refused
        return [written(side, spec, parts.index(name), attrs) for name, attrs in form[1]]
    res, seen = [], set()
    for item in form[1]:
        if item[0] == "instance":
            if item[1] != side:
                raise Refused
            tag = INSTANCES[side][item[2]][0]
            res.append((tag, tuple(sorted(INSTANCE_BODY[tag], key=str))))
        elif item[0] == "named":
            if not parts or item[1] not in parts or item[1] in seen or spec[0] == "M":
                raise Refused
            seen.add(item[1])
            res.append(written(side, spec, parts.index(item[1]), item[2]))
    return res


def request(side, spec, form, keep):
    """The python value of a form"""
    if form is None:
        return None
    kind = form[0]
    if kind == "nonsense":
        return NONSENSE[form[1]]
    if kind == "instance":
        keep.append(INSTANCES[form[1]][form[2]][1]())
        return keep[-1]
    if kind == "attrs":
        return python_args(side, spec, form[1])
    if kind == "by name":
        return {name: python_args(side, spec, attrs) for name, attrs in form[1]}
    items = []
    for item in form[1]:
        if item[0] == "instance":
            keep.append(INSTANCES[item[1]][item[2]][1]())
            items.append(keep[-1])
        else:
            items.append((item[1], python_args(side, spec, item[2])))
    return items


def canonical(node):
    """Content of a node of a com-spec"""
    if node.get("DEST"):
        return (node.tag[len(NS):], (node.get("DEST"), node.text))
    if len(node) == 0:
        try:
            return (node.tag[len(NS):], float(node.text))
        except (TypeError, ValueError):
            return (node.tag[len(NS):], node.text)
    return (node.tag[len(NS):], tuple(canonical(n) for n in node))


def ports_of(text, path=f".//{NS}PORTS"):
    """Ports as they are written"""
    res = []
    for node in ElementTree.fromstring(text).findall(f"{path}/*"):
        content = {"P": [], "R": [], "interface": None, "unconnected": None}
        for child in node:
            tag = child.tag[len(NS):]
            if tag in ("PROVIDED-COM-SPECS", "REQUIRED-COM-SPECS"):
                for com_spec in child:
                    name, body = canonical(com_spec)
                    content[tag[0]].append((name, tuple(sorted(body or (), key=str))))
            elif tag.endswith("INTERFACE-TREF"):
                if content["interface"]:
                    return "two interfaces"
                content["interface"] = (tag, child.get("DEST"), child.text)
            elif tag == "MAY-BE-UNCONNECTED":
                content["unconnected"] = child.text
            elif tag == "CATEGORY":
                content["category"] = child.text
            elif tag != "SHORT-NAME":
                return f"unexpected {tag}"
        res.append((node.tag[len(NS):], node.findtext(f"{NS}SHORT-NAME"), content))
    return res


TREF = {"P": "PROVIDED-INTERFACE-TREF", "R": "REQUIRED-INTERFACE-TREF", "PR": "PROVIDED-REQUIRED-INTERFACE-TREF"}


def expected_port(side, spec, name, com_specs, unconnected=None, category=None, interface="/I/I"):
    content = {"P": sorted(com_specs.get("P", []), key=str), "R": sorted(com_specs.get("R", []), key=str),
               "interface": (TREF[side], DEST[spec[0]], interface) if spec else None,
               "unconnected": unconnected}
    if category:
        content["category"] = category
    return (f"{side}-PORT-PROTOTYPE", name, content)


def same_ports(text, model):
    """None or a description of the difference"""
    ports = ports_of(text)
    if isinstance(ports, str):
        return ports
    for _, _, content in ports:
        for side in "PR":
            content[side] = sorted(content[side], key=str)
    if ports != model:
        return f"ports are {ports}, expected {model}"
    return None


def judge_create(data):
    """One builder, one request"""
    builder, spec, forms, extra = data["builder"], data["interface"], data["forms"], data.get("extra") or {}
    method, side = BUILDERS[builder]
    workspace = ar_workspace.Workspace(document_root="/nowhere")
    interface = None
    if spec:
        interface = make_interface(spec[:-1] if data.get("grown") else spec)
        workspace.make_packages("/I").append(interface)
    if data.get("grown"):                      # the interface had less parts when it was used before
        other = ar.ApplicationSoftwareComponentType("Other")
        workspace.make_packages("/C").append(other)
        for i, form in enumerate([None, ["by name", [[n, []] for n in names_of(spec)]]] + forms):
            port, _ = attempt(getattr(other, method), f"Port{i}", interface, request(side, spec, form, []))
            if i == 0:
                msg = look_up(other, spec[:-1], interface, port)
                if msg:
                    return msg
        grow(interface, spec[:-1], spec[-1])
    swc = ar.ApplicationSoftwareComponentType("Swc")
    package = workspace.make_packages("/C")
    package.append(swc)
    first = ar.ProvidePortPrototype("First")
    swc.append_port(first)
    model = [expected_port("P", None, "First", {})]
    before = [WRITER.write_str_elem(interface)] if spec else None
    keep = []
    sides = ["P", "R"] if side == "PR" else [side]
    values = [request(s, spec, f, keep) for s, f in zip(sides, forms)]
    states = [WRITER.write_str_elem(k) for k in keep]
    shown = repr(values)
    try:
        com_specs = {s: expected(s, spec, f) for s, f in zip(sides, forms)}
        model.append(expected_port(side, spec, "Port", com_specs, **{
            k: v for k, v in (("unconnected", {True: "true", False: "false"}.get(extra.get("allow_unconnected"))),
                              ("category", extra.get("category")))}))
    except Refused:
        com_specs = None
    if data.get("keyword"):
        args = dict(zip(["provided_com_spec", "required_com_spec"] if side == "PR" else ["com_spec"], values))
        port, error = attempt(getattr(swc, method), name="Port", port_interface=interface, **args, **extra)
    else:
        port, error = attempt(getattr(swc, method), "Port", interface, *values, **extra)
    if com_specs is None:
        if error is None:
            return f"{method} accepts {shown}"
        if not isinstance(error, (TypeError, ValueError, NotImplementedError)):
            return f"{method} with {shown} raised {error!r}"
        for f in forms if side != "PR" else []:
            if f and f[0] == "by name" and spec and len(spec) > 3 and all(a[1] == [] for a in f[1]):
                unknown = [n for n, _ in f[1] if n not in names_of(spec)]
                if unknown and (not isinstance(error, ValueError) or not all(n in str(error) for n in unknown)):
                    return f"{method} does not tell that {unknown} is unknown: {error!r}"
    elif error is not None:
        return f"{method} with {shown} raised {error!r}"
    elif swc.ports[-1] is not port or port.parent is not swc or workspace.find("/C/Swc/Port") is not port:
        return "the port returned is not in the component"
    if swc.ports[0] is not first:
        return "another port was changed"
    text = WRITER.write_str_elem(swc)
    text = f'<X xmlns="{NS[1:-1]}">{text}</X>'
    diff = same_ports(text, model)
    if diff:
        return f"{method} with {shown}: {diff}"
    if [WRITER.write_str_elem(k) for k in keep] != states:
        return "a com-spec given was changed"
    if spec and [WRITER.write_str_elem(interface)] != before:
        return "the interface was changed"
    if repr(values) != shown:
        return f"the arguments were changed: {shown} -> {values!r}"
    if error is None:
        if keep and sum(1 for k in keep for c in com_spec_objects(port) if c is k) != len(keep):
            return "com-specs given are not the ones in the port"
        again = READER.read_str_elem(WRITER.write_str_elem(swc))
        if WRITER.write_str_elem(again) != WRITER.write_str_elem(swc):
            return "reads back different"
    return None


def com_spec_objects(port):
    return port.provided_com_spec + port.required_com_spec if isinstance(port, ar.PRPortPrototype) else port.com_spec


def build(history):
    """A workspace with a component that has ports [(builder, interface, name)]"""
    workspace = ar_workspace.Workspace(document_root="/nowhere")
    package = workspace.make_packages("/I")
    swc = ar.ApplicationSoftwareComponentType("Swc")
    workspace.make_packages("/C").append(swc)
    ports = []
    for i, (builder, spec, name) in enumerate(history):
        yield workspace, swc, ports
        interface = None
        if spec:
            interface = make_interface(spec, f"I{i}")
            package.append(interface)
        ports.append((name, BUILDERS[builder][1], spec, interface, getattr(swc, BUILDERS[builder][0])(name, interface)))
    yield workspace, swc, ports


def find_ports(workspace, swc, ports):
    """All look-ups of ports"""
    if [p for p in swc.ports] != [p[4] for p in ports]:
        return "ports are not in the order of creation"
    for prop, side in (("provide_ports", "P"), ("require_ports", "R"), ("pr_ports", "PR")):
        if list(getattr(swc, prop)) != [p[4] for p in ports if p[1] == side]:
            return f"{prop} is wrong"
    for name in ["A", "B", "AB", "a", "", "D"]:
        for find, sides in ((swc.find_p_port, ("P", "PR")), (swc.find_r_port, ("R", "PR"))):
            want = next((p[4] for p in ports if p[0] == name and p[1] in sides), None)
            got = find(name)
            if got is not want:
                return f"{find.__name__}({name!r}) is {got!r}"
        if name:
            want = next((p[4] for p in ports if p[0] == name), None)
            if swc.find(name) is not want or workspace.find(f"/C/Swc/{name}") is not want:
                return f"find({name!r}) is wrong"
    return None


def judge_history(data):
    """Ports are created, then every look-up is done"""
    for workspace, swc, ports in build(data["history"]):
        msg = find_ports(workspace, swc, ports)
        if msg:
            return f"after {len(ports)} ports: {msg}"
    model = [expected_port(p[1], p[2], p[0], {}, interface=f"/I/I{i}") for i, p in enumerate(ports)]
    diff = same_ports(f'<X xmlns="{NS[1:-1]}">{WRITER.write_str_elem(swc)}</X>', model)
    if diff:
        return diff
    for name, side, spec, interface, port in ports:
        msg = look_up(swc, spec, interface, port)
        if msg:
            return f"port {name} ({side}, {spec}): {msg}"
    for i, (name, side, spec, interface, port) in enumerate(ports):
        other = ports[(i + 1) % len(ports)]
        kept, port.port_interface_ref = port.port_interface_ref, other[4].port_interface_ref
        msg = look_up(swc, other[2], other[3], port)
        if msg:
            return f"port {name} ({side}, {spec}), interface of {other[0]}: {msg}"
        port.port_interface_ref = kept
    for name, side, spec, interface, port in ports:
        if spec and spec[0] in "SC":
            msg = look_up(swc, grow(interface, spec, "n" if spec[0] == "S" else "o"), interface, port)
            if msg:
                return f"port {name} ({side}, {spec}) with one more part: {msg}"
    for ref, kind in (("/I/Gone", "SENDER-RECEIVER-INTERFACE"), ("/Gone/I0", "CLIENT-SERVER-INTERFACE")):
        port = ar.RequirePortPrototype("Gone", ar.PortInterfaceRef(ref, ar_enum.xml_to_enum("IdentifiableSubTypes", kind)))
        swc.append_port(port)
        for method in (swc.get_data_element_in_port, swc.get_operation_in_port):
            got, error = attempt(method, port, "E1")
            if not isinstance(error, ar_except.InvalidReferenceError) or ref not in str(error):
                return f"{method.__name__} of a missing interface: {got!r} {error!r}"
        got, error = attempt(swc.get_mode_declaration_group_in_port, port)
        if not isinstance(error, ar_except.InvalidReferenceError) or ref not in str(error):
            return f"get_mode_declaration_group_in_port of a missing interface: {got!r} {error!r}"
        interface = make_interface("S:n", ref[ref.rindex("/") + 1:])
        workspace.make_packages(ref[1:ref.rindex("/")]).append(interface)
        msg = look_up(swc, "S:n", interface, port)
        if msg:
            return f"interface that was missing: {msg}"
    return None


def look_up(swc, spec, interface, port):
    """get_*_in_port of all names"""
    kind = spec[0] if spec else None
    parts = names_of(spec) if kind in ("S", "C", "M") else []
    for method, own, attr in (("get_data_element_in_port", "S", "data_elements"),
                              ("get_operation_in_port", "C", "operations")):
        for name in [None, "", "E1", "E2", "E3", "Op1", "Op2", "e1", "E", "E11"]:
            got, error = attempt(getattr(swc, method), port, name)
            if kind != own:
                if error is None or not isinstance(error, (TypeError, ValueError, ar_except.InvalidReferenceError)):
                    return f"{method}({name!r}): {got!r} {error!r} for an interface of another kind"
            elif not name:
                if len(parts) == 1:
                    if error is not None or got is not getattr(interface, attr)[0]:
                        return f"{method}({name!r}): {got!r} {error!r}"
                elif not isinstance(error, ValueError):
                    return f"{method}({name!r}): {got!r} {error!r} with {len(parts)} parts"
            else:
                want = getattr(interface, attr)[parts.index(name)] if name in parts else None
                if error is not None or got is not want:
                    return f"{method}({name!r}): {got!r} {error!r}"
    got, error = attempt(swc.get_mode_declaration_group_in_port, port)
    if kind == "M":
        if error is not None or got is not interface.mode_group:
            return f"get_mode_declaration_group_in_port: {got!r} {error!r}"
    elif error is None or not isinstance(error, (TypeError, ValueError, ar_except.InvalidReferenceError)):
        return f"get_mode_declaration_group_in_port: {got!r} {error!r} for an interface of another kind"
    return None


def judge(data):
    return judge_history(data) if "history" in data else judge_create(data)


def subsets(attrs, size):
    for n in range(size + 1):
        for combo in itertools.combinations(attrs, n):
            if sum(1 for a in combo if a.startswith("init_")) < 2:
                yield list(combo)


def forms(side, spec, thorough):
    """All requests for a side of a port"""
    yield None
    other = "R" if side == "P" else "P"
    for i in range(len(INSTANCES[side])):
        yield ["instance", side, i]
        yield ["list", [["instance", side, i]]]
    yield ["list", [["instance", other, 0]]]
    yield ["list", [["instance", other, 1]]]
    yield ["list", []]
    for i, j in itertools.permutations(range(len(INSTANCES[side])), 2):
        yield ["list", [["instance", side, i], ["instance", side, j]]]
    yield ["list", [["instance", side, 0], ["instance", other, 0]]]
    for name in NONSENSE:
        yield ["nonsense", name]
    parts = names_of(spec) if spec and spec[0] in "SCM" else []
    if len(parts) == 1:
        own = list(ATTRS[com_spec_kind(side, spec, 0)])
        foreign = sorted({a for t in ATTRS.values() for a in t} - set(own)) + WRONG
        for attrs in subsets(own, len(own) if thorough else 3):
            yield ["attrs", attrs]
        for attr in foreign:
            yield ["attrs", [attr]]
            yield ["attrs", [own[0], attr]]
        names = parts + ["E9"]
    else:
        yield ["attrs", ["queue_length"]]
        yield ["attrs", ["init_value"]]
        names = parts + ["E9", "E11"]
    if parts and spec[0] != "M":
        small = {}
        for i, name in enumerate(parts):
            own = list(ATTRS[com_spec_kind(side, spec, i)])
            small[name] = [[], [own[-1]]] if len(parts) > 1 and not thorough else list(subsets(own, 2))[:12 if len(parts) < 3 else 4]
            if len(parts) < 3:
                small[name].append(["nonsense"])
        for n in range(1, len(names) + 1):
            for order in itertools.permutations(names, n):
                if len(parts) == 3 and n > 3 and not thorough:
                    continue
                for attrs in itertools.product(*[small.get(name, [[]]) for name in order]):
                    pairs = [[name, a] for name, a in zip(order, attrs)]
                    if len(parts) > 1:
                        yield ["by name", pairs]
                    yield ["list", [["named", name, a] for name, a in pairs]]
        for name in parts:
            yield ["list", [["named", name, []], ["named", name, []]]]
            yield ["list", [["instance", side, 2], ["named", name, []]]]
            yield ["list", [["named", name, []], ["instance", side, 2], ["instance", side, 3]]]
    elif not parts:
        yield ["list", [["named", "E1", []]]]
        yield ["by name", [["E1", []]]]
        yield ["by name", [["E1", []], ["E2", []]]]


def many_forms(side, spec):
    """Requests for an interface with many parts"""
    parts = names_of(spec)
    own = [list(ATTRS[com_spec_kind(side, spec, i)]) for i in range(len(parts))]
    every = [[name, attrs[-1:]] for name, attrs in zip(parts, own)]
    none = [[name, []] for name in parts]
    orders = {"all": every, "reversed": every[::-1], "second": every[1::2], "bare": none, "wrong": every + [["E999", []]],
              "wrong first": [["Op0", []]] + every, "wrong attribute": every[:-1] + [[parts[-1], ["nonsense"]]]}
    for i in range(len(parts)):
        orders[f"only {i}"] = every[i:i + 1]
        orders[f"without {i}"] = every[:i] + every[i + 1:]
    for pairs in orders.values():
        yield ["by name", pairs]
        yield ["list", [["named", name, attrs] for name, attrs in pairs]]
    yield ["list", [["named", name, attrs] for name, attrs in every + every[-1:]]]
    yield ["list", [["named", name, attrs] for name, attrs in every[:1] + every]]
    yield ["list", [["instance", side, i % 4] for i in range(len(parts))]]
    yield None
    yield ["attrs", own[0][-1:]]


def large(builder, thorough):
    for n in (12, 40) if not thorough else (9, 12, 40, 110):
        for spec in ("S:" + "n" * n, "S:" + ("nqx" * n)[:n], "C:" + "o" * n):
            side = BUILDERS[builder][1]
            if side != "PR":
                for form in many_forms(side, spec):
                    yield f"{builder} {spec} {form}", {"builder": builder, "interface": spec, "forms": [form]}
            else:
                both = [[f for f in many_forms(x, spec) if not f or f[0] != "list" or f[1][0][0] == "instance"] for x in "PR"]
                for i, (one, two) in enumerate(zip(*both)):
                    for pair in ([one, None], [None, two], [one, two]):
                        yield (f"{builder} {spec} {pair}", {"builder": builder, "interface": spec, "forms": pair,
                                                            "keyword": i % 2 == 1})
        kinds = [(k, s) for k in BUILDERS for s in INTERFACES]
        for kind in kinds:
            yield (f"{n} ports {builder} {kind}", {"history": [
                [*(kind if i % 2 else (builder, "S:n")), f"Port{n - i}"] for i in range(n)]})
        yield (f"{n} ports {builder} of all kinds", {"history": [
            [builder, INTERFACES[i % len(INTERFACES)], f"Port{i}"] for i in range(n)]})


def groups(thorough):
    for builder in BUILDERS:
        yield ("large", builder)
    for builder in BUILDERS:
        for spec in INTERFACES:
            yield ("create", builder, spec)
    kinds = list(itertools.product(BUILDERS, INTERFACES))
    for kind in kinds:
        yield ("history", kind)


def cases(group, thorough):
    if group[0] == "large":
        yield from large(group[1], thorough)
        return
    if group[0] == "create":
        builder, spec = group[1:]
        side = BUILDERS[builder][1]
        if side != "PR":
            for form in forms(side, spec, thorough):
                if spec and spec[0] in "SCM" and spec[2:]:
                    yield f"{builder} {spec} {form} grown", {"builder": builder, "interface": spec, "forms": [form], "grown": True}
                yield f"{builder} {spec} {form}", {"builder": builder, "interface": spec, "forms": [form]}
                if builder in ("provide", "require"):
                    for extra in ({"category": "CAT"}, {"allow_unconnected": True}, {"allow_unconnected": False}):
                        if side == "R" or "category" in extra:
                            yield (f"{builder} {spec} {form} {extra}",
                                   {"builder": builder, "interface": spec, "forms": [form], "extra": extra, "keyword": True})
            return
        provide = [f for f in forms("P", spec, False) if f is None or f[0] not in ("list",) or
                   all(i[:2] == ["instance", "P"] for i in f[1])]
        require = [f for f in forms("R", spec, False) if f is None or f[0] not in ("list",) or
                   all(i[:2] == ["instance", "R"] for i in f[1])]
        # all forms of one side with every kind of form of the other side
        kinds = [{str(f and f[:1 if f[0] != "nonsense" else 2]): i for i, f in enumerate(forms_)}.values()
                 for forms_ in (provide, require)]
        for i, one in enumerate(provide):
            for j, two in enumerate(require):
                if i == 0 or j == 0 or i in kinds[0] or j in kinds[1]:
                    yield (f"{builder} {spec} {one} {two}",
                           {"builder": builder, "interface": spec, "forms": [one, two], "keyword": (i + j) % 2 == 1})
        return
    kind = group[1]
    yield f"history {kind}", {"history": [[*kind, "A"]]}
    reduced = [(b, s) for b in ("p", "r", "pr") for s in ("S:n", "S:nq", "C:o", "M:m", None)]
    for other in reduced:
        for names in (("A", "B"), ("B", "A"), ("AB", "A")):
            yield f"history {kind} {other} {names}", {"history": [[*kind, names[0]], [*other, names[1]]]}
        if thorough or kind in reduced:
            for third in reduced if thorough else [("p", "S:n"), ("r", "C:o"), ("pr", "M:m")]:
                for names in itertools.permutations(("A", "B", "AB")):
                    yield (f"history {kind} {other} {third} {names}",
                           {"history": [[*kind, names[0]], [*other, names[1]], [*third, names[2]]]})


if __name__ == "__main__":
    run("C20", groups, cases, judge, {
        "bounds": "16 interfaces (0 to 3 parts, queued and not) x 5 builders x all requests (attributes up to 3 (all), by "
                  "name in all orders, instances, lists, mixtures, 13 kinds of nonsense); histories of up to 3 ports "
                  "with all look-ups; interfaces with 12 and 40 (thorough 110) parts and components with as many ports",
        "oracle": "com-specs computed from the request, compared with the XML by a second parser"})
