"""
C22: Events, runnables and API options of an internal behaviour are created as asked, under names that stay unique.

All histories of the convenience methods of SwcInternalBehavior (every kind of event for every port,
element and mode, explicit and automatic names, references that lead nowhere, wrong arguments) are played
on the real code next to a model of behaviours; the result is compared object by object and in the XML.
"""
import itertools
import xml.etree.ElementTree as ElementTree

from mc.harness import attempt, run
from mc.names import wrong_names
import autosar.xml.document as ar_document
import autosar.xml.element as ar
import autosar.xml.enumeration as ar_enum
import autosar.xml.reader as ar_reader
import autosar.xml.workspace as ar_workspace
import autosar.xml.writer as ar_writer

NS = "{http://autosar.org/schema/r4.0}"
WRITER, READER = ar_writer.Writer(), ar_reader.Reader()
SWC = "/Comp/Swc"
BEHAVIOR = SWC + "/Swc_InternalBehavior"

# port -> (kind, interface)
PORTS = {"r11": ("R", "SR2"), "R1": ("R", "CS1"), "r1": ("R", "SR1"), "r2": ("R", "SR2"), "p1": ("P", "SR1"), "x1": ("PR", "SR1"), "x2": ("PR", "SR2"), "rn": ("R", "NV"),
         "pc1": ("P", "CS1"), "pc2": ("P", "CS2"), "rc": ("R", "CS1"), "xc": ("PR", "CS1"), "rm": ("R", "MS"), "pm": ("P", "MS"),
         "xm": ("PR", "MS"), "pm0": ("P", "MS0"), "rm0": ("R", "MS0"), "rq": ("R", "PAR"), "gone": ("R", "Gone"), "pgone": ("P", "Gone")}
CHILDREN = {"SR1": ["x"], "SR2": ["xy", "zx", "x", "y", "xx"], "CS1": ["op"], "CS2": ["op2", "aop", "op", "OP", "opop"], "MS": ["mode"]}
MODES = ["OFF_ON", "OFF", "ON", "On", "OFFOFF", "ON_ON"]
RUNNABLES = ["Run", "Run_0", "Run_r1"]                 # made before the history
AREAS = ["A1", "A2"]
PORT_CLASS = {"P": ar.ProvidePortPrototype, "R": ar.RequirePortPrototype, "PR": ar.PRPortPrototype}
SETTINGS = {"background": "background_event_prefix", "error": "data_receive_error_event_prefix",
            "received": "data_receive_event_prefix", "init": "init_event_prefix", "operation": "operation_invoked_event_prefix",
            "manager": "swc_mode_manager_error_event_prefix", "switch": "swc_mode_switch_event_prefix",
            "timing": "timing_event_prefix"}
METHOD = {"background": "create_background_event", "error": "create_data_receive_error_event",
          "received": "create_data_received_event", "init": "create_init_event", "operation": "create_operation_invoked_event",
          "manager": "create_swc_mode_manager_error_event", "switch": "create_swc_mode_mode_switch_event",
          "timing": "create_timing_event"}
TAG = {"background": "BACKGROUND-EVENT", "error": "DATA-RECEIVE-ERROR-EVENT", "received": "DATA-RECEIVED-EVENT",
       "init": "INIT-EVENT", "operation": "OPERATION-INVOKED-EVENT", "manager": "SWC-MODE-MANAGER-ERROR-EVENT",
       "switch": "SWC-MODE-SWITCH-EVENT", "timing": "TIMING-EVENT"}
EXTRA = {"desc": {"desc": "Text"}, "disabled": None, "wrong": {"nonsense": 1}}


class Refused(Exception):
    """The model refuses the operation; the argument is the class of the error, if documented"""


def interface(name):
    if name == "Gone":
        return ar.SenderReceiverInterface(name, [ar.VariableDataPrototype("g")])
    if name in ("SR1", "SR2"):
        return ar.SenderReceiverInterface(name, [ar.VariableDataPrototype(n) for n in CHILDREN[name]])
    if name == "NV":
        return ar.NvDataInterface(name, [ar.VariableDataPrototype("n")])
    if name in ("CS1", "CS2"):
        return ar.ClientServerInterface(name, operations=[ar.ClientServerOperation(n) for n in CHILDREN[name]])
    if name == "MS":
        return ar.ModeSwitchInterface(name, mode_group=ar.ModeDeclarationGroupPrototype(
            "mode", ar.ModeDeclarationGroupRef("/Modes/Group")))
    if name == "MS0":
        return ar.ModeSwitchInterface(name)
    return ar.ParameterInterface(name, parameters=[ar.ParameterDataPrototype("q")])


def make_port(name, kind, pi):
    port = PORT_CLASS[kind](name)
    port.port_interface_ref = ar.PortInterfaceRef("/PI/" + pi, ar_enum.IdentifiableSubTypes.SENDER_RECEIVER_INTERFACE)
    return port


def build(root, settings):
    world = ar_workspace.Workspace(document_root="/nowhere") if root == "workspace" else ar_document.Document()
    for name in ("SR1", "SR2", "NV", "CS1", "CS2", "MS", "MS0", "PAR"):
        world.make_packages("/PI").append(interface(name))
    world.make_packages("/Modes").append(ar.ModeDeclarationGroup("Group", [ar.ModeDeclaration(m) for m in MODES]))
    swc = ar.ApplicationSoftwareComponentType("Swc")
    for name, (kind, pi) in PORTS.items():
        swc.append_port(make_port(name, kind, pi))
    world.make_packages("/Comp").append(swc)
    behavior = swc.create_internal_behavior()
    if root == "workspace":
        for kind, prefix in settings.items():
            world.behavior_settings.set_value(SETTINGS[kind], prefix)
    return world, swc, behavior


class Model:
    """An internal behaviour; an event is [tag, base name, runnable, period/offset/..., instance references]"""

    def __init__(self, settings):
        self.settings, self.events, self.runnables, self.options, self.areas = dict(settings), [], [], {}, []
        self.ports, self.children, self.modes = dict(PORTS), {k: list(v) for k, v in CHILDREN.items()}, list(MODES)

    def change(self, op, world, behavior):
        """What the events refer to changes, in the model and in the workspace"""
        kind, name, *rest = op
        if kind == "element":
            self.children[name].append(rest[0])
            pi = world.find("/PI/" + name)
            if name.startswith("CS"):
                pi.append_operation(ar.ClientServerOperation(rest[0]))
            else:
                pi.append_data_element(ar.VariableDataPrototype(rest[0]))
        elif kind == "interface":
            self.children[name] = ["g"]
            world.find("/PI").append(interface(name))
        elif kind == "mode":
            self.modes.append(name)
            world.find("/Modes/Group").append_mode_declaratation(ar.ModeDeclaration(name))
        elif kind == "port":
            self.ports[name] = (rest[0], rest[1])
            behavior.parent.append_port(make_port(name, *rest))
        elif kind == "redirect":
            self.ports[name] = (self.ports[name][0], rest[0])
            behavior.parent.find(name).port_interface_ref = make_port(name, *self.ports[name]).port_interface_ref
        elif kind == "runnable":
            self.runnables.append(name)
            behavior.append_runnable(ar.RunnableEntity(name, symbol=name))
        else:
            self.settings[name] = rest[0]
            world.behavior_settings.set_value(SETTINGS[name], rest[0])

    # events
    def port(self, name, kind):
        if name not in self.ports or kind not in self.ports[name][0]:
            raise Refused(ValueError)
        if self.ports[name][1] == "Gone" and "Gone" not in self.children:
            raise Refused
        return self.ports[name]

    def child(self, ref, kind, wanted):
        """'<Port>/<Element>' or '<Port>' -> (port, kind of port, interface, element)"""
        if not ref or ref.startswith("/"):
            raise Refused(ValueError)
        parts = ref.split("/")
        if len(parts) > 2:
            raise Refused(ValueError)
        side, pi = self.port(parts[0], kind)
        if not pi.startswith(wanted) and not (pi == "Gone" and wanted == "SR"):
            raise Refused(TypeError)
        names = self.children[pi]
        if len(parts) == 1:
            if len(names) != 1:
                raise Refused(ValueError)
            return parts[0], side, pi, names[0]
        if parts[1] not in names:
            raise Refused(ValueError)
        return parts[0], side, pi, parts[1]

    def mode_group(self, port, kind):
        side, pi = self.port(port, kind)
        if not pi.startswith("MS"):
            raise Refused(TypeError)
        if pi == "MS0":
            raise Refused(ValueError)
        return side

    def mode(self, ref):
        if not isinstance(ref, str):
            raise Refused(TypeError)
        parts = ref.split("/")
        if len(parts) != 2:
            raise Refused(ValueError)
        side = self.mode_group(parts[0], "R")
        if parts[1] not in self.modes:
            raise Refused(ValueError)
        return ["MODE-IREF", ["CONTEXT-PORT-REF", f"{side}-PORT-PROTOTYPE", f"{SWC}/{parts[0]}"],
                ["CONTEXT-MODE-DECLARATION-GROUP-PROTOTYPE-REF", "MODE-DECLARATION-GROUP-PROTOTYPE", "/PI/MS/mode"],
                ["TARGET-MODE-DECLARATION-REF", "MODE-DECLARATION", f"/Modes/Group/{parts[1]}"]]

    def event(self, kind, runnable, target, name, extra):
        if runnable not in self.runnables:
            raise Refused(KeyError)
        base, more = [runnable], []
        if kind in ("error", "received"):
            port, side, pi, element = self.child(target, "R", "SR")
            base += [port, element]
            more.append(["DATA-IREF", ["CONTEXT-R-PORT-REF", f"{side}-PORT-PROTOTYPE", f"{SWC}/{port}"],
                         ["TARGET-DATA-ELEMENT-REF", "VARIABLE-DATA-PROTOTYPE", f"/PI/{pi}/{element}"]])
        elif kind == "operation":
            port, side, pi, element = self.child(target, "P", "CS")
            base += [port, element]
            more.append(["OPERATION-IREF", ["CONTEXT-P-PORT-REF", f"{side}-PORT-PROTOTYPE", f"{SWC}/{port}"],
                         ["TARGET-PROVIDED-OPERATION-REF", "CLIENT-SERVER-OPERATION", f"/PI/{pi}/{element}"]])
        elif kind == "manager":
            side = self.mode_group(target, "P")
            base += [target, "mode"]
            more.append(["MODE-GROUP-IREF", ["CONTEXT-P-PORT-REF", f"{side}-PORT-PROTOTYPE", f"{SWC}/{target}"],
                         ["TARGET-MODE-GROUP-REF", "MODE-DECLARATION-GROUP-PROTOTYPE", "/PI/MS/mode"]])
        elif kind == "switch":
            refs, activation = target
            if refs in ("", None) or isinstance(refs, dict):
                raise Refused
            if isinstance(refs, str):
                irefs = [self.mode(refs)]
            elif len(refs) != 2:
                raise Refused(ValueError)
            else:
                irefs = [self.mode(r) for r in refs]
            if activation:
                more.append(["ACTIVATION", activation.replace("_", "-")])
            more.append(["MODE-IREFS"] + irefs)
        elif kind == "timing":
            period, offset = target
            if offset is not None:
                more.append(["OFFSET", f"{offset}"])
            if period is not None:
                more.append(["PERIOD", f"{period}"])
        if name is None:
            if not self.settings.get(kind):
                raise Refused(RuntimeError)
            name = "_".join([self.settings[kind]] + base)
        if extra == "wrong":
            raise Refused
        start = [["START-ON-EVENT-REF", "RUNNABLE-ENTITY", f"{BEHAVIOR}/{runnable}"]]
        if extra == "desc":
            start.insert(0, ["DESC", ["L-2", "Text"]])
        if extra == "disabled":
            start.insert(0, ["DISABLED-MODE-IREFS", ["DISABLED-MODE-IREF"] + self.mode("rm/ON")[1:]])
        self.events.append([TAG[kind], name, start + more])

    # others
    def runnable(self, name, args):
        if name in self.runnables:
            raise Refused(ValueError)
        if not set(args.get("can_enter_leave") or ()) <= set(self.areas):
            raise Refused(ValueError)
        if "wrong" in args:
            raise Refused
        self.runnables.append(name)
        content = []
        if args.get("can_enter_leave"):
            content.append(["CAN-ENTERS"] + [["EXCLUSIVE-AREA-REF-CONDITIONAL", [
                "EXCLUSIVE-AREA-REF", "EXCLUSIVE-AREA", f"{BEHAVIOR}/{a}"]] for a in args["can_enter_leave"]])
        if "minimum_start_interval" in args:
            content.append(["MINIMUM-START-INTERVAL", str(args["minimum_start_interval"])])
        if "can_be_invoked_concurrently" in args:
            content.append(["CAN-BE-INVOKED-CONCURRENTLY", "true" if args["can_be_invoked_concurrently"] else "false"])
        if args.get("symbol", name) is not None:
            content.append(["SYMBOL", args.get("symbol") or name])
        return content

    def area(self, name):
        if name in self.areas:
            raise Refused(ValueError)
        self.areas.append(name)

    def option(self, names, args):
        if names == "*":
            names = list(self.ports)
        names = [names] if isinstance(names, str) else names
        if not set(names) <= set(self.ports):
            raise Refused(ValueError)
        if "wrong" in args:
            raise Refused
        for name in sorted(dict.fromkeys(names), key=str.lower):
            content = []
            if "enable_take_address" in args:
                content.append(["ENABLE-TAKE-ADDRESS", "true" if args["enable_take_address"] else "false"])
            if "error_handling" in args:
                content.append(["ERROR-HANDLING", args["error_handling"].replace("_", "-")])
            if "indirect_api" in args:
                content.append(["INDIRECT-API", "true" if args["indirect_api"] else "false"])
            if args.get("port_arg_values") not in (None, []):
                content.append(["PORT-ARG-VALUES", *(
                    ["PORT-DEFINED-ARGUMENT-VALUE", ["VALUE", ["NUMERICAL-VALUE-SPECIFICATION", ["VALUE", str(n)]]]]
                    for n in listed(args["port_arg_values"]))])
            content.append(["PORT-REF", f"{self.ports[name][0]}-PORT-PROTOTYPE", f"{SWC}/{name}"])
            if args.get("supported_features") not in (None, []):
                content.append(["SUPPORTED-FEATURES", *(
                    ["COMMUNICATION-BUFFER-LOCKING", ["SUPPORT-BUFFER-LOCKING", f.replace("_", "-")]]
                    for f in listed(args["supported_features"]))])
            if "transformer_status_forwarding" in args:
                content.append(["TRANSFORMER-STATUS-FORWARDING", args["transformer_status_forwarding"].replace("_", "-")])
            self.options[name] = content


def listed(value):
    return value if isinstance(value, list) else [value]


def option_arguments(args):
    """What create_port_api_options is given"""
    args = dict(args)
    if args.pop("wrong", None):
        args["error_handling"] = "yes"
    elif "error_handling" in args:
        args["error_handling"] = ar_enum.DataTransformationErrorHandling[args["error_handling"]]
    if "transformer_status_forwarding" in args:
        args["transformer_status_forwarding"] = ar_enum.DataTransformationStatusForwarding[args["transformer_status_forwarding"]]
    for key, make in (("port_arg_values", lambda n: ar.PortDefinedArgumentValue(ar.NumericalValueSpecification(value=n))),
                      ("supported_features", lambda f: ar.CommunicationBufferLocking(ar_enum.SupportBufferLocking[f]))):
        if args.get(key) is not None:
            args[key] = [make(v) for v in args[key]] if isinstance(args[key], list) else make(args[key])
    return args


def tree(node):
    """XML node as a list"""
    res = [node.tag[len(NS):]]
    if node.get("DEST"):
        res.append(node.get("DEST"))
    text = (node.text or "").strip()
    return res + ([text] if text else []) + [tree(child) for child in node]


def play(op, model, behavior):
    """-> (model's refusal, result, error)"""
    kind = op[0]
    if kind in TAG:
        _, runnable, target, name, extra = op
        content, refused = attempt(model.event, kind, runnable, target, name, extra)
        kwargs = dict(EXTRA.get(extra) or {})
        if extra == "disabled":
            kwargs["disabled_modes"] = ar.RModeInAtomicSwcInstanceRef(
                behavior.parent.find_r_port("rm").ref(), ar.ModeDeclarationGroupPrototypeRef("/PI/MS/mode"),
                ar.ModeDeclarationRef("/Modes/Group/ON"))
        args = [runnable]
        if kind == "switch":
            args += [tuple(target[0]) if isinstance(target[0], list) and len(op[1]) % 2 else target[0],
                     ar_enum.ModeActivationKind[target[1]] if target[1] else None]
        elif kind == "timing":
            args += target
        elif kind not in ("background", "init"):
            args.append(target)
        result, error = attempt(getattr(behavior, METHOD[kind]), *args, event_name=name, **kwargs)
        return content, refused, result, error
    if kind == "runnable":
        content, refused = attempt(model.runnable, op[1], op[2])
        args = dict(op[2])
        if args.pop("wrong", None):
            args["nonsense"] = 1
        if len(args.get("can_enter_leave") or ()) == 1 and op[1] == "New":
            args["can_enter_leave"] = args["can_enter_leave"][0]
        return content, refused, *attempt(behavior.create_runnable, op[1], **args)
    if kind == "area":
        content, refused = attempt(model.area, op[1])
        return content, refused, *attempt(behavior.create_exclusive_area, op[1])
    content, refused = attempt(model.option, op[1], op[2])
    args = option_arguments(op[2])
    if len(op[2]) == len(OPTION) and op[1] == "*":       # all by position
        return content, refused, *attempt(behavior.create_port_api_options, op[1], *args.values())
    return content, refused, *attempt(behavior.create_port_api_options, op[1], **args)


def judge(data):
    if "tuple" in data:                        # the constructor of mode switch events by itself
        iref = ar.RModeInAtomicSwcInstanceRef()
        event, error = attempt(ar.SwcModeSwitchEvent, "E", mode=tuple([iref] * data["tuple"]))
        if (error is None) != (data["tuple"] == 2) or not (error is None or isinstance(error, (ValueError, TypeError))):
            return f"{data['tuple']} modes: {error!r}"
        return "mode is lost" if event is not None and event.mode != (iref, iref) else None
    world, swc, behavior = build(data["root"], data["settings"])
    model = Model(data["settings"] if data["root"] == "workspace" else {})
    lists = {"event": behavior.events, "runnable": behavior.runnables, "area": behavior.exclusive_areas}
    made = {"event": [], "runnable": [], "area": []}
    contents = []
    start = [["area", a] for a in AREAS] + [["runnable", r, {}] for r in RUNNABLES]
    detached = data.get("detached")
    for num, op in enumerate(start + data["history"]):
        if op[0] == "change":
            model.change(op[1], world, behavior)
            if op[1][0] == "runnable":
                made["runnable"].append(behavior.runnables[-1])
                contents.append([["SYMBOL", op[1][1]]])
            continue
        if detached and num == len(start):     # nothing of the behaviour can be referred to for the time being
            cut = {"package": swc.parent, "component": swc, "behavior": behavior}[detached]
            parent, cut.parent = cut.parent, None
            rest = [(id(e), e.name) for v in lists.values() for e in v], list(behavior.port_api_options)
            _, _, result, error = play(op, Model({}), behavior)
            cut.parent = parent
            if not isinstance(error, (ValueError, TypeError, KeyError, RuntimeError, AssertionError)):
                return f"{op} without {detached}'s parent: {error!r}, {result!r}"
            if rest != ([(id(e), e.name) for v in lists.values() for e in v], list(behavior.port_api_options)):
                return f"{op} was refused without {detached}'s parent but left something behind"
        before = ({k: [(id(e), e.name) for e in v] for k, v in lists.items()}, list(behavior.port_api_options.items()))
        content, refused, result, error = play(op, model, behavior)
        if refused is not None and not isinstance(refused, Refused):
            raise refused
        if refused is not None:
            if error is None:
                return f"{op} is accepted"
            if refused.args and data["root"] == "workspace" and not isinstance(error, (refused.args[0], RuntimeError)):
                return f"{op} raised {error!r}"
            if before != ({k: [(id(e), e.name) for e in v] for k, v in lists.items()}, list(behavior.port_api_options.items())):
                return f"{op} was refused but left something behind"
            continue
        if error is not None:
            return f"{op} raised {error!r}"
        if op[0] == "option":
            continue
        kind = "event" if op[0] in TAG else op[0]
        made[kind].append(result)
        if kind == "runnable":
            contents.append(content)
        if [id(e) for e in lists[kind]] != [id(e) for e in made[kind]]:
            return f"{op} is not at the end"
        if kind != "event" and result.name != op[1]:
            return f"{op} is called {result.name}"
        if kind == "event":
            msg = wrong_names([e[1] for e in model.events], [e.name for e in behavior.events])
            if msg:
                return f"{op}: {msg}"
            for e in behavior.events:
                if str(e.ref()) != f"{BEHAVIOR}/{e.name}":
                    return f"{op}: the reference of {e.name} is {e.ref()}"
    for item in made["event"] + made["runnable"]:
        if item.parent is not behavior:
            return f"parent of {item.name} is {item.parent!r}"
    for item in made["runnable"]:
        if behavior.find_runnable(item.name) is not item:
            return f"runnable {item.name} is not found"
    if [p.name for p in swc.ports] != list(model.ports):
        return "ports have changed"
    names = [e.name for e in behavior.events]
    text = WRITER.write_str_elem(swc)
    root = ElementTree.fromstring(f'<X xmlns="{NS[1:-1]}">{text}</X>').find(f".//{NS}SWC-INTERNAL-BEHAVIOR")
    for tag, want in (
            ("EVENTS", [[e[0], ["SHORT-NAME", n]] + e[2] for n, e in zip(names, model.events)]),
            ("RUNNABLES", [["RUNNABLE-ENTITY", ["SHORT-NAME", n]] + c for n, c in zip(model.runnables, contents)]),
            ("EXCLUSIVE-AREAS", [["EXCLUSIVE-AREA", ["SHORT-NAME", n]] for n in model.areas]),
            ("PORT-API-OPTIONS", [["PORT-API-OPTION"] + c for c in model.options.values()])):
        node = root.find(NS + tag)
        have = [] if node is None else tree(node)[1:]
        if tag == "PORT-API-OPTIONS":
            have, want = sorted(have), sorted(want)
        if have != want:
            bad = next((pair for pair in itertools.zip_longest(have, want) if pair[0] != pair[1]))
            return f"{tag}: written {bad[0]}, expected {bad[1]}"
    again = READER.read_str_elem(text)
    if WRITER.write_str_elem(again) != text:
        return "reads back different"
    return None


ALL = {"background": "BT", "error": "DRET", "received": "DRT", "init": "IT", "operation": "OIT", "manager": "MET",
       "switch": "MST", "timing": "TMT"}
SAME = {k: "E" for k in ALL}
NAMES = ["X", "X_0", "X_1", "X_2", "X_00", "X_1a", "XX", "X_", "X_0_0", "Y", "aX_1", "x", "X_9", "X_10"]


def event_operations():
    """Every kind of event with every target; names are automatic"""
    refs = list(PORTS) + [f"{p}/{e}" for p, (_, i) in PORTS.items() for e in CHILDREN.get(i, []) + ["nope"]]
    refs += ["nope", "nope/x", "/r1", "/r1/x", "r1/x/y", "r1/x/", "pc1/op/op", "pc2/op/x/x"]
    for run_name in ("Run", "Nope"):
        yield ["background", run_name, None, None, None]
        yield ["init", run_name, None, None, None]
        for period in (None, 0, 1, 0.02, 0.005):
            for offset in (None, 0, 2.5):
                yield ["timing", run_name, [period, offset], None, None]
    for kind in ("error", "received", "operation"):
        for ref in refs:
            yield [kind, "Run", ref, None, None]
    for port in list(PORTS) + ["nope", "rm/ON", "pm/mode"]:
        yield ["manager", "Run", port, None, None]
    modes = [f"{p}/{m}" for p in list(PORTS) + ["nope"] for m in MODES + ["nope"]] + ["rm", "/rm/ON", "rm/ON/OFF", "", "rm/"]
    for ref in modes:
        yield ["switch", "Run", [ref, "ON_ENTRY"], None, None]
    for activation in (None, "ON_EXIT", "ON_TRANSITION"):
        yield ["switch", "Run", ["rm/ON", activation], None, None]
    for one, two in itertools.product(("rm/ON", "rm/OFF", "xm/ON", "pm/ON", "nope", "rm/nope", "rm"), repeat=2):
        yield ["switch", "Run", [[one, two], "ON_TRANSITION"], None, None]
        yield ["switch", "Run_0", [[one, two], None], None, None]
    for refs in ([], ["rm/ON"], ["rm/ON", "rm/OFF", "rm/ON"], [1, "rm/ON"], ["rm/ON", 1], {}, None):
        yield ["switch", "Run", [refs, None], None, None]
        yield ["switch", "Run_0", [refs, None], None, None]


def other_operations():
    for name in ("Run", "New", "New_0", "Run_0"):
        for args in ({}, {"symbol": None}, {"symbol": "Sym"}, {"can_be_invoked_concurrently": False, "minimum_start_interval": 0.01},
                     {"can_be_invoked_concurrently": True, "minimum_start_interval": 0}, {"wrong": True},
                     {"can_enter_leave": ["A1"]}, {"can_enter_leave": ["A2", "A1"], "symbol": None}, {"can_enter_leave": ["Late"]},
                     {"can_enter_leave": ["A1", "nope"]}, {"can_enter_leave": ["nope"]}, {"can_enter_leave": ["Run"]}):
            yield ["runnable", name, args]
    for name in ("A1", "Late", "A3"):
        yield ["area", name]
    for names in ("r1", ["r1"], ["r1", "p1"], ["xm", "p1", "r1"], "*", ["r1", "r1"], "nope", ["r1", "nope"], ["nope", "r1"], [], "Run"):
        for args in ({}, {"enable_take_address": True}, {"indirect_api": False}, {"enable_take_address": False, "indirect_api": True},
                     {"wrong": True}, *({k: v} for k, v in OPTION.items()), OPTION,
                     *({k: v for k, v in OPTION.items() if k != left} for left in OPTION),
                     {"port_arg_values": 5}, {"supported_features": "SUPPORTS_BUFFER_LOCKING"}, {"port_arg_values": []},
                     {"supported_features": ["SUPPORTS_BUFFER_LOCKING", "DOES_NOT_SUPPORT_BUFFER_LOCKING"]},
                     {"error_handling": "NO_TRANSFORMER_ERROR_HANDLING"},
                     {"transformer_status_forwarding": "NO_TRANSFORMER_STATUS_FORWARDING"}):
            if names or "wrong" not in args:
                yield ["option", names, args]


OPTION = {"enable_take_address": False, "indirect_api": True, "error_handling": "TRANSFORMER_ERROR_HANDLING",
          "port_arg_values": [2, 1], "supported_features": ["SUPPORTS_BUFFER_LOCKING"],
          "transformer_status_forwarding": "TRANSFORMER_STATUS_FORWARDING"}


def short():
    """Events that share names"""
    res = [["background", r, None, n, None] for r in ("Run", "Run_0") for n in (None, "E_Run_1")]
    res += [["init", "Run", None, None, None], ["init", "Run", None, "E_Run", "wrong"], ["background", "Run", None, None, "wrong"],
            ["timing", "Run", [1, None], None, None], ["timing", "New", [None, 0.5], None, "desc"],
            ["received", "Run", "r1", None, None], ["error", "Run", "r1/x", None, "disabled"], ["received", "Run_r1", "r1", "E_Run_r1_x", None],
            ["received", "Run", "r2", None, None], ["switch", "Run", ["rm/ON", "ON_ENTRY"], None, None],
            ["switch", "Run", ["rm/nope", "ON_ENTRY"], None, None], ["switch", "Run_0", [["rm/ON", "rm/OFF"], "ON_TRANSITION"], "E", None],
            ["operation", "Run", "pc1", None, None], ["operation", "New", "pc2/op2", "E", None], ["manager", "Run", "pm", None, None],
            ["runnable", "New", {}], ["runnable", "New", {"symbol": None}], ["option", ["r1", "pm"], {"indirect_api": True}],
            ["option", "*", {}], ["option", ["r1", "nope"], {"enable_take_address": True}]]
    return res


def referring():
    """Operations that refer to something of the behaviour or its component"""
    for op in event_operations():
        for name in (None, "X"):
            yield op[:3] + [name, None]
    for op in other_operations():
        if op[0] == "runnable" and op[2].get("can_enter_leave") or op[0] == "option" and op[1] not in ([], "*"):
            yield op


CHANGES = [["element", n, c] for n, c in (("SR1", "y"), ("SR2", "nope"), ("CS1", "op2"), ("CS2", "nope"))]
CHANGES += [["interface", "Gone"], ["mode", "nope"], ["port", "nope", "R", "SR1"], ["port", "nope", "P", "MS"], ["port", "nope", "PR", "CS1"],
            ["port", "nope", "R", "MS"], ["redirect", "r1", "SR2"], ["redirect", "r2", "SR1"], ["redirect", "rm", "SR1"],
            ["redirect", "pm", "MS0"], ["redirect", "rm", "Gone"], ["redirect", "pc1", "CS2"], ["runnable", "Nope"]]
CHANGES += [["setting", k, "NEW"] for k in SETTINGS] + [["setting", k, ""] for k in SETTINGS]


def groups(thorough):
    for i in range(len(CHANGES)):
        yield ("change", i)
    yield ("one", 0)
    ops = list(event_operations()) + list(other_operations())
    for i in range(0, len(ops), 8):
        yield ("pair", i)
    for i in range(len(short())):
        yield ("deep", i)
    for i in range(len(NAMES)):
        yield ("names", i)
    yield ("many", 0)
    for i in range(3):
        yield ("detached", i)


def cases(group, thorough):
    kind, i = group
    ops = list(event_operations()) + list(other_operations())
    if kind == "one":
        for n in range(5):
            yield f"{n} modes", {"tuple": n}
        for op in ops:
            for label, settings in (("all", ALL), ("none", {})) + tuple((k, {k: "P_" + k}) for k in ALL) + tuple(
                    ("without " + k, {**ALL, k: ""}) for k in ALL):
                yield f"{label} {op}", {"root": "workspace", "settings": settings, "history": [op]}
            if op[0] in TAG:
                for n in (40, 126, 127, 128, 260):
                    yield f"{op} prefix of {n} letters", {"root": "workspace", "settings": {k: "L" * n for k in ALL}, "history": [op] * 3}
                    yield f"{op} name of {n} letters", {"root": "workspace", "settings": {}, "history": [
                        op[:3] + ["N" * n, None], op[:3] + ["N" * n, None], op[:3] + ["N" * n + "M", None], op[:3] + ["N" * (n - 1), None]]}
                for name, extra in itertools.product((None, "X", "Run", "X_0"), (None, "desc", "disabled", "wrong")):
                    yield f"{op} {name} {extra}", {"root": "workspace", "settings": {} if name else ALL,
                                                   "history": [op[:3] + [name, extra]]}
                if op[0] != "switch":
                    yield f"document {op}", {"root": "document", "settings": {}, "history": [op]}
                    yield f"document {op} X", {"root": "document", "settings": {}, "history": [op[:3] + ["X", None]]}
    elif kind == "pair":
        others = ops if thorough else short()
        for one in ops[i:i + 8]:
            for other in others:
                yield f"{one} {other}", {"root": "workspace", "settings": ALL, "history": [one, other]}
                yield f"{other} {one}", {"root": "workspace", "settings": SAME, "history": [other, one]}
    elif kind == "deep":
        ops = short()
        for n in (2, 3) if thorough else (2,):
            for rest in itertools.product(range(len(ops)), repeat=n):
                yield f"{i} {rest}", {"root": "workspace", "settings": SAME, "history": [ops[i]] + [ops[j] for j in rest]}
    elif kind == "change":
        change = CHANGES[i]
        for op in ops:
            if change[0] == "setting" and op[0] != change[1] or change[0] == "port" and "nope" not in str(op[2:3]) and op[1] != "*":
                continue
            for settings in (ALL, {}) if change[0] == "setting" else (ALL,):
                yield f"{op} {change} again", {"root": "workspace", "settings": settings, "history": [op, ["change", change], op]}
                if thorough:
                    for other in CHANGES:
                        if other[0] != change[0] or other[1] != change[1]:
                            yield f"{op} {change} {other} again", {"root": "workspace", "settings": settings, "history": [
                                op, ["change", change], op, ["change", other], op]}
    elif kind == "detached":
        root = ("package", "component", "behavior")[i]
        for op in referring():
            yield f"{root} {op}", {"root": "workspace", "settings": ALL, "history": [op], "detached": root}
            if thorough:
                for other in short():
                    yield f"{root} {op} {other}", {"root": "workspace", "settings": SAME, "history": [op, other], "detached": root}
    elif kind == "many":
        events = [o for o in short() if o[0] in TAG and o[4] != "wrong" and o[1] != "New"]
        for num, op in enumerate(events):
            for count in (9, 10, 11, 12, 21, 103) + ((1003 if thorough else 211,) if num < 3 else ()):
                yield f"{count} times {op}", {"root": "workspace", "settings": SAME, "history": [op] * count}
            for other in events[:num]:
                yield f"12 times {op} {other}", {"root": "workspace", "settings": SAME, "history": [op, other] * 12}
    else:
        for n in (2, 3, 4) if thorough else (2, 3):
            names = NAMES if n < 4 else NAMES[:7]
            if i >= len(names):
                break
            for rest in itertools.product(names, repeat=n):
                yield f"names {NAMES[i]} {rest}", {"root": "workspace", "settings": {}, "history": [
                    ["init" if j % 2 else "background", "Run", None, name, None] for j, name in enumerate((NAMES[i],) + rest)]}


if __name__ == "__main__":
    run("C22", groups, cases, judge, threads="behavior", extra={
        "bounds": "every operation under 18 settings of prefixes; all pairs with 25 short operations (thorough: of all operations); "
                  "all histories of 3 (thorough 4) short operations; all histories of 4 (thorough 5 over 7) explicit names out of 12; "
                  "every operation before and after each of 33 changes of the workspace (thorough: two changes)",
        "oracle": "model of internal behaviours; XML decoded by a second parser"})
