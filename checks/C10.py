"""
Independence of history: every sequence of operations on one Writer or one Reader, up to
a length, in which every operation has to give what it gives on a fresh instance, and
must leave its arguments and everything returned before as they were.  Schedules of two
operations of two instances in two threads, in which each has to give what it gives alone.
"""
import contextlib
import itertools
import os
import tempfile

import autosar.xml.element as ar
import autosar.xml.enumeration as ar_enum
from mc import build as b
from mc import spec
from mc.cases import ordered
from mc import interleave
from mc.harness import attempt, quiet, run
from mc.spec import SPEC

TMP = tempfile.gettempdir()


def area():
    return {"c": "ExclusiveAreaRefConditional",
            "p": {"exclusive_area": b.ref_desc("ExclusiveAreaRef", None, "/Pkg/Swc/Beh/Ex")}}


RUN = {"c": "RunnableEntity", "p": {"name": "Run", "can_enter_leave": [area()], "runs_insides": [area()]}}
SWC = b.embed("RunnableEntity", ordered("RunnableEntity", RUN["p"]))
UNIT = {"c": "Unit", "p": {"name": "Km", "factor": 0.5,
                           "long_name": {"c": "MultilanguageLongName", "p": {"elements": [
                               {"c": "LanguageLongName", "p": {"language": {"e": "Language.EN"},
                                                               "parts": ["a & b"]}}]}}}}
BASE = {"c": "SwBaseType", "p": {"name": "Byte", "size": 8}}


def doc_of(version, *descs):
    return b.make_document([ordered(d["c"], d["p"]) for d in descs], version)


def broken_doc():
    doc = doc_of(49, BASE, UNIT, SWC)
    doc.packages[0].elements[1].factor = object()      # cannot be written
    return doc


def text_of(version, *descs, **kwargs):
    root = b.package_node([ordered(d["c"], d["p"]) for d in descs], version)
    for n in kwargs.get("extra", []):
        root.children[1].children.insert(1, spec.Node("", "raw", n))
    text = spec.document(spec.to_xml(root), version)
    if kwargs.get("bare"):
        text = text.replace('xsi:schemaLocation="http://autosar.org/schema/r4.0 AUTOSAR_%05d.xsd" ' % version, "")
    return text


BAD = "<SW-BASE-TYPE><SHORT-NAME>Bad</SHORT-NAME><BASE-TYPE-SIZE>?!</BASE-TYPE-SIZE></SW-BASE-TYPE>"
ODD = "<VENDOR-X><SHORT-NAME>v</SHORT-NAME></VENDOR-X>"
ODD2 = "<UNIT><SHORT-NAME>Odd</SHORT-NAME><VENDOR-Y/></UNIT>"
TEXTS = {}


def files(tmp):
    if not TEXTS:
        TEXTS["v51"] = text_of(51, UNIT, SWC)
        TEXTS["v48"] = text_of(48, SWC, BASE)
        TEXTS["bare"] = text_of(51, BASE, SWC, bare=True)
        TEXTS["bare48"] = text_of(48, SWC, bare=True)
        TEXTS["odd"] = text_of(50, UNIT, BASE, extra=[ODD, ODD2])
        TEXTS["bad"] = text_of(49, UNIT, SWC, extra=[BAD, ODD])
        TEXTS["dup"] = text_of(48, UNIT, UNIT)
        TEXTS["broken"] = TEXTS["v48"][:-40]
    for k, t in TEXTS.items():
        with open(os.path.join(tmp, k + ".arxml"), "w", encoding="utf-8") as fh:
            fh.write(t)


# every operation: (instance, arguments, tmp) -> something comparable; arguments are built once per sequence
WRITER_OPS = {
    "str51": lambda w, a, t: w.write_str(a["d51"]),
    "str48": lambda w, a, t: w.write_str(a["d48"], False),
    "file51": lambda w, a, t: to_file(w.write_file, a["d51"], t),
    "file48": lambda w, a, t: to_file(w.write_file, a["d48"], t),
    "elem": lambda w, a, t: w.write_str_elem(a["run"]),
    "elem tag": lambda w, a, t: w.write_str_elem(a["proto"], "DATA-ELEMENT"),
    "file elem": lambda w, a, t: to_file(w.write_file_elem, a["unit"], t),
    "str fails": lambda w, a, t: w.write_str(a["bad"]),
    "file fails": lambda w, a, t: to_file(w.write_file, a["bad"], t),
    "no dir": lambda w, a, t: w.write_file(a["d51"], os.path.join(t, "none", "x.arxml")),
    "no writer": lambda w, a, t: w.write_str_elem(object()),
    "empty": lambda w, a, t: w.write_str(b.ar_document.Document()),
}
READER_OPS = {
    "v51": lambda r, a, t: r.read_str(TEXTS["v51"]),
    "v48": lambda r, a, t: r.read_str(TEXTS["v48"]),
    "bare": lambda r, a, t: r.read_str(TEXTS["bare"]),
    "bare48": lambda r, a, t: r.read_str(TEXTS["bare48"]),
    "odd": lambda r, a, t: r.read_str(TEXTS["odd"]),
    "bad": lambda r, a, t: r.read_str(TEXTS["bad"]),
    "bad stop": lambda r, a, t: r.read_str(TEXTS["bad"], True),
    "dup stop": lambda r, a, t: r.read_str(TEXTS["dup"], True),
    "broken": lambda r, a, t: r.read_str(TEXTS["broken"]),
    "file odd": lambda r, a, t: r.read_file(os.path.join(t, "odd.arxml")),
    "file 48": lambda r, a, t: r.read_file(os.path.join(t, "v48.arxml")),
    "file bad": lambda r, a, t: r.read_file(os.path.join(t, "bad.arxml"), True),
    "no file": lambda r, a, t: r.read_file(os.path.join(t, "none.arxml")),
    "elem": lambda r, a, t: r.read_str_elem(ODD2),
    "elem run": lambda r, a, t: r.read_str_elem(a["run text"]),
    "elem bad": lambda r, a, t: r.read_str_elem(BAD),
    "no reader": lambda r, a, t: r.read_str_elem(ODD),
}
CONFIGS = {"writer": [{}, {"schema_version": 48}],
           "reader": [{}, {"schema_version": 48}, {"warn_on_unprocessed_element": False},
                      {"use_full_path_on_warning": True}]}


def to_file(func, obj, tmp):
    """Written content, or the exception; the file must be closed and complete in either case"""
    path = os.path.join(tmp, "out.arxml")
    before = set(os.listdir("/proc/self/fd"))
    try:
        func(obj, path)
    finally:
        left = {os.path.realpath(f"/proc/self/fd/{n}") for n in set(os.listdir("/proc/self/fd")) - before}
        if path in left:
            raise AssertionError("file is left open")   # pylint: disable=lost-exception
    with open(path, encoding="utf-8", newline="") as fh:
        return fh.read()


def arguments(kind):
    if kind == "reader":
        return {"run text": spec.to_xml(spec.ser(RUN, None, 51))}
    return {"d51": doc_of(51, UNIT, SWC), "d48": doc_of(48, SWC, BASE), "bad": broken_doc(),
            "run": b.build(RUN), "unit": b.build(UNIT),
            "proto": b.build({"c": "VariableDataPrototype", "p": {"name": "Data"}})}


def make(kind, config):
    cls = b.ar_writer.Writer if kind == "writer" else b.ar_reader.Reader
    return cls(**CONFIGS[kind][config])


def outcome(kind, op, inst, args, tmp):
    """-> (comparable outcome, returned object)"""
    func = (WRITER_OPS if kind == "writer" else READER_OPS)[op]
    (res, ex), out, err = quiet(attempt, func, inst, args, tmp)
    if ex is not None:
        return (type(ex).__name__, str(ex), out, err), None
    return (b.snapshot(res), out, err), res


_reference = {}


def reference(kind, config, op, tmp):
    key = (kind, config, op)
    if key not in _reference:
        first, _ = outcome(kind, op, make(kind, config), arguments(kind), tmp)
        _reference[key] = first
    return _reference[key]


_arguments = {}


def prepared(who, tmp):
    """An operation of a fresh instance, ready to be run in a thread"""
    kind, _, op = who
    if kind not in _arguments:
        _arguments[kind] = arguments(kind)
    if not os.path.exists(tmp):
        os.mkdir(tmp)
        files(tmp)
    func = (WRITER_OPS if kind == "writer" else READER_OPS)[op]
    args = _arguments[kind]
    return lambda inst: func(inst, args, tmp)


@contextlib.contextmanager
def scratch():
    """One folder for all the schedules of a group"""
    if _scratch:
        yield _scratch[0]
    else:
        with tempfile.TemporaryDirectory() as tmp:
            _scratch.append(tmp)
            yield tmp
            _scratch.clear()


_scratch = []


def in_threads(first, second):
    """Yields the functions of two operations; the instance of the first one has been made already"""
    with scratch() as tmp:
        one, two = prepared(first, os.path.join(tmp, "one")), prepared(second, os.path.join(tmp, "two"))
        inst = make(*first[:2])
        yield lambda: one(inst), lambda: two(make(*second[:2]))


def judge_threads(data):
    """Two instances at work in two threads: each gives what it gives alone"""
    first, second = data["one"], data["two"]
    for one, two in in_threads(first, second):
        got = interleave.execute(one, two, data["at"], data["then"], data["then"] is not None)
        for who, (res, out, err) in zip((first, second), got):
            want = _reference.get(tuple(who)) or alone(who)
            got = (b.snapshot(res[1]), out, err) if res[0] == "result" else (*res[1:], out, err)
            if normal(got) != normal(want):
                return f"{' '.join(map(str, who))} gives {str(got)[:250]} instead of {str(want)[:250]}"
    return None


def alone(who):
    with tempfile.TemporaryDirectory() as tmp:
        files(tmp)
        return reference(*who, tmp)


def judge(data):
    if data["kind"] == "object":
        return judge_object(data["class"])
    if data["kind"] == "threads":
        return judge_threads(data)
    kind, config = data["kind"], data["config"]
    with tempfile.TemporaryDirectory() as tmp:
        # one directory name in all messages
        files(tmp)
        args = arguments(kind)
        snaps = {k: b.snapshot(v) for k, v in args.items()} if kind == "writer" else {}
        inst = make(kind, config)
        returned = []
        for n, op in enumerate(data["ops"]):
            want = reference(kind, config, op, tmp)
            got, res = outcome(kind, op, inst, args, tmp)
            if normal(got) != normal(want):
                return f"step {n} ({op}): {str(got)[:250]} instead of {str(want)[:250]}"
            if res is not None:
                returned.append((n, op, res, b.snapshot(res)))
        for k, s in snaps.items():
            if b.snapshot(args[k]) != s:
                return f"argument {k} was changed"
        for n, op, res, s in returned:
            if b.snapshot(res) != s:
                return f"result of step {n} ({op}) was changed by a later step"
        ids = [id(res) for _, _, res, _ in returned if not isinstance(res, str)]
        if len(ids) != len(set(ids)):
            return "one object was returned twice"
    return None


def normal(out):
    import re
    return re.sub(r"/[^ ():']*/(?=[\w.]*(arxml|x))", "DIR/", str(out))


def judge_arguments(cname, p):
    """The lists given to a constructor stay with the caller: neither changed nor part of the object"""
    kwargs = {}
    for row in b.SPEC[cname].all_rows():
        if row.param in p and row.codec not in ("setobj", "setlist", "append") and \
                not (cname == "SwcModeSwitchEvent" and row.param == "mode"):
            kwargs[row.param] = b.pyval(p[row.param])
            if row.param + "_type" in p:
                kwargs[row.param + "_type"] = b.pyval(p[row.param + "_type"])
    given = {k: list(v) for k, v in kwargs.items() if isinstance(v, list)}
    one = getattr(ar, cname)(**kwargs)
    two = getattr(ar, cname)(**{k: list(v) if isinstance(v, list) else v for k, v in kwargs.items()})
    snap = b.snapshot(two)
    for name, items in given.items():
        if len(items) != len(kwargs[name]) or any(x is not y for x, y in zip(items, kwargs[name])):
            return f"the constructor changed the list given for {name}"
        kwargs[name].clear()
    if b.snapshot(one) != snap:
        return f"the object changes when one of the lists {sorted(given)} does that was given to its constructor"
    return None


def judge_object(cname):
    """No state shared between objects of a class; writing does not change an object"""
    for label in ("min", "full"):
        p = (b.full if label == "full" else b.minimal)(cname)["p"]
        one, two = b.build(ordered(cname, p)), b.build(ordered(cname, p))
        snap = b.snapshot(two)
        for name, val in vars(one).items():
            other = getattr(two, name, None)
            if isinstance(val, (list, dict, set)) and val is other:
                return f"{name} is shared by two objects"
            if isinstance(val, ar.ARObject) and val is other:
                return f"{name} is shared by two objects"
            if isinstance(val, list):
                val.append("x")
            elif isinstance(val, dict):
                val["x"] = 1
        if b.snapshot(two) != snap:
            return "changing one object changed the other"
        msg = judge_arguments(cname, p)
        if msg:
            return msg
        top = b.make_document([b.embed(cname, ordered(cname, p))], 51)
        snap = b.snapshot(top)
        text = b.ar_writer.Writer().write_str(top)
        if b.snapshot(top) != snap:
            return "writing changed the document"
        if b.ar_writer.Writer().write_str(top) != text:
            return "writing twice gives different text"
    return None


def groups(thorough):
    out = [("object", c) for c in b.PATHS]
    for kind, ops in (("writer", WRITER_OPS), ("reader", READER_OPS)):
        for config in range(len(CONFIGS[kind])):
            out += [(kind, config, op) for op in ops]
    return out + [("threads", one, two, calls) for one, two, calls in pairs(thorough)]


# operations that meet in two threads; every one is preempted at every line by those in OTHERS
OTHERS = [("writer", 0, "file51"), ("writer", 1, "str48"), ("writer", 0, "str fails"),
          ("reader", 0, "odd"), ("reader", 3, "bad"), ("reader", 0, "elem run")]


def pairs(thorough):
    """-> (first, second, bound two)"""
    every = [*(("writer", 0, op) for op in WRITER_OPS), *(("reader", 0, op) for op in READER_OPS)]
    for one in every:
        for two in OTHERS:
            if one[0] == two[0] or thorough:
                yield one, two, False
    if thorough:
        for one, two in ((0, 1), (3, 4), (0, 3)):
            yield OTHERS[one], OTHERS[two], True


def gen_threads(first, second, calls):
    if not TEXTS:
        with tempfile.TemporaryDirectory() as tmp:
            files(tmp)
    name = " + ".join(f"{'/'.join(map(str, who))}" for who in (first, second))
    with scratch():
        for one, two in in_threads(first, second):
            lengths = interleave.length(one, calls), interleave.length(two, calls)
        for k in range(lengths[0]):
            for j in range(lengths[1]) if calls else [None]:
                yield (f"threads {name} at {k}{'' if j is None else f', {j}'}",
                       {"kind": "threads", "one": first, "two": second, "at": k, "then": j},
                       "threads", 2 + bool(calls))


def gen(group, thorough):
    if group[0] == "object":
        yield group[1], {"kind": "object", "class": group[1]}, "object", 4
        return
    if group[0] == "threads":
        yield from gen_threads(*group[1:])
        return
    kind, config, first = group
    ops = list(WRITER_OPS if kind == "writer" else READER_OPS)
    depth = 4 if thorough and config == 0 else 3
    for other in ops:            # one instance that has been used for long
        for n in (12, 40) if not thorough else (12, 40, 110, 260):
            seq = [first] * n + [other]
            yield (f"{kind}{CONFIGS[kind][config] or ''}: {n} x {first} > {other}",
                   {"kind": kind, "config": config, "ops": seq}, kind, n + 1)
    yield (f"{kind}{CONFIGS[kind][config] or ''}: {first} and all others ten times",
           {"kind": kind, "config": config, "ops": [first, *ops * 10]}, kind, 10 * len(ops))
    # maximal sequences only: every shorter one is a prefix of one of them
    for rest in itertools.product(ops, repeat=depth - 1):
        seq = [first, *rest]
        yield (f"{kind}{CONFIGS[kind][config] or ''}: {' > '.join(seq)}",
               {"kind": kind, "config": config, "ops": seq}, kind, depth)


assert SPEC and ar_enum
run("C10", groups, gen, judge,
    extra={"writer_operations": list(WRITER_OPS), "reader_operations": list(READER_OPS)},
    assumptions=["operations are deterministic functions of their arguments and the state of one instance",
                 "sequences of 3 operations (thorough: 4) from the listed alphabet, every operation after 12 or 40 "
                 "(thorough: 260) times the same one",
                 "two threads, each with an instance of its own; one preemption before any executed line of the library "
                 "(thorough: two at calls)"])
