"""
Driver for the checks that exhaustively explore every configuration of every
supported element class (mc.cases) through the real writer and reader:

  roundtrip   document -> text -> document is the identity
  write       text equals what the reference schema model prescribes
  read        text of the reference serializer is read as the intended object
"""
import contextlib
import io
import json

from mc import build as b
from mc import spec
from mc.cases import cases, deep_paths, long_cases, ordered
from mc.core import Part, guarded, limited
from mc.spec import SPEC

CHUNK = 150


def quiet(func, *args):
    """Run a library call, returning (result, captured output)"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        res = func(*args)
    return res, out.getvalue()


def oracle_roundtrip(top, ver):
    doc = b.make_document([top], ver)
    text, _ = quiet(lambda: b.ar_writer.Writer().write_str(doc, False))
    back, out = quiet(b.ar_reader.Reader().read_str, text)
    if back.schema_version != ver:
        return f"schema version {ver} became {back.schema_version}"
    d = b.diff_values(doc.packages, back.packages, "packages")
    if d:
        return d
    if out:
        return f"reading back printed: {out[:200]}"
    again, _ = quiet(lambda: b.ar_writer.Writer().write_str(back, False))
    if again != text:
        return "writing the read-back document gives a different text"
    return None


def oracle_write(top, ver):
    doc = b.make_document([top], ver)
    text, _ = quiet(lambda: b.ar_writer.Writer().write_str(doc, False))
    try:
        root = b.parse(text)
    except b.ElementTree.XMLSyntaxError as ex:
        return f"output is not well-formed XML: {ex}"
    if root.tag != b.NS + "AUTOSAR":
        return f"root element {root.tag}"
    packs = list(root)
    if len(packs) != 1 or packs[0].tag != b.NS + "AR-PACKAGES" or len(packs[0]) != 1:
        return "document does not hold exactly one package"
    return b.tree_diff(b.package_node([top], ver), packs[0][0])


def oracle_read(top, ver):
    text = spec.document(spec.to_xml(b.package_node([top], ver)), ver)
    back, out = quiet(b.ar_reader.Reader().read_str, text)
    if back.schema_version != ver:
        return f"schema version {ver} read as {back.schema_version}"
    doc = b.make_document([top], ver)
    d = b.diff_values(doc.packages, back.packages, "packages")
    if d:
        return d.replace(" became ", " was read as ")
    if out:
        return f"reading printed: {out[:200]}"
    return None


ORACLES = {"roundtrip": oracle_roundtrip, "write": oracle_write, "read": oracle_read}


def key_of(cname, label, ver):
    return f"{cname}:{label}@{ver}"


def run_one(kind, cname, p, ver, path=None):
    """-> violation message or None"""
    return guarded(lambda: ORACLES[kind](b.embed(cname, ordered(cname, p), path), ver))


def worker(task):
    kind, cname, start, thorough = task
    part = Part()
    for n, (label, p) in enumerate(cases(cname, thorough)):
        if not start <= n < start + CHUNK or limited.exhausted():
            continue
        if thorough or label in ("min", "full"):
            vers = b.VERSIONS
        elif label.startswith("min+") and label.count("+") == 1 and label.endswith("#0"):
            vers = b.VERSIONS
        else:
            vers = (51,)
        for ver in vers:
            if ver < 49 and "ArrayImplPolicy." in json.dumps(p):
                continue     # does not exist in that schema version
            msg = run_one(kind, cname, p, ver)
            part.count(states=1, transitions={"roundtrip": 3, "write": 1, "read": 1}[kind], traces=1)
            part.outcome("ok" if msg is None else "violation")
            if msg:
                part.violation(key_of(cname, label, ver), msg,
                               {"class": cname, "label": label, "params": p, "version": ver})
        if label == "full":
            part.sample({"class": cname, "label": label, "params": json.dumps(p)[:300]})
    return part.d


def host_worker(task):
    """Every (host, slot, child) containment of the schema, child fully set and bare"""
    kind, host, param, child = task
    part = Part()
    row = SPEC[host].row(param)
    path = b.PATHS[host] + [(host, row)]
    variants = [("min", b.minimal(child)["p"]), ("full", b.full(child)["p"])]
    for label, p in list(cases(child)):
        if label.startswith("min+") and label.count("+") == 1 and label.endswith("#0"):
            variants.append((label, p))
        elif label.startswith("full-"):
            variants.append((label, p))
    for label, p in variants:
        if limited.exhausted() or host == "PortInCompositionTypeInstanceRef" or child == "PortInCompositionTypeInstanceRef":
            continue
        msg = run_one(kind, child, p, 51, path)
        part.count(states=1, transitions=1, traces=1)
        part.outcome("ok" if msg is None else "violation")
        if msg:
            part.violation(f"{host}.{param}/{key_of(child, label, 51)}", msg,
                           {"class": child, "label": label, "params": p, "version": 51,
                            "host": host, "param": param})
    return part.d


def long_worker(task):
    """Long lists and deep nesting"""
    kind, cname, thorough = task
    part = Part()
    runs = [(label, p, None, 0) for label, p in long_cases(cname, thorough)]
    for n, path in deep_paths(cname, thorough):
        runs += [(f"deep {n} {label}", p, path, n) for label, p in (("min", b.minimal(cname)["p"]), ("full", b.full(cname)["p"]))]
    for label, p, path, deep in runs:
        if limited.exhausted():
            break
        msg = run_one(kind, cname, p, 51, path)
        part.count(states=1, transitions=1, traces=1)
        part.outcome("ok" if msg is None else "violation")
        if msg:
            part.violation(key_of(cname, label, 51), msg, {"class": cname, "label": label, "params": p, "version": 51, "deep": deep})
    return part.d


def replay(kind, data):
    path = None
    if data.get("deep"):
        path = dict(deep_paths(data["class"], True))[data["deep"]]
    if "host" in data:
        path = b.PATHS[data["host"]] + [(data["host"], SPEC[data["host"]].row(data["param"]))]
    return run_one(kind, data["class"], data["params"], data["version"], path)


def main(check, kind):
    if check.args.replay:
        with open(check.args.replay, encoding="utf-8") as fh:
            item = json.load(fh)
        msg = replay(kind, item["data"])
        check.count(states=1, transitions=1, traces=1)
        if msg:
            check.violation(item["key"], msg, item["data"])
        check.finish()
    tasks = []
    for cname in b.PATHS:
        n = sum(1 for _ in cases(cname, check.thorough))
        tasks += [(kind, cname, s, check.thorough) for s in range(0, n, CHUNK)]
    tasks.sort(key=lambda t: t[1] != "RunnableEntity")
    check.run_parallel(worker, tasks, 1)
    check.run_parallel(long_worker, [(kind, cname, check.thorough) for cname in b.PATHS], 1)
    hosts = sorted({(kind, h, r.param, c) for h, r, c in b.uses() if h in b.PATHS})
    check.run_parallel(host_worker, hosts, 4)
    check.extra["classes"] = len(b.PATHS)
    check.extra["containments"] = len(hosts)
    check.extra["schema_versions"] = list(b.VERSIONS)
    check.extra["exploration"] = (
        "per class: nothing set, every single parameter with every alternative of its alphabet, every pair "
        "(representatives; thorough: all alternatives, all triples), everything set, everything but one, "
        "everything with every alternative; every containment slot; lists of up to 101 (thorough: 257) items; elements of "
        "one kind nested up to 12 (24) times")
    check.assumptions.append(
        "reference schema spec/schema.txt, spec/enums.json, spec/refs.json is right about the AUTOSAR schema; "
        "values outside the alphabets and combinations beyond the deviation bound are not covered")
    check.finish()
