"""
Enumerations: spelling tables are a bijection in every schema version, at every
place of the schema, and wrong spellings are never taken for a value.
"""
import json

import autosar.xml.enumeration as ar_enum
from mc import build as b
from mc import rt, spec
from mc.core import Check, Part, exc_str, guarded
from mc.spec import ENUMS, SPEC
from mc.cases import ordered

SINCE = {"ArrayImplPolicy": 49}     # first schema version of the values
# second spelling that the schema itself defines
ALIASES = {"CalibrationAxisCategory": {"COM_AXIS": "COM_AXIS", "CURVE_AXIS": "CURVE_AXIS", "FIX_AXIS": "FIX_AXIS",
                                       "RES_AXIS": "RES_AXIS", "STD_AXIS": "STD_AXIS"}}
ALL_VERSIONS = (48, 49, 50, 51)


def direct(enum):
    """-> list of (key, msg), states"""
    out, n = [], 0
    cls = getattr(ar_enum, enum)
    table = ENUMS[enum]
    if len(set(table.values())) != len(table):
        raise AssertionError(enum)
    for member, xml in table.items():
        item = getattr(cls, member)
        if item.name != member:
            out.append((f"{enum}.{member}:alias", f"is an alias of {item.name}"))
        for ver in ALL_VERSIONS:
            n += 2
            valid = ver >= SINCE.get(enum, 0)
            for what, func, want in (("to_xml", lambda: ar_enum.enum_to_xml(item, ver), xml),
                                     ("from_xml", lambda: ar_enum.xml_to_enum(enum, xml, ver), item)):
                try:
                    got = func()
                except Exception as ex:   # pylint: disable=broad-except
                    if valid:
                        out.append((f"{enum}.{member}:{what}@{ver}", "raised " + exc_str(ex)))
                    continue
                if not valid:
                    out.append((f"{enum}.{member}:{what}@{ver}", f"gives {got!r} though not available in this version"))
                elif got is not want and got != want:
                    out.append((f"{enum}.{member}:{what}@{ver}", f"gives {got!r}, expected {want!r}"))
    for alias, member in ALIASES.get(enum, {}).items():
        n += 1
        try:
            if ar_enum.xml_to_enum(enum, alias) != getattr(cls, member):
                out.append((f"{enum}:alias {alias}", "maps to another value"))
        except Exception as ex:   # pylint: disable=broad-except
            out.append((f"{enum}:alias {alias}", "raised " + exc_str(ex)))
    for bad in bad_spellings(enum):
        for ver in ALL_VERSIONS:
            n += 1
            try:
                got = ar_enum.xml_to_enum(enum, bad, ver)
            except Exception:   # pylint: disable=broad-except
                continue
            out.append((f"{enum}:unknown {bad!r}@{ver}", f"is accepted as {got!r}"))
    return out, n


def bad_spellings(enum):
    good = set(ENUMS[enum].values())
    bad = set()
    for g in good:
        bad |= {g.lower(), g.replace("-", "_"), g + "X", "X" + g, g[:-1], g[1:], g.title(), g + "-", "-" + g,
                g.replace("-", "")}
        m = [k for k, v in ENUMS[enum].items() if v == g][0]
        bad.add(m)
    for other in ENUMS:
        if other != enum:
            bad.add(next(iter(ENUMS[other].values())))
    bad |= {"", "0", "1", "None", "UNKNOWN", "TRUE"}
    return sorted(bad - good - set(ALIASES.get(enum, {})))


def enum_sites():
    out = [(c, r.param, r.args[0], r.xml) for c in b.PATHS for r in SPEC[c].rows if r.codec == "enum"]
    return out


def place(site, member):
    c, param, enum, _ = site
    d = b.minimal(c)
    d["p"][param] = {"e": f"{enum}.{member}"}
    return b.embed(c, ordered(c, d["p"]))


def at_site(site, member, ver):
    c, param, enum, xml = site
    d = place(site, member)
    for kind in ("write", "read", "roundtrip"):
        msg = rt.ORACLES[kind](d, ver)
        if msg:
            return f"{kind}: {msg}"
    return None


def bad_at_site(site, bad, ver):
    c, param, enum, xml = site
    member = next(iter(ENUMS[enum]))
    frame = spec.document(spec.to_xml(b.package_node([place(site, member)], ver)), ver)
    good = ENUMS[enum][member]
    old, new = ((f'{xml[1:]}="{good}"', f'{xml[1:]}="{bad}"') if xml.startswith("@")
                else (f"<{xml}>{good}</{xml}>", f"<{xml}>{bad}</{xml}>"))
    assert frame.count(old) >= 1, (site, frame)
    i = frame.rindex(old)
    frame = frame[:i] + new + frame[i + len(old):]
    try:
        back, out = rt.quiet(b.ar_reader.Reader().read_str, frame)
    except Exception:   # pylint: disable=broad-except
        return None     # rejected
    if not out.strip():
        return f"unknown spelling {bad!r} was accepted without any message"
    return None


def worker(task):
    kind, arg, thorough = task
    part = Part()
    if kind == "direct":
        out, n = direct(arg)
        part.count(n, n, n)
        part.outcome("table entries", n)
        for k, m in out:
            part.violation(k, m, {"kind": "direct", "enum": arg})
        return part.d
    enum = arg[2]
    for member in ENUMS[enum]:
        for ver in ALL_VERSIONS:
            if ver < SINCE.get(enum, 0):
                continue
            msg = guarded(at_site, arg, member, ver)
            part.count(1, 3, 1)
            part.outcome("ok" if msg is None else "violation")
            if msg:
                part.violation(f"{arg[0]}.{arg[1]}={member}@{ver}", msg,
                               {"kind": "site", "site": arg, "member": member, "ver": ver})
    bads = bad_spellings(enum)
    for bad in bads if thorough or len(bads) < 120 else bads[::6]:
        msg = guarded(bad_at_site, arg, bad, 51)
        part.count(1, 1, 1)
        part.outcome("rejected" if msg is None else "violation")
        if msg:
            part.violation(f"{arg[0]}.{arg[1]}:{bad!r}", msg, {"kind": "bad", "site": arg, "bad": bad})
    part.sample({"site": arg})
    return part.d


def main():
    check = Check("C06")
    if check.args.replay:
        item = json.load(open(check.args.replay, encoding="utf-8"))
        d = item["data"]
        check.count(1, 1, 1)
        if d["kind"] == "direct":
            for k, m in direct(d["enum"])[0]:
                if k == item["key"]:
                    check.violation(k, m, d)
        else:
            msg = (guarded(at_site, tuple(d["site"]), d["member"], d["ver"]) if d["kind"] == "site"
                   else guarded(bad_at_site, tuple(d["site"]), d["bad"], 51))
            if msg:
                check.violation(item["key"], msg, d)
        check.finish()
    ss = enum_sites()
    check.run_parallel(worker, [("direct", e, 0) for e in ENUMS] + [("site", s, check.thorough) for s in ss])
    check.extra["enumerations"] = len(ENUMS)
    check.extra["sites"] = len(ss)
    check.extra["schema_versions"] = list(ALL_VERSIONS)
    check.assumptions.append("spec/enums.json is the right spelling table")
    check.finish()


if __name__ == "__main__":
    main()
