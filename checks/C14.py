"""
C14: a wrong argument never leads to a wrong document.  Whatever is given for any parameter of any
element, it is refused with an error when the element is made or when it is written, or it is in
the written document, and the document can be read and written again without change.  A reference is
accepted exactly where the schema allows its DEST.
"""
import math
import re

import autosar.xml.document as ar_document
import autosar.xml.element as ar
import autosar.xml.enumeration as ar_enum
import autosar.xml.reader as ar_reader
import autosar.xml.writer as ar_writer
from mc import build as b
from mc.cases import ordered
from mc.harness import attempt, quiet, run
from mc.spec import REFS, SPEC


class Anything:
    """An object no part of the library knows"""


def pool():
    return {
        "object": Anything(), "class": Anything, "function": len, "int": 7, "negative": -1, "zero": 0, "big": 2 ** 70,
        "float": 1.5, "whole float": 2.0, "nan": math.nan, "inf": math.inf, "true": True, "false": False, "str": "x",
        "number str": "7", "blank": " ", "comma": "1,5", "hex str": "0x1F", "yes": "yes", "false str": "false", "TRUE str": "TRUE",
        "spaced": " 7 ", "digits": "1_000", "units": "12 ms", "float str": "2.50", "infinite": "-INF", "markup": "<a>&amp;", "bytes": b"x", "complex": 1j, "enum": ar_enum.Language.EN,
        "other enum": ar_enum.ByteOrder.OPAQUE, "package": ar.Package("P"), "unit": ar.Unit("U"),
        "empty object": ar.Annotation(), "long name": ar.MultilanguageLongName((ar_enum.Language.EN, "t")),
        "value": ar.NumericalValueSpecification("l", 3), "behavior": ar.SwcInternalBehavior("B"),
        "list": [Anything()], "ints": [1, 2], "strs": ["a", "b"], "nones": [None], "objects": [ar.Package("P")],
        "nested": [[1]], "tuple": (1, 2), "tuple 3": ("a", "b", "c"), "set": {1}, "dict": {"a": 1}, "none dict": {},
        "generator": iter(()), "range": range(2),
    }


REF_POOL = [(name, dest) for name in sorted(REFS) for dest in sorted(REFS[name])]
_pyval = b.pyval


def pyval(d):
    if isinstance(d, dict) and "raw" in d:
        return pool()[d["raw"]]
    return _pyval(d)


b.pyval = pyval


def text_of(desc):
    """-> (text, None) or (None, (stage, exception))"""
    obj, ex = attempt(b.build, b.embed(desc["c"], desc) if desc["c"] != "Package" else desc)
    if ex is not None:
        return None, ("construction", ex)
    doc = ar_document.Document(schema_version=51)
    holder = doc if desc["c"] == "Package" else doc.create_package("Pkg")
    _, ex = attempt(holder.append, obj)
    if ex is not None:
        return None, ("adding it", ex)
    res, ex = attempt(quiet, ar_writer.Writer().write_str, doc, True)
    if ex is not None:
        return None, ("writing", ex)
    return res[0], None


def judge(data):
    c, param, base = data["c"], data["param"], data["base"]
    where = f"{c}({param}={data['what']})"
    if "ref" in data:
        return judge_ref(data, where)
    text, refused = text_of({"c": c, "p": {**base, param: {"raw": data["raw"]}}})
    if refused:
        return None
    without, _ = text_of(ordered(c, base))
    value = pool()[data["raw"]]
    if isinstance(value, (str, int, float)) and not isinstance(value, bool) and data["codec"] != "bool" and not said(value, text, without):
        return f"{where} accepted, but the written document does not say {value!r}"
    if text == without:
        if data["raw"] in EMPTY:
            return None
        return f"{where} accepted, but the written document is the one without it"
    if isinstance(value, str):                 # numbers may be written another way, if they stay the same
        res, ex = attempt(quiet, ar_reader.Reader().read_str, text)
        res, ex = (None, ex) if ex is not None else attempt(quiet, ar_writer.Writer().write_str, res[0], True)
        if ex is None and said(value, res[0], without):
            text = res[0]
    return again(text, where)


def said(value, text, without):
    """Is a text or number, or the number or truth value it stands for, in what is written more?"""
    value = str(value)
    lines = (without or "").splitlines()
    more = [x for x in text.splitlines() if x not in lines or lines.remove(x)]
    if value.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;") in "\n".join(more):
        return True
    for word in re.findall("[^<>\"]+", " ".join(more)):
        for kind in (float, lambda x: int(x, 0), lambda x: {"true": True, "false": False, "1": True, "0": False}[x.strip().lower()]):
            have, want = attempt(kind, word)[0], attempt(kind, value)[0]
            if have is not None and have == want:
                return True
    return value == "nan" and "NaN" in text or value.lower() in text


EMPTY = {"none dict", "generator"}


def again(text, where):
    res, ex = attempt(quiet, ar_reader.Reader().read_str, text)
    if ex is not None:
        return f"{where} accepted and written, but the document cannot be read: {ex!r}"
    doc, out, err = res
    if out or err:
        return f"{where} accepted and written, but reading it complains: {(out + err)[:200]}"
    res, ex = attempt(quiet, ar_writer.Writer().write_str, doc, True)
    if ex is not None:
        return f"{where} accepted, written and read, but cannot be written again: {ex!r}"
    if res[0] != text:
        line = next((a + " became " + z for a, z in zip(text.splitlines(), res[0].splitlines()) if a != z), "length")
        return f"{where} accepted and written, but reading changes the document: {line}"
    return None


def judge_ref(data, where):
    c, param, base = data["c"], data["param"], data["base"]
    name, dest = data["ref"]
    d = b.ref_desc(name, dest, "/Pkg/Target")
    value = [d] if data["list"] else d
    accepted = dest in REFS[data["accepts"]]
    text, refused = text_of({"c": c, "p": {**base, param: value}})
    if refused:
        if accepted and name == data["accepts"]:
            return f"{where} refused at {refused[0]}: {refused[1]!r}"
        return None
    if not accepted:
        return f"{where} accepted, but the schema allows only {', '.join(REFS[data['accepts']])} here"
    want, _ = text_of({"c": c, "p": {**base, param: [b.ref_desc(data["accepts"], dest)] if data["list"]
                                     else b.ref_desc(data["accepts"], dest)}})
    if text != want:
        return f"{where}: written differently from the same reference as {data['accepts']}"
    return again(text, where)


def ref_params(c):
    for row in SPEC[c].all_rows():
        if row.codec == "ref":
            yield row.param, row.args[0], False
        elif row.codec == "list" and row.args[1] == "ref":
            yield row.param, row.args[2], True


def bases(c, param):
    out = [("min", {k: v for k, v in b.minimal(c)["p"].items() if k != param})]
    full = {k: v for k, v in b.full(c)["p"].items() if k not in (param, param + "_type")}
    if full != out[0][1]:
        out.append(("full", full))
    return out


def groups(thorough):
    return sorted(c for c in SPEC if c in b.PATHS)


def cases(c, thorough):
    for row in SPEC[c].all_rows():
        if row.codec in ("setobj", "setlist", "append"):
            continue
        for bname, base in bases(c, row.param):
            for name in pool():
                yield (f"{c}.{row.param} {name} {bname}",
                       {"c": c, "param": row.param, "base": base, "raw": name, "what": name, "codec": row.codec}, row.codec[:12], 3)
    for param, accepts, in_list in ref_params(c):
        for bname, base in bases(c, param)[:2 if thorough else 1]:
            for name, dest in REF_POOL:
                yield (f"{c}.{param} {name} {dest} {bname}",
                       {"c": c, "param": param, "base": base, "ref": (name, dest), "accepts": accepts, "list": in_list,
                        "what": f"{name} to {dest}"}, "ref class", 3)


if __name__ == "__main__":
    run("C14", groups, cases, judge,
        assumptions=["empty strings are not told apart from settings that were not made"])
