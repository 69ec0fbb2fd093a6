"""
Numeric fidelity: every number of a boundary lattice at every numeric place of
the schema, in every output format.
  W  written literal is a legal AUTOSAR literal and denotes exactly the number
  RT reading the document back gives exactly the number (integers stay integers)
  R  every alternative spelling of the number is read as the number
  N  text that is no number is reported
"""
import json
import math
import re
import sys
from fractions import Fraction

from mc import build as b
from mc import rt, sites, spec
from mc.core import Check, Part, guarded
from mc.spec import SPEC
from mc.cases import ordered

b.LOOSE_NUMBERS = True
INT_RE = re.compile(r"[+\-]?(0|[1-9][0-9]*)|0[xX][0-9a-fA-F]+|0[bB][01]+")
NUM_RE = re.compile(r"[+\-]?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+\-]?[0-9]+)?|0[xX][0-9a-fA-F]+|0[bB][01]+|-?INF|NaN")
WRITER, READER = b.ar_writer.Writer(), b.ar_reader.Reader()       # used for all numbers
FORMATS = ("DEFAULT", "DECIMAL", "HEXADECIMAL", "BINARY", "SCIENTIFIC")


def int_values(thorough):
    out = {0, 7, 10, 99, 100, 1000, 123456789, 10 ** 15, 10 ** 28, 10 ** 29 + 7}
    for k in (range(0, 130) if thorough else (1, 7, 8, 15, 16, 31, 32, 53, 62, 63, 64, 65, 100)):
        out |= {2 ** k - 1, 2 ** k, 2 ** k + 1}
    for k in range(0, 40 if thorough else 8):
        out.add(10 ** k)
    return sorted(out)


def float_values(thorough):
    out = {0.5, 0.1, 1.0, 1 / 3, 2 / 3, 0.3, 1e-9, 2.5e-5, 0.0001, 0.00001, 100.0, 1e15, 1e16, 1e17, 1e21, 1e22, 1e23,
           1e27, 1e28, 1e29, 1e300, 2.0 ** 53, 2.0 ** 53 + 2, 2.0 ** 63, 123456789.125, 1234567.875, 1e-300, 5e-324,
           sys.float_info.max, sys.float_info.min, sys.float_info.epsilon, 1 + sys.float_info.epsilon,
           9.999999999999999e22, 1.7976931348623155e308, 0.1 + 0.2, 3.0e10, 65535.99999999999}
    ms = (1.0, 1.5, 2.25, 9.999999999999999, 4.35) if thorough else (1.0, 4.35)
    for e in (range(-310, 308) if thorough else range(-30, 36, 3)):
        for m in ms:
            out.add(float(f"{m!r}e{e}"))
    return sorted(x for x in out if x)


def special(kind):
    if kind in ("vlist", "constval", "limit"):
        return [float("inf"), float("-inf")] + ([float("nan")] if kind == "vlist" else [])
    return []


def num_sites():
    """(class, param, kind)"""
    out = []
    for cname in b.PATHS:
        for row in SPEC[cname].rows:
            if row.codec in ("int", "num", "float", "limit", "constval", "vlist", "align"):
                out.append((cname, row.param, row.codec))
            elif row.codec in ("list", "setlist") and row.args[1] in ("num", "int"):
                out.append((cname, row.param, "list"))
    return out


def value_of(kind, v, fmt):
    x = v
    if fmt != "DEFAULT":
        x = {"nv": v, "f": fmt}
    return [x] if kind in ("vlist", "list") else x


def place(site, v, fmt="DEFAULT"):
    cname, param, kind = site
    d = b.minimal(cname)
    d["p"][param] = value_of(kind, v, fmt)
    return b.embed(cname, ordered(cname, d["p"]))


MARK_VALUE = 424242


def literal_path(site):
    """The literal written for MARK_VALUE tells where the number appears: find it by position in the tree"""
    node = b.package_node([place(site, MARK_VALUE)], 51)
    path = []

    def walk(n, trail):
        if n.kind == "num" and n.value == MARK_VALUE:
            path.append(list(trail))
        for i, c in enumerate(n.children):
            if not isinstance(c, str):
                walk(c, trail + [i])
    walk(node, [])
    assert len(path) == 1, (site, path)
    return path[0]


def exact(text):
    t = text.strip()
    if t in ("INF", "-INF", "NaN"):
        return t
    if t[:2].lower() in ("0x", "0b"):
        return Fraction(int(t, 0))
    return Fraction(t)


def same_float(text, v):
    """literal denotes the number: exactly for integers, to the same double for floats"""
    if isinstance(v, float):
        if math.isinf(v):
            return text == ("INF" if v > 0 else "-INF")
        if math.isnan(v):
            return text == "NaN"
        return float(exact(text)) == v
    return exact(text) == v


def stored(site, v):
    """The number as the element holds it (some settings are declared float)"""
    if isinstance(v, int):
        cname, param, kind = site
        d = b.minimal(cname)
        d["p"][param] = value_of(kind, v, "DEFAULT")
        if isinstance(getattr(b.build(d), param), float):
            return float(v)
    return v


def lexical(site, text):
    pat = INT_RE if site[2] in ("int", "align") else NUM_RE
    return pat.fullmatch(text) is not None


def check_write(site, v, fmt):
    d = place(site, v, fmt)
    doc = b.make_document([d], 51)
    text, _ = rt.quiet(lambda: WRITER.write_str(doc, False))
    node = b.parse(text)[0][0]
    for i in literal_path(site):
        node = node[i]
    lit = node.text or ""
    if not lexical(site, lit):
        return f"{v!r} ({fmt}) was written as {lit!r}, not a legal literal"
    if not same_float(lit, stored(site, v)):
        return f"{v!r} ({fmt}) was written as {lit!r}, a different number"
    if fmt == "HEXADECIMAL" and isinstance(v, int) and v >= 0 and not lit.lower().startswith("0x"):
        return f"{v!r} ({fmt}) was written as {lit!r}"
    if fmt == "BINARY" and isinstance(v, int) and v >= 0 and not lit.lower().startswith("0b"):
        return f"{v!r} ({fmt}) was written as {lit!r}"
    back, out = rt.quiet(READER.read_str, text)
    b.INTS_STAY = fmt != "SCIENTIFIC"      # 127 is 1.27e+02, if asked for
    m = b.diff_values(doc.packages, back.packages, "packages")
    b.INTS_STAY = True
    return m or (f"reading printed {out[:100]}" if out else None)


def spellings(site, v):
    kind = site[2]
    if isinstance(v, int) and not isinstance(v, bool):
        out = [str(v)]
        if v >= 0:
            if kind != "float":
                out += [f"0x{v:x}", f"0x{v:X}", f"0X{v:X}", f"0b{v:b}"] + ([f"0{v:o}"])
            out.append(f"+{v}")
        if kind not in ("int", "align") and v < 2 ** 53:
            out += [f"{v}.0", f"{v}.000", f"{v}e0", f"{v}E+0"]
        return out
    if math.isinf(v):
        return ["INF" if v > 0 else "-INF"]
    if math.isnan(v):
        return ["NaN"]
    return [repr(v), repr(v).upper(), f"{v:.17e}", f"{v:.17E}"]


def check_read(site, v):
    frame = spec.document(spec.to_xml(b.package_node([place(site, MARK_VALUE)], 51)), 51)
    expect = b.make_document([place(site, v)], 51)
    assert frame.count(f">{MARK_VALUE}<") == 1
    for s in spellings(site, v):
        back, out = rt.quiet(b.ar_reader.Reader().read_str, frame.replace(f">{MARK_VALUE}<", f">{s}<"))
        b.INTS_STAY = s.isdigit() or s[1:2] in "xXbB"
        m = b.diff_values(expect.packages, back.packages, "packages")
        b.INTS_STAY = True
        if m or out:
            return f"literal {s!r}: {m or ''} {out[:150]}"
    return None


# no number in any of these; "reported" means with a message, not with an error of the whole document
WRONG = ["1,5", "1 5", "1_000", "abc", "0x", "0xG", "0b2", "0b", "1.5.2", "--1", "1e", "\u0663", "\uff11", "true", "1f", "1L",
         "1e5.5", ".", "+", "-", "e5", "0x1.8p3", "0x_1", "- 5", "1.5e", "None", "5;", "1..2", "1e+", "#5", "1:2", "(5)", "5%",
         "\u00bd", "\u221e", "1'000", "1.000,5", "0y1", "INFI", "-NaNs", "false", "0x0x1", "five", "1/2", "2*3", "\u00b2",
         "1_0.5", "1e1_0", "5 kg", "$", "0.5_5", "\u0661.\u0665"]
WRONG_INT = ["1.5", "1e-1", "INF", "-INF", "NaN", "0.1"]


def check_wrong(site, text):
    frame = spec.document(spec.to_xml(b.package_node([place(site, MARK_VALUE)], 51)), 51)
    assert frame.count(f">{MARK_VALUE}<") == 1
    back, out = rt.quiet(b.ar_reader.Reader().read_str, frame.replace(f">{MARK_VALUE}<", f">{text}<"))
    whole = b.make_document([place(site, MARK_VALUE)], 51)
    if not out:
        return f"{text!r} is taken for a number without a message"
    found = [e.name for e in back.packages[0].elements]
    if len(found) >= len(whole.packages[0].elements):
        return f"{text!r} is reported, but all of {found} are there"
    return None


def wrong_texts(site):
    if site[2] == "align":
        return [t for t in WRONG if t != "0x"]     # the schema allows it (as text) for alignments
    return WRONG + (WRONG_INT if site[2] == "int" else [])


def bool_sites():
    return [(c, r.param, "bool") for c in b.PATHS for r in SPEC[c].rows if r.codec == "bool"]


def bool_place(site, v):
    d = b.minimal(site[0])
    d["p"][site[1]] = v
    return b.embed(site[0], ordered(site[0], d["p"]))


def check_bool(site, v, text):
    tag = SPEC[site[0]].row(site[1]).xml
    frame = spec.document(spec.to_xml(b.package_node([bool_place(site, v)], 51)), 51)
    lit = "true" if v else "false"
    assert frame.count(f"<{tag}>{lit}</{tag}>") == 1
    frame = frame.replace(f"<{tag}>{lit}</{tag}>", f"<{tag}>{text}</{tag}>")
    expect = b.make_document([bool_place(site, v)], 51)
    back, out = rt.quiet(b.ar_reader.Reader().read_str, frame)
    m = b.diff_values(expect.packages, back.packages, "packages")
    return f"spelled {text}: {m} {out[:100]}" if m or out else None


def site_values(site, thorough):
    kind = site[2]
    ints = int_values(thorough)
    if kind in ("int", "align") or site[0] == "ValueList":
        return ints[1:] if kind == "align" else ints
    # numbers that Python takes for equal to another kind of number are written before that
    vals = [2.0 ** 100, -2.0 ** 100] + ints + [-x for x in ints if x] + [x for f in float_values(thorough) for x in (f, -f)] + [0.0, -0.0]
    return vals + special(kind)


def formats(site):
    return FORMATS if site[2] == "vlist" else ("DEFAULT",)


def worker(task):
    site, thorough, k, n = task
    part = Part()
    for v in site_values(site, thorough)[k::n]:
        for fmt in formats(site):
            msg = guarded(check_write, site, v, fmt)
            part.count(1, 2, 1)
            part.outcome("ok" if msg is None else "violation")
            if msg:
                part.violation(f"{site[0]}.{site[1]}:write:{v!r}:{fmt}", msg, {"site": site, "v": repr(v), "fmt": fmt})
        msg = guarded(check_read, site, v)
        part.count(1, len(spellings(site, v)), 1)
        part.outcome("ok" if msg is None else "violation")
        if msg:
            part.violation(f"{site[0]}.{site[1]}:read:{v!r}", msg, {"site": site, "v": repr(v), "fmt": None})
    if k == 0:
        for text in wrong_texts(site):
            msg = guarded(check_wrong, site, text)
            part.count(1, 1, 1)
            part.outcome("no number" if msg is None else "violation")
            if msg:
                part.violation(f"{site[0]}.{site[1]}:wrong:{text!r}", msg, {"site": site, "wrong": text})
    part.sample({"site": site, "values": len(site_values(site, thorough))})
    return part.d


def main():
    check = Check("C05")
    if check.args.replay:
        item = json.load(open(check.args.replay, encoding="utf-8"))
        d = item["data"]
        site = tuple(d["site"])
        if "wrong" in d:
            msg = guarded(check_wrong, site, d["wrong"])
            check.count(1, 1, 1)
            if msg:
                check.violation(item["key"], msg, d)
            check.finish()
        v = eval(d["v"], {"inf": float("inf"), "nan": float("nan")})   # pylint: disable=eval-used
        if d.get("bool"):
            msg = guarded(check_bool, site, v, d["text"])
            check.count(1, 1, 1)
            if msg:
                check.violation(item["key"], msg, d)
            check.finish()
        msg = guarded(check_write, site, v, d["fmt"]) if d["fmt"] else guarded(check_read, site, v)
        check.count(1, 1, 1)
        if msg:
            check.violation(item["key"], msg, d)
        check.finish()
    for row_site in bool_sites():
        for v in (True, False):
            for text in (("true", "1") if v else ("false", "0")):
                msg = guarded(check_bool, row_site, v, text)
                check.count(1, 1, 1)
                check.outcome("ok" if msg is None else "violation")
                if msg:
                    check.violation(f"{row_site[0]}.{row_site[1]}:bool:{text}", msg,
                                    {"bool": True, "site": row_site, "v": repr(v), "text": text})
    n = 8 if check.thorough else 1
    ss = num_sites()
    check.run_parallel(worker, [(s, check.thorough, k, n) for s in ss for k in range(n)])
    check.extra["numeric_sites"] = len(ss)
    check.extra["integers"] = len(int_values(check.thorough))
    check.extra["floats"] = len(float_values(check.thorough))
    check.assumptions.append("numbers between the lattice points behave like their neighbours")
    check.finish()


assert sites
if __name__ == "__main__":
    main()
