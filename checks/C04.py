"""
Text fidelity: every string over an alphabet of character classes, up to a
length, at every place of the schema that holds text.
  W  document -> text: well-formed, the text node/attribute equals the string
  R  text -> document: every XML spelling of the string (escaped, CDATA, character
     references, split by comments or processing instructions) is read as the string
  E  the same for documents in other encodings, read from a file or, decoded, from a string
"""
import itertools
import json
import os
import tempfile

from mc import build as b
from mc import rt, sites, spec
from mc.core import Check, Part, guarded

ALPHA = ["a", " ", "<", ">", "&", '"', "'", "]", "\u00e9", "\U0001F600", "\n", "\t", "\r", "%"]
WORDS = ["&amp;", "&#65;", "&lt;x&gt;", "<![CDATA[x]]>", "]]>", "<!-- c -->", "<?pi x?>", "5", "0x10", "true", "INF",
         "None", "%s", "{0}", "\\n", "a" * 300, "<SHORT-NAME>x</SHORT-NAME>", "</L-4>", "\u2028\u00a0", "\ue000",
         "\u0085", "a\n\n  b", "\"/>", "' x='1",
         "\u00a0a\u00a0", "\ufeffa\ufeff", "e\u0301\u212b", "\ufb01\u00b2\uff21", "\u0130I\u0131i\u00df", "\x7f\x80\u200b", "AbC-abc",
         "bc" * 5000, "\u3000", "a" * 9 + " " + "b" * 120 + " c", "-", "--", "$x ${x}", "\\", "/a//b/", "N/A", "nan", "[]", "()"]
NON_NUMERIC_SITES = ()


def strings(n):
    for k in range(1, n + 1):
        for t in itertools.product(ALPHA, repeat=k):
            yield "".join(t)


def spellings(s, attr):
    """Equivalent XML spellings of s"""
    out = [("escaped", spec.esc(s, attr)), ("charrefs", "".join(f"&#{ord(c)};" for c in s)),
           ("hexrefs", "".join(f"&#x{ord(c):X};" for c in s))]
    if attr:
        return out
    if "]]>" not in s and "\r" not in s:
        out.append(("cdata", f"<![CDATA[{s}]]>"))
    cut = len(s) // 2
    e = spec.esc
    out.append(("comment", e(s[:cut]) + "<!-- note -->" + e(s[cut:])))
    out.append(("pi", e(s[:cut]) + "<?tool x?>" + e(s[cut:])))
    if "\r" not in s and "]]>" not in s:
        out.append(("partcdata", e(s[:cut]) + f"<![CDATA[{s[cut:]}]]>"))
    return out


# name in the XML declaration (None: no declaration), codec of the file
ENCODINGS = [(None, "utf-8"), (None, "utf-8-sig"), ("utf-8", "utf-8"), ("UTF-8", "utf-8-sig"), ("UTF-16", "utf-16"),
             ("iso-8859-1", "iso-8859-1"), ("ISO-8859-15", "iso-8859-15"), ("windows-1252", "cp1252"),
             ("US-ASCII", "ascii")]
ENCODED = ["\u00e9", "\u00c3\u00a9", "\u20ac", "\U0001F600", "a\u00fc\u00df \u00e9\u00e9", "\u0416", "plain", "<\u00e4&>"]


def check_encoding(site, s, frame, attr):
    expect = b.make_document([sites.with_text(site, s)], 51)
    body = frame.replace(MARK, spec.esc(s, attr))
    body = body[body.index("<AUTOSAR"):]
    handle, path = tempfile.mkstemp(prefix="verif_c04_", suffix=".arxml")
    try:
        for name, codec in ENCODINGS:
            text = (f'<?xml version="1.0" encoding="{name}"?>\n' if name else "") + body
            with open(path, "wb") as fh:
                fh.write(text.encode(codec, "xmlcharrefreplace"))
            for source, read in (("file", lambda: b.ar_reader.Reader().read_file(path)),
                                 ("string", lambda: b.ar_reader.Reader().read_str(text))):
                back, _ = rt.quiet(read)
                m = b.diff_values(expect.packages, back.packages, "packages")
                if m:
                    return f"{source} declared as {name}, encoded as {codec}: {m}"
    finally:
        os.close(handle)
        os.unlink(path)
    return None


MARK = "qZqMARKqZq"


def check_write(d):
    doc = b.make_document([d], 51)
    text, _ = rt.quiet(lambda: b.ar_writer.Writer().write_str(doc, False))
    try:
        root = b.parse(text)
    except b.ElementTree.XMLSyntaxError as ex:
        return f"output is not well-formed: {ex}"
    m = b.tree_diff(b.package_node([d], 51), root[0][0])
    if m:
        return m
    back, _ = rt.quiet(b.ar_reader.Reader().read_str, text)
    return b.diff_values(doc.packages, back.packages, "packages")


def check_read(site, s, frame, attr):
    expect = b.make_document([sites.with_text(site, s)], 51)
    for name, xml in spellings(s, attr):
        back, _ = rt.quiet(b.ar_reader.Reader().read_str, frame.replace(MARK, xml))
        m = b.diff_values(expect.packages, back.packages, "packages")
        if m:
            return f"spelled as {name}: {m}"
    return None


def one(site, s, mode):
    if mode == "w":
        return guarded(check_write, sites.with_text(site, s))
    if mode == "m":
        return guarded(check_write, sites.mixed_with(site, s))
    frame = spec.document(spec.to_xml(b.package_node([sites.with_text(site, MARK)], 51)), 51)
    row = spec.SPEC[site[0]].row(site[1])
    return guarded(check_encoding if mode == "e" else check_read, site, s, frame, row.xml.startswith("@"))


def worker(task):
    site, depth, first = task
    part = Part()
    for s in itertools.chain(WORDS + ENCODED if first == "a" else [], strings(depth)):
        if s in WORDS or s in ENCODED or s[0] == first:
            modes = ("w", "r") + (("m",) if site[2] == "mixed" else ())
            for mode in modes + (("e",) if s in ENCODED and first == "a" else ()):
                msg = one(site, s, mode)
                part.count(states=1, transitions={"w": 2, "m": 2, "r": 6, "e": 2 * len(ENCODINGS)}[mode], traces=1)
                part.outcome("ok" if msg is None else "violation")
                if msg:
                    part.violation(f"{site[0]}.{site[1]}:{mode}:{s!r}"[:160], msg,
                                   {"site": site, "s": s, "mode": mode})
    part.sample({"site": site, "depth": depth, "first": first})
    return part.d


def main():
    check = Check("C04")
    if check.args.replay:
        item = json.load(open(check.args.replay, encoding="utf-8"))
        d = item["data"]
        msg = one(tuple(d["site"]), d["s"], d["mode"])
        check.count(1, 1, 1)
        if msg:
            check.violation(item["key"], msg, d)
        check.finish()
    all_sites = sites.text_sites()
    deep = {("MultiLanguageParagraph", "help_entry"), ("LanguageLongName", "parts"), ("TextValueSpecification", "value"),
            ("CompuScale", "symbol")}
    tasks = []
    for site in all_sites:
        depth = 2
        if site[:2] in deep or check.thorough:
            depth = 3
        tasks += [(site, depth, c) for c in ALPHA]
    headers = sites.header_sites()
    tasks += [(site, depth, c) for site in headers for depth, c in
              ([(1, c) for c in ALPHA] if check.thorough else [(0, "a")])]
    tasks.sort(key=lambda t: -t[1])
    check.run_parallel(worker, tasks, 2)
    check.extra["text_sites"] = len(all_sites)
    check.extra["names_categories_identifiers_references"] = len(headers)
    check.extra["alphabet"] = [repr(c) for c in ALPHA]
    check.extra["encodings"] = [f"{name} as {codec}" for name, codec in ENCODINGS]
    check.extra["max_length"] = {"all sites": 3 if check.thorough else 2, "representative sites": 3}
    check.assumptions.append("characters of the same class behave alike; characters XML cannot represent are excluded")
    check.finish()


if __name__ == "__main__":
    main()
