"""Names that are made unique by numbering"""
import re


def wrong_names(bases, names):
    """
    What is wrong with names, given the names that were asked for: all differ, everyone is the asked
    name or a numbered form of it, and where no asked name looks like a numbered other one, k elements
    with one name are numbered 0..k-1 in order.
    """
    if len(names) != len(bases):
        return f"{len(names)} elements, expected {len(bases)}"
    if len(set(names)) != len(names):
        return f"names are not unique: {names}"
    for i, (name, base) in enumerate(zip(names, bases)):
        if name != base and not re.fullmatch("(_[0-9]+)+", name[len(base):] if name.startswith(base) else ""):
            return f"{name} was asked to be {base}"
        others = set(bases) - {base}
        if any(re.fullmatch(re.escape(base) + "_[0-9]+", o) or re.fullmatch(re.escape(o) + "_[0-9]+", base) for o in others):
            continue
        want = base if bases.count(base) == 1 else f"{base}_{bases[:i].count(base)}"
        if name != want:
            return f"{base} became {name}, expected {want}"
    return None


# names of files and folders that mean something special to something else
UNUSUAL = ["out put", "$HOME", "~", "~root", "${TMPDIR}", "%TEMP%", "%s", "{0}", "\u00fc\u6f22", "a.arxml", "-x", "o'u\"t", "#", "a;b", "*?[x]",
           "x" * 150, "..data", "...", " lead", "trail ", "CON", "a&b", "c:d", "tab\t", "back\\slash", "OUT", "out.", "a,b", "@x", "!x"]
