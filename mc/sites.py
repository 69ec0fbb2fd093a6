"""
Sites: every place in the schema where a scalar of some kind occurs, each with a
way to build the smallest document holding a given value there.
"""
from mc import build as b
from mc.spec import SPEC
from mc.cases import ordered

NAME = "name"


def text_sites():
    """[(class, param, kind)] with kind 'scalar' | 'mixed' | 'vlist' | 'constval' | 'list'"""
    out = []
    for cname in b.PATHS:
        for row in SPEC[cname].rows:
            if row.codec == "str":
                out.append((cname, row.param, "scalar"))
            elif row.xml == "#mixed":
                out.append((cname, row.param, "mixed"))
            elif row.codec == "vlist" and cname != "ValueList":
                out.append((cname, row.param, "vlist"))
            elif row.codec == "constval":
                out.append((cname, row.param, "scalar"))
            elif row.codec in ("list", "setlist") and row.args[1] == "str":
                out.append((cname, row.param, "list"))
    # the header of identifiable elements, on two representative classes
    for cname in ("Unit", "SwComponentPrototype"):
        out += [(cname, "category", "scalar"), (cname, "uuid", "scalar")]
    return out


def header_sites():
    """[(class, param, kind)] of all names, categories, identifiers and references"""
    out = []
    for cname in b.PATHS:
        own = {row.param for row in SPEC[cname].rows}
        for row in SPEC[cname].all_rows():
            if row.param not in own and row.codec == "str":
                out.append((cname, row.param, "scalar"))
            elif row.codec == "ref":
                out.append((cname, row.param, "ref"))
            elif row.codec == "list" and row.args[1] == "ref":
                out.append((cname, row.param, "refs"))
    return out


def with_text(site, s):
    """Descriptor of the top-level element holding s at the site"""
    cname, param, kind = site
    d = b.minimal(cname)
    if kind == "ref":
        d["p"][param] = b.ref_desc(SPEC[cname].row(param).args[0], None, s)
    elif kind == "refs":
        d["p"][param] = [b.ref_desc(SPEC[cname].row(param).args[2], None, s)]
    elif kind == "scalar":
        d["p"][param] = s
    else:
        d["p"][param] = [s]
    return b.embed(cname, ordered(cname, d["p"]))


def mixed_with(site, s):
    """Mixed content: s before, between and after child elements"""
    cname, param, _ = site
    child = b.expand(SPEC[cname].row(param).codec)
    a = b.minimal(child[0][0])
    z = b.minimal(child[-1][0])
    d = b.minimal(cname)
    d["p"][param] = [s, a, s, z, s]
    return b.embed(cname, ordered(cname, d["p"]))
