"""
The bounded space of configurations of one class: every subset of parameters up
to a deviation bound from "nothing set" and from "everything set", each
parameter ranging over its alphabet.
"""
import itertools

from mc.spec import SPEC
from mc.build import LIMIT_PARAMS, PATHS, alts, full, minimal, required, uses, with_names

OPEN = {"e": "IntervalType.OPEN"}
CLOSED = {"e": "IntervalType.CLOSED"}


def dims(cname):
    """[(param, [alternatives])] - alternatives are dicts of parameters to set"""
    out = []
    for row in SPEC[cname].all_rows():
        choices = []
        for a in alts(cname, row.param):
            choices.append({row.param: a})
        if row.codec == "limit":
            first = choices[0][row.param]
            choices.insert(1, {row.param: first, row.param + "_type": OPEN})
            choices.insert(2, {row.param: first, row.param + "_type": CLOSED})
        out.append((row.param, choices))
    return out


def cases(cname, thorough=False):
    """Yields (label, params)"""
    base = minimal(cname)["p"]
    allset = full(cname)["p"]
    ds = dims(cname)
    req = set(required(cname))
    yield "min", base
    yield "full", allset
    for param, choices in ds:
        for i, ch in enumerate(choices):
            yield f"min+{param}#{i}", {**base, **ch}
    for param, choices in ds:
        for i, ch in enumerate(choices[1:], 1):
            yield f"full+{param}#{i}", {**allset, **ch}
    for param, _ in ds:
        if param not in req:
            yield f"full-{param}", {k: v for k, v in allset.items() if k not in (param, param + "_type")}
    opt = [(p, c) for p, c in ds if p not in req]
    for (p1, c1), (p2, c2) in itertools.combinations(opt, 2):
        n1, n2 = (len(c1), len(c2)) if thorough else (1, 1)
        for i, j in itertools.product(range(n1), range(n2)):
            yield f"min+{p1}#{i}+{p2}#{j}", {**base, **c1[i], **c2[j]}
    if thorough:
        for (p1, _), (p2, _) in itertools.combinations(opt, 2):
            drop = {p1, p2}
            yield f"full-{p1}-{p2}", {k: v for k, v in allset.items() if k not in drop}
        for trio in itertools.combinations(opt, 3):
            d = dict(base)
            for _, c in trio:
                d.update(c[0])
            yield "min+" + "+".join(p for p, _ in trio), d


LENGTHS = {False: (*range(3, 13), 17, 33, 65, 101), True: (*range(3, 41), 64, 65, 101, 129, 257)}


def long_cases(cname, thorough=False):
    """Lists with many items: (label, params)"""
    base = minimal(cname)["p"]
    for row in SPEC[cname].all_rows():
        if (cname, row.param) == ("SwcModeSwitchEvent", "mode"):
            continue
        lists = [a for a in alts(cname, row.param) if isinstance(a, list)]
        if not lists:
            continue
        items = []
        for item in itertools.chain(*lists):
            if item not in items and not (row.xml == "#mixed" and isinstance(item, str)):
                items.append(item)
        for n in LENGTHS[thorough]:
            if row.xml == "#mixed":
                value = []
                for i in range(n):
                    value += [f"text {i} ", items[i % len(items)]]
                yield f"long+{row.param}#{n}", {**base, row.param: value}
                yield f"long+{row.param}#{n}x", {**base, row.param: value[1::2]}
            else:
                yield f"long+{row.param}#{n}", {**base, row.param: with_names([items[i % len(items)] for i in range(n)])}
                yield f"long+{row.param}#{n}x", {**base, row.param: with_names([items[0]] * (n - 1) + items[-1:])}


def cycle(cname):
    """Shortest way from a class back to itself: [(host, row), ...], or None"""
    by_host = {}
    for h, row, c in uses():
        by_host.setdefault(h, []).append((row, c))
    front, seen = [(cname, [])], set()
    while front:
        new = []
        for h, path in front:
            for row, c in by_host.get(h, ()):
                if c == cname:
                    return path + [(h, row)]
                if c not in seen:
                    seen.add(c)
                    new.append((c, path + [(h, row)]))
        front = new
    return None


DEPTH = {False: 12, True: 24}


def deep_paths(cname, thorough=False):
    """Places of an element deep in elements of its own kind: (number, path)"""
    again = cycle(cname)
    if again:
        for n in range(1, DEPTH[thorough] + 1):
            yield n, PATHS[cname] + again * n


def ordered(cname, p):
    """descriptor with parameters in schema order"""
    order = {r.param: i for i, r in enumerate(SPEC[cname].all_rows())}
    return {"c": cname, "p": dict(sorted(p.items(), key=lambda kv: order.get(kv[0], 99)))}


assert LIMIT_PARAMS
