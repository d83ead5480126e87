"""Positions inside a (type, value) pair.

A path is a list of steps: ["c", name] into a SEQUENCE component or CHOICE
alternative, ["i", index] into a SEQUENCE OF element."""
import copy
from . import refper


def comp_of(T, name):
    for c in list(T["root"]) + list(T["adds"]) + [c for g in T["groups"] for c in g]:
        if c["n"] == name:
            return c
    raise KeyError(name)


def walk(T, v, path=(), elems=2):
    """Yield (path, T, v) for every node (at most `elems` elements per list)."""
    yield list(path), T, v
    k = T["k"]
    if k == "seq":
        for c in refper.all_comps(T):
            if c["n"] in v:
                for x in walk(c["t"], v[c["n"]], tuple(path) + (["c", c["n"]],), elems):
                    yield x
    elif k == "choice":
        for x in walk(comp_of(T, v[0])["t"], v[1], tuple(path) + (["c", v[0]],), elems):
            yield x
    elif k == "seqof":
        idx = sorted(set(list(range(min(elems - 1, len(v)))) + ([len(v) - 1] if v else [])))
        for i in idx:
            for x in walk(T["elem"], v[i], tuple(path) + (["i", i],), elems):
                yield x


def replace_value(T, v, path, new):
    if not path:
        return new
    (kind, key), rest = path[0], path[1:]
    if T["k"] == "seq":
        out = dict(v)
        out[key] = replace_value(comp_of(T, key)["t"], v[key], rest, new)
        return out
    if T["k"] == "choice":
        return [v[0], replace_value(comp_of(T, key)["t"], v[1], rest, new)]
    out = list(v)
    out[key] = replace_value(T["elem"], v[key], rest, new)
    return out


def replace_type(T, path, new):
    """New type with the node at path replaced (a list element's type is
    replaced for the whole list)."""
    T = copy.copy(T)
    if not path:
        return new
    (kind, key), rest = path[0], path[1:]
    if T["k"] == "seqof":
        T["elem"] = replace_type(T["elem"], rest, new)
        return T

    def comps(cs):
        out = []
        for c in cs:
            if c["n"] == key:
                c = dict(c)
                c["t"] = replace_type(c["t"], rest, new)
            out.append(c)
        return out

    T["root"] = comps(T["root"])
    T["adds"] = comps(T["adds"])
    T["groups"] = [comps(g) for g in T["groups"]]
    return T
