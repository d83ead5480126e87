"""C11 the classes generated from a schema mean what the schema says."""
import itertools
import re
from hypothesis import strategies as st
from lib import build, cases, gen, refper, schema
from lib.common import decode, encode, hexs, short
from lib.common_schema import Violation, built_types, compiled, enc_ref, module_features, same_octets
from lib.runner import Discard, Unit, ref
from props.c05 import bad_values

RULE = ("A case is an ASN.1 module (generated: up to 5 type assignments with references among them, constants, every notation listed under "
        "classes; or systematic: every scalar type and spelling of its constraint in every position) with valid values of each of its types. "
        "Non-trivial: at least one value was encoded and decoded against the reference codec applied to the X.680 meaning of the "
        "module, which is computed without the library; distinct = distinct JSON of the case.")
ASSUMPTIONS = ["lib/schema.py computes the X.680 meaning (numbers of enumeration items, effective bounds, component order)",
               "lib/refper.py is the X.691 oracle"]


def check(case, ctx):
    mod = case["mod"]
    text = schema.plain_text(mod)
    code, ns = compiled(text)
    blt = built_types(mod, ns, text)
    env_types = schema.types_of(mod)
    n = 0
    for name, B in blt.items():
        structure(env_types[name], B, name, text)
        constraints(B, name, text, set())
        for v in case["vals"].get(name, []):
            n += bool(same_octets(B, v, text, name))
    ctx.note(module_features(mod) | {"module:%d-assignments" % min(9, len(mod["assigns"]))}, nontrivial=n > 0)


def reserved(n):
    return n.endswith("_") or schema.keyword.iskeyword(n) or any(hasattr(c, n) for c in (build.SequenceType, build.ChoiceType, build.SequenceOfType, build.EnumeratedType)) or \
        n in ("rootComponent", "extensionAddition", "extensionAdditionGroups")


def structure(t, B, name, text):
    """Component names and their order; a class for an inline type is reachable as Parent.component."""
    k = t["k"]
    if k == "seqof":
        return structure(t["elem"], B.kids["elem"], name + "[]", text) if t["elem"]["k"] != "ref" else None
    if k not in ("seq", "choice"):
        return
    want = [c["n"] for c in refper.all_comps(B.T)]
    got = [nt.name for nt in B.cls.componentType.namedTypes]
    if got != want:
        raise Violation("%s has the components %s, the schema says %s\n%s" % (name, got, want, text))
    for c in refper.all_comps(t):
        if c["t"]["k"] == "ref":
            continue
        kid = B.kids[c["n"]]
        py = c["n"].replace("-", "_")
        if (c["t"].get("c") or c["t"]["k"] in ("enum", "seq", "choice", "seqof")) and not reserved(py):
            if getattr(B.cls, py, None) is not kid.cls:
                raise Violation("the class of component %s of %s is not reachable as %s.%s\n%s" % (c["n"], name, name, py, text))
        structure(c["t"], kid, name + "." + c["n"], text)


def constraints(B, name, text, seen):
    """Every class of the tree accepts the ends of its constraint and refuses what is just outside."""
    T = B.T
    k = T["k"]
    if id(B.cls) in seen:
        return
    seen.add(id(B.cls))
    for n, kid in B.kids.items():
        constraints(kid, "%s.%s" % (name, n), text, seen)
    if k in ("seq", "choice", "bool"):
        return
    for bad in bad_values(T, [ref(refper.tiny, T["elem"])] if k == "seqof" else None)[:40]:
        try:
            o = build.inst(B, bad)
            e = encode(o)
        except Exception:
            continue
        raise Violation("%s accepts %s, which its constraint forbids (encoded as %s)\n%s" % (name, short(bad), hexs(e), text))
    for n in (T.get("hole") or [])[:6]:      # octets with a number or size from a gap
        if n > 70000 and k != "int" or n > 400 and k == "seqof":
            continue
        bad = n if k == "int" else "1" * n if k == "bits" else "a5" * n if k == "octs" else [refper.tiny(T["elem"])] * n
        try:
            data = ref(enc_ref, {x: y for x, y in T.items() if x != "hole"}, bad)
        except Discard:
            continue
        try:
            got = build.extract(B, decode(data, B.cls()))
        except Exception:
            continue
        raise Violation("%s decodes %s to %s, which its constraint forbids\n%s" % (name, hexs(data), short(got), text))


# ------------------------------------------------------------------- grid ----
def edges(T):
    """What lies next to the gaps of a union."""
    h = T.get("hole") or []
    return [lo - 1 for lo in h[::2]] + [hi + 1 for hi in h[1::2]]


def ends(T):
    """A few valid values of a scalar type, the ends of its constraint first."""
    k = T["k"]
    lb, ub = T.get("lb"), T.get("ub")
    if k == "bool":
        return [False, True]
    if k == "enum":
        return (T["root"] + T["adds"])[:12]
    if k == "int":
        c = [x for x in (lb, ub) if x is not None] or [0, -1, 128]
        if lb is None or ub is None:
            c += [x for x in (0, 1, 127, 128, 255, 256, -129) if refper.in_range(x, lb, ub)]
        c += edges(T)
        if T["ext"]:
            c += [x for x in ((lb or 0) - 1, (ub or 0) + 1)]
        return sorted({x for x in c if refper.valid(T, x)})
    ns = [n for n in (lb or 0, (lb or 0) + 1, ub) if n is not None and n <= 300] + edges(T)
    if T["ext"] and ub is not None:
        ns.append(min(ub + 1, 300))
    ns = sorted({n for n in ns if refper.valid(T, ("0" if k == "bits" else "00") * n)})
    return [("10" * n)[:n] if k == "bits" else ("a5" * n) for n in ns]


def rng(lo, hi, lox=False, hix=False):
    return ["range", lo, lox, hi, hix]


def union(*els):
    """lb, ub, parts, gaps of a union of disjoint elements."""
    iv = sorted((e, e) if isinstance(e, int) else e for e in els)
    hole = [x for a, b in zip(iv, iv[1:]) for x in (a[1] + 1, b[0] - 1) if b[0] > a[1] + 1]
    return iv[0][0], iv[-1][1], [["single", e] if isinstance(e, int) else rng(*e) for e in els], hole or None


def unions():
    return [union(*e) for e in ((1, 3, 5), (5, 1, 3), (0, 2, 4, 6), (1, (3, 5), 9), ((2, 3), 6, (8, 10)), (4, 5, 6, 8), (12, (1, 2), (5, 5), 9, 3),
                                tuple(range(1, 20, 2)), ((20, 30), 1, (40, 50)), (1, 2, 3, 4), ((0, 1), (2, 3), (6, 7)), (1, 100, 260))]


def all_sizes(several):
    sizes = []
    for lb, ub in ((0, 0), (1, 1), (2, 2), (3, 3), (8, 8), (16, 16), (17, 17), (0, 1), (0, 3), (1, 4), (2, 255), (0, 255), (0, 256), (20, 30)):
        sizes.append((lb, ub, [rng(lb, ub)], None))
        if lb == ub:
            sizes.append((lb, ub, [["single", lb]], None))
        else:
            sizes.append((lb, ub, [["single", lb], rng(lb + 1, ub)], None))
            sizes.append((lb, ub, [rng(lb, ub + 1, hix=True)], None))
        if ub - lb > 2:
            sizes.append((lb, ub, [["single", ub], ["single", lb]], [lb + 1, ub - 1]))
    sizes += several
    sizes += [(0, None, [rng(0, "MAX")], None), (2, None, [rng(2, "MAX")], None), (0, 6, [rng("MIN", 6)], None), (1, 65535, [rng(1, 65535)], None),
              (0, 65536, [rng(0, 65536)], None)]
    return sizes


def scalars():
    """TYPEs covering each spelling of each scalar."""
    out = [{"k": "bool"}, {"k": "int", "lb": None, "ub": None, "ext": False}]
    specs = []
    for lb, ub in ((0, 0), (5, 5), (-3, -3), (0, 1), (0, 7), (-8, 7), (1, 255), (0, 255), (0, 256), (-1, 65535), (0, 65536), (3, 2 ** 32), (2 ** 53 + 1, 2 ** 53 + 7), (-2 ** 53 - 7, -2 ** 53 - 1), (10 ** 19 + 1, 10 ** 25 + 3),
                   (-10 ** 40 - 1, 10 ** 40 + 1)):
        specs.append((lb, ub, [rng(lb, ub)], None))
        if lb == ub:
            specs.append((lb, ub, [["single", lb]], None))
        else:
            specs.append((lb, ub, [rng(lb - 1, ub, lox=True)], None))
            specs.append((lb, ub, [rng(lb, ub + 1, hix=True)], None))
            specs.append((lb, ub, [rng(lb - 1, ub + 1, True, True)], None))
            specs.append((lb, ub, [["single", lb], rng(lb + 1, ub)] if ub - lb > 1 else [["single", lb], ["single", ub]], None))
        if ub - lb > 2:
            specs.append((lb, ub, [["single", lb], ["single", ub]], [lb + 1, ub - 1]))
            specs.append((lb, ub, [["single", ub], rng(lb, lb + 1)], [lb + 2, ub - 1]))

    several = unions()
    specs += several + [union(-9, (-5, -2), 0, 7), union((100, 200), (300, 70000), 90000),
                                                            union(-10 ** 20 - 1, (2 ** 53 + 1, 2 ** 53 + 2), 2 ** 53 + 4, (10 ** 20 + 1, 10 ** 20 + 3), 10 ** 20 + 5)]
    specs += [(0, None, [rng(0, "MAX")], None), (-5, None, [rng(-5, "MAX")], None), (None, 7, [rng("MIN", 7)], None),
              (None, -1, [rng("MIN", -1)], None), (None, 9, [rng("MIN", 10, hix=True)], None)]
    for lb, ub, parts, hole in specs:
        for ext in (False, True):
            if ext and hole:
                continue
            for orr in ("|", "UNION")[:len(parts)]:
                c = {"parts": parts, "ext": ext, "or": orr}
                if hole:
                    c["hole"] = hole
                out.append({"k": "int", "lb": lb, "ub": ub, "ext": ext, "c": c})
                if ext and ub is not None:
                    out.append({"k": "int", "lb": lb, "ub": ub, "ext": ext, "c": dict(c, xadd=[["range", ub + 2, False, ub + 5, False]])})
    sizes = all_sizes(several)
    for k in ("bits", "octs"):
        out.append({"k": k, "lb": None, "ub": None, "ext": False})
        for lb, ub, parts, hole in sizes:
            for ext, outer in ((False, False), (True, False), (True, True)):
                if ext and hole:
                    continue
                c = {"parts": parts, "ext": ext, "or": "|", "outer": outer}
                if hole:
                    c["hole"] = hole
                out.append({"k": k, "lb": lb, "ub": ub, "ext": ext, "c": c})
    for items, ext, x in (([["a", None]], False, []), ([["a", None], ["b", None], ["c", None]], False, []),
                          ([["a", 5], ["b", None], ["c", 0]], False, []), ([["b", 2], ["a", 1], ["c", 3]], True, [["d", None], ["e", 7]]),
                          ([["a", -1], ["b", None]], True, [["z", None]]), ([["a", None], ["b", None]], True, []),
                          ([["n%d" % i, None] for i in range(17)], True, [["m%d" % i, None] for i in range(3)]),
                          ([["a-b", None], ["class", 300]], True, [["x", 301], ["y", None]])):
        out.append({"k": "enum", "items": items, "ext": ext, "xitems": x})
    return out


def positions(t, v, v2):
    """Each place a type can stand in: (TYPE, values) with t there."""
    T = schema.resolve(t, {})
    B, I = {"k": "bool"}, {"k": "int", "lb": None, "ub": None, "ext": False}

    def C(n, t, m="M", d=None):
        c = {"n": n, "t": t, "m": m}
        if m == "D":
            c.update(d=d, dk=T["k"], ds={})
        return c

    def S(root, ext=False, adds=(), groups=(), k="seq", **h):
        return dict({"k": k, "root": root, "ext": ext, "adds": list(adds), "groups": list(groups)}, **h)
    a, z = C("a", B), C("zz", I)
    yield "top", t, [v, v2]
    yield "mandatory", S([a, C("x-1", t), z]), [{"a": True, "x-1": v, "zz": 5}, {"a": True, "x-1": v2, "zz": 5}]
    yield "optional", S([C("x", t, "O"), z]), [{"x": v, "zz": 5}, {"zz": -1}]
    yield "default", S([C("x", t, "D", v), z]), [{"x": v2, "zz": 5}, {"zz": -1}]
    yield "addition", S([a], True, [C("x", t), C("y", t, "O"), C("w", t, "D", v2)]), [{"a": True}, {"a": True, "x": v, "y": v2, "w": v}]
    yield "group", S([a], True, [], [[C("x", t), C("w", t, "D", v)], [C("y", t, "O")]], gv=[2, None]), \
        [{"a": False}, {"a": True, "x": v, "w": v2}, {"a": True, "x": v2, "y": v}]
    yield "second-root", S([a, C("x", t, "O"), C("y", t)], True, [z], [], second=2), [{"a": True, "x": v, "y": v2, "zz": 3}, {"a": True, "y": v}]
    yield "alternative", S([a, C("x", t)], k="choice"), [["x", v], ["x", v2], ["a", True]]
    yield "extension-alternative", S([a], True, [C("x", t)], [[C("y", t), C("w", B)]], k="choice"), [["x", v], ["y", v2], ["w", True]]
    yield "element", {"k": "seqof", "lb": None, "ub": None, "ext": False, "elem": t}, [[], [v, v2, v]]
    yield "element-sized", {"k": "seqof", "lb": 1, "ub": 3, "ext": True, "elem": t,
                            "c": {"parts": [["range", 1, False, 3, False]], "ext": True, "or": "|"}}, [[v], [v, v2, v, v2]]
    yield "nested", S([C("n", S([C("m", {"k": "seqof", "lb": None, "ub": None, "ext": False, "elem": S([C("x", t), z], k="choice")})], True),
                         "O"), z]), [{"n": {"m": [["x", v], ["zz", 1], ["x", v2]]}, "zz": 2}]


def grid(tier):
    ts = scalars()
    for i, t in enumerate(ts):
        T = schema.resolve(t, {})
        vals = ends(T)
        if not vals:
            continue
        ps = list(positions(t, vals[0], vals[-1]))
        assigns, vs = [{"a": "type", "n": "Base", "t": t}], {"Base": vals}
        for j, (what, pt, pv) in enumerate(ps[1:]):
            if tier == "quick" and (i + j) % 3:
                continue
            assigns.append({"a": "type", "n": "P%d" % j, "t": pt})
            vs["P%d" % j] = pv
            if (i + j) % 2 == 0:      # the same position with a reference to the type instead of the type itself
                rt = deref(pt, t)
                assigns.append({"a": "type", "n": "R%d" % j, "t": rt})
                vs["R%d" % j] = pv
        yield {"mod": {"name": "M", "assigns": assigns}, "vals": vs}


def lists(tier):
    """Every spelling of the size of a SEQUENCE OF, with several element types, at several places."""
    B, I = {"k": "bool"}, {"k": "int", "lb": None, "ub": None, "ext": False}
    C = lambda n, t, m="M": {"n": n, "t": t, "m": m}

    def S(root, ext=False, adds=(), groups=(), k="seq"):
        return {"k": k, "root": root, "ext": ext, "adds": list(adds), "groups": list(groups)}
    elems = [(B, [True, False]), ({"k": "ref", "n": "R"}, [{"i": 5}, {"i": -1}]), (S([C("o", {"k": "octs", "lb": None, "ub": None, "ext": False}, "O")]), [{"o": "a5"}, {"o": ""}]),
             ({"k": "int", "lb": 0, "ub": 9, "ext": False, "c": {"parts": [["range", 0, False, 9, False]], "ext": False, "or": "|"}}, [0, 9]),
             ({"k": "seqof", "lb": None, "ub": None, "ext": False, "elem": B}, [[True], []])]
    i = 0
    for lb, ub, parts, hole in all_sizes(unions()) + [(0, None, [rng("MIN", "MAX")], None), (1, None, [rng(0, "MAX", lox=True)], None), (3, None, [rng(3, "MAX")], None),
                                                      (0, 5, [rng("MIN", 6, hix=True)], None), (0, 16383, [rng(0, 16383)], None), (0, 65535, [rng(0, 65535)], None)]:
        for ext, outer, xadd in ((False, False, False), (True, False, False), (True, True, False), (True, False, True)):
            if ext and hole or xadd and ub is None:
                continue
            i += 1
            e, xs = elems[i % len(elems)]
            c = {"parts": parts, "ext": ext, "or": ("|", "UNION")[i % 2], "outer": outer}
            if hole:
                c["hole"] = hole
            if xadd:
                c["xadd"] = [["range", ub + 2, False, ub + 5, False]]
            t = {"k": "seqof", "lb": lb, "ub": ub, "ext": ext, "elem": e, "c": c}
            L = {"k": "seqof", "lb": lb, "ub": ub, "ext": ext, "elem": B, "hole": hole}
            ns = {n for n in [lb, lb + 1, lb + 5, ub] + edges(L) if n is not None and n <= 300}
            if ext:
                ns |= {n for n in (0, lb - 1, ub + 1 if ub is not None else 3) if 0 <= n <= 300}
            ns = sorted(n for n in ns if refper.valid(L, [True] * n))
            vals = [[xs[j % 2] for j in range(n)] for n in ns] or [[]]
            v, w = vals[0], vals[-1]
            assigns = [{"a": "type", "n": "R", "t": S([C("i", I)])}, {"a": "type", "n": "Base", "t": t}]
            vs = {"R": [{"i": 0}], "Base": vals}
            for j, (pt, pv) in enumerate([
                    (S([C("a", B), C("x", t), C("z", I)]), [{"a": True, "x": v, "z": 1}, {"a": True, "x": w, "z": 1}]),
                    (S([C("x", t, "O"), C("z", I)]), [{"x": w, "z": 1}, {"z": 1}]),
                    (S([C("a", B)], True, [C("x", t)], [[C("y", t), C("q", B, "O")]]), [{"a": True, "x": v, "y": w}, {"a": True, "x": w}]),
                    (S([C("a", B), C("x", t)], True, [C("y", t)], k="choice"), [["x", v], ["y", w]]),
                    ({"k": "seqof", "lb": None, "ub": None, "ext": False, "elem": t}, [[], [v, w]]),
                    ({"k": "ref", "n": "Base"}, [v, w]),
                    (S([C("x", {"k": "ref", "n": "Base"})]), [{"x": v}, {"x": w}])]):
                if tier == "thorough" or (i + j) % 3 == 0:
                    assigns.append({"a": "type", "n": "P%d" % j, "t": pt})
                    vs["P%d" % j] = pv
            yield {"mod": {"name": "M", "assigns": assigns}, "vals": vs}


def arrangements(tier):
    """SEQUENCEs and CHOICEs with every arrangement of up to four extension additions: plain, in a group of one, in a group of two;
    a plain alternative may follow a group (a SEQUENCE with one is refused: the library says it is not supported)."""
    B, I = {"k": "bool"}, {"k": "int", "lb": None, "ub": None, "ext": False}
    small = {"k": "int", "lb": 0, "ub": 9, "ext": False, "c": {"parts": [["range", 0, False, 9, False]], "ext": False, "or": "|"}}
    types = [(B, True), (I, 300), (small, 7), ({"k": "octs", "lb": None, "ub": None, "ext": False}, "a5")]
    i = 0
    for k in ("seq", "choice"):
        for n in range(5 if tier == "quick" else 6):
            for shape in itertools.product("pgG", repeat=n):
                if k == "seq" and "p" in "".join(shape).lstrip("p"):
                    continue
                i += 1
                adds, groups, bare, at, vals = [], [], [], {}, []
                m = 0

                def new(mode="M"):
                    nonlocal m
                    t, v = types[(m + i) % 4]
                    m += 1
                    at["e%d" % m] = v
                    return {"n": "e%d" % m, "t": t, "m": mode}
                for x in shape:
                    if x == "p" and not groups:
                        adds.append(new("MO"[(i + m) % 2] if k == "seq" else "M"))
                    elif x == "p":
                        bare.append(len(groups))
                        groups.append([new()])
                    else:
                        groups.append([new()] + ([new("O" if k == "seq" else "M")] if x == "G" else []))
                t = {"k": k, "root": [{"n": "r", "t": B, "m": "M"}], "ext": True, "adds": adds, "groups": groups, "bare": bare,
                     "end": i % 2 == 0, "gv": [[None, 2 + g][i % 3 == 0] for g in range(len(groups))]}
                if k == "choice":
                    vals = [["r", True]] + [[a, at[a]] for a in at]
                else:
                    parts = [[c] for c in adds] + groups
                    vals = []
                    for upto in range(len(parts) + 1):
                        vals.append(dict({"r": True}, **{c["n"]: at[c["n"]] for p in parts[:upto] for c in p}))
                    vals.append(dict({"r": False}, **{c["n"]: at[c["n"]] for p in parts for c in p if c["m"] == "M"}))
                outer = {"k": "seq", "root": [{"n": "a", "t": I, "m": "O"}, {"n": "x", "t": t, "m": "M"}], "ext": False, "adds": [], "groups": []}
                yield {"mod": {"name": "M", "assigns": [{"a": "type", "n": "Base", "t": t}, {"a": "type", "n": "Outer", "t": outer}]},
                       "vals": {"Base": vals, "Outer": [{"x": vals[-1]}, {"a": 4, "x": vals[0]}]}}


def names(tier):
    """Identifiers and type names that mean something in Python, in pyasn1 or in generated code, in every place a name can have."""
    import builtins
    words = set(schema.keyword.kwlist) | set(dir(builtins)) | set(schema.IMPORTED)
    for c in (build.SequenceType, build.ChoiceType, build.SequenceOfType, build.IntegerType, build.EnumeratedType, build.BitStringType,
              build.OctetStringType, build.BooleanType):
        words |= set(dir(c))
    words |= {"rootComponent", "extensionAddition", "extensionAdditionGroups", "enumerationRoot", "namedValues", "asn1", "pyasn1", "self", "cls",
              "decode", "encode", "univ", "template", "class_name", "named_type", "constraint", "loop", "filter", "namespace", "extensionMarker"}
    idents = sorted({w.replace("_", "-") for w in words if re.fullmatch(r"[a-z]([A-Za-z0-9]|_(?!_|$))*", w)})
    types = sorted({w for w in words if re.fullmatch(r"[A-Z][A-Za-z0-9]*", w)} - {"MIN", "MAX"})
    # words that begin like a word of ASN.1, and unusual shapes
    for w in ("INTEGER BOOLEAN BIT OCTET STRING ENUMERATED SEQUENCE SET OF CHOICE OPTIONAL DEFAULT SIZE MIN MAX TRUE FALSE END BEGIN DATE REAL "
              "NULL UNION ALL EXCEPT IA5String UTF8String NumericString VisibleString DEFINITIONS AUTOMATIC TAGS FROM UNIVERSAL").split():
        types += [w + "x", w + "S"] + ([w + "-1", w + "0"] if tier != "quick" else [])
        idents += [w.lower(), w.lower() + "X"] + ([w[0].lower() + w[1:], w.lower() + "-1"] if tier != "quick" else [])
    types += ["A1", "A-1", "A-b-C", "AB", "A0b-9", "Abcdefghij" * 12]
    idents += ["x1", "a-1", "a-b-c", "aB", "xH", "bB", "a0b-9", "eND", "abcdefghij" * 12]
    idents, types = sorted(set(idents)), sorted(set(types) - {"A", "C", "D", "F"})
    B = {"k": "bool"}
    Q = {"k": "int", "lb": 1, "ub": 9, "ext": False, "c": {"parts": [["range", 1, False, 9, False]], "ext": False, "or": "|"}}
    C = lambda n, t, m="M", **k: dict({"n": n, "t": t, "m": m}, **k)

    def S(k, root, ext=False, adds=(), groups=()):
        return {"k": k, "root": root, "ext": ext, "adds": list(adds), "groups": list(groups)}

    def L(t):
        return {"k": "seqof", "lb": None, "ub": None, "ext": False, "elem": t}

    def E(n):
        return {"k": "enum", "items": [["a0", None], [n, None]], "ext": True, "xitems": [["z0", None]]}
    T = lambda n, t: {"a": "type", "n": n, "t": t}
    for n in idents:
        if n in ("a0", "z0"):
            continue
        assigns = [T("P1", S("seq", [C("a0", B), C(n, Q)])), T("P2", S("choice", [C(n, Q), C("a0", B)])),
                   T("P3", S("seq", [C(n, S("seq", [C(n, S("choice", [C(n, E(n)), C("a0", B)]))]), "O")])),
                   T("P4", S("choice", [C("a0", B)], True, [C(n, L(S("seq", [C(n, Q, "O")])))])), T("P5", E(n)),
                   T("P6", S("seq", [C("a0", B)], True, [C("z0", B)], [[C(n, B, "O"), C("y0", Q, "O")]])), T("P7", S("choice", [C(n, B)])),
                   T("P8", S("seq", [C(n, B)], True, [])), T("P9", L(S("choice", [C(n, Q), C("a0", B)])))]
        vals = {"P1": [{"a0": True, n: 9}], "P2": [[n, 1], ["a0", True]], "P3": [{}, {n: {n: [n, n]}}, {n: {n: [n, "a0"]}}], "P4": [[n, [{}, {n: 9}]]],
                "P5": [n, "z0"], "P6": [{"a0": True, "z0": True, n: False}, {"a0": True, "z0": False, n: True, "y0": 4}], "P7": [[n, True]],
                "P8": [{n: True}], "P9": [[[n, 5], ["a0", False]]]}
        k = {"k": "int", "lb": 1, "ub": 5, "ext": False, "c": {"parts": [["range", 1, False, n, False]], "ext": False, "or": "|"}}
        I = {"k": "int", "lb": None, "ub": None, "ext": False}
        assigns2 = [T("K1", k), T("K2", S("seq", [C("a0", I, "D", d=5, dk="int", ds={"ref": n}), C("b0", k, "O")])), T("K3", L(k)),
                    {"a": "value", "n": n, "t": I, "vk": "int", "v": 5, "s": {}}]
        yield {"mod": {"name": "M", "assigns": assigns}, "vals": vals}
        yield {"mod": {"name": "M", "assigns": assigns2}, "vals": {"K1": [1, 5], "K2": [{}, {"a0": 4, "b0": 5}], "K3": [[1, 5]]}}
    for n in types:
        R = {"k": "ref", "n": n}
        for j, (t, v) in enumerate(((Q, 5), (S("seq", [C("x", B), C("y", Q, "O")]), {"x": True, "y": 9}), (E("x"), "x"), (L(Q), [1, 9]), (S("choice", [C("x", Q)]), ["x", 9]))):
            other = {"k": "int", "lb": 0, "ub": 3, "ext": True, "c": {"parts": [["single", 0], ["single", 3]], "ext": True, "or": "|"}}
            assigns = [T(n, t), T("A", S("seq", [C("p", R), C("q", R, "O"), C("r", other, "D", d=3, dk="int", ds={})], True, [C("s", R)])), T("C", R), T("D", L(R)),
                       T("F", S("choice", [C("p", R), C("o", {"k": "octs", "lb": 1, "ub": 3, "ext": False, "c": {"parts": [["single", 1], ["single", 3]], "ext": False, "or": "|", "hole": [2, 2]}})]))]
            yield {"mod": {"name": "M", "assigns": assigns}, "vals": {n: [v], "A": [{"p": v, "s": v, "r": 0}], "C": [v], "D": [[v, v]], "F": [["p", v], ["o", "010203"]]}}


def deref(pt, t):
    if pt is t:
        return {"k": "ref", "n": "Base"}
    if isinstance(pt, dict):
        return {k: deref(x, t) for k, x in pt.items()}
    if isinstance(pt, list):
        return [deref(x, t) for x in pt]
    return pt


def units(tier):
    return [
        Unit("grid", check, cases=grid),
        Unit("lists", check, cases=lists),
        Unit("arrangements", check, cases=arrangements),
        Unit("names", check, cases=names),
        Unit("modules", check, strategy=schema.module_with_values(per_type=3), quick=500, thorough=24000),
        Unit("deep", check, strategy=schema.module_with_values(per_type=2, max_types=2, depth=4), quick=160, thorough=8000),
    ]
