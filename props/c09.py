"""C09 presence semantics of mandatory, OPTIONAL and DEFAULT components."""
from hypothesis import strategies as st
from lib import cases, gen, build, refper, paths
from lib.common import encode, decode, built, hexs, short, Violation, Discard
from lib.runner import Unit, ref

RULE = ("A case is a generated type and complete value plus one presence question about a SEQUENCE inside it: remove a mandatory root component; "
        "remove a mandatory addition, or a group of mandatory members, while a later addition is present; remove a mandatory member of a present group; "
        "spell out or leave out a DEFAULT component equal to its default; add or drop an OPTIONAL component or one whose value differs from its default. "
        "Matrix: every presence pattern of two additions and three groups with all mandatory/OPTIONAL modes. "
        "Non-trivial: the question applies (the value has such a component); distinct = distinct JSON of the case.")
ASSUMPTIONS = ["a SEQUENCE or SEQUENCE OF object that was never filled counts as empty, so leaving one out is not 'missing'"]


def enc(T, v):
    try:
        return refper.encode(T, v)
    except refper.Unsupported:
        raise Discard()


def check(case, ctx):
    T, v, path, what, n = case["T"], case["v"], case["path"], case["what"], case["n"]
    if what == "none":
        raise Discard()
    t, x = T, v
    for kind, key in path:
        if t["k"] == "seqof":
            t, x = t["elem"], x[key]
        else:
            x = x[key] if t["k"] == "seq" else x[1]
            t = paths.comp_of(t, key)["t"]
    ref(enc, T, v)
    B = built(T)
    without = dict(x)
    for m in (next([c["n"] for c in g] for g in t["groups"] if g[0]["n"] == n) if what == "missing-group" else [n]):
        without.pop(m, None)
    v2 = paths.replace_value(T, v, path, without)
    ctx.note([what, "depth%d" % len(path)])
    full = encode(build.inst(B, v))
    if what in ("missing-mandatory", "missing-addition", "missing-group", "missing-group-member"):
        try:
            e = encode(build.inst(B, v2))
        except Exception:
            return
        raise Violation("component %s is mandatory here and missing, but the message encodes as %s" % (n, hexs(e)))
    if what == "default-equal":
        c = paths.comp_of(t, n)
        e = encode(build.inst(B, v2))
        if e != full:
            raise Violation("%s spelled out with its DEFAULT encodes as %s, left out as %s" % (n, hexs(full), hexs(e)))
        d = at(decode(full, B.cls()), T, path)
        got = build.extract(find(B, path).kids[n], d[n])
        if got != c["d"]:
            raise Violation("left-out DEFAULT component %s reads as %s, default is %s" % (n, short(got), short(c["d"])))
        return
    if what == "distinguishable":
        e = encode(build.inst(B, v2))
        if e == full:
            raise Violation("with and without %s (%s) the message encodes as %s" % (n, short(x[n]), hexs(e)))
        kid = find(B, path)
        for data, present in ((full, True), (e, False)):
            d = at(decode(data, B.cls()), T, path)
            got = build.extract(kid, d)
            c = paths.comp_of(t, n)
            if c["m"] == "D":
                want = x[n] if present else c["d"]
                if n not in got or got[n] != want and refper.canon(c["t"], got[n]) != refper.canon(c["t"], want):
                    raise Violation("decoded DEFAULT component %s is %s, expected %s" % (n, short(got.get(n)), short(want)))
            elif (n in got) != present:
                raise Violation("component %s is %s after decoding, was %s when encoded" % (
                    n, "present" if n in got else "absent", "present" if present else "absent"))


def at(o, T, path):
    for kind, key in path:
        if T["k"] == "choice":
            o = o.getComponent()
        else:
            o = o[key]
        T = T["elem"] if T["k"] == "seqof" else paths.comp_of(T, key)["t"]
    return o


def find(B, path):
    for kind, key in path:
        B = B.kids["elem" if B.T["k"] == "seqof" else key]
    return B


def questions(T, v):
    """(path, what, component name) that apply to the value."""
    out = []
    for path, t, x in paths.walk(T, v):
        if t["k"] != "seq":
            continue
        present = lambda c: c["n"] in x and not (c["m"] == "D" and x[c["n"]] == c["d"])
        scalar = lambda c: c["t"]["k"] not in ("seq", "seqof")
        for c in t["root"]:
            if c["m"] == "M" and scalar(c):
                out.append((path, "missing-mandatory", c["n"]))
        ext = [[c] for c in t["adds"]] + list(t["groups"])
        last = max([i for i, u in enumerate(ext) if any(present(c) for c in u)] or [-1])
        for i, c in enumerate(t["adds"]):
            if c["m"] == "M" and i < last and c["n"] in x:
                out.append((path, "missing-addition", c["n"]))
        for i, g in enumerate(t["groups"], start=len(t["adds"])):
            if i < last and all(c["m"] == "M" for c in g):
                out.append((path, "missing-group", g[0]["n"]))
            if sum(1 for c in g if present(c)) > 1:
                for c in g:
                    if c["m"] == "M" and c["n"] in x and scalar(c):
                        out.append((path, "missing-group-member", c["n"]))
        for i, u in enumerate(ext + [[c] for c in t["root"]]):
            in_root = i >= len(ext)
            for c in u:
                if c["n"] not in x:
                    continue
                if c["m"] == "D" and x[c["n"]] == c["d"]:
                    out.append((path, "default-equal", c["n"]))
                elif c["m"] != "M" or (not in_root and i == last and len(u) == 1 and i < len(t["adds"])):
                    # dropping it must leave a complete value: last addition, or optional/default
                    if not in_root and i < len(ext) and len(u) > 1 and sum(1 for q in u if present(q)) == 1 and any(q["m"] == "M" for q in u):
                        continue
                    out.append((path, "distinguishable", c["n"]))
    # a path through an OPTIONAL SEQUENCE whose only component is dropped would read as absent: keep non-empty
    res = []
    for path, what, n in out:
        t, x = T, v
        for kind, key in path:
            if t["k"] == "seqof":
                t, x = t["elem"], x[key]
            else:
                x = x[key] if t["k"] == "seq" else x[1]
                t = paths.comp_of(t, key)["t"]
        if path and what != "missing-mandatory" and len(x) == 1:
            continue
        if path and what == "missing-mandatory" and len(x) == 1:
            continue
        res.append((path, what, n))
    return res


@st.composite
def asked(draw, types):
    T = draw(types)
    v = draw(gen.value(T, small=True))
    qs = questions(T, v)
    if not qs:
        return {"T": T, "v": v, "path": [], "what": "none", "n": None}
    whats = sorted({w for _, w, _ in qs})
    w = draw(st.sampled_from(whats))
    path, what, n = draw(st.sampled_from([q for q in qs if q[1] == w]))
    return {"T": T, "v": v, "path": path, "what": what, "n": n}


def grid(tier):
    for i, (T, v) in enumerate(cases.seqs(tier)):
        for path, what, n in questions(T, v)[: (6 if tier == "quick" else 1000)]:
            yield {"T": T, "v": v, "path": path, "what": what, "n": n}


def specials(tier):
    """Values that are easily taken for 'nothing': zero, false, empty, leading zeros, the first enumeration."""
    C, SEQ, I = cases.C, cases.SEQ, cases.INT
    bits = {"k": "bits", "lb": None, "ub": None, "ext": False}
    octs = {"k": "octs", "lb": None, "ub": None, "ext": False}
    enum = {"k": "enum", "root": ["e0", "e1", "e2"], "ext": True, "adds": ["x0"]}
    lst = {"k": "seqof", "lb": None, "ub": None, "ext": False, "elem": I(0, 7)}
    vals = [(cases.BOOL, [False, True]), (I(0, 7), [0, 1, 7]), (I(None, None), [0, -1, 1]), (I(-3, 3), [0, -3]), (enum, ["e0", "e1", "x0"]),
            (bits, ["", "0", "00", "1", "01", "001", "10"]), (octs, ["", "00", "0000", "01", "0001"])]
    for t, xs in vals:
        for x in xs:
            for place in ("root", "add", "group"):
                for d in [None] + xs:
                    c = C("x", t, "O") if d is None else C("x", t, "D", d=d)
                    T = {"root": SEQ([C("a", cases.BOOL), c, C("z", I(0, 7))]),
                         "add": SEQ([C("a", cases.BOOL), C("z", I(0, 7))], True, [c, C("y", cases.BOOL, "O")]),
                         "group": SEQ([C("a", cases.BOOL), C("z", I(0, 7))], True, [], [[c, C("y", cases.BOOL, "O")]])}[place]
                    for y in ([None] if place == "root" else [None, False]):
                        v = {"a": True, "x": x, "z": 5}
                        if y is not None:
                            v["y"] = y
                        for path, what, n in questions(T, v):
                            if n == "x":
                                yield {"T": T, "v": v, "path": path, "what": what, "n": n}
    for xs in ([], [0], [0, 0]):
        for T in (SEQ([C("a", cases.BOOL), C("x", lst, "O")]), SEQ([C("a", cases.BOOL)], True, [C("x", lst, "O")]),
                  SEQ([C("a", cases.BOOL)], True, [], [[C("x", lst, "O"), C("y", cases.BOOL, "O")]])):
            yield {"T": T, "v": {"a": True, "x": xs}, "path": [], "what": "distinguishable", "n": "x"}


def matrix(tier):
    """Every presence pattern of two additions and three groups, mandatory and optional."""
    C, SEQ = cases.C, cases.SEQ
    names = ["a0", "a1", "g0", "g1", "h0", "i0"]
    t = {"a0": cases.INT(0, 7), "a1": cases.BOOL, "g0": cases.INT(0, 300), "g1": cases.BOOL, "h0": cases.INT(0, 7), "i0": cases.BOOL}
    val = {"a0": 0, "a1": True, "g0": 258, "g1": False, "h0": 7, "i0": False}
    for modes in range(64):
        c = {n: C(n, t[n], "O" if modes >> i & 1 else "M") for i, n in enumerate(names)}
        T = SEQ([C("r", cases.BOOL)], True, [c["a0"], c["a1"]], [[c["g0"], c["g1"]], [c["h0"]], [c["i0"]]])
        for there in range(64):
            v = {n: val[n] for i, n in enumerate(names) if there >> i & 1}
            v["r"] = True
            yield {"T": T, "v": v}


def check_matrix(case, ctx):
    T, v = case["T"], case["v"]
    units_ = [[c] for c in T["adds"]] + T["groups"]
    last = max([i for i, u in enumerate(units_) if any(c["n"] in v for c in u)] or [-1])
    complete = True
    for i, u in enumerate(units_[:last + 1]):
        missing = [c for c in u if c["m"] == "M" and c["n"] not in v]
        if missing and len(missing) < len(u) and not any(c["n"] in v for c in u):
            raise Discard()                  # whether a group of mandatory and optional members may be left out is not judged
        complete &= not missing
    ctx.note(["complete" if complete else "incomplete"])
    B = built(T)
    if not complete:
        try:
            e = encode(build.inst(B, v))
        except Exception:
            return
        raise Violation("a mandatory addition is missing before one that is present, but the message encodes as %s" % hexs(e))
    want = ref(enc, T, v)
    e = encode(build.inst(B, v))
    if e != want:
        raise Violation("additions present: %s; encodes as %s, expected %s" % (sorted(v), hexs(e), hexs(want)))
    got = build.extract(B, decode(e, B.cls()))
    if refper.canon(T, got) != refper.canon(T, v):
        raise Violation("additions present: %s; decoded as %s" % (sorted(v), short(got)))


def containers(tier):
    """Containers as components: never set, only looked at, and filled, alone and next to other components."""
    C, SEQ, I = cases.C, cases.SEQ, cases.INT
    opt = SEQ([C("p", cases.BOOL, "O"), C("q", I(0, 7), "O")])
    man = SEQ([C("p", cases.BOOL), C("q", I(0, 300))])
    ext = SEQ([C("p", cases.BOOL, "O")], True, [C("e", I(0, 7))])
    dfl = SEQ([C("p", I(0, 7), "D", d=3), C("q", cases.BOOL, "O")])
    outer = SEQ([C("n", SEQ([C("p", cases.BOOL, "O")]), "O")])
    kinds = [(opt, {"q": 5}), (man, {"p": True, "q": 256}), (ext, {"p": True, "e": 3}), (dfl, {"p": 4}), (outer, {"n": {"p": False}}),
             ({"k": "choice", "root": [C("l", cases.BOOL), C("r", man)], "ext": True, "adds": [C("z", opt)], "groups": []}, ["r", {"p": False, "q": 1}]),
             ({"k": "seqof", "lb": None, "ub": None, "ext": False, "elem": opt}, [{"p": True}]),
             ({"k": "seqof", "lb": 1, "ub": 3, "ext": False, "elem": cases.BOOL}, [True])]
    B = lambda n, m="O": C(n, cases.BOOL, m)
    for t, v in kinds:
        for m in "MO":
            x = C("x", t, m)
            for T, others in (
                    (SEQ([B("a", "M"), x, B("z", "M")]), []),
                    (SEQ([B("a", "M"), x, B("z", "M")], True, [B("y")]), ["y"]),
                    (SEQ([B("a", "M"), B("z", "M")], True, [x]), []),
                    (SEQ([B("a", "M"), B("z", "M")], True, [x, B("y", "M")]), ["y"]),
                    (SEQ([B("a", "M"), B("z", "M")], True, [B("y", "M"), x, B("u")]), ["y", "u"]),
                    (SEQ([B("a", "M"), B("z", "M")], True, [], [[x]]), []),
                    (SEQ([B("a", "M"), B("z", "M")], True, [], [[x, B("y", "M")]]), ["y"]),
                    (SEQ([B("a", "M"), B("z", "M")], True, [], [[x, B("y", "O")]]), ["y"]),
                    (SEQ([B("a", "M"), B("z", "M")], True, [], [[B("y", "M"), x]]), ["y"]),
                    (SEQ([B("a", "M"), B("z", "M")], True, [], [[B("y", "O"), x, B("u", "O")]]), ["y", "u"]),
                    (SEQ([B("a", "M"), B("z", "M")], True, [B("w")], [[x], [B("y", "M")]]), ["w", "y"]),
                    (SEQ([B("a", "M"), B("z", "M")], True, [x], [[B("y", "M")], [B("u", "M"), B("w", "O")]]), ["y", "u"])):
                for there in range(1 << len(others)):
                    rest = dict({"a": True, "z": False}, **{n: True for i, n in enumerate(others) if there >> i & 1})
                    for state in ("unset", "read", "getByName", "getByPosition", "encoded", "printed", "filled"):
                        yield {"T": T, "v": rest, "x": v, "state": state}


def look(o, how, T):
    """Look at the component x of o in one of the ways there are."""
    if how == "read":
        o["x"]
    elif how == "getByName":
        o.getComponentByName("x")
    elif how == "getByPosition":
        o.getComponentByPosition([c["n"] for c in refper.all_comps(T)].index("x"))
    elif how == "encoded":
        try:
            encode(o)
        except Exception:
            pass
    elif how == "printed":
        for f in (str, repr, lambda o: o.to_dict(), lambda o: o["x"].prettyPrint()):
            try:
                f(o)
            except Exception:
                pass


def outcome(o):
    try:
        return hexs(encode(o))
    except Exception:
        return "refused"


def check_containers(case, ctx):
    T, v, state = case["T"], case["v"], case["state"]
    B = built(T)
    xt = next(c for c in refper.all_comps(T) if c["n"] == "x")
    if state == "filled":
        v = dict(v, x=case["x"])
    ctx.note([state, xt["t"]["k"] + "-" + xt["m"]])
    o = build.inst(B, v)
    if state not in ("unset", "filled"):
        look(o, state, T)
    got = outcome(o)
    if state not in ("unset", "filled"):
        want = outcome(build.inst(B, v))
        if got != want:
            raise Violation("component x was only looked at (%s): the message encodes as %s, otherwise as %s" % (state, got, want))
    units_ = [[c] for c in T["adds"]] + T["groups"]
    present = [[c["n"] in v for c in u] for u in units_]
    last = max([i for i, p in enumerate(present) if any(p)] or [-1])
    judged = ok = True
    for i, u in enumerate(units_[:last + 1]):
        lacking = [c for c in u if c["m"] == "M" and c["n"] not in v]
        if lacking and len(lacking) < len(u) and not any(present[i]):
            judged = False                   # whether a group of mandatory and optional members may be left out is not judged
        ok &= not lacking
    if xt in T["root"] and "x" not in v and xt["m"] == "M":
        judged = False                       # a container never filled counts as empty; "missing-mandatory" has the others
    if not judged:
        return
    if not ok:
        if got != "refused":
            raise Violation("a mandatory component is missing (%s), but the message encodes as %s" % (sorted(v), got))
        return
    if xt["t"]["k"] == "seqof" and "x" not in v:
        return
    want = hexs(ref(enc, T, v))
    if got != want:
        raise Violation("components present: %s; encodes as %s, expected %s" % (sorted(v), got, want))


def units(tier):
    return [
        Unit("containers", check_containers, cases=containers),
        Unit("matrix", check_matrix, cases=matrix),
        Unit("specials", check, cases=specials),
        Unit("grid", check, cases=grid),
        Unit("nested", check, strategy=asked(gen.seq_type(2)), quick=3200, thorough=80000),
        Unit("deep", check, strategy=asked(gen.structured_type(3)), quick=800, thorough=20000),
    ]
