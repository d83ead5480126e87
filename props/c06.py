"""C06 extension compatibility between schema versions."""
from hypothesis import strategies as st
from lib import cases, gen, build, refper
from lib.common import encode, decode, built, hexs, short, Violation, Discard
from lib.runner import Unit, ref

RULE = ("A case is a newer type, an older version of it made by dropping the last extension additions / addition groups of every "
        "extensible SEQUENCE, CHOICE and ENUMERATED inside it (some kept), and a value of the newer one. Forward: octets of the newer version are "
        "decoded with the older type; backward: octets of the older version with the newer type. Non-trivial: the types differ and the value is expressible "
        "in the older version (no unknown alternative or enumeration); distinct = distinct JSON of the case.")
ASSUMPTIONS = ["an unknown CHOICE alternative or enumeration has no representation in the older type and is out of scope (it must not be misread: C07)"]


class Unknown(Exception):
    pass


def project(To, Tn, v):
    k = Tn["k"]
    if k == "enum":
        if v not in To["root"] and v not in To["adds"]:
            raise Unknown()
        return v
    if k == "seqof":
        return [project(To["elem"], Tn["elem"], x) for x in v]
    if k == "seq":
        old = {c["n"]: c["t"] for c in refper.all_comps(To)}
        new = {c["n"]: c["t"] for c in refper.all_comps(Tn)}
        return {n: project(old[n], new[n], x) for n, x in v.items() if n in old}
    if k == "choice":
        old = {c["n"]: c["t"] for c in refper.all_comps(To)}
        new = {c["n"]: c["t"] for c in refper.all_comps(Tn)}
        if v[0] not in old:
            raise Unknown()
        return [v[0], project(old[v[0]], new[v[0]], v[1])]
    return v


def check(case, ctx):
    To, Tn, v = case["old"], case["new"], case["v"]
    if To == Tn:
        raise Discard()
    try:
        vo = project(To, Tn, v)
        bn = refper.encode(Tn, v)
        bo = refper.encode(To, vo)
        bno = refper.encode(Tn, vo)
    except (Unknown, refper.Unsupported):
        raise Discard()
    except ValueError:            # an older group left without its mandatory member
        raise Discard()
    Bo, Bn = build.make(To), build.make(Tn)
    ctx.note(["forward:unknown-additions-on-the-wire" if bn != bo else "same-octets"] + sorted(gen.features(Tn, v)))
    d = decode(bn, Bo.cls())
    got, want = refper.canon(To, build.extract(Bo, d)), refper.canon(To, vo)
    if got != want:
        raise Violation("older decoder reads %s as %s, expected %s" % (hexs(bn), short(got), short(want)))
    e = encode(d)
    if e != bo:
        raise Violation("older version re-encodes %s, expected %s" % (hexs(e), hexs(bo)))
    d = decode(bo, Bn.cls())
    got, want = refper.canon(Tn, build.extract(Bn, d)), refper.canon(Tn, vo)
    if got != want:
        raise Violation("newer decoder reads %s as %s, expected %s" % (hexs(bo), short(got), short(want)))
    e = encode(d)
    if e != bno:
        raise Violation("newer version re-encodes %s, expected %s" % (hexs(e), hexs(bno)))


@st.composite
def older(draw, T):
    k = T["k"]
    if k == "seqof":
        return dict(T, elem=draw(older(T["elem"])))
    if k == "enum" and T["ext"] and T["adds"]:
        n = draw(st.integers(0, len(T["adds"])))
        out = dict(T, adds=T["adds"][:n])
        if "an" in T:
            out["an"] = T["an"][:n]
        return out
    if k in ("seq", "choice"):
        def sub(cs):
            # a DEFAULT must stay expressible, so its type is not cut
            return [c if c["m"] == "D" else dict(c, t=draw(older(c["t"]))) for c in cs]
        total = len(T["adds"]) + len(T["groups"])
        keep = draw(st.integers(0, total)) if total else 0
        adds = T["adds"][:keep]
        groups = T["groups"][:max(0, keep - len(T["adds"]))]
        return dict(T, root=sub(T["root"]), adds=sub(adds), groups=[sub(g) for g in groups])
    return T




@st.composite
def versions(draw, types):
    Tn = draw(types)
    To = draw(older(Tn))
    return {"new": Tn, "old": To, "v": draw(gen.value(Tn))}


def extensible(depth):
    @st.composite
    def f(draw):
        T = draw(gen.seq_type(depth))
        if not T["ext"]:
            T["ext"] = True
        n = draw(st.integers(1, 4))
        T["adds"] = T["adds"] + [draw(gen.comp("x%d" % i, depth - 1)) for i in range(n)]
        if draw(st.booleans()):
            T["groups"] = T["groups"] + [[draw(gen.comp("y0c0", depth - 1))], [draw(gen.comp("y1c0", 0)), draw(gen.comp("y1c1", 0))]]
        return T
    return f()


@st.composite
def around(draw, depth):
    """An extensible type followed by more fields, in a list, or alone."""
    T = draw(extensible(depth))
    how = draw(st.sampled_from(["bare", "field", "list", "choice", "open"]))
    C = cases.C
    if how == "field":
        return cases.SEQ([C("p", cases.BOOL), C("x", T), C("t", cases.INT(0, 1000))])
    if how == "list":
        return {"k": "seqof", "lb": 0, "ub": 3, "ext": False, "elem": T}
    if how == "choice":
        return cases.CHOICE([C("p", cases.BOOL), C("x", T)])
    if how == "open":
        return cases.SEQ([C("p", cases.BOOL)], True, [C("x", T, "O"), C("t", cases.I3, "O")])
    return T


def grid(tier):
    """n additions sent, k known: every k<=n<=8 and counts around 64, with every parity of presence, followed by a field."""
    ts = [cases.I3, cases.BOOL, {"k": "octs", "lb": None, "ub": None, "ext": False}, cases.INT(0, 300)]
    vals = [5, True, "00ff10", 299]
    top = list(range(1, 9)) + [16, 33, 62, 63, 64]
    for n in top:
        for k in sorted(set(list(range(0, min(n, 9))) + [n - 1, n // 2])):
            for groups in (0, 1, 2):
                if groups > n:
                    continue
                na = n - groups
                adds = [cases.C("a%d" % i, ts[i % 4], "O") for i in range(na)]
                grs = [[cases.C("g%dc0" % g, cases.I3, "O"), cases.C("g%dc1" % g, ts[2], "O")] for g in range(groups)]
                root = [cases.C("r", cases.BOOL)]
                new = cases.SEQ(root, True, adds, grs)
                old = cases.SEQ(root, True, adds[:k], grs[:max(0, k - na)])
                for pat in (lambda i: True, lambda i: i % 2 == 0, lambda i: i == n - 1, lambda i: i >= k, lambda i: i < k, lambda i: False):
                    v = {"r": True}
                    for i in range(na):
                        if pat(i):
                            v["a%d" % i] = vals[i % 4]
                    for g in range(groups):
                        if pat(na + g):
                            v["g%dc1" % g] = "beef"
                    yield {"new": cases.SEQ([cases.C("x", new), cases.C("t", cases.INT(0, 1000))]),
                           "old": cases.SEQ([cases.C("x", old), cases.C("t", cases.INT(0, 1000))]), "v": {"x": v, "t": 777}}
    # many addition groups of a later version
    for n in (3, 4, 7, 8, 15, 31, 32, 33, 61, 62, 63, 64):
        for na in (0, 1):
            if na + n > 64:
                continue
            adds = [cases.C("a", cases.I3, "O")][:na]
            grs = [[cases.C("g%dc0" % g, cases.I3, "O"), cases.C("g%dc1" % g, ts[2], "O")] for g in range(n)]
            new = cases.SEQ([cases.C("r", cases.BOOL)], True, adds, grs)
            for k in sorted({0, 1, 2, n // 2, n - 1}):
                old = dict(new, groups=grs[:k])
                for pat in (lambda i: True, lambda i: i % 2 == 0, lambda i: i == n - 1, lambda i: i == k, lambda i: i < k):
                    v = {"r": True}
                    for g in range(n):
                        if pat(g):
                            v["g%dc%d" % (g, g % 2)] = 5 if g % 2 == 0 else "beef"
                    yield {"new": cases.SEQ([cases.C("x", new), cases.C("t", cases.INT(0, 1000))]),
                           "old": cases.SEQ([cases.C("x", old), cases.C("t", cases.INT(0, 1000))]), "v": {"x": v, "t": 777}}
    # long unknown additions: open type lengths in both forms
    for ln in (1, 2, 126, 127, 128, 129, 300, 5000, 16000):
        new = cases.SEQ([cases.C("r", cases.BOOL)], True, [cases.C("a", ts[2], "O"), cases.C("b", ts[2], "O"), cases.C("c", cases.BOOL, "O")])
        for k in (0, 1, 2):
            old = dict(new, adds=new["adds"][:k])
            yield {"new": cases.SEQ([cases.C("x", new), cases.C("t", cases.INT(0, 1000))]),
                   "old": cases.SEQ([cases.C("x", old), cases.C("t", cases.INT(0, 1000))]),
                   "v": {"x": {"r": True, "a": "ab" * ln, "b": "cd" * (ln - 1), "c": True}, "t": 3}}


def units(tier):
    return [
        Unit("grid", check, cases=grid),
        Unit("nested", check, strategy=versions(around(1)), quick=2400, thorough=80000),
        Unit("deep", check, strategy=versions(around(2)), quick=800, thorough=30000),
        Unit("any", check, strategy=versions(gen.structured_type(3)), quick=800, thorough=30000),
    ]
