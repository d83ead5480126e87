"""C17 combined constraints: the effective constraint of unions, intersections and single values."""
from hypothesis import strategies as st
from lib import cases, gen, build, refper
from lib.common import encode, decode, hexs, short, ref_encode, Violation, Discard
from lib.runner import Unit, ref
from asn1PERser.classes.data.builtin import IntegerType, BitStringType, OctetStringType
from asn1PERser.classes.types.constraint import MIN, MAX, ValueRange, ValueSize, SingleValue, ConstraintOr, ConstraintAnd

RULE = ("A case is an INTEGER, BIT STRING or OCTET STRING whose constraint is a tree of ValueRange/ValueSize/SingleValue leaves under ConstraintOr/ConstraintAnd "
        "(extensible or not at the outermost level), and a value. Oracle: plain set arithmetic gives membership and the effective bounds, the reference codec the octets. "
        "Non-trivial: the tree has at least two leaves or a SingleValue, the set is not empty; distinct = distinct JSON of the case.")
ASSUMPTIONS = ["operands of an intersection are intervals (for others the library keeps the intersection of the hulls)",
               "values inside the hull but outside the root of an extensible constraint are not generated"]


# expr: ["r", lo|None, hi|None] | ["s", [values]] | ["or", [exprs]] | ["and", [interval exprs]]
def member(e, x):
    if e[0] == "r":
        return refper.in_range(x, e[1], e[2])
    if e[0] == "s":
        return x in e[1]
    return (any if e[0] == "or" else all)(member(s, x) for s in e[1])


def hull(e):
    """(lo, hi) or None if empty; None endpoints are infinite."""
    if e[0] == "r":
        return e[1], e[2]
    if e[0] == "s":
        return min(e[1]), max(e[1])
    hs = [hull(s) for s in e[1]]
    los, his = [h[0] for h in hs], [h[1] for h in hs]
    if e[0] == "or":
        return (None if None in los else min(los)), (None if None in his else max(his))
    los, his = [x for x in los if x is not None], [x for x in his if x is not None]
    lo, hi = (max(los) if los else None), (min(his) if his else None)
    return lo, hi


def nonempty(e):
    if e[0] in ("r", "s"):
        return True
    if e[0] == "or":
        return all(nonempty(s) for s in e[1])
    lo, hi = hull(e)
    return lo is None or hi is None or lo <= hi


def constraint(e, leaf, ext=False):
    if e[0] == "r":
        lo, hi = MIN if e[1] is None else e[1], MAX if e[2] is None else e[2]
        return leaf(lo, hi, extensionMarker=True) if ext else leaf(lo, hi)
    if e[0] == "s":
        return SingleValue(ext, *e[1])
    cls = ConstraintOr if e[0] == "or" else ConstraintAnd
    return cls(ext, *[constraint(s, leaf) for s in e[1]])


def interesting(e, k):
    out = set()

    def add(s):
        if s[0] == "r":
            for b in (s[1], s[2]):
                if b is not None:
                    out.update([b - 1, b, b + 1])
            if s[1] is not None and s[2] is not None:
                out.add((s[1] + s[2]) // 2)
        elif s[0] == "s":
            for x in s[1]:
                out.update([x - 1, x, x + 1])
        else:
            for q in s[1]:
                add(q)
    add(e)
    out.update([0, 1, 300])
    return sorted(x for x in out if k == "int" or 0 <= x <= 600)


BASE = {"int": (IntegerType, ValueRange), "bits": (BitStringType, ValueSize), "octs": (OctetStringType, ValueSize)}


def check(case, ctx):
    k, e, ext, x = case["k"], case["e"], case["ext"], case["x"]
    if not ref(nonempty, e):
        raise Discard()
    base, leaf = BASE[k]
    lo, hi = ref(hull, e)
    T = {"k": k, "lb": lo if k == "int" else (lo or 0), "ub": hi, "ext": ext}
    inside = ref(member, e, x)
    cls = type("T", (base,), {"subtypeSpec": constraint(e, leaf, ext)})
    B = build.Built(T, cls, {})
    v = x if k == "int" else ("10" * x)[:x] if k == "bits" else "a5" * x
    if ext and not inside and refper.in_range(x, T["lb"], T["ub"]):
        raise Discard()
    W = cases.SEQ([cases.C("p", cases.BOOL), cases.C("x", T), cases.C("t", cases.I3)])
    wv = {"p": True, "x": v, "t": 2}
    WB = build.make(cases.SEQ([cases.C("p", cases.BOOL), cases.C("x", {"k": "bool"}), cases.C("t", cases.I3)]))
    from pyasn1.type.namedtype import NamedType
    from asn1PERser.classes.types.type import AdditiveNamedTypes
    from asn1PERser.classes.data.builtin import SequenceType
    comp = AdditiveNamedTypes(NamedType("p", WB.kids["p"].cls()), NamedType("x", cls()), NamedType("t", WB.kids["t"].cls()))
    WB = build.Built(W, type("W", (SequenceType,), {"rootComponent": comp, "componentType": comp}),
                     {"p": WB.kids["p"], "x": B, "t": WB.kids["t"]})
    ctx.note([k, "in" if inside else "out", e[0]], nontrivial=e[0] != "r")
    if not inside and not ext:
        try:
            got = encode(build.inst(WB, wv))
        except Exception:
            got = None
        if got is not None:
            raise Violation("%r is outside the constraint but was encoded as %s" % (v, hexs(got)))
        if refper.in_range(x, T["lb"], T["ub"]):
            # in the hull: the wire can carry it, decode must refuse it
            data = ref_encode(W, wv)
            try:
                d = decode(data, WB.cls())
            except Exception:
                return
            raise Violation("octets %s carry %r, outside the constraint, but decode returned %s" % (hexs(data), v, short(str(d))))
        return
    want = ref_encode(W, wv)
    got = encode(build.inst(WB, wv))
    if got != want:
        raise Violation("effective bounds are %s..%s: expected %s, got %s" % (lo, hi, hexs(want), hexs(got)))
    d = build.extract(WB, decode(want, WB.cls()))
    if d != wv:
        raise Violation("decoded %s, expected %s" % (short(d), short(wv)))


@st.composite
def interval(draw, k):
    lim = st.integers(-20, 400) if k == "int" else st.integers(0, 40)
    big = st.sampled_from([255, 256, 257, 65535, 65536, 70000, 2 ** 32]) if k == "int" else st.sampled_from([64, 127, 128, 300])
    lo = draw(lim)
    form = draw(st.integers(0, 7))
    if form == 0:
        return ["r", lo, None]
    if form == 1 and k == "int":
        return ["r", None, lo]
    if form == 2:
        return ["r", lo, lo + draw(big)]
    return ["r", lo, lo + draw(st.integers(0, 30))]


@st.composite
def exprs(draw, k, depth=2):
    form = draw(st.sampled_from(["or", "or", "and", "s", "r"] if k == "int" else ["or", "or", "and", "r"]))
    if form == "s":
        return ["s", draw(st.lists(st.integers(-20, 400), min_size=1, max_size=draw(st.sampled_from([4, 4, 12])), unique=True))]
    if form == "and":
        return ["and", draw(st.lists(interval(k), min_size=2, max_size=draw(st.sampled_from([3, 3, 6]))))]
    if form == "or" and depth:
        return ["or", draw(st.lists(exprs(k, depth - 1), min_size=2, max_size=draw(st.sampled_from([3, 3, 8]))))]
    return draw(interval(k))


@st.composite
def questions(draw):
    k = draw(st.sampled_from(["int", "int", "bits", "octs"]))
    e = draw(exprs(k))
    return {"k": k, "e": e, "ext": draw(st.booleans()), "x": draw(st.sampled_from(interesting(e, k)))}


def grid(tier):
    leaves = [["r", 1, 3], ["r", 7, 9], ["r", 0, 255], ["r", 5, None], ["r", 3, 3]]
    for k in ("int", "bits", "octs"):
        es = list(leaves) + ([["s", [4]], ["s", [1, 6]], ["s", [250, 0, 9]], ["r", None, 4]] if k == "int" else [])
        trees = list(es)
        for a in es:
            for b in es:
                trees.append(["or", [a, b]])
                if a[0] == "r" and b[0] == "r":
                    trees.append(["and", [a, b]])
                    trees.append(["or", [["and", [a, b]], ["r", 100, 120]]])
        for e in trees:
            if not nonempty(e):
                continue
            for ext in (False, True):
                for x in interesting(e, k):
                    yield {"k": k, "e": e, "ext": ext, "x": x}


def signs(tier):
    """Single values, unions and intersections across zero and across the octet boundaries, in every order."""
    pool = [-65537, -300, -129, -128, -20, -1, 0, 1, 5, 127, 128, 255, 256, 300, 65536]
    trees = []
    for a in pool:
        for b in pool:
            if a != b:
                trees.append(["s", [a, b]])
                if abs(a) != abs(b):
                    c = pool[(pool.index(a) * 7 + pool.index(b) * 3 + 5) % len(pool)]
                    if c not in (a, b):
                        trees.append(["s", [a, b, c]])
            if a <= b:
                trees.append(["r", a, b])
                c = pool[(pool.index(a) + 2 * pool.index(b) + 3) % len(pool)]
                for t in (["r", c, None], ["r", None, c], ["r", -c if c > 0 else c, abs(c)], ["s", [c]]):
                    trees.append(["or", [["r", a, b], t]])
                    trees.append(["or", [t, ["r", a, b]]])
                    if t[0] == "r":
                        trees.append(["and", [["r", a, b], t]])
                        trees.append(["and", [t, ["r", a, b], ["r", -70000, 70000]]])
                        trees.append(["and", [["r", -70000, 70000], t, ["r", a, b]]])
    for i, e in enumerate(trees):
        if nonempty(e):
            for ext in (False, True) if tier == "thorough" else (i % 4 == 0,):
                for x in interesting(e, "int"):
                    yield {"k": "int", "e": e, "ext": ext, "x": x}


def many(tier):
    """Unions, intersections and single values of many elements, the outermost one at every place."""
    for n in (4, 5, 6, 8, 9, 12, 16, 17, 33, 70):
        for k in ("int", "bits", "octs"):
            step = 3 if k == "int" else 7 if n < 33 else 3
            for base in (0, -3 * (n // 2), 1) if k == "int" else (0, 2):
                pts = [base + step * i for i in range(n)]
                for rot in sorted({0, 1, n // 2, n - 1}):
                    order = pts[rot:] + pts[:rot]
                    for o in (order, order[::-1]):
                        es = [["or", [["r", p, p + i % 2] for i, p in enumerate(o)]]]
                        es.append(["and", [["r", p, max(pts) + p + 5] for p in o]])
                        if k == "int":
                            es.append(["s", o])
                            es.append(["or", [["s", o[:2]]] + [["r", p, p] for p in o[2:]]])
                            es.append(["and", [["r", min(pts) - 5 + p, max(pts) + 9] for p in o]])
                        if rot == 1:
                            es.append(["or", [["r", p, p + 1] for p in o] + [["r", max(pts) + 3, None]]])
                        for j, e in enumerate(es):
                            if nonempty(e):
                                xs = interesting(e, k)
                                xs = xs[:5] + xs[-5:] + [0] if tier == "quick" else xs
                                for x in xs:
                                    yield {"k": k, "e": e, "ext": (rot + j) % 3 == 0, "x": x}


def units(tier):
    return [Unit("many", check, cases=many), Unit("grid", check, cases=grid), Unit("signs", check, cases=signs), Unit("random", check, strategy=questions(), quick=6000, thorough=200000)]
