"""C04 decode conformance: what any conforming encoder sends is understood."""
from hypothesis import strategies as st
from lib import cases, gen, build, refper
from lib.common import encode, decode, unpack, note, grid, offset_sweep, thin, hexs, short, Violation, Discard
from lib.runner import Unit, ref

RULE = ("A case is a generated type and valid value, bare or at a bit offset, with the octets produced by the reference encoder: "
        "canonical, with DEFAULT components sent explicitly (basic PER allows it for scalar defaults), and with present SEQUENCEs that have no "
        "component present. Non-trivial: encodable without fragmentation; distinct = distinct JSON of the case.")
ASSUMPTIONS = ["lib/refper.py (written from X.691) is the oracle and the peer encoder"]


def check(case, ctx):
    B, T, v = unpack(case)
    canonical = ref(_enc, T, v, False)
    data = ref(_enc, T, v, True) if case.get("explicit") else canonical
    note(ctx, T, v)
    if data != canonical:
        ctx.labels["explicit-default-on-the-wire"] += 1
    d = decode(data, B.cls())
    got = refper.canon(T, build.extract(B, d))
    want = refper.canon(T, v)
    if got != want:
        raise Violation("decode(%s) = %s, the octets mean %s" % (hexs(data), short(got), short(want)))
    e = encode(d)
    if e != canonical:
        raise Violation("re-encoding the decoded value gives %s, expected %s" % (hexs(e), hexs(canonical)))


def _enc(T, v, explicit):
    try:
        return refper.encode(T, v, explicit=explicit)
    except (refper.Unsupported, ValueError):      # ValueError: explicit default in a group whose mandatory member is absent
        raise Discard()


@st.composite
def loose_value(draw, T):
    """Like gen.value, but DEFAULT components are often spelled out with their
    default and inner SEQUENCEs may be present with nothing in them."""
    k = T["k"]
    if k == "seq":
        v = {}
        for c in T["root"]:
            put(draw, c, v, T)
        total = len(T["adds"]) + len(T["groups"])
        p = draw(st.integers(0, total)) if total else 0
        for c in T["adds"][:p]:
            put(draw, c, v, T)
        for g in T["groups"][:max(0, p - len(T["adds"]))]:
            for c in g:
                put(draw, c, v, T)
        return v
    if k == "choice":
        c = draw(st.sampled_from(T["root"] + refper.choice_ext(T)))
        return [c["n"], draw(loose_value(c["t"]))]
    if k == "seqof":
        n = draw(st.sampled_from(gen.size_candidates(T["lb"], T["ub"], T["ext"], 6)))
        vals = [draw(loose_value(T["elem"])) for _ in range(min(n, 2))]
        return [vals[i % len(vals)] for i in range(n)]
    return draw(gen.value(T, small=True))


def put(draw, c, v, T):
    if c["m"] == "M":
        v[c["n"]] = draw(loose_value(c["t"]))
        return
    how = draw(st.integers(0, 3))
    if how == 0:
        return
    if c["m"] == "D" and how == 1:
        v[c["n"]] = c["d"]
    else:
        v[c["n"]] = draw(loose_value(c["t"]))


@st.composite
def loose(draw, types):
    T = draw(types)
    return {"T": T, "v": draw(loose_value(T)), "explicit": draw(st.booleans())}


def explicit_seqs(tier):
    for i, (T, v) in enumerate(cases.seqs(tier)):
        if any(c["m"] == "D" and c["n"] in v and v[c["n"]] == c["d"] for c in refper.all_comps(T)):
            yield {"T": T, "v": v, "explicit": True}


def units(tier):
    return [
        Unit("explicit-defaults", check, cases=explicit_seqs),
        Unit("empties", check, cases=grid(cases.empties)),
        Unit("big", check, cases=grid(cases.big)),
        Unit("structures", check, cases=grid(cases.structures)),
        Unit("nested", check, strategy=loose(gen.structured_type(2)), quick=2400, thorough=80000),
        Unit("deep", check, strategy=loose(gen.structured_type(3)), quick=500, thorough=16000),
        Unit("scalar-random", check, strategy=gen.typed_value(gen.scalar_type()), quick=2000, thorough=100000),
        Unit("offsets", check, cases=offset_sweep(cases.scalars, 61)),
        Unit("scalars", check, cases=grid(thin(cases.scalars, 2))),
    ]
