"""C21 calls from several threads at once give the results of calls one after the other."""
from hypothesis import strategies as st
from lib import cases, gen, build, interleave, refper, schema
from lib.common import decode, encode, built, hexs, short, Violation, Discard
from lib.common_schema import parse_asn1_schema
from lib.runner import Unit, ref

RULE = ("A case is two calls (encode, building and encoding, decode, decode of damaged octets, to_dict, print, parse_asn1_schema) on generated types, values and "
        "modules, of the same or different types, on separate or the same objects, and a schedule: the second call runs completely, or for a number of steps, "
        "when the first has executed k lines (or byte codes) of the library, for up to 12 values of k spread over the whole call (every line of it for the fixed types), or the two alternate by a generated plan. "
        "Non-trivial: the threads were handed over at least once; distinct = distinct JSON of the case.")
ASSUMPTIONS = ["threads change hands at line or byte code boundaries of the library's own code",
               "a message is not changed by one thread while another one uses it"]


def make(B, T, v, op, shared):
    """-> (callable, expected outcome or None)"""
    try:
        data = refper.encode(T, v)
    except refper.Unsupported:
        raise Discard()
    if op == "encode":
        o = shared.setdefault("obj", build.inst(B, v)) if shared is not None else build.inst(B, v)
        return lambda: encode(o)
    if op == "build":
        return lambda: encode(build.inst(B, v))
    if op == "decode":
        spec = shared.setdefault("spec", B.cls()) if shared is not None else B.cls()
        return lambda: refper.canon(T, build.extract(B, decode(data, spec)))
    if op == "cut":
        bad = data[:len(data) // 2] + b"\xff" * (len(data) % 3)
        return lambda: refper.canon(T, build.extract(B, decode(bad, B.cls())))
    if op == "dict":
        o = shared.setdefault("obj", build.inst(B, v)) if shared is not None else build.inst(B, v)
        return lambda: short(o.to_dict())
    o = shared.setdefault("obj", build.inst(B, v)) if shared is not None else build.inst(B, v)
    return lambda: o.prettyPrint() if hasattr(o, "prettyPrint") else str(o)


def outcome(f):
    try:
        return "value", f()
    except Exception as e:
        return "raised", type(e).__name__


def explore(fs, want, case, ctx, what, points, patience):
    (r0, r1), steps, _ = interleave.run(fs, [], case["opcodes"], patience)
    n = steps[0]
    if case["plan"]:
        plans = [case["plan"]]
    else:
        stride = max(1, n // points)
        first = 1 + case["start"] % stride
        plans = [[k] + ([case["burst"]] if case["burst"] else []) for k in list(range(first, n, stride))[:points + 2]]
    switched = False
    for plan in plans:
        out, _, switches = interleave.run(fs, plan, case["opcodes"], patience)
        switched |= switches > 0
        for i in (0, 1):
            if out[i] is None:
                raise Violation("%s: call %d does not return when run at the same time as another (plan %s)" % (what, i, plan))
            if out[i] != want[i]:
                raise Violation("%s: call %d gives %s when run at the same time as another (plan %s), alone %s" % (what, i, short(out[i]), plan, short(want[i])))
    ctx.note([what], nontrivial=switched)


def check_codec(case, ctx):
    T1, T2 = case["T"][0], case["T"][-1]
    B1, B2 = built(T1), built(T2)
    v1, v2 = case["v"][0], case["v"][-1]
    same = len(case["T"]) == 1 and len(case["v"]) == 1
    shared = {} if same and case["shared"] else None
    fs = [make(B1, T1, v1, case["ops"][0], shared), make(B2, T2, v2, case["ops"][1], shared)]
    want = [outcome(f) for f in fs]
    explore(fs, want, case, ctx, "%s/%s%s" % (case["ops"][0], case["ops"][1], "/shared" if shared is not None else ""), case.get("points", 10), 5.0)


def check_parse(case, ctx):
    texts = [schema.plain_text(m) for m in case["mods"]]
    if case["cut"]:
        texts[1] = texts[1][:len(texts[1]) * case["cut"] // 8]
    fs = [lambda: parse_asn1_schema(texts[0]), lambda: parse_asn1_schema(texts[1])]
    want = [outcome(f) for f in fs]
    explore(fs, want, case, ctx, "parse", 4, 0.03)


@st.composite
def codec_pairs(draw):
    how = draw(st.integers(0, 3))
    types = gen.structured_type(2) if draw(st.integers(0, 3)) else gen.scalar_type()
    T = [draw(types)]
    v = [draw(gen.value(T[0], small=True))]
    if how == 1:
        v.append(draw(gen.value(T[0], small=True)))
    elif how > 1:
        T.append(draw(gen.structured_type(2)))
        v.append(draw(gen.value(T[1], small=True)))
    op = st.sampled_from(["encode", "build", "decode", "decode", "cut", "dict", "print"])
    return dict({"T": T, "v": v, "ops": [draw(op), draw(op)], "shared": draw(st.booleans())}, **draw(schedule()))


@st.composite
def schedule(draw, opcodes=True):
    how = draw(st.integers(0, 4))
    return {"opcodes": opcodes and draw(st.integers(0, 5)) == 0, "start": draw(st.integers(0, 400)),
            "burst": draw(st.sampled_from([0, 0, 1, 3, 10, 40])),
            "plan": draw(st.lists(st.integers(1, 60), min_size=3, max_size=30)) if how == 0 else []}


@st.composite
def parse_pairs(draw):
    mods = [draw(schema.module(max_types=2, depth=1)), draw(schema.module(max_types=2, depth=1))]
    return dict({"mods": mods, "cut": draw(st.sampled_from([0, 0, 0, 1, 4, 7]))}, **draw(schedule(False)))


def dense(tier):
    """Every feature of the codec, two different values of the same type, and every line as a point to change hands."""
    O = {"k": "octs", "lb": 0, "ub": 4, "ext": False}
    E = {"k": "enum", "root": ["e0", "e1", "e2"], "ext": True, "adds": ["x0", "x1"]}
    inner = cases.SEQ([cases.C("p", cases.I3), cases.C("q", cases.BOOL, "O")])
    of = {"k": "seqof", "lb": 0, "ub": 3, "ext": False, "elem": inner}
    ch = cases.CHOICE([cases.C("c0", cases.BOOL), cases.C("c1", cases.I3)], True, [cases.C("c2", O)], [[cases.C("c3", cases.INT(0, 300)), cases.C("c4", cases.BOOL)]])
    group = cases.SEQ([cases.C("r0", cases.I3)], True, [cases.C("a0", O, "O")], [[cases.C("g0c0", cases.I3), cases.C("g0c1", O, "O")], [cases.C("g1c0", cases.BOOL)]])
    pairs = [
        (group, {"r0": 1, "a0": "aa", "g0c0": 2, "g0c1": "0102", "g1c0": True}, {"r0": 6, "g0c0": 5, "g0c1": "ff", "g1c0": False}),
        (group, {"r0": 1, "g0c0": 2}, {"r0": 2, "a0": "bbcc"}),
        (cases.SEQ([cases.C("r0", cases.BOOL)], True, [], [[cases.C("g0c0", group, "O"), cases.C("g0c1", ch, "O")]]),
         {"r0": True, "g0c0": {"r0": 3, "g0c0": 4, "g1c0": True}}, {"r0": False, "g0c1": ["c3", 256]}),
        (cases.SEQ([cases.C("r0", cases.I3, "O"), cases.C("r1", cases.INT(0, 300), "D", d=7), cases.C("r2", cases.BOOL)]), {"r0": 1, "r2": True}, {"r1": 299, "r2": False}),
        (of, [{"p": 1}, {"p": 2, "q": True}], [{"p": 7, "q": False}]),
        ({"k": "seqof", "lb": None, "ub": None, "ext": False, "elem": ch}, [["c0", True], ["c2", "0a"]], [["c4", True], ["c1", 6], ["c3", 300]]),
        (ch, ["c2", "aabb"], ["c3", 17]), (ch, ["c0", True], ["c4", False]),
        (cases.SEQ([cases.C("r0", E), cases.C("r1", E)]), {"r0": "e2", "r1": "x1"}, {"r0": "x0", "r1": "e1"}),
        (cases.SEQ([cases.C("r0", cases.INT(None, None)), cases.C("r1", cases.INT(3, None)), cases.C("r2", cases.INT(-5, 70000, True))]),
         {"r0": -129, "r1": 300, "r2": 70001}, {"r0": 1 << 40, "r1": 3, "r2": 69999}),
        (cases.SEQ([cases.C("r0", {"k": "bits", "lb": 3, "ub": 20, "ext": True}), cases.C("r1", {"k": "bits", "lb": None, "ub": None, "ext": False})]),
         {"r0": "10101", "r1": "111"}, {"r0": "1" * 21, "r1": "0" * 30}),
    ]
    for T, v1, v2 in pairs:
        for ops in (["encode", "encode"], ["build", "build"], ["decode", "decode"], ["encode", "decode"], ["decode", "build"], ["dict", "encode"], ["print", "decode"]):
            for vs in ([v1, v2], [v2, v1]) if ops[0] == ops[1] or tier == "thorough" else ([v1, v2],):
                for burst in (0, 17):
                    yield {"T": [T], "v": vs, "ops": ops, "shared": False, "opcodes": False, "start": 0, "burst": burst, "plan": [], "points": 400}


def units(tier):
    return [
        Unit("dense", check_codec, cases=dense),
        Unit("codec", check_codec, strategy=codec_pairs(), quick=700, thorough=30000),
        Unit("parse", check_parse, strategy=parse_pairs(), quick=48, thorough=4000),
    ]
