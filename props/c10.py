"""C10 to_dict faithfully mirrors the message and is JSON-serialisable."""
import json
import sys
from lib import cases, gen, build, refper
from lib.common import encode, decode, built, note, thin, grid, short, unpack, ref_encode, Violation
from lib.runner import Unit, ref
from props import c04

sys.set_int_max_str_digits(0)        # JSON text of a BIT STRING of 16383 bits

RULE = ("A case is a generated type and value; to_dict() of the built and of the decoded message is compared with the value itself in the documented "
        "representation (numbers, names, lower-case hex, BIT STRING as integer, lists, one-key dict for CHOICE, components in schema order with DEFAULTs filled in). "
        "Non-trivial: encodable without fragmentation; distinct = distinct JSON of the case.")
ASSUMPTIONS = ["a BIT STRING is shown as an integer, as the README documents, so its length is not part of the comparison"]


def expected(T, v, built):
    k = T["k"]
    if k == "bits":
        return int(v, 2) if v else 0
    if k == "seqof":
        return [expected(T["elem"], x, built) for x in v]
    if k == "choice":
        t = [c["t"] for c in refper.all_comps(T) if c["n"] == v[0]][0]
        return {v[0]: expected(t, v[1], built)}
    if k == "seq":
        out = {}
        for c in refper.all_comps(T):
            if c["n"] in v:
                out[c["n"]] = expected(c["t"], v[c["n"]], built)
            elif c["m"] == "D":
                out[c["n"]] = expected(c["t"], c["d"], built)
        return out
    return v


def same(a, b):
    """Equality that does not take True for 1 and compares key order."""
    if isinstance(b, dict):
        return isinstance(a, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in b)
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, bool) or isinstance(a, bool):
        return type(a) is type(b) and a == b
    if isinstance(b, int):
        return type(a) is int and a == b
    return isinstance(a, str) and a == b


def check(case, ctx):
    B, T, v = unpack(case)
    data = ref_encode(T, v)
    note(ctx, T, v)
    for who, o in (("built", build.inst(B, v)), ("decoded", decode(data, B.cls()))):
        got = o.to_dict()
        want = ref(expected, T, v, who == "built")
        if not same(got, want):
            raise Violation("to_dict of the %s message is %s, expected %s" % (who, short(got), short(want)))
        if json.loads(json.dumps(got)) != json.loads(json.dumps(want)):
            raise Violation("to_dict of the %s message does not survive JSON" % who)
        wreck(got)
        if not same(o.to_dict(), want):
            raise Violation("second to_dict of the %s message differs" % who)


def wreck(d):
    """Change the result of to_dict: the message must not notice."""
    for x in list(d.values()) if isinstance(d, dict) else list(d) if isinstance(d, list) else ():
        wreck(x)
    if isinstance(d, (dict, list)):
        d.clear()


def bare(B, v, how):
    """Like build.inst, but lists without elements are only created (how 0), or not even that where they are mandatory (how 1)."""
    k = B.T["k"]
    o = B.cls()
    if k == "seqof":
        if v:
            o.extend([bare(B.kids["elem"], x, how) for x in v])
        return o
    if k == "seq":
        if not refper.all_comps(B.T):
            o.clear()
        for n, x in v.items():
            if not (how and x == [] and any(c["n"] == n and c["m"] == "M" for c in B.T["root"])):
                o[n] = bare(B.kids[n], x, how)
        return o
    if k == "choice":
        o[v[0]] = bare(B.kids[v[0]], v[1], how)
        return o
    return build.inst(B, v)


def check_bare(case, ctx):
    """What is shown is what is sent, also when lists were never filled."""
    B, T, v = unpack(case)
    for how in (0, 1):
        o = bare(B, v, how)
        try:
            e = encode(o)
        except Exception:       # a CHOICE of a list that was never filled may count as not chosen
            continue
        note(ctx, T, v)
        d = decode(e, B.cls()).to_dict()
        if not same(o.to_dict(), d):
            raise Violation("to_dict of the built message is %s, its octets %s mean %s" % (short(o.to_dict()), short(e.hex()), short(d)))


def empty_lists(tier):
    """Every way to hold a list without elements, in every position."""
    L = {"k": "seqof", "lb": None, "ub": None, "ext": False, "elem": cases.INT(0, 300)}
    S, Ch, C = cases.SEQ, cases.CHOICE, cases.C
    def of(t, lb=None, ub=None):
        return {"k": "seqof", "lb": lb, "ub": ub, "ext": False, "elem": t}
    for t, v in ((L, []), (of(cases.INT(0, 300), 0, 5), []), (S([C("l", L)]), {"l": []}), (S([C("l", L, "O")]), {"l": []}), (S([C("l", L), C("b", cases.BOOL)]), {"l": [], "b": True}),
                 (Ch([C("l", L), C("b", cases.BOOL)]), ["l", []]), (Ch([C("b", cases.BOOL)], True, [C("l", L)]), ["l", []]), (of(L), [[], []]), (of(L), [[], [5], []]),
                 (of(S([C("l", L)])), [{"l": []}, {"l": [7]}]), (of(Ch([C("l", L), C("b", cases.BOOL)])), [["l", []], ["b", False], ["l", [3]]]),
                 (S([C("c", Ch([C("l", L), C("b", cases.BOOL)]))]), {"c": ["l", []]}), (Ch([C("c", Ch([C("l", L)]))]), ["c", ["l", []]])):
        yield {"T": t, "v": v}
        for x in cases.opens_of(t, v):
            yield {"T": x[0], "v": x[1]}


def check_decoded(case, ctx):
    B, T, v = unpack(case)
    data = ref_encode(T, v)
    note(ctx, T, v)
    got = decode(data, B.cls()).to_dict()
    want = ref(expected, T, v, False)
    if not same(got, want):
        raise Violation("to_dict of the decoded message is %s, expected %s" % (short(got), short(want)))


def units(tier):
    return [
        Unit("structures", check, cases=grid(thin(cases.structures, 2))),
        Unit("nested", check, strategy=gen.typed_value(gen.structured_type(2)), quick=2000, thorough=60000),
        Unit("decoded-only", check_decoded, strategy=c04.loose(gen.structured_type(2)), quick=2000, thorough=60000),
        Unit("empty-lists", check_bare, cases=empty_lists),
        Unit("bare", check_bare, strategy=gen.typed_value(gen.structured_type(2)), quick=600, thorough=30000),
        Unit("big", check, cases=grid(thin(cases.big, 2))),
        Unit("deep", check, strategy=gen.typed_value(gen.structured_type(3)), quick=400, thorough=16000),
        Unit("scalars", check, cases=grid(thin(cases.scalars, 11))),
    ]
