"""C19 what the codec does not support is refused, never mis-encoded or misread."""
from hypothesis import strategies as st
from lib import cases, gen, build, refper
from lib.common import encode, decode, built, hexs, short, Violation, Discard
from lib.runner import Unit, ref

RULE = ("A case is a type and value whose encoding needs a fragmented length (16384 units or more, also inside an open type or as an INTEGER) or more than 64 extension additions, "
        "and neighbours just below those limits or with constrained lengths up to 65535, which are supported. Oracle: the reference encoder with fragmentation; the library must produce / read exactly those octets or raise, and must "
        "not raise for the supported neighbours. Non-trivial: every case; distinct = distinct JSON of the (compact) case.")
ASSUMPTIONS = ["refusal = an exception"]


def expand(c):
    """Compact case -> (T, v)."""
    k, n = c["kind"], c["n"]
    C, SEQ, I = cases.C, cases.SEQ, cases.INT
    if k == "octs":
        T, v = {"k": "octs", "lb": c["lb"], "ub": c["ub"], "ext": c["ext"]}, ("00ff5a" * n)[:2 * n]
    elif k == "bits":
        T, v = {"k": "bits", "lb": c["lb"], "ub": c["ub"], "ext": c["ext"]}, ("0110100" * n)[:n]
    elif k == "seqof":
        T, v = {"k": "seqof", "lb": c["lb"], "ub": c["ub"], "ext": c["ext"], "elem": I(0, 4)}, [i % 5 for i in range(n)]
    elif k == "int":
        T = I(c["lb"], c["ub"], c["ext"])
        v = (1 << (8 * n - 2)) + 5
        if c.get("neg"):
            v = -v
    elif k == "adds":
        T = SEQ([C("r", cases.BOOL)], True, [C("a%d" % i, I(0, 7), "O") for i in range(n - c["groups"])],
                [[C("g%d" % g, cases.BOOL, "O")] for g in range(c["groups"])])
        v = {"r": True}
        for i in c["present"]:
            i %= n
            if i < n - c["groups"]:
                v["a%d" % i] = i % 8
            else:
                v["g%d" % (i - (n - c["groups"]))] = True
    elif k == "optionals":
        T = SEQ([C("r%d" % i, cases.BOOL, "O") for i in range(n)])
        v = {"r%d" % (i % n): True for i in c["present"]}
    elif k == "alternatives":
        cs = [C("r%d" % i, cases.BOOL if i % 2 else I(0, 6)) for i in range(n)]
        T = cases.CHOICE([C("only", cases.BOOL)], True, cs) if c["ext"] else cases.CHOICE(cs)
        i = c["present"][0] % n
        v = ["r%d" % i, bool(i % 3) if i % 2 else i % 7]
    elif k == "items":
        T = {"k": "enum", "root": ["only"] if c["ext"] else ["e%d" % i for i in range(n)], "ext": c["ext"], "adds": ["e%d" % i for i in range(n)] if c["ext"] else []}
        v = "e%d" % (c["present"][0] % n)
    elif k == "open":
        o = {"k": "octs", "lb": None, "ub": c["ub"], "ext": False}
        T, v = SEQ([C("r", cases.BOOL)], True, [C("a", o, "O"), C("b", cases.BOOL, "O")]), {"r": True, "a": "c3" * n, "b": True}
    elif k == "open-choice":
        o = {"k": "octs", "lb": None, "ub": c["ub"], "ext": False}
        T, v = cases.CHOICE([C("r", cases.BOOL)], True, [C("b", cases.BOOL), C("a", o)]), ["a", "c3" * n]
    else:
        raise AssertionError(k)
    if c.get("off") is not None:
        T, v = cases.wrap(T, v, c["off"])
    return T, v


def check(case, ctx):
    T, v = ref(expand, case)
    B = build.make(T)
    full = ref(refper.encode, T, v, frag=True)
    try:
        refper.encode(T, v)
        supported = True
    except refper.Unsupported:
        supported = False
    ctx.note([case["kind"], "supported" if supported else "unsupported"])
    o = build.inst(B, v)
    try:
        e = encode(o)
    except Exception as x:
        if supported:
            raise Violation("needs nothing unsupported, but encode raised %r" % x)
        e = None
    if e is not None and e != full:
        raise Violation("encoded as %s, correct is %s" % (hexs(e), hexs(full)))
    try:
        d = decode(full, B.cls())
    except Exception as x:
        if supported:
            raise Violation("needs nothing unsupported, but decode raised %r" % x)
        return
    got = refper.canon(T, build.extract(B, d))
    if got != refper.canon(T, v):
        raise Violation("octets %s were decoded to a different value %s" % (hexs(full), short(got)))


def grid(tier):
    ns = [16383, 16384, 16385, 32767, 32768, 49152, 65535, 65536, 65537] + ([20000, 81920, 131072] if tier == "thorough" else [])
    for k in ("octs", "bits", "seqof"):
        for lb, ub, ext in ((None, None, False), (0, 65535, False), (1, 65535, True), (0, 20000, False), (0, 65536, False), (0, 10, True), (3, 3, True),
                            (16384, 16384, False), (20000, 20000, False), (65535, 65535, False), (65536, 65536, False), (16384, None, False), (0, None, True)):
            for n in ns + ([ub] if ub and ub not in ns and ub > 16000 else []):
                if not ext and not refper.in_range(n, lb, ub):
                    continue
                if k == "seqof" and n > 16385 and tier == "quick" and n != 20000:
                    continue
                yield {"kind": k, "n": n, "lb": lb, "ub": ub, "ext": ext}
                if k != "seqof" or tier == "thorough":
                    yield {"kind": k, "n": n, "lb": lb, "ub": ub, "ext": ext, "off": n % 7 + 1}
    for n in ((16383, 16384) if tier == "quick" else (16382, 16383, 16384, 16385, 32768)):
        for lb, ub, ext in ((None, None, False), (0, None, False), (-5, None, True), (0, 10, True), (None, 3, True)):
            for neg in (False, True):
                if neg and not ext and lb is not None:
                    continue
                yield {"kind": "int", "n": n, "lb": lb, "ub": ub, "ext": ext, "neg": neg}
    for n in [60, 61, 62, 63, 64, 65, 66, 67, 70, 96, 127, 128, 129, 200]:
        for groups in (0, 1, 3):
            for present in ([0], [n - 1], [n - 1 - groups], [0, 63], [64], list(range(n)), list(range(0, n, 2)), []):
                yield {"kind": "adds", "n": n, "groups": groups, "present": present}
    for n in (255, 256, 500, 1025) + (() if tier == "quick" else (2100, 4097)):
        yield {"kind": "optionals", "n": n, "present": [0, n - 1, n // 2]}
    for n in (255, 256, 257, 511, 1000, 1025, 2100) + (() if tier == "quick" else (4097, 8200)):
        for k in ("alternatives", "items"):
            for ext in (False, True):
                for i in (0, 63, 64, 255, 256, n // 2, 1024, n - 1):
                    if i < n:
                        yield {"kind": k, "n": n, "ext": ext, "present": [i], "off": i % 3}
    for n in (65535, 65536, 65537, 70000):
        for ext in (False, True):
            for i in (0, 255, 256, n // 2, n - 1) if not ext or tier == "thorough" else (n - 1,):
                yield {"kind": "items", "n": n, "ext": ext, "present": [i], "off": i % 3}
    for ub in (None, 65535):
        for n in (16300, 16379, 16380, 16381, 16382, 16383, 16384, 20000, 32765, 32766, 32768, 65530):
            yield {"kind": "open", "n": n, "ub": ub}
            yield {"kind": "open-choice", "n": n, "ub": ub}


@st.composite
def sized(draw):
    k = draw(st.sampled_from(["octs", "bits", "octs", "bits", "seqof", "open"]))
    n = draw(st.integers(16370, 16400)) if draw(st.booleans()) else draw(st.integers(16384, 17000 if k == "seqof" else 140000))
    if k == "open":
        return {"kind": k, "n": n % 66000 or 1, "ub": draw(st.sampled_from([None, 65535])) if n % 66000 <= 65535 else None}
    lb, ub, ext = draw(st.sampled_from([(None, None, False), (0, 65535, True), (0, 65536, False), (5, 60, True), (1, None, False)]))
    if ub == 65536 and n > ub:
        n = ub
    return {"kind": k, "n": n, "lb": lb, "ub": ub, "ext": ext, "off": draw(st.sampled_from([None, 0, 1, 5]))}


@st.composite
def added(draw):
    n = draw(st.integers(58, 140))
    return {"kind": "adds", "n": n, "groups": draw(st.integers(0, 5)), "present": draw(st.lists(st.integers(0, n - 1), max_size=5))}


def units(tier):
    return [
        Unit("grid", check, cases=grid),
        Unit("additions", check, strategy=added(), quick=400, thorough=6000),
        Unit("lengths", check, strategy=sized(), quick=240, thorough=8000),
    ]
