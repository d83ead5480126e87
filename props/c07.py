"""C07 hostile and damaged input: truncated, extended, mutated or random octets."""
import json
from hypothesis import strategies as st
from lib import cases, gen, build, refper
from lib.common import decode, built, hexs, short, thin, unpack, Violation, Discard
from lib.runner import Unit, ref

RULE = ("A case is a generated type and octets: every proper prefix of a valid encoding, a valid encoding followed by junk, a valid encoding "
        "with bits flipped / octets replaced, inserted or removed, or random octets. Oracle: the reference decoder accepts with the same value or "
        "rejects, and so must decode(). Non-trivial: octets not empty and the reference decoder gives a verdict inside the supported subset; distinct = distinct JSON of the case.")
ASSUMPTIONS = ["non-minimal length forms are accepted by both decoders or judged Unsupported and skipped",
               "rejected = an exception derived from Exception, within 120 s of CPU"]


def verdict(T, data):
    """-> ('value', v) | ('reject', why) | None when outside the supported subset"""
    try:
        return "value", refper.decode(T, data)
    except refper.Unsupported as e:
        if str(e) == "fragmented" and len(data) < 2048 and '"seqof"' not in json.dumps(T):
            return "reject", "a fragment has 16384 units, there are fewer"
        if not str(e).startswith("root encoding"):
            return None
    except refper.RefDecodeError as e:
        return "reject", str(e)
    # allowed by the type but sent in the form for values of the root: refused, or that very value
    try:
        return "either", refper.decode_odd(T, data)[0]
    except refper.Unsupported:
        return None
    except refper.RefDecodeError as e:
        return "reject", str(e)


def check_octets(T, B, data, ctx):
    r = ref(verdict, T, data)
    if r is None:
        raise Discard()
    ctx.note([r[0]])
    try:
        d = decode(data, B.cls())
    except MemoryError:
        raise Violation("decode(%s) uses up the memory (3 GB)" % hexs(data))
    except Exception as e:
        if r[0] == "value":
            raise Violation("%s means %s but decode raised %s: %s" % (hexs(data), short(r[1]), type(e).__name__, short(str(e))))
        return
    try:
        got = refper.canon(T, build.extract(B, d))
    except Exception as e:
        raise Violation("decode(%s) returned an object that is not a value of the type: %r" % (hexs(data), e))
    if r[0] == "reject":
        raise Violation("%s is not a valid encoding (%s) but decode returned %s" % (hexs(data), r[1], short(got)))
    want = refper.canon(T, r[1])
    if got != want:
        raise Violation("decode(%s) = %s, the octets mean %s" % (hexs(data), short(got), short(want)))


def check_damaged(case, ctx):
    T = case["T"]
    check_octets(T, built(T), bytes.fromhex(case["data"]), ctx)


def check_prefixes(case, ctx):
    """Every proper prefix is refused; junk after the message changes nothing."""
    B, T, v = unpack(case)
    w = refper.W()
    try:
        refper.enc(T, v, w, refper.Opt())
    except refper.Unsupported:
        raise Discard()
    if w.n == 0:
        raise Discard()
    data = w.done()
    ctx.note(["prefixes"])
    n = len(data)
    cuts = range(n) if n <= 24 else sorted(set(list(range(8)) + [n // 2, n - 3, n - 2, n - 1]))
    for cut in cuts:
        r = ref(verdict, T, data[:cut])
        if r is None:
            continue
        if r[0] == "value":
            # possible only when what was cut off carries no information
            continue
        try:
            d = decode(data[:cut], B.cls())
        except MemoryError:
            raise Violation("decode(%s) uses up the memory (3 GB)" % hexs(data[:cut]))
        except Exception:
            continue
        raise Violation("the first %d of %d octets (%s) decode to %s" % (cut, n, hexs(data[:cut]), short(str(d))))
    want = refper.canon(T, v)
    for junk in (b"\x00", b"\xff\xff", b"\x5a" * 9):
        got = refper.canon(T, build.extract(B, decode(data + junk, B.cls())))
        if got != want:
            raise Violation("octets after the message change its value: %s" % short(got))


@st.composite
def damaged(draw, types):
    T = draw(types)
    how = draw(st.sampled_from(["random", "flip", "flip", "flip", "octet", "insert", "delete", "cut", "tail"]))
    if how == "random":
        return {"T": T, "data": draw(st.binary(min_size=1, max_size=24)).hex()}
    v = draw(gen.value(T, small=True))
    try:
        b = bytearray(refper.encode(T, v))
    except (refper.Unsupported, ValueError):
        return {"T": T, "data": draw(st.binary(min_size=1, max_size=24)).hex()}
    n = len(b)
    pos = draw(st.integers(0, min(n, 60) - 1))
    if how == "flip":
        for _ in range(draw(st.integers(1, 3))):
            p = draw(st.integers(0, min(n, 60) - 1))
            b[p] ^= 1 << draw(st.integers(0, 7))
    elif how == "octet":
        b[pos] = draw(st.sampled_from([0, 1, 0x7f, 0x80, 0x81, 0xbf, 0xff, 0x40, 0x20]))
    elif how == "insert":
        b[pos:pos] = draw(st.binary(min_size=1, max_size=3))
    elif how == "delete":
        del b[pos:pos + draw(st.integers(1, 3))]
    elif how == "cut":
        del b[pos:]
    else:
        b += draw(st.binary(min_size=1, max_size=6))
    if not b:
        b = bytearray(b"\x00")
    return {"T": T, "data": bytes(b).hex()}


def all_short(tier):
    """Every 1-octet string and a grid of 2- and 3-octet strings against small types."""
    I, C = cases.INT, cases.C
    ts = [I(0, 4), I(-1, 3, True), I(0, 254), I(0, 255), I(0, 256), I(1, 65536), I(0, 65536), I(0, None), I(None, None), I(None, 5), I(3, None, True),
          cases.BOOL, {"k": "enum", "root": ["a", "b", "c"], "ext": False, "adds": []}, {"k": "enum", "root": ["a", "b", "c"], "ext": True, "adds": ["d"]},
          cases.CHOICE([C("a", cases.BOOL), C("b", I(0, 255)), C("c", I(None, None))]),
          cases.CHOICE([C("a", cases.BOOL)], True, [C("b", I(0, 255)), C("c", I(None, None))]),
          cases.SEQ([C("a", I(0, 4), "O"), C("b", cases.BOOL, "D", d=True)]),
          cases.SEQ([C("a", I(0, 4), "O")], True, [C("b", cases.BOOL, "O"), C("c", I(0, 300), "O")]),
          cases.SEQ([C("a", I(0, 4), "O")], True, [], [[C("b", cases.BOOL, "O"), C("c", I(0, 4), "O")]])]
    for kind in ("bits", "octs"):
        for lb, ub, ext in ((None, None, False), (0, 2, False), (1, 2, False), (2, 2, False), (3, 3, True), (0, 4, True), (2, None, False), (0, 300, False), (1, 70000, False)):
            ts.append({"k": kind, "lb": lb, "ub": ub, "ext": ext})
    for lb, ub, ext in ((None, None, False), (0, 2, False), (1, 2, False), (2, 2, False), (1, 2, True), (1, 3, True), (0, 4, True), (2, None, False), (1, 70000, False)):
        ts.append({"k": "seqof", "lb": lb, "ub": ub, "ext": ext, "elem": I(0, 4)})
        ts.append({"k": "seqof", "lb": lb, "ub": ub, "ext": ext, "elem": {"k": "octs", "lb": None, "ub": None, "ext": False}})
    second = [0, 1, 2, 3, 0x40, 0x7f, 0x80, 0x81, 0xc0, 0xff] if tier == "quick" else range(256)
    for T in ts:
        for a in range(256):
            yield {"T": T, "data": "%02x" % a}
            for b in second:
                yield {"T": T, "data": "%02x%02x" % (a, b)}
                if b < 4 or b == 0x80:
                    for c in (0, 1, 0x80, 0xff):
                        yield {"T": T, "data": "%02x%02x%02x" % (a, b, c)}


def prefix_grid(tier):
    for i, (T, v) in enumerate(thin(cases.scalars, 15)(tier)):
        yield {"T": T, "v": v}
        yield {"T": T, "v": v, "off": i % 8}
    for i, (T, v) in enumerate(thin(cases.structures, 9)(tier)):
        yield {"T": T, "v": v}


def units(tier):
    return [
        Unit("short-strings", check_damaged, cases=all_short),
        Unit("damaged", check_damaged, strategy=damaged(gen.structured_type(2)), quick=6000, thorough=200000),
        Unit("damaged-scalar", check_damaged, strategy=damaged(gen.scalar_type()), quick=6000, thorough=200000),
        Unit("prefixes-random", check_prefixes, strategy=gen.typed_value(gen.structured_type(2)), quick=800, thorough=30000),
        Unit("prefixes", check_prefixes, cases=prefix_grid),
    ]
