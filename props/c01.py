"""C01 round trip."""
from lib import cases, gen, build, refper
from lib.common import encode, decode, unpack, note, grid, offset_sweep, thin, hexs, short, ref_encode, Violation
from lib.runner import Unit

RULE = ("A case is a generated ASN.1 type (as the classes the schema compiler emits) with one valid value, bare or placed "
        "at bit offset 0..7 of a SEQUENCE with a trailing field: boundary grids over range sizes, size constraints, "
        "enumeration/alternative/addition counts, and Hypothesis-generated nested types. Non-trivial: type and value inside "
        "the documented subset and encodable without fragmentation; distinct = distinct JSON of the case.")
ASSUMPTIONS = ["values are built the way the README builds them", "lengths needing fragmentation (>=16384) are out of scope"]


def check(case, ctx):
    B, T, v = unpack(case)
    ref_encode(T, v)                      # domain: encodable without fragmentation
    note(ctx, T, v)
    o = build.inst(B, v)
    e = encode(o)
    if not isinstance(e, bytes) or not e:
        raise Violation("encode returned %r" % (e,))
    d = decode(e, B.cls())
    got = refper.canon(T, build.extract(B, d))
    want = refper.canon(T, v)
    if got != want:
        raise Violation("decode(encode(v)) = %s, expected %s (octets %s)" % (short(got), short(want), hexs(e)))
    e2 = encode(d)
    if e2 != e:
        raise Violation("re-encoding the decoded value gives %s, first encoding was %s" % (hexs(e2), hexs(e)))


def units(tier):
    return [
        Unit("structures", check, cases=grid(cases.structures)),
        Unit("nested", check, strategy=gen.typed_value(gen.structured_type(2)), quick=2000, thorough=60000),
        Unit("deep", check, strategy=gen.typed_value(gen.structured_type(3)), quick=400, thorough=12000),
        Unit("scalar-random", check, strategy=gen.typed_value(gen.scalar_type()), quick=3000, thorough=200000),
        Unit("offsets", check, cases=offset_sweep(cases.scalars, 61)),
        Unit("big", check, cases=grid(cases.big)),
        Unit("big-strings", check, cases=grid(cases.big_strings)),
        Unit("scalars", check, cases=grid(thin(cases.scalars, 3))),
    ]
