"""C02 wire conformance of scalar types."""
from lib import cases, gen, build
from lib.common import encode, unpack, note, grid, offset_sweep, thin, hexs, ref_encode, Violation
from lib.runner import Unit

RULE = ("A case is a BOOLEAN, INTEGER, ENUMERATED, BIT STRING or OCTET STRING type with a valid value, bare or placed at bit "
        "offset 0..7 of a SEQUENCE with a trailing field; exhaustive small range sizes 1..300, boundary range sizes, size "
        "constraints and enumeration counts, all 8 offsets for a subset, plus Hypothesis draws. Non-trivial: the reference "
        "codec can encode it without fragmentation; distinct = distinct JSON of the case.")
ASSUMPTIONS = ["lib/refper.py (written from X.691) is the oracle", "fragmented lengths (>=16384) are out of scope (see C19)"]


def check(case, ctx):
    B, T, v = unpack(case)
    want = ref_encode(T, v)
    note(ctx, T, v)
    got = encode(build.inst(B, v))
    if got != want:
        raise Violation("encode gives %s, X.691 aligned PER is %s" % (hexs(got), hexs(want)))


def units(tier):
    return [
        Unit("random", check, strategy=gen.typed_value(gen.scalar_type()), quick=3000, thorough=200000),
        Unit("offsets", check, cases=offset_sweep(cases.scalars, 11)),
        Unit("big-strings", check, cases=grid(cases.big_strings)),
        Unit("grid", check, cases=grid(cases.scalars)),
    ]
