"""C03 wire conformance of constructed types."""
from lib import cases, gen
from lib.common import grid, offset_sweep
from lib.runner import Unit
from props.c02 import check

RULE = ("A case is a SEQUENCE, SEQUENCE OF or CHOICE type (possibly nested) with a valid value, bare or at a bit offset: every "
        "mandatory/OPTIONAL/DEFAULT pattern x presence pattern of up to 3 root components, additions and group members, "
        "addition counts to 64, alternative counts to 300, list size constraints, plus Hypothesis-generated nested types. "
        "Non-trivial: encodable by the reference codec without fragmentation; distinct = distinct JSON of the case.")
ASSUMPTIONS = ["lib/refper.py (written from X.691) is the oracle", "DEFAULT values equal to the default are omitted (canonical PER)"]


def units(tier):
    return [
        Unit("grid", check, cases=grid(cases.structures)),
        Unit("big", check, cases=grid(cases.big)),
        Unit("offsets", check, cases=offset_sweep(cases.structures, 9)),
        Unit("nested", check, strategy=gen.typed_value(gen.structured_type(2)), quick=2400, thorough=80000),
        Unit("deep", check, strategy=gen.typed_value(gen.structured_type(3)), quick=500, thorough=16000),
    ]
