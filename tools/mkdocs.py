#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/mkdocs.py rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENC, DEC = "asn1PERser/codec/per/encoder.py", "asn1PERser/codec/per/decoder.py"
CON, TYP = "asn1PERser/classes/types/constraint.py", "asn1PERser/classes/types/type.py"
DATA = "asn1PERser/classes/data/builtin/"
GEN = "asn1PERser/classes/types/builtin/"
MOD = "asn1PERser/classes/module.py"
ACT = "asn1PERser/classes/parse_actions.py"
DEFS = "asn1PERser/asn_definitions/"
INIT = "asn1PERser/__init__.py"
TPL = "asn1PERser/classes/templates/"


def M(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]


PROPS = []
TECH = {}


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    assert len(title) <= 80, (id, len(title))
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": mech, "observe_at": observe, "hook_needed": None}})
    TECH[id] = (technique, note)


REF = "Trusts lib/refper.py, an independent X.691 aligned-PER codec written for this project."

prop("C01", "Round trip: decode(encode(v)) is v, and re-encoding gives the same octets",
     "For every type of the supported ASN.1 subset (BOOLEAN, INTEGER, ENUMERATED, BIT STRING, OCTET STRING, SEQUENCE, SEQUENCE OF, CHOICE, with their constraints and extension markers, nested to any depth) and every valid value that needs no fragmentation, encode() returns a non-empty bytes object that decode() with that type turns back into the same value. "
     "Absent components stay absent, present but empty strings and lists stay present (an OPTIONAL SEQUENCE in which nothing was ever set counts as absent), lengths and leading zeros of strings are kept. "
     "Encoding the decoded object again yields exactly the same octets.",
     ["inputs", "programs"], "all types of the supported subset x all valid values x all bit positions at which a component can start",
     "The tests encode and decode fixed literal messages; the round trip depends on every combination of constraint shape, value, nesting and bit alignment, which they sample at a few hundred points.",
     [ENC, DEC, CON, TYP], M(("encode_* per type, bit string assembly and octet alignment", ENC), ("decode_* per type and the bit cursor", DEC), ("constraint bounds", CON)),
     ["encode()", "decode()", "the decoded object"],
     "property-based round-trip testing (Hypothesis + boundary grids)", "Generated-input exploration; no oracle besides the value itself, so it needs no trust in the reference codec except to decide the domain.")

prop("C02", "Scalar values are encoded exactly as X.691 aligned PER prescribes",
     "For every BOOLEAN, INTEGER, ENUMERATED, BIT STRING and OCTET STRING type (single value, range, size and extensible constraints, MIN/MAX endpoints, root and extension values) and every valid value, the octets produced are bit for bit those of the X.691 ALIGNED variant, including padding to octet boundaries, whatever bit position the value starts at. "
     "An ENUMERATED value is encoded by its index among the root items sorted by number, an extension item by its index among the additions.",
     ["inputs", "programs"], "all scalar types x values x starting bit offsets 0..7, without fragmentation",
     "Interoperability needs every range size and length class right; tests fix a few constants per class and hardly vary the start offset.",
     [ENC, CON, DATA + "IntegerType.py", DATA + "EnumeratedType.py", DATA + "BitStringType.py", DATA + "OctetStringType.py"],
     M(("constrained/semi-constrained/unconstrained whole numbers, length determinants", ENC), ("effective bounds", CON)), ["encode()"],
     "differential property-based testing against a reference PER encoder", "Exhaustive over range sizes 1..300 and boundary sizes, sampled otherwise. " + REF)

prop("C03", "SEQUENCE, SEQUENCE OF and CHOICE are encoded exactly as X.691 prescribes",
     "For every SEQUENCE (mandatory, OPTIONAL and DEFAULT components, extension additions and addition groups), SEQUENCE OF (size constraints, extensible or not) and CHOICE (root and extension alternatives, any number of them), nested arbitrarily, and every valid value, the octets produced are bit for bit those of X.691 ALIGNED PER: preamble bitmap, extension bit, addition bitmap, open type fields with their lengths, counts and indexes, and padding. "
     "A component equal to its DEFAULT is not sent.",
     ["inputs", "programs"], "all constructed types x values x starting bit offsets, up to 64 additions, without fragmentation",
     "Presence patterns, addition counts and nesting multiply; the tests contain a few dozen fixed messages.",
     [ENC, TYP, DATA + "SequenceType.py", DATA + "SequenceOfType.py", DATA + "ChoiceType.py"],
     M(("sequence preamble, extension additions, open types, choice index", ENC), ("ordered component lists", TYP)), ["encode()"],
     "differential property-based testing against a reference PER encoder", "All presence patterns of small shapes, sampled nested types. " + REF)

prop("C04", "Any conforming peer's octets decode to the value they mean",
     "For every supported type and value, the octets a conforming X.691 ALIGNED PER encoder produces decode to exactly that value: canonical octets, octets in which scalar components equal to their DEFAULT are sent explicitly, and octets with present but empty SEQUENCEs. "
     "Components with a DEFAULT that are absent on the wire read as their default, and encoding the decoded object gives the canonical octets.",
     ["inputs", "programs"], "all types x values x sender options (explicit defaults, empty but present components) x bit offsets",
     "The tests decode octets the library's authors computed for fixed messages; sender options of other encoders are not exercised.",
     [DEC, CON, TYP, DATA + "SequenceType.py"], M(("decode_* per type", DEC), ("default filling", DATA + "SequenceType.py")), ["decode()"],
     "differential property-based testing: a reference encoder as the peer", "Sampled plus boundary grids. " + REF)

prop("C05", "Constraint violations are rejected on sending and on receiving",
     "No octets are ever produced for a value that violates a non-extensible constraint of its type anywhere in the message (number outside the range, string or list size outside the size constraint, unknown enumeration item, unknown component or alternative name): an exception is raised when the value is built, assigned or at the latest encoded. "
     "Likewise decode() never returns a value that violates a non-extensible constraint, but raises, when octets with the right field widths carry an out-of-range number, size, enumeration index or alternative index.",
     ["inputs", "programs"], "all types x positions in a message x violating values or octets",
     "Tests try a couple of violating values per type at top level; nested positions and the receiving side are hardly covered.",
     [CON, ENC, DEC, DATA + "IntegerType.py", DATA + "EnumeratedType.py", DATA + "SequenceOfType.py"],
     M(("constraint checks on construction", CON), ("checks in encode_*/decode_*", ENC)), ["constructors", "encode()", "decode()"],
     "property-based negative testing with violating values and forged octets", "Sampled plus boundary grids. " + REF)

prop("C06", "Old and new schema versions understand each other across extension markers",
     "When a schema evolves only by adding extension additions, addition groups, extension alternatives or extension enumeration items after the extension marker, octets of the newer version decode with the older type to the part of the value the older type knows, and everything after the skipped additions is decoded correctly. "
     "Octets of the older version decode with the newer type to the same value with the additions absent (or at their DEFAULT).",
     ["programs", "inputs"], "all pairs (older, newer) of types differing in extension additions at any nesting level x values expressible in both",
     "Quantifies over pairs of schemas; the tests only ever use one version at a time.",
     [DEC, ENC], M(("extension bitmap, open type lengths, skipping of unknown additions", DEC)), ["decode() with the other version's type"],
     "property-based version-skew testing (metamorphic, two schema versions)", "Sampled version pairs. Octets come from the library and from the reference encoder. " + REF)

prop("C07", "Damaged, truncated or random octets never become a wrong value",
     "For every type and every octet string, decode() either returns exactly the value the octets mean under X.691 aligned PER or raises an exception within bounded time; it never invents missing bits and never returns a value of a shape the type does not allow. "
     "Every proper prefix of a valid encoding is rejected unless the prefix is itself a complete encoding; octets after a complete encoding do not change the decoded value.",
     ["inputs", "fault_sequences"], "all types x all octet strings (prefixes, bit flips, insertions, deletions, junk suffixes, random)",
     "The tests decode only valid octets.",
     [DEC], M(("the bit cursor and its end-of-input checks", DEC), ("length and index checks", DEC)), ["decode()"],
     "structure-aware fuzzing against a reference decoder", "All prefixes of grid encodings, sampled damage. Encodings whose meaning X.691 leaves to the receiver (zero-length integers, non-canonical root/extension choice) are skipped. " + REF)

prop("C08", "Codec calls are pure: results do not depend on history",
     "encode(), decode(), to_dict(), printing and reading components change neither their arguments nor any later result: after any sequence of operations on messages, types and decoding specifications a message encodes to the octets of its current value. "
     "A type or object used as decoding specification can be used again and keeps its own value, and decoded messages do not share mutable state with each other, with the specification or with the class. (Indexing into an absent component, or an alternative that is not chosen, is pyasn1's way to build a message in place and may create it.)",
     ["histories"], "all finite sequences of set / append / choose / read / print / to_dict / encode / decode operations over messages and specifications",
     "Each test performs one encode or decode on fresh objects.",
     [ENC, DEC, DATA + "SequenceType.py", DATA + "SequenceOfType.py", DATA + "ChoiceType.py", TYP],
     M(("decode clones its specification", DEC), ("encode does not modify its argument", ENC), ("to_dict", DATA + "SequenceType.py")), ["octets after each step", "the objects given"],
     "stateful model-based property testing (operation histories)", "Sampled histories of generated types against a value model. " + REF)

prop("C09", "Mandatory, OPTIONAL and DEFAULT components behave as declared",
     "A SEQUENCE in which a mandatory root component was never set, a mandatory addition is missing although a later addition is present, or a present addition group lacks a mandatory member, is refused by encode() (a root SEQUENCE OF, or SEQUENCE without mandatory components of its own, that was never set counts as empty). "
     "A component set to its DEFAULT encodes exactly like one left out, one that differs from its DEFAULT is sent, and an absent DEFAULT component reads back as the default. "
     "Setting or leaving out an OPTIONAL component changes nothing about any other component.",
     ["inputs", "programs"], "all SEQUENCE types (nested, with additions and groups) x presence patterns",
     "The tests cover single presence patterns of a few sequences; missing mandatory additions and group members are not tried.",
     [ENC, DEC, DATA + "SequenceType.py"], M(("mandatory checks", ENC), ("default comparison", ENC), ("default filling", DEC)), ["encode()", "decode()"],
     "property-based metamorphic testing of presence patterns", "All presence patterns of small shapes, sampled nested types. " + REF)

prop("C10", "to_dict() mirrors the message exactly and is JSON-serialisable",
     "For every message, built or decoded, to_dict() holds exactly its present components: numbers as integers, ENUMERATED as the item name, OCTET STRING as lower-case hexadecimal, BIT STRING as an integer, SEQUENCE OF as a list in order, CHOICE as a one-key dictionary, SEQUENCE as a dictionary with absent OPTIONAL components left out and (in a decoded message) absent DEFAULT components at their default. "
     "The result can be serialised with json and shares nothing with the message.",
     ["inputs", "programs"], "all types x values, built and decoded",
     "The tests compare the dictionary of a few fixed messages.",
     [DATA + "SequenceType.py", DATA + "SequenceOfType.py", DATA + "ChoiceType.py", DATA + "BitStringType.py", DATA + "OctetStringType.py", DATA + "EnumeratedType.py"],
     M(("to_dict of every data type", DATA)), ["to_dict()"],
     "property-based testing against the generated value", "Sampled plus grids; the expected dictionary is computed from the generated value.")

prop("C16", "Logging is transparent: it never changes a result or fails",
     "With the library's logging configured at any level with any handler, encode() and decode() return the same octets and values and raise in the same cases as with logging off, for every type, value and octet string. "
     "Every record the library emits can be formatted, and asn1perser_logging_setup attaches the handler and level it was given.",
     ["configurations", "inputs"], "log levels and handlers x all types x values or octets",
     "The tests run with logging off.",
     ["asn1PERser/logging_setup.py", ENC, DEC], M(("logger.debug calls in the codec", ENC), ("setup", "asn1PERser/logging_setup.py")), ["results of encode()/decode()", "log records"],
     "differential property-based testing (logging off / on)", "Sampled types, values and damaged octets.")

prop("C17", "Unions, intersections and single values give the right effective constraint",
     "For every constraint built from ranges, sizes, single values, unions and intersections (of intervals), extensible or not, exactly the values of the resulting set are accepted (for an extensible one all values are), and the octets are those of X.691 for its effective bounds: the hull of a union, the overlap of an intersection, with MIN and MAX as infinite endpoints.",
     ["programs", "inputs"], "all constraint trees x values",
     "The tests fix a few unions of two values.",
     [CON, ENC, DEC], M(("ConstraintOr / ConstraintAnd / SingleValue bounds", CON)), ["construction of values", "encode()", "decode()"],
     "property-based testing against set arithmetic and a reference codec", "Sampled constraint trees. " + REF)

prop("C19", "Unsupported encodings are refused, never mis-encoded or misread",
     "A message that would need a fragmented length (16384 or more units under an unconstrained, semi-constrained or too large size, also inside an open type) or more than 64 extension additions is either encoded and decoded exactly as X.691 prescribes or refused with an exception, never turned into other octets or another value. "
     "Everything just below those limits works.",
     ["inputs", "programs"], "sizes and addition counts around and beyond the limits x types x octets from a fragmenting peer",
     "The tests contain no value near these limits.",
     [ENC, DEC], M(("length determinant", ENC), ("normally small numbers", ENC)), ["encode()", "decode()"],
     "boundary property-based testing against a fragmenting reference codec", "Boundary grids and sampled sizes up to about 200000 units. " + REF)

prop("C20", "Equal messages encode equally however they are built and passed",
     "The octets of a message depend only on its value, not on how it was put together: class instances or plain Python values, the different notations of the same scalar, components assigned in any order, by name or position, in place or as finished objects, repeatedly or shared between places, lists by extend, append or index. "
     "decode() gives the same value for octets passed as bytes or bytearray, positionally or by keyword.",
     ["histories", "inputs"], "all construction recipes x types x values",
     "Each test builds its messages in one way.",
     [ENC, DEC, DATA + "SequenceType.py", DATA + "ChoiceType.py", DATA + "SequenceOfType.py", TYP], M(("component containers", DATA), ("presence rules", ENC)), ["encode()", "decode()"],
     "property-based metamorphic testing of construction recipes", "Sampled recipes; only constructions that pyasn1 and the README document. " + REF)

prop("C21", "Calls from several threads at once give the results of calls in sequence",
     "encode(), decode(), to_dict(), printing and parse_asn1_schema() called from several threads at the same time each give exactly the result, or raise the kind of error, that the same call gives on its own, wherever the threads change hands. "
     "This holds for messages of the same or different types, for one message that several threads encode or print, one class or type object that several threads decode into, and for calls that fail. "
     "A message that one thread changes while another uses it is not included.",
     ["schedules", "inputs"], "all pairs of calls x all interleavings at line or byte code boundaries",
     "The tests run in one thread.",
     [ENC, DEC, INIT, MOD, DATA + "SequenceType.py", DATA + "ChoiceType.py", DATA + "SequenceOfType.py"], M(("no state shared between calls", ENC), ("copies of the decoding type", DEC), ("lock around compilation", INIT)), ["encode()", "decode()", "to_dict()", "parse_asn1_schema()"],
     "property-based testing of generated thread schedules under a controlled scheduler", "Two threads; sampled hand-over points (lines, and byte codes in a sixth of the cases) in the library's own code, not inside pyasn1 or pyparsing. " + REF)

prop("C11", "Compiled classes mean what the schema says",
     "For every ASN.1 module in the supported notation (type assignments of BOOLEAN, INTEGER, ENUMERATED, BIT STRING, OCTET STRING, SEQUENCE, SEQUENCE OF and CHOICE, nested inline or by reference; value and size constraints with numbers, MIN, MAX, open endpoints, unions and extension markers, and constants as the endpoints of a single range; OPTIONAL, DEFAULT, extension markers, additions, [[ ]] groups and a second root; enumeration numbers) parse_asn1_schema returns Python code that runs and defines a class for every type, "
     "whose values encode to exactly the X.691 octets of the type as written and decode from them, and which accepts exactly the values the written constraints allow. "
     "Classes and constants carry the schema's names (hyphens become underscores, a name Python or the generated code needs itself gets a trailing underscore); components are addressed by the schema's identifiers.",
     ["programs", "inputs"], "all modules of the supported notation x values of their types (BIT STRINGs with named bits excepted)",
     "The tests compare the generated text of a dozen modules with stored text; whether the text means what the schema says, for any combination of notation, is not tested.",
     [INIT, ACT, MOD, DEFS + "type_def.py", DEFS + "constraint_def.py", GEN + "SequenceType.py", GEN + "SequenceOfType.py", GEN + "ChoiceType.py", GEN + "EnumeratedType.py", TPL + "creator.py"],
     M(("grammar", DEFS), ("parse actions building the type objects", ACT), ("templates of the generated classes", TPL), ("component and addition lists", GEN)),
     ["parse_asn1_schema()", "running the generated code", "encode()/decode() with the generated classes"],
     "property-based testing of generated modules against a reference semantics and codec", "Sampled modules plus grids of constraints, enumerations, component lists and names. Trusts lib/schema.py for the meaning of a module. " + REF)

prop("C12", "Layout and comments of a schema do not matter",
     "Two schemas that consist of the same lexical items compile to the same Python code, however the items are separated: any amount of blanks, tabs, line ends (LF, CR, CRLF), form feeds and vertical tabs, or nothing where X.680 requires no separator, and comments (from -- to the next -- or the end of the line, with any content; a run of hyphens that ends a line belongs to the comment) anywhere between items.",
     ["inputs"], "all modules x all layouts",
     "The tests use one layout per schema and hardly any comments.",
     [INIT, DEFS + "lexical_items.py", DEFS + "type_def.py", DEFS + "module_def.py"], M(("removal of comments", INIT), ("white space in multi-word items", DEFS)), ["parse_asn1_schema()"],
     "metamorphic property-based testing of layouts", "Sampled layouts of sampled modules; every pair of neighbouring items of example modules with every separator.")

prop("C13", "The order of assignments in a schema does not matter",
     "Every permutation of the type and value assignments of a module compiles to code that runs and defines the same types and constants: forward references between types (by renaming, as component, element or alternative, inline or not, over chains of any length), constants used as bounds, DEFAULTs or values of other constants, and constants of types defined later.",
     ["programs"], "all modules x all permutations of their assignments",
     "The tests contain a few hand-written orders.",
     [MOD, ACT, GEN + "DefinedType.py"], M(("sort_assigment_list, sort_components, additional_sort, sort_by_dependency", MOD)), ["parse_asn1_schema()", "running the generated code", "encode()/decode() with the generated classes"],
     "property-based testing of permuted modules, exhaustive for small shapes", "All permutations of given dependency shapes up to 7 assignments (thorough), sampled otherwise. Recursive types are outside the supported notation. " + REF)

prop("C14", "Compiling a schema depends on nothing but its text",
     "parse_asn1_schema returns the same Python code for the same schema however often and after whatever other schemas it is called, also after schemas that were refused or that define the same names differently, in the same or another process and with any hash seed; it leaves classes generated earlier as they are. "
     "With an output directory it writes exactly that code to <module name>.py in that directory, replacing an older file, and touches nothing else.",
     ["histories", "configurations"], "all sequences of parse_asn1_schema calls (valid and refused schemas, with and without output directory) x processes and hash seeds",
     "Each test parses one schema in a fresh state; module-level registries survive between calls.",
     [INIT, MOD, ACT], M(("typereference_to_type, constants, already_filled_template registries", MOD), ("writing the file", MOD)), ["parse_asn1_schema()", "the output directory"],
     "stateful property-based testing of call histories against fresh processes", "Sampled histories; a fresh process with another hash seed is the oracle.",
     state=(("typereference_to_type / constants / already_filled_template", "names and templates of the schema being parsed", MOD),))

prop("C15", "Malformed or unsupported schemas are refused, not compiled to something else",
     "parse_asn1_schema raises for a text that is not a module in the syntax of X.680. A text that breaks one of its rules (undefined or doubly defined types, values, components, enumeration items or numbers; values of the wrong kind or outside their type; constraints that do not apply to the type, empty ranges, negative sizes; OPTIONAL or DEFAULT on an alternative; empty CHOICE or ENUMERATED; names of the wrong case), or that uses notation the library does not implement, makes parse_asn1_schema or the generated code raise, in bounded time. "
     "It is never compiled to classes that run. (Tolerated: reserved words as names, missing white space after a keyword, leading zeros, names ending in a hyphen, enumeration additions not in ascending order.)",
     ["inputs"], "all texts that are no valid schema, or use unsupported notation",
     "The tests parse valid schemas only.",
     [INIT, ACT, MOD, DEFS + "type_def.py", DEFS + "constraint_def.py", DEFS + "module_def.py", TYP, GEN + "EnumeratedType.py"], M(("grammar, end of input", DEFS), ("rules checked by parse actions", ACT), ("doubly assigned names, kinds of constants", MOD), ("values of a type", TYP)),
     ["parse_asn1_schema()", "running the generated code"],
     "mutation-based fuzzing of generated modules against an independent syntax recognizer", "Every single-token change of example modules (thorough), sampled changes of sampled modules, one broken rule per sampled module, a grid of unsupported notation. Trusts lib/syntax.py.")

prop("C18", "Constants and DEFAULTs have the value, type and octets the schema gives them",
     "Every value assignment of a schema defines an object of the assigned type (with its constraint) that holds exactly the value written: numbers of any size, TRUE/FALSE, binary and hexadecimal strings of any length with white space, enumeration items, and references to other constants over any number of steps. "
     "A component whose DEFAULT is written in any of these ways reads as that value when it is absent, in a new and in a decoded message, and is left out of the encoding exactly when it equals it.",
     ["programs", "inputs"], "all value notations x types x places (constant, DEFAULT in root, addition or group, by literal or by reference)",
     "The tests compare the generated text for a few literals.",
     [ACT, TYP, GEN + "IntegerType.py", GEN + "BitStringType.py", GEN + "OctetStringType.py", GEN + "EnumeratedType.py", GEN + "BooleanType.py", GEN + "DefinedType.py", DEFS + "value_def.py"],
     M(("parse_value of each type", GEN), ("value references", TYP), ("value templates", TPL)), ["generated constants", "components with DEFAULT", "encode()/decode()"],
     "property-based testing against the written value and a reference codec", "Grid of literals x constraints x places, chains of references, sampled modules. " + REF)

NOT_APPLICABLE = []


def main():
    PROPS.sort(key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in PROPS:
        if p["id"] in dict(NOT_APPLICABLE):
            continue
        t, n = TECH[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": "./check %s" % p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough ./check %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": t, "level": "exploration", "level_note": n})
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python lib/selftest.py", "checks": checks,
           "not_applicable": [{"property": a, "reason": b} for a, b in NOT_APPLICABLE],
           "notes": "No hooks: every check drives the public API of /repo's working tree (imported from source, no build product needed). "
                    "Known findings and repaired defects: known_findings.txt."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
