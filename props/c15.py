"""C15 malformed, inconsistent or unsupported schemas are refused, never compiled into something else."""
import copy
from hypothesis import strategies as st
from lib import refper, schema, syntax
from lib.common import short
from lib.common_schema import Violation, module_features
from lib.runner import Discard, Unit, ref
from asn1PERser import parse_asn1_schema

RULE = ("A case is a text that is no ASN.1 module: the tokens of a generated valid module with tokens deleted, doubled, swapped, replaced or inserted, or cut "
        "short, when an independent recognizer of the X.680 syntax refuses the result; a valid module with one semantic rule broken (undefined or "
        "doubly defined name, value of the wrong kind or out of range, repeated component, item or number, reversed range, misplaced OPTIONAL/DEFAULT); or a module "
        "using notation the library does not implement. Non-trivial: every case that is not discarded; distinct = distinct text.")
ASSUMPTIONS = ["lib/syntax.py refuses only token sequences that are not in the syntax of X.680 (every generated valid module is accepted by it: asserted)",
               "a schema counts as refused when parse_asn1_schema or running the generated code raises"]


def must_refuse(text, why, ctx, labels, by_parser=False):
    ctx.note(labels, key=text)
    try:
        code = parse_asn1_schema(text)
        if not by_parser:      # the generated code may refuse instead
            schema.run_code(code)
    except MemoryError:
        raise Violation("not refused in bounded time and memory, 3 GB are not enough (%s):\n%s" % (why, text))
    except Exception:
        return
    raise Violation("a schema that is not valid is compiled (%s):\n%s" % (why, text))


# ------------------------------------------------------------------ syntax ---
TOKENS = [",", "{", "}", "(", ")", "[[", "]]", "...", "..", "::=", "|", "<", "!", ":", "-", "BEGIN", "END", "DEFINITIONS", "OPTIONAL", "DEFAULT", "SIZE", "OF",
          "SEQUENCE", "CHOICE", "ENUMERATED", "INTEGER", "BOOLEAN", "STRING", "BIT", "OCTET", "TRUE", "FALSE", "MIN", "MAX", "UNION", "AUTOMATIC", "TAGS",
          "a", "zz", "A", "Zz", "0", "5", "-5", "1.5", "'01'B", "'0A'H", "'012'B", "'XY'H", "'0G'H", "'0A'B", "'2'B", "'0-A'H", "'0a'H", "'01'", "'01'b", "'01'h", "'01", '"text', "@", "#", "$", ";", "*", "=",
          "a_b", "A_b", "-a", "9a", "5a", "0x5", "1e3", "5.", "aB_", "a.b", "A.", "&", "?", "\\", ".", "::", ":=", "=::", "/", "\u00e9", "{}", "()", "....", "SIZEof", "DEFAULTs", "OPTIONALs", "]", "["]


def mutate(toks, op):
    k, i, x = op
    toks = list(toks)
    n = len(toks)
    i %= n
    if k == "del":
        del toks[i]
    elif k == "del2":
        del toks[i:i + 2]
    elif k == "dup":
        toks.insert(i, toks[i])
    elif k == "swap":
        j = (i + 1) % n
        toks[i], toks[j] = toks[j], toks[i]
    elif k == "rep":
        toks[i] = TOKENS[x % len(TOKENS)]
    elif k == "ins":
        toks.insert(i, TOKENS[x % len(TOKENS)])
    elif k == "move":
        t = toks.pop(i)
        toks.insert(x % n, t)
    elif k == "cut":
        del toks[i:]
    elif k == "case":
        t = toks[i]
        toks[i] = t.lower() if t != t.lower() else t.upper()
    elif k == "merge" and i + 1 < n:
        toks[i:i + 2] = [toks[i] + toks[i + 1]]
    return toks


OPS = ["del", "del2", "dup", "swap", "rep", "ins", "move", "case"]


def check_syntax(case, ctx):
    mod = case["mod"]
    base = ref(schema.module_tokens, mod)
    if ref(syntax.invalid, base):
        ref(_fail, "recognizer refuses a valid module: %s" % " ".join(base))
    done = 0
    for op in case["ops"]:
        toks = mutate(base, op)
        why = ref(syntax.invalid, toks)
        if why is None:
            continue
        done += 1
        must_refuse(" ".join(toks), "%s: %s" % (op[0], why), ctx, ["syntax:" + op[0]], True)
    if not done:
        raise Discard()


def _fail(msg):
    raise AssertionError(msg)


@st.composite
def broken(draw):
    mod = draw(schema.module(max_types=3, depth=1))
    n = 1 << 16
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, n), st.integers(0, n)).map(list), min_size=4, max_size=8))
    return {"mod": mod, "ops": ops}


EXAMPLES = [
    "M DEFINITIONS AUTOMATIC TAGS ::= BEGIN A ::= SEQUENCE { a INTEGER ( 0 .. 5 , ... ) DEFAULT 3 , b B OPTIONAL , ... , c BOOLEAN , [[ d OCTET STRING ( SIZE ( 1 .. 4 ) ) , e A2 ]] } "
    "B ::= CHOICE { x INTEGER , y BIT STRING ( SIZE ( 3 ) ) , ... , z ENUMERATED { one ( 1 ) , two } } A2 ::= SEQUENCE ( SIZE ( 1 .. 5 ) ) OF B k INTEGER ::= 5 END",
    "M DEFINITIONS ::= BEGIN E ::= ENUMERATED { a , b ( 5 ) , ... , c } F ::= E v F ::= b S ::= SEQUENCE { e E DEFAULT a , f SEQUENCE OF INTEGER ( MIN .. k ) , ... , ... , o OCTET STRING DEFAULT '0A'H } "
    "k INTEGER ( -1 | 4 .. 7 ) ::= -1 bs BIT STRING ::= '01'B t BOOLEAN ::= TRUE END",
    "Mo-1 DEFINITIONS AUTOMATIC TAGS ::= BEGIN Empty ::= SEQUENCE { } L ::= SEQUENCE OF SEQUENCE { a SEQUENCE OF CHOICE { b NULLx , c BOOLEAN } } NULLx ::= INTEGER { one ( 1 ) } ( 0 .. 255 ) "
    "C ::= CHOICE { a Empty , ... , [[ 2 : b L , c INTEGER ]] , ... } END",
]


def lexical(t):
    """A rough class of tokens, to replace one by a malformed one of its kind."""
    t = t.lstrip("-")
    return "quoted" if t[:1] == "'" else "number" if t[:1].isdigit() else ""


def systematic(tier):
    """Every single-token change of the example modules."""
    for e, text in enumerate(EXAMPLES):
        base = text.split(" ")
        for i in range(len(base)):
            ops = [["del", i, 0], ["del2", i, 0], ["dup", i, 0], ["swap", i, 0], ["cut", i, 0], ["case", i, 0]]
            for x in range(len(TOKENS)):
                if tier == "thorough" or (x * 7 + i * 3 + e) % 10 == 0:
                    ops += [["ins", i, x], ["rep", i, x]]
                elif lexical(base[i]) and lexical(base[i]) == lexical(TOKENS[x]):
                    ops += [["rep", i, x]]
            yield {"e": e, "ops": ops}


def check_systematic(case, ctx):
    base = EXAMPLES[case["e"]].split(" ")
    if ref(syntax.invalid, base):
        ref(_fail, "recognizer refuses a valid module: %s" % " ".join(base))
    for op in case["ops"]:
        toks = mutate(base, op)
        why = ref(syntax.invalid, toks)
        if why is not None:
            must_refuse(" ".join(toks), "%s: %s" % (op[0], why), ctx, ["syntax:" + op[0]], True)


def prefixes(tier):
    for e in range(len(EXAMPLES)):
        yield {"e": e}


def check_valid_examples(case, ctx):
    """The unbroken examples compile (so that refusing them is not the reason for refusing their mutants)."""
    text = EXAMPLES[case["e"]]
    ctx.note(["valid"], nontrivial=False)
    schema.run_code(parse_asn1_schema(text))


def check_prefix(case, ctx):
    mod = case["mod"]
    base = ref(schema.module_tokens, mod)
    for c in case["cuts"]:
        must_refuse(" ".join(base[:c % len(base)]), "cut short", ctx, ["prefix"])


def check_text(case, ctx):
    must_refuse(case["text"], case["why"], ctx, ["fixed:" + case["why"].split(":")[0]])


# --------------------------------------------------------------- semantics ---
def sites(mod):
    """Every (path, TYPE) in the module."""
    out = []

    def walk(t, path):
        out.append((path, t))
        if t["k"] == "seqof":
            walk(t["elem"], path + ["elem"])
        elif t["k"] in ("seq", "choice"):
            for part in ("root", "adds"):
                for i, c in enumerate(t[part]):
                    walk(c["t"], path + [part, i, "t"])
            for g, grp in enumerate(t["groups"]):
                for i, c in enumerate(grp):
                    walk(c["t"], path + ["groups", g, i, "t"])
    for i, a in enumerate(mod["assigns"]):
        walk(a["t"], ["assigns", i, "t"])
    return out


def at(mod, path):
    x = mod
    for p in path:
        x = x[p]
    return x


def comps_of(mod):
    """Every (component, its TYPE's path) in the module."""
    out = []
    for path, t in sites(mod):
        if t["k"] in ("seq", "choice"):
            for part in ("root", "adds"):
                for i, c in enumerate(t[part]):
                    out.append((path, t["k"], path + [part, i]))
            for g, grp in enumerate(t["groups"]):
                for i, c in enumerate(grp):
                    out.append((path, t["k"], path + ["groups", g, i]))
    return out


WRONG = {"bool": [["int", 5], ["octs", "05"], ["enum", "nosuch"]],
         "int": [["bool", True], ["octs", "05"], ["bits", "01"], ["enum", "nosuch"]],
         "enum": [["int", 0], ["bool", False], ["octs", "05"], ["enum", "no-such-item"]],
         "bits": [["int", 5], ["bool", True], ["enum", "nosuch"]],
         "octs": [["int", 5], ["bool", True], ["enum", "nosuch"]]}


def outside(T, which):
    """A value of the right kind that the (non-extensible) type does not have, or None."""
    k = T["k"]
    if k == "int" and not T["ext"]:
        c = ([T["lb"] - 1] if T["lb"] is not None else []) + ([T["ub"] + 1] if T["ub"] is not None else []) + ([T["hole"][0]] if T.get("hole") else [])
        return c[which % len(c)] if c else None
    if k in ("bits", "octs") and not T["ext"]:
        n = ([T["lb"] - 1] if T["lb"] else []) + ([T["ub"] + 1] if T["ub"] is not None and T["ub"] < 300 else []) + ([T["hole"][0]] if T.get("hole") and T["hole"][0] < 300 else [])
        n = [x for x in n if x < 300]
        if not n:
            return None
        m = n[which % len(n)]
        return "1" * m if k == "bits" else "a5" * m
    return None


def break_it(mod, rule, which):
    """The module with one rule broken, or None when the rule has no place in it."""
    mod = copy.deepcopy(mod)
    env = schema.types_of(mod)

    def pick(xs):
        xs = list(xs)
        return xs[which % len(xs)] if xs else None

    if rule == "undefined-type":
        p = pick(p for p, t in sites(mod) if t["k"] == "ref")
        if p is None:
            c = pick(comps_of(mod))
            if c is None or at(mod, c[2])["m"] == "D":
                return None
            at(mod, c[2])["t"] = {"k": "ref", "n": "Un-defined"}
        else:
            at(mod, p)["n"] = "Un-defined"
        return mod
    if rule == "undefined-default":
        c = pick(c for _, _, c in comps_of(mod) if at(mod, c)["m"] == "D")
        if c is None:
            return None
        at(mod, c)["ds"] = {"ref": "un-defined"}
        return mod
    if rule == "undefined-value":
        a = pick(a for a in mod["assigns"] if a["a"] == "value")
        if a is None:
            return None
        a["s"] = {"ref": "un-defined"}
        return mod
    if rule == "undefined-bound":
        t = pick(t for _, t in sites(mod) if t.get("c"))
        if t is None:
            return None
        e = t["c"]["parts"][which % len(t["c"]["parts"])]
        e[1 if e[0] == "single" or which % 2 else 3] = "un-defined"
        return mod
    if rule == "twice":
        a = mod["assigns"][which % len(mod["assigns"])]
        b = copy.deepcopy(pick([a] + [x for x in mod["assigns"] if x["a"] == a["a"]]))
        b["n"] = a["n"]
        mod["assigns"].insert((which // 7) % (len(mod["assigns"]) + 1), b)
        return mod
    if rule == "component-twice":
        t = pick(t for _, t in sites(mod) if t["k"] in ("seq", "choice") and len(refper.all_comps(t)) > 1)
        if t is None:
            return None
        cs = refper.all_comps(t)
        i = which % len(cs)
        j = (i + 1 + (which // 5) % (len(cs) - 1)) % len(cs)
        cs[i]["n"] = cs[j]["n"]
        return mod
    if rule in ("item-twice", "number-twice"):
        t = pick(t for _, t in sites(mod) if t["k"] == "enum" and len(t["items"] + t["xitems"]) > 1)
        if t is None:
            return None
        its = t["items"] + t["xitems"]
        i = which % len(its)
        j = (i + 1 + (which // 5) % (len(its) - 1)) % len(its)
        if rule == "item-twice":
            its[i][0] = its[j][0]
        else:
            rn, an = schema.enum_numbers(t["items"], t["xitems"])
            nums = rn + an
            if (i >= len(rn)) != (j >= len(rn)) and i < len(rn):
                i, j = j, i           # an addition takes the number of a root item
            if i < len(rn) and its[j][1] is None:
                return None           # an implicit number gives way
            if i >= len(rn) and j >= len(rn):
                return None
            its[i][1] = nums[j]
        return mod
    if rule == "default-kind" or rule == "default-range":
        cs = []
        for _, k, c in comps_of(mod):
            T = schema.resolve(at(mod, c)["t"], env)
            if k == "seq" and T["k"] in WRONG and (rule == "default-kind" or outside(T, which) is not None):
                cs.append((at(mod, c), T))
        x = pick(cs)
        if x is None:
            return None
        c, T = x
        if rule == "default-kind":
            dk, d = WRONG[T["k"]][(which // 3) % len(WRONG[T["k"]])]
        else:
            dk, d = T["k"], outside(T, which // 3)
        c.update(m="D", dk=dk, d=d, ds={"form": "H" if dk == "octs" else "B"})
        return mod
    if rule == "value-kind" or rule == "value-range":
        cs = []
        for a in mod["assigns"]:
            if a["a"] == "value":
                T = schema.resolve(a["t"], env)
                if rule == "value-kind" or outside(T, which) is not None:
                    cs.append((a, T))
        for n, t in env.items():
            T = schema.resolve(t, env)
            if T["k"] in WRONG and (rule == "value-kind" or outside(T, which) is not None):
                a = {"a": "value", "n": "kNew", "t": {"k": "ref", "n": n}}
                cs.append((a, T))
        x = pick(cs)
        if x is None:
            return None
        a, T = x
        if rule == "value-kind":
            vk, v = WRONG[T["k"]][(which // 3) % len(WRONG[T["k"]])]
        else:
            vk, v = T["k"], outside(T, which // 3)
        a.update(vk=vk, v=v, s={"form": "H" if vk == "octs" else "B"})
        if a["n"] == "kNew":
            mod["assigns"].append(a)
        return mod
    if rule == "wrong-constant":
        # DEFAULT by a constant of another kind
        vals = [a for a in mod["assigns"] if a["a"] == "value"]
        a = pick(vals)
        if a is None:
            return None
        AT = schema.resolve(a["t"], env)
        cs = [at(mod, c) for _, k, c in comps_of(mod) if k == "seq" and schema.resolve(at(mod, c)["t"], env)["k"] in set(WRONG) - {AT["k"]}]
        c = cs[(which // 3) % len(cs)] if cs else None
        if c is None:
            return None
        c.update(m="D", dk="int", d=0, ds={"ref": a["n"]})
        return mod
    if rule == "reversed":
        t = pick(t for _, t in sites(mod) if t["k"] in ("int", "bits", "octs", "seqof") and t["lb"] is not None and t["ub"] is not None and t["lb"] < t["ub"])
        if t is None:
            return None
        t["c"] = {"parts": [["range", t["ub"], False, t["lb"], False]], "ext": t["ext"], "or": "|"}
        return mod
    if rule == "negative-size":
        t = pick(t for _, t in sites(mod) if t["k"] in ("bits", "octs", "seqof"))
        if t is None:
            return None
        t["c"] = {"parts": [["range", -1 - which % 3, False, 3, False]], "ext": bool(which % 2), "or": "|"}
        return mod
    if rule == "wrong-constraint":
        # a size for a number, a value range for something that is no number: spelled by hand in place of the type
        p = pick(p for p, t in sites(mod) if t["k"] in ("int", "bits", "octs", "seqof", "bool", "enum") and not (t["k"] == "seqof" and t["elem"]["k"] == "ref"))
        if p is None:
            return None
        t = at(mod, p)
        word = {"int": "(SIZE(0..9))", "bits": "(0..9)", "octs": "(0..9)", "bool": "(0..9)", "enum": "(SIZE(0..9))", "seqof": "(0..9)"}[t["k"]]
        t["wrong"] = word
        return mod
    if rule == "choice-mode":
        c = pick(c for _, k, c in comps_of(mod) if k == "choice")
        if c is None:
            return None
        c = at(mod, c)
        c["m"] = "O"
        return mod
    if rule == "constant-as-type":
        a = pick(a for a in mod["assigns"] if a["a"] == "type" and not any(t.get("n") == a["n"] for _, t in sites(mod) if t["k"] == "ref"))
        if a is None:
            return None
        a["n"] = a["n"][0].lower() + a["n"][1:]
        return mod
    if rule == "type-as-constant":
        a = pick(a for a in mod["assigns"] if a["a"] == "value" and (a["n"] not in repr([x for x in mod["assigns"] if x is not a])))
        if a is None:
            return None
        a["n"] = a["n"][0].upper() + a["n"][1:]
        return mod
    if rule == "upper-component":
        c = pick(c for _, _, c in comps_of(mod))
        if c is None:
            return None
        c = at(mod, c)
        c["n"] = c["n"][0].upper() + c["n"][1:]
        return mod
    if rule == "underscore":
        c = pick([c for _, _, c in comps_of(mod)])
        if c is None:
            return None
        c = at(mod, c)
        c["n"] = c["n"] + "_x"
        return mod
    if rule == "digit-first":
        c = pick([c for _, _, c in comps_of(mod)])
        if c is None:
            return None
        c = at(mod, c)
        c["n"] = "1" + c["n"]
        return mod
    if rule == "double-hyphen":
        return None
    if rule == "empty-enum":
        t = pick(t for _, t in sites(mod) if t["k"] == "enum")
        if t is None:
            return None
        t.update(items=[], ext=False, xitems=[])
        # a DEFAULT naming one of its items would be wrong as well
        return mod
    raise AssertionError(rule)


RULES = ["undefined-type", "undefined-default", "undefined-value", "undefined-bound", "twice", "component-twice", "item-twice", "number-twice", "default-kind",
         "default-range", "value-kind", "value-range", "wrong-constant", "reversed", "negative-size", "wrong-constraint", "choice-mode", "constant-as-type", "type-as-constant", "upper-component",
         "underscore", "digit-first", "empty-enum"]


def check_rule(case, ctx):
    done = 0
    for rule, which in case["rules"]:
        mod = ref(break_it, case["mod"], rule, which)
        if mod is None:
            continue
        done += 1
        must_refuse(ref(schema.plain_text, mod), rule, ctx, ["rule:" + rule])
    if not done:
        raise Discard()


@st.composite
def rules(draw):
    mod = draw(schema.module(max_types=4, depth=2))
    rs = draw(st.lists(st.tuples(st.sampled_from(RULES), st.integers(0, 10000)).map(list), min_size=3, max_size=6))
    return {"mod": mod, "rules": rs}


@st.composite
def cuts(draw):
    return {"mod": draw(schema.module(max_types=3, depth=1)), "cuts": draw(st.lists(st.integers(0, 1 << 16), min_size=3, max_size=6))}


# ------------------------------------------------------------- unsupported ---
UNSUPPORTED = """NULL
REAL
OBJECT IDENTIFIER
RELATIVE-OID
EXTERNAL
EMBEDDED PDV
CHARACTER STRING
SET { a INTEGER }
SET OF INTEGER
SET SIZE(1..2) OF INTEGER
ANY
ANY DEFINED BY x
UTF8String
IA5String
PrintableString
VisibleString
NumericString
BMPString
GeneralString
GraphicString
TeletexString
UniversalString
VideotexString
IA5String (SIZE(1..5))
PrintableString (FROM("a".."z"))
UTCTime
GeneralizedTime
ObjectDescriptor
DATE
TIME-OF-DAY
DATE-TIME
DURATION
[0] INTEGER
[1] IMPLICIT INTEGER
[APPLICATION 3] EXPLICIT BOOLEAN
OCTET STRING (CONTAINING T0)
BIT STRING (CONTAINING T0)
OCTET STRING (CONTAINING T0 ENCODED BY x)
INTEGER (0..10)(2..5)
INTEGER (0..10 ^ 2..5)
INTEGER (0..10 INTERSECTION 2..5)
INTEGER (0..10 EXCEPT 5)
INTEGER (ALL EXCEPT 5)
INTEGER (T0)
INTEGER (INCLUDES T0)
INTEGER (CONSTRAINED BY {})
SEQUENCE { COMPONENTS OF T0 }
SEQUENCE { a INTEGER, COMPONENTS OF S0 }
SEQUENCE { a T0 (0..3) }
SEQUENCE { a S0 (WITH COMPONENTS {..., a PRESENT}) }
S0 (WITH COMPONENTS {a})
L0 (WITH COMPONENT (0..3))
T0 (0..3)
L0 (SIZE(1))
SEQUENCE { a S0 DEFAULT {b 5} }
SEQUENCE { a L0 DEFAULT {} }
SEQUENCE { a L0 DEFAULT {1, 2} }
SEQUENCE { a C0 DEFAULT b: 5 }
SEQUENCE { a BOOLEAN, ..., [[ b BOOLEAN ]], c BOOLEAN }
SEQUENCE { a BOOLEAN, ..., c INTEGER, [[ b BOOLEAN ]], d BOOLEAN OPTIONAL }
SEQUENCE { a BOOLEAN, ..., [[ b BOOLEAN ]], [[ c BOOLEAN, d BOOLEAN ]], e INTEGER DEFAULT 5, ..., f BOOLEAN }
SEQUENCE { ..., [[ b BOOLEAN ]], c SEQUENCE { d BOOLEAN } }
SEQUENCE { a NULL }
SEQUENCE { a NULL OPTIONAL }
SEQUENCE { a [0] INTEGER }
SEQUENCE { a INTEGER, b REAL }
CHOICE { a NULL }
CHOICE { a [0] INTEGER, b [1] BOOLEAN }
CHOICE { a IA5String }
SEQUENCE OF NULL
SEQUENCE OF IA5String
SEQUENCE (SIZE(1..2)) OF IA5String
SEQUENCE { a SET OF INTEGER }
OCTET STRING (SIZE(1..5))(SIZE(2..3))
OCTET STRING (SIZE(1..5) ^ SIZE(2..3))
Mod2.Type
T0.S0
T0 . S0
L0.C0
SEQUENCE { a INTEGER DEFAULT Mod2.x }
SEQUENCE { a INTEGER DEFAULT { b 5 } }
INTEGER (0..Mod2.x)
OCTET STRING (SIZE(Mod2.x))
TYPE-IDENTIFIER.&Type
INSTANCE OF X
a < C0
CLASS { &id INTEGER }""".split("\n")


def unsupported(tier):
    ctxs = ["A ::= %s",
            "A ::= SEQUENCE { x BOOLEAN, y %s }",
            "A ::= SEQUENCE { x BOOLEAN, ..., [[ y %s OPTIONAL ]] }",
            "A ::= CHOICE { x BOOLEAN, y %s }",
            "A ::= CHOICE { x BOOLEAN, ..., y %s }",
            "A ::= SEQUENCE OF %s",
            "A ::= SEQUENCE (SIZE(0..3)) OF %s",
            "A ::= SEQUENCE { x SEQUENCE { z CHOICE { w %s } } }"]
    support = "T0 ::= INTEGER S0 ::= SEQUENCE { b INTEGER } L0 ::= SEQUENCE OF INTEGER C0 ::= CHOICE { b INTEGER } %s x INTEGER ::= 5"
    for u in UNSUPPORTED:
        for i, c in enumerate(ctxs):
            yield {"why": "unsupported: " + u, "text": "M DEFINITIONS AUTOMATIC TAGS ::= BEGIN %s END" % (support % (c % u))}
    for head in ["M DEFINITIONS AUTOMATIC TAGS ::= BEGIN IMPORTS T FROM N; A ::= T END", "M DEFINITIONS AUTOMATIC TAGS ::= BEGIN IMPORTS T FROM N ; A ::= INTEGER END",
                 "M DEFINITIONS ::= BEGIN A ::= B { INTEGER } B { T } ::= SEQUENCE { a T } END", "M DEFINITIONS ::= BEGIN A ::= B.&id B ::= CLASS { &id INTEGER } END",
                 "M DEFINITIONS EXPLICIT TAGS ::= BEGIN A ::= CHOICE { a INTEGER, b [5] BOOLEAN } END", "M DEFINITIONS ::= BEGIN A INTEGER ::= { 1 | 2 } END",
                 "M DEFINITIONS ::= BEGIN A ::= SEQUENCE { a INTEGER } v A ::= { a 5 } END", "M DEFINITIONS ::= BEGIN A ::= SEQUENCE OF INTEGER v A ::= { 5 } END",
                 "M DEFINITIONS ::= BEGIN A ::= CHOICE { a INTEGER } v A ::= a : 5 END", "M DEFINITIONS ::= BEGIN A ::= BIT STRING { x(0), y(1) } v A ::= { x, y } END",
                 "M DEFINITIONS ::= BEGIN A ::= BIT STRING { x(0), y(1) } S ::= SEQUENCE { a A DEFAULT {x} } END",
                 "M DEFINITIONS ::= BEGIN v OBJECT IDENTIFIER ::= { 1 2 3 } END", "M DEFINITIONS ::= BEGIN v REAL ::= 1.5 END", "M DEFINITIONS ::= BEGIN v IA5String ::= \"abc\" END",
                 "M DEFINITIONS ::= BEGIN v NULL ::= NULL END",
                 "M DEFINITIONS ::= BEGIN k INTEGER ::= 5 v INTEGER ::= Mod2.k END", "M DEFINITIONS ::= BEGIN v INTEGER ::= { a 5 } END", "M DEFINITIONS ::= BEGIN v BOOLEAN ::= { a TRUE } END",
                 "M DEFINITIONS ::= BEGIN v OCTET STRING ::= { a 'AB'H } END", "M DEFINITIONS ::= BEGIN v OCTET STRING ::= CONTAINING 'AB'H END", "M DEFINITIONS ::= BEGIN v BIT STRING ::= { a '1'B } END",
                 "M DEFINITIONS ::= BEGIN E ::= ENUMERATED { a, b } e E ::= a v E ::= Mod2.e END", "M DEFINITIONS ::= BEGIN A ::= INTEGER k INTEGER ::= 5 v A ::= Mod2.k END",
                 "M DEFINITIONS ::= BEGIN A ::= INTEGER B ::= BOOLEAN v A.B ::= 5 END", "", " ", "-- only a comment", "M", "M DEFINITIONS ::= BEGIN", "BEGIN END", "M ::= BEGIN END", "m DEFINITIONS ::= BEGIN END",
                 "M DEFINITIONS ::= BEGIN A ::= INTEGER END N DEFINITIONS ::= BEGIN B ::= BOOLEAN END", "M DEFINITIONS ::= BEGIN A ::= INTEGER END trailing",
                 "M DEFINITIONS ::= BEGIN A ::= INTEGER END END", "leading M DEFINITIONS ::= BEGIN A ::= INTEGER END", "M DEFINITIONS AUTOMATIC ::= BEGIN A ::= INTEGER END",
                 "M DEFINITIONS TAGS ::= BEGIN A ::= INTEGER END", "M DEFINITIONS ::= BEGIN A ::= INTEGER -- unfinished END", "M DEFINITIONS ::= BEGIN A ::= INTEGER /* comment END",
                 "M DEFINITIONS ::= BEGIN A ::= SEQUENCE { a A } END", "M DEFINITIONS ::= BEGIN A ::= A END", "M DEFINITIONS ::= BEGIN A ::= B B ::= A END", "M DEFINITIONS ::= BEGIN a INTEGER ::= a END",
                 "M DEFINITIONS ::= BEGIN a INTEGER ::= b b INTEGER ::= a END", "M DEFINITIONS ::= BEGIN A ::= INTEGER (0..a) a A ::= 5 b INTEGER (0..b) ::= 5 END",
                 "M DEFINITIONS ::= BEGIN A ::= SEQUENCE { b B } B ::= SEQUENCE { a A } END"]:
        yield {"why": "module: " + head[:60], "text": head}


NO_RANGE = ["5..4", "5<..5", "5..<5", "5<..<6", "5<..<5", "6..<6", "0..-1", "-1..-2", "-1<..<0", "-2<..-2", "1|5..4", "5..4|1", "1..3|5<..<6", "5<..<6|1..3", "9..9|8..7|1", "1|2|4..3|6",
            "MAX..MIN", "MAX..5", "5..MIN", "5..4,...", "5<..<6,...", "1|5..4,...", "256..255", "65536..65535", "10..9", "100..99", "10<..<11", "99999999999999999999..99999999999999999998",
            "...", "...,1..3", "1..3,", "1..3,....", "1..", "..3", "1...3", "1..3..5", "1 3", "1,3", "|", "1|", "|1", "1||3", "1<", "<1", "1<<..3", "1..<<3", "1<.. <", "", "1.5", "1..2.5", "TRUE", "a..b",
            "1..kk", "kk", "1|kk", "MIN", "MAX", "MIN..MAX..MIN", "SIZE", "SIZE()", "SIZE 5", "SIZE(1..)", "SIZE(..)", "SIZE(5..4)", "SIZE(1..3)|5", "(1..3", "1..3)", "((1..3)", "\"a\"", "'01'B", "'0A'H", "A", "S0",
            "e1", "5:6", "-", "--5", "- -5", "+5", "1..+5", "0x1", "1e3", "1..3 UNION", "UNION 1", "1 UNION UNION 2", "1 OR 2", "1 ; 2", "1 & 2", "EXCEPT 1", "ALL"]
NO_SIZE = ["-1", "-1..3", "3..2", "1|-1", "-3..-1", "-1|1", "0..3|-2", "5<..<6", "-1..3,...", "4|3..2", "MIN..-1", "1|MIN..-1", "MIN..-1|1", "1|MIN..<0", "2|MIN..-1,..."]


def constraints(tier):
    heads = ["A ::= %s", "A ::= SEQUENCE { x BOOLEAN, y %s OPTIONAL }", "A ::= CHOICE { x BOOLEAN, ..., y %s }", "A ::= SEQUENCE OF %s", "A ::= SEQUENCE { x BOOLEAN, ..., [[ y %s ]] }"]
    i = 0
    for c in NO_RANGE:
        types = ["INTEGER (%s)" % c]
        if not c.startswith("SIZE") and c not in ("MIN", "MAX"):
            types += ["OCTET STRING (SIZE(%s))" % c, "BIT STRING (SIZE(%s))" % c, "SEQUENCE (SIZE(%s)) OF BOOLEAN" % c, "SEQUENCE SIZE(%s) OF INTEGER (0..3)" % c, "SEQUENCE OF INTEGER (%s)" % c]
        for t in types:
            i += 1
            for h in heads if tier == "thorough" else (heads[0], heads[1 + i % 4]):
                yield {"why": "constraint", "text": "M DEFINITIONS AUTOMATIC TAGS ::= BEGIN %s S0 ::= SEQUENCE { b INTEGER } e1 BOOLEAN ::= TRUE END" % (h % t)}
    for c in NO_SIZE:
        for t in ("OCTET STRING (SIZE(%s))", "BIT STRING (SIZE(%s))", "SEQUENCE (SIZE(%s)) OF BOOLEAN", "SEQUENCE SIZE(%s) OF INTEGER (0..3)", "SEQUENCE { a SEQUENCE SIZE (%s) OF BOOLEAN }"):
            yield {"why": "size", "text": "M DEFINITIONS AUTOMATIC TAGS ::= BEGIN %s END" % ("A ::= " + t % c)}
    consts = {"bool": "k BOOLEAN ::= TRUE", "bool2": "k BOOLEAN ::= m m BOOLEAN ::= FALSE", "bool3": "k T ::= TRUE T ::= U U ::= BOOLEAN", "enum": "k E ::= b E ::= ENUMERATED { a, b }",
              "bits": "k BIT STRING ::= '0101'B", "octs": "k OCTET STRING ::= '05'H", "neg": "k INTEGER ::= -1", "neg2": "k T ::= m m INTEGER ::= -5 T ::= INTEGER (-9..9)", "big": "k INTEGER ::= 7",
              "big2": "k T ::= m T ::= INTEGER m INTEGER ::= 256"}
    for k, text in sorted(consts.items()):
        if k[:3] in ("boo", "enu", "bit", "oct"):
            types = ["INTEGER (0..k)", "INTEGER (k..5)", "INTEGER (k)", "INTEGER (k..MAX)", "INTEGER (MIN..k)", "INTEGER (0..k, ...)", "OCTET STRING (SIZE(0..k))", "BIT STRING (SIZE(k))",
                     "SEQUENCE (SIZE(k..3)) OF BOOLEAN", "SEQUENCE OF INTEGER (0..k)", "SEQUENCE OF SEQUENCE { x OCTET STRING (SIZE(k..MAX)) OPTIONAL }", "CHOICE { x INTEGER (0..k) }"]
        elif k[:3] == "neg":
            types = ["OCTET STRING (SIZE(k..5))", "OCTET STRING (SIZE(k))", "BIT STRING (SIZE(k..5, ...))", "SEQUENCE (SIZE(k)) OF BOOLEAN", "SEQUENCE SIZE(k..3) OF INTEGER (0..3)", "BIT STRING (SIZE(0..k))",
                     "SEQUENCE (SIZE(k..MAX)) OF BOOLEAN", "OCTET STRING (SIZE(0..k, ...))", "INTEGER (0..k)", "INTEGER (4..k, ...)", "SEQUENCE OF INTEGER (0..k)"]
        else:
            types = ["OCTET STRING (SIZE(k..5))", "BIT STRING (SIZE(k..5, ...))", "SEQUENCE (SIZE(k..3)) OF BOOLEAN", "SEQUENCE SIZE(k..6) OF INTEGER (0..3)", "INTEGER (k..6)", "INTEGER (k..6, ...)",
                     "SEQUENCE OF INTEGER (k..-1)", "SEQUENCE SIZE(k..3, ...) OF BOOLEAN"]
        for t in types:
            for h in heads:
                yield {"why": "constant", "text": "M DEFINITIONS AUTOMATIC TAGS ::= BEGIN %s %s END" % (h % t, text)}
    for t in ("A ::= ENUMERATED { a(\u0663) }", "A ::= ENUMERATED { a, ..., b(\uff13) }", "A ::= INTEGER (0..\u0663)", "A ::= INTEGER { x(\u0663) }", "a INTEGER ::= \u0663", "a INTEGER ::= -\u0663",
              "A ::= BIT STRING { x(\u0663) }", "A ::= SEQUENCE { a BOOLEAN, ..., [[\u0663: b BOOLEAN ]] }", "A ::= SEQUENCE { a BOOLEAN, ...!\u0663 }", "A ::= SEQUENCE { a INTEGER DEFAULT \u0663 }",
              "A ::= SEQUENCE { \u00e9 BOOLEAN }", "A ::= SEQUENCE { a\u00e9 BOOLEAN }", "\u00c9 ::= BOOLEAN", "A\u00e9 ::= BOOLEAN", "A\u0664 ::= BOOLEAN", "A ::= SEQUENCE { a\u0664 BOOLEAN }", "A ::= \u0412OOLEAN",
              "A ::= INTEGER (\u0663)", "A ::= OCTET STRING (SIZE(\u0663))", "A ::= OCTET STRING (SIZE(1..\u00b2))", "a INTEGER ::= \u00b3", "a BIT STRING ::= '\u0661'B", "a OCTET STRING ::= '\u0661'H",
              "a OCTET STRING ::= '\uff21'H", "A ::= \ufeffBOOLEAN", "A ::= \u200bBOOLEAN", "A ::= BOOLEAN \x00", "A ::= ENUMERATED { \u0430 }", "A ::= CHOICE { x\u0301 BOOLEAN }", "A ::= SEQUENCE { a BOOLEAN, \u2026 }"):
        yield {"why": "look-alike", "text": "M DEFINITIONS AUTOMATIC TAGS ::= BEGIN %s END" % t}
    for t in ("INTEGER", "BOOLEAN", "OCTET STRING", "BIT STRING", "ENUMERATED { a, b }", "SEQUENCE { a BOOLEAN }", "CHOICE { a BOOLEAN }", "SEQUENCE OF BOOLEAN", "S0"):
        for c in ("(SIZE(1..3))", "(1..3)", "(5)", "(TRUE)", "(a)", "('01'B)", "('0A'H)", "()", "(SIZE(1..3) | 5)", "(FROM(\"a\"))"):
            if (t, c) in (("INTEGER", "(1..3)"), ("INTEGER", "(5)"), ("OCTET STRING", "(SIZE(1..3))"), ("BIT STRING", "(SIZE(1..3))")):
                continue        # what the library supports
            for h in heads[:3]:
                yield {"why": "constraint on " + t, "text": "M DEFINITIONS AUTOMATIC TAGS ::= BEGIN %s S0 ::= SEQUENCE { b INTEGER } END" % (h % (t + " " + c))}


def long(tier):
    """One rule broken at any place of a long list of components, items, numbers or assignments."""
    head = "M DEFINITIONS AUTOMATIC TAGS ::= BEGIN %s END"
    for n in (2, 3, 5, 9, 17, 34, 65, 80) if tier == "quick" else (2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 34, 64, 65, 80, 130, 260):
        names = ["n%d" % i for i in range(n)]
        for i, j in sorted({(0, 1), (0, n - 1), (n - 2, n - 1), (n // 2, n - 1), (n // 2 - 1, n // 2)}):
            if not 0 <= i < j:
                continue
            ns = list(names)
            ns[j] = ns[i]
            comps = ["%s %s" % (x, ["BOOLEAN", "INTEGER (0..7) OPTIONAL", "OCTET STRING"][q % 3]) for q, x in enumerate(ns)]
            alts = [c.replace(" OPTIONAL", "") for c in comps]
            k = max(1, n // 2)
            bodies = ["SEQUENCE { %s }" % ", ".join(comps), "CHOICE { %s }" % ", ".join(alts), "ENUMERATED { %s }" % ", ".join(ns),
                      "ENUMERATED { %s }" % ", ".join("%s(%d)" % (x, 3 * q) for q, x in enumerate(ns)),
                      "ENUMERATED { %s }" % ", ".join("%s(%d)" % (x, 3 * (i if q == j else q)) for q, x in enumerate(names)),
                      "BIT STRING { %s }" % ", ".join("%s(%d)" % (x, q) for q, x in enumerate(ns)),
                      "BIT STRING { %s }" % ", ".join("%s(%d)" % (x, i if q == j else q) for q, x in enumerate(names)),
                      "INTEGER { %s }" % ", ".join("%s(%d)" % (x, q - 3) for q, x in enumerate(ns)),
                      "INTEGER { %s } (0..9)" % ", ".join("%s(%d)" % (x, (i if q == j else q) - 3) for q, x in enumerate(names)),
                      "SEQUENCE { %s, ..., %s }" % (", ".join(comps[:k]), ", ".join(comps[k:])),
                      "SEQUENCE { %s, ..., [[ %s ]] }" % (", ".join(comps[:k]), ", ".join(comps[k:])),
                      "CHOICE { %s, ..., %s }" % (", ".join(alts[:k]), ", ".join(alts[k:])),
                      "CHOICE { %s, ..., [[ %s ]] }" % (", ".join(alts[:k]), ", ".join(alts[k:])),
                      "ENUMERATED { %s, ..., %s }" % (", ".join(ns[:k]), ", ".join(ns[k:]))]
            for b in bodies:
                yield {"why": "long: repeated", "text": head % ("A ::= " + b)}
            yield {"why": "long: repeated", "text": head % ("A ::= SEQUENCE { o CHOICE { i SEQUENCE OF %s } }" % bodies[(i + j + n) % len(bodies)])}
            yield {"why": "long: repeated", "text": head % " ".join("T%s ::= %s" % (x, ["BOOLEAN", "INTEGER"][q % 2]) for q, x in enumerate(ns))}
            yield {"why": "long: repeated", "text": head % " ".join("%s INTEGER ::= %d" % (x, q) for q, x in enumerate(ns))}
        for q in sorted({0, n // 2, n - 1}):
            for bad in ("Missing", "SEQUENCE OF Missing", "INTEGER (0..missing)", "INTEGER DEFAULT missing", "INTEGER (5..4)", "OCTET STRING (SIZE(3..1))", "BOOLEAN DEFAULT 5", "INTEGER (0..7) DEFAULT 8"):
                cs = ["%s %s" % (x, bad if i == q else "BOOLEAN") for i, x in enumerate(names)]
                yield {"why": "long: " + bad, "text": head % ("A ::= SEQUENCE { %s }" % ", ".join(cs))}
                if "DEFAULT" not in bad:
                    yield {"why": "long: " + bad, "text": head % ("A ::= CHOICE { %s }" % ", ".join(cs))}
                    yield {"why": "long: " + bad, "text": head % " ".join("T%s ::= %s" % (x, bad if i == q else "BOOLEAN") for i, x in enumerate(names))}


def units(tier):
    return [
        Unit("long", check_text, cases=long),
        Unit("valid-examples", check_valid_examples, cases=prefixes),
        Unit("systematic", check_systematic, cases=systematic),
        Unit("unsupported", check_text, cases=unsupported),
        Unit("constraints", check_text, cases=constraints),
        Unit("rules", check_rule, strategy=rules(), quick=240, thorough=30000),
        Unit("broken", check_syntax, strategy=broken(), quick=240, thorough=30000),
        Unit("prefixes", check_prefix, strategy=cuts(), quick=64, thorough=8000),
    ]
