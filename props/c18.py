"""C18 constants and DEFAULT values written in a schema have the value, type and octets they say."""
from hypothesis import strategies as st
from lib import build, gen, refper, schema
from lib.common import decode, encode, hexs, short
from lib.common_schema import Violation, built_types, class_of, compiled, enc_ref, module_features
from lib.runner import Discard, Unit, ref

RULE = ("A case is a module with value assignments (numbers, TRUE/FALSE, binary and hexadecimal strings with white space and any number "
        "of digits, enumeration items, references to other constants, chains of them; of built-in, constrained inline and named types) and "
        "components with DEFAULT values of the same kinds. Non-trivial: the module has at least one constant or DEFAULT; distinct = distinct JSON "
        "of the case.")
ASSUMPTIONS = ["lib/refper.py is the X.691 oracle",
               "a hexadecimal string for an OCTET STRING with an odd number of digits, or a binary one that is no multiple of 8, is padded with zero bits (X.680 23.5)"]

BASE = {"bool": build.BooleanType, "int": build.IntegerType, "bits": build.BitStringType, "octs": build.OctetStringType}


def check_values(mod, ns, text):
    env_types = schema.types_of(mod)
    n = 0
    for a in mod["assigns"]:
        if a["a"] != "value":
            continue
        n += 1
        T = ref(schema.resolve, a["t"], env_types)
        py = schema.pyname(a["n"])
        if py not in ns:
            raise Violation("no constant %s in the generated code\n%s" % (py, text))
        o = ns[py]
        cls = class_of(ns, a["t"]["n"], text) if a["t"]["k"] == "ref" else BASE[T["k"]]
        if not isinstance(o, cls):
            raise Violation("constant %s is a %s, not a %s\n%s" % (a["n"], type(o).__name__, cls.__name__, text))
        B = schema.built_of(T, cls)
        got = build.extract(B, o)
        if got != a["v"]:
            raise Violation("constant %s is %s, the schema says %s\n%s" % (a["n"], short(got), short(a["v"]), text))
        try:
            want = ref(enc_ref, T, a["v"])
        except Discard:
            continue
        e = encode(o)
        if e != want:
            raise Violation("constant %s encodes to %s, expected %s\n%s" % (a["n"], hexs(e), hexs(want), text))
    return n


def check_defaults(B, name, text):
    """A message in which nothing with a DEFAULT is set reads and encodes as one with the defaults."""
    n = 0
    T = B.T
    for m, kid in B.kids.items():
        n += check_defaults(kid, "%s.%s" % (name, m), text)
    if T["k"] != "seq":
        return n
    for c in T["root"]:
        if c["m"] != "D":
            continue
        n += 1
        kid = B.kids[c["n"]]
        o = B.cls()[c["n"]]
        got = build.extract(kid, o)
        if got != c["d"]:
            raise Violation("%s.%s reads %s when it is not set, the schema says DEFAULT %s\n%s" % (name, c["n"], short(got), short(c["d"]), text))
    if any(c["m"] == "M" for c in T["root"]) or not any(c["m"] == "D" for c in T["root"]):
        return n
    explicit = {c["n"]: c["d"] for c in T["root"] if c["m"] == "D"}
    try:
        want = ref(enc_ref, T, explicit)
    except Discard:
        return n
    e = encode(build.inst(B, explicit))
    if e != want:
        raise Violation("%s with every DEFAULT component at its default encodes to %s, expected %s\n%s" % (name, hexs(e), hexs(want), text))
    x = refper.canon(T, build.extract(B, decode(want, B.cls())))
    if x != refper.canon(T, explicit):
        raise Violation("%s decodes %s to %s, not to its defaults %s\n%s" % (name, hexs(want), short(x), short(explicit), text))
    return n


def check(case, ctx):
    mod = case["mod"]
    text = schema.plain_text(mod)
    code, ns = compiled(text)
    n = check_values(mod, ns, text)
    for name, B in built_types(mod, ns, text).items():
        n += check_defaults(B, name, text)
    ctx.note(module_features(mod), nontrivial=n > 0)


# ------------------------------------------------------------------- grid ----
def literals():
    """(kind, literal text, value) for built-in types."""
    for v in [0, 1, -1, 5, -5, 127, 128, -128, -129, 255, 256, 65535, 65536, -65536, 2 ** 31, 2 ** 63, -2 ** 63, 2 ** 64, 10 ** 20, 16, 100, 2 ** 53 + 1, -2 ** 53 - 1, 10 ** 19 + 1, 10 ** 30 + 1, -10 ** 40 - 1, 2 ** 1030 + 1]:
        yield "int", str(v), v
        if v < 0:
            yield "int", "- %d" % -v, v
    yield "bool", "TRUE", True
    yield "bool", "FALSE", False
    for n in list(range(0, 26)) + [31, 32, 33, 64, 100, 127, 128]:
        for pat in ("0", "1", "01", "0010111"):
            d = (pat * (n + 1))[:n]
            yield "bits", "'%s'B" % d, d
            if n and pat == "01":
                yield "bits", "'%s'B" % " ".join(d), d
                for w in ("\n\t", "\t", "\r\n", "\v", "\f", "\r", "  ") if n in (2, 9, 33) else ("\n\t",):
                    yield "bits", "'%s%s%s'B" % (d[:n // 2], w, d[n // 2:]), d
                    yield "octs", "'%s%s%s'B" % (d[:n // 2], w, d[n // 2:]), bytes(int((d + "0" * 7)[i:i + 8], 2) for i in range(0, n, 8)).hex()
            pad = d + "0" * (-len(d) % 8)
            yield "octs", "'%s'B" % d, bytes(int(pad[i:i + 8], 2) for i in range(0, len(pad), 8)).hex()
    for n in list(range(0, 12)) + [15, 16, 17, 31, 32, 33]:
        for pat in ("0", "F", "A5", "09AF3", "C"):
            d = (pat * (n + 1))[:n]
            yield "octs", "'%s'H" % d, (d + "0" * (n % 2)).lower()
            yield "bits", "'%s'H" % d, "".join("{:04b}".format(int(x, 16)) for x in d)
            if n > 1 and pat == "A5":
                for w in (" ", "\n", "\t", "\r\n", "\v", "\f", "\r", " \n ") if n in (2, 5, 32) else (" ",):
                    yield "octs", "'%s%s%s'H" % (d[:1], w, d[1:]), (d + "0" * (n % 2)).lower()
                    yield "octs", "'%s%s%s%s'H" % (w, d[:n // 2], d[n // 2:], w), (d + "0" * (n % 2)).lower()
                    yield "bits", "'%s%s%s'H" % (d[:1], w, d[1:]), "".join("{:04b}".format(int(x, 16)) for x in d)


def constraint_for(kind, v, how):
    T = {"k": kind, "lb": None, "ub": None, "ext": False}
    if kind == "bool" or how == 0:
        return {"k": "bool"} if kind == "bool" else T
    n = refper.size_of(T, v)
    if how == 1:
        lb, ub, ext = n, n, False
    elif how == 2:
        lb, ub, ext = max(n - 2, 0) if kind != "int" else n - 2, n + 5, False
    elif how == 3:
        lb, ub, ext = n + 1, n + 4, True        # the constant is an extension value
    else:
        lb, ub, ext = n, None, False
    return {"k": kind, "lb": lb, "ub": ub, "ext": ext, "c": {"parts": [["range", lb, False, "MAX" if ub is None else ub, False]], "ext": ext, "or": "|"}}


def check_literal(case, ctx):
    k, lit, v, how = case["k"], case["lit"], case["v"], case["how"]
    t = constraint_for(k, v, how)
    tt = " ".join(schema.type_tokens(t))
    text = ("M DEFINITIONS AUTOMATIC TAGS ::= BEGIN inline %s ::= %s Named ::= %s viaType Named ::= %s again Named ::= viaType Alias ::= Named "
            "viaAlias Alias ::= %s S ::= SEQUENCE { a %s DEFAULT %s, b Named DEFAULT %s, c Named DEFAULT viaType, d Alias DEFAULT viaAlias, "
            "..., e %s DEFAULT %s, [[ f Alias DEFAULT %s, g Named DEFAULT again ]] } END" % (tt, lit, tt, lit, lit, tt, lit, lit, tt, lit, lit))
    T = schema.resolve(t, {})
    ctx.note(["literal:" + k, "constraint:%d" % how])
    code, ns = compiled(text)
    want = ref(enc_ref, T, v)
    for n in ("inline", "viaType", "again", "viaAlias"):
        o = ns[n]
        cls = BASE[k] if n == "inline" else ns["Named"]
        if not isinstance(o, cls):
            raise Violation("%s is a %s, not a %s\n%s" % (n, type(o).__name__, cls.__name__, text))
        got = build.extract(schema.built_of(T, cls), o)
        if got != v:
            raise Violation("%s is %s, the schema says %s\n%s" % (n, short(got), short(v), text))
        e = encode(o)
        if e != want:
            raise Violation("%s encodes to %s, expected %s\n%s" % (n, hexs(e), hexs(want), text))

    def comp(n):
        return {"n": n, "t": T, "m": "D", "d": v}
    ST = {"k": "seq", "root": [comp(n) for n in "abcd"], "ext": True, "adds": [comp("e")], "groups": [[comp("f"), comp("g")]]}
    SB = schema.built_of(ST, ns["S"])
    check_defaults(SB, "S", text)
    s = decode(ref(enc_ref, ST, {}), ns["S"]())
    got = build.extract(SB, s)
    if got != {n: v for n in "abcdefg"}:
        raise Violation("S without any component decodes to %s instead of the defaults\n%s" % (short(got), text))
    # one component different: it alone is sent
    other = schema_other(T, v)
    if other is not None:
        for n in "abcdefg":
            val = {n: other}
            e, w = encode(build.inst(SB, val)), ref(enc_ref, ST, val)
            if e != w:
                raise Violation("S with only %s = %s encodes to %s, expected %s\n%s" % (n, short(other), hexs(e), hexs(w), text))


def schema_other(T, v):
    k = T["k"]
    if k == "bool":
        return not v
    cand = [v + 1, v - 1] if k == "int" else [v + "0", v[:-1] + "1", v[:-1] + "0"] if k == "bits" else [v + "00", v[:-2] + "01", v[:-2] + "02"]
    for x in cand:
        if x != v and refper.valid(T, x) and (k == "int" or refper.size_of(T, x) < 400):
            return x
    return None


def grid(tier):
    for i, (k, lit, v) in enumerate(literals()):
        for how in (range(5) if k != "bool" else [0]):
            if tier == "quick" and (i + how) % 3 and how:
                continue
            if how == 3 and k != "int" and False:
                continue
            yield {"k": k, "lit": lit, "v": v, "how": how}


@st.composite
def constants(draw):
    """A module full of constants and DEFAULTs, in any order."""
    w = schema.World(draw)
    assigns = []
    for i in range(draw(st.integers(1, 4))):
        name = schema.unique(draw, schema.TYPE_STEMS, w.tnames, i)
        t = schema.scalar(w) if not w.types or draw(st.integers(0, 3)) else {"k": "ref", "n": draw(st.sampled_from([x for x, _ in w.types]))}
        w.types.append((name, t))
        w.env[name] = t
        assigns.append({"a": "type", "n": name, "t": t})
        for _ in range(draw(st.integers(0, 3))):
            assigns.append(schema.value_assign(w))
    used = set()
    comps = [schema.comp(w, used, i, 0, ("D", "D", "D", "O")) for i in range(draw(st.integers(1, 5)))]
    assigns.append({"a": "type", "n": "Zseq", "t": {"k": "seq", "root": comps, "ext": False, "adds": [], "groups": []}})
    return {"mod": {"name": "M", "assigns": draw(st.permutations(assigns))}}


def chains(tier):
    """Constants defined by constants: a ::= b ::= c ..., written in either direction."""
    I = {"k": "int", "lb": None, "ub": None, "ext": False}
    E = {"k": "enum", "items": [["x", None], ["y", 7]], "ext": True, "xitems": [["w", None]]}
    for n in range(2, 9):
        for k, v, tdef in (("int", -300, I), ("bool", False, {"k": "bool"}), ("bool", True, {"k": "bool"}), ("enum", "w", E), ("int", 0, I),
                           ("octs", "00ff", {"k": "octs", "lb": None, "ub": None, "ext": False}), ("bits", "0010", {"k": "bits", "lb": None, "ub": None, "ext": False}),
                           ("octs", "", {"k": "octs", "lb": None, "ub": None, "ext": False}), ("bits", "", {"k": "bits", "lb": None, "ub": None, "ext": False})):
            for named in ((True,) if k == "enum" else (True, False)):
                t = {"k": "ref", "n": "Ty"} if named else tdef
                a = [{"a": "value", "n": "c%d" % i, "t": t, "vk": k, "v": v, "s": {"ref": "c%d" % (i + 1)} if i + 1 < n else {"form": "H"}} for i in range(n)]
                comp = {"n": "f", "t": t, "m": "D", "d": v, "dk": k, "ds": {"ref": "c0"}}
                a += [{"a": "type", "n": "Ty", "t": tdef}, {"a": "type", "n": "S", "t": {"k": "seq", "root": [comp], "ext": False, "adds": [], "groups": []}}]
                for order in (a, a[::-1], a[n:] + a[:n], a[::2] + a[1::2]):
                    yield {"mod": {"name": "M", "assigns": order}}


def renamed(tier):
    """Constants and DEFAULTs whose type is a renaming of a renaming of ... a type, over any number of steps and in several orders."""
    P = lambda lo, hi: {"parts": [["range", lo, False, hi, False]], "ext": False, "or": "|"}
    kinds = [("int", -3, {"k": "int", "lb": -5, "ub": 9, "ext": False, "c": P(-5, 9)}), ("bool", True, {"k": "bool"}),
             ("enum", "w", {"k": "enum", "items": [["x", None], ["y", 7]], "ext": True, "xitems": [["w", None]]}),
             ("octs", "00ff", {"k": "octs", "lb": 1, "ub": 3, "ext": False, "c": P(1, 3)}), ("bits", "0010", {"k": "bits", "lb": 4, "ub": 4, "ext": False, "c": P(4, 4)})]
    for d in (1, 2, 3, 4, 5, 6, 7, 9, 12, 25, 60):
        for k, v, tdef in kinds:
            a = [{"a": "type", "n": "T%d" % d, "t": tdef}] + [{"a": "type", "n": "T%d" % i, "t": {"k": "ref", "n": "T%d" % (i + 1)}} for i in range(d)]
            R = lambda i: {"k": "ref", "n": "T%d" % i}
            vs = [{"a": "value", "n": "v%d" % i, "t": R(i), "vk": k, "v": v, "s": {"form": "B"}} for i in sorted({0, d // 2, d})]
            vs.append({"a": "value", "n": "u", "t": R(0), "vk": k, "v": v, "s": {"ref": "v0"}})
            comps = [{"n": "f%d" % j, "t": R(i), "m": "D", "d": v, "dk": k, "ds": ds} for j, (i, ds) in enumerate(((0, {"form": "H"}), (0, {"ref": "u"}), (d // 2, {"form": "B"}), (d, {"ref": "v%d" % d})))]
            S = {"a": "type", "n": "S", "t": {"k": "seq", "root": comps[:2], "ext": True, "adds": comps[2:3], "groups": [comps[3:]]}}
            al = [S] + vs + a
            for order in (al, al[::-1], al[::2] + al[1::2]):
                yield {"mod": {"name": "M", "assigns": order}}


def units(tier):
    return [
        Unit("renamed", check, cases=renamed),
        Unit("literals", check_literal, cases=grid),
        Unit("chains", check, cases=chains),
        Unit("constants", check, strategy=constants(), quick=400, thorough=20000),
        Unit("modules", check, strategy=st.fixed_dictionaries({"mod": schema.module(max_types=4)}), quick=160, thorough=8000),
    ]
