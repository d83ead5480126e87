"""ASN.1 modules as data: generation, spelling as text in any layout, meaning.

A module is {"name", "assigns": [...]} with assignments
  {"a": "type",  "n": TypeName,  "t": TYPE}
  {"a": "value", "n": valueName, "t": TYPE, "v": plain value, "s": spelling}
TYPE is a type description of refper.py, in which the meaning is spelled out
(bounds as numbers, defaults as plain values), plus hints how it is written:
  {"k": "ref", "n": TypeName}
  "c":  constraint spelling (see constraint_tokens)
  "items": enumeration items [name, number or None] of the root, "xitems" of the additions
  "second": number of root components written after the second extension marker
  "exc": an exception specification follows the marker;  "bare": groups (of one alternative) written without brackets
  "end": a closing extension marker is written;  "gv": version numbers of the groups
component "ds": spelling of the DEFAULT value (see value_tokens).
resolve() turns a TYPE into a plain refper description: it is the meaning of
the schema according to X.680, computed without the library."""
import keyword
import re

from . import env  # noqa: F401
from hypothesis import strategies as st
from . import build, gen, refper
from pyasn1.type.univ import noValue  # noqa: F401


IMPORTED = ("NamedType NamedTypes OptionalNamedType DefaultedNamedType NamedValues AdditiveNamedTypes NoConstraint ExtensionMarker "
            "SequenceOfValueSize ValueRange SingleValue ValueSize ConstraintOr ConstraintAnd").split()


def pyname(n):
    """Python name of an assignment in generated code."""
    n = n.replace("-", "_")
    return n + "_" if keyword.iskeyword(n) or n in IMPORTED else n


def module_name(ns, n):
    """The object generated for assignment n (a name Python needs itself may have a trailing underscore)."""
    return ns[pyname(n)]


# ----------------------------------------------------------------- meaning ---
def enum_numbers(items, xitems):
    """X.680 clause 20: numbers of root and additional enumeration items."""
    used = {n for _, n in items if n is not None}
    rn, nxt = [], 0
    for _, n in items:
        if n is None:
            while nxt in used:
                nxt += 1
            n = nxt
            nxt += 1
        rn.append(n)
    root = set(rn)
    an, last = [], None
    for _, n in xitems:
        if n is None:
            n = 0 if last is None else last + 1
            while n in root:
                n += 1
        an.append(n)
        last = n
    return rn, an


def types_of(mod):
    return {a["n"]: a["t"] for a in mod["assigns"] if a["a"] == "type"}


def resolve(t, env_types):
    k = t["k"]
    if k == "ref":
        return resolve(env_types[t["n"]], env_types)
    if k == "bool":
        return {"k": "bool"}
    if k in ("int", "bits", "octs"):
        out = {"k": k, "lb": t["lb"], "ub": t["ub"], "ext": t["ext"]}
        if t.get("c") and t["c"].get("hole"):
            out["hole"] = t["c"]["hole"]
        return out
    if k == "enum":
        rn, an = enum_numbers(t["items"], t["xitems"])
        return {"k": "enum", "root": [n for n, _ in t["items"]], "ext": t["ext"],
                "adds": [n for n, _ in t["xitems"]], "rn": rn, "an": an}
    if k == "seqof":
        out = {"k": k, "lb": t["lb"], "ub": t["ub"], "ext": t["ext"], "elem": resolve(t["elem"], env_types)}
        if t.get("c") and t["c"].get("hole"):
            out["hole"] = t["c"]["hole"]
        return out

    def comp(c):
        d = {"n": c["n"], "t": resolve(c["t"], env_types), "m": c["m"]}
        if c["m"] == "D":
            d["d"] = c["d"]
        return d
    return {"k": k, "root": [comp(c) for c in t["root"]], "ext": t["ext"],
            "adds": [comp(c) for c in t["adds"]], "groups": [[comp(c) for c in g] for g in t["groups"]]}


def avoid(T, v):
    """v, or the nearest value outside the gaps of the unions in T."""
    k = T["k"]
    if k in ("int", "bits", "octs") and T.get("hole"):
        n = refper.size_of(T, v)
        gap = refper.in_hole(T, n)
        if gap:
            lo, hi = gap
            m = lo - 1 if (n - lo < hi - n) else hi + 1
            if k == "int":
                return m
            v = v + "0" * 2 * m
            return v[:m] if k == "bits" else v[:2 * m]
    elif k == "seqof":
        gap = not T["ext"] and refper.in_hole(T, len(v))
        return [avoid(T["elem"], x) for x in (v[:gap[0] - 1] if gap else v)]
    elif k == "seq":
        return {c["n"]: avoid(c["t"], v[c["n"]]) for c in refper.all_comps(T) if c["n"] in v}
    elif k == "choice":
        return [v[0], avoid([c["t"] for c in refper.all_comps(T) if c["n"] == v[0]][0], v[1])]
    return v


# ---------------------------------------------------------------- spelling ---
def endpoint_tokens(e):
    return [e if isinstance(e, str) else str(e)]


def element_tokens(e):
    """["single", e] or ["range", lo, lo-open, hi, hi-open]; an endpoint is a
    number, "MIN", "MAX" or a value reference."""
    if e[0] == "single":
        return endpoint_tokens(e[1])
    _, lo, lox, hi, hix = e
    return endpoint_tokens(lo) + (["<"] if lox else []) + [".."] + (["<"] if hix else []) + endpoint_tokens(hi)


def constraint_tokens(c, size):
    """c = {"parts": [element...], "or": "|" or "UNION", "ext": bool, "xadd": [element...], "outer": bool}"""
    inner = []
    for i, e in enumerate(c["parts"]):
        if i:
            inner.append(c.get("or", "|"))
        inner += element_tokens(e)
    tail = []
    if c["ext"]:
        tail = [",", "..."]
        for i, e in enumerate(c.get("xadd", [])):
            tail += [","] if i == 0 else ["|"]
            tail += element_tokens(e)
    if not size:
        return ["("] + inner + tail + [")"]
    if c.get("outer"):
        return ["(", "SIZE", "("] + inner + [")"] + [",", "..."][:2 * bool(c["ext"])] + [")"]
    return ["(", "SIZE", "("] + inner + tail + [")", ")"]


def value_tokens(k, v, s):
    """Spelling of a scalar value; s is {"ref": name}, {"form": "B"|"H", "gap": n} or {}."""
    if s.get("ref"):
        return [s["ref"]]
    if k == "bool":
        return ["TRUE" if v else "FALSE"]
    if k == "int":
        if v < 0 and s.get("gap"):
            return ["-", str(-v)]
        return [str(v)]
    if k == "enum":
        return [v]
    if k == "bits":
        digits = v
        if s.get("form") == "H" and len(v) % 4 == 0:
            digits = "%0*X" % (len(v) // 4, int(v, 2)) if v else ""
            form = "H"
        else:
            form = "B"
    else:
        if s.get("form") == "B":
            digits = "".join("{:08b}".format(b) for b in bytes.fromhex(v))
            form = "B"
        else:
            digits = v.upper()
            form = "H"
    gap = s.get("gap") or 0
    if gap and digits:
        digits = " ".join(digits[i:i + gap] for i in range(0, len(digits), gap))
    return ["'%s'%s" % (digits, form)]


def type_tokens(t):
    k = t["k"]
    if t.get("wrong"):          # a constraint that the type cannot have (C15)
        base = {x: y for x, y in t.items() if x not in ("wrong", "c")}
        if k == "seqof":
            return ["SEQUENCE", t["wrong"], "OF"] + type_tokens(t["elem"])
        return type_tokens(base) + [t["wrong"]]
    if k == "ref":
        return [t["n"]]
    if k == "bool":
        return ["BOOLEAN"]
    if k in ("int", "bits", "octs"):
        w = {"int": ["INTEGER"], "bits": ["BIT", "STRING"], "octs": ["OCTET", "STRING"]}[k]
        if t.get("named"):
            w = w + ["{"]
            for i, (n, x) in enumerate(t["named"]):
                w += ([","] if i else []) + [n, "(", str(x), ")"]
            w += ["}"]
        return w + (constraint_tokens(t["c"], k != "int") if t.get("c") else [])
    if k == "enum":
        out = ["ENUMERATED", "{"]

        def items(its):
            for n, x in its:
                if out[-1] != "{":
                    out.append(",")
                out.append(n)
                if x is not None:
                    out.extend(["(", str(x), ")"])
        items(t["items"])
        if t["ext"]:
            out.extend([",", "..."] + (["!", "5"] if t.get("exc") else []))
            items(t["xitems"])
        return out + ["}"]
    if k == "seqof":
        if t.get("c"):
            return ["SEQUENCE"] + constraint_tokens(t["c"], True) + ["OF"] + type_tokens(t["elem"])
        return ["SEQUENCE", "OF"] + type_tokens(t["elem"])
    out = ["SEQUENCE" if k == "seq" else "CHOICE", "{"]

    def comp(c):
        if out[-1] not in ("{", "[[", ":"):
            out.append(",")
        out.append(c["n"])
        out.extend(type_tokens(c["t"]))
        if c["m"] == "O":
            out.append("OPTIONAL")
        elif c["m"] == "D":
            out.append("DEFAULT")
            out.extend(value_tokens(c["dk"], c["d"], c.get("ds", {})))
    second = t.get("second", 0)
    n = len(t["root"]) - second
    for c in t["root"][:n]:
        comp(c)
    if t["ext"]:
        out.extend(([","] if out[-1] != "{" else []) + ["..."] + (["!", "5"] if t.get("exc") else []))
        for c in t["adds"]:
            comp(c)
        for i, g in enumerate(t["groups"]):
            if i in t.get("bare", []):
                comp(g[0])
                continue
            out.extend([",", "[["])
            gv = (t.get("gv") or [])[i:i + 1]
            if gv and gv[0]:
                out.extend([str(gv[0]), ":"])
            for c in g:
                comp(c)
            out.append("]]")
        if second or t.get("end"):
            out.extend([",", "..."])
            for c in t["root"][n:]:
                comp(c)
    return out + ["}"]


def assign_tokens(a):
    if a["a"] == "type":
        return [a["n"], "::="] + type_tokens(a["t"])
    return [a["n"]] + type_tokens(a["t"]) + ["::="] + value_tokens(a["vk"], a["v"], a.get("s", {}))


def module_tokens(mod):
    toks = [mod["name"], "DEFINITIONS"] + (["AUTOMATIC", "TAGS"] if mod.get("tags", True) else []) + ["::=", "BEGIN"]
    for a in mod["assigns"]:
        toks += assign_tokens(a)
    return toks + ["END"]


WORD = re.compile(r"[A-Za-z0-9\-']")


def must_separate(a, b):
    if WORD.match(a[-1]) and WORD.match(b[0]):
        return True
    return a[-1] == "." and b[0] == "." or a[-1] in ":[]" and b[0] in ":=[]"


def plain_text(mod):
    """The canonical layout: one space between all tokens, an assignment per line."""
    out = ["%s DEFINITIONS %s::=\nBEGIN\n" % (mod["name"], "AUTOMATIC TAGS " if mod.get("tags", True) else "")]
    for a in mod["assigns"]:
        out.append(" ".join(assign_tokens(a)) + "\n")
    return "".join(out) + "END\n"


BLANKS = [" ", "  ", "\n", "\t", "\r\n", " \n ", "\n\n\n", "\t \t", "        ", "\x0b", "\x0c", "\r"]
COMMENTS = ["", " ", " plain words ", "x", " END ", " ::= ", " { } ( ) [[ ]] , ... ", ' "quoted ', " it's ", " A ::= INTEGER ",
            " -", "- ", " a-b ", "!@#$%^&*<>?/\\|~`;:", " \u00e9\u4e2d ", " BEGIN END", " // /* ", "=" * 40, "1..2", "\t"]


def spell(tokens, dice):
    """Join tokens in the layout chosen by the list of small integers `dice`
    (cycled).  Every layout has the same meaning."""
    out, j = [], 0

    def roll(m):
        nonlocal j
        if not dice:
            return 0
        v = dice[j % len(dice)] + (j // len(dice)) * 7
        j += 1
        return v % m

    def blank():
        return BLANKS[roll(len(BLANKS))]

    def gap(required):
        w = roll(10)
        if w < 4:
            return " " if required or w < 2 else ""
        if w < 7:
            return blank()
        text = COMMENTS[roll(len(COMMENTS))]
        if w == 7:                       # closed by hyphens, on one line
            return "%s--%s--%s" % (" " if required else "", text if not text.endswith("-") else text + " ", blank() if roll(2) else "")
        if w == 8:                       # closed by the end of the line
            return "%s--%s%s" % (blank(), text, ["\n", "\r\n", "\n  ", "\r", "\x0c"][roll(5)])
        return blank() + "-" * [4, 8, 12][roll(3)] + blank()

    out.append(gap(False) if dice else "")
    for i, t in enumerate(tokens):
        if i:
            g = gap(must_separate(tokens[i - 1], t))
            # a comment next to a hyphen or a word must not swallow it
            if g.startswith("-") and tokens[i - 1][-1] == "-":
                g = " " + g
            if g.endswith("-") and t[0] == "-":
                g = g + " "
            out.append(g)
        out.append(t)
    out.append(gap(False) if dice else "\n")
    return "".join(out)


# ----------------------------------------------------- generated classes -----
def built_of(T, cls):
    """Built tree (build.py) for a class the schema compiler generated."""
    k = T["k"]
    if k == "seqof":
        return build.Built(T, cls, {"elem": built_of(T["elem"], type(cls.componentType))})
    if k in ("seq", "choice"):
        kids = {}
        for c in refper.all_comps(T):
            kids[c["n"]] = built_of(c["t"], type(cls.componentType.getTypeByPosition(cls.componentType.getPositionByName(c["n"]))))
        return build.Built(T, cls, kids)
    return build.Built(T, cls, {})


def run_code(code):
    ns = {"__name__": "generated"}
    exec(compile(code, "<generated>", "exec"), ns)
    return ns


# --------------------------------------------------------------- generation --
TYPE_STEMS = ["Type", "A", "Z9", "Message", "My-Type", "UTC-Timestamp", "ENDpoint", "BEGINning", "INTEGERs", "BOOLEAN2",
              "SEQUENCEr", "CHOICEs", "BITs", "OCTETs", "ENUMERATEDx", "OFfer", "SIZE1", "DEFAULTs", "OPTIONALs", "TRUEness",
              "MAXi", "MINi", "SETs", "REALm", "NULLable", "DATEs", "TAGS", "X-1-a", "Foo-Bar-Baz", "B",
              "DEFINITIONSx", "AUTOMATICs", "Tt", "Integer", "Sequence", "Choice", "Component", "Object", "ExtensionAddition",
              "IA5Strings", "UTF8Stringy", "None", "NamedType", "ValueRange", "ExtensionMarker", "True", "FROMage", "EXCEPTion", "ALLright", "UNIONized", "Named"]
ID_STEMS = ["a", "b", "field", "my-field", "seqNum", "x1", "src-Port-2", "optional", "default", "size", "end", "begin", "integer",
            "boolean", "sequence", "choice", "of", "null", "true", "id", "value", "type", "length", "name", "data", "z-9", "oF", "int",
            "str", "object", "self", "cls", "root", "extension", "e", "tag", "class", "from", "items", "values", "keys", "in", "is", "clone", "import", "componentType", "min", "max", "enumRoot", "componenT"]
VAL_STEMS = ["v", "maxSize", "my-Const", "lower", "upper", "c1", "max-value", "min", "max", "limit-1", "zERO", "defaultVal", "k", "lambda", "while", "try"]
MOD_STEMS = ["Mod", "M", "My-Module", "SimpleProtocol", "ENDing", "Test-1", "DEFINITIONSmod", "Z9"]


def unique(draw, stems, used, number):
    s = draw(st.sampled_from(stems))
    if draw(st.integers(0, 2)):
        s = "%s%s%d" % (s, draw(st.sampled_from(["", "", "-"])), number)
    while s in used:
        s += str(number)
    used.add(s)
    return s


class World(object):
    def __init__(self, draw):
        self.draw = draw
        self.types = []          # (name, TYPE)
        self.env = {}
        self.values = []         # value assignments
        self.tnames, self.vnames = set(), set()

    def ints(self):
        return [a for a in self.values if a["vk"] == "int"]


def spell_endpoint(w, x, which):
    """Spelling of the bound x: the number, MIN/MAX, or a value reference."""
    if x is None:
        return which
    cands = [a["n"] for a in w.ints() if a["v"] == x]
    if cands and w.draw(st.integers(0, 1)):
        return w.draw(st.sampled_from(cands))
    return x


def bound_values(w):
    """Numbers for which a constant exists (so that bounds by reference occur)."""
    return [a["v"] for a in w.ints()]


def many(d, lb, ub, gaps):
    """A union of several elements from lb to ub, in any order, overlapping, touching or (gaps) apart; and its gaps."""
    span = min(ub - lb - 1, 60)
    cuts = {d(st.integers(0, span)) for _ in range(d(st.integers(2, 8)))}
    pts = sorted({lb + c for c in cuts} | {lb, ub})
    parts, i, end = [], 0, lb - 1
    while i < len(pts):
        lo, hi = pts[i], pts[i + 1] if i + 1 < len(pts) and d(st.booleans()) else pts[i]
        if lo > end + 1 and not (gaps and d(st.integers(0, 3))):
            lo = d(st.integers(max(lb, end - 1), end + 1))
        parts.append(["single", lo] if lo == hi and d(st.integers(0, 3)) else ["range", lo, False, hi, False])
        end = hi
        i += 1 + (hi > pts[i])
    if d(st.integers(0, 4)) == 0:
        parts.append(d(st.sampled_from(parts)))
    hole, end = [], lb - 1
    for lo, hi in sorted((p[1], p[-2] if p[0] == "range" else p[1]) for p in parts):
        if lo > end + 1:
            hole += [end + 1, lo - 1]
        end = max(end, hi)
    return d(st.permutations(parts)), hole


def constraint(w, lb, ub, ext, size):
    """Spell a constraint meaning lb..ub[, ...]; None when it means nothing."""
    d = w.draw
    gaps = not ext
    if lb is None and ub is None:
        if not gaps or size or d(st.integers(0, 5)):
            return None
        x = d(st.sampled_from([0, 1, 5, 100, 255, -128, 1000, 65535]))
        y = x + d(st.integers(2, 300))
        return {"parts": [["range", "MIN", False, x, False], ["range", y, False, "MAX", False]], "ext": False, "or": "|", "hole": [x + 1, y - 1]}
    form = d(st.sampled_from(["range", "range", "range", "open", "split", "single", "single", "many"] + ["gap"] * gaps))
    parts = hole = None
    if form == "open" and (lb is not None or ub is not None):
        lox = lb is not None and d(st.booleans()) and not (size and lb == 0)
        hix = ub is not None and (not lox or d(st.booleans()))
        parts = [["range", "MIN" if lb is None else (lb - 1 if lox else spell_endpoint(w, lb, "MIN")), lox,
                  "MAX" if ub is None else (ub + 1 if hix else spell_endpoint(w, ub, "MAX")), hix]]
    elif form == "split" and lb is not None and ub is not None and ub - lb >= 1:
        m = lb + d(st.integers(0, min(ub - lb - 1, 1000)))
        one = ["single", lb] if lb == m and d(st.booleans()) else ["range", lb, False, m, False]
        two = ["single", ub] if m + 1 == ub and d(st.booleans()) else ["range", m + 1, False, ub, False]
        parts = [one, two]
        if d(st.booleans()):
            parts.reverse()
    elif form == "gap" and lb is not None and ub is not None and ub - lb >= 2:
        m = lb + d(st.integers(0, min(ub - lb - 2, 40)))
        m2 = ub - d(st.integers(0, min(ub - m - 2, 40)))
        parts = [["single", lb] if lb == m else ["range", lb, False, m, False],
                 ["single", ub] if m2 == ub else ["range", m2, False, ub, False]]
        hole = [m + 1, m2 - 1]
        if d(st.booleans()):
            parts.reverse()
    elif form == "many" and lb is not None and ub is not None and ub - lb >= 2:
        parts, hole = many(d, lb, ub, gaps)
    elif form == "single" and lb is not None and lb == ub:
        parts = [["single", spell_endpoint(w, lb, "MIN")]]
    if parts is None:
        lo = spell_endpoint(w, lb, "MIN")
        if size and lb == 0 and d(st.integers(0, 4)) == 0:
            lo = "MIN"
        parts = [["range", lo, False, spell_endpoint(w, ub, "MAX"), False]]
    c = {"parts": parts, "ext": ext, "or": d(st.sampled_from(["|", "UNION"]))}
    if hole:
        c["hole"] = hole
    if ext:
        if size and d(st.integers(0, 2)) == 0:
            c["outer"] = True
        elif d(st.integers(0, 2)) == 0 and ub is not None:
            c["xadd"] = [["range", ub + 2, False, ub + 9, False]] if d(st.booleans()) else [["single", ub + 3]]
    return c


def scalar(w, kinds=("bool", "int", "int", "enum", "bits", "octs")):
    d = w.draw
    k = d(st.sampled_from(kinds))
    if k == "bool":
        return {"k": "bool"}
    if k == "int":
        t = dict(d(gen.int_type()))
        nums = bound_values(w)
        if nums and d(st.integers(0, 2)) == 0:
            x = d(st.sampled_from(nums))
            if d(st.booleans()):
                t = {"k": "int", "lb": x, "ub": x + d(st.sampled_from([0, 1, 7, 255, 256, 65536])), "ext": d(st.booleans())}
            else:
                t = {"k": "int", "lb": x - d(st.sampled_from([0, 1, 7, 255, 256, 65536])), "ub": x, "ext": d(st.booleans())}
    elif k == "enum":
        return enum(w)
    else:
        lb, ub, ext = d(gen.size_constraint())
        t = {"k": k, "lb": lb, "ub": ub, "ext": ext}
        nums = [x for x in bound_values(w) if 0 <= x <= 300]
        if nums and d(st.integers(0, 2)) == 0:
            x = d(st.sampled_from(nums))
            t = {"k": k, "lb": 0, "ub": x, "ext": ext} if d(st.booleans()) else {"k": k, "lb": x, "ub": x, "ext": ext}
    sized(w, t)
    if k == "int" and d(st.integers(0, 9)) == 0:
        t["named"] = [["one", 1], ["minus-two", -2]][:d(st.integers(1, 2))]
    return t


def sized(w, t):
    c = constraint(w, t["lb"], t["ub"], t["ext"], {"int": "", "seqof": "list"}.get(t["k"], "string"))
    if c is None:
        t.update(lb=None, ub=None, ext=False)
    else:
        t["c"] = c
    if t["k"] != "int" and t["lb"] is None and t["ub"] is not None:
        t["lb"] = 0
    return t


def enum(w):
    d = w.draw
    n = d(st.one_of(st.integers(1, 6), st.sampled_from([1, 2, 3, 4, 5, 8, 9, 16, 17])))
    used = set()
    names = [unique(d, ID_STEMS, used, i) for i in range(n)]
    ext = d(st.booleans())
    m = d(st.sampled_from([0, 0, 1, 2, 3])) if ext else 0
    xn = [unique(d, ID_STEMS, used, n + i) for i in range(m)]
    nums = d(st.lists(st.one_of(st.none(), st.none(), st.integers(-3, 20), st.sampled_from([100, 255, 256, 70000])),
                      min_size=n, max_size=n)) if d(st.booleans()) else [None] * n
    seen = set()
    for i, x in enumerate(nums):
        if x in seen:
            nums[i] = None
        elif x is not None:
            seen.add(x)
    items = [[a, b] for a, b in zip(names, nums)]
    rn, _ = enum_numbers(items, [])
    taken, last, xitems = set(rn), None, []
    for a in xn:
        x = None
        if d(st.booleans()):
            x = (0 if last is None else last + 1) + d(st.integers(0, 5))
            while x in taken:
                x += 1
        xitems.append([a, x])
        _, an = enum_numbers(items, xitems)
        last = an[-1]
    t = {"k": "enum", "items": items, "ext": ext, "xitems": xitems}
    if ext and d(st.integers(0, 9)) == 0:
        t["exc"] = True
    return t


def typ(w, depth):
    d = w.draw
    ch = d(st.integers(0, 9))
    if w.types and ch < 4:
        return {"k": "ref", "n": d(st.sampled_from([n for n, _ in w.types]))}
    if depth <= 0 or ch < 7:
        return scalar(w)
    return constructed(w, depth)


def default_spelling(w, t, T, v):
    """ref to a constant of a suitable type when there is one, else digits."""
    d = w.draw
    s = {"form": d(st.sampled_from(["B", "H"])), "gap": d(st.sampled_from([0, 0, 0, 1, 4]))}
    return s


def usable_constants(w, t, T):
    """Constants that X.680 allows as a DEFAULT for type t (same governing type)."""
    out = []
    for a in w.values:
        AT = resolve(a["t"], w.env)
        if a["vk"] != T["k"]:
            continue
        if T["k"] == "enum" and not (t["k"] == "ref" and a["t"] == t):
            continue
        if T["k"] != "enum" and not refper.valid(T, a["v"]):
            continue
        out.append((a, AT))
    return [a for a, _ in out]


def comp(w, used, i, depth, modes):
    d = w.draw
    t = typ(w, depth)
    T = resolve(t, w.env)
    m = d(st.sampled_from(modes))
    c = {"n": unique(d, ID_STEMS, used, i), "t": t, "m": m}
    if m == "D":
        if T["k"] in ("seq", "seqof", "choice"):
            c["m"] = "O"
        else:
            c["dk"] = T["k"]
            cands = usable_constants(w, t, T)
            if cands and d(st.integers(0, 2)):
                a = d(st.sampled_from(cands))
                c["d"], c["ds"] = a["v"], {"ref": a["n"]}
            else:
                c["d"] = avoid(T, d(short_value(T)))
                c["ds"] = default_spelling(w, t, T, c["d"])
    return c


def short_value(T):
    if T["k"] in ("bits", "octs"):
        f = gen.bits_value if T["k"] == "bits" else gen.octs_value
        return f(T, 40) if not T["lb"] or T["lb"] <= 40 else f(T, 400)
    return gen.value(T, small=True)


def constructed(w, depth):
    d = w.draw
    k = d(st.sampled_from(["seq", "seq", "seq", "choice", "choice", "seqof"]))
    if k == "seqof":
        elem = typ(w, depth - 1)
        lb, ub, ext = d(gen.size_constraint(small_only=d(st.booleans())))
        t = {"k": "seqof", "lb": lb, "ub": ub, "ext": ext, "elem": elem}
        return sized(w, t)
    used = set()
    modes = ("M", "M", "O", "D", "D") if k == "seq" else ("M",)
    n = d(st.integers(0 if k == "seq" and d(st.integers(0, 9)) == 0 else 1, 4))
    root = [comp(w, used, i, depth - 1, modes) for i in range(n)]
    ext = d(st.booleans())
    adds, groups = [], []
    if ext:
        adds = [comp(w, used, 10 + i, depth - 1, modes) for i in range(d(st.sampled_from([0, 0, 1, 2])))]
        for g in range(d(st.sampled_from([0, 0, 1, 2, 4] if depth < 2 else [0, 0, 1, 2]))):
            groups.append([comp(w, used, 20 + 3 * g + i, depth - 1, modes) for i in range(d(st.integers(1, 2)))])
    t = {"k": k, "root": root, "ext": ext, "adds": adds, "groups": groups}
    if ext:
        t["end"] = d(st.integers(0, 2)) == 0
        if k == "seq" and n and d(st.integers(0, 2)) == 0:
            t["second"] = d(st.integers(1, n))
        if d(st.integers(0, 9)) == 0:
            t["exc"] = True
        if k == "choice":      # a plain alternative after a bracketed one is the same as a group of one
            t["bare"] = [i for i in range(1, len(groups)) if len(groups[i]) == 1 and d(st.booleans())]
        t["gv"] = [d(st.sampled_from([None, None, 2, 3, 10])) for _ in groups]
    return t


def value_assign(w, kinds=("int", "int", "int", "bool", "bits", "octs", "enum")):
    d = w.draw
    k = d(st.sampled_from(kinds))
    refs = [(n, resolve(t, w.env)) for n, t in w.types]
    refs = [(n, T) for n, T in refs if T["k"] == k]
    n = unique(d, VAL_STEMS, w.vnames, len(w.values))
    n = n if n in ("lambda", "while", "try") else "k" + n
    if (k == "enum" or d(st.booleans())) and refs:
        tn, T = d(st.sampled_from(refs))
        t = {"k": "ref", "n": tn}
    elif k == "enum":
        t = T = {"k": "bool"}
    else:
        t = {"k": "bool"} if k == "bool" else {"k": k, "lb": None, "ub": None, "ext": False}
        T = t
    v = avoid(T, d(short_value(T)))
    if T["k"] == "int" and d(st.booleans()):
        c = [x for x in [0, 1, 2, 3, 5, 7, 8, 15, 16, 31, 100, 127, 128, 255, 256, 65535, -1, -5, -128] if refper.in_range(x, T["lb"], T["ub"]) and refper.valid(T, x)]
        if c:
            v = d(st.sampled_from(c))
    s = {"form": d(st.sampled_from(["B", "H"])), "gap": d(st.sampled_from([0, 0, 0, 1, 4]))}
    same = [a for a in w.values if a["vk"] == T["k"] and a["v"] == v and a["t"] == t]
    if same and d(st.integers(0, 2)) == 0:
        s = {"ref": same[0]["n"]}
    a = {"a": "value", "n": n, "t": t, "v": v, "s": s, "vk": T["k"]}
    w.values.append(a)
    return a


UNIVERSAL = {"bool": 1, "int": 2, "bits": 3, "octs": 4, "enum": 10, "seq": 16, "seqof": 16}


def tag_of(T):
    return UNIVERSAL[T["k"]] if T["k"] != "choice" else min(tag_of(c["t"]) for c in refper.all_comps(T))


def tags_in_order(T):
    """Without AUTOMATIC TAGS the alternatives of a CHOICE are numbered by their tags (X.691 23.2) and must have different ones.
    The library numbers them as they are written (known_findings.txt), so such modules only have CHOICEs in which that is the same."""
    if T["k"] == "seqof":
        return tags_in_order(T["elem"])
    if T["k"] not in ("seq", "choice"):
        return True
    comps = refper.all_comps(T)
    if T["k"] == "choice":
        tags = [tag_of(c["t"]) for c in comps]
        root = tags[:len(T["root"])]
        if root != sorted(root) or len(set(tags)) < len(tags):
            return False
    return all(tags_in_order(c["t"]) for c in comps)


@st.composite
def module(draw, max_types=5, depth=2, shuffle=True, values=True):
    w = World(draw)
    n = draw(st.integers(1, max_types))
    assigns = []
    for i in range(n):
        if values:
            for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
                assigns.append(value_assign(w))
        name = unique(draw, TYPE_STEMS, w.tnames, i)
        ch = draw(st.integers(0, 9))
        if w.types and ch == 0:
            t = {"k": "ref", "n": draw(st.sampled_from([x for x, _ in w.types]))}
        elif ch < 5:
            t = scalar(w)
        else:
            t = constructed(w, depth)
        w.types.append((name, t))
        w.env[name] = t
        assigns.append({"a": "type", "n": name, "t": t})
    if values and draw(st.booleans()):
        assigns.append(value_assign(w))
    if shuffle:
        assigns = draw(st.permutations(assigns))
    tags = draw(st.integers(0, 3)) > 0 or not all(tags_in_order(resolve(t, w.env)) for _, t in w.types)
    return {"name": draw(st.sampled_from(MOD_STEMS)), "assigns": assigns, "tags": tags}


@st.composite
def module_with_values(draw, per_type=2, **k):
    """A module and some valid values of each of its types."""
    mod = draw(module(**k))
    env_types = types_of(mod)
    vals = {}
    for name, t in env_types.items():
        T = resolve(t, env_types)
        vals[name] = [avoid(T, draw(gen.value(T, small=True))) for _ in range(per_type)]
    return {"mod": mod, "vals": vals}


def rename(mod, tmap, vmap):
    """The module with its types and constants renamed."""
    def ty(t):
        if not isinstance(t, dict):
            return t
        t = dict(t)
        if t["k"] == "ref":
            t["n"] = tmap[t["n"]]
        if t.get("c"):
            c = dict(t["c"])
            c["parts"] = [[vmap.get(x, x) if isinstance(x, str) and i else x for i, x in enumerate(p)] for p in c["parts"]]
            t["c"] = c
        if t["k"] == "seqof":
            t["elem"] = ty(t["elem"])
        if t["k"] in ("seq", "choice"):
            t["root"] = [cp(c) for c in t["root"]]
            t["adds"] = [cp(c) for c in t["adds"]]
            t["groups"] = [[cp(c) for c in g] for g in t["groups"]]
        return t

    def sp(s):
        return dict(s, ref=vmap[s["ref"]]) if s.get("ref") else s

    def cp(c):
        c = dict(c, t=ty(c["t"]))
        if c.get("ds"):
            c["ds"] = sp(c["ds"])
        return c
    out = []
    for a in mod["assigns"]:
        a = dict(a, t=ty(a["t"]), n=(tmap if a["a"] == "type" else vmap)[a["n"]])
        if a["a"] == "value" and a.get("s"):
            a["s"] = sp(a["s"])
        out.append(a)
    return dict(mod, assigns=out)
