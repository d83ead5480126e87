"""C12 layout and comments never change what a schema means."""
from hypothesis import strategies as st
from lib import schema
from lib.common_schema import Violation, compiled, module_features, parse_asn1_schema
from lib.runner import Unit, ref

RULE = ("A case is a module and a layout: separators between its lexical items drawn from spaces, tabs, line feeds, carriage returns, form "
        "feeds, nothing (where X.680 allows it) and comments of both kinds with any content. Systematic cases put each kind of "
        "separator at each gap of modules that use all supported notation. Non-trivial: the layout differs from the canonical one; "
        "distinct = distinct JSON of the case.")
ASSUMPTIONS = ["the canonical layout (one space between items, one assignment per line) is what C11 checks the meaning of"]

_last = [None, None]


def canonical(mod):
    key = schema.plain_text(mod)
    if _last[0] != key:
        _last[:] = [key, compiled(key)[0]]
    return key, _last[1]


def compare(mod, text, ctx, labels):
    plain, code = canonical(mod)
    ctx.note(labels, nontrivial=text != plain)
    try:
        got = parse_asn1_schema(text)
    except Exception as e:
        raise Violation("refused in this layout: %s: %s\n%r" % (type(e).__name__, str(e)[:200], text))
    if got != code:
        a, b = code.splitlines(), got.splitlines()
        d = [(x, y) for x, y in zip(a, b) if x != y][:2] or [(a[-1:], b[-1:])]
        raise Violation("this layout changes the generated code: %r\n%r" % (d, text))


def check(case, ctx):
    text = ref(schema.spell, schema.module_tokens(case["mod"]), case["dice"])
    labels = module_features(case["mod"]) | {"comment" if "--" in text else "no-comment"}
    compare(case["mod"], text, ctx, labels)


SEPARATORS = [" ", "\n", "\t", "\r\n", "\r", "\x0b", "\x0c", "\n\n  \n", " -- comment\n", "\n-- a ::= { END \"' -- ", " -- x --", " -------- ", "\n--\n--\n",
              " -- é ( ]] --\n", "-- c --", " -- a\x85b\u2028c\u2029d\x1ce\x1df\x1eg --", " -- a\x85 b ::= c\n", " -- a\u2028 END\r\n"]


def check_gap(case, ctx):
    toks = schema.module_tokens(case["mod"])
    out = []
    for i, t in enumerate(toks):
        if i:
            if i == case["gap"]:
                s = case["sep"]
                if s == "" and schema.must_separate(toks[i - 1], t):
                    s = " "
                if s[:1] == "-" and (toks[i - 1][-1] == "-" or schema.WORD.match(toks[i - 1][-1])):
                    s = " " + s
                out.append(s)
            else:
                out.append(" ")
        out.append(t)
    text = "".join(out)
    if case["gap"] == 0:
        text = case["sep"] + text
    if case["gap"] == len(toks):
        text = text + case["sep"]
    compare(case["mod"], text, ctx, ["one-gap"])


def modules():
    I = {"k": "int", "lb": None, "ub": None, "ext": False}

    def rng(k, lb, ub, ext=False, **h):
        c = {"parts": [["range", "MIN" if lb is None else lb, False, "MAX" if ub is None else ub, False]], "ext": ext, "or": "|"}
        c.update(h)
        return {"k": k, "lb": lb, "ub": ub, "ext": ext, "c": c}

    def C(n, t, m="M", **k):
        return dict({"n": n, "t": t, "m": m}, **k)

    def S(k, root, ext=False, adds=(), groups=(), **h):
        return dict({"k": k, "root": root, "ext": ext, "adds": list(adds), "groups": list(groups)}, **h)

    def M(*assigns):
        return {"name": "M-od", "assigns": [dict(a) for a in assigns], "tags": len(assigns) % 2 == 0}

    def T(n, t):
        return {"a": "type", "n": n, "t": t}

    def V(n, t, vk, v, **s):
        return {"a": "value", "n": n, "t": t, "vk": vk, "v": v, "s": s}
    B = {"k": "bool"}
    union = {"k": "int", "lb": 1, "ub": 9, "ext": True,
             "c": {"parts": [["single", 1], ["range", 1, True, 10, True]], "ext": True, "or": "UNION", "xadd": [["single", 20]]}}
    yield M(V("k-1", I, "int", -5, gap=1), T("A-b", rng("int", -5, 7)), T("B", rng("octs", 1, 4, True, outer=True)))
    yield M(T("C", union), T("D", rng("bits", 0, None)), V("o", {"k": "octs", "lb": None, "ub": None, "ext": False}, "octs", "0aff", form="H", gap=1))
    yield M(T("E", {"k": "enum", "items": [["a", 5], ["b-c", None]], "ext": True, "xitems": [["d", 9]], "exc": True}), V("e", {"k": "ref", "n": "E"}, "enum", "d"))
    yield M(T("S", S("seq", [C("a", B, "D", d=True, dk="bool", ds={}), C("b", {"k": "octs", "lb": None, "ub": None, "ext": False}, "O"), C("z", I)], True,
                     [C("c", rng("bits", 2, 2), "D", d="01", dk="bits", ds={"form": "B", "gap": 1})], [[C("d", I), C("e", B, "O")]],
                     gv=[2], second=1)))
    yield M(T("F", S("choice", [C("a", B), C("b", {"k": "seqof", "lb": 1, "ub": 3, "ext": True, "elem": I,
                                                   "c": {"parts": [["range", 1, False, 3, False]], "ext": True, "or": "|"}})], True,
                     [C("c", {"k": "ref", "n": "L"})], [[C("d", I)]], end=True)),
            T("L", {"k": "seqof", "lb": None, "ub": None, "ext": False, "elem": S("seq", [])}))


def gaps(tier):
    for mod in modules():
        n = len(schema.module_tokens(mod))
        for s in SEPARATORS + [""]:
            for i in range(n + 1):
                yield {"mod": mod, "gap": i, "sep": s}


@st.composite
def layouts(draw, **k):
    return {"mod": draw(schema.module(**k)), "dice": draw(st.lists(st.integers(0, 839), min_size=1, max_size=60))}


def check_comments(case, ctx):
    """Comments with arbitrary text, at one gap or more of a module that uses all supported notation."""
    toks = schema.module_tokens(case["mod"])
    out = []
    for i, t in enumerate(toks + [""]):
        sep = " " if i else ""
        for gap, text, form in case["comments"]:
            if gap % (len(toks) + 1) == i:
                text = "".join(" " if c in "\n\r\x0b\x0c" else c for c in text)
                while "--" in text:
                    text = text.replace("--", "- -")
                if text.endswith("-"):
                    text += "."
                if form > 5:
                    sep += "--" + text + "-" * (form - 4) + " " * (form % 2) + "\n"
                    continue
                sep += "--" + text + ("--" if form == 0 else ["\n", "\r\n", "\r", "\x0c", "\x0b"][form - 1]) + " "
        out.append(sep + t)
    text = "".join(out)
    compare(case["mod"], text, ctx, ["any-comment"] + ["closed" if c[2] == 0 else "to-line-end" for c in case["comments"]] +
            ["non-ascii" for c in case["comments"] if not c[1].isascii()])


CHARS = st.one_of(st.sampled_from(list("-- ;:={}()[]<>|!.,'\"/*\\%#@\t\x00\x1c\x1d\x1e\x1f\x85\xa0\u2028\u2029\ufeffaAB09")), st.characters())


def comments():
    one = st.tuples(st.integers(0, 200), st.text(CHARS, max_size=30), st.integers(0, 9)).map(list)
    return st.fixed_dictionaries({"mod": st.sampled_from(list(modules())), "comments": st.lists(one, min_size=1, max_size=4)})


def units(tier):
    return [
        Unit("comments", check_comments, strategy=comments(), quick=800, thorough=40000),
        Unit("gaps", check_gap, cases=gaps),
        Unit("layouts", check, strategy=layouts(max_types=3), quick=500, thorough=24000),
    ]
