"""C13 the order of the assignments of a module does not matter."""
import itertools
from hypothesis import strategies as st
from lib import build, refper, schema
from lib.common import encode, hexs, short
from lib.common_schema import Violation, built_types, class_of, compiled, module_features, same_octets, enc_ref
from lib.runner import Discard, Unit, ref
from props.c18 import check_values

RULE = ("A case is a module, a permutation of its assignments and valid values of its types: generated modules with chains of references (type "
        "renaming, components, elements, alternatives, constants as bounds, as DEFAULT and as values of other constants), and all "
        "permutations of small modules with a given shape of dependencies; chains of up to 130 assignments. Non-trivial: the permutation differs from the order "
        "of definition before use; distinct = distinct JSON of the case.")
ASSUMPTIONS = ["lib/refper.py is the X.691 oracle; the meaning of a module is computed from its assignments without regard to order"]


def check(case, ctx):
    mod = case["mod"]
    order = case["order"]
    perm = dict(mod, assigns=[mod["assigns"][i] for i in order])
    text = schema.plain_text(perm)
    code, ns = compiled(text)
    if case.get("shallow"):
        env = schema.types_of(perm)
        for n in env:
            class_of(ns, n, text)
        perm = dict(perm, assigns=[a for a in perm["assigns"] if a["n"] in ("T0", "T1", "T2", "T3", "T4", "T5")])
    blt = built_types(perm, ns, text)
    for name, B in blt.items():
        for v in case["vals"].get(name, []):
            same_octets(B, v, text, name)
    check_values(perm, ns, text)
    ctx.note(module_features(mod) | {"%d-assignments" % len(order)}, nontrivial=order != sorted(order))


@st.composite
def permuted(draw, **k):
    case = draw(schema.module_with_values(shuffle=False, **k))
    n = len(case["mod"]["assigns"])
    case["order"] = draw(st.one_of(st.permutations(range(n)), st.just(list(range(n))[::-1])))
    return case


@st.composite
def chain(draw):
    """Many small assignments, nearly each using earlier ones."""
    w = schema.World(draw)
    assigns = []
    n = draw(st.integers(5, 12))
    for i in range(n):
        ch = draw(st.integers(0, 9))
        if ch < 3:
            assigns.append(schema.value_assign(w, ("int", "int", "bool", "enum", "octs", "bits")))
            continue
        name = schema.unique(draw, schema.TYPE_STEMS, w.tnames, i)
        refs = [{"k": "ref", "n": x} for x, _ in w.types]
        if refs and ch < 5:
            t = draw(st.sampled_from(refs))
        elif refs and ch == 5:
            t = {"k": "seqof", "lb": None, "ub": None, "ext": False, "elem": draw(st.sampled_from(refs))}
        elif refs and ch < 9:
            t = schema.constructed(w, 0 if ch < 8 else 1)
        else:
            t = schema.scalar(w)
        w.types.append((name, t))
        w.env[name] = t
        assigns.append({"a": "type", "n": name, "t": t})
    if not w.types:
        assigns.append({"a": "type", "n": "A", "t": {"k": "bool"}})
    mod = {"name": "M", "assigns": assigns}
    env = schema.types_of(mod)
    vals = {}
    for name, t in env.items():
        T = schema.resolve(t, env)
        vals[name] = [schema.avoid(T, draw(schema.gen.value(T, small=True)))]
    return {"mod": mod, "vals": vals, "order": draw(st.permutations(range(len(assigns))))}


def shapes():
    I = {"k": "int", "lb": None, "ub": None, "ext": False}
    R = lambda n: {"k": "ref", "n": n}

    def T(n, t):
        return {"a": "type", "n": n, "t": t}

    def V(n, t, vk, v, **s):
        return {"a": "value", "n": n, "t": t, "vk": vk, "v": v, "s": s}

    def C(n, t, m="M", **k):
        return dict({"n": n, "t": t, "m": m}, **k)

    def S(k, *root, **h):
        return dict({"k": k, "root": list(root), "ext": False, "adds": [], "groups": []}, **h)

    def L(t, lo=None, hi=None, c=None):
        d = {"k": "seqof", "lb": lo, "ub": hi, "ext": False, "elem": t}
        if c:
            d["c"] = {"parts": [c], "ext": False, "or": "|"}
        return d
    E = {"k": "enum", "items": [["x", None], ["y", None]], "ext": False, "xitems": []}
    byref = {"k": "int", "lb": 1, "ub": 9, "ext": False, "c": {"parts": [["range", "k-lo", False, "k-hi", False]], "ext": False, "or": "|"}}
    yield [T("A", S("seq", C("b", R("B")))), T("B", S("seq", C("c", R("C")))), T("C", S("seq", C("d", R("D")))), T("D", S("seq", C("i", I)))], \
        {"A": [{"b": {"c": {"d": {"i": 5}}}}]}
    yield [T("A", R("B")), T("B", R("C")), T("C", R("D")), T("D", I)], {"A": [5], "B": [-1]}
    yield [T("A", R("B")), T("B", R("C")), T("C", S("seq", C("d", R("D")))), T("D", L(R("E"))), T("E", E)], {"A": [{"d": ["x", "y"]}], "E": ["y"]}
    yield [T("A", S("choice", C("b", R("B")), C("l", L(R("D"))))), T("B", L(R("C"))), T("C", S("choice", C("d", R("D")))), T("D", byref),
           V("k-lo", I, "int", 1), V("k-hi", I, "int", 9, ref="k2"), V("k2", I, "int", 9)][:7], {"A": [["l", [1, 9]], ["b", [["d", 5]]]]}
    yield [T("A", S("seq", C("e", R("E"), "D", d="y", dk="enum", ds={"ref": "k-e"}), C("n", I, "D", d=7, dk="int", ds={"ref": "k-n"}))),
           T("E", E), V("k-e", R("E"), "enum", "y", ref="k-f"), V("k-f", R("E"), "enum", "y"), V("k-n", R("N"), "int", 7), T("N", I)], \
        {"A": [{}, {"e": "x", "n": 1}]}
    yield [T("A", S("seq", C("in-ner", S("seq", C("l", L(S("choice", C("b", R("B"), "M"), C("c", R("C")))))), "O"))), T("B", R("C")),
           T("C", S("seq", C("x", I, "O"), ext=True, adds=[C("y", R("D"))], groups=[[C("z", R("E"), "O")]])), T("D", R("E")), T("E", L(I))], \
        {"A": [{"in-ner": {"l": [["b", {}], ["c", {"x": 1, "y": [1], "z": [2, 3]}]]}}]}
    yield [T("Z-a", L(R("B-c"), 0, 2, ["range", 0, False, "k-m", False])), T("B-c", R("A-d")), V("k-m", R("N-n"), "int", 2), T("N-n", I),
           T("A-d", S("seq", C("a", R("N-n"))))], {"Z-a": [[], [{"a": 3}, {"a": 4}]]}


def all_orders(tier):
    for k, (assigns, vals) in enumerate(shapes()):
        n = len(assigns)
        perms = list(itertools.permutations(range(n)))
        step = 1 if tier == "thorough" or n <= 5 else 5 if n == 6 else 37
        for p in perms[k % step::step]:
            yield {"mod": {"name": "M", "assigns": assigns}, "vals": vals, "order": list(p)}


def uses(tier):
    """Every way one assignment can use another, with every kind of assignment used, in all orders of the few assignments."""
    I = {"k": "int", "lb": None, "ub": None, "ext": False}
    B = {"k": "bool"}
    R = lambda n: {"k": "ref", "n": n}
    C = lambda n, t, m="M", **k: dict({"n": n, "t": t, "m": m}, **k)
    V = lambda n, t, vk, v, **s: {"a": "value", "n": n, "t": t, "vk": vk, "v": v, "s": s}
    T = lambda n, t: {"a": "type", "n": n, "t": t}

    def S(k, root, ext=False, adds=(), groups=(), **h):
        return dict({"k": k, "root": root, "ext": ext, "adds": list(adds), "groups": list(groups)}, **h)

    def places(t, v):
        """(TYPE, value) with t at each place."""
        yield t, v
        yield S("seq", [C("a", B), C("x", t)]), {"a": True, "x": v}
        yield S("seq", [C("x", t, "O"), C("a", B)]), {"a": True, "x": v}
        yield S("seq", [C("a", B)], True, [C("x", t, "O")]), {"a": True, "x": v}
        yield S("seq", [C("a", B)], True, [], [[C("y", B), C("x", t)]]), {"a": True, "y": False, "x": v}
        yield S("seq", [C("a", B), C("x", t)], True, [C("y", B)], second=1), {"a": True, "x": v, "y": True}
        yield S("choice", [C("a", B), C("x", t)]), ["x", v]
        yield S("choice", [C("a", B)], True, [C("x", t)]), ["x", v]
        yield S("choice", [C("a", B)], True, [], [[C("x", t), C("y", B)]]), ["x", v]
        yield {"k": "seqof", "lb": None, "ub": None, "ext": False, "elem": t}, [v]
        yield S("seq", [C("n", S("choice", [C("m", {"k": "seqof", "lb": None, "ub": None, "ext": False, "elem": S("seq", [C("x", t)])}), C("a", B)]))]), \
            {"n": ["m", [{"x": v}]]}

    def orders(assigns):
        ps = list(itertools.permutations(range(len(assigns))))
        return ps if tier == "thorough" or len(ps) <= 6 else ps[::-1][::7]
    consts = [[V("k", I, "int", 2)], [V("k", R("N"), "int", 2), T("N", I)], [V("k", I, "int", 2, ref="j"), V("j", I, "int", 2)],
              [V("k", R("N"), "int", 2), T("N", R("O")), T("O", I)], [V("k", R("N"), "int", 2, ref="j"), V("j", R("N"), "int", 2), T("N", I)]]
    bounds = [("low", 2, 9, ["range", "k", False, 9, False], 9), ("high", 0, 2, ["range", 0, False, "k", False], 2), ("single", 2, 2, ["single", "k"], 2)]
    for used in consts:
        for k in ("int", "octs", "bits", "seqof"):
            for what, lb, ub, part, n in bounds:
                for ext in (False, True):
                    t = {"k": k, "lb": lb, "ub": ub, "ext": ext, "c": {"parts": [part], "ext": ext, "or": "|"}}
                    v = n if k == "int" else "a5" * n if k == "octs" else "1" * n if k == "bits" else [True] * n
                    if k == "seqof":
                        t["elem"] = B
                    for i, (pt, pv) in enumerate(places(t, v)):
                        if tier == "quick" and i and (i + len(used) + lb + ub + ext) % 3:
                            continue
                        assigns = [T("A", pt)] + used
                        for o in orders(assigns):
                            yield {"mod": {"name": "M", "assigns": assigns}, "vals": {"A": [pv]}, "order": list(o)}
        for d, dt in ((I, "int"), (used[0]["t"], "int")):          # as DEFAULT
            for t, v in ((S("seq", [C("x", d, "D", d=2, dk="int", ds={"ref": "k"})]), {"x": 3}),
                         (S("seq", [C("a", B)], True, [C("x", d, "D", d=2, dk="int", ds={"ref": "k"})]), {"a": True, "x": 3}),
                         (S("seq", [C("a", B)], True, [], [[C("x", d, "D", d=2, dk="int", ds={"ref": "k"}), C("y", B, "O")]]), {"a": True, "x": 3})):
                assigns = [T("A", t)] + used
                for o in orders(assigns):
                    yield {"mod": {"name": "M", "assigns": assigns}, "vals": {"A": [v, {n: x for n, x in v.items() if n != "x"}]}, "order": list(o)}
    E = {"k": "enum", "items": [["x", None], ["y", 7]], "ext": True, "xitems": [["z", None]]}
    Q = {"k": "int", "lb": 1, "ub": 9, "ext": False, "c": {"parts": [["range", 1, False, 9, False]], "ext": False, "or": "|"}}
    types = [(Q, 5), (E, "z"), (B, True), (S("seq", [C("i", I)]), {"i": 5}), (S("choice", [C("i", I), C("b", B)]), ["b", True]),
             ({"k": "seqof", "lb": None, "ub": None, "ext": False, "elem": Q}, [1, 9])]
    for i, (t, v) in enumerate(types):
        for used in ([T("X", t)], [T("X", R("Y")), T("Y", t)], [T("X", R("Z")), T("Y", t), T("Z", R("Y"))]):
            for j, (pt, pv) in enumerate(places(R("X"), v)):
                if tier == "quick" and len(used) == 3 and (i + j) % 3:
                    continue
                assigns = [T("A", pt)] + used
                for o in orders(assigns):
                    yield {"mod": {"name": "M", "assigns": assigns}, "vals": {"A": [pv]}, "order": list(o)}


def long_modules(tier):
    """Many assignments that all depend on each other, in several orders."""
    import random
    I = {"k": "int", "lb": 0, "ub": 9, "ext": False, "c": {"parts": [["range", 0, False, 9, False]], "ext": False, "or": "|"}}
    C = lambda n, t, m="M", **k: dict({"n": n, "t": t, "m": m}, **k)
    kinds = {
        "rename": (lambda t, i: t, lambda v, i: v),
        "seq": (lambda t, i: {"k": "seq", "root": [C("b", {"k": "bool"}), C("c%d" % i, t, "O")], "ext": False, "adds": [], "groups": []},
                lambda v, i: {"b": i % 2 == 0, "c%d" % i: v}),
        "choice": (lambda t, i: {"k": "choice", "root": [C("b", {"k": "bool"}), C("c", t)], "ext": i % 2 == 0, "adds": [], "groups": []},
                   lambda v, i: ["c", v]),
        "list": (lambda t, i: {"k": "seqof", "lb": None, "ub": None, "ext": False, "elem": t}, lambda v, i: [v]),
        "addition": (lambda t, i: {"k": "seq", "root": [C("b", {"k": "bool"})], "ext": True, "adds": [C("c", t, "O")], "groups": []},
                     lambda v, i: {"b": True, "c": v}),
        "inline": (lambda t, i: {"k": "seq", "root": [C("in", {"k": "choice", "root": [C("b", {"k": "bool"}), C("l", {"k": "seqof", "lb": None, "ub": None, "ext": False, "elem": t})],
                                                               "ext": False, "adds": [], "groups": []})], "ext": False, "adds": [], "groups": []},
                   lambda v, i: {"in": ["l", [v]]}),
    }
    deep = {"rename": 130, "seq": 24, "choice": 24, "list": 20, "addition": 16, "inline": 12, "mixed": 30}
    for kind in sorted(deep):
        for n in (14, deep[kind]):
            assigns, v, vals = [{"a": "type", "n": "T0", "t": I}], 7, {}
            for i in range(1, n):
                wt, wv = kinds[kind if kind != "mixed" else sorted(kinds)[i % len(kinds)]]
                assigns.append({"a": "type", "n": "T%d" % i, "t": wt({"k": "ref", "n": "T%d" % (i - 1)}, i)})
                v = wv(v, i)
                if i in (5, n - 1):
                    vals["T%d" % i] = [v]
            rnd = random.Random(n)
            base = list(range(n))
            orders = [base[::-1], base[n // 2:] + base[:n // 2], base[1::2] + base[::2], (base[1::2] + base[::2])[::-1]]
            orders += [rnd.sample(base, n) for _ in range(2 if tier == "quick" else 10)]
            for o in orders:
                yield {"mod": {"name": "M", "assigns": assigns}, "vals": vals, "order": o}
    # more constructed types in one chain than any limit of a sort; values only of the types at its shallow end
    for kind in ("seq", "choice", "list", "addition", "inline", "mixed"):
        n = 130 if tier == "quick" else 300
        assigns, v, vals = [{"a": "type", "n": "T0", "t": I}], 7, {}
        for i in range(1, n):
            wt, wv = kinds[kind if kind != "mixed" else sorted(kinds)[i % len(kinds)]]
            assigns.append({"a": "type", "n": "T%d" % i, "t": wt({"k": "ref", "n": "T%d" % (i - 1)}, i)})
            v = wv(v, i)
            if i in (1, 5):
                vals["T%d" % i] = [v]
        rnd, base = random.Random(n), list(range(n))
        for o in [base[::-1], base[1::2] + base[::2]] + [rnd.sample(base, n) for _ in range(1 if tier == "quick" else 5)]:
            yield {"mod": {"name": "M", "assigns": assigns}, "vals": vals, "order": o, "shallow": True}
    J = {"k": "int", "lb": None, "ub": None, "ext": False}
    for n in (14, 60, 130):                  # constants defined by other constants
        assigns = [{"a": "value", "n": "k0", "t": J, "vk": "int", "v": 5, "s": {}}]
        assigns += [{"a": "value", "n": "k%d" % i, "t": J, "vk": "int", "v": 5, "s": {"ref": "k%d" % (i - 1)}} for i in range(1, n)]
        assigns.append({"a": "type", "n": "A", "t": {"k": "int", "lb": 5, "ub": 9, "ext": False,
                                                     "c": {"parts": [["range", "k%d" % (n - 1), False, 9, False]], "ext": False, "or": "|"}}})
        rnd, base = random.Random(n), list(range(n + 1))
        for o in [base[::-1], base[1::2] + base[::2]] + [rnd.sample(base, n + 1) for _ in range(2)]:
            yield {"mod": {"name": "M", "assigns": assigns}, "vals": {"A": [5, 9]}, "order": o}


def units(tier):
    return [
        Unit("all-orders", check, cases=all_orders),
        Unit("uses", check, cases=uses),
        Unit("long", check, cases=long_modules),
        Unit("chains", check, strategy=chain(), quick=400, thorough=16000),
        Unit("modules", check, strategy=permuted(per_type=2), quick=240, thorough=12000),
    ]
