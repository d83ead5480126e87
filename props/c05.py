"""C05 constraints are enforced: no octets are produced for, and no value is
returned that violates, a non-extensible constraint."""
from hypothesis import strategies as st
from lib import cases, gen, build, refper, paths
from lib.common import encode, decode, built, hexs, short, Violation, Discard
from lib.runner import Unit, ref

RULE = ("Sending side: a generated type with a valid value in which one scalar or list is replaced by one that violates its "
        "non-extensible constraint (number outside the range, size outside the size constraint, unknown enumeration name or number, unknown "
        "alternative or component name). Receiving side: octets from the reference encoder for a widened type with the same field widths, so "
        "that they carry an out-of-range number, size, enumeration or alternative index. Non-trivial: the value really "
        "violates the type (checked with the reference model), and the unviolated message is accepted; distinct = distinct JSON of the case.")
ASSUMPTIONS = ["rejected = an exception on construction, assignment or at the latest on encode"]


def check_send(case, ctx):
    T, v, path, bad, how = case["T"], case["v"], case["path"], case["bad"], case.get("how", "class")
    if ref(refper.valid, T, paths.replace_value(T, v, path, bad)):
        raise Discard()
    B = built(T)
    ctx.note(["send", "send:" + how] + ["at:" + k for k in kinds(T, path)])
    o = None
    try:
        o = build.inst(B, paths.replace_value(T, v, path, bad)) if how == "class" else \
            plain(B, paths.replace_value(T, v, path, bad))
        e = encode(o)
    except Exception:
        return
    raise Violation("value %s at %s violates the constraint but was encoded as %s" % (short(bad), path, hexs(e)))


def plain(B, v):
    """Like build.inst, but scalar components and elements are assigned as plain Python values."""
    k = B.T["k"]
    if k == "seq":
        o = B.cls()
        for n, x in v.items():
            o[n] = leaf(B.kids[n], x)
        return o
    if k == "choice":
        o = B.cls()
        o[v[0]] = leaf(B.kids[v[0]], v[1])
        return o
    if k == "seqof":
        o = B.cls()
        o.extend([leaf(B.kids["elem"], x) for x in v])
        return o
    return build.inst(B, v)


def leaf(B, v):
    k = B.T["k"]
    if k in ("bool", "int", "enum"):
        return v
    if k == "octs":
        return bytes.fromhex(v)
    if k == "bits":
        return tuple(int(b) for b in v)
    return plain(B, v)


def kinds(T, path):
    out = []
    for kind, key in path:
        out.append(T["k"])
        if T["k"] == "seqof":
            T = T["elem"]
        else:
            if key in [c["n"] for c in T["adds"]]:
                out.append("addition")
            if key in [c["n"] for g in T["groups"] for c in g]:
                out.append("group")
            T = paths.comp_of(T, key)["t"]
    out.append("leaf-" + T["k"])
    return set(out)


def bad_values(T, v):
    """Values violating T's own constraint."""
    k = T["k"]
    lb, ub = T.get("lb"), T.get("ub")
    if k == "int" and not T["ext"]:
        out = []
        if lb is not None:
            out += [lb - 1, lb - 2, lb - 128, lb - 65536]
        if ub is not None:
            out += [ub + 1, ub + 2, ub + 256, ub + 65536, 2 * abs(ub) + 3]
        return T.get("hole", []) + out
    if k in ("bits", "octs", "seqof") and not T["ext"]:
        out = []
        ns = []
        if lb:
            ns += [lb - 1, 0, lb // 2]
        if ub is not None and ub < 400:
            ns += [ub + 1, ub + 2, ub + 8, ub + 64, ub + 256]
        hole = T.get("hole", [])
        for n in hole + sorted(set(ns) - set(hole)):
            if n < 0 or n > (400 if k == "seqof" else 70000) or refper.in_range(n, lb, ub) and n not in hole:
                continue
            if k == "bits":
                out.append(("10" * n)[:n])
            elif k == "octs":
                out.append("a5" * n)
            elif v:
                out.append([v[i % len(v)] for i in range(n)])
        return out
    if k == "enum":
        nums = sum(refper.enum_numbers(T), [])
        return ["nosuchname", max(nums) + 1, min(nums) - 1] + [x for x in range(min(nums), max(nums)) if x not in nums][:1]
    return []


@st.composite
def send_cases(draw, types):
    T = draw(types)
    v = draw(gen.value(T))
    cand = []
    for path, t, x in paths.walk(T, v):
        for b in bad_values(t, x):
            cand.append((path, b))
    if not cand:
        return {"T": T, "v": v, "path": [], "bad": v}
    path, bad = draw(st.sampled_from(cand))
    return {"T": T, "v": v, "path": path, "bad": bad, "how": draw(st.sampled_from(["class", "plain"]))}


def send_grid(tier):
    """Every scalar/list type of the grids with each violating value, as the
    message itself and as a component at the end of a SEQUENCE."""
    seen = set()
    for T, v in list_types(tier):
        for b in bad_values(T, v):
            yield {"T": T, "v": v, "path": [], "bad": b}
            W = cases.SEQ([cases.C("a", cases.BOOL), cases.C("x", T, "O")])
            yield {"T": W, "v": {"a": True, "x": v}, "path": [["c", "x"]], "bad": b, "how": "plain" if len(seen) % 2 else "class"}
            seen.add(len(seen))


def list_types(tier):
    last = None
    for g in (cases.ints(tier), cases.enums(tier), cases.strings("bits", tier), cases.strings("octs", tier), cases.seqofs(tier)):
        for i, (T, v) in enumerate(g):
            if T is last or T == last or T.get("ext") and T["k"] != "enum":
                continue
            if T["k"] == "int" and tier == "quick" and i % 3:
                continue
            last = T
            yield T, v


# ------------------------------------------------------------- receiving ----
def widen(T, v):
    """Types with the same field widths that can carry values T forbids, with such values."""
    k = T["k"]
    out = []
    if k == "int" and not T["ext"]:
        lb, ub = T["lb"], T["ub"]
        if lb is None and ub is not None:
            out += [(dict(T, ub=None), ub + d) for d in (1, 2, 300)]
        if lb is not None and ub is not None and ub > lb:
            n = ub - lb + 1
            if n <= 255:
                top = (1 << (n - 1).bit_length()) - 1
            elif n <= 65536:
                top = 255 if n <= 256 else 65535
            else:
                top = (1 << 8 * refper.octets_for(ub - lb)) - 1
            if top > n - 1:
                W = dict(T, ub=lb + top)
                out += [(W, lb + d) for d in sorted({n, n + 1, top, (n + top) // 2}) if n <= d <= top]
    if k == "enum":
        n = len(T["root"])
        top = same_width(n)
        if top > n:
            W = {"k": "enum", "root": ["w%d" % i for i in range(top)], "ext": T["ext"], "adds": T["adds"]}
            out += [(W, "w%d" % i) for i in sorted({n, top - 1})]
    if k in ("bits", "octs", "seqof") and not T["ext"]:
        lb, ub = refper.size_root(T)
        mk = (lambda n: ("01" * n)[:n]) if k == "bits" else (lambda n: "5a" * n) if k == "octs" else \
            (lambda n: [v[i % len(v)] for i in range(n)])
        if k == "seqof" and not v:
            return out
        if (ub is None or ub >= 65536) and lb:
            W = dict(T, lb=0, ub=None)
            out += [(W, mk(n)) for n in sorted({lb - 1, 0}) if n < 300]
        elif ub is not None and ub != lb and ub < 65536:
            n = ub - lb + 1
            top = same_width(n)
            if top > n and lb + top < 65536:
                W = dict(T, lb=lb, ub=lb + top - 1)
                out += [(W, mk(m)) for m in sorted({ub + 1, lb + top - 1}) if m < 600]
    return out


def same_width(n):
    """Largest range size with the same constrained-whole-number field as n (n<=64K)."""
    if n == 1:
        return 1
    if n <= 255:
        return min(255, 1 << (n - 1).bit_length())
    return 256 if n == 256 else 65536


def check_recv(case, ctx):
    T, W, wv, v, path = case["T"], case["W"], case["wv"], case["v"], case["path"]
    try:
        good = refper.encode(T, v)
        data = refper.encode(W, wv)
    except refper.Unsupported:
        raise Discard()
    try:
        ref_ok = refper.decode(T, data)
    except refper.Unsupported:
        raise Discard()
    except refper.RefDecodeError:
        ref_ok = None
    if ref_ok is not None:
        raise Discard()
    B = built(T)
    ctx.note(["receive"] + ["at:" + k for k in kinds(T, path)])
    decode(good, B.cls())            # the conforming message is accepted
    try:
        d = decode(data, B.cls())
    except Exception:
        return
    raise Violation("octets %s carry a value the type forbids, decode returned %s" % (hexs(data), short(str(d))))


@st.composite
def recv_cases(draw, types):
    T = draw(types)
    v = draw(gen.value(T))
    cand = []
    for path, t, x in paths.walk(T, v):
        for W, wv in widen(t, x):
            if any(s[0] == "i" for s in path):
                # a list element's type is widened for the whole list: keep only integers and strings, whose other values stay valid
                if t["k"] not in ("int", "bits", "octs"):
                    continue
            cand.append((path, W, wv))
    if not cand:
        return {"T": T, "W": T, "v": v, "wv": v, "path": []}
    path, W, wv = draw(st.sampled_from(cand))
    return {"T": T, "W": paths.replace_type(T, path, W), "v": v, "wv": paths.replace_value(T, v, path, wv), "path": path}


def recv_grid(tier):
    for i, (T, v) in enumerate(list_types(tier)):
        for W, wv in widen(T, v):
            yield {"T": T, "W": W, "v": v, "wv": wv, "path": []}
            A = cases.SEQ([cases.C("a", cases.BOOL), cases.C("x", T), cases.C("z", cases.I3)])
            AW = cases.SEQ([cases.C("a", cases.BOOL), cases.C("x", W), cases.C("z", cases.I3)])
            yield {"T": A, "W": AW, "v": {"a": True, "x": v, "z": 1}, "wv": {"a": True, "x": wv, "z": 1}, "path": [["c", "x"]]}
    for n in list(range(1, 20)) + [31, 33, 63, 65, 100, 127, 129, 200, 255, 257]:
        for ext in (False, True):
            T = cases.CHOICE([cases.C("r%d" % i, cases.BOOL) for i in range(n)], ext)
            top = same_width(n)
            W = cases.CHOICE([cases.C("r%d" % i, cases.BOOL) for i in range(min(top, 1000))], ext)
            for j in sorted({n, min(top, 1000) - 1}):
                if n <= j < top:
                    yield {"T": T, "W": W, "v": ["r0", True], "wv": ["r%d" % j, True], "path": []}


    # enumerations and alternatives of a later version of the type: an index the type does not have, around the
    # places where the encoding of the index changes its form
    tops = (0, 1, 2, 3, 7, 8, 30, 62, 63, 64, 65, 66, 126, 127, 128, 129, 130, 200, 255, 256, 257)
    enum = lambda n: {"k": "enum", "root": ["r0", "r1"], "ext": True, "adds": ["w%d" % i for i in range(n)]}
    choice = lambda n, t=cases.BOOL: cases.CHOICE([cases.C("r0", cases.BOOL)], True, [cases.C("w%d" % i, t) for i in range(n)])
    for n in tops:
        for j in sorted({m for m in tops if m >= n} | {n, n + 1, n + 62, n + 63, n + 64, n + 65, n + 128, n + 256}):
            pairs = [(enum(n), enum(j + 1), "r0", "w%d" % j)]
            if j < 70 or tier != "quick":
                pairs.append((choice(n), choice(j + 1), ["r0", True], ["w%d" % j, True]))
            for T, W, v, wv in pairs:
                yield {"T": T, "W": W, "v": v, "wv": wv, "path": []}
                A = cases.SEQ([cases.C("x", T), cases.C("z", cases.I3)])
                AW = cases.SEQ([cases.C("x", W), cases.C("z", cases.I3)])
                yield {"T": A, "W": AW, "v": {"x": v, "z": 1}, "wv": {"x": wv, "z": 1}, "path": [["c", "x"]]}


def names_cases(tier):
    C, SEQ, CHOICE = cases.C, cases.SEQ, cases.CHOICE
    for T in (SEQ([C("a", cases.BOOL)]), SEQ([C("a", cases.BOOL)], True, [C("b", cases.I3, "O")]), SEQ([]),
              CHOICE([C("a", cases.BOOL)]), CHOICE([C("a", cases.BOOL), C("b", cases.I3)], True, [C("c", cases.BOOL)])):
        for n in ("x", "aa", "A", "", "b-", "root", "componentType"):
            yield {"T": T, "n": n}


def check_names(case, ctx):
    B = built(case["T"])
    ctx.note(["unknown-name"])
    o = B.cls()
    try:
        o[case["n"]] = True
    except Exception:
        return
    raise Violation("component %r does not exist in the type but could be assigned" % case["n"])


def units(tier):
    return [
        Unit("names", check_names, cases=names_cases),
        Unit("receive-grid", check_recv, cases=recv_grid),
        Unit("send-grid", check_send, cases=send_grid),
        Unit("send", check_send, strategy=send_cases(gen.structured_type(2)), quick=2400, thorough=60000),
        Unit("receive", check_recv, strategy=recv_cases(gen.structured_type(2)), quick=2400, thorough=60000),
    ]
