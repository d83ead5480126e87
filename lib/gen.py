"""Hypothesis strategies for type descriptions and values (see refper.py)."""
from . import env  # noqa: F401
from hypothesis import strategies as st
from . import refper

RANGE_SIZES = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129,
               200, 254, 255, 256, 257, 258, 300, 511, 512, 1000, 32768, 65534, 65535, 65536,
               65537, 65538, 100000, 2 ** 20, 2 ** 24 - 1, 2 ** 24, 2 ** 24 + 1, 2 ** 24 + 2, 2 ** 31,
               2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 40, 2 ** 48, 2 ** 56 + 3, 2 ** 63, 2 ** 64, 2 ** 64 + 1,
               2 ** 72, 2 ** 72 + 1, 2 ** 80, 2 ** 100, 2 ** 120 + 5, 2 ** 127, 2 ** 128, 2 ** 128 + 1, 2 ** 256, 2 ** 1000, 2 ** 2032, 2 ** 2040, 2 ** 2048, 2 ** 3000]
LBS = [0, 1, -1, 2, 3, 5, 10, -10, 100, 127, 128, -127, -128, -129, 255, 256, -255, -256, 1000, -1000,
       32767, 32768, -32768, -32769, 65535, 65536, -65535, -65536, 2 ** 24, 2 ** 31 - 1, -2 ** 31, 2 ** 32,
       -2 ** 32, 2 ** 63, -2 ** 63, 10 ** 12, -10 ** 12]
SIZES = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 18, 20, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130,
         254, 255, 256, 257, 258, 300]
BIG_UBS = [1000, 16383, 16384, 20000, 65534, 65535, 65536, 65537, 70000, 2 ** 20, 2 ** 32]
NUMS = [0, 1, -1, 2, -2, 63, 64, 65, 126, 127, 128, 129, 255, 256, 257, -127, -128, -129, -255, -256, -257,
        32767, 32768, 32769, -32767, -32768, -32769, 65535, 65536, 65537, -65535, -65536, -65537,
        2 ** 23 - 1, 2 ** 23, -2 ** 23, -2 ** 23 - 1, 2 ** 24 - 1, 2 ** 24, 2 ** 31 - 1, 2 ** 31, -2 ** 31,
        -2 ** 31 - 1, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, -2 ** 63, -2 ** 63 - 1, 2 ** 64 - 1, 2 ** 64,
        2 ** 127, -2 ** 127, 10 ** 30, -10 ** 30]


def int_candidates(lb, ub, ext):
    """Interesting values allowed by INTEGER(lb..ub[,...])."""
    c = set()
    base_lo = lb if lb is not None else 0
    for n in NUMS:
        c.add(n)
        c.add(base_lo + abs(n))
        if ub is not None:
            c.add(ub - abs(n))
    if ext:
        if lb is not None:
            c.update([lb - 1, lb - 2, lb - 129, lb - 32769])
        if ub is not None:
            c.update([ub + 1, ub + 2, ub + 129, ub + 65537])
    else:
        c = {x for x in c if refper.in_range(x, lb, ub)}
    return sorted(c, key=lambda x: (abs(x), x))


def int_value(T):
    lb, ub = T["lb"], T["ub"]
    cand = st.sampled_from(int_candidates(lb, ub, T["ext"]))
    if T["ext"]:
        rnd = st.integers(-2 ** 40, 2 ** 40)
    else:
        rnd = st.integers(lb, ub)
    return st.one_of(cand, rnd)


@st.composite
def int_type(draw, ext=None):
    if ext is None:
        ext = draw(st.booleans())
    form = draw(st.sampled_from(["range", "range", "range", "range", "none", "semi", "max"]))
    if form == "none":
        return {"k": "int", "lb": None, "ub": None, "ext": False}
    lb = draw(st.one_of(st.sampled_from(LBS), st.integers(-2 ** 33, 2 ** 33)))
    if form == "semi":
        return {"k": "int", "lb": lb, "ub": None, "ext": ext}
    if form == "max":
        return {"k": "int", "lb": None, "ub": lb, "ext": ext}
    size = draw(st.one_of(st.sampled_from(RANGE_SIZES), st.integers(1, 70000), st.integers(1, 300)))
    return {"k": "int", "lb": lb, "ub": lb + size - 1, "ext": ext}


@st.composite
def size_constraint(draw, big=True, small_only=False):
    form = draw(st.sampled_from(["none", "fixed", "fixed", "var", "var", "var", "semi", "bigub"]))
    sizes = SIZES if not small_only else SIZES[:10]
    if form == "bigub" and not big:
        form = "var"
    if form == "none":
        return None, None, False
    ext = draw(st.booleans())
    lb = draw(st.one_of(st.sampled_from(sizes), st.integers(0, 20 if not small_only else 6)))
    if form == "fixed":
        return lb, lb, ext
    if form == "semi":
        return lb, None, ext
    if form == "bigub":
        return lb, draw(st.sampled_from(BIG_UBS)), ext
    d = draw(st.one_of(st.sampled_from([0, 1, 2, 3, 7, 8, 15, 16, 63, 64, 127, 253, 254, 255, 256, 257]),
                       st.integers(0, 20))) if not small_only else draw(st.integers(0, 6))
    return lb, lb + d, ext


def size_candidates(lb, ub, ext, limit):
    lo = lb or 0
    c = set()
    for n in [0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 20]:
        c.add(lo + n)
    if ub is not None:
        c.update([ub, ub - 1, (lo + ub) // 2])
    c.update([126, 127, 128, 129, 255, 256, 257, 1000, 16382, 16383])
    if ext:
        c.update([0, 1, lo - 1, lo - 2, lo // 2, 2, 5])
        if ub is not None:
            c.update([ub + 1, ub + 2, ub + 9])
    out = []
    for x in c:
        if x < 0 or x > limit:
            continue
        if not ext and not refper.in_range(x, lb, ub):
            continue
        out.append(x)
    if not out:
        out = [lo]
    return sorted(out)


def str_len(T, limit):
    lb, ub, ext = T["lb"], T["ub"], T["ext"]
    return st.sampled_from(size_candidates(lb, ub, ext, limit))


@st.composite
def bits_value(draw, T, limit=400):
    n = draw(str_len(T, limit))
    pat = draw(st.text("01", min_size=1, max_size=24))
    return (pat * (n // len(pat) + 1))[:n]


@st.composite
def octs_value(draw, T, limit=300):
    n = draw(str_len(T, limit))
    pat = draw(st.binary(min_size=1, max_size=6))
    return (pat * (n // len(pat) + 1))[:n].hex()


@st.composite
def str_type(draw, kind):
    lb, ub, ext = draw(size_constraint())
    return {"k": kind, "lb": lb, "ub": ub, "ext": ext}


@st.composite
def enum_type(draw):
    n = draw(st.one_of(st.integers(1, 9), st.sampled_from([1, 2, 3, 4, 5, 16, 17, 32, 33, 64, 65, 128, 129, 255, 256, 257])))
    ext = draw(st.booleans())
    m = draw(st.one_of(st.integers(0, 4), st.sampled_from([0, 1, 2, 62, 63, 64, 65, 66, 130]))) if ext else 0
    T = {"k": "enum", "root": ["e%d" % i for i in range(n)], "ext": ext, "adds": ["x%d" % i for i in range(m)]}
    if draw(st.integers(0, 2)) == 0:
        number(T, draw(st.integers(0, 10 ** 6)))
    return T


def number(T, salt):
    """Give an ENUMERATED explicit numbers: root in any order, additions
    ascending (X.680), all distinct."""
    n, m = len(T["root"]), len(T["adds"])
    step = 1 + salt % 3
    base = [0, 0, 5, -7, 300, 70000][salt // 3 % 6]
    rn = [base + step * i for i in range(n)]
    rot = salt % n
    rn = rn[rot:] + rn[:rot]
    if salt // 7 % 2:
        rn.reverse()
    T["rn"] = rn
    if m:
        # additions may fall between and below the root numbers
        pool = [x for x in range(base - 3, base + step * n + m + 3) if x not in set(rn)]
        T["an"] = pool[salt % 2:][:m]
    return T


def enum_value(T):
    names = T["root"] + T["adds"]
    edge = [T["root"][0], T["root"][-1]]
    if T["adds"]:
        edge += [T["adds"][0], T["adds"][-1], T["adds"][min(63, len(T["adds"]) - 1)], T["adds"][min(64, len(T["adds"]) - 1)]]
    return st.one_of(st.sampled_from(edge), st.sampled_from(names))


def scalar_type():
    return st.one_of(st.just({"k": "bool"}), int_type(), enum_type(), str_type("bits"), str_type("octs"))


def small_scalar_type():
    return st.one_of(st.just({"k": "bool"}), int_type(), int_type(), enum_type(), str_type("octs"), str_type("bits"))


@st.composite
def comp(draw, name, depth, modes=("M", "M", "O", "D")):
    t = draw(any_type(depth))
    m = draw(st.sampled_from(modes))
    c = {"n": name, "t": t, "m": m}
    if m == "D":
        if t["k"] in ("seq", "seqof", "choice"):
            c["m"] = "O"
        else:
            c["d"] = draw(value(t, small=True))
    return c


@st.composite
def seq_type(draw, depth):
    n = draw(st.integers(1, 4))
    root = [draw(comp("r%d" % i, depth - 1)) for i in range(n)]
    ext = draw(st.booleans())
    adds, groups = [], []
    if ext:
        na = draw(st.sampled_from([0, 0, 1, 1, 2, 3]))
        adds = [draw(comp("a%d" % i, depth - 1)) for i in range(na)]
        ng = draw(st.sampled_from([0, 0, 0, 1, 2, 3]))
        for g in range(ng):
            k = draw(st.integers(1, 3))
            groups.append([draw(comp("g%dc%d" % (g, i), depth - 1)) for i in range(k)])
    return {"k": "seq", "root": root, "ext": ext, "adds": adds, "groups": groups}


@st.composite
def choice_type(draw, depth):
    n = draw(st.one_of(st.integers(1, 4), st.sampled_from([1, 2, 3, 5, 8, 9])))
    root = [draw(comp("r%d" % i, depth - 1, modes=("M",))) for i in range(n)]
    ext = draw(st.booleans())
    adds, groups = [], []
    if ext:
        na = draw(st.sampled_from([0, 1, 2, 3]))
        adds = [draw(comp("a%d" % i, depth - 1, modes=("M",))) for i in range(na)]
        ng = draw(st.sampled_from([0, 0, 1, 2]))
        for g in range(ng):
            k = draw(st.integers(1, 2))
            groups.append([draw(comp("g%dc%d" % (g, i), depth - 1, modes=("M",))) for i in range(k)])
    return {"k": "choice", "root": root, "ext": ext, "adds": adds, "groups": groups}


@st.composite
def seqof_type(draw, depth):
    elem = draw(any_type(depth - 1))
    lb, ub, ext = draw(size_constraint(small_only=draw(st.booleans())))
    return {"k": "seqof", "lb": lb, "ub": ub, "ext": ext, "elem": elem}


def any_type(depth):
    if depth <= 0:
        return small_scalar_type()
    return st.one_of(small_scalar_type(), seq_type(depth), choice_type(depth), seqof_type(depth))


def structured_type(depth):
    return st.one_of(seq_type(depth), seq_type(depth), choice_type(depth), seqof_type(depth))


@st.composite
def seqof_value(draw, T, limit):
    n = draw(st.sampled_from(size_candidates(T["lb"], T["ub"], T["ext"], limit)))
    if n == 0:
        return []
    k = min(n, draw(st.integers(1, 3)))
    vals = [draw(value(T["elem"], small=True)) for _ in range(k)]
    return [vals[i % k] for i in range(n)]


def force_nonempty(draw, T):
    """A SEQUENCE value with at least one component spelled out."""
    v = draw(seq_value(T))
    if not v:
        pick = T["root"] and [draw(st.sampled_from(T["root"]))] or T["adds"][:1]
        if not pick and T["groups"]:
            g = T["groups"][0]
            pick = [c for c in g if c["m"] == "M"] or g[:1]
        for c in pick:
            v[c["n"]] = draw(comp_value(c))
    return v


@st.composite
def comp_value(draw, c):
    if c["t"]["k"] == "seq":
        return force_nonempty(draw, c["t"])
    return draw(value(c["t"], small=True))


@st.composite
def seq_value(draw, T):
    v = {}

    def take(c):
        if c["m"] == "M":
            return True
        return draw(st.booleans())

    def put(c):
        if c["m"] == "D" and draw(st.integers(0, 3)) == 0:
            v[c["n"]] = c["d"]
        else:
            v[c["n"]] = draw(comp_value(c))

    for c in T["root"]:
        if take(c):
            if c["m"] == "M" and c["t"]["k"] == "seq":
                v[c["n"]] = draw(value(c["t"], small=True))
            else:
                put(c)
    total = len(T["adds"]) + len(T["groups"])
    if total:
        p = draw(st.integers(0, total))
        for c in T["adds"][:p]:
            if take(c):
                put(c)
        for g in T["groups"][:max(0, p - len(T["adds"]))]:
            for c in g:
                if take(c):
                    put(c)
    return v


@st.composite
def choice_value(draw, T):
    c = draw(st.sampled_from(T["root"] + refper.choice_ext(T)))
    if c["t"]["k"] == "seq":
        return [c["n"], force_nonempty(draw, c["t"])]
    return [c["n"], draw(value(c["t"], small=True))]


def value(T, small=False):
    k = T["k"]
    if k == "bool":
        return st.booleans()
    if k == "int":
        return int_value(T)
    if k == "enum":
        return enum_value(T)
    if k == "bits":
        return bits_value(T, 300 if small else 20000)
    if k == "octs":
        return octs_value(T, 300 if small else 20000)
    if k == "seqof":
        return seqof_value(T, 6 if small else 300)
    if k == "seq":
        return seq_value(T)
    if k == "choice":
        return choice_value(T)
    raise AssertionError(k)


@st.composite
def typed_value(draw, types):
    T = draw(types)
    v = draw(value(T))
    return {"T": T, "v": v}


# ------------------------------------------------------------- statistics ----
def features(T, v, out=None, depth=0):
    """Set of labels describing what a case exercises."""
    if out is None:
        out = set()
    k = T["k"]
    out.add(k)
    if T.get("ext"):
        out.add(k + ":ext")
    if k == "int":
        if T["lb"] is None and T["ub"] is None:
            out.add("int:unconstrained")
        elif T["ub"] is None:
            out.add("int:semi")
        elif T["lb"] is None:
            out.add("int:max-only")
        else:
            r = T["ub"] - T["lb"] + 1
            out.add("int:range" + ("1" if r == 1 else "<=255" if r <= 255 else "256" if r == 256 else "<=64K" if r <= 65536 else ">64K"))
        if not refper.in_range(v, T["lb"], T["ub"]):
            out.add("int:extension-value")
    elif k == "enum":
        if v in T["adds"]:
            out.add("enum:addition>63" if T["adds"].index(v) > 63 else "enum:addition")
    elif k in ("bits", "octs"):
        n = len(v) if k == "bits" else len(v) // 2
        out.add("%s:%s" % (k, "unconstrained" if T["lb"] is None and T["ub"] is None else
                           "fixed" if T["lb"] == T["ub"] else "semi" if T["ub"] is None else "var"))
        if n == 0:
            out.add(k + ":empty")
        if n > 127:
            out.add(k + ":long")
        if not refper.in_range(n, T["lb"], T["ub"]):
            out.add(k + ":extension-size")
    elif k == "seqof":
        out.add("seqof:n=0" if not v else "seqof:n>127" if len(v) > 127 else "seqof:n>0")
        if not refper.in_range(len(v), T["lb"], T["ub"]):
            out.add("seqof:extension-size")
        for x in v[:3]:
            features(T["elem"], x, out, depth + 1)
    elif k == "seq":
        for c in T["root"]:
            if c["m"] == "O":
                out.add("seq:optional-present" if c["n"] in v else "seq:optional-absent")
            if c["m"] == "D":
                out.add("seq:default-absent" if c["n"] not in v else
                        "seq:default-equal" if v[c["n"]] == c["d"] else "seq:default-other")
        for c in T["adds"]:
            if c["n"] in v:
                out.add("seq:addition-present")
        for g in T["groups"]:
            if any(c["n"] in v for c in g):
                out.add("seq:group-present")
        for c in refper.all_comps(T):
            if c["n"] in v:
                features(c["t"], v[c["n"]], out, depth + 1)
    elif k == "choice":
        names = [c["n"] for c in T["root"]]
        if v[0] not in names:
            out.add("choice:addition")
        for c in T["root"] + refper.choice_ext(T):
            if c["n"] == v[0]:
                features(c["t"], v[1], out, depth + 1)
    if depth >= 2:
        out.add("depth>=2")
    return out
