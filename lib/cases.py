"""Deterministic boundary grids of (type, value) pairs (see refper.py for the
representation) and helpers to place them at every bit offset."""
from . import gen, refper

I3 = {"k": "int", "lb": 0, "ub": 7, "ext": False}
BOOL = {"k": "bool"}


def C(n, t, m="M", **k):
    return dict(n=n, t=t, m=m, **k)


def SEQ(root, ext=False, adds=(), groups=()):
    return {"k": "seq", "root": list(root), "ext": ext, "adds": list(adds), "groups": [list(g) for g in groups]}


def CHOICE(root, ext=False, adds=(), groups=()):
    return {"k": "choice", "root": list(root), "ext": ext, "adds": list(adds), "groups": [list(g) for g in groups]}


def INT(lb, ub, ext=False):
    return {"k": "int", "lb": lb, "ub": ub, "ext": ext}


def wrap(T, v, offset):
    """T placed `offset` bits into a SEQUENCE and followed by a 3-bit field."""
    root = []
    val = {}
    if offset:
        root.append(C("pad", {"k": "bits", "lb": offset, "ub": offset, "ext": False}))
        val["pad"] = ("10110101" * 2)[:offset]
    root += [C("x", T), C("tail", I3)]
    val["x"] = v
    val["tail"] = 5
    return SEQ(root), val


# ------------------------------------------------------------------ INTEGER --
def int_values(lb, ub, ext):
    vals = []
    if lb is not None and ub is not None:
        n = ub - lb
        ds = {0, 1, 2, n, n - 1, n // 2, n // 3}
        for p in (8, 16, 24, 32, 40, 48, 64, 72, 80, 120, 128, 1016, 1024):
            for d in (-1, 0, 1):
                ds.add((1 << p) + d)
        vals = [lb + d for d in sorted(ds) if 0 <= d <= n]
    elif lb is not None:
        ds = {0, 1, 2, 127, 128, 129}
        for p in (8, 16, 24, 32, 64, 1000, 1016, 1024):
            for d in (-1, 0, 1):
                ds.add((1 << p) + d)
        vals = [lb + d for d in sorted(ds)]
    else:
        base = {0, 1, -1, 2, -2}
        for p in (7, 8, 15, 16, 23, 24, 31, 32, 63, 64, 1015, 1016, 1023, 1024):
            for d in (-1, 0, 1):
                base.add((1 << p) + d)
                base.add(-(1 << p) + d)
        if ub is not None:
            base |= {ub, ub - 1, ub - 128}
        vals = sorted(x for x in base if refper.in_range(x, None, ub))
    if ext:
        out = []
        for p in (0, 7, 8, 15, 16, 31, 63):
            if lb is not None:
                out += [lb - (1 << p), lb - (1 << p) - 1]
            if ub is not None:
                out += [ub + (1 << p), ub + (1 << p) - 1]
        out += [x for x in (-129, -128, -1, 0, 1, 127, 128, 255, 256, 32767, 32768, -32768, -32769)]
        vals = vals + [x for x in out if not refper.in_range(x, lb, ub)]
    return vals


def ints(tier):
    full = tier == "thorough"
    lbs_small = [0, 1, -1, -128, 5, 1000, -100000] if full else [0, -3, 1000]
    for size in range(1, 301):
        for lb in lbs_small:
            for ext in (False, True):
                T = INT(lb, lb + size - 1, ext)
                n = size - 1
                for d in sorted({0, 1, n, n - 1, n // 2}):
                    if 0 <= d <= n:
                        yield T, lb + d
                if ext:
                    yield T, lb - 1
                    yield T, lb + size
    lbs = gen.LBS if full else gen.LBS[::3]
    for size in gen.RANGE_SIZES:
        for lb in lbs:
            for ext in (False, True):
                T = INT(lb, lb + size - 1, ext)
                for v in int_values(T["lb"], T["ub"], ext):
                    yield T, v
    for lb in gen.LBS:
        for ext in (False, True):
            T = INT(lb, None, ext)
            for v in int_values(lb, None, ext):
                yield T, v
            T = INT(None, lb, ext)
            for v in int_values(None, lb, ext):
                yield T, v
    T = INT(None, None)
    for v in int_values(None, None, False):
        yield T, v
    for v in range(-700 if full else -300, 701 if full else 301):
        yield T, v
    for v in range(0, 65600, 1 if full else 37):
        yield T, v
        yield INT(0, None), v


# --------------------------------------------------------------- ENUMERATED --
def enums(tier):
    full = tier == "thorough"
    sizes = list(range(1, 20)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 254, 255, 256, 257, 258, 300]
    for n in sizes:
        for m in (None, 0, 1, 2, 63, 64, 65, 66, 129) + ((255, 256, 257, 300) if full or n < 4 else ()):
            T = {"k": "enum", "root": ["e%d" % i for i in range(n)], "ext": m is not None,
                 "adds": ["x%d" % i for i in range(m or 0)]}
            for i in sorted({0, 1, n // 2, n - 2, n - 1}):
                if 0 <= i < n:
                    yield T, "e%d" % i
            if m:
                for i in sorted({0, 1, 62, 63, 64, 65, 127, 128, 254, 255, 256, m - 1}):
                    if i < m:
                        yield T, "x%d" % i
            # the same with explicit, unordered, sparse numbers
            T = gen.number(dict(T), n * 31 + (m or 0) * 7 + 1)
            for i in sorted({0, 1, n // 2, n - 2, n - 1}):
                if 0 <= i < n:
                    yield T, "e%d" % i
            if m:
                for i in sorted({0, 63, 64, m - 1}):
                    if i < m:
                        yield T, "x%d" % i


# ------------------------------------------------------------------ strings --
def _bit_patterns(n):
    if n == 0:
        return [""]
    out = ["0" * n, "1" * n, "0" * (n - 1) + "1", "1" + "0" * (n - 1), ("0110" * (n // 4 + 1))[:n]]
    seen = []
    for p in out:
        if p not in seen:
            seen.append(p)
    return seen


def _oct_patterns(n):
    if n == 0:
        return [""]
    out = ["00" * n, "ff" * n, "00" * (n - 1) + "01", "80" + "00" * (n - 1),
           ("0a37f1" * (n // 3 + 1))[:2 * n]]
    seen = []
    for p in out:
        if p not in seen:
            seen.append(p)
    return seen


def size_specs(tier):
    full = tier == "thorough"
    yield None, None
    for n in list(range(0, 42)) + [63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]:
        yield n, n
    for lb in ([0, 1, 2, 3, 5, 7, 8, 15, 16, 17, 100, 127, 128, 255, 256] if full else [0, 1, 3, 16, 17, 127]):
        for d in [1, 2, 3, 4, 7, 8, 15, 16, 30, 31, 62, 63, 64, 126, 127, 128, 253, 254, 255, 256, 257, 1000]:
            yield lb, lb + d
        yield lb, None
        for ub in (16383, 16384, 65534, 65535, 65536, 65537, 1 << 20):
            yield lb, ub
    yield None, 0
    yield None, 10
    yield None, 70000


def str_lengths(lb, ub, ext, tier):
    lo = lb or 0
    c = {lo, lo + 1, lo + 2, lo + 3, lo + 15, lo + 16, 127, 128, 129, 255, 256}
    if ub is not None:
        c |= {ub, ub - 1, (lo + ub) // 2}
    if ext:
        c |= {0, 1, 2, 3, 16, 17, 24, lo - 1}
        if ub is not None:
            c |= {ub + 1, ub + 2}
    if (ub is None or ub > 16000) and (tier == "thorough" or (lb or 0) in (0, 3)):
        c |= {16382, 16383}
    for n in sorted(c):
        if n < 0 or n > 16383 or (n > 1100 and n < 16000):
            continue
        if not ext and not refper.in_range(n, lb, ub):
            continue
        yield n


def strings(kind, tier):
    pats = _bit_patterns if kind == "bits" else _oct_patterns
    for lb, ub in size_specs(tier):
        for ext in (False, True):
            if lb is None and ub is None and ext:
                continue
            T = {"k": kind, "lb": lb, "ub": ub, "ext": ext}
            for n in str_lengths(lb, ub, ext, tier):
                ps = pats(n)
                if n > 300 and tier != "thorough":
                    ps = ps[-1:]
                for p in ps:
                    yield T, p


# ------------------------------------------------------------- constructed --
def seqofs(tier):
    elems = [(BOOL, [True, False, True]), (INT(0, 255), [1, 200]), (INT(0, 4), [3, 0, 4]),
             ({"k": "octs", "lb": None, "ub": None, "ext": False}, ["", "0a"])]
    for lb, ub in size_specs(tier):
        for ext in (False, True):
            if lb is None and ub is None and ext:
                continue
            for j, (et, vals) in enumerate(elems):
                T = {"k": "seqof", "lb": lb, "ub": ub, "ext": ext, "elem": et}
                for n in str_lengths(lb, ub, ext, tier):
                    if n > 300 and (tier != "thorough" or j):
                        continue
                    if j and tier != "thorough" and n > 130:
                        continue
                    yield T, [vals[i % len(vals)] for i in range(n)]


def choices(tier):
    ts = [(BOOL, True), (I3, 6), ({"k": "octs", "lb": 0, "ub": 5, "ext": False}, "0badf00d"), (INT(0, 300), 299)]
    for n in list(range(1, 18)) + [32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300]:
        for m in (None, 0, 1, 2, 3, 63, 64, 65, 70, 130) + ((255, 256, 257, 300) if n < 3 else ()):
            for g in ((0,) if not m else (0, 2)):
                root = [C("r%d" % i, ts[i % 4][0]) for i in range(n)]
                adds = [C("a%d" % i, ts[i % 4][0]) for i in range(m or 0)]
                groups = [[C("g%dc%d" % (k, i), ts[(i + k) % 4][0]) for i in range(2)] for k in range(g)]
                T = CHOICE(root, m is not None, adds, groups)
                for i in sorted({0, 1, n // 2, n - 1}):
                    if i < n:
                        yield T, ["r%d" % i, ts[i % 4][1]]
                for i in sorted({0, 1, 62, 63, 64, 65, 128, 254, 255, 256, (m or 0) - 1}):
                    if 0 <= i < (m or 0):
                        yield T, ["a%d" % i, ts[i % 4][1]]
                for k in range(g):
                    for i in range(2):
                        yield T, ["g%dc%d" % (k, i), ts[(i + k) % 4][1]]
    T = CHOICE([C("r0", BOOL)], True, [], [[C("g0c0", I3), C("g0c1", BOOL)], [C("g1c0", INT(0, 300))]])
    for v in (["r0", False], ["g0c0", 1], ["g0c1", True], ["g1c0", 17]):
        yield T, v


def uneven_choices(tier):
    """Extension groups of different lengths, with and without plain additions."""
    ts = [(BOOL, True), (I3, 6), (INT(0, 300), 299)]
    for sizes in ((2, 1), (1, 2), (3, 1, 2), (1, 3, 2), (1, 1, 1, 4), (2, 3)):
        for m in (0, 1, 2):
            adds = [C("a%d" % i, ts[i % 3][0]) for i in range(m)]
            groups = [[C("g%dc%d" % (k, i), ts[(i + k) % 3][0]) for i in range(n)] for k, n in enumerate(sizes)]
            T = CHOICE([C("r0", BOOL), C("r1", I3)], True, adds, groups)
            for i in range(m):
                yield T, ["a%d" % i, ts[i % 3][1]]
            for k, n in enumerate(sizes):
                for i in range(n):
                    yield T, ["g%dc%d" % (k, i), ts[(i + k) % 3][1]]


def odd_types():
    """(type, value) pairs that make unusual open types and elements: nothing to
    encode, one bit, lengths around 127, structures of each kind."""
    O = {"k": "octs", "lb": None, "ub": None, "ext": False}
    yield INT(7, 7), 7
    yield SEQ([]), {}
    yield SEQ([], True), {}
    yield SEQ([C("p", INT(3, 3))]), {"p": 3}
    yield SEQ([C("p", BOOL, "O")]), {"p": True}
    yield {"k": "bits", "lb": 0, "ub": 0, "ext": False}, ""
    yield {"k": "octs", "lb": 0, "ub": 0, "ext": True}, ""
    yield {"k": "octs", "lb": 0, "ub": 0, "ext": True}, "00ff"
    yield {"k": "enum", "root": ["only"], "ext": False, "adds": []}, "only"
    yield {"k": "seqof", "lb": 0, "ub": 0, "ext": False, "elem": BOOL}, []
    yield {"k": "seqof", "lb": 2, "ub": 2, "ext": False, "elem": INT(5, 5)}, [5, 5]
    yield {"k": "seqof", "lb": None, "ub": None, "ext": False, "elem": SEQ([C("p", I3), C("q", BOOL, "O")])}, [{"p": 1}, {"p": 2, "q": True}]
    yield CHOICE([C("c", INT(1, 1))]), ["c", 1]
    yield CHOICE([C("c", BOOL)], True, [C("d", INT(0, 300))]), ["d", 256]
    yield SEQ([C("p", I3)], True, [C("q", O, "O")], [[C("r", BOOL)]]), {"p": 1, "q": "aa", "r": True}
    for n in (0, 1, 2, 124, 125, 126, 127, 128, 255, 256, 300):
        yield O, "a5" * n
    yield {"k": "bits", "lb": None, "ub": None, "ext": False}, "1" * 1016
    yield INT(None, None), 1 << 1008


def empty_types():
    """SEQUENCEs that are there with nothing in them, and what holds only those."""
    E = SEQ([C("p", BOOL, "O")])
    inner = [E, SEQ([C("p", I3, "O"), C("q", I3, "O")]), SEQ([C("p", I3, "D", d=4)]), SEQ([C("p", I3, "O")], True), SEQ([], True, [C("q", BOOL)]),
             SEQ([C("p", BOOL, "O")], True, [C("q", BOOL, "O")], [[C("r", BOOL), C("s", I3, "O")]]), SEQ([]), SEQ([], True)]
    for t in inner:
        yield t, {}
    yield SEQ([C("m", E)]), {"m": {}}
    yield SEQ([C("m", E, "O")]), {"m": {}}
    yield SEQ([C("m", E, "O"), C("n", E, "O")]), {"n": {}}
    yield SEQ([C("m", E)], True, [C("n", E, "O")]), {"m": {}, "n": {}}
    yield SEQ([C("m", SEQ([C("n", E, "O")]), "O")]), {"m": {"n": {}}}
    yield SEQ([C("m", SEQ([C("n", E, "O")]), "O")]), {"m": {}}
    yield CHOICE([C("c", E), C("d", BOOL)]), ["c", {}]
    yield CHOICE([C("d", BOOL)], True, [C("c", E)]), ["c", {}]
    yield {"k": "seqof", "lb": None, "ub": None, "ext": False, "elem": E}, [{}, {}]
    yield {"k": "seqof", "lb": None, "ub": None, "ext": False, "elem": E}, []
    yield SEQ([C("l", {"k": "seqof", "lb": None, "ub": None, "ext": False, "elem": E}, "O")]), {"l": []}


def empties(tier):
    for t, v in empty_types():
        for x in opens_of(t, v):
            yield x
        for modes in ("MM", "MO", "OM", "OO"):
            T = SEQ([C("r0", BOOL)], True, [], [[C("g0c0", t, modes[0]), C("g0c1", t, modes[1])], [C("g1c0", BOOL, "O"), C("g1c1", t, modes[1])]])
            yield T, {"r0": True, "g0c0": v, "g0c1": v}
            yield T, {"r0": True, "g0c0": v, "g0c1": v, "g1c1": v}
            yield T, {"r0": True, "g0c0": v, "g0c1": v, "g1c0": False, "g1c1": v}
            if modes[1] == "O":
                yield T, {"r0": True, "g0c0": v}
            if modes[0] == "O":
                yield T, {"r0": True, "g0c1": v}
            if modes[1] == "O":
                yield T, {"r0": True, "g1c0": True}


def opens(tier):
    """Every odd type as an addition before others, as the only and as a later
    member of a group, as an alternative in the extension, and as an element."""
    for t, v in odd_types():
        for x in opens_of(t, v):
            yield x


def opens_of(t, v):
    for t2, v2 in ((I3, 5), (t, v), (INT(0, 300), 257)):
        T = SEQ([C("r0", I3)], True, [C("a0", t, "O"), C("a1", t2, "O"), C("a2", BOOL, "O")])
        yield T, {"r0": 1, "a0": v, "a1": v2, "a2": True}
        yield T, {"r0": 1, "a0": v, "a2": False}
        yield T, {"r0": 1, "a1": v2}
        T = SEQ([C("r0", BOOL)], True, [C("a0", BOOL, "O")], [[C("g0c0", t)], [C("g1c0", t2), C("g1c1", t, "O")]])
        yield T, {"r0": True, "g0c0": v, "g1c0": v2, "g1c1": v}
        yield T, {"r0": True, "a0": True, "g0c0": v}
    T = CHOICE([C("r0", BOOL), C("r1", t)], True, [C("a0", t), C("a1", I3)], [[C("g0c0", t), C("g0c1", BOOL)]])
    for n in ("r1", "a0", "g0c0"):
        yield T, [n, v]
    for lb, ub in ((None, None), (0, 3), (2, 2)):
        yield {"k": "seqof", "lb": lb, "ub": ub, "ext": False, "elem": t}, [v, v]
    yield SEQ([C("r0", t), C("r1", t, "O"), C("r2", I3)]), {"r0": v, "r1": v, "r2": 6}


MODES = ("M", "O", "D")


def _modes_product(k):
    if k == 0:
        yield ()
        return
    for rest in _modes_product(k - 1):
        for m in MODES:
            yield rest + (m,)


def _mk(prefix, modes, ts):
    comps = []
    for i, m in enumerate(modes):
        t, vals = ts[i % len(ts)]
        c = C("%s%d" % (prefix, i), t, m)
        if m == "D":
            c["d"] = vals[0]
        comps.append((c, vals))
    return comps


def seqs(tier):
    """SEQUENCEs: every mandatory/optional/default pattern with every presence
    pattern for small root lists; long optional bitmaps; every addition count
    up to 64; groups."""
    ts = [(I3, [2, 7]), (BOOL, [True, False]), ({"k": "octs", "lb": None, "ub": None, "ext": False}, ["ab", "cdef01"]),
          (INT(0, 300), [0, 256])]
    for k in (0, 1, 2, 3) + ((4,) if tier == "thorough" else ()):
        for modes in _modes_product(k):
            comps = _mk("r", modes, ts)
            for ext in (False, True):
                T = SEQ([c for c, _ in comps], ext)
                for mask in range(3 ** k):
                    v, x, ok = {}, mask, True
                    for c, vals in comps:
                        s, x = x % 3, x // 3
                        if s == 0:
                            if c["m"] == "M":
                                ok = False
                        else:
                            v[c["n"]] = vals[s - 1]
                    if ok:
                        yield T, v
    for n in (7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200):
        comps = _mk("r", ["O" if i % 3 else "D" for i in range(n)], ts)
        T = SEQ([c for c, _ in comps], n % 2 == 0)
        for pat in (lambda i: False, lambda i: True, lambda i: i % 2, lambda i: i % 3 == 0, lambda i: i == n - 1,
                    lambda i: i == 0, lambda i: i == 8 or i == n - 2):
            yield T, {c["n"]: vals[1] for i, (c, vals) in enumerate(comps) if pat(i)}
    counts = list(range(1, 65)) if tier == "thorough" else list(range(1, 10)) + [15, 16, 17, 31, 32, 33, 61, 62, 63, 64]
    for n in counts:
        for groups in (0, 1, 2, 5):
            if n - groups < 0:
                continue
            adds = _mk("a", ["O"] * (n - groups), ts)
            grs = []
            for g in range(groups):
                grs.append(_mk("g%dc" % g, [("O",), ("O", "O"), ("M", "O"), ("D", "O", "M")][g % 4], ts))
            T = SEQ([C("r0", I3)], True, [c for c, _ in adds], [[c for c, _ in g] for g in grs])
            for pat in (lambda i: True, lambda i: i == 0, lambda i: i == n - 1, lambda i: i % 2 == 0, lambda i: i % 2 == 1,
                        lambda i: False, lambda i: i in (6, 7, 8)):
                v = {"r0": 5}
                for i, (c, vals) in enumerate(adds):
                    if pat(i):
                        v[c["n"]] = vals[1]
                for j, g in enumerate(grs):
                    mand_only = any(c["m"] == "M" for c, _ in g)
                    if pat(len(adds) + j) or (mand_only and any(pat(len(adds) + q) for q in range(j + 1, groups))):
                        for c, vals in g:
                            v[c["n"]] = vals[1]
                yield T, v
    # additions of every mode, prefix-closed for mandatory ones
    for k in (1, 2, 3):
        for modes in _modes_product(k):
            comps = _mk("a", modes, ts)
            T = SEQ([C("r0", BOOL), C("r1", I3, "O")], True, [c for c, _ in comps])
            for mask in range(3 ** k):
                v, x = {"r0": True}, mask
                pres = []
                for c, vals in comps:
                    s, x = x % 3, x // 3
                    if s:
                        v[c["n"]] = vals[s - 1]
                    pres.append(bool(s) and not (c["m"] == "D" and s == 1))
                if any(p and any(comps[q][0]["m"] == "M" and not pres[q] for q in range(i)) for i, p in enumerate(pres)):
                    continue
                yield T, v
                v2 = dict(v)
                v2["r1"] = 3
                yield T, v2
    # groups of every mode pattern: either the mandatory members are all there or none is
    for k in (1, 2, 3):
        for modes in _modes_product(k):
            comps = _mk("g0c", modes, ts)
            for na in (0, 1):
                adds = [C("a0", INT(0, 300), "O")] if na else []
                T = SEQ([C("r0", BOOL)], True, adds, [[c for c, _ in comps], [C("g1c0", I3, "O"), C("g1c1", BOOL, "D", d=False)]])
                for mask in range(3 ** k):
                    v, x = {"r0": False}, mask
                    pres = []
                    for c, vals in comps:
                        s, x = x % 3, x // 3
                        if s:
                            v[c["n"]] = vals[s - 1]
                        pres.append(bool(s) and not (c["m"] == "D" and s == 1))
                    mand = [p for p, (c, _) in zip(pres, comps) if c["m"] == "M"]
                    if any(pres) and not all(mand):
                        continue
                    yield T, v
                    if all(mand) and (any(pres) or not mand):
                        v2 = dict(v)
                        v2["g1c1"] = True
                        if na:
                            v2["a0"] = 7
                        yield T, v2


def scalars(tier):
    yield BOOL, True
    yield BOOL, False
    for g in (ints(tier), enums(tier), strings("bits", tier), strings("octs", tier)):
        for x in g:
            yield x


def structures(tier):
    for g in (opens(tier), uneven_choices(tier), seqs(tier), choices(tier), seqofs(tier)):
        for x in g:
            yield x


# -------------------------------------------------- big and deep messages ----
def _mixed(n, salt=0):
    """n octets without a period."""
    x, out = 12345 + salt, bytearray()
    for _ in range(n):
        x = (x * 1103515245 + 12345) & 0x7fffffff
        out.append(x >> 16 & 255)
    return bytes(out)


SIZES = (127, 128, 129, 255, 256, 257, 300, 1000, 2047, 4096, 8191, 16000)


def big_strings(tier):
    for kind in ("bits", "octs"):
        for n in SIZES + (511, 512, 513, 1023, 1024, 8192, 12289, 16382, 16383):
            raw = _mixed(n, n)
            v = bin(int.from_bytes(b"\x01" + raw, "big"))[3:][:n] if kind == "bits" else raw.hex()
            for lb, ub, ext in ((None, None, False), (0, 20000, False), (n, n, False), (n - 1, n + 1, True), (0, 10, True)):
                yield {"k": kind, "lb": lb, "ub": ub, "ext": ext}, v


def big_structures(tier):
    O = {"k": "octs", "lb": None, "ub": None, "ext": False}
    for n in SIZES if tier == "thorough" else SIZES[1:6:2] + SIZES[6:9] + SIZES[-1:]:
        raw = _mixed(n, n)
        for lb, ub, ext in ((None, None, False), (0, 20000, False), (0, 10, True)):
            L = {"k": "seqof", "lb": lb, "ub": ub, "ext": ext, "elem": INT(0, 255)}
            yield L, list(raw)
        L = {"k": "seqof", "lb": None, "ub": None, "ext": False, "elem": INT(-3, 4)}
        yield L, [b % 8 - 3 for b in raw]
        m = min(n, 1000)
        L2 = {"k": "seqof", "lb": None, "ub": None, "ext": False, "elem": SEQ([C("p", INT(0, 300)), C("q", BOOL, "O"), C("r", O, "D", d="aa")])}
        yield L2, [dict([("p", b)] + ([("q", b % 3 == 0)] if b % 2 else []) + ([("r", "%02x" % b)] if b % 5 == 0 else [])) for b in raw[:m]]
        L3 = {"k": "seqof", "lb": None, "ub": None, "ext": False, "elem": CHOICE([C("i", INT(None, None)), C("o", O)], True, [C("b", BOOL)])}
        yield L3, [["i", b - 128] if b % 3 == 0 else ["o", "%02x" % b * (b % 4)] if b % 3 == 1 else ["b", b % 2 == 0] for b in raw[:m // 2]]
        S = SEQ([C("r", I3)], True, [C("a", O, "O"), C("l", L, "O"), C("z", I3, "O")], [[C("g", O, "O"), C("h", BOOL, "O")], [C("i", L, "O")]])
        xs = [b % 8 - 3 for b in raw]
        yield S, {"r": 5, "a": raw.hex(), "z": 3}
        yield S, {"r": 5, "l": xs, "z": 3, "h": True}
        yield S, {"r": 5, "g": raw.hex(), "h": True, "i": xs}
        yield CHOICE([C("r", BOOL)], True, [C("a", I3), C("o", O), C("l", L)]), ["o", raw.hex()]
        yield CHOICE([C("r", BOOL)], True, [C("a", I3), C("o", O), C("l", L)]), ["l", xs]
    for n in (33, 64, 65, 129, 300):
        ts = [(BOOL, [True, False]), (INT(0, 7), [6, 1]), (O, ["c3", ""]), (INT(0, 300), [258, 5]), (INT(None, None), [-1, 300])]
        for mode in ("M", "O", "D", "mix"):
            root, v = [], {}
            for i in range(n):
                t, xs = ts[(i * 7 + i // 5) % 5]
                m = mode if mode != "mix" else "MOD"[i * i % 3]
                root.append(C("r%d" % i, t, m, **({"d": xs[1]} if m == "D" else {})))
                if m == "M" or i % 3 or i == n - 1:
                    v["r%d" % i] = xs[i % 7 == 0] if m != "D" else xs[i % 4 == 0]
            yield SEQ(root), v
            yield SEQ(root, True, [C("x", BOOL, "O")]), dict(v, x=True)


def big_groups(tier):
    """Extension addition groups with many members, all, some, one or none of them sent."""
    O = {"k": "octs", "lb": None, "ub": None, "ext": False}
    ts = [(BOOL, [True, False]), (INT(0, 7), [6, 1]), (O, ["c3", ""]), (INT(0, 300), [258, 5]), (INT(None, None), [-1, 300])]
    for n in (4, 5, 7, 8, 9, 15, 16, 17, 21, 32, 33, 63, 64, 65, 100):
        for mode in ("M", "O", "D", "mix"):
            g, mand = [], {}
            for i in range(n):
                t, xs = ts[(i * 7 + i // 5) % 5]
                m = mode if mode != "mix" else "OMDO"[i * i % 4]
                g.append((C("g%d" % i, t, m, **({"d": xs[1]} if m == "D" else {})), xs[0]))
                if m == "M":
                    mand["g%d" % i] = xs[0]
            S = SEQ([C("r", I3)], True, [C("a", BOOL, "O")], [[c for c, _ in g], [C("h", BOOL, "O"), C("j", INT(0, 300), "O")]])
            for pat in (lambda i: True, lambda i: i % 2, lambda i: i == n - 1, lambda i: i == 0, lambda i: i == n // 2, lambda i: False):
                v = {c["n"]: x for i, (c, x) in enumerate(g) if pat(i)}
                if v:
                    v.update(mand)
                yield S, dict(v, r=5)
                if v or not mand:       # additions after one with mandatory members need it
                    yield S, dict(v, r=5, a=True, j=299)


def many_groups(tier):
    """Many extension addition groups after few or many additions, up to the 64 bits a small bitmap holds."""
    O = {"k": "octs", "lb": None, "ub": None, "ext": False}
    ts = [(BOOL, True), (I3, 6), (O, "c3"), (INT(0, 300), 258), (SEQ([C("p", BOOL, "O"), C("q", I3)]), {"q": 3})]
    for na in (0, 1, 3, 31, 40):
        for ng in (3, 4, 7, 8, 9, 15, 16, 17, 20, 23, 24, 25, 31, 32, 33, 48, 61, 63, 64):
            if na + ng > 64:
                continue
            adds = [C("a%d" % i, ts[i % 5][0], "O") for i in range(na)]
            groups = [[C("g%dm" % i, ts[(i + 1) % 5][0], "MO"[i % 2]), C("g%do" % i, BOOL, "O")][:1 + i % 3 % 2] for i in range(ng)]
            S = SEQ([C("r", I3), C("s", BOOL, "O")], True, adds, groups)
            for pat in (lambda i, n: True, lambda i, n: i == n - 1, lambda i, n: i % 2, lambda i, n: i == n // 2, lambda i, n: i in (0, n - 1), lambda i, n: i % 7 == 3):
                v = {"r": 5}
                for i in range(na):
                    if pat(i, na):
                        v["a%d" % i] = ts[i % 5][1]
                last = max([i for i in range(ng) if pat(i, ng)] + [-1])
                for i in range(ng):
                    if pat(i, ng) or i <= last and not i % 2:      # groups before one that is sent must not lack mandatory members
                        v["g%dm" % i] = ts[(i + 1) % 5][1]
                        if len(groups[i]) > 1 and i % 5:
                            v["g%do" % i] = i % 2 == 0
                yield S, v


def deep(tier):
    """Nesting far beyond what random types reach."""
    O = {"k": "octs", "lb": None, "ub": None, "ext": False}
    for n in (5, 9, 17, 33) if tier == "quick" else (4, 5, 6, 7, 8, 9, 12, 17, 24, 33, 48):
        def nest(wrap_t, wrap_v, t, v, n=n):
            for i in range(n):
                t, v = wrap_t(t, i), wrap_v(v, i)
            return t, v
        leaf, lv = SEQ([C("p", INT(0, 300)), C("q", BOOL, "O")]), {"p": 257, "q": False}
        yield nest(lambda t, i: SEQ([C("b", BOOL), C("s%d" % i, t), C("z", I3)]), lambda v, i: {"b": i % 3 == 0, "s%d" % i: v, "z": i % 8}, leaf, lv)
        yield nest(lambda t, i: SEQ([C("b", BOOL, "O"), C("s", t, "O"), C("z", I3, "D", d=5)]), lambda v, i: {"s": v, "z": i % 8}, leaf, lv)
        yield nest(lambda t, i: SEQ([C("b", BOOL)], True, [C("s", t, "O"), C("z", I3, "O")]), lambda v, i: {"b": True, "s": v, "z": i % 8}, leaf, lv)
        yield nest(lambda t, i: SEQ([C("b", BOOL)], True, [], [[C("s", t, "O"), C("z", I3)]]), lambda v, i: {"b": True, "s": v, "z": i % 8}, leaf, lv)
        yield nest(lambda t, i: CHOICE([C("b", BOOL), C("s", t), C("z", I3)]), lambda v, i: ["s", v], leaf, lv)
        yield nest(lambda t, i: CHOICE([C("b", BOOL)], True, [C("z", I3), C("s", t)]), lambda v, i: ["s", v], leaf, lv)
        yield nest(lambda t, i: {"k": "seqof", "lb": i % 2, "ub": [None, 3, 300][i % 3], "ext": i % 5 == 0, "elem": t}, lambda v, i: [v] if i % 7 else [v, v] if i < 15 else [v], leaf, lv)
        yield nest(lambda t, i: [SEQ([C("b", BOOL), C("s", t)], i % 2 == 1), CHOICE([C("b", BOOL), C("s", t)], i % 2 == 1),
                                 {"k": "seqof", "lb": None, "ub": None, "ext": False, "elem": t}][i % 3],
                   lambda v, i: [{"b": False, "s": v}, ["s", v], [v]][i % 3], leaf, lv)
        yield nest(lambda t, i: SEQ([C("s", t), C("b", BOOL)], True, [C("x", BOOL), C("y", I3)]), lambda v, i: {"s": v, "b": i % 2 == 0}, leaf, lv)
        yield nest(lambda t, i: SEQ([C("s", t, "O")], True, [C("x", BOOL)], [[C("y", I3)]]), lambda v, i: {"s": v}, leaf, lv)
        yield nest(lambda t, i: SEQ([C("o", O)], True, [C("s", t)], [[C("g", O, "O")]]), lambda v, i: {"o": "c3" * i, "s": v, "g": "5a"}, leaf, lv)


def zeros(tier):
    """Octets that begin or end with zeros, of many lengths, in every place that is handled as a number."""
    O = lambda n: {"k": "octs", "lb": n, "ub": n, "ext": False}
    ns = (1, 2, 3, 8, 64, 255, 256, 300, 601, 700, 1024, 2000, 4097, 8193, 16000) if tier == "quick" else \
        (1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 500, 511, 512, 513, 601, 700, 1000, 1023, 1024, 1025, 2000,
         2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 12000, 16000, 16380)
    for n in ns:
        for v in ("00" * n, "00" * (n - 1) + "01", "80" + "00" * (n - 1), "00" * (n // 2) + "5a" * (n - n // 2), "5a" * (n - n // 2) + "00" * (n // 2)):
            yield SEQ([C("b", BOOL)], True, [C("o", O(n), "O"), C("z", I3, "O")]), {"b": True, "o": v, "z": 0}
            yield SEQ([C("b", BOOL)], True, [], [[C("o", O(n))], [C("z", I3, "O")]]), {"b": False, "o": v, "z": 0}
            yield CHOICE([C("b", BOOL)], True, [C("o", O(n)), C("z", I3)]), ["o", v]
            yield SEQ([C("b", BOOL), C("o", O(n)), C("z", I3)]), {"b": False, "o": v, "z": 0}
            w = bin(int("1" + v, 16))[3:][:n * 4]
            yield CHOICE([C("b", BOOL)], True, [C("o", {"k": "bits", "lb": n * 4, "ub": n * 4, "ext": False}), C("z", I3)]), ["o", w]
            if n < 300:
                i = int(v, 16)
                yield SEQ([C("b", BOOL), C("i", INT(None, None)), C("j", INT(0, None)), C("k", INT(None, None))]), {"b": True, "i": i, "j": i, "k": -i}


def big(tier):
    for g in (zeros(tier), big_structures(tier), big_groups(tier), many_groups(tier), deep(tier)):
        for x in g:
            yield x
