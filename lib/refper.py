"""Independent bit-level model of the part of ITU-T X.691 (aligned PER) that
asn1PERser documents support for.  Written from the standard; shares no code
with the library.

Types are JSON-able dicts:
  {"k":"bool"}
  {"k":"int","lb":int|None,"ub":int|None,"ext":bool}
  {"k":"enum","root":[name...],"ext":bool,"adds":[name...]}
      optional "rn"/"an": the numbers of root/adds (default 0,1,2,... in order)
  {"k":"bits"|"octs","lb":int|None,"ub":int|None,"ext":bool}      size constraint
  {"k":"seqof","lb":..,"ub":..,"ext":bool,"elem":T}
  {"k":"seq","root":[C...],"ext":bool,"adds":[C...],"groups":[[C...]...]}
  {"k":"choice","root":[C...],"ext":bool,"adds":[C...],"groups":[[C...]...]}
  C = {"n":name,"t":T,"m":"M"|"O"|"D","d":default}
Values: bool / int / enum name / '0101' / hex / list / {name: value} / [name, value].
A DEFAULT component may be missing from the value (it then has its default).
"""


class Unsupported(Exception):
    """Encoding needs something outside the supported subset (fragmentation,
    more than 64 extension additions)."""


class RefDecodeError(Exception):
    pass


class NotEnough(RefDecodeError):
    pass


class OutsideRoot(RefDecodeError):
    """A number or length outside the bounds it was sent under."""


def is_size_unconstrained(T):
    return T["lb"] is None and T["ub"] is None and not T["ext"]


# ---------------------------------------------------------------- writer ----
class W(object):
    def __init__(self):
        self.b = []
        self.n = 0

    def put(self, width, val):
        assert 0 <= val < (1 << width) if width else val == 0
        if width:
            self.b.append(format(val, "0%db" % width))
            self.n += width

    def raw(self, bits):
        self.b.append(bits)
        self.n += len(bits)

    def align(self):
        r = self.n % 8
        if r:
            self.put(8 - r, 0)

    def done(self):
        self.align()
        if self.n == 0:
            self.put(8, 0)
        s = "".join(self.b)
        return int(s, 2).to_bytes(len(s) // 8, "big")


def octets_for(n):
    return max(1, (n.bit_length() + 7) // 8)


def put_constrained(w, v, lb, ub):
    r = ub - lb + 1
    x = v - lb
    if r == 1:
        return
    if r <= 255:
        w.put((r - 1).bit_length(), x)
    elif r == 256:
        w.align()
        w.put(8, x)
    elif r <= 65536:
        w.align()
        w.put(16, x)
    else:
        n = octets_for(x)
        put_constrained(w, n, 1, octets_for(ub - lb))
        w.align()
        w.put(8 * n, x)


def put_length(w, n):
    w.align()
    if n <= 127:
        w.put(8, n)
    elif n < 16384:
        w.put(16, 0x8000 | n)
    else:
        raise Unsupported("fragmented length %d" % n)


FRAGMENT = [False]        # set by encode(frag=True): write fragmented lengths (11.9.3.8)


def put_counted(w, n, write):
    """Length determinant(s) for n units, each followed by write(first, last)."""
    at = 0
    while FRAGMENT[0] and n - at >= 16384:
        m = min(4, (n - at) // 16384)
        w.align()
        w.put(8, 0xC0 | m)
        write(at, at + m * 16384)
        at += m * 16384
    put_length(w, n - at)
    if n > at:
        write(at, n)


def put_octets(w, x, n):
    bits = format(x, "0%db" % (8 * n))
    put_counted(w, n, lambda a, b: w.raw(bits[8 * a:8 * b]))


def put_semi(w, v, lb):
    x = v - lb
    put_octets(w, x, octets_for(x))


def put_unconstrained(w, v):
    n = max(1, ((v if v >= 0 else ~v).bit_length()) // 8 + 1)
    put_octets(w, v & ((1 << (8 * n)) - 1), n)


def put_normally_small(w, n):
    if n <= 63:
        w.put(1, 0)
        w.put(6, n)
    else:
        w.put(1, 1)
        put_semi(w, n, 0)


def put_open(w, T, v, opt):
    w2 = W()
    enc(T, v, w2, opt)
    data = w2.done()
    put_octets(w, int.from_bytes(data, "big"), len(data))


def in_range(x, lb, ub):
    return (lb is None or x >= lb) and (ub is None or x <= ub)


def size_root(T):
    lb = T["lb"] if T["lb"] is not None else 0
    return lb, T["ub"]


class Opt(object):
    """explicit: encode DEFAULT components that the value spells out even when
    they equal the default (legal for senders using BASIC-PER)."""

    def __init__(self, explicit=False):
        self.explicit = explicit


def present(c, v, opt):
    if c["n"] not in v:
        if c["m"] == "M":
            raise ValueError("missing mandatory " + c["n"])
        return False
    if c["m"] == "D" and not opt.explicit and v[c["n"]] == c["d"]:
        return False
    return True


def add_present(c, v, opt):
    if c["n"] not in v:
        return False
    if c["m"] == "D" and not opt.explicit and v[c["n"]] == c["d"]:
        return False
    return True


def enc(T, v, w, opt):
    k = T["k"]
    if k == "bool":
        w.put(1, 1 if v else 0)
    elif k == "int":
        lb, ub = T["lb"], T["ub"]
        if T["ext"]:
            if in_range(v, lb, ub):
                w.put(1, 0)
            else:
                w.put(1, 1)
                put_unconstrained(w, v)
                return
        if lb is not None and ub is not None:
            put_constrained(w, v, lb, ub)
        elif lb is not None:
            put_semi(w, v, lb)
        else:
            put_unconstrained(w, v)
    elif k == "enum":
        if T["ext"]:
            if v in T["root"]:
                w.put(1, 0)
            else:
                w.put(1, 1)
                put_normally_small(w, T["adds"].index(v))
                return
        put_constrained(w, enum_order(T).index(v), 0, len(T["root"]) - 1)
    elif k in ("bits", "octs"):
        unit = 1 if k == "bits" else 8
        if k == "bits":
            raw = v
        else:
            raw = "".join(format(x, "08b") for x in bytes.fromhex(v))
        n = len(raw) // unit
        lb, ub = size_root(T)
        if T["ext"]:
            if in_range(n, lb, ub):
                w.put(1, 0)
            else:
                w.put(1, 1)
                put_counted(w, n, lambda a, b: w.raw(raw[unit * a:unit * b]))
                return
        if ub is not None and lb == ub and ub < 65536:
            if n == 0:
                return
            if n * unit > 16:
                w.align()
            w.raw(raw)
            return
        if ub is not None and ub < 65536:
            put_constrained(w, n, lb, ub)
            if n:
                w.align()
                w.raw(raw)
        else:
            put_counted(w, n, lambda a, b: w.raw(raw[unit * a:unit * b]))
    elif k == "seqof":
        n = len(v)
        lb, ub = size_root(T)
        ext_used = False
        if T["ext"]:
            ext_used = not in_range(n, lb, ub)
            w.put(1, 1 if ext_used else 0)

        def elements(a, b):
            for x in v[a:b]:
                enc(T["elem"], x, w, opt)

        if ext_used or ub is None or ub >= 65536:
            put_counted(w, n, elements)
        else:
            put_constrained(w, n, lb, ub)
            elements(0, n)
    elif k == "seq":
        add_bits = []
        if T["ext"]:
            for c in T["adds"]:
                add_bits.append(add_present(c, v, opt))
            for g in T["groups"]:
                add_bits.append(any(add_present(c, v, opt) for c in g))
            w.put(1, 1 if any(add_bits) else 0)
        enc_root(T["root"], v, w, opt)
        if any(add_bits):
            n = len(add_bits)
            if n > 64 and not FRAGMENT[0]:
                raise Unsupported("more than 64 extension additions")
            if n > 64:
                w.put(1, 1)
                put_length(w, n)
            else:
                w.put(1, 0)
                w.put(6, n - 1)
            for b in add_bits:
                w.put(1, int(b))
            for c, b in zip(T["adds"], add_bits):
                if b:
                    put_open(w, c["t"], v[c["n"]], opt)
            for g, b in zip(T["groups"], add_bits[len(T["adds"]):]):
                if b:
                    gt = {"k": "seq", "root": g, "ext": False, "adds": [], "groups": []}
                    put_open(w, gt, v, opt)
    elif k == "choice":
        name, x = v
        names = [c["n"] for c in T["root"]]
        if name in names:
            if T["ext"]:
                w.put(1, 0)
            i = names.index(name)
            put_constrained(w, i, 0, len(names) - 1)
            enc(T["root"][i]["t"], x, w, opt)
        else:
            ext = choice_ext(T)
            i = [c["n"] for c in ext].index(name)
            w.put(1, 1)
            put_normally_small(w, i)
            put_open(w, ext[i]["t"], x, opt)
    else:
        raise AssertionError(k)


def enum_numbers(T):
    rn = T.get("rn") or list(range(len(T["root"])))
    an = T.get("an") or list(range(len(T["root"]), len(T["root"]) + len(T["adds"])))
    return rn, an


def enum_order(T):
    """Root names in PER index order: ascending by number (X.691 14.1)."""
    if "rn" not in T:
        return T["root"]
    return [n for _, n in sorted(zip(T["rn"], T["root"]))]


def choice_ext(T):
    return list(T["adds"]) + [c for g in T["groups"] for c in g]


def enc_root(comps, v, w, opt):
    pres = [present(c, v, opt) for c in comps]
    for c, p in zip(comps, pres):
        if c["m"] != "M":
            w.put(1, int(p))
    for c, p in zip(comps, pres):
        if p:
            enc(c["t"], v[c["n"]], w, opt)


def encode(T, v, explicit=False, frag=False):
    """frag: also write what the library does not support (fragmented lengths,
    more than 64 additions) instead of raising Unsupported."""
    w = W()
    FRAGMENT[0] = frag
    try:
        enc(T, v, w, Opt(explicit))
    finally:
        FRAGMENT[0] = False
    return w.done()


# ---------------------------------------------------------------- reader ----
class R(object):
    def __init__(self, data):
        self.s = bin(int.from_bytes(b"\x01" + data, "big"))[3:]
        self.p = 0

    def get(self, width):
        if self.p + width > len(self.s):
            raise NotEnough("needed %d bits at %d of %d" % (width, self.p, len(self.s)))
        x = self.s[self.p:self.p + width]
        self.p += width
        return int(x, 2) if x else 0

    def raw(self, width):
        if self.p + width > len(self.s):
            raise NotEnough("needed %d bits at %d of %d" % (width, self.p, len(self.s)))
        x = self.s[self.p:self.p + width]
        self.p += width
        return x

    def align(self):
        if self.p % 8:
            self.p += 8 - self.p % 8


def outside(what):
    """The root form carries a value outside the root: refused, or (see decode_odd) kept."""
    if ODD and ODD[-1]:
        ODD[0] = "odd"
    else:
        raise OutsideRoot(what)


def get_constrained(r, lb, ub):
    n = ub - lb + 1
    if n == 1:
        return lb
    if n <= 255:
        x = r.get((n - 1).bit_length())
    elif n == 256:
        r.align()
        x = r.get(8)
    elif n <= 65536:
        r.align()
        x = r.get(16)
    else:
        k = get_constrained(r, 1, octets_for(ub - lb))
        r.align()
        x = r.get(8 * k)
    if x > ub - lb:
        outside("constrained value out of range")
    return lb + x


def get_length(r):
    r.align()
    if r.get(1) == 0:
        return r.get(7)
    if r.get(1) == 0:
        return r.get(14)
    raise Unsupported("fragmented")


def get_semi(r, lb):
    n = get_length(r)
    if n == 0:
        raise RefDecodeError("a number has at least one octet")
    return lb + r.get(8 * n)


def get_unconstrained(r):
    n = get_length(r)
    if n == 0:
        raise RefDecodeError("a number has at least one octet")
    x = r.get(8 * n)
    if x >> (8 * n - 1):
        x -= 1 << (8 * n)
    return x


def get_normally_small(r):
    if r.get(1) == 0:
        return r.get(6)
    return get_semi(r, 0)


def get_open(r, T):
    n = get_length(r)
    bits = r.raw(8 * n)
    if T is None:
        return None
    data = int(bits, 2).to_bytes(n, "big") if n else b""
    return dec(T, R(data))


ODD = []


def decode_odd(T, data):
    """-> (value, whether a root form carried a value outside the root of an extensible constraint)"""
    ODD[:] = ["", False]
    try:
        v = dec(T, R(data))
        return v, ODD[0] == "odd"
    finally:
        del ODD[:]


def dec(T, r):
    if ODD:
        ODD.append(bool(T.get("ext")) and T["k"] in ("int", "bits", "octs", "seqof"))
        try:
            return _dec(T, r)
        finally:
            ODD.pop()
    if T.get("ext") and T["k"] in ("int", "bits", "octs", "seqof"):
        try:
            return _dec(T, r)
        except OutsideRoot as e:
            if T["k"] == "seqof" and getattr(e, "elem", False):
                raise
            # the value is allowed by the type, only its encoding is odd:
            # what a decoder makes of it is not settled here
            raise Unsupported("root encoding of a value outside the root")
    return _dec(T, r)


def _elem(T, r):
    try:
        return dec(T, r)
    except OutsideRoot as e:
        e.elem = True
        raise


def _dec(T, r):
    k = T["k"]
    if k == "bool":
        return bool(r.get(1))
    if k == "int":
        lb, ub = T["lb"], T["ub"]
        if T["ext"] and r.get(1):
            return get_unconstrained(r)
        if lb is not None and ub is not None:
            return get_constrained(r, lb, ub)
        if lb is not None:
            return get_semi(r, lb)
        x = get_unconstrained(r)
        if ub is not None and x > ub:
            outside("value above upper bound")
        return x
    if k == "enum":
        if T["ext"] and r.get(1):
            i = get_normally_small(r)
            if i >= len(T["adds"]):
                raise RefDecodeError("unknown enumeration addition")
            return T["adds"][i]
        return enum_order(T)[get_constrained(r, 0, len(T["root"]) - 1)]
    if k in ("bits", "octs"):
        unit = 1 if k == "bits" else 8
        lb, ub = size_root(T)
        if T["ext"] and r.get(1):
            n = get_length(r)
        elif ub is not None and lb == ub and ub < 65536:
            n = ub
            if n and n * unit > 16:
                r.align()
            raw = r.raw(n * unit)
            return raw if k == "bits" else _hex(raw)
        elif ub is not None and ub < 65536:
            n = get_constrained(r, lb, ub)
        else:
            n = get_length(r)
            if not in_range(n, lb, ub):
                outside("length outside size constraint")
        if n:
            r.align()
        raw = r.raw(n * unit)
        return raw if k == "bits" else _hex(raw)
    if k == "seqof":
        lb, ub = size_root(T)
        if T["ext"] and r.get(1):
            n = get_length(r)
        elif ub is not None and ub < 65536:
            n = get_constrained(r, lb, ub)
        else:
            n = get_length(r)
            if not in_range(n, lb, ub):
                outside("length outside size constraint")
        return [_elem(T["elem"], r) for _ in range(n)]
    if k == "seq":
        v = {}
        ext = T["ext"] and r.get(1)
        dec_root(T["root"], v, r)
        if ext:
            if r.get(1):
                raise Unsupported("more than 64 extension additions")
            n = r.get(6) + 1
            bits = [r.get(1) for _ in range(n)]
            known = [("a", c) for c in T["adds"]] + [("g", g) for g in T["groups"]]
            for i, b in enumerate(bits):
                if not b:
                    continue
                if i >= len(known):
                    get_open(r, None)
                elif known[i][0] == "a":
                    c = known[i][1]
                    v[c["n"]] = get_open(r, c["t"])
                else:
                    gt = {"k": "seq", "root": known[i][1], "ext": False, "adds": [], "groups": []}
                    v.update(get_open(r, gt))
        return v
    if k == "choice":
        if T["ext"] and r.get(1):
            i = get_normally_small(r)
            ext = choice_ext(T)
            if i >= len(ext):
                raise RefDecodeError("unknown alternative")
            return [ext[i]["n"], get_open(r, ext[i]["t"])]
        i = get_constrained(r, 0, len(T["root"]) - 1)
        return [T["root"][i]["n"], dec(T["root"][i]["t"], r)]
    raise AssertionError(k)


def _hex(raw):
    if not raw:
        return ""
    return int(raw, 2).to_bytes(len(raw) // 8, "big").hex()


def dec_root(comps, v, r):
    pres = {}
    for c in comps:
        if c["m"] != "M":
            pres[c["n"]] = r.get(1)
    for c in comps:
        if c["m"] == "M" or pres[c["n"]]:
            v[c["n"]] = dec(c["t"], r)


def decode(T, data):
    r = R(data)
    return dec(T, r)


def decode_consumed(T, data):
    """-> (value, number of octets of data that carried information or padding)."""
    r = R(data)
    v = dec(T, r)
    return v, max(1, (r.p + 7) // 8)


# ------------------------------------------------------------ value laws ----
def canon(T, v):
    """Abstract value with every DEFAULT component spelled out (for present
    containers) so two spellings of one abstract value compare equal.
    DEFAULTs of absent extension additions are included too: a decoder
    reports them as their default."""
    k = T["k"]
    if k == "seqof":
        return [canon(T["elem"], x) for x in v]
    if k == "seq":
        out = {}
        for c in all_comps(T):
            if c["n"] in v:
                out[c["n"]] = canon(c["t"], v[c["n"]])
            elif c["m"] == "D":
                out[c["n"]] = canon(c["t"], c["d"])
        return out
    if k == "choice":
        t = [c["t"] for c in list(T["root"]) + choice_ext(T) if c["n"] == v[0]][0]
        return [v[0], canon(t, v[1])]
    return v


def all_comps(T):
    return list(T["root"]) + list(T["adds"]) + [c for g in T["groups"] for c in g]


def size_of(T, v):
    return v if T["k"] == "int" else len(v) // 2 if T["k"] == "octs" else len(v)


def in_hole(T, n):
    """The gap [lo, hi] of T's union that n lies in; T["hole"] = [lo, hi, lo, hi, ...]."""
    h = T.get("hole") or []
    for lo, hi in zip(h[::2], h[1::2]):
        if lo <= n <= hi:
            return [lo, hi]
    return None


def tiny(T):
    """A small valid value of T."""
    k = T["k"]
    if k == "bool":
        return True
    if k == "int":
        return T["lb"] if T["lb"] is not None else T["ub"] if T["ub"] is not None else 1
    if k == "enum":
        return T["root"][0]
    if k in ("bits", "octs"):
        return ("1" if k == "bits" else "a5") * (T["lb"] or 0)
    if k == "seqof":
        return [tiny(T["elem"])] * (T["lb"] or 0)
    if k == "choice":
        return [T["root"][0]["n"], tiny(T["root"][0]["t"])]
    return {c["n"]: tiny(c["t"]) for c in T["root"] if c["m"] == "M"}


def valid(T, v):
    """v satisfies T (constraints included)."""
    k = T["k"]
    if T.get("hole") and not T["ext"] and in_hole(T, size_of(T, v)):
        return False
    if k == "bool":
        return isinstance(v, bool)
    if k == "int":
        return T["ext"] or in_range(v, T["lb"], T["ub"])
    if k == "enum":
        return v in T["root"] or (T["ext"] and v in T["adds"])
    if k == "bits":
        return T["ext"] or in_range(len(v), T["lb"], T["ub"])
    if k == "octs":
        return T["ext"] or in_range(len(v) // 2, T["lb"], T["ub"])
    if k == "seqof":
        return (T["ext"] or in_range(len(v), T["lb"], T["ub"])) and all(valid(T["elem"], x) for x in v)
    if k == "seq":
        return all((c["n"] in v) or c["m"] != "M" for c in T["root"]) and \
            all(valid(c["t"], v[c["n"]]) for c in all_comps(T) if c["n"] in v)
    if k == "choice":
        return all(valid(c["t"], v[1]) for c in list(T["root"]) + choice_ext(T) if c["n"] == v[0])
    raise AssertionError(k)
