"""C20 construction-path independence: equal messages encode equally however they were built and passed."""
from hypothesis import strategies as st
from lib import cases, gen, build, refper
from lib.common import encode, decode, built, hexs, note, short, thin, unpack, ref_encode, Violation, Discard
from lib.runner import Unit, ref

RULE = ("A case is a generated type, a value and a recipe: scalars from class instances, plain Python values, another spelling (binary/hex/octets/tuple/prettyPrint text), "
        "components assigned in any order, by name, by position, through setComponentByName or in place through the parent, lists by extend/append/index, repeated assignment with the object used in between, objects shared between "
        "places, and octets passed positionally, by keyword, as bytes or bytearray. Non-trivial: encodable without fragmentation; distinct = distinct JSON of the case.")
ASSUMPTIONS = ["only constructions pyasn1 and the README document are used"]


class Dice(object):
    """Deterministic choices from a list of drawn integers."""

    def __init__(self, xs):
        self.xs, self.i = xs or [0], 0

    def pick(self, n):
        x = self.xs[self.i % len(self.xs)] + self.i // len(self.xs)
        self.i += 1
        return x % n


def scalar(B, v, dice):
    """Object or plain value usable wherever a component is assigned."""
    k, cls = B.T["k"], B.cls
    how = dice.pick(4)
    if k == "bool":
        return [cls(v), v, cls(1 if v else 0), cls("True" if v else "False")][how]
    if k == "int":
        return [cls(v), v, cls(str(v)), cls(cls(v))][how]
    if k == "enum":
        num = dict(zip(B.T["root"] + B.T["adds"], sum(refper.enum_numbers(B.T), [])))[v]
        return [cls(v), v, cls(num), num][how]
    if k == "bits":
        if v == "":
            return [cls(binValue=""), cls(()), (), cls("")][how]
        return [cls(binValue=v), tuple(int(b) for b in v), cls("'%s'B" % v), cls(tuple(int(b) for b in v))][how]
    if k == "octs":
        raw = bytes.fromhex(v)
        return [cls(hexValue=v), raw, cls(raw), cls(tuple(raw)) if raw else cls(hexValue="")][how]
    raise AssertionError(k)


def probe(o):
    """Use the object as it is so far, complete or not."""
    for f in (encode, str, lambda o: o.to_dict()):
        try:
            f(o)
        except Exception:
            pass


def make(B, v, dice, shared):
    T = B.T
    k = T["k"]
    if k not in ("seq", "choice", "seqof"):
        return scalar(B, v, dice)
    key = (id(B), repr(v))
    if key in shared and dice.pick(2):
        return shared[key]
    o = B.cls()
    if k == "seq":
        if not refper.all_comps(T):
            o.clear()
        names = [c["n"] for c in refper.all_comps(T)]
        order = list(v)
        rot = dice.pick(max(1, len(order)))
        order = order[rot:] + order[:rot]
        if dice.pick(2):
            order.reverse()
        for n in order:
            how = dice.pick(5)
            kid = B.kids[n]
            if how == 4 and kid.T["k"] in ("seq", "choice", "seqof") and v[n]:
                fill(o[n], kid, v[n], dice, shared)
                continue
            x = make(kid, v[n], dice, shared)
            if how == 3:
                # assigned twice, the last one counts
                o[n] = build.inst(kid, v[n])
                probe(o)
            if how in (0, 3, 4):
                o[n] = x
            elif how == 1:
                o.setComponentByName(n, x)
            else:
                o.setComponentByPosition(names.index(n), x)
    else:
        fill(o, B, v, dice, shared)
    shared[key] = o
    return o


def fill(o, B, v, dice, shared):
    """Fill an object in place."""
    k = B.T["k"]
    if k == "seq":
        for n, x in v.items():
            o[n] = make(B.kids[n], x, dice, shared)
    elif k == "choice":
        if dice.pick(3) == 0:
            c = B.T["root"][0]
            t = c["t"]
            if t["k"] == "bool":
                o[c["n"]] = True            # replaced below
                probe(o)
        o[v[0]] = make(B.kids[v[0]], v[1], dice, shared)
    else:
        xs = [make(B.kids["elem"], x, dice, shared) for x in v]
        how = dice.pick(4)
        if how == 3 and len(xs) > 1:
            # in another order first, used, then put right
            o.extend(xs[1:] + xs[:1])
            probe(o)
            for i, x in enumerate(xs):
                o[i] = x
        elif how == 0 or not xs:
            o.extend(xs)
        elif how == 1:
            for x in xs:
                o.append(x)
        else:
            for i, x in enumerate(xs):
                o[i] = x


def check(case, ctx):
    B, T, v = unpack(case)
    data = ref_encode(T, v)
    if T["k"] not in ("seq", "choice", "seqof"):
        W = cases.SEQ([cases.C("x", T)])
        B, T, v = build.make(W), W, {"x": v}
        data = ref_encode(T, v)
    note(ctx, T, v)
    o = make(B, v, Dice(case["dice"]), {})
    got = encode(asn1Spec=o)
    if got != data:
        raise Violation("built by recipe %s the message encodes as %s, expected %s" % (case["dice"], hexs(got), hexs(data)))
    want = refper.canon(T, v)
    for how in (lambda: decode(per_stream=data, asn1Spec=B.cls()), lambda: decode(bytearray(data), B.cls()),
                lambda: decode(asn1Spec=B.cls(), per_stream=bytearray.fromhex(data.hex()))):
        got = refper.canon(T, build.extract(B, how()))
        if got != want:
            raise Violation("decode gives %s, expected %s" % (short(got), short(want)))


@st.composite
def recipes(draw, types):
    T = draw(types)
    return {"T": T, "v": draw(gen.value(T, small=True)), "dice": draw(st.lists(st.integers(0, 11), min_size=1, max_size=6))}


def grid(tier):
    for i, (T, v) in enumerate(thin(cases.scalars, 13)(tier)):
        if T["k"] in ("bits", "octs") and len(v) > 2000:
            continue
        yield {"T": T, "v": v, "dice": [i % 4, (i // 4) % 5]}
    for i, (T, v) in enumerate(thin(cases.structures, 17)(tier)):
        yield {"T": T, "v": v, "dice": [i % 7, i % 5, i % 3]}


def units(tier):
    return [
        Unit("nested", check, strategy=recipes(gen.structured_type(2)), quick=3000, thorough=80000),
        Unit("deep", check, strategy=recipes(gen.structured_type(3)), quick=600, thorough=16000),
        Unit("grid", check, cases=grid),
    ]
