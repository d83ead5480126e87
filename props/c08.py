"""C08 purity and history independence of encode/decode/printing/to_dict."""
from hypothesis import strategies as st
from lib import cases, gen, build, paths, refper
from lib.common import encode, decode, hexs, short, Violation, Discard
from lib.runner import Unit, ref

RULE = ("A case is a type, a first value and a sequence of operations on one message object and one decoding specification: set a component, append an element, "
        "choose an alternative, change a component of any depth in place (set, replace an element, append, clear), read components, print, to_dict, encode, decode other messages with the same specification or with the message object as specification, "
        "change an earlier decoded message, encode/decode messages of an unrelated type. After every step the octets of the message must be those of the model value. "
        "Non-trivial: at least three operations of at least two kinds were carried out; distinct = distinct JSON of the case.")
ASSUMPTIONS = ["reads are one level deep (reading o['absent']['x'] creates components in pyasn1 itself)"]


def ok(T, v):
    """Mandatory components are there and additions are prefix-closed."""
    k = T["k"]
    if k == "seqof":
        return all(ok(T["elem"], x) for x in v)
    if k == "choice":
        return ok([c["t"] for c in refper.all_comps(T) if c["n"] == v[0]][0], v[1])
    if k != "seq":
        return True
    if any(c["m"] == "M" and c["n"] not in v for c in T["root"]):
        return False
    units = [[c] for c in T["adds"]] + list(T["groups"])
    is_group = [False] * len(T["adds"]) + [True] * len(T["groups"])
    later = False
    for u, g in reversed(list(zip(units, is_group))):
        pres = [c["n"] in v and not (c["m"] == "D" and v[c["n"]] == c["d"]) for c in u]
        if (later or (g and any(pres))) and any(c["m"] == "M" and not p for c, p in zip(u, pres)):
            return False
        later = later or any(pres)
    return all(ok(c["t"], v[c["n"]]) for c in refper.all_comps(T) if c["n"] in v)


def expect(T, v):
    try:
        return refper.encode(T, v)
    except refper.Unsupported:
        raise Discard()


def verify(B, o, model, what):
    want = ref(expect, B.T, model)
    got = encode(o)
    if got != want:
        raise Violation("after %s the message encodes as %s, its value %s is %s" % (what, hexs(got), short(model), hexs(want)))


def change(T, v, op):
    """Model value after the change ["at", path, action, key, x], None when it does not apply."""
    _, path, action, key, x = op
    t, y = T, v
    for kind, k in path:
        if t["k"] == "seq":
            if k not in y:
                return None
            t, y = paths.comp_of(t, k)["t"], y[k]
        elif t["k"] == "choice":
            if y[0] != k:
                return None
            t, y = paths.comp_of(t, k)["t"], y[1]
        else:
            if k >= len(y):
                return None
            t, y = t["elem"], y[k]
    if t["k"] == "seq":
        y = dict(y)
        y[key] = x
    elif t["k"] == "choice":
        y = [key, x]
    elif action == "clear":
        y = []
    elif action == "append":
        y = y + [x]
    elif key >= len(y):
        return None
    else:
        y = y[:key] + [x] + y[key + 1:]
    v2 = paths.replace_value(T, v, path, y)
    return v2 if ok(T, v2) and refper.valid(T, v2) else None


def do_change(B, o, op):
    """The same change, in place, on the object."""
    _, path, action, key, x = op
    for kind, k in path:
        o = o[k]
        B = B.kids["elem" if B.T["k"] == "seqof" else k]
    if action == "clear":
        o.clear()
    elif action == "append":
        o.append(build.inst(B.kids["elem"], x))
    else:
        o[key] = build.inst(B.kids["elem" if B.T["k"] == "seqof" else key], x)


def check(case, ctx):
    T = case["T"]
    B = build.make(T)
    v = case["v"]
    if not ref(ok, T, v):
        raise Discard()
    o = build.inst(B, v)
    spec = B.cls()
    decoded = []                         # (object, model)
    done = set()
    steps = 0
    ref(expect, T, v)
    for op in case["ops"]:
        name = op[0]
        if name == "set" and T["k"] == "seq":
            m2 = dict(v)
            m2[op[1]] = op[2]
            if not ok(T, m2):
                continue
            ref(expect, T, m2)
            o[op[1]] = build.inst(B.kids[op[1]], op[2])
            v = m2
        elif name == "set" and T["k"] == "choice":
            ref(expect, T, [op[1], op[2]])
            o[op[1]] = build.inst(B.kids[op[1]], op[2])
            v = [op[1], op[2]]
        elif name == "append" and T["k"] == "seqof":
            m2 = v + [op[1]]
            if not ref(refper.valid, T, m2):
                continue
            ref(expect, T, m2)
            o.append(build.inst(B.kids["elem"], op[1]))
            v = m2
        elif name == "at":
            m2 = ref(change, T, v, op)
            if m2 is None:
                continue
            ref(expect, T, m2)
            do_change(B, o, op)
            v = m2
            if decoded and len(decoded) % 2:
                m2 = ref(change, T, decoded[-1][1], op)
                if m2 is not None:
                    ref(expect, T, m2)
                    do_change(B, decoded[-1][0], op)
                    decoded[-1][1] = m2
        elif name == "read":
            if T["k"] == "seq":
                for c in refper.all_comps(T):
                    if c["n"] == op[1] or op[1] == "*":
                        o[c["n"]]
            elif T["k"] == "seqof":
                [o[i] for i in range(len(o))]
            else:
                o.getComponent()
        elif name == "str":
            str(o), repr(o), o.prettyPrint()
        elif name == "dict":
            a = o.to_dict()
            if a != o.to_dict():
                raise Violation("to_dict twice gives different results")
        elif name == "encode":
            encode(o)
        elif name in ("decode", "decode-self"):
            data = ref(expect, T, op[1])
            snap = bytes(data)
            d = decode(data, spec if name == "decode" else o)
            if data != snap:
                raise Violation("decode changed its input")
            if d is o or d is spec:
                raise Violation("decode returned its specification")
            got = refper.canon(T, build.extract(B, d))
            if got != refper.canon(T, op[1]):
                raise Violation("decode(%s) = %s, expected %s (after %s)" % (hexs(data), short(got), short(op[1]), sorted(done)))
            decoded.append([d, op[1]])
        elif name == "touch" and decoded:
            d, m = decoded[op[1] % len(decoded)]
            if T["k"] == "seq":
                m2 = dict(m)
                m2[op[2]] = op[3]
                if not ok(T, m2):
                    continue
                ref(expect, T, m2)
                d[op[2]] = build.inst(B.kids[op[2]], op[3])
            elif T["k"] == "choice":
                m2 = [op[2], op[3]]
                ref(expect, T, m2)
                d[op[2]] = build.inst(B.kids[op[2]], op[3])
            else:
                m2 = m + [op[3]]
                if not ref(refper.valid, T, m2):
                    continue
                ref(expect, T, m2)
                d.append(build.inst(B.kids["elem"], op[3]))
            decoded[op[1] % len(decoded)][1] = m2
        elif name == "other":
            B2 = build.make(op[1])
            data = ref(expect, op[1], op[2])
            if encode(build.inst(B2, op[2])) != data:
                raise Violation("an unrelated message encodes differently after %s" % sorted(done))
            if refper.canon(op[1], build.extract(B2, decode(data, B2.cls()))) != refper.canon(op[1], op[2]):
                raise Violation("an unrelated message decodes differently after %s" % sorted(done))
        elif name == "fail":
            for data in (b"", b"\xff", bytes([op[1]])):
                try:
                    decode(data, spec)
                except Exception:
                    pass
        else:
            continue
        done.add(name)
        steps += 1
        verify(B, o, v, name)
        for d, m in decoded:
            verify(B, d, m, name + " (decoded message)")
    if steps:
        ctx.note(["op:" + x for x in sorted(done)], nontrivial=steps >= 3 and len(done) >= 2)


@st.composite
def histories(draw, types):
    T = draw(types)
    v = draw(gen.value(T, small=True))

    def some():
        return draw(gen.value(T, small=True))

    def named():
        c = draw(st.sampled_from(refper.all_comps(T))) if refper.all_comps(T) else None
        if c is None:
            return None
        if c["t"]["k"] == "seq":
            return c["n"], gen.force_nonempty(draw, c["t"])
        return c["n"], draw(gen.value(c["t"], small=True))

    def in_place(v):
        nodes = [(p, t, x) for p, t, x in paths.walk(T, v) if t["k"] == "seqof" or t["k"] in ("seq", "choice") and refper.all_comps(t)]
        if not nodes:
            return None
        p, t, x = draw(st.sampled_from(nodes))
        if t["k"] == "seqof":
            action = draw(st.sampled_from(["replace", "replace", "append", "clear"]))
            if action == "replace" and not x:
                action = "append"
            y = None
            if action != "clear":
                y = gen.force_nonempty(draw, t["elem"]) if t["elem"]["k"] == "seq" and refper.all_comps(t["elem"]) else draw(gen.value(t["elem"], small=True))
            return ["at", p, action, draw(st.integers(0, len(x) - 1)) if action == "replace" else None, y]
        c = draw(st.sampled_from(refper.all_comps(t)))
        y = gen.force_nonempty(draw, c["t"]) if c["t"]["k"] == "seq" and refper.all_comps(c["t"]) else draw(gen.value(c["t"], small=True))
        return ["at", p, "set", c["n"], y]

    ops = []
    model = v
    kinds = ["at", "at", "at", "set", "set", "read", "str", "dict", "encode", "decode", "decode", "decode-self", "touch", "other", "fail"]
    for _ in range(draw(st.integers(2, 11))):
        k = draw(st.sampled_from(kinds))
        if k == "at":
            op = in_place(model)
            m2 = change(T, model, op) if op else None
            if m2 is not None:
                ops.append(op)
                model = m2
        elif k in ("set", "touch"):
            if T["k"] == "seqof":
                x = draw(gen.value(T["elem"], small=True))
                ops.append(["append", x] if k == "set" else ["touch", draw(st.integers(0, 3)), None, x])
            else:
                nv = named()
                if nv:
                    ops.append(["set", nv[0], nv[1]] if k == "set" else ["touch", draw(st.integers(0, 3)), nv[0], nv[1]])
        elif k == "read":
            names = [c["n"] for c in refper.all_comps(T)] if T["k"] == "seq" else []
            ops.append(["read", draw(st.sampled_from(["*"] + names))])
        elif k in ("decode", "decode-self"):
            ops.append([k, some()])
        elif k == "other":
            T2 = draw(gen.structured_type(1))
            ops.append(["other", T2, draw(gen.value(T2, small=True))])
        elif k == "fail":
            ops.append(["fail", draw(st.integers(0, 255))])
        else:
            ops.append([k])
    return {"T": T, "v": v, "ops": ops}


def units(tier):
    return [
        Unit("histories", check, strategy=histories(gen.structured_type(2)), quick=3000, thorough=80000),
        Unit("deep-histories", check, strategy=histories(gen.structured_type(3)), quick=600, thorough=16000),
        Unit("flat-histories", check, strategy=histories(gen.structured_type(1)), quick=3000, thorough=80000),
    ]
