"""Shared pieces of the schema compiler checks."""
from . import build, gen, refper, schema
from .common import decode, encode, hexs, short
from .runner import Discard, Violation, ref
from asn1PERser import parse_asn1_schema


def compiled(text):
    """Python code and namespace for a schema that must compile."""
    try:
        code = parse_asn1_schema(text)
    except Exception as e:
        raise Violation("a valid schema is refused: %s: %s\n%s" % (type(e).__name__, str(e)[:200], text))
    try:
        return code, schema.run_code(code)
    except Exception as e:
        raise Violation("the generated code does not run: %s: %s\n%s" % (type(e).__name__, str(e)[:200], text))


def class_of(ns, name, text=""):
    cls = ns.get(schema.pyname(name))
    if not isinstance(cls, type):
        raise Violation("no class %s in the generated code\n%s" % (schema.pyname(name), text))
    return cls


def built_types(mod, ns, text=""):
    """name -> Built for every type assignment."""
    env_types = schema.types_of(mod)
    out = {}
    for n, t in env_types.items():
        T = ref(schema.resolve, t, env_types)
        cls = class_of(ns, n, text)
        try:
            out[n] = schema.built_of(T, cls)
        except Exception as e:
            raise Violation("type %s has the wrong structure: %s: %s\n%s" % (n, type(e).__name__, str(e)[:200], text))
    return out


def enc_ref(T, v):
    try:
        return refper.encode(T, v)
    except refper.Unsupported:
        raise Discard()


def same_octets(B, v, text, what):
    """The generated class encodes v as X.691 says and decodes the octets to v; False when out of the codec's reach."""
    try:
        want = ref(enc_ref, B.T, v)
    except Discard:
        return False
    try:
        got = encode(build.inst(B, v))
    except Exception as e:
        raise Violation("%s: value %s cannot be encoded: %s: %s\n%s" % (what, short(v), type(e).__name__, str(e)[:200], text))
    if got != want:
        raise Violation("%s: value %s encodes to %s, the schema says %s\n%s" % (what, short(v), hexs(got), hexs(want), text))
    try:
        x = refper.canon(B.T, build.extract(B, decode(want, B.cls())))
    except Exception as e:
        raise Violation("%s: octets %s of %s cannot be decoded: %s: %s\n%s" % (what, hexs(want), short(v), type(e).__name__, str(e)[:200], text))
    y = ref(refper.canon, B.T, v)
    if x != y:
        raise Violation("%s: octets %s decode to %s, the schema says %s\n%s" % (what, hexs(want), short(x), short(y), text))
    return True


def features(t, out):
    """Names of the notation a TYPE uses (for the evidence)."""
    k = t["k"]
    out.add(k)
    c = t.get("c")
    if c:
        out.add("constraint:" + ("size" if k != "int" else "value"))
        if c.get("hole"):
            out.add("constraint:gap")
        if len(c["parts"]) > 1:
            out.add("constraint:union")
        if c["ext"]:
            out.add("constraint:extensible")
        for p in c["parts"]:
            if any(isinstance(x, str) and x not in ("MIN", "MAX") for x in p[1:]):
                out.add("constraint:by-reference")
            if len(p) > 2 and (p[2] or p[4]):
                out.add("constraint:open-endpoint")
            if "MIN" in p[1:] or "MAX" in p[1:]:
                out.add("constraint:MIN/MAX")
    if k == "enum":
        if any(n is not None for _, n in t["items"] + t["xitems"]):
            out.add("enum:numbers")
        if t["xitems"]:
            out.add("enum:additions")
    if k == "seqof":
        out.add("seqof:of-" + t["elem"]["k"])
        features(t["elem"], out)
    if k in ("seq", "choice"):
        if t["ext"]:
            out.add(k + ":extensible")
        if t["groups"]:
            out.add(k + ":groups")
        if t["adds"]:
            out.add(k + ":additions")
        if t.get("second"):
            out.add("seq:second-root")
        for c in refper.all_comps(t):
            if c["m"] != "M":
                out.add("component:" + ("OPTIONAL" if c["m"] == "O" else "DEFAULT"))
            if c.get("ds", {}).get("ref"):
                out.add("DEFAULT:by-reference")
            if c["t"]["k"] not in ("ref",):
                out.add("nested:" + c["t"]["k"])
            features(c["t"], out)
    return out


def module_features(mod):
    out = set()
    for a in mod["assigns"]:
        if a["a"] == "value":
            out.add("value:" + a["vk"])
        features(a["t"], out)
    return out
