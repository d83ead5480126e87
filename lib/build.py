"""Type descriptions <-> asn1PERser classes, and plain values <-> instances.

Classes are built exactly in the shape of the code that the schema compiler
emits (and that the README documents)."""
from . import env, refper  # noqa: F401
from pyasn1.type.namedtype import NamedType, OptionalNamedType, DefaultedNamedType
from pyasn1.type.namedval import NamedValues
from asn1PERser.classes.data.builtin import (
    BooleanType, SequenceType, IntegerType, EnumeratedType, ChoiceType,
    SequenceOfType, BitStringType, OctetStringType)
from asn1PERser.classes.types.type import AdditiveNamedTypes
from asn1PERser.classes.types.constraint import (
    MIN, MAX, ExtensionMarker, SequenceOfValueSize, ValueRange, ValueSize)


class Built(object):
    """A type description with its generated class and the classes below it."""

    def __init__(self, T, cls, kids):
        self.T = T
        self.cls = cls
        self.kids = kids          # name -> Built  (or 'elem')


class NotAValue(Exception):
    """An object the library returned is not the value object it should be."""


def _range(T, klass):
    lb = MIN if T["lb"] is None else T["lb"]
    ub = MAX if T["ub"] is None else T["ub"]
    if T["ext"]:
        return klass(lb, ub, extensionMarker=True)
    return klass(lb, ub)


def make(T, name="T"):
    k = T["k"]
    if k == "bool":
        return Built(T, type(name, (BooleanType,), {}), {})
    if k in ("int", "bits", "octs"):
        base = {"int": IntegerType, "bits": BitStringType, "octs": OctetStringType}[k]
        d = {}
        if not (T["lb"] is None and T["ub"] is None and not T["ext"]):
            d["subtypeSpec"] = _range(T, ValueRange if k == "int" else ValueSize)
        return Built(T, type(name, (base,), d), {})
    if k == "enum":
        rn, an = refper.enum_numbers(T)
        root = NamedValues(*list(zip(T["root"], rn)))
        d = {"enumerationRoot": root, "namedValues": root}
        if T["ext"]:
            d["subtypeSpec"] = ExtensionMarker(True)
            if T["adds"]:
                adds = NamedValues(*list(zip(T["adds"], an)))
                d["extensionAddition"] = adds
                d["namedValues"] = root + adds
        return Built(T, type(name, (EnumeratedType,), d), {})
    if k == "seqof":
        elem = make(T["elem"], "E")
        d = {"componentType": elem.cls()}
        if not (T["lb"] is None and T["ub"] is None and not T["ext"]):
            d["subtypeSpec"] = _range(T, SequenceOfValueSize)
        return Built(T, type(name, (SequenceOfType,), d), {"elem": elem})
    if k in ("seq", "choice"):
        kids = {}

        def named(c):
            b = make(c["t"], c["n"])
            kids[c["n"]] = b
            m = c.get("m", "M")
            if m == "O":
                return OptionalNamedType(c["n"], b.cls())
            if m == "D":
                return DefaultedNamedType(c["n"], inst(b, c["d"]))
            return NamedType(c["n"], b.cls())

        d = {"rootComponent": AdditiveNamedTypes(*[named(c) for c in T["root"]])}
        comp = d["rootComponent"]
        if T["ext"]:
            d["subtypeSpec"] = ExtensionMarker(True)
            if T["adds"]:
                d["extensionAddition"] = AdditiveNamedTypes(*[named(c) for c in T["adds"]])
                comp = comp + d["extensionAddition"]
            if T["groups"]:
                d["extensionAdditionGroups"] = [AdditiveNamedTypes(*[named(c) for c in g]) for g in T["groups"]]
                comp = comp + d["extensionAdditionGroups"]
        d["componentType"] = comp
        return Built(T, type(name, (SequenceType if k == "seq" else ChoiceType,), d), kids)
    raise AssertionError(k)


def inst(B, v):
    """Value object for plain value v, the way the README builds them."""
    T, cls = B.T, B.cls
    k = T["k"]
    if k == "bool" or k == "int" or k == "enum":
        return cls(v)
    if k == "bits":
        return cls(binValue=v)
    if k == "octs":
        return cls(hexValue=v)
    if k == "seqof":
        o = cls()
        o.extend([inst(B.kids["elem"], x) for x in v])
        return o
    if k == "seq":
        o = cls()
        if not T["root"] and not T["adds"] and not T["groups"]:
            o.clear()             # pyasn1's way to give SEQUENCE {} its value
        for n, x in v.items():
            o[n] = inst(B.kids[n], x)
        return o
    if k == "choice":
        o = cls()
        o[v[0]] = inst(B.kids[v[0]], v[1])
        return o
    raise AssertionError(k)


def component(o, n):
    """Component object without creating it as a side effect (None if never set)."""
    return o.getComponentByName(n, default=None, instantiate=False)


def extract(B, o):
    """Plain value of a library object; raises NotAValue if it is not a value of B."""
    T = B.T
    k = T["k"]
    if not isinstance(o, B.cls):
        raise NotAValue("expected an instance of %s, got %s %r" % (B.cls.__name__, type(o).__name__, o))
    if k == "seq":
        out = {}
        comps = [(c, c["m"]) for c in T["root"]] + \
                [(c, "D" if c["m"] == "D" else "O") for c in T["adds"]] + \
                [(c, "D" if c["m"] == "D" else "O") for g in T["groups"] for c in g]
        for c, m in comps:
            x = component(o, c["n"])
            kid = B.kids[c["n"]]
            if x is None or not x.isValue:
                if m == "D":
                    out[c["n"]] = c["d"]
                elif m == "M" and kid.T["k"] == "seq":
                    # an empty SEQUENCE object is a value
                    if x is None:
                        raise NotAValue("mandatory component %s missing" % c["n"])
                    out[c["n"]] = extract(kid, x)
                elif m == "M":
                    raise NotAValue("mandatory component %s missing" % c["n"])
                continue
            if m == "O" and kid.T["k"] == "seq" and len(x) == 0 and len(x.componentType):
                continue            # untouched container = absent
            out[c["n"]] = extract(kid, x)
        return out
    if not o.isValue:
        raise NotAValue("%s object without a value" % B.cls.__name__)
    if k == "bool":
        return bool(o)
    if k == "int":
        return int(o)
    if k == "enum":
        return str(o)
    if k == "bits":
        return "".join(str(int(b)) for b in o)
    if k == "octs":
        return bytes(o).hex()
    if k == "seqof":
        return [extract(B.kids["elem"], o[i]) for i in range(len(o))]
    if k == "choice":
        n = o.getName()
        return [n, extract(B.kids[n], o.getComponent())]
    raise AssertionError(k)
