"""Recognizer for the syntax of ASN.1 modules (X.680), written from the standard.

valid(tokens) is False only when the tokens are no module in the syntax of
X.680: whatever is doubtful or outside the subset the project generates is
accepted, so that "not valid" can be relied on."""
import re

NUM = re.compile(r"-?[0-9]+$")     # leading zeros are tolerated
ID = re.compile(r"[a-z](-?[A-Za-z0-9])*$")
TYPEREF = re.compile(r"[A-Z](-?[A-Za-z0-9])*$")
BSTR = re.compile(r"'[01\s]*'B$")
HSTR = re.compile(r"'[0-9A-F\s]*'H$")
RESERVED = set("""ABSENT ENCODED INTEGER RELATIVE-OID ABSTRACT-SYNTAX END INTERSECTION SEQUENCE ALL ENUMERATED ISO646String SET APPLICATION
EXCEPT MAX SIZE AUTOMATIC EXPLICIT MIN STRING BEGIN EXPORTS MINUS-INFINITY SYNTAX BIT EXTENSIBILITY NULL T61String BMPString EXTERNAL
NumericString TAGS BOOLEAN FALSE OBJECT TeletexString BY FROM ObjectDescriptor TRUE CHARACTER GeneralizedTime OCTET TYPE-IDENTIFIER CHOICE
GeneralString OF UNION CLASS GraphicString OPTIONAL UNIQUE COMPONENT IA5String PATTERN UNIVERSAL COMPONENTS IDENTIFIER PDV UniversalString
CONSTRAINED IMPLICIT PLUS-INFINITY UTCTime CONTAINING IMPLIED PRESENT UTF8String DEFAULT IMPORTS PrintableString VideotexString DEFINITIONS
INCLUDES PRIVATE VisibleString EMBEDDED INSTANCE REAL WITH DATE TIME""".split())


class Bad(Exception):
    pass


class Parser(object):
    def __init__(self, toks):
        self.t, self.i = list(toks), 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.peek()
        if x is None:
            raise Bad("end")
        self.i += 1
        return x

    def want(self, *xs):
        for x in xs:
            if self.next() != x:
                raise Bad(x)

    def take(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    # lexical classes
    def is_id(self, x):
        return x is not None and bool(ID.match(x))

    def is_ref(self, x):
        return x is not None and bool(TYPEREF.match(x)) and x not in RESERVED

    def ident(self):
        x = self.next()
        if not self.is_id(x):
            raise Bad("identifier")

    def number(self):
        self.take("-")
        x = self.next()
        if not NUM.match(x):
            raise Bad("number")

    def module(self):
        x = self.next()
        if x in RESERVED:
            raise Doubt()         # a reserved word as a name is tolerated
        if not self.is_ref(x):
            raise Bad("module name")
        self.want("DEFINITIONS")
        if self.peek() in ("AUTOMATIC", "EXPLICIT", "IMPLICIT"):
            self.next()
            self.want("TAGS")
        self.want("::=", "BEGIN")
        if self.peek() in ("IMPORTS", "EXPORTS"):
            raise Doubt()
        while self.peek() != "END" or self.peek(1) == "::=":
            self.assignment()
        self.want("END")
        if self.peek() is not None:
            raise Bad("after END")

    def assignment(self):
        x = self.next()
        if x in RESERVED and self.peek() == "::=":
            raise Doubt()
        if self.is_ref(x):
            if self.peek() == "{":
                raise Doubt()
            if self.peek() != "::=":          # T Type ::= { value set }
                self.type()
                self.want("::=")
                if self.peek() == "{":
                    raise Doubt()
                raise Bad("value of an upper case name")
            self.want("::=")
            self.type()
        elif self.is_id(x):
            self.type()
            self.want("::=")
            self.value()
        else:
            raise Bad("assignment")

    def value(self):
        x = self.peek()
        if x == "{":
            raise Doubt()
        if x == "-":
            self.number()
            return
        self.next()
        if x is None or not (NUM.match(x) or ID.match(x) or BSTR.match(x) or HSTR.match(x) or x in ("TRUE", "FALSE", "NULL") or x.startswith('"')):
            raise Bad("value")
        if ID.match(x) and self.peek() == ":":
            raise Doubt()
        if ID.match(x) and self.peek() == "{":
            raise Doubt()

    def type(self):
        x = self.next()
        if x == "[":
            raise Doubt()
        if x == "BOOLEAN":
            pass
        elif x == "INTEGER":
            if self.take("{"):
                self.named(True)
        elif x == "BIT":
            self.want("STRING")
            if self.take("{"):
                self.named(False)
        elif x == "OCTET":
            self.want("STRING")
        elif x == "ENUMERATED":
            self.want("{")
            self.enum()
        elif x in ("SEQUENCE", "SET"):
            if self.take("{"):
                self.components(True)
            else:
                if self.take("SIZE"):
                    self.parens()
                elif self.peek() == "(":
                    self.constraint()
                self.want("OF")
                if self.is_id(self.peek()):
                    self.next()             # SEQUENCE OF identifier Type
                self.type()
                return
        elif x == "CHOICE":
            self.want("{")
            self.components(False)
        elif self.is_ref(x):
            if self.peek() in (".", "{"):
                raise Doubt()
        elif x in RESERVED:
            raise Doubt()
        else:
            raise Bad("type")
        while self.peek() == "(":
            self.constraint()

    def parens(self):
        self.want("(")
        d = 1
        while d:
            x = self.next()
            d += (x == "(") - (x == ")")

    def named(self, neg):
        while True:
            self.ident()
            self.want("(")
            if self.is_id(self.peek()):
                self.next()
            else:
                self.number()
            self.want(")")
            if self.take("}"):
                return
            self.want(",")

    def enum(self):
        self.enum_items()
        if self.take(","):
            self.want("...")
            self.exception()
            if self.take(","):
                self.enum_items()
        self.want("}")

    def enum_items(self):
        while True:
            self.ident()
            if self.take("("):
                if self.is_id(self.peek()):
                    self.next()
                else:
                    self.number()
                self.want(")")
            if self.peek() == "," and self.peek(1) != "...":
                self.next()
                continue
            return

    def exception(self):
        if self.take("!"):
            x = self.peek()
            if x == "-" or x is not None and NUM.match(x) or self.is_id(x):
                if self.is_id(x):
                    self.next()
                else:
                    self.number()
            else:
                self.type()
                self.want(":")
                self.value()

    def component(self, seq):
        if seq and self.peek() == "COMPONENTS":
            raise Doubt()
        self.ident()
        self.type()
        if seq:
            if not self.take("OPTIONAL") and self.take("DEFAULT"):
                self.value()

    def components(self, seq):
        """The list after { up to }: parts separated by commas, at most two markers, groups only after the first."""
        if self.take("}"):
            if not seq:
                raise Bad("empty CHOICE")
            return
        markers = 0
        first = True
        while True:
            if self.take("..."):
                markers += 1
                if markers > 2:
                    raise Bad("markers")
                if markers == 1:
                    self.exception()
                if first and not seq:
                    raise Bad("CHOICE without a root")
            elif self.take("[["):
                if markers != 1:
                    raise Bad("group")
                if self.peek() is not None and re.match(r"[0-9]+$", self.peek()):
                    self.next()
                    self.want(":")
                while True:
                    self.component(seq)
                    if self.take("]]"):
                        break
                    self.want(",")
            else:
                if markers == 2 and not seq:
                    raise Bad("alternative after the second marker")
                self.component(seq)
            first = False
            if self.take("}"):
                return
            self.want(",")

    def constraint(self):
        self.want("(")
        self.element_sets()
        self.exception()
        self.want(")")

    def element_sets(self):
        self.union()
        if self.take(","):
            self.want("...")
            if self.take(","):
                self.union()

    def union(self):
        self.element()
        while self.peek() in ("|", "UNION", "^", "INTERSECTION", "EXCEPT"):
            self.next()
            self.element()

    def element(self):
        if self.take("ALL"):
            self.want("EXCEPT")
            self.element()
            return
        if self.take("("):
            self.element_sets()
            self.want(")")
            return
        if self.take("SIZE"):
            self.constraint()
            return
        if self.peek() in ("FROM", "WITH", "PATTERN", "INCLUDES", "CONTAINING", "ENCODED", "CONSTRAINED"):
            raise Doubt()
        lo = self.endpoint("MIN")
        rng = self.take("<")
        if rng or self.peek() == "..":
            self.want("..")
            self.take("<")
            self.endpoint("MAX")
        elif lo:
            raise Bad("MIN alone")

    def endpoint(self, which):
        if self.take(which):
            return True
        if self.peek() in RESERVED and self.peek() not in ("TRUE", "FALSE", "NULL", "MIN", "MAX") or self.is_ref(self.peek()):
            raise Doubt()             # a contained subtype
        self.value()
        return False


class Doubt(Exception):
    pass


def invalid(tokens):
    """Why the tokens are no ASN.1 module, or None when they may be one."""
    p = Parser(tokens)
    try:
        p.module()
        return None
    except Doubt:
        return None
    except Bad as e:
        return "%s expected at token %d" % (e, p.i)
