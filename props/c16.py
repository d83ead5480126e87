"""C16 logging is transparent."""
import logging
from hypothesis import strategies as st
from lib import cases, gen, build, paths, refper
from lib.common import encode, decode, built, hexs, note, short, thin, unpack, ref_encode, Violation, Discard
from lib.runner import Unit, ref
from props import c05, c06, c07
from asn1PERser.logging_setup import asn1perser_logging_setup

RULE = ("A case is a generated type with a value, or with damaged octets, run with the library's logging off and then configured at DEBUG/INFO with a handler "
        "that formats every record. Non-trivial: at least one record was formatted; distinct = distinct JSON of the case.")
ASSUMPTIONS = ["handlers attached through asn1perser_logging_setup or to the 'asn1perser' logger"]


class Sink(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.n = 0
        self.bad = None

    def emit(self, record):
        self.n += 1
        try:
            self.format(record)
        except Exception as e:
            self.bad = self.bad or "%s:%s %r: %r" % (record.filename, record.lineno, record.msg, e)


def loggers():
    return [logging.getLogger("asn1perser")]


def outcome(f):
    try:
        return "value", f()
    except Exception as e:
        return "raised", type(e).__name__


def with_level(level, f):
    root = logging.getLogger("asn1perser")
    old_handlers, old_level, old_disable = root.handlers[:], root.level, logging.root.manager.disable
    sink = Sink()
    try:
        root.handlers = []
        if level is None:
            logging.disable(logging.CRITICAL)
        else:
            asn1perser_logging_setup(handler=sink, level=level)
        return outcome(f), sink
    finally:
        root.handlers = old_handlers
        root.setLevel(old_level)
        logging.disable(old_disable)


def compare(f, what, ctx):
    quiet, _ = with_level(None, f)
    total = 0
    for level in (logging.DEBUG, logging.INFO, logging.WARNING):
        loud, sink = with_level(level, f)
        if loud != quiet:
            raise Violation("%s with logging at %s: %s, without: %s" % (what, logging.getLevelName(level), short(loud), short(quiet)))
        if sink.bad:
            raise Violation("%s: a log record cannot be formatted: %s" % (what, sink.bad))
        total += sink.n
    return quiet, total


def check_value(case, ctx):
    B, T, v = unpack(case)
    data = ref_encode(T, v)
    r, n1 = compare(lambda: encode(build.inst(B, v)), "encode", ctx)
    if r != ("value", data):
        raise Violation("encode: %s, expected %s" % (short(r), hexs(data)))
    r, n2 = compare(lambda: refper.canon(T, build.extract(B, decode(data, B.cls()))), "decode", ctx)
    if r != ("value", refper.canon(T, v)):
        raise Violation("decode: %s, expected %s" % (short(r), short(v)))
    ctx.note(["value"], nontrivial=n1 + n2 > 0)


def check_damaged(case, ctx):
    T = case["T"]
    B = built(T)
    data = bytes.fromhex(case["data"])
    r, n = compare(lambda: refper.canon(T, build.extract(B, decode(data, B.cls()))), "decode", ctx)
    ctx.note(["damaged:" + r[0]], nontrivial=n > 0)


def check_versions(case, ctx):
    """Octets of a newer version of the type, read with the older one (additions it does not know are skipped) and the other way round."""
    To, Tn, v = case["old"], case["new"], case["v"]
    try:
        vo = c06.project(To, Tn, v)
        bn, bo = refper.encode(Tn, v), refper.encode(To, vo)
    except (c06.Unknown, refper.Unsupported, ValueError):
        raise Discard()
    Bo, Bn = build.make(To), build.make(Tn)
    r, n1 = compare(lambda: refper.canon(To, build.extract(Bo, decode(bn, Bo.cls()))), "decode with the older type", ctx)
    if r != ("value", refper.canon(To, vo)):
        raise Violation("decode with the older type: %s, expected %s" % (short(r), short(vo)))
    r, n2 = compare(lambda: refper.canon(Tn, build.extract(Bn, decode(bo, Bn.cls()))), "decode with the newer type", ctx)
    if r != ("value", refper.canon(Tn, vo)):
        raise Violation("decode with the newer type: %s, expected %s" % (short(r), short(vo)))
    ctx.note(["versions"], nontrivial=n1 + n2 > 0)


def check_refused(case, ctx):
    """A value that cannot be sent is refused all the same, whatever the logging."""
    T, v = case["T"], case["v"]
    B = built(T)

    def send():
        return encode(build.inst(B, paths.replace_value(T, v, case["path"], case["bad"])))
    r, n = compare(send, "encode", ctx)
    ctx.note(["send:" + r[0]], nontrivial=n > 0 or r[0] == "raised")


def check_setup(case, ctx):
    """A history of asn1perser_logging_setup calls: after each the level is the one given, the handler is attached, has a
    formatter (its own if it had one) and gets the records, as do handlers attached before."""
    root = logging.getLogger("asn1perser")
    old = root.handlers[:], root.level, root.propagate
    try:
        root.handlers = []
        attached = []
        for level, own, how in case["calls"]:
            sink = Sink()
            fmt = logging.Formatter("%(message)s") if own else None
            if fmt:
                sink.setFormatter(fmt)
            if how == 0:
                asn1perser_logging_setup(handler=sink, level=level)
            elif how == 1:
                asn1perser_logging_setup(sink, level)
            else:
                level = logging.INFO
                asn1perser_logging_setup(handler=sink)
            attached.append(sink)
            ctx.note(["setup"], nontrivial=True)
            if root.level != level:
                raise Violation("the level given is %s, the level in force %s" % (level, root.level))
            if fmt and sink.formatter is not fmt:
                raise Violation("the handler's own formatter was replaced")
            if not sink.formatter:
                raise Violation("the handler has no formatter")
            for s in attached:
                s.n = 0
            decode(encode(build_sample()), type(build_sample())())
            for s in attached:
                if (s.n > 0) != (level <= logging.INFO) or s.n != sink.n:
                    raise Violation("at level %s handlers got %s records" % (level, [x.n for x in attached]))
                if s.bad:
                    raise Violation("a log record cannot be formatted: " + s.bad)
    finally:
        root.handlers, root.propagate = old[0], old[2]
        root.setLevel(old[1])


def build_sample():
    B = built({"k": "int", "lb": 0, "ub": 300, "ext": False})
    return build.inst(B, 7)


def setups():
    lv = st.sampled_from([logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL, 5, 15, 25])
    return st.fixed_dictionaries({"calls": st.lists(st.tuples(lv, st.booleans(), st.integers(0, 2)).map(list), min_size=1, max_size=5)})


def cases_of(tier):
    for i, (T, v) in enumerate(thin(cases.scalars, 43)(tier)):
        yield {"T": T, "v": v, "off": i % 8}
    for i, (T, v) in enumerate(thin(cases.structures, 29)(tier)):
        yield {"T": T, "v": v}


def units(tier):
    return [
        Unit("setup", check_setup, strategy=setups(), quick=300, thorough=5000),
        Unit("grid", check_value, cases=cases_of),
        Unit("nested", check_value, strategy=gen.typed_value(gen.structured_type(2)), quick=1000, thorough=30000),
        Unit("version-grid", check_versions, cases=thin(c06.grid, 11)),
        Unit("versions", check_versions, strategy=c06.versions(c06.around(1)), quick=500, thorough=15000),
        Unit("refused", check_refused, strategy=c05.send_cases(gen.structured_type(2)), quick=500, thorough=15000),
        Unit("damaged", check_damaged, strategy=c07.damaged(gen.structured_type(2)), quick=1000, thorough=30000),
    ]
