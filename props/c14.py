"""C14 compiling a schema is a pure function of its text."""
import os
import shutil
import tempfile
from hypothesis import strategies as st
from lib import build, fresh, refper, schema
from lib.common import encode, hexs, short
from lib.common_schema import Violation, module_features, parse_asn1_schema
from lib.runner import HarnessError, Unit, ref

RULE = ("A case is a history of calls of parse_asn1_schema over a few generated modules that share type and constant names: valid texts, "
        "texts cut off in the middle, texts in which a definition is missing, calls that write to a folder, and execution and use of "
        "the generated code in between. Each result is compared with that of a process with another hash seed that has parsed nothing "
        "else. Non-trivial: at least two calls; distinct = distinct JSON of the case.")
ASSUMPTIONS = ["an error is compared by the fact that the schema is refused"]

_servers = []


def servers():
    if not _servers:
        _servers.extend([fresh.Server(1 + os.getpid() % 1000), fresh.Server(2001 + os.getpid() % 1000)])
    return _servers


_memo = {}


def reference(text):
    if text not in _memo:
        if len(_memo) > 3000:
            _memo.clear()
        a, b = [s.outcome(text) for s in servers()]
        if "died" in (a[0], b[0]):
            raise HarnessError("reference process died")
        if a != b:
            raise Violation("two fresh processes disagree: %s / %s\n%s" % (short(a), short(b), text))
        _memo[text] = a
    return _memo[text]


def text_of(case, op):
    mod = case["mods"][op[1]]
    if op[0] == "cut":
        toks = schema.module_tokens(mod)
        return " ".join(toks[:1 + op[2] % (len(toks) - 1)])
    if op[0] == "missing":
        a = list(mod["assigns"])
        del a[op[2] % len(a)]
        return schema.plain_text(dict(mod, assigns=a))
    return schema.plain_text(mod)


def check(case, ctx):
    servers()
    base = tempfile.mkdtemp(prefix="verif-c14-")
    try:
        run(case, ctx, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
        for x in dirs:
            out[os.path.relpath(os.path.join(root, x), d)] = None
    return out


def run(case, ctx, base):
    live = []
    folder = os.path.join(base, "out")
    os.mkdir(folder)
    with open(os.path.join(folder, "Other.py"), "w") as f:
        f.write("untouched\n")
    labels = set()
    for op in case["ops"]:
        text = text_of(case, op)
        kind, want = reference(text)
        labels.add(op[0])
        labels.add("expect:" + kind)
        if op[0] == "file" or op[-1] == "to-file":
            labels.add("to-file")
            before = snapshot(base)
            try:
                parse_asn1_schema(text, output_folder=folder)
                got = "ok"
            except Exception:
                got = "refused"
            if got != kind:
                raise Violation("writing to a folder: %s, a fresh process: %s\n%s" % (got, kind, text))
            expect = dict(before)
            if kind == "ok":
                expect["out/%s.py" % case["mods"][op[1]]["name"]] = want.encode()
            after = snapshot(base)
            if after != expect:
                d = sorted(n for n in set(after) | set(expect) if after.get(n, 0) != expect.get(n, 0))
                raise Violation("files %s in the output folder are not what the call should leave (%s)\n%s" % (d, kind, text))
            continue
        try:
            got, code = "ok", parse_asn1_schema(text)
        except Exception as e:
            got, code = "refused", repr(e)[:200]
        if got != kind:
            raise Violation("after %d other calls the schema is %s, in a fresh process %s (%s)\n%s" % (len(live), got, kind, short(code), text))
        if got == "ok" and code != want:
            a, b = want.splitlines(), code.splitlines()
            d = [(x, y) for x, y in zip(a, b) if x != y][:2] or [len(a), len(b)]
            raise Violation("after other calls the schema compiles to other code: %r\n%s" % (d, text))
        if op[0] == "use" and got == "ok":
            ns = schema.run_code(code)
            env_types = schema.types_of(case["mods"][op[1]])
            for n, t in env_types.items():
                T = schema.resolve(t, env_types)
                B = schema.built_of(T, ns[schema.pyname(n)])
                for v in case["vals"][op[1]].get(n, []):
                    try:
                        e = refper.encode(T, v)
                    except refper.Unsupported:
                        continue
                    live.append((B, v, e, text))
    for B, v, e, text in live:
        got = encode(build.inst(B, v))
        if got != e:
            raise Violation("classes generated earlier in the history encode %s to %s, expected %s\n%s" % (short(v), hexs(got), hexs(e), text))
    ctx.note(labels, nontrivial=len(case["ops"]) > 1)


@st.composite
def histories(draw, max_ops=6):
    mods, vals = [], []
    for i in range(draw(st.integers(1, 3))):
        c = draw(schema.module_with_values(per_type=1, max_types=3, depth=1))
        tn = [a["n"] for a in c["mod"]["assigns"] if a["a"] == "type"]
        vn = [a["n"] for a in c["mod"]["assigns"] if a["a"] == "value"]
        tmap = dict(zip(tn, draw(st.permutations(["Ta", "T-b", "Tc", "Td"]))))
        vmap = dict(zip(vn, ["kv%d" % j for j in range(len(vn))]))
        if draw(st.integers(0, 3)) == 0:
            tmap = {n: n for n in tn}
        mods.append(schema.rename(dict(c["mod"], name=draw(st.sampled_from(["M", "M", "N-o"]))), tmap, vmap))
        vals.append({tmap[n]: x for n, x in c["vals"].items()})
    ops = draw(st.lists(st.one_of(
        st.tuples(st.sampled_from(["parse", "use", "file"]), st.integers(0, len(mods) - 1)),
        st.tuples(st.sampled_from(["parse", "use"]), st.integers(0, len(mods) - 1)),
        st.tuples(st.sampled_from(["cut", "missing"]), st.integers(0, len(mods) - 1), st.integers(0, 200)),
        st.tuples(st.sampled_from(["cut", "missing"]), st.integers(0, len(mods) - 1), st.integers(0, 200), st.just("to-file")),
    ).map(list), min_size=2, max_size=max_ops))
    return {"mods": mods, "vals": vals, "ops": ops}


def leaks(tier):
    """Pairs of modules in which a definition of the first one would change the second if it leaked."""
    I = {"k": "int", "lb": None, "ub": None, "ext": False}
    R = lambda n: {"k": "ref", "n": n}
    K = lambda n, t, m="M", **k: dict({"n": n, "t": t, "m": m}, **k)
    E = lambda *n: {"k": "enum", "items": [[x, None] for x in n], "ext": False, "xitems": []}

    def S(*root):
        return {"k": "seq", "root": list(root), "ext": False, "adds": [], "groups": []}

    def T(n, t):
        return {"a": "type", "n": n, "t": t}

    def V(n, t, vk, v, **s):
        return {"a": "value", "n": n, "t": t, "vk": vk, "v": v, "s": s}

    def rng(lo, hi):
        return {"k": "int", "lb": lo, "ub": hi, "ext": False, "c": {"parts": [["range", lo, False, hi, False]], "ext": False, "or": "|"}}
    oct_ = {"k": "octs", "lb": None, "ub": None, "ext": False}
    ms = [
        [T("A", rng(0, 7)), T("S", S(K("a", R("A"))))],
        [T("A", rng(0, 255)), T("S", S(K("a", R("A"), "D", d=5, dk="int", ds={})))],
        [T("A", E("x", "y")), V("y", R("A"), "enum", "y"), T("S", S(K("a", R("A"), "D", d="y", dk="enum", ds={})))],
        [T("A", E("y", "z")), T("S", S(K("a", R("A"), "D", d="y", dk="enum", ds={})))],
        [T("B", I), V("y", R("B"), "int", 3), T("S", S(K("a", R("B"), "D", d=3, dk="int", ds={"ref": "y"})))],
        [T("B", I), V("y", I, "int", 4), T("S", S(K("a", R("B"), "D", d=4, dk="int", ds={"ref": "y"})))],
        [T("A", oct_), V("y", R("A"), "octs", "05"), T("S", S(K("a", R("A"), "D", d="05", dk="octs", ds={"ref": "y"})))],
        [T("A", {"k": "bits", "lb": None, "ub": None, "ext": False}), T("S", S(K("a", R("A"), "D", d="0101", dk="bits", ds={"form": "B"})))],
        [T("S", R("A")), T("A", S(K("s", I)))],
        [T("A", {"k": "seqof", "lb": None, "ub": None, "ext": False, "elem": R("S")}), T("S", {"k": "bool"})],
        [T("S", S(K("a", S(K("b", rng(0, 3))))))],
        [T("S", S(K("a", S(K("b", rng(0, 3)))))), T("T-x", S(K("a", S(K("b", rng(0, 3))))))],
    ]
    mods = [{"name": "M", "assigns": a} for a in ms]
    n = len(mods)
    for i in range(n):
        for j in range(n):
            yield {"mods": [mods[i], mods[j]], "vals": [{}, {}], "ops": [["parse", 0], ["use", 1], ["parse", 0]]}
            if tier == "thorough" or (i + j) % 3 == 0:
                yield {"mods": [mods[i], mods[j]], "vals": [{}, {}],
                       "ops": [["use", 0], ["missing", 1, 0], ["file", 0], ["missing", 1, 1, "to-file"], ["cut", 0, 9 + i], ["file", 1], ["parse", 1]]}


def units(tier):
    return [
        Unit("leaks", check, cases=leaks),
        Unit("histories", check, strategy=histories(), quick=240, thorough=12000),
        Unit("long-histories", check, strategy=histories(max_ops=25), quick=16, thorough=1200),
    ]
