"""Shared pieces of the codec checks."""
import os
from . import env, build, cases, gen, refper  # noqa: F401
from .runner import Discard, Violation, ref
from asn1PERser import encode, decode

_cache = {}


def built(T, off=None):
    """Built class for T (or for T wrapped at a bit offset), cached by identity."""
    key = (id(T), off)
    hit = _cache.get(key)
    if hit is not None and hit[0] is T:
        return hit[1]
    if len(_cache) > 64:
        _cache.clear()
    if off is None:
        B = build.make(T)
    else:
        WT, _ = cases.wrap(T, None, off)
        B = build.make(WT)
    _cache[key] = (T, B)
    return B


def unpack(case):
    """-> (Built, T, v) with the wrapper applied."""
    T, v, off = case["T"], case["v"], case.get("off")
    B = built(T, off)
    if off is not None:
        WT, v = cases.wrap(T, v, off)
        return B, B.T, v
    return B, T, v


def ref_encode(T, v, **k):
    try:
        return refper.encode(T, v, **k)
    except refper.Unsupported:
        raise Discard()


def hexs(b):
    h = bytes(b).hex()
    return h if len(h) <= 120 else h[:100] + "...(%d octets)" % len(b)


def short(v):
    s = repr(v)
    return s if len(s) < 300 else s[:300] + "..."


def grid(pairs):
    """Sweep: every pair, alternately bare and at a cycling bit offset (both
    ways and at a second offset in the thorough tier)."""
    def cases_of(tier):
        for i, (T, v) in enumerate(pairs(tier)):
            if i % 2 == 0 or tier == "thorough":
                yield {"T": T, "v": v}
            if i % 2 or tier == "thorough":
                yield {"T": T, "v": v, "off": (i // 2) % 8}
            if tier == "thorough":
                yield {"T": T, "v": v, "off": (i // 8 + 3) % 8}
    return cases_of


def offset_sweep(pairs, every):
    """Every `every`-th pair at all 8 offsets."""
    def cases_of(tier):
        for i, (T, v) in enumerate(pairs(tier)):
            if i % every == 0:
                for off in range(8):
                    yield {"T": T, "v": v, "off": off}
    return cases_of


def note(ctx, T, v, enc=None):
    if ctx.cur is not None:
        labels = gen.features(T, v)
        ctx.note(labels)


def thin(pairs, every):
    """Every `every`-th pair, the phase chosen by the seed (all in thorough)."""
    def sub(tier):
        ph = int(os.environ.get("VERIF_SEED", "1") or 1) % every
        for i, p in enumerate(pairs(tier)):
            if tier == "thorough" or i % every == ph:
                yield p
    return sub
