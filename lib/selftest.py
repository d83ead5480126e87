"""setup_cmd: the environment imports, and the reference codec reproduces vectors
from the README and from X.691 that were computed by other people."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import env, refper  # noqa: E402,F401
from lib.cases import C, CHOICE, INT, SEQ  # noqa: E402


def vectors():
    u32 = INT(0, 4294967295)
    ts = SEQ([C("seconds", u32), C("useconds", u32)])
    port, sn = INT(10000, 65535), INT(0, 65535)
    start = SEQ([C("sequenceNumber", sn), C("timestamp", ts), C("srcPort", port), C("dstPort", port)])
    alive = SEQ([C("timestamp", ts)], True)
    payload = {"k": "seqof", "lb": 1, "ub": 5, "ext": False, "elem": {"k": "octs", "lb": 1, "ub": 4, "ext": False}}
    data = SEQ([C("sequenceNumber", sn),
                C("swRelease", {"k": "enum", "root": ["rel1", "rel2", "rel3"], "ext": True, "adds": []}),
                C("macroId", {"k": "bits", "lb": 20, "ub": 20, "ext": False}, "O"), C("payload", payload)])
    msg = CHOICE([C("start", start), C("stop", start), C("alive", alive), C("data", data)], True)
    t = {"seconds": 1557528149, "useconds": 12345}
    yield msg, ["alive", {"timestamp": t}], "4c5cd5fe55403039"
    yield msg, ["start", {"sequenceNumber": 10, "timestamp": t, "srcPort": 65533, "dstPort": 10000}], "00000ac05cd5fe55403039d8ed0000"
    yield msg, ["data", {"sequenceNumber": 55555, "swRelease": "rel2", "macroId": "11110000111100001111",
                         "payload": ["dead", "beef", "feed", "aa", "bbbbbbbb"]}], "70d90320f0f0f880dead40beef40feed00aac0bbbbbbbb"
    yield INT(None, None), 4096, "021000"                 # X.691 13.2.6 examples
    yield INT(None, None), -129, "02ff7f"
    yield INT(1, None), 257, "020100"
    yield INT(-1, 254), 0, "01"


def main():
    for T, v, want in vectors():
        got = refper.encode(T, v).hex()
        assert got == want, (T, v, got, want)
        assert refper.canon(T, refper.decode(T, bytes.fromhex(want))) == refper.canon(T, v)
    print("selftest ok")


if __name__ == "__main__":
    main()
