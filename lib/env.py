"""Locates the code under test (always /repo's working tree) and the PBT library.

The asn1PERser package is imported from /repo (override only for scratch
experiments: VERIF_REPO).  Byte code caches of /repo are ignored, so what runs
is always the current source text.
"""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)          # at the END: /opt/venv's pyasn1/pyparsing win
if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)

_old = sys.pycache_prefix
sys.pycache_prefix = "/nonexistent-pycache"
try:
    import asn1PERser
    import asn1PERser.codec.per.encoder
    import asn1PERser.codec.per.decoder
    import asn1PERser.classes.data.builtin
    import asn1PERser.classes.module
    import asn1PERser.classes.types.constraint
    import asn1PERser.classes.types.type
    import asn1PERser.asn_definitions.module_def
finally:
    sys.pycache_prefix = _old

if not os.path.abspath(asn1PERser.__file__).startswith(os.path.abspath(REPO) + os.sep):
    sys.stderr.write("asn1PERser was imported from %s, not from %s\n" % (asn1PERser.__file__, REPO))
    sys.exit(2)

import hypothesis  # noqa: E402,F401
