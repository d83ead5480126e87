import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import runner  # noqa: E402


def main(argv):
    prop = argv[0]
    mod = importlib.import_module("props." + prop.lower())
    if len(argv) > 2 and argv[1] == "--replay":
        return runner.replay(prop, mod, argv[2])
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1 and argv[1] in ("quick", "thorough"):
        tier = argv[1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    return runner.run(prop, mod, tier, seed)


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except runner.HarnessError as e:
        sys.stderr.write("harness error: %s\n" % e)
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
