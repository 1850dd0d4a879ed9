import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mc  # noqa: E402  (first: owns random draws and the import path)
from mc import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--procs", type=int)
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    try:
        mod = importlib.import_module("checks." + a.id.lower())
    except Exception as e:
        # The check's own imports are bartpy's public modules: if one cannot be imported, nothing holds.
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(mc.REPO + "/") for f in tb) or (isinstance(e, ImportError) and "bartpy" in str(e)):
            reason, text = str(e), traceback.format_exc()[-2000:]

            class Broken:
                @staticmethod
                def items(t):
                    return [None]

                @staticmethod
                def bounds(t):
                    return "import only"

                @staticmethod
                def run(item):
                    raise core.Violation("bartpy cannot be imported: %s" % reason, traceback=text)
            mod = Broken
        else:
            raise
    return core.main(mod, a.id, tier, a.replay, a.procs)


if __name__ == "__main__":
    sys.exit(main())
