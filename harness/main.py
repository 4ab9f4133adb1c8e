import importlib
import sys
import traceback
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "checks"))


def main():
    pid = sys.argv[1]
    import pbt
    try:
        import seyfert
        if not seyfert.__file__.startswith("/repo/"):
            raise pbt.HarnessError(f"seyfert imported from {seyfert.__file__}")
        mod = importlib.import_module(pid.lower())
        runner = pbt.Runner(mod.CHECK)
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            return runner.replay(sys.argv[3])
        return runner.run()
    except Exception:
        traceback.print_exc(file=sys.stdout)
        print(f"CHECK-ERROR property={pid}")
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
