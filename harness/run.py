"""Entry point: run.py <property> quick|thorough, or run.py <property> replay <file>."""

import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402


def main():
    prop, mode = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    import pterasoftware  # noqa: F401

    origin = os.path.realpath(os.path.dirname(pterasoftware.__file__))
    if origin != os.path.join(core.REPO, "pterasoftware"):
        print("imported pterasoftware from", origin, file=sys.stderr)
        return 3
    core.ensure_hypothesis()
    module = importlib.import_module("props." + prop.lower())
    warm = getattr(module, "WARM", ())
    import build

    try:
        build.warm(warm)
    except Exception:
        # The campaign reports what fails.
        if os.environ.get("PTERA_VERBOSE"):
            traceback.print_exc()
    if mode == "replay":
        return core.replay(prop, sys.argv[3])
    return core.run_property(prop, mode, seed)


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        # An import error of the code under test, or a broken harness.
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    os._exit(code)
