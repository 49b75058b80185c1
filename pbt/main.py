import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path[0] = os.path.dirname(here)
from pbt import core

# The code under test comes first, and the tools last: rich has to be the
# version the repository is tested with.
sys.path.insert(0, core.REPO_SRC)
if core.TOOLS not in sys.path:
    sys.path.append(core.TOOLS)

GROUPS = {
    "search": range(1, 6),
    "diff": range(6, 13),
    "merge": range(13, 18),
    "tools": (*range(18, 22), 29),
    "store": range(22, 27),
    "general": range(27, 29),
    "together": (30,),
}


def load(id):
    import importlib

    for group, numbers in GROUPS.items():
        if int(id[1:]) in numbers:
            importlib.import_module(f"pbt.props.{group}")
            return
    raise SystemExit(f"unknown property {id}")


if __name__ == "__main__":
    id = sys.argv[1]
    sys.stdout.reconfigure(errors="backslashreplace")
    if id == "--self-test":
        # Can all checks be loaded, and can Hypothesis be used?
        import hypothesis

        for group, numbers in GROUPS.items():
            load(f"C{numbers[0]:02}")
        assert len(core.PROPERTIES) == 30, sorted(core.PROPERTIES)
        print(f"{len(core.PROPERTIES)} checks, Hypothesis {hypothesis.__version__}")
        sys.exit(0)
    try:
        load(id)
    except SystemExit:
        raise
    except BaseException as e:
        import traceback

        traceback.print_exc()
        print(f"ERROR: can't load the check: {e!r}")
        sys.exit(2)
    if sys.argv[2:3] == ["--replay"]:
        sys.exit(core.replay(core.PROPERTIES[id], sys.argv[3]))
    seed = os.environ.get("VERIF_SEED", "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    sys.exit(core.main(id, tier if tier == "thorough" else "quick", int(seed) if seed.isdigit() else 1))
