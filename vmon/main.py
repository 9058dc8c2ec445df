import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vmon import core  # noqa: E402


def self_test():
    """Nothing to build; checks that the library, its dependencies and every check module can be loaded."""
    core.import_library()
    names = sorted(f[:-3] for f in os.listdir(os.path.join(os.path.dirname(__file__), "checks")) if f.startswith("c"))
    for n in names:
        m = importlib.import_module(f"vmon.checks.{n}")
        assert m.WORKLOADS and m.NEEDS and m.RULE, n
    print(f"{len(names)} check modules load")
    return 0


def run():
    if len(sys.argv) < 2:
        print("usage: check <property> [--thorough] [--seed N] [--jobs N] [--replay FILE]")
        return 2
    if sys.argv[1] == "--self-test":
        return self_test()
    prop = sys.argv[1]
    core.import_library()
    check = importlib.import_module(f"vmon.checks.{prop.lower()}")
    return core.main(prop, check, sys.argv[2:])


if __name__ == "__main__":
    sys.exit(run())
