"""python3-vt check.py ID [--tier quick|thorough] [--budget SECONDS]

Decides one property of /repo's working tree; see DESIGN.md."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)

import argparse

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--budget", type=float, default=None)
    a = p.parse_args()
    budget = a.budget or (420 if a.tier == "quick" else 3000)
    from symx import runner

    return runner.main(a.property, "checks.%s" % a.property.lower(), a.tier, budget)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
