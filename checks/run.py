"""entry point of every check: python3 checks/run.py <property>"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    prop = sys.argv[1]
    try:
        rc = importlib.import_module(prop.lower()).main()
    except Exception:
        traceback.print_exc()
        print(f"ERROR: the check of {prop} could not be completed", flush=True)
        rc = 2
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
