#!/opt/venv/bin/python
"""python checks/run.py <property>     run one check (VERIF_TIER, VERIF_SEED)

exit 0: held on everything explored; exit 1 with VIOLATION line: broken;
exit 2: the machinery itself failed."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))


def main():
    pid = sys.argv[1]
    args = sys.argv[2:]
    if args and args[0] != "--shard":
        os.environ["VERIF_TIER"] = args.pop(0)
    try:
        import vlib
        return vlib.run_module(importlib.import_module(pid.lower()), pid, args)
    except Exception:
        traceback.print_exc()
        print("the check itself failed (no verdict)")
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
