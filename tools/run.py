"""python3-vt tools/run.py <property>: runs the check of one property"""
import sys, traceback
import vf


def main():
    pid = sys.argv[1]
    import importlib
    for m in ("checks_stream", "checks_fault", "checks_unit", "checks_sched", "checks_api", "checks_binding", "checks_scarce"):
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name == m:
                continue
            raise
        f = getattr(mod, pid.lower(), None)
        if f:
            return f()
    print("no check for", pid)
    return 2


if __name__ == "__main__":
    try:
        rc = main()
    except vf.MachineryError as e:
        print("CHECK ERROR:", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
