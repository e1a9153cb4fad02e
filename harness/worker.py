"""worker.py DRIVER IN OUT: replays cases (JSON lines [index, case]) into the
code under test and writes one JSON result line per case.

A driver is a module harness/drv_*.py with run(case) returning a list of
mismatches (dicts with at least "msg").  Whatever the code under test raises
where the specification gives a value is a mismatch too.  HarnessError is a
fault of the harness itself (exit status 3)."""
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


sys.modules["worker"] = sys.modules[__name__]


class HarnessError(Exception):
    pass


def main():
    driver, inp, outp = sys.argv[1:4]
    lines = [json.loads(l) for l in open(inp)]
    out = open(outp, "a")

    def put(r):
        out.write(json.dumps(r, default=str) + "\n")
        out.flush()
    try:
        mod = importlib.import_module(driver)
    except HarnessError:
        traceback.print_exc()
        sys.exit(3)
    except BaseException:
        tb = traceback.format_exc()
        if "/repo/zhusuan" not in tb and "zsenv" not in tb and "zhusuan" not in tb:
            print(tb)
            sys.exit(3)
        for i, c in lines:
            put({"i": i, "bad": [{"msg": "importing the code under test fails: " + tb[-1500:]}]})
        return
    for i, c in lines:
        n, cnt = 1, {}
        try:
            r = mod.run(c)
            if isinstance(r, dict):
                n, cnt, r = r.get("n", 1), r.get("count", {}), r.get("bad", [])
        except HarnessError:
            traceback.print_exc()
            sys.exit(3)
        except BaseException:
            r = [{"msg": "unexpected exception: " + traceback.format_exc()[-2500:]}]
        put({"i": i, "n": n, "count": cnt, "bad": r or []})


if __name__ == "__main__":
    main()
