"""One worker process: executes plans in order, one JSON line per task."""

import faulthandler
import json
import os
import sys


def main():
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    sys.stdout = sys.stderr
    faulthandler.enable()
    from . import boot

    boot.boot()
    from . import core, lib

    lib.load()
    print(json.dumps({"ready": True}), file=out)
    for line in sys.stdin:
        t = json.loads(line)
        if t["cmd"] == "quit":
            break
        try:
            if t["cmd"] == "batch":
                for i in t["indices"]:
                    plan = core.generate(t["pid"], t["seed"], i, t["tier"])
                    r = core.execute(t["pid"], plan, fresh=t.get("fresh", False))
                    r["index"] = i
                    if r["status"] != "ok" or i in t.get("want", ()):
                        r["plan"] = plan
                    r["plan_hash"] = core.plan_hash(plan)
                    print(json.dumps(r), file=out)
                    if r["status"] != "ok":
                        break
                print(json.dumps({"end": True}), file=out)
            elif t["cmd"] == "plan":
                for p in t.get("prelude", []):
                    core.execute(t["pid"], p)
                r = core.execute(t["pid"], t["plan"], t.get("log", False))
                print(json.dumps(r), file=out)
        except BaseException as e:  # noqa: BLE001
            import traceback

            print(json.dumps({"status": "error", "msg": traceback.format_exc()[-4000:], "exc": repr(e)}), file=out)
    out.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
