"""Runs one unit of a check on the real code. Unit on stdin, result on the original stdout."""
import importlib
import json
import os
import resource
import sys
import traceback


def main():
    out = os.fdopen(os.dup(1), "w")
    task = json.load(sys.stdin)
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    sys.stdin = open(os.devnull)
    resource.setrlimit(resource.RLIMIT_AS, (task["memory"], task["memory"]))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    from vk.monitor import Monitor, Stop

    m = Monitor(task["unit"])
    m.tier, m.seed, m.config = task["tier"], task["seed"], task["config"]
    m.listed = task["listed"]
    try:
        check = importlib.import_module("checks." + task["check"])
        check.run(task["unit"], m)
    except Stop:
        pass
    except Exception:
        m.violations.append({"message": "unit failed: " + traceback.format_exc(limit=-8), "case": m.case_no, "data": None})
    json.dump(m.result(), out)
    out.close()
    os._exit(0)


main()
