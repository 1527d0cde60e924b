""" Development aid: which lines of MyCapytain the generated cases of a check execute

linecov.py OUT.json CNN [cases per sub-check]      (run with the interpreter of MyCapytain)
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def main(out, prop, n="120"):
    import importlib
    from vlib import engine, support
    hit = set()
    prefix = os.path.join(os.path.realpath(support.REPO), "MyCapytain") + os.sep
    mon = sys.monitoring

    def line(code, number):
        if code.co_filename.startswith(prefix):
            hit.add((code.co_filename[len(prefix):], number))
        return mon.DISABLE
    mon.use_tool_id(mon.COVERAGE_ID, "linecov")
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    support.load()
    module = importlib.import_module("vlib.props." + prop.lower())
    for sub in module.SUBS:
        engine.run_shard(prop, sub, 0, min(int(n), sub.quick), 7, lambda kind, payload: kind == "found" and print(prop, sub.name, payload["error"][-300:]))
    with open(out, "w") as f:
        json.dump(sorted(hit), f)


main(*sys.argv[1:])
