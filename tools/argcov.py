""" Development aid: what kinds of values the generated cases of a check give to the parameters of MyCapytain

argcov.py OUT.json CNN [cases per sub-check]      (run with the interpreter of MyCapytain)
argcov.py --report FILE...                        prints the parameters which only ever had one kind of value
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def kind(value):
    if value is None or value is True or value is False:
        return str(value)
    name = type(value).__name__
    if isinstance(value, (int, float)):
        return "{}:{}".format(name, "0" if value == 0 else "-" if value < 0 else "+")
    if isinstance(value, str):
        return "{}:{}".format(name, "empty" if not value else "text")
    if isinstance(value, (list, tuple, dict, set)):
        return "{}:{}".format(name, min(len(value), 2))
    return name


def main(out, prop, n="60"):
    import importlib
    from vlib import engine, support
    seen = {}
    prefix = os.path.join(os.path.realpath(support.REPO), "MyCapytain") + os.sep
    mon = sys.monitoring

    def start(code, offset):
        if not code.co_filename.startswith(prefix) or code.co_name.startswith("<"):
            return mon.DISABLE
        frame = sys._getframe(1)
        caller = frame.f_back.f_code.co_filename.startswith(prefix) if frame.f_back else False
        names = code.co_varnames[:code.co_argcount + code.co_kwonlyargcount + bool(code.co_flags & 4) + bool(code.co_flags & 8)]
        entry = seen.setdefault("{}:{}:{}".format(code.co_filename[len(prefix):], code.co_firstlineno, code.co_qualname), {})
        for name in names:
            if name in ("self", "cls") or name not in frame.f_locals:
                continue
            value = frame.f_locals[name]
            kinds = entry.setdefault(name, {})
            k = kind(value)
            if name == "kwargs" and isinstance(value, dict):
                k = "kwargs(" + ",".join(sorted(map(str, value))) + ")"
            k += "" if caller else " !"
            if k in kinds or len(kinds) < 40:
                kinds[k] = kinds.get(k, 0) + 1
    mon.use_tool_id(mon.COVERAGE_ID, "argcov")
    mon.register_callback(mon.COVERAGE_ID, mon.events.PY_START, start)
    mon.set_events(mon.COVERAGE_ID, mon.events.PY_START)
    support.load()
    module = importlib.import_module("vlib.props." + prop.lower())
    for sub in module.SUBS:
        engine.run_shard(prop, sub, 0, min(int(n), sub.quick), 7, lambda kind, payload: kind == "found" and print(prop, sub.name, payload["error"][-300:]))
    with open(out, "w") as f:
        json.dump(seen, f)


def report(files):
    total = {}
    for name in files:
        with open(name) as f:
            for function, args in json.load(f).items():
                for arg, kinds in args.items():
                    mine = total.setdefault(function, {}).setdefault(arg, {})
                    for k, count in kinds.items():
                        mine[k] = mine.get(k, 0) + count
    for function in sorted(total, key=lambda f: (f.split(":")[0], int(f.split(":")[1]))):
        for arg, kinds in total[function].items():
            if len({k.rstrip(" !") for k in kinds}) == 1:
                print(function, arg, dict(kinds))


if sys.argv[1] == "--report":
    report(sys.argv[2:])
else:
    main(*sys.argv[1:])
