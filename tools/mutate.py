""" Development aid: mutation analysis of the checks

mutate.py list                      number of mutants per file
mutate.py run OUT.jsonl [--workers 7] [--every N] [--offset K] [--files a,b] [--scale 0.5]

Each mutant is one small edit of MyCapytain in a scratch copy of /repo. The tests of the repository run
first; mutants which survive them are given to the checks whose generated cases execute the line
(tools/linecov.py, /tmp/mut/cov), until one reports a violation. Nothing here is used by a check.
"""
import argparse
import ast
import collections
import glob
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys

BASE = os.environ.get("MUT_BASE", "/tmp/mut")
REPO = os.environ.get("MUT_REPO", "/repo")
PY = "/opt/venv/bin/python"
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
ATTRS = {"start": "end", "end": "start", "prev": "next", "next": "prev", "nextId": "prevId", "prevId": "nextId", "first": "last", "last": "first", "children": "parents", "parents": "children",
         "keys": "values", "depth": "level", "textgroup": "work", "work": "version", "version": "work", "append": "remove", "firstId": "lastId", "lastId": "firstId",
         "getnext": "getprevious", "text": "tail", "tail": "text", "subjects": "objects", "objects": "subjects", "add": "discard"}


def offsets(src):
    out, total = [0], 0
    for line in src.encode().split(b"\n"):
        total += len(line) + 1
        out.append(total)
    return out


def mutants(src):
    """ [(line, what, start, end, replacement)] over the bytes of the source """
    tree = ast.parse(src)
    raw = src.encode()
    offs = offsets(src)
    span = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    get = lambda n: raw[slice(*span(n))].decode()
    out = []

    def edit(node, new, what):
        a, b = span(node)
        if raw[a:b].decode() != new:
            out.append((node.lineno, what, a, b, new))

    def visit(node, inraise=False, doc=None):
        if isinstance(node, ast.Raise):
            edit(node, "pass", "no raise")
            return
        if isinstance(node, ast.FunctionDef) and len(node.body) <= 2 and any(isinstance(s, ast.Raise) for s in node.body):
            return
        if isinstance(node, ast.FunctionDef) and node.name in ("__repr__",):
            return
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            op = CMP[type(node.ops[0])]
            edit(node, "({} {} {})".format(get(node.left), op, get(node.comparators[0])), "compare " + op)
        if isinstance(node, ast.BoolOp):
            joined = " or " if isinstance(node.op, ast.And) else " and "
            edit(node, "(" + joined.join("({})".format(get(v)) for v in node.values) + ")", "bool" + joined)
            for i in range(len(node.values)):
                rest = [v for j, v in enumerate(node.values) if j != i]
                word = " and " if isinstance(node.op, ast.And) else " or "
                edit(node, "(" + word.join("({})".format(get(v)) for v in rest) + ")", "drop operand {}".format(i))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            edit(node, "({})".format(get(node.operand)), "drop not")
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            edit(node.test, "(False)", "never")
            if not isinstance(node, ast.While):
                edit(node.test, "(True)", "always")
        if isinstance(node, ast.comprehension):
            for c in node.ifs:
                edit(c, "(True)", "no filter")
        if isinstance(node, ast.Constant) and type(node.value) is int:
            edit(node, "({})".format(node.value + 1), "int+1")
            if node.value:
                edit(node, "({})".format(node.value - 1), "int-1")
        if isinstance(node, ast.Constant) and isinstance(node.value, bool):
            edit(node, str(not node.value), "flip")
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            edit(node, "({} + 'x')".format(get(node)), "str+x")
            if node.value:
                edit(node, "''", "empty str")
        if isinstance(node, ast.BinOp):
            if isinstance(node.op, ast.Add):
                edit(node, "({})".format(get(node.left)), "left of +")
                edit(node, "({})".format(get(node.right)), "right of +")
            if isinstance(node.op, ast.Sub):
                edit(node, "({} + {})".format(get(node.left), get(node.right)), "minus to plus")
        if isinstance(node, ast.Return) and node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
            edit(node, "return None", "return None")
        if isinstance(node, (ast.Expr, ast.AugAssign)) and not (isinstance(node, ast.Expr) and isinstance(node.value, (ast.Constant, ast.Yield))):
            edit(node, "pass", "delete statement")
        if isinstance(node, ast.Delete):
            edit(node, "pass", "delete statement")
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], (ast.Attribute, ast.Subscript)):
            edit(node, "pass", "delete assignment")
        if isinstance(node, (ast.Assign,)) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name) and not isinstance(node.value, ast.Constant):
            edit(node.value, "None", "assign None")
        if isinstance(node, ast.Continue):
            edit(node, "pass", "no continue")
            edit(node, "break", "break for continue")
        if isinstance(node, ast.Break):
            edit(node, "pass", "no break")
        if isinstance(node, ast.Call):
            for k in node.keywords:
                rest = [get(a) for a in node.args] + [get(o) for o in node.keywords if o is not k]
                edit(node, "{}({})".format(get(node.func), ", ".join(rest)), "without {}=".format(k.arg))
            if len(node.args) > 1:
                args = [get(a) for a in node.args]
                rest = [get(o) for o in node.keywords]
                edit(node, "{}({})".format(get(node.func), ", ".join(args[:-1] + rest)), "without last argument")
                edit(node, "{}({})".format(get(node.func), ", ".join([args[1], args[0]] + args[2:] + rest)), "swapped arguments")
            if isinstance(node.func, ast.Name) and node.func.id in ("str", "list", "sorted", "set", "len", "int") and len(node.args) == 1:
                edit(node, "({})".format(get(node.args[0])), "without {}()".format(node.func.id))
        if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
            edit(node, get(node.value), "no slice")
        if isinstance(node, ast.Attribute) and node.attr in ATTRS:
            edit(node, "{}.{}".format(get(node.value), ATTRS[node.attr]), "attribute " + ATTRS[node.attr])
        if isinstance(node, ast.ExceptHandler) and node.type is not None:
            edit(node.type, "ZeroDivisionError", "no except")
        if isinstance(node, (ast.List, ast.Tuple)) and isinstance(getattr(node, "ctx", None), ast.Load) and len(node.elts) > 1:
            inner = [get(e) for e in node.elts[1:]]
            edit(node, ("[{}]" if isinstance(node, ast.List) else "({},)").format(", ".join(inner)), "without first element")
            inner = [get(e) for e in node.elts[:-1]]
            edit(node, ("[{}]" if isinstance(node, ast.List) else "({},)").format(", ".join(inner)), "without last element")
        body = getattr(node, "body", None)
        skip = None
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)) and body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            skip = body[0]
        for child in ast.iter_child_nodes(node):
            if child is skip or isinstance(child, ast.JoinedStr):
                continue
            if isinstance(node, (ast.FunctionDef,)) and child in (node.decorator_list + [node.returns]):
                continue
            if isinstance(child, ast.arg) or isinstance(node, ast.AnnAssign) and child is node.annotation:
                continue
            if isinstance(node, (ast.Import, ast.ImportFrom)):
                continue
            visit(child)
    visit(tree)
    good = []
    for line, what, a, b, new in out:
        text = raw[:a] + new.encode() + raw[b:]
        try:
            ast.parse(text)
        except SyntaxError:
            continue
        good.append((line, what, a, b, new))
    return good


def all_mutants(files=None):
    out = []
    for root, _, names in sorted(os.walk(os.path.join(REPO, "MyCapytain"))):
        for name in sorted(names):
            if not name.endswith(".py"):
                continue
            path = os.path.join(root, name)
            rel = os.path.relpath(path, REPO)
            if files and not any(f in rel for f in files):
                continue
            with open(path) as f:
                src = f.read()
            for line, what, a, b, new in mutants(src):
                out.append({"file": rel, "line": line, "what": what, "a": a, "b": b, "new": new,
                            "old": src.encode()[a:b].decode(), "id": "{}:{}:{}:{}".format(rel, a, b, what)})
    return out


def coverage():
    hit = collections.defaultdict(set)
    for path in glob.glob(os.path.join(BASE, "cov", "*.json")):
        with open(path) as f:
            for name, line in json.load(f):
                hit["MyCapytain/" + name, line].add(os.path.basename(path)[:3])
    return hit


def run_one(args):
    m, props, opts = args
    name = multiprocessing.current_process().name.rsplit("-", 1)[-1]
    copy = os.path.join(BASE, "w" + name)
    if not os.path.exists(copy):
        shutil.copytree(REPO, copy, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    path = os.path.join(copy, m["file"])
    with open(os.path.join(REPO, m["file"]), "rb") as f:
        raw = f.read()
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", HOME="/root", LANG="C.UTF-8", TMPDIR=os.path.join(BASE, "tmp"))
    try:
        with open(path, "wb") as f:
            f.write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])
        deselect = ["--deselect", KNOWN_FAIL] if KNOWN_FAIL else []
        base = "tests/resources/texts/local"
        for mod in ("test_capitains_xml_default", "test_capitains_xml_notObjectified"):
            for c in ("CapitainsXmlTextTest", "CapitainsXmlPassageTests", "CapitainsXMLRangePassageTests"):
                deselect += ["--deselect", "{}/{}.py::{}".format(base, mod, c)]
        try:
            done = subprocess.run([PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--timeout=60", "tests"] + deselect,
                                  cwd=copy, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
            ok = done.returncode == 0
        except subprocess.TimeoutExpired:
            ok = False
        if not ok:
            return dict(m, result="tests")
        tried = []
        env.update(VERIF_REPO=copy, VERIF_SEED="1", VERIF_TIER="quick", VERIF_WORKERS="1")
        for prop in props[:opts["props"]]:
            try:
                done = subprocess.run(["python3", "check.py", prop, "--scale", str(opts["scale"]), "--no-shrink"], cwd=os.path.join(BASE, "verif" + name), env=env,
                                      stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=600)
                code = done.returncode
            except subprocess.TimeoutExpired:
                code = "timeout"
            tried.append([prop, code])
            if code == 1:
                return dict(m, result="caught", by=prop, tried=tried)
        return dict(m, result="missed", tried=tried)
    finally:
        with open(path, "wb") as f:
            f.write(raw)


KNOWN_FAIL = ""


def init():
    name = multiprocessing.current_process().name.rsplit("-", 1)[-1]
    copy = os.path.join(BASE, "verif" + name)
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree(os.environ.get("MUT_VERIF", "/verif"), copy, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
    shutil.rmtree(os.path.join(BASE, "w" + name), ignore_errors=True)
    os.makedirs(os.path.join(BASE, "tmp"), exist_ok=True)


def main():
    global KNOWN_FAIL
    parser = argparse.ArgumentParser()
    parser.add_argument("what")
    parser.add_argument("out", nargs="?")
    parser.add_argument("--workers", type=int, default=7)
    parser.add_argument("--every", type=int, default=1)
    parser.add_argument("--offset", type=int, default=0)
    parser.add_argument("--files")
    parser.add_argument("--scale", type=float, default=0.5)
    parser.add_argument("--props", type=int, default=30, help="how many checks to try at most")
    parser.add_argument("--ids", help="file with the ids of the mutants")
    parser.add_argument("--known-fail", default="")
    args = parser.parse_args()
    KNOWN_FAIL = args.known_fail
    ms = all_mutants(args.files.split(",") if args.files else None)
    if args.what == "list":
        for k, v in sorted(collections.Counter(m["file"] for m in ms).items()):
            print(v, k)
        print(len(ms))
        return
    random.Random(4).shuffle(ms)
    ms = ms[args.offset::args.every]
    if args.ids:
        with open(args.ids) as f:
            wanted = set(json.load(f))
        ms = [m for m in ms if m["id"] in wanted]
    done = set()
    if os.path.exists(args.out):
        with open(args.out) as f:
            done = {json.loads(line)["id"] for line in f}
    ms = [m for m in ms if m["id"] not in done]
    hit = coverage()
    size = collections.Counter(p for ps in hit.values() for p in ps)
    wins = collections.Counter()

    def tasks():
        for m in ms:
            props = hit.get((m["file"], m["line"]), set())
            yield m, sorted(props, key=lambda p: (-wins[m["file"], p], size[p])), {"scale": args.scale, "props": args.props}
    with multiprocessing.Pool(args.workers, initializer=init) as pool, open(args.out, "a") as f:
        for res in pool.imap_unordered(run_one, list(tasks())):
            if res["result"] == "caught":
                wins[res["file"], res["by"]] += 1
            f.write(json.dumps(res) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
