"""Mutation sweep: python3 tools/mutate.py OUT.jsonl [--share 0.3] [--seed 1] [-j 7] FILE[:PROP,PROP...] ...

Makes one small syntactic change at a time to a file of /repo (in a scratch copy), runs the checks of the properties
given until one reports a violation and writes one line per mutant. Survivors are read by hand: they are either
equivalent, out of every property's scope, or a blind spot of the checks.
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile, queue
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*", ast.Pow: "*", ast.MatMult: None}
SKIP_CALLS = {"info", "error", "warning", "warn", "debug", "print", "echo", "secho", "update_layout", "update_xaxes", "update_yaxes", "show", "add_annotation",
              "update_traces", "filterwarnings", "set_description", "update_layout"}


def name_of(call):
    f = call.func
    return f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    start = [0]
    for l in lines:
        start.append(start[-1] + len(l.encode()) + 1)
    b = src.encode()
    at = lambda line, col: start[line - 1] + col                     # noqa: E731
    span = lambda n: (at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset))   # noqa: E731
    txt = lambda n: b[slice(*span(n))].decode()                      # noqa: E731
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and name_of(n) in SKIP_CALLS or isinstance(n, ast.JoinedStr) or isinstance(n, (ast.Import, ast.ImportFrom)):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg in ("title", "name", "hovertemplate", "marker_color", "color", "line", "marker", "layout", "width", "height", "opacity", "desc", "position", "leave", "help", "mode", "secondary_y", "row", "col"):
                    skip |= {id(x) for x in ast.walk(k)}
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip |= {id(x) for x in ast.walk(n.body[0])}
        if isinstance(n, (ast.FunctionDef,)):
            for d in n.decorator_list + n.args.args:
                skip |= {id(x) for x in ast.walk(d)}
        if isinstance(n, ast.AnnAssign):
            skip |= {id(x) for x in ast.walk(n.annotation)}

    def add(n, lo, hi, new, kind):
        out.append((n.lineno, kind, lo, hi, new))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for r in CMP.get(type(n.ops[0]), []):
                lo, hi = span(n.left)[1], span(n.comparators[0])[0]
                mid = b[lo:hi].decode()
                if "(" in mid or ")" in mid:
                    continue
                add(n, lo, hi, f" {r} ", "cmp")
        elif isinstance(n, ast.BinOp) and BIN.get(type(n.op)):
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) or isinstance(n.right, ast.Constant) and isinstance(n.right.value, str):
                continue
            lo, hi = span(n.left)[1], span(n.right)[0]
            mid = b[lo:hi].decode()
            if "(" in mid or ")" in mid or "\n" in mid:
                continue
            add(n, lo, hi, f" {BIN[type(n.op)]} ", "bin")
        elif isinstance(n, ast.BoolOp):
            for a, c in zip(n.values, n.values[1:]):
                lo, hi = span(a)[1], span(c)[0]
                mid = b[lo:hi].decode()
                if mid.strip() in ("and", "or"):
                    add(n, lo, hi, " or " if mid.strip() == "and" else " and ", "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, *span(n), f"({txt(n.operand)})", "not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add(n, *span(n), f"({txt(n.operand)})", "neg")
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                add(n, *span(n), str(not n.value), "const")
            elif isinstance(n.value, int):
                add(n, *span(n), str(n.value + 1), "const")
                if n.value:
                    add(n, *span(n), "0", "const0")
            elif isinstance(n.value, float):
                add(n, *span(n), repr(n.value * 2 + 0.25), "const")
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                (a0, a1), (b0, b1) = span(n.args[0]), span(n.args[1])
                add(n, a0, b1, txt(n.args[1]) + b[a1:b0].decode() + txt(n.args[0]), "swapargs")
            for k in n.keywords:
                if k.arg and id(k) not in skip and id(k.value) not in skip:
                    lo, hi = at(k.lineno, k.col_offset), at(k.end_lineno, k.end_col_offset)
                    rest = b[hi:hi + 200].decode(errors="ignore")
                    if rest.lstrip().startswith(","):
                        hi += len(rest) - len(rest.lstrip()) + 1
                    add(n, lo, hi, "", "dropkw:" + k.arg)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("min", "max", "argmin", "argmax", "nanmin", "nanmax", "any", "all", "mean", "sum", "minimum", "maximum"):
                o = {"min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin", "nanmin": "nanmax", "nanmax": "nanmin", "any": "all", "all": "any",
                     "mean": "median" if isinstance(n.func.value, ast.Name) and n.func.value.id == "np" else "sum", "sum": "mean", "minimum": "maximum", "maximum": "minimum"}[n.func.attr]
                hi = span(n.func)[1]
                add(n, hi - len(n.func.attr), hi, o, "agg")
            elif isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "deepcopy", "abs", "sqrt", "nan_to_num", "reset_index", "strip") and n.args:
                add(n, *span(n), txt(n.args[0]), "unwrap")
            elif isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "abs", "flatten"):
                add(n, *span(n), txt(n.func.value), "unwrap")
        elif isinstance(n, ast.IfExp):
            add(n, *span(n), txt(n.body), "ifexp")
            add(n, *span(n), txt(n.orelse), "ifexp")
        if isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, ast.Compare):
            add(n, *span(n.test), "True" if isinstance(n, ast.If) else "False", "cond")
            add(n, *span(n.test), "False", "cond")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break, ast.Return, ast.Raise)) and not (isinstance(n, ast.Expr) and id(n.value) in skip):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and not isinstance(n.value, ast.Constant):
                continue            # an unbound name only crashes
            add(n, *span(n), "pass", "del")
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript):
            pass
    seen = set()
    for m in sorted(out):
        if m[1:] in seen:
            continue
        seen.add(m[1:])
        new = b[:m[2]] + m[4].encode() + b[m[3]:]
        try:
            compile(new.decode().replace("\r\n", "\n"), "x", "exec")
        except SyntaxError:
            continue
        if b"logger." in b[start[m[0] - 1]:start[m[0]]]:
            continue
        yield m, new


def main():
    args = sys.argv[1:]
    share, seed, j, lines = 0.3, 1, 7, None
    files = []
    outf = args.pop(0)
    while args:
        a = args.pop(0)
        if a == "--share": share = float(args.pop(0))
        elif a == "--seed": seed = int(args.pop(0))
        elif a == "-j": j = int(args.pop(0))
        elif a == "--lines": lines = tuple(int(x) for x in args.pop(0).split("-"))
        else: files.append(a)
    rng = random.Random(seed)
    work = []
    for f in files:
        path, props = f.split(":")
        src = open(os.path.join("/repo", path), newline="").read()
        ms = [m for m in mutants(src) if not lines or lines[0] <= m[0][0] <= lines[1]]
        pick = [m for m in ms if rng.random() < share]
        print(path, len(ms), "mutants,", len(pick), "picked", flush=True)
        work += [(path, props.split(","), m, new) for m, new in pick]
    rng.shuffle(work)
    root = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    slots = queue.Queue()
    for i in range(j):
        w = f"{root}/{i}"
        os.makedirs(w + "/p")
        subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
        os.symlink(w + "/r/esat", w + "/p/esat")
        os.symlink(w + "/r/eval", w + "/p/esat_eval")
        os.makedirs(w + "/v")
        for x in ("mon", "check", "KNOWN_FINDINGS.jsonl"):
            subprocess.run(["cp", "-a", f"{HERE}/{x}", w + "/v/"], check=True)
        slots.put(w)
    out = open(outf, "a")

    def run(item):
        path, props, m, new = item
        w = slots.get()
        p = f"{w}/r/{path}"
        old = open(p, "rb").read()
        try:
            open(p, "wb").write(new)
            env = dict(os.environ, ESAT_REPO=f"{w}/r", PYTHONPATH=f"{w}/p", VERIF_SEED="1", TMPDIR=w, MON_FAILFAST="1")
            rcs, why = {}, ""
            for pr in props:
                try:
                    r = subprocess.run(["./check", pr], cwd=w + "/v", env=env, capture_output=True, text=True, timeout=400, start_new_session=True)
                    rcs[pr] = r.returncode
                    if r.returncode == 1:
                        why = pr + " " + next((l.strip()[:160] for l in r.stdout.splitlines() if "kind=" in l), "")
                        break
                    if r.returncode != 0:
                        why += f" {pr}: " + r.stdout[-300:].replace("\n", " / ")
                except subprocess.TimeoutExpired:
                    rcs[pr] = "timeout"
            line = old.decode().split("\n")[m[0] - 1].strip()
            nl = new.decode().split("\n")[m[0] - 1].strip()
            out.write(json.dumps({"file": path, "line": m[0], "kind": m[1], "old": line, "new": nl, "caught": 1 in rcs.values(), "rcs": rcs, "why": why}) + "\n")
            out.flush()
        finally:
            open(p, "wb").write(old)
            for x in os.listdir(w):
                if x not in ("r", "p", "v"):
                    shutil.rmtree(f"{w}/{x}", ignore_errors=True)
            slots.put(w)
    with ThreadPoolExecutor(j) as ex:
        list(ex.map(run, work))
    shutil.rmtree(root)


if __name__ == "__main__":
    main()
