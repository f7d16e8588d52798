"""Development aid: small mutations of the library, each run against the quick checks of its module, those which no check reports are listed.
mutate.py OUT.jsonl JOBS [MODULE ...]   (environment: STEP=n takes every n-th mutation, START=k)"""
import ast, concurrent.futures as cf, json, os, pathlib, shutil, subprocess, sys

R = pathlib.Path(__file__).resolve().parent.parent
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
CHECKS = {
    "filters/fir_filter": "C01 C04 C06 C03 C30", "filters/iir_filter": "C02 C05 C06 C03 C30", "filters/derivative_filter": "C07 C30",
    "filters/integral_filter": "C07 C30", "filters/pid_filter": "C08 C30", "filters/rank_filter": "C09 C30",
    "filters/complex_exponential_filter": "C10 C30", "filters/complex_bandpass_filter": "C11 C30", "filters/complex_frequency_filter": "C11 C30",
    "filters/goertzel_filter": "C12 C30", "filters/polynomial_rate_filter": "C13 C30", "filters/polyphase_rate_filter": "C14 C30",
    "filters/window_filter": "C15 C30", "transforms/fourier_transform": "C16 C30", "transforms/psd_transform": "C17 C30",
    "transforms/wavelet_transform": "C18 C30", "transforms/complex_transform": "C19 C30", "transforms/z_transform": "C20 C30",
    "models/diversity_model": "C21 C30", "models/gaussian_model": "C22 C30", "models/gaussian_mixture_model": "C23 C30",
    "commons/serial": "C24 C30", "commons/log": "C25 C26", "commons/rest_client": "C28 C30",
}
SWAP = {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "==", "+": "-", "-": "+", "*": "/", "/": "*", "//": "/", "**": "*", "%": "+", "and": "or", "or": "and", "in": "not in", "not in": "in", "is": "is not", "is not": "is"}
OPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Pow: "**", ast.Mod: "%", ast.In: "in", ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}
DROP = {"abs", "array", "copy", "list", "float", "int", "sorted", "flip", "conj", "conjugate", "real", "max", "min", "round", "tuple", "bool", "str", "ravel", "flatten", "deepcopy", "dict", "asarray", "sqrt", "strip", "lower", "upper", "title", "zeros_like", "float64"}


def mutations(source):
    tree = ast.parse(source)
    lines = source.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    raw = source.encode()

    def at(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    res = []

    def add(a, b, new, note):
        if raw[a:b].decode() != new and "isinstance" not in raw[a:b].decode() and "numpy.array(list(" not in raw[a:b].decode():
            res.append((a, b, new, note))

    def between(l, r, op, new, note):
        a, b = at(l)[1], at(r)[0]
        seg = raw[a:b].decode()
        i = seg.find(op)
        if i >= 0:
            add(a + i, a + i + len(op), new, note)

    def walk(n, parent):
        if isinstance(n, (ast.JoinedStr, ast.arguments, ast.Raise)):
            if isinstance(n, ast.arguments):
                for d in n.defaults:
                    walk(d, n)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                walk(n.value, n)
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in OPS:
            op = OPS[type(n.ops[0])]
            between(n.left, n.comparators[0], op, SWAP[op], "compare")
        if isinstance(n, ast.BinOp) and type(n.op) in OPS:
            op = OPS[type(n.op)]
            between(n.left, n.right, op, SWAP[op], "operator")
            a, b = at(n)
            if not isinstance(n.op, ast.Mod):
                add(a, b, "(" + ast.get_source_segment(source, n.left) + ")", "left only")
        if isinstance(n, ast.BoolOp):
            op = "and" if isinstance(n.op, ast.And) else "or"
            between(n.values[0], n.values[1], op, SWAP[op], "boolean")
        if isinstance(n, ast.UnaryOp):
            a, b = at(n)
            add(a, b, "(" + ast.get_source_segment(source, n.operand) + ")", "unary")
        if isinstance(n, ast.Constant):
            a, b = at(n)
            v = n.value
            if isinstance(v, bool):
                add(a, b, repr(not v), "constant")
            elif isinstance(v, int):
                add(a, b, repr(v + 1), "constant")
            elif isinstance(v, float):
                add(a, b, repr(v * 1.001 if v else 1e-3), "constant")
            elif isinstance(v, str) and isinstance(parent, (ast.Compare, ast.Call, ast.Tuple, ast.List)):
                add(a, b, repr(v + "x"), "text")
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            a, b = at(n.test)
            if not isinstance(n, ast.While):
                add(a, b, "True", "if true")
            add(a, b, "False", "if false")
        if isinstance(n, (ast.AugAssign, ast.Assign, ast.Expr, ast.Break, ast.Continue)) :
            a, b = at(n)
            add(a, b, "pass", "statement")
            if isinstance(n, ast.AugAssign) and type(n.op) in OPS:
                op = OPS[type(n.op)] + "="
                between(n.target, n.value, op, SWAP[op[:-1]] + "=", "operator")
        if isinstance(n, ast.Call) and n.args:
            f = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
            a, b = at(n)
            if f in DROP:
                add(a, b, "(" + ast.get_source_segment(source, n.args[0]) + ")", "call")
            for k in n.keywords:
                if k.arg:
                    pass
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in DROP:
            a, b = at(n)
            add(a, b, ast.get_source_segment(source, n.func.value), "method")
        if isinstance(n, ast.Return) and n.value is not None:
            pass
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for c in (n.args.defaults if isinstance(n, ast.FunctionDef) else []):
                walk(c, n)
            for c in n.body:
                walk(c, n)
            return
        for c in ast.iter_child_nodes(n):
            walk(c, n)

    for n in tree.body:
        if isinstance(n, ast.ClassDef):
            walk(n, tree)
    return raw, res


def run(job):
    k, mod, line, note, old, new, text = job
    c = pathlib.Path(f"/tmp/mu.{os.getpid()}.{k}")
    shutil.rmtree(c, ignore_errors=True)
    shutil.copytree("/repo", c, symlinks=True, ignore=shutil.ignore_patterns("docs", "notebooks", ".git"))
    (c / "diamondback" / f"{mod}.py").write_bytes(text)
    r = dict(k=k, module=mod, line=line, note=note, old=old, new=new)
    try:
        p = subprocess.run(["/opt/venv/bin/python", "-c", f"import diamondback"], cwd=c, env=dict(ENV, PYTHONPATH=str(c)), capture_output=True, timeout=60)
        if p.returncode:
            r["by"] = "import"
            return r
        plan = CHECKS[mod].split()
        first = [c for c in plan if c != "C30"]
        for check, cap in [(c, 20) for c in first[:1]] + [(c, 60) for c in plan if c == "C30"] + [(c, 200) for c in first]:
            w = pathlib.Path(f"/tmp/muv.{os.getpid()}.{k}")
            shutil.rmtree(w, ignore_errors=True)
            shutil.copytree(R, w, ignore=shutil.ignore_patterns("seeded", ".git", "__pycache__", "evidence"))
            try:
                p = subprocess.run(["bash", "check.sh", check, "quick"], cwd=w, env=dict(ENV, MC_REPO=str(c), MC_WORKERS="1", MC_STOP="1", MC_CAP_SECONDS=str(cap), VERIF_SEED="1"), capture_output=True, text=True, timeout=700)
                if p.returncode:
                    r["by"] = check if p.returncode == 1 else f"{check} rc {p.returncode}"
                    return r
            finally:
                shutil.rmtree(w, ignore_errors=True)
        p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "vp_seed", "--timeout=100", "--ignore=tests/unit/commons/test_rest_client.py", "tests"], cwd=c, env=dict(ENV, PYTHONPATH=f"{c}:/opt/vp-support", HOME="/root"), capture_output=True, timeout=300)
        if p.returncode:
            r["by"] = "tests"
            return r
    except subprocess.TimeoutExpired:
        r["by"] = "timeout"
    finally:
        shutil.rmtree(c, ignore_errors=True)
    return r


def main():
    out, jobs, mods = sys.argv[1], int(sys.argv[2]), sys.argv[3:] or list(CHECKS)
    step, start = int(os.environ.get("STEP", 1)), int(os.environ.get("START", 0))
    todo = []
    for mod in mods:
        raw, res = mutations((pathlib.Path("/repo/diamondback") / f"{mod}.py").read_text())
        for i, (a, b, new, note) in enumerate(res):
            text = raw[:a] + new.encode() + raw[b:]
            try:
                ast.parse(text)
            except SyntaxError:
                continue
            todo.append((len(todo), mod, raw[:a].count(b"\n") + 1, note, raw[a:b].decode(), new, text))
    todo = [t for t in todo[start::step]]
    print(len(todo), "mutations", flush=True)
    if jobs == 0:
        return
    with cf.ThreadPoolExecutor(jobs) as ex, open(out, "a") as f:
        for r in (d.result() for d in cf.as_completed([ex.submit(run, t) for t in todo])):
            f.write(json.dumps(r) + "\n")
            f.flush()
            if "by" not in r:
                print("SURVIVED", json.dumps(r), flush=True)


main()
