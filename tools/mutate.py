"""Development tool (not a check): systematic mutants of the library.

    mutate.py list FILES...                    print how many mutants each file has
    mutate.py tests OUT.json N SEED FILES...   sample N mutants, keep those that pass the project's tests
    mutate.py checks IN.json OUT.json          run the checks that anchor each surviving mutant's file

Every mutant lives in its own scratch copy under /tmp/mm; /repo is never touched."""
import ast, json, os, random, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
PY = "/opt/venv/bin/python"
WORK = "/tmp/mm"
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.BitXor: "|", ast.BitAnd: "|", ast.BitOr: "&", ast.LShift: ">>",
       ast.RShift: "<<", ast.FloorDiv: "*", ast.Mod: "//", ast.Div: "*"}
NAMES = {"argmin": "argmax", "argmax": "argmin", "min": "max", "max": "min", "all": "any", "any": "all",
         "floor": "ceil", "ceil": "floor", "zeros": "ones", "inf": "nan", "cumsum": "sort", "integer": "floating"}
DROP = {"asarray", "array", "abs", "sorted", "list", "copy", "int", "float", "bool", "flatten", "ravel", "reversed",
        "clip", "maximum", "minimum", "astype", "squeeze", "set", "tuple", "unique", "sort", "round"}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    out = []
    par = {c: n for n in ast.walk(tree) for c in ast.iter_child_nodes(n)}

    def infunc(n):
        while n in par:
            if isinstance(n, ast.Raise):
                return False
            if isinstance(par[n], (ast.FunctionDef,)):
                f = par[n]
                if n in f.decorator_list or n in (f.args, f.returns) :
                    return False
                if f.name in ("__repr__", "__str__"):
                    return False
                return True
            n = par[n]
        return False

    def put(n, new, what):
        s, e = pos(n)
        out.append((s, e, new, f"{n.lineno}: {what}: {seg(n)[:70]!r} -> {new[:70]!r}"))

    for n in ast.walk(tree):
        if not infunc(n):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            put(n, f"({seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])})", "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.JoinedStr):
            put(n, f"({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})", "bin")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + o.join(f"({seg(v)})" for v in n.values) + ")", "bool")
        elif isinstance(n, ast.UnaryOp):
            put(n, f"({seg(n.operand)})", "unary")
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float, bool) and not isinstance(par[n], ast.JoinedStr):
            if n.value is True or n.value is False:
                put(n, str(not n.value), "const")
            else:
                put(n, f"({n.value} + 1)", "const")
                put(n, f"({n.value} - 1)", "const")
        elif isinstance(n, ast.Name) and n.id in ("int", "float", "complex") and isinstance(par[n], (ast.keyword, ast.Call)) \
                and n is not getattr(par[n], "func", None):
            put(n, {"int": "np.int8", "float": "np.float32", "complex": "np.complex64"}[n.id], "dtype")
        elif isinstance(n, ast.Attribute) and n.attr in NAMES and isinstance(n.value, ast.Name):
            put(n, f"{seg(n.value)}.{NAMES[n.attr]}", "name")
        elif isinstance(n, ast.Name) and n.id in ("min", "max", "all", "any") and isinstance(par[n], ast.Call) and n is par[n].func:
            put(n, NAMES[n.id], "name")
        elif isinstance(n, ast.Call):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
            if nm in DROP:
                if isinstance(f, ast.Attribute) and not (isinstance(f.value, ast.Name) and f.value.id == "np"):
                    put(n, f"({seg(f.value)})", "drop")
                elif n.args:
                    put(n, f"({seg(n.args[0])})", "drop")
            for kw in n.keywords:
                if kw.arg and len(n.args) + len(n.keywords) > 1 and nm not in ("ValueError",):
                    new = seg(n).encode()
                    s0 = pos(n)[0]
                    a, e = offs[kw.lineno - 1] + kw.col_offset - s0, offs[kw.end_lineno - 1] + kw.end_col_offset - s0
                    t = new[:a].rstrip()
                    rest = new[e:]
                    if t.endswith(b","):
                        t = t[:-1]
                    elif rest.lstrip().startswith(b","):
                        rest = rest.lstrip()[1:]
                    put(n, (t + rest).decode(), "dropkw " + kw.arg)
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
            put(n, f"({seg(n.value)})", "slice")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            put(n, "pass", "delete")
        elif isinstance(n, ast.If):
            put(n.test, "True", "if")
            put(n.test, "False", "if")
        elif isinstance(n, (ast.Break, ast.Continue)):
            put(n, "pass", "flow")
    res, seen = [], set()
    for s, e, new, what in out:
        if (s, e, new) in seen:
            continue
        seen.add((s, e, new))
        res.append({"file": os.path.relpath(path, REPO + "/src/komm"), "s": s, "e": e, "new": new, "what": what})
    return res


def apply(m, root):
    p = os.path.join(root, "src/komm", m["file"])
    b = open(os.path.join(REPO, "src/komm", m["file"]), "rb").read()
    nb = b[: m["s"]] + m["new"].encode() + b[m["e"]:]
    compile(nb, p, "exec")
    os.path.exists(p) and os.remove(p)
    open(p, "wb").write(nb)


def slot_dir(i):
    d = f"{WORK}/slot{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for x in ("src", "tests", "conftest.py", "pyproject.toml", "README.md"):
        subprocess.run(["cp", "-a", f"{REPO}/{x}", d], check=True)
    return d


def run_tests(m, root):
    try:
        apply(m, root)
    except SyntaxError:
        return "syntax"
    env = {**os.environ, "PYTHONPATH": root + "/src", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
           "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
    cmd = f"ulimit -v 6000000; exec timeout 240 {PY} -m pytest -q -x -p no:cacheprovider --timeout=30 --benchmark-disable " \
          "--randomly-seed=42 --randomly-dont-reorganize -p no:xdist --tb=no"
    r = subprocess.run(["bash", "-c", cmd], cwd=root, env=env, capture_output=True, text=True)
    return "pass" if r.returncode == 0 else "fail"


def tests(out, n, seed, files):
    ms = [m for f in files for m in mutants(f)]
    print(len(ms), "mutants")
    random.Random(seed).shuffle(ms)
    ms = ms[:n]
    W = int(os.environ.get("W", "8"))
    import queue
    q = queue.Queue()
    for i in range(W):
        q.put(slot_dir(i))
    kept = []

    def job(m):
        d = q.get()
        try:
            r = run_tests(m, d)
        finally:
            shutil.copy(f"{REPO}/src/komm/{m['file']}", f"{d}/src/komm/{m['file']}")
            q.put(d)
        m["tests"] = r
        if r == "pass":
            kept.append(m)
            json.dump(kept, open(out, "w"), indent=1)
        return r
    with ThreadPoolExecutor(W) as ex:
        rs = list(ex.map(job, ms))
    print({r: rs.count(r) for r in set(rs)})
    json.dump(kept, open(out, "w"), indent=1)


ORDER = {
    "_error_control_block": ["C20", "C03", "C01", "C04", "C02", "C09"],
    "_error_control_decoders": ["C01", "C02", "C04", "C08", "C10"],
    "_error_control_convolutional": ["C19", "C05", "C06", "C01", "C02", "C08", "C09"],
    "_finite_state_machine": ["C08", "C05", "C06", "C02"],
    "_lossless_coding": ["C21", "C07", "C09", "C16"],
    "_pulses": ["C17"],
    "_quantization": ["C17", "C09"],
    "_sequences_binary": ["C18"],
    "_sequences_complex": ["C18"],
    "_integer_coding": ["C07", "C09"],
    "_channels": ["C13", "C12"],
    "_sources": ["C22", "C14", "C12", "C09"],
    "_constellations": ["C15", "C16", "C09"],
    "_labelings": ["C15", "C16", "C09"],
    "_util": ["C19", "C20", "C17", "C18", "C04", "C01", "C15", "C07", "C08", "C13", "C14", "C12", "C09", "C11"],
    "_algebra": ["C01", "C05", "C09"],
}


def checks(inp, out, runs=None):
    ms = json.load(open(inp))
    res = []
    d = slot_dir(99)
    for m in ms:
        apply(m, d)
        got = None
        for c in ORDER[m["file"].split("/")[0]]:
            r = subprocess.run(["timeout", "900", "python3", "check.py", c] + (["--runs", runs] if runs else []), cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                               env={**os.environ, "VERIF_REPO": d}, capture_output=True, text=True)
            if r.returncode != 0:
                got = f"{c}:{r.returncode}"
                break
        shutil.copy(f"{REPO}/src/komm/{m['file']}", f"{d}/src/komm/{m['file']}")
        m["check"] = got
        res.append(m)
        print(got, m["file"], m["what"], flush=True)
        json.dump(res, open(out, "w"), indent=1)


if __name__ == "__main__":
    if sys.argv[1] == "list":
        for f in sys.argv[2:]:
            print(len(mutants(f)), f)
    elif sys.argv[1] == "tests":
        tests(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5:])
    else:
        checks(*sys.argv[2:])
