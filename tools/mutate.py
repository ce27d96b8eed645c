"""Mutation study: small changes of /repo's sources, and which of them the checks notice.

    mutate.py FILE OUT [--n N] [--seed S] [--jobs J] [--funcs REGEX] [--props C07,C08] [--cases K]

Each mutant is one syntactic change in a scratch copy of the sources under /tmp; the checks of the properties its
function matters to are run in probe mode. Survivors are equivalent changes, changes no property speaks about, or gaps.
"""
import argparse, ast, concurrent.futures, json, os, random, re, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    "space_time.py": [
        (r"__init__$|DataDomain", ["C09", "C10", "C12"]), (r"setup_spacetime_finite", ["C09", "C07", "C12"]),
        (r"setup_rhs|get_spacetime_(rhs|lfi)", ["C09", "C10"]), (r"setup_coupling", ["C07", "C09"]),
        (r"setup_scaled", ["C08", "C09"]), (r"apply_spacetime|multiply|\.mult", ["C07"]), (r"pre_time|\.apply", ["C08"]),
        (r"coarse|prolong|restrict|q_op|twolvl", ["C13"]), (r"measured", ["C12"]), (r"plot", ["C17"]),
        (r".", ["C09", "C07", "C08"])],
    "precomp_time_int.py": [(r".", ["C09", "C12", "C10"])],
    "gmres.py": [(r".", ["C01", "C02", "C03", "C04", "C05", "C06"])],
    "meshes.py": [(r".", ["C15", "C16"])],
    "solve_1d.py": [(r".", ["C11"])], "solve_2d.py": [(r".", ["C11"])], "solve_3d.py": [(r".", ["C11"])],
}
SKIP = re.compile(r"print|plt\.|colors|vmin|vmax|levels|norm =|norm=|msg =|Sys\.Print|noqa: ARG|1e-20|\.view\(\)")


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()))
    raw = src.encode()
    out = []

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def add(n, new, what, fn):
        a, b = span(n)
        text = raw[a:b].decode()
        if new == text or SKIP.search(lines[n.lineno - 1]):
            return
        out.append({"line": n.lineno, "func": fn, "what": what, "old": text, "new": new, "at": [a, b]})

    def seg(n):
        a, b = span(n)
        return raw[a:b].decode()

    def walk(n, fn):
        if isinstance(n, ast.FunctionDef | ast.ClassDef):
            fn = (fn + "." if fn else "") + n.name
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.If) and isinstance(n.test, ast.Constant):
            return
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") in ("print", "sorted_print"):
            return
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), "bool", fn)
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "int", fn)
            elif isinstance(n.value, float):
                add(n, repr(n.value * 2 if n.value else 1.0), "float", fn)
        elif isinstance(n, ast.BinOp):
            ops = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
            o = ops.get(type(n.op))
            if o:
                add(n, f"({seg(n.left)}) {o} ({seg(n.right)})", "binop", fn)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            ops = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
                   ast.In: "not in", ast.Is: "is not", ast.IsNot: "is"}
            o = ops.get(type(n.ops[0]))
            if o:
                add(n, f"{seg(n.left)} {o} {seg(n.comparators[0])}", "compare", fn)
        elif isinstance(n, ast.If | ast.IfExp | ast.While):
            add(n.test, f"(not ({seg(n.test)}))", "negate", fn)
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join(f"({seg(v)})" for v in n.values) + ")", "boolop", fn)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add(n, seg(n.operand), "unary", fn)
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "delete", fn)
        elif isinstance(n, ast.AugAssign):
            add(n, "pass", "delete", fn)
            add(n, seg(n).replace("+=", "-=", 1), "augop", fn)
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript):
            add(n, "pass", "delete", fn)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for a, b in (("u1", "u2"), ("w1", "w2"), ("y1", "y2"), ("z1", "z2"), ("int_idx_q", "int_idx_qstar")):
                if n.id == a:
                    add(n, b, "name", fn)
                elif n.id == b:
                    add(n, a, "name", fn)
        for c in ast.iter_child_nodes(n):
            walk(c, fn)

    walk(tree, "")
    return out


def run(m, a, raw):
    d = tempfile.mkdtemp(prefix="mut.")
    try:
        shutil.copytree(a.repo + "/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        x, y = m["at"]
        p = f"{d}/src/dxss/{a.file}"
        with open(p, "wb") as f:
            f.write(raw[:x] + m["new"].encode() + raw[y:])
        props = a.props.split(",") if a.props else next(ps for rx, ps in MAP[a.file] if re.search(rx, m["func"]))
        m["result"] = "SURVIVED"
        for q in props:
            try:
                r = subprocess.run(["nice", f"{V}/check.sh", q, "quick", "--probe", "--no-evidence", "--workers", "1",
                                    "--cases", str(a.cases), "--seed", str(a.caseseed)],
                                   capture_output=True, text=True, timeout=600, env={**os.environ, "DXSS_REPO": d})
            except subprocess.TimeoutExpired:
                m["result"] = f"timeout {q}"
                continue
            last = (r.stdout.strip().splitlines() or [""])[-1]
            if r.returncode == 1:
                m["result"] = "caught " + last[:150]
                break
            if r.returncode != 0:
                m["result"] = f"SURVIVED rc={r.returncode} {(r.stdout + r.stderr)[-150:]}"
    finally:
        shutil.rmtree(d)
    return m


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("out")
    ap.add_argument("--n", type=int, default=50)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--caseseed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--cases", type=int, default=60)
    ap.add_argument("--funcs", default=".")
    ap.add_argument("--props")
    ap.add_argument("--repo", default="/repo")
    a = ap.parse_args()
    src = open(f"{a.repo}/src/dxss/{a.file}").read()
    ms = [m for m in mutants(src) if re.search(a.funcs, m["func"])]
    total = len(ms)
    ms = random.Random(a.seed).sample(ms, min(a.n, total))
    print(f"{len(ms)} of {total} mutants", flush=True)
    raw = src.encode()
    with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex, open(a.out, "w") as f:
        for i, m in enumerate(ex.map(lambda m: run(m, a, raw), ms)):
            f.write(json.dumps(m) + "\n")
            f.flush()
            if not m["result"].startswith("caught"):
                print(f"{a.file}:{m['line']} {m['func']} {m['what']}: {m['old'][:60]!r} -> {m['new'][:60]!r}: {m['result']}", flush=True)
    return 0


if __name__ == "__main__":
    sys.exit(main())
