"""Mutation campaign (development aid, not a check): random small changes of the source; which properties' quick checks notice?
usage: mutate.py FILE[:PROP,PROP..] ... [--n N] [--seed S] [--list]   -> lines 'KILLED/SURVIVED/ERROR file:line what'"""
import ast, os, random, subprocess, sys, json, collections

HERE = os.path.dirname(os.path.abspath(__file__))
BASE, SC = os.environ.get("BASE", "/repo"), os.environ.get("SCRATCH", "/tmp/mutsc")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "+", ast.Pow: "*"}


def muts(src):
    tree = ast.parse(src)
    lines = src.splitlines(True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    raw = src.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: raw[slice(*pos(n))].decode()
    out = []

    def add(n, new, what):
        out.append((n.lineno, *pos(n), new, f"{what}: {' '.join(seg(n).split())[:70]} -> {' '.join(new.split())[:70]}"))

    def visit(n, infn):
        if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)) or isinstance(n, ast.FunctionDef) and (
                n.name in ("__repr__", "__str__") or any("overload" in ast.unparse(d) for d in n.decorator_list)):
            return
        if isinstance(n, ast.ClassDef) and n.name.endswith("Protocol"):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, (ast.Expr,)) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func).split(".")[0] in ("log", "logging", "warnings", "print"):
            return
        if isinstance(n, ast.FunctionDef):
            for d in [*n.args.defaults, *n.args.kw_defaults]:
                if d is not None:
                    visit(d, infn)
            for b in n.body:
                visit(b, True)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                visit(n.value, infn)
            return
        if infn:
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                add(n, "pass", "delete")
            if isinstance(n, (ast.Assign, ast.AugAssign)) and not isinstance(n.targets[0] if isinstance(n, ast.Assign) else n.target, (ast.Name, ast.Tuple)):
                add(n, "pass", "delete")
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                add(n, "pass", "delete")
            if isinstance(n, (ast.If, ast.IfExp)):
                add(n.test, "(not (" + seg(n.test) + "))" if not isinstance(n.test, ast.NamedExpr) else seg(n.test), "negate")
                add(n.test, "(True or (" + seg(n.test) + "))", "always")
                add(n.test, "(False and (" + seg(n.test) + "))", "never")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, f"{seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])}", "cmp")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.JoinedStr) or isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            add(n, f"{seg(n.left)} {BIN[type(n.op)]} {seg(n.right)}", "arith")
        if isinstance(n, ast.BoolOp) and len(n.values) == 2:
            add(n, f"{seg(n.values[0])} {'or' if isinstance(n.op, ast.And) else 'and'} {seg(n.values[1])}", "bool")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            add(n, f"({seg(n.operand)})", "unary")
        if isinstance(n, ast.Constant) and type(n.value) in (int, float, bool):
            add(n, repr({True: False, False: True}[n.value]) if isinstance(n.value, bool) else repr(n.value + 1) if n.value != 1 else "0", "const")
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ("copy", "detach", "clone", "flatten", "mean", "abs", "squeeze") and not n.args and not n.keywords:
                add(n, seg(f.value), "drop")
            if ast.unparse(f) in ("deepcopy", "copy", "np.array", "to_numpy", "to_torch_as", "np.copy", "to_torch"):
                if n.args:
                    add(n, f"({seg(n.args[0])})", "drop")
            if ast.unparse(f) in ("min", "max", "np.minimum", "np.maximum", "torch.min", "torch.max"):
                fn = ast.unparse(f)
                add(n, fn.replace("min", "MIN").replace("max", "min").replace("MIN", "max") + seg(n)[len(seg(f)):], "minmax")
            for k in n.keywords:
                if k.arg and k.arg not in ("dtype", "device"):
                    pass
        for c in ast.iter_child_nodes(n):
            visit(c, infn)

    visit(tree, False)
    return raw, out


def props_of(f):
    m = []
    for l in open(f"{HERE}/../properties.jsonl"):
        d = json.loads(l)
        if f"tianshou/{f}" in d["anchors"]["files"]:
            m.append(d["id"])
    return m


def main():
    a = sys.argv[1:]
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    n, seed = int(opt("--n", 10)), int(opt("--seed", 1))
    vals = {opt("--n", None), opt("--seed", None)}
    rnd = random.Random(seed)
    subprocess.run(f"rm -rf {SC}; cp -a {BASE} {SC}", shell=True)
    for spec in [x for x in a if not x.startswith("--") and x not in vals]:
        f, _, ps = spec.partition(":")
        ps = ps.split(",") if ps else props_of(f)
        raw, ms = muts(open(f"{BASE}/tianshou/{f}").read())
        if "--list" in a:
            print(f, len(ms), ps)
            continue
        for ln, i, j, new, what in sorted(rnd.sample(ms, min(n, len(ms)))):
            t = raw[:i] + new.encode() + raw[j:]
            try:
                ast.parse(t.decode())
            except SyntaxError:
                continue
            open(f"{SC}/tianshou/{f}", "wb").write(t)
            res = []
            for p in ps:
                try:
                    r = subprocess.run(["./check.sh", p], cwd=f"{HERE}/..", capture_output=True, text=True, env={**os.environ, "VERIF_REPO": SC}, timeout=900)
                except subprocess.TimeoutExpired:
                    res.append(f"{p}:timeout")
                    continue
                inc = r.stdout.count("INCOMPLETE") + r.stderr.count("INCOMPLETE")
                unc = r.stdout.count("UNCONFIRMED")
                res.append(f"{p}:{r.returncode}" + (f"(inc {inc})" if inc else "") + (f"(unc {unc})" if unc else ""))
                if r.returncode == 1:
                    break
            v = "KILLED" if res and res[-1].split(":")[1][0] == "1" else "SURVIVED"
            print(f"{v} {f}:{ln} {what} [{' '.join(res)}]", flush=True)
        open(f"{SC}/tianshou/{f}", "wb").write(raw)


main()
