"""Random syntactic mutants of a file, judged by the mapped checks (development aid; no check uses it).
usage: automut.py FILE PIDS N [SEED]   prints the mutants that no check reports"""
import ast, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("MUT_BASE", "/repo")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "//", ast.Pow: "*"}
PAIR = [("next_state", "state"), ("batch_done", "batch_reset"), ("train_recurrent_states", "test_recurrent_states"), ("min", "max"), ("any", "all"),
        ("target_model", "model"), ("model", "target_model"), ("q_func1", "q_func2"), ("target_q_func1", "target_q_func2"), ("done", "reset"), ("reset", "done"),
        ("next_action", "action"), ("low", "high"), ("high", "low"), ("mean", "sum"), ("sum", "mean"), ("append", "extend"), ("is_state_terminal", "reward")]

def muts(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    txt = lambda n: b[slice(*pos(n))].decode()
    out = []
    def rep(n, new, k):
        s, e = pos(n)
        out.append((n.lineno, k, (b[:s] + new.encode() + b[e:]).decode(), txt(n)[:70], new[:70]))
    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef,)):
            continue
        doc = fn.body[0] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else None
        for n in ast.walk(fn):
            if n is fn or n is doc or (doc is not None and n is doc.value):
                continue
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                rep(n, "%s %s %s" % (txt(n.left), CMP[type(n.ops[0])], txt(n.comparators[0])), "cmp")
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                rep(n, "((%s) %s (%s))" % (txt(n.left), BIN[type(n.op)], txt(n.right)), "bin")
            elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
                rep(n, repr(n.value + 1), "const")
                if n.value not in (0,):
                    rep(n, repr(0), "const0")
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                rep(n, repr(not n.value), "bool")
            elif isinstance(n, ast.BoolOp):
                j = " or " if isinstance(n.op, ast.And) else " and "
                rep(n, "(" + j.join("(%s)" % txt(v) for v in n.values) + ")", "boolop")
                rep(n, "(%s)" % txt(n.values[0]), "dropcond")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                rep(n, "(%s)" % txt(n.operand), "not")
            elif isinstance(n, (ast.If, ast.While)) and n.lineno:
                rep(n.test, "not (%s)" % txt(n.test), "negif")
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)) and not (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield))):
                rep(n, "pass", "del")
            elif isinstance(n, ast.Attribute):
                for a, c in PAIR:
                    if n.attr == a:
                        rep(n, txt(n.value) + "." + c, "attr")
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                for a, c in PAIR:
                    if n.id == a:
                        rep(n, c, "name")
            elif isinstance(n, ast.Continue):
                rep(n, "break", "brk")
            elif isinstance(n, ast.Break):
                rep(n, "continue", "brk")
            elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                rep(n, txt(n.value) + "[:]", "slice")
            elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords:
                rep(n, "%s(%s, %s)" % (txt(n.func), txt(n.args[1]), txt(n.args[0])), "swapargs")
    seen, r = set(), []
    for m in out:
        if m[2] not in seen and m[2] != src:
            seen.add(m[2])
            try:
                compile(m[2], "x", "exec")
                r.append(m)
            except SyntaxError:
                pass
    return r

def one(job):
    f, pids, m = job
    d = tempfile.mkdtemp(prefix="mut")
    try:
        r = d + "/repo"
        shutil.copytree(BASE, r, ignore=shutil.ignore_patterns(".git", "docs", "examples", "assets", "build", "*.egg-info"))
        open(r + "/" + f, "w").write(m[2])
        res = []
        for pid in pids:
            c = subprocess.run(["python3-vt", "check.py", pid], cwd=HERE, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=r, VERIF_SEED="1", VERIF_TIER="quick", VERIF_EVIDENCE=d))
            if c.returncode == 1:
                return None if "--all" not in sys.argv else "caught %s %s" % (pid, m[0])
            res.append("%s:%d:%s" % (pid, c.returncode, (c.stdout.strip().splitlines() or ["?"])[-1].split(";")[0][5:]))
        return "%s:%d %s %r -> %r   %s" % (f, m[0], m[1], m[3], m[4], " ".join(res) if any(not q.split(":")[1] == "0" or " 0 undec" not in q for q in res) else "")
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    f, pids, n = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3])
    seed = int(sys.argv[4]) if len(sys.argv) > 4 and sys.argv[4].isdigit() else 0
    ms = muts(open(BASE + "/" + f).read())
    random.Random(seed).shuffle(ms)
    ms = ms[:n]
    print("#", f, len(ms), "mutants", flush=True)
    k = 0
    with ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
        for r in ex.map(one, [(f, pids, m) for m in ms]):
            if r:
                k += 1
                print(r, flush=True)
    print("# survivors", k, "of", len(ms), flush=True)
