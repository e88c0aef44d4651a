"""automut.py OUT [--n N] [--seed S] [--jobs J] [--file SUBSTR]: random small edits of the library; which no check notices.

Every edit is made in a scratch copy; checks run one after another (those most likely first) until one
reports it.  OUT gets one JSON line per edit."""
import argparse, ast, json, os, random, shutil, signal, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ORDER = [
    ("groups/so2", "C01 C05 C08 C03 C06 C02 C23 C24 C25 C10 C20"), ("groups/o2", "C01 C02 C08 C06 C23 C24 C25 C10"),
    ("groups/so3", "C03 C01 C05 C04 C08 C06 C02 C07 C23 C24 C25 C10"), ("groups/o3", "C01 C02 C08 C06 C23 C24 C25 C10"),
    ("groups/s2", "C03 C06 C05 C23 C24 C25"), ("_grid_cache", "C07 C06 C17"), ("interpolation", "C08 C10 C22 C23"),
    ("repulsion", "C20 C06 C25 C24"), ("functional", "C09 C23 C24"), ("kernels/kernel.py", "C10 C21 C22 C09 C17 C25 C19"),
    ("kernels/", "C10 C19 C09 C17 C21 C23 C24"), ("modules/gconv.py", "C11 C21 C19 C18 C22 C25 C16"),
    ("modules/pooling", "C14 C16 C12"), ("modules/", "C13 C19 C11 C15 C16 C23 C24"),
]


def files():
    out = subprocess.run(["git", "ls-files", "gconv"], cwd=REPO, capture_output=True, text=True).stdout.split()
    return [f for f in out if f.endswith(".py") and "/tests/" not in f and "__init__" not in f]


class Sites(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.lines, self.out, self.fn = src, src.splitlines(keepends=True), [], []
        self.off = [0]
        for ln in src.encode().splitlines(keepends=True):
            self.off.append(self.off[-1] + len(ln))

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.src.encode()[a:b].decode()

    def add(self, n, new, what):
        a, b = self.span(n)
        if self.text(n) != new:
            self.out.append((a, b, new, what, n.lineno))

    def visit_FunctionDef(self, n):
        self.fn.append([a.arg for a in n.args.args + n.args.kwonlyargs])
        for d in n.args.defaults + n.args.kw_defaults:
            if d is not None:
                self.visit(d)
        for b in n.body:
            if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant)):
                self.visit(b)
        self.fn.pop()

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_BinOp(self, n):
        sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "*", ast.Pow: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.MatMult: "*"}
        l, r = self.text(n.left), self.text(n.right)
        if type(n.op) in sw:
            self.add(n, f"({l}) {sw[type(n.op)]} ({r})", "operator")
        if isinstance(n.op, (ast.Sub, ast.Div, ast.MatMult)):
            self.add(n, f"({r}) {'-' if isinstance(n.op, ast.Sub) else '/' if isinstance(n.op, ast.Div) else '@'} ({l})", "operands swapped")
        if isinstance(n.op, (ast.Add, ast.Mult, ast.Sub)):
            self.add(n, l, "right operand dropped")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            self.add(n, self.text(n.operand), "unary dropped")
        self.generic_visit(n)

    def visit_Compare(self, n):
        sw = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is"}
        if len(n.ops) == 1 and type(n.ops[0]) in sw:
            self.add(n, f"{self.text(n.left)} {sw[type(n.ops[0])]} {self.text(n.comparators[0])}", "comparison")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.add(n, str(not v), "constant")
        elif isinstance(v, int):
            self.add(n, str(v + 1), "constant")
            if v > 0:
                self.add(n, str(v - 1), "constant")
        elif isinstance(v, float):
            self.add(n, repr(v * 1.5 + (0.5 if v == 0 else 0)), "constant")

    def visit_If(self, n):
        self.add(n.test, f"not ({self.text(n.test)})", "condition")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, self.text(n.body), "first branch")
        self.add(n, self.text(n.orelse), "second branch")
        self.generic_visit(n)

    def visit_Call(self, n):
        for k in n.keywords:
            if k.arg:
                a, b = self.off[k.lineno - 1] + k.col_offset, self.off[k.end_lineno - 1] + k.end_col_offset
                e = b
                s = self.src.encode()
                while e < len(s) and s[e:e + 1] in b" \n":
                    e += 1
                if s[e:e + 1] == b",":
                    e += 1
                else:
                    e = b
                self.out.append((a, e, "", f"keyword {k.arg} dropped", k.lineno))
        args = [a for a in n.args if not isinstance(a, ast.Starred)]
        if len(args) >= 2 and len(args) == len(n.args):
            a, b = args[0], args[1]
            s, e = self.span(a)[0], self.span(b)[1]
            mid = self.src.encode()[self.span(a)[1]:self.span(b)[0]].decode()
            if self.text(a) != self.text(b):
                self.out.append((s, e, self.text(b) + mid + self.text(a), "arguments swapped", n.lineno))
        f = n.func
        if isinstance(f, ast.Attribute):
            sw = {"min": "max", "max": "min", "repeat": "repeat_interleave", "cos": "sin", "sin": "cos", "argmax": "argmin", "any": "all", "detach": "clone", "amin": "amax", "mean": "sum",
                  "clone": "contiguous", "ones": "zeros", "zeros": "ones", "rand": "randn", "randn": "rand"}
            if f.attr in sw:
                t = self.text(f)
                self.add(f, t[: len(t) - len(f.attr)] + sw[f.attr], "other function")
            if f.attr in ("clone", "detach", "flatten", "unsqueeze", "abs", "transpose", "squeeze", "contiguous", "to", "float"):
                self.add(n, self.text(f.value), f"{f.attr} dropped")
        self.generic_visit(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and self.fn:
            sw = {"in_H": "out_H", "out_H": "in_H", "num_in_H": "num_out_H", "num_out_H": "num_in_H", "in_channels": "out_channels", "out_channels": "in_channels"}
            if n.id in sw and sw[n.id] in self.fn[-1] + ["num_in_H", "num_out_H"]:
                self.add(n, sw[n.id], "other name")

    def visit_Attribute(self, n):
        sw = {"in_channels": "out_channels", "out_channels": "in_channels"}
        if n.attr in sw and isinstance(n.ctx, ast.Load):
            t = self.text(n)
            self.add(n, t[: len(t) - len(n.attr)] + sw[n.attr], "other attribute")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], ast.Subscript) or isinstance(n.targets[0], ast.Attribute):
            self.add(n, "pass", "statement dropped")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "statement dropped")
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call) and "super" not in self.text(n):
            self.add(n, "pass", "statement dropped")
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.add(n, "pass", "statement dropped")


def checks_for(f):
    every = ["C%02d" % i for i in range(1, 26)]
    first = next((o.split() for k, o in ORDER if k in f), [])
    return first + [c for c in every if c not in first]


def one(job):
    f, (a, b, new, what, line) = job
    d = tempfile.mkdtemp(prefix="am-")
    try:
        repo = os.path.join(d, "repo")
        shutil.copytree(REPO, repo, ignore=shutil.ignore_patterns(".git", "__pycache__", "*.ipynb"))
        p = os.path.join(repo, f)
        s = open(p, "rb").read()
        old = s[a:b].decode()
        open(p, "wb").write(s[:a] + new.encode() + s[b:])
        rec = dict(file=f, line=line, what=what, old=old[:200], new=new[:200], code=s.decode().splitlines()[line - 1].strip()[:160])
        env = dict(os.environ, GCONV_REPO=repo, VERIF_EVIDENCE_DIR=os.path.join(d, "ev"), OMP_NUM_THREADS="1", TMPDIR=d)
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", "import gconv.gnn"], cwd=repo, env=dict(env, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1"), capture_output=True)
        if r.returncode:
            return dict(rec, by="import")
        for c in checks_for(f):
            r = subprocess.Popen([os.path.join(HERE, "run_check.py"), c, "--no-models"], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
            try:
                rc = r.wait(600)
            except subprocess.TimeoutExpired:
                os.killpg(r.pid, signal.SIGKILL)
                r.wait()
                rc = "timeout"
            if rc != 0:
                return dict(rec, by=c, rc=rc)
        return dict(rec, by=None)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("out"); ap.add_argument("--n", type=int, default=100); ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=5); ap.add_argument("--file", default="")
    A = ap.parse_args()
    jobs = []
    for f in files():
        if A.file not in f:
            continue
        src = open(os.path.join(REPO, f)).read()
        v = Sites(src)
        v.visit(ast.parse(src))
        sites = [x for x in v.out if not ("_grid_cache" in f and x[3] in ("constant", "unary dropped")) and "warn" not in src.splitlines()[x[4] - 1]]
        jobs += [(f, x) for x in sites]
    random.Random(A.seed).shuffle(jobs)
    print(len(jobs), "sites")
    with open(A.out, "a") as o, ThreadPoolExecutor(A.jobs) as ex:
        for r in ex.map(one, jobs[: A.n]):
            o.write(json.dumps(r) + "\n"); o.flush()
