"""Systematic mutation of the code under test, to find what the checks do not reach (development tool).

`python3 tools/mutate.py OUT.jsonl [--files GLOB] [--per-file N] [--jobs N] [--seed N]`
Every mutant lives in a scratch copy of /repo/src; survivors are reported with all the mapped checks quiet.
"""
import argparse
import ast
import fnmatch
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
SRC = Path("/repo/src/corrct")
MAP = {
    "_projector_backends.py": "C02 C03 C04 C01 C17",
    "data_terms.py": "C10 C08 C09 C20",
    "denoisers.py": "C20 C05",
    "filters.py": "C15 C01",
    "models.py": "C14 C01",
    "operators.py": "C01 C11",
    "param_tuning.py": "C13 C12 C20",
    "projectors.py": "C02 C03 C04 C01",
    "regularizers.py": "C11 C01 C05 C09",
    "solvers.py": "C08 C07 C06 C05 C09 C15",
    "struct_illum.py": "C16 C17 C01",
    "testing.py": "C20 C21",
    "alignment/*": "C22 C23",
    "physics/attenuation.py": "C04 C02 C21",
    "physics/*": "C21 C04 C02",
    "processing/pre.py": "C18",
    "processing/noise.py": "C20",
    "processing/*": "C19 C20",
}
SKIP_FUN = {"__repr__", "__str__", "_repr_html_", "plot", "inspect_fourier_img", "plot_emission_lines", "plot_transmittance_decay"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Pow: "*", ast.Mod: "//"}
BINS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Pow: "**", ast.Mod: "%"}
SWAP = dict(fmax="fmin", fmin="fmax", maximum="minimum", minimum="maximum", max="min", min="max", ceil="floor", floor="ceil", sin="cos", cos="sin", argmin="argmax", argmax="argmin", sum="mean", mean="sum", zeros="ones", ones="zeros", rfft="fft", abs="negative")


def candidates(text, rel):
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()))
    raw = text.encode()

    def seg(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    out = []

    def add(n, new, kind):
        a, b = seg(n)
        out.append((a, b, new, kind, n.lineno))

    def src(n):
        a, b = seg(n)
        return raw[a:b].decode()

    def visit(n, ctx):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if n.name in SKIP_FUN or n.name.startswith("plot") or n.name.startswith("_plot"):
                return
            body = n.body[1:] if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else n.body
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                visit(d, ctx)
            for b in body:
                visit(b, ctx)
            return
        if isinstance(n, ast.ClassDef):
            if "Astra" in n.name or "ASTRA" in n.name:
                return
            for b in n.body:
                visit(b, ctx)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise, ast.Assert)):
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                visit(n.value, ctx)
            return
        s = src(n) if isinstance(n, ast.stmt) else ""
        first = s.split("(")[0] if s else ""
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant):
                return
            if any(k in first for k in ("print", "plt.", "axs", "fig", "ax.", "super().__init__", "warnings")):
                return
            if isinstance(n.value, ast.Call):
                add(n, "pass", "drop-call")
        if isinstance(n, ast.If):
            t = src(n.test)
            if any(k in t for k in ("verbose", "plot", "has_astra", "TYPE_CHECKING", "__name__")):
                for o in n.orelse:
                    visit(o, ctx)
                return
            add(n.test, f"not ({t})", "negate-if")
        if isinstance(n, ast.IfExp):
            add(n.test, f"not ({src(n.test)})", "negate-ifexp")
        if isinstance(n, ast.Assign) and any(k in s for k in ("plt.", "axs", "fig")):
            return
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            add(n, f"{src(n.target)} {BIN[type(n.op)]}= {src(n.value)}", "aug-op")
            add(n, "pass", "drop-aug")
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, f"{src(n.left)} {CMP[type(n.ops[0])]} {src(n.comparators[0])}", "compare")
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            op = "is not" if isinstance(n.ops[0], ast.Is) else "is"
            add(n, f"{src(n.left)} {op} {src(n.comparators[0])}", "is")
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + op.join(f"({src(v)})" for v in n.values) + ")", "boolop")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                add(n, f"({src(n.left)}) {BIN[type(n.op)]} ({src(n.right)})", "binop")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, f"({src(n.operand)})", "unary")
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add(n, str(not v), "bool")
            elif isinstance(v, int):
                add(n, str(v + 1), "int+1")
                if v > 0:
                    add(n, str(v - 1), "int-1")
            elif isinstance(v, float):
                add(n, repr(v * 2 if v else 1.0), "float")
            return
        if isinstance(n, ast.Call):
            f = src(n.func)
            if any(k in f for k in ("print", "plt.", "axs", "tqdm", "ValueError", "format_time")):
                return
            if isinstance(n.func, ast.Attribute):
                if n.func.attr in ("copy", "deepcopy", "squeeze", "conj", "astype", "flatten") and not f.startswith(("np.", "cp.", "copy.")):
                    add(n, f"({src(n.func.value)})", "drop-" + n.func.attr)
                if n.func.attr in SWAP:
                    a = src(n)
                    add(n, src(n.func.value) + "." + SWAP[n.func.attr] + a[len(f) :], "swap-fun")
                if f == "np.array" and len(n.args) >= 1:
                    add(n, "np.asarray" + src(n)[len(f) :].replace(", ndmin=1", ""), "asarray")
            elif f in ("max", "min"):
                add(n, SWAP[f] + src(n)[len(f) :], "swap-fun")
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    args = [src(a) for a in n.args] + [(f"{q.arg}=" if q.arg else "**") + src(q.value) for q in n.keywords if q is not k]
                    add(n, f"{f}({', '.join(args)})", f"drop-kw-{k.arg}")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and n.slice.step is None and n.slice.lower is None and n.slice.upper is None:
            return
        for ch in ast.iter_child_nodes(n):
            visit(ch, ctx)

    for b in tree.body:
        visit(b, None)
    seen, res = set(), []
    for c in out:
        if c[:3] not in seen and raw[c[0] : c[1]].decode() != c[2]:
            seen.add(c[:3])
            res.append(c)
    return raw, res


def checks_of(rel):
    for k, v in MAP.items():
        if fnmatch.fnmatch(rel, k):
            return v.split()
    return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default="*")
    ap.add_argument("--per-file", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--lines", default=None)
    ap.add_argument("--checks", default=None)
    a = ap.parse_args()
    tmp = Path(tempfile.mkdtemp(prefix="mut_"))
    done = set()
    out = Path(a.out)
    if out.exists():
        for ln in out.read_text().splitlines():
            r = json.loads(ln)
            done.add((r["file"], r["start"], r["end"], r["new"]))
    todo = []
    for p in sorted(SRC.rglob("*.py")):
        rel = str(p.relative_to(SRC))
        if not fnmatch.fnmatch(rel, a.files) or not checks_of(rel):
            continue
        raw, cs = candidates(p.read_text(), rel)
        if a.lines:
            lo, hi = map(int, a.lines.split("-"))
            cs = [c for c in cs if lo <= c[4] <= hi]
        rnd = random.Random(f"{a.seed}-{rel}")
        rnd.shuffle(cs)
        if a.per_file:
            cs = cs[: a.per_file]
        todo += [(rel, raw, c) for c in cs if (rel, c[0], c[1], c[2]) not in done]
    random.Random(a.seed).shuffle(todo)
    print(len(todo), "mutants", flush=True)
    free = []
    for j in range(a.jobs):
        d = tmp / f"w{j}"
        shutil.copytree("/repo/src", d / "src", ignore=shutil.ignore_patterns("__pycache__", "*.egg-info"))
        free.append(d)
    lock = threading.Lock()
    count = dict(killed=0, survived=0, timeout=0, invalid=0)

    def work(item):
        rel, raw, (s, e, new, kind, line) = item
        with lock:
            d = free.pop()
        f = d / "src" / "corrct" / rel
        try:
            mut = raw[:s] + new.encode() + raw[e:]
            try:
                compile(mut, rel, "exec")
            except SyntaxError:
                count["invalid"] += 1
                return
            f.write_bytes(mut)
            status, by = "survived", None
            env = dict(os.environ, VERIF_REPO_SRC=str(d / "src"), VERIF_STOP_FIRST="1", VERIF_CASE_TIMEOUT="30")
            for c in a.checks.split() if a.checks else checks_of(rel):
                try:
                    r = subprocess.run([str(HERE / "check"), c, "--no-evidence", "--jobs", "1"], env=env, capture_output=True, text=True, timeout=420)
                except subprocess.TimeoutExpired:
                    status, by = "timeout", c
                    break
                if r.returncode != 0:
                    status, by = ("killed", c) if r.returncode == 1 else ("broken", c)
                    break
            with lock:
                count[status] = count.get(status, 0) + 1
                with out.open("a") as o:
                    o.write(json.dumps(dict(file=rel, line=line, start=s, end=e, old=raw[s:e].decode(), new=new, kind=kind, status=status, by=by)) + "\n")
                n = sum(count.values())
                if n % 50 == 0:
                    print(n, count, flush=True)
        finally:
            f.write_bytes(raw)
            with lock:
                free.append(d)

    try:
        with ThreadPoolExecutor(a.jobs) as ex:
            list(ex.map(work, todo))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(count)


if __name__ == "__main__":
    main()
