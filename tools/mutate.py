"""Mutation runs while developing: python3 tools/mutate.py gen FILE N SEED | run LIST OUT
A mutant = a single small AST-level change in a scratch copy of /repo/src; the given checks run against the copy
(VERIF_REPO_SRC). Prints killed/survived. Nothing registered in MANIFEST.json uses this."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import time

PKG = "/repo/src/megatron/energon"


def sites(src):
    """Yields (lineno, description, start, end, replacement) of possible mutations."""
    tree = ast.parse(src)
    lines = src.splitlines(True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    skip = set()
    for n in ast.walk(tree):
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if isinstance(a, ast.AST):
                skip.update(ast.walk(a))
        if isinstance(n, (ast.Raise, ast.Assert, ast.JoinedStr, ast.ClassDef)):
            skip.update(x for x in ast.walk(n) if x is not n and (not isinstance(n, ast.ClassDef) or x in n.bases))
        if isinstance(n, ast.If) and "should_log" in ast.unparse(n.test):
            skip.update(ast.walk(n))
        if isinstance(n, ast.FunctionDef) and n.name in ("config", "__str__", "__repr__"):
            skip.update(ast.walk(n))
    CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Mod: "//"}
    for n in ast.walk(tree):
        if n in skip or not hasattr(n, "lineno"):
            continue
        s, e = span(n)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            l = ast.unparse(n.left) + " " + CMP[type(n.ops[0])] + " " + ast.unparse(n.comparators[0])
            yield n.lineno, "cmp", s, e, "(" + l + ")"
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield n.lineno, "bin", s, e, "(" + ast.unparse(n.left) + " " + BIN[type(n.op)] + " " + ast.unparse(n.right) + ")"
        elif isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                yield n.lineno, "bool", s, e, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(" + ast.unparse(v) + ")" for v in rest) + ")"
        elif isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            yield n.lineno, "int", s, e, str(n.value + 1)
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield n.lineno, "boolc", s, e, str(not n.value)
        elif isinstance(n, ast.AugAssign) or (isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript))):
            yield n.lineno, "drop", s, e, "pass"
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            t = ast.unparse(n.value)
            if not t.startswith(("print", "warnings", "log")):
                yield n.lineno, "dropcall", s, e, "pass"
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "max", "min", "sorted", "reversed") and len(n.args) >= 1:
            yield n.lineno, "unwrap", s, e, "(" + ast.unparse(n.args[0]) + ")"
        elif isinstance(n, (ast.Continue, ast.Break)):
            yield n.lineno, "flow", s, e, "pass"
        elif isinstance(n, ast.IfExp):
            yield n.lineno, "ifexp", s, e, "(" + ast.unparse(n.body) + ")"
            yield n.lineno, "ifexp", s, e, "(" + ast.unparse(n.orelse) + ")"
        elif isinstance(n, ast.Slice) and (n.lower is not None and n.upper is None):
            yield n.lineno, "slice", s, e, ast.unparse(n.lower) + " + 1:"


def gen(file, n, seed, lo=0, hi=1 << 30):
    src = open(f"{PKG}/{file}").read()
    b = src.encode()
    out = []
    for ln, kind, s, e, rep in sites(src):
        if not lo <= ln <= hi:
            continue
        m = b[:s] + rep.encode() + b[e:]
        try:
            if ast.dump(ast.parse(m)) == ast.dump(ast.parse(src)):
                continue
        except SyntaxError:
            continue
        out.append(dict(file=file, line=ln, kind=kind, old=b[s:e].decode(), new=rep, s=s, e=e))
    random.Random(seed).shuffle(out)
    return out[:n]


def run(m, checks, env=()):
    d = "/tmp/mut"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
    p = f"{d}/src/megatron/energon/{m['file']}"
    b = open(p, "rb").read()
    if "s" in m:
        b = b[: m["s"]] + m["new"].encode() + b[m["e"]:]
    else:
        assert b.count(m["old"].encode()) == 1, (m, b.count(m["old"].encode()))
        b = b.replace(m["old"].encode(), m["new"].encode())
    open(p, "wb").write(b)
    r = subprocess.run([sys.executable, "-m", "py_compile", p], capture_output=True)
    if r.returncode:
        return "nocompile", ""
    res = []
    for c in checks:
        t = time.time()
        r = subprocess.run(["/verif/check.sh", c, "quick"], capture_output=True, text=True, cwd="/verif",
                           env={**os.environ, "VERIF_REPO_SRC": d + "/src", "VERIF_FAST": "1", **dict(env)})
        res.append(f"{c}:{r.returncode}({time.time() - t:.0f}s)")
        if r.returncode in (1, 3):
            break
    return ("killed" if r.returncode in (1, 3) else "SURVIVED" if all(":0(" in x for x in res) else "INCONCLUSIVE"), " ".join(res)


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        lo, hi = (int(sys.argv[5]), int(sys.argv[6])) if len(sys.argv) > 5 else (0, 1 << 30)
        for m in gen(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), lo, hi):
            print(json.dumps(m))
    else:
        # LIST: json lines with "checks"
        with open(sys.argv[3], "a") as out:
            for line in open(sys.argv[2]):
                if not line.strip():
                    continue
                m = json.loads(line)
                st, info = run(m, m["checks"])
                print(st, info, m["file"], m.get("line"), m.get("kind"), repr(m["old"][:80]), "->", repr(m["new"][:90]), file=out, flush=True)
