"""Development aid: random small changes to obp, run against the checks.

  mutate.py SLOT SEED COUNT [FILE...]   works on copies under /tmp/mc/SLOT; survivors go to /tmp/mc/SLOT.txt
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import time

MAP = {
    "obp/ope/estimators.py": "P01 P02 P06 P04 P03 P11",
    "obp/ope/estimators_tuning.py": "P04 P06 P11",
    "obp/ope/helper.py": "P05 P04 P10",
    "obp/ope/estimators_multi.py": "P07 P11",
    "obp/ope/estimators_continuous.py": "P08 P11",
    "obp/ope/estimators_slate.py": "P09 P11",
    "obp/ope/estimators_embed.py": "P10 P11",
    "obp/ope/meta.py": "P12",
    "obp/ope/meta_multi.py": "P12",
    "obp/ope/meta_continuous.py": "P12",
    "obp/ope/meta_slate.py": "P12",
    "obp/ope/regression_model.py": "P13 P30 P31",
    "obp/ope/regression_model_slate.py": "P13 P30 P31",
    "obp/ope/classification_model.py": "P14 P30 P31",
    "obp/utils.py": "P15 P11 P06",
    "obp/dataset/synthetic.py": "P16 P17 P30 P31",
    "obp/dataset/synthetic_multi.py": "P17 P30 P31",
    "obp/dataset/synthetic_embed.py": "P17 P30 P31",
    "obp/dataset/synthetic_slate.py": "P18 P30 P31",
    "obp/dataset/synthetic_continuous.py": "P19 P30 P31",
    "obp/dataset/multiclass.py": "P20",
    "obp/dataset/real.py": "P21",
    "obp/policy/base.py": "P22 P23 P27 P30",
    "obp/policy/contextfree.py": "P22 P30",
    "obp/policy/linear.py": "P23 P30 P31",
    "obp/policy/logistic.py": "P24 P30",
    "obp/simulator/simulator.py": "P25 P30 P31",
    "obp/simulator/replay.py": "P25 P31",
    "obp/simulator/delay_sampler.py": "P25 P30",
    "obp/simulator/coefficient_drifter.py": "P26 P30",
    "obp/policy/offline.py": "P27 P28 P30 P31",
    "obp/policy/offline_continuous.py": "P28 P30 P31",
}
SWAP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv]}
SKIPF = ("visualize", "__repr__")
NAMES = [("pscore", "pscore_avg"), ("action_by_behavior_policy", "action_by_evaluation_policy"), ("n_actions", "len_list"), ("min", "max"), ("mean", "sum"), ("argmax", "argmin"), ("zeros", "ones"), ("ones", "zeros"), ("lower", "upper")]


def dotted(n):
    return ast.unparse(n)


def sites(src):
    """(node, replacement text, kind) for every possible change."""
    t = ast.parse(src)
    out = []

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if any(n.name.startswith(s) for s in SKIPF):
                return
            fn = n.name
            for s in n.body:
                visit(s, fn)
            return
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.JoinedStr, ast.Assert)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None and fn:
                visit(n.value, fn)
            return
        if fn:
            new = []
            c = lambda: ast.parse(ast.unparse(n), mode="eval").body
            if isinstance(n, ast.Compare) and type(n.ops[0]) in SWAP:
                for o in SWAP[type(n.ops[0])]:
                    m = c()
                    m.ops[0] = o()
                    new.append(("cmp", ast.unparse(m)))
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                for o in BIN[type(n.op)]:
                    m = c()
                    m.op = o()
                    new.append(("op", f"({ast.unparse(m)})"))
            elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None:
                v = n.value
                if isinstance(v, bool):
                    new.append(("const", str(not v)))
                elif isinstance(v, int):
                    new += [("const", str(v + 1))] + ([("const", str(v - 1))] if v > 0 else [])
                elif isinstance(v, float):
                    new += [("const", repr(v + 0.5))]
            elif isinstance(n, ast.Call):
                for i, k in enumerate(n.keywords):
                    if k.arg:
                        m = c()
                        del m.keywords[i]
                        new.append(("drop-kw", ast.unparse(m)))
                if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("np",) and n.func.attr in ("abs", "maximum", "minimum", "log", "sqrt"):
                    if n.func.attr == "maximum":
                        new.append(("fn", ast.unparse(n).replace("np.maximum", "np.minimum", 1)))
                    elif n.func.attr == "minimum":
                        new.append(("fn", ast.unparse(n).replace("np.minimum", "np.maximum", 1)))
                    elif len(n.args) == 1:
                        new.append(("fn", f"({ast.unparse(n.args[0])})"))
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                for a, b in NAMES:
                    if n.attr == a:
                        m = c()
                        m.attr = b
                        new.append(("attr", ast.unparse(m)))
                if isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr in ("n_actions",):
                    pass
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
                new.append(("unary", f"({ast.unparse(n.operand)})"))
            elif isinstance(n, (ast.If, ast.While)):
                pass
            elif isinstance(n, ast.BoolOp):
                m = c()
                m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
                new.append(("bool", ast.unparse(m)))
            elif isinstance(n, (ast.AugAssign,)):
                new.append(("drop", "pass"))
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript,)):
                new.append(("drop", "pass"))
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                new.append(("drop", "pass"))
            elif isinstance(n, ast.IfExp):
                new.append(("ifexp", f"({ast.unparse(n.orelse)} if {ast.unparse(n.test)} else {ast.unparse(n.body)})"))
            for kind, text in new:
                out.append((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, text, kind, fn))
        for ch in ast.iter_child_nodes(n):
            visit(ch, fn)

    for x in t.body:
        visit(x, None)
    return out


def apply(src, s):
    l0, c0, l1, c1, text, kind, fn = s
    lines = src.splitlines(keepends=True)
    enc = [l.encode() for l in lines]
    a = sum(len(x) for x in enc[:l0 - 1]) + c0
    b = sum(len(x) for x in enc[:l1 - 1]) + c1
    raw = src.encode()
    return (raw[:a] + text.encode() + raw[b:]).decode()


def main():
    slot, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or list(MAP)
    base = f"/tmp/mc/{slot}"
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.run(["cp", "-a", "/repo", f"{base}/repo"], check=True)
    subprocess.run(["rsync", "-a", "--exclude", ".git", "--exclude", "evidence", "--exclude", "seeded", "/verif/", f"{base}/verif/"], check=False) if shutil.which("rsync") else subprocess.run(f"mkdir {base}/verif && cd /verif && cp -a checks symnp run.py run.sh setup.sh known_findings.txt MANIFEST.json properties.jsonl {base}/verif/", shell=True, check=True)
    p = f"{base}/verif/run.py"
    s = open(p).read().replace("/repo", f"{base}/repo")
    open(p, "w").write(s)
    rs = f"{base}/verif/run.sh"
    s = open(rs).read().replace("/verif", f"{base}/verif").replace("/repo", f"{base}/repo")
    open(rs, "w").write(s)
    rnd = random.Random(seed)
    log = open(f"/tmp/mc/{slot}.txt", "a")
    pool = []
    for f in files:
        src = open(f"{base}/repo/{f}").read()
        ss = sites(src)
        rnd.shuffle(ss)
        pool += [(i / max(1, len(ss)) if not sys.argv[4:] else rnd.random(), f, x) for i, x in enumerate(ss[:count])] if len(files) > 1 else [(rnd.random(), f, x) for x in ss[:count]]
    pool.sort(key=lambda x: rnd.random())
    for _, f, site in pool:
        path = f"{base}/repo/{f}"
        src = open(path).read()
        new = apply(src, site)
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        open(path, "w").write(new)
        t0 = time.time()
        res = []
        caught = None
        for pid in MAP[f].split():
            r = subprocess.run(["bash", f"{base}/verif/run.sh", pid, "quick"], capture_output=True, text=True, timeout=1500)
            res.append((pid, r.returncode))
            if r.returncode == 1:
                caught = pid
                break
        open(path, "w").write(src)
        old = src.splitlines()[site[0] - 1].strip()
        nl = new.splitlines()[site[0] - 1].strip()
        log.write(f"{'caught ' + caught if caught else 'SURVIVED'} {f}:{site[0]} [{site[6]}] {site[5]} {time.time()-t0:.0f}s {res}\n    - {old}\n    + {nl}\n")
        log.flush()


if __name__ == "__main__":
    main()
