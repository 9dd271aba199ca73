"""Mutation sweep: which small changes to the source escape both the tests and
every check?  mutate.py OUT.jsonl [FILE...]   (a development aid, no check)"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import warnings
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
FILES = ["core/combinators.py", "core/repair.py", "core/recovery.py",
         "core/result.py", "core/sequence.py", "core/scannerless.py",
         "core/layout.py", "core/types.py", "core/primitive.py",
         "core/chain.py", "core/parser.py", "lexer.py", "layout.py",
         "primitive.py", "scannerless.py", "sequence.py", "types.py",
         "parser.py"]
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE],
       ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn],
       ast.NotIn: [ast.In]}


def mutants(src):
    tree = ast.parse(src)
    nodes = []

    def walk(n, infn):
        for f, v in ast.iter_fields(n):
            if f in ("annotation", "returns", "decorator_list"):
                continue
            for i, c in enumerate(v if isinstance(v, list) else [v]):
                if isinstance(c, ast.AST):
                    nodes.append((n, f, i if isinstance(v, list) else None,
                                  infn))
                    walk(c, infn or isinstance(c, (ast.FunctionDef,
                                                   ast.Lambda)))
    walk(tree, False)
    for k, (par, f, i, infn) in enumerate(nodes):
        def get(t=None):
            v = getattr(par, f)
            return v if i is None else v[i]
        n = get()
        alts = []
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                m = copy.deepcopy(n)
                m.ops = [o()]
                alts.append(m)
        if isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            alts.append(m)
            for j in range(len(n.values)):
                alts.append(n.values[j])
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            m = copy.deepcopy(n)
            m.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
            alts += [m, n.left]
        if isinstance(n, ast.Constant) and infn:
            if n.value is True or n.value is False:
                alts.append(ast.Constant(not n.value))
            elif n.value is None:
                alts += [ast.Constant(0)]
            elif isinstance(n.value, int):
                alts += [ast.Constant(n.value + 1), ast.Constant(
                    n.value - 1), ast.Constant(None)]
            elif isinstance(n.value, str) and not (
                    isinstance(par, ast.Expr)):
                alts.append(ast.Constant(n.value + "?"))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            alts.append(n.operand)
        if f == "test":
            alts.append(ast.UnaryOp(ast.Not(), copy.deepcopy(n)))
            alts += [ast.Constant(True)]
            if not isinstance(par, ast.While):
                alts += [ast.Constant(False)]
        if isinstance(n, ast.IfExp):
            alts += [n.body, n.orelse]
        if isinstance(n, ast.Call) and infn:
            if n.args and not n.keywords:
                if isinstance(n.func, ast.Attribute) and n.func.attr in (
                        "fmap", "prepend_expected", "set_expected",
                        "set_mark", "update_loc"):
                    alts.append(n.func.value)
                for j in range(len(n.args) - 1):
                    m = copy.deepcopy(n)
                    m.args[j], m.args[j + 1] = m.args[j + 1], m.args[j]
                    alts.append(m)
                if len(n.args) > 1:
                    m = copy.deepcopy(n)
                    m.args.pop()
                    alts.append(m)
            if isinstance(n.func, ast.Name) and n.func.id == "Append":
                alts += n.args
            if isinstance(n.func, ast.Name) and n.func.id in ("min", "max"):
                m = copy.deepcopy(n)
                m.func.id = "max" if n.func.id == "min" else "min"
                alts.append(m)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and infn:
            sub = {"ins": ["rem"], "rem": ["ins", "None"], "pos": ["0"],
                   "ra": ["rb"], "rb": ["ra"], "rra": ["rrb"],
                   "rrb": ["rra"], "va": ["vb"], "a": ["b"], "b": ["a"],
                   "l": ["r"], "parse_fn": ["second_fn"], "p": ["r.pos"],
                   "expected": ["()"]}
            for s in sub.get(n.id, []):
                alts.append(ast.parse(s, mode="eval").body)
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            sub = {"pos": ["loc"], "fn": ["fast_fn"], "start": ["end"],
                   "end": ["start"], "parse_fn": ["parse_fast_fn"],
                   "mark": ["loc.col"], "prio": ["ins", "cost"],
                   "cost": ["pos"], "ctx": ["ctx0"], "line": ["col"],
                   "col": ["line"]}
            for s in sub.get(n.attr, []):
                if s == "ctx0":
                    alts.append(ast.Name("ctx", ast.Load()))
                else:
                    m = ast.parse("x." + s, mode="eval").body
                    inner = m
                    while not isinstance(inner.value, ast.Name):
                        inner = inner.value
                    inner.value = n.value
                    alts.append(m)
        if isinstance(n, ast.stmt) and infn:
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise)) or (
                    isinstance(n, ast.Expr) and not isinstance(
                        n.value, ast.Constant)):
                alts.append(ast.Pass())
            if isinstance(n, ast.If):
                alts.append(ast.Pass())
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name):
                pass
        for a in alts:
            v = getattr(par, f)
            if i is None:
                setattr(par, f, a)
            else:
                v[i] = a
            try:
                out = ast.unparse(ast.fix_missing_locations(
                    copy.deepcopy(tree)))
                compile(out, "x", "exec")
                line = getattr(n, "lineno", 0)
                yield line, "{} -> {}".format(
                    ast.unparse(n).split("\n")[0][:100],
                    ast.unparse(a).split("\n")[0][:100]), out
            except (SyntaxError, AttributeError, TypeError, ValueError):
                pass
            finally:
                if i is None:
                    setattr(par, f, n)
                else:
                    v[i] = n


def sh(cmd, t, **kw):
    try:
        return subprocess.run(cmd, capture_output=True, text=True, timeout=t,
                              **kw)
    except subprocess.TimeoutExpired:
        return None


ORDER = "C08 C06 C01 C12 C10 C11 C17 C14 C02 C13 C16 C15 C18 C19 C09 C07" \
    " C05 C04 C03 C20 C26 C23 C21 C25 C22 C24".split()


def one(job):
    k, f, line, what, out = job
    d = "/tmp/mut/w{}".format(k)
    repo = d + "/repo"
    os.makedirs(d)
    try:
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        with open(repo + "/src/reparsec/" + f, "w") as h:
            h.write(out)
        env = dict(os.environ, PYTHONPATH=repo + "/src",
                   PYTHONDONTWRITEBYTECODE="1")
        r = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
                "--timeout=60", "--doctest-modules", "--doctest-glob=*.rst",
                "tests", "src", "docs/source/pages"], 90, cwd=repo, env=env)
        res = dict(file=f, line=line, what=what)
        if r is None or r.returncode != 0:
            return dict(res, by="tests")
        ev = dict(os.environ, REPARSEC_REPO=repo, VERIF_SEED="1",
                  VERIF_EVIDENCE=d + "/ev", VERIF_OUT=d + "/out")
        odd = []
        for c in ORDER:
            r = sh([os.path.join(ROOT, "check"), c], 900, cwd=ROOT, env=ev)
            if r is None:
                return dict(res, by=c + " timeout")
            if r.returncode == 1:
                return dict(res, by=c)
            if r.returncode not in (0, 1):
                odd.append(c + " rc%d" % r.returncode)
        return dict(res, by=None, odd=odd)
    finally:
        shutil.rmtree(d)


def main():
    outp = sys.argv[1]
    files = sys.argv[2:] or FILES
    warnings.simplefilter("ignore")
    jobs = []
    for f in files:
        src = open("/repo/src/reparsec/" + f).read()
        seen = {ast.unparse(ast.parse(src))}
        for line, what, out in mutants(src):
            if out not in seen and line >= int(
                    os.environ.get("FROM_LINE", 0)):
                seen.add(out)
                jobs.append((len(jobs), f, line, what, out))
    print(len(jobs), "mutants", flush=True)
    if outp == "-":
        return
    with ThreadPoolExecutor(7) as ex, open(outp, "w") as h:
        for r in ex.map(one, jobs):
            h.write(json.dumps(r) + "\n")
            h.flush()


if __name__ == "__main__":
    main()
