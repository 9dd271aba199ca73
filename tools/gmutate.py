"""Guarded mutations: small changes that only act under a rare condition.
gmutate.py OUT.jsonl SEED [N]   (a development aid, no check)"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import warnings
from concurrent.futures import ThreadPoolExecutor

sys.argv, ARGV = ["mutate", "-"], sys.argv
import mutate as M  # noqa: E402

COND = ["pos > 40", "pos > 300", "pos % 16 == 13", "pos == 7",
        "pos == len(stream) - 1", "pos + 2 == len(stream)",
        "len(stream) > 60", "len(stream) % 5 == 4", "pos == len(stream) > 2",
        "ctx.mark > 5", "ctx.mark == 3", "ctx.loc.line > 2",
        "ctx.loc.col > 30", "isinstance(stream, tuple)",
        "isinstance(stream, str) and not stream.isascii()",
        "0 < pos < len(stream) and stream[pos] == stream[pos - 1]"]
CONDR = ["rem == 1", "ins > 6", "ins == 0", "ins == 2", "rem == 0 and ins > 1",
         "rem is not None and rem < ins", "rem is None and ins == 3",
         "rem == ins == 4"]


def functions(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            a = [x.arg for x in n.args.args]
            if a[:2] == ["stream", "pos"] and "ctx" in a:
                yield n, a


def made(f, rng):
    src = open("/repo/src/reparsec/" + f).read()
    tree = ast.parse(src)
    orig = {ast.unparse(n): (i, a) for i, (n, a) in enumerate(
        functions(tree))}
    olist = [ast.unparse(n) for n, a in functions(tree)]
    out = []
    for line, what, text in M.mutants(src):
        mt = ast.parse(text)
        fs = list(functions(mt))
        if len(fs) != len(olist):
            continue
        diff = [i for i, (n, a) in enumerate(fs)
                if ast.unparse(n) != olist[i]]
        if len(diff) != 1:
            continue
        i = diff[0]
        n, a = fs[i]
        cond = rng.choice(COND + (CONDR * 2 if "rem" in a else []))
        both = ast.parse(src)
        o = list(functions(both))[i][0]
        o.body = [ast.If(ast.parse(cond, mode="eval").body,
                         copy.deepcopy(n.body), copy.deepcopy(o.body))]
        try:
            g = ast.unparse(ast.fix_missing_locations(both))
            compile(g, "x", "exec")
        except (SyntaxError, ValueError, TypeError):
            continue
        out.append((f, line, "{}: {} when {}".format(n.name, what, cond),
                    text, g))
    return out


def tests(repo, env):
    r = M.sh([M.PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
              "--timeout=60", "--doctest-modules", "--doctest-glob=*.rst",
              "tests", "src", "docs/source/pages"], 90, cwd=repo, env=env)
    return r is not None and r.returncode == 0


def one(job):
    k, (f, line, what, plain, guarded) = job
    d = "/tmp/gmut/w{}".format(k)
    repo = d + "/repo"
    os.makedirs(d)
    try:
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        env = dict(os.environ, PYTHONPATH=repo + "/src",
                   PYTHONDONTWRITEBYTECODE="1")
        p = repo + "/src/reparsec/" + f
        res = dict(file=f, line=line, what=what)
        open(p, "w").write(plain)
        if tests(repo, env):
            return dict(res, by="maybe equivalent")
        open(p, "w").write(guarded)
        if not tests(repo, env):
            return dict(res, by="tests")
        ev = dict(os.environ, REPARSEC_REPO=repo, VERIF_SEED="1",
                  VERIF_EVIDENCE=d + "/ev", VERIF_OUT=d + "/out")
        odd = []
        for c in M.ORDER:
            r = M.sh([os.path.join(M.ROOT, "check"), c], 900, cwd=M.ROOT,
                     env=ev)
            if r is None:
                return dict(res, by=c + " timeout")
            if r.returncode == 1:
                return dict(res, by=c, odd=odd)
            if r.returncode not in (0, 1):
                odd.append(c + " rc%d" % r.returncode)
        return dict(res, by=None, odd=odd)
    finally:
        shutil.rmtree(d)


def main(outp, seed, n=60):
    rng = random.Random(seed)
    warnings.simplefilter("ignore")
    jobs = []
    for f in M.FILES:
        if f.startswith("core/"):
            jobs += made(f, rng)
    print(len(jobs), "possible", flush=True)
    jobs = rng.sample(jobs, int(n))
    with ThreadPoolExecutor(3) as ex, open(outp, "w") as h:
        for r in ex.map(one, enumerate(jobs)):
            h.write(json.dumps(r) + "\n")
            h.flush()


main(*ARGV[1:])
