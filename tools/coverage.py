"""Which lines of elli no check executes symbolically:  mkdir D; SYMX_COV=D ./check.py C.. ; coverage.py D"""
import ast
import glob
import os
import sys

SRC = os.environ.get("ELLI_SRC", "/repo/src")
hits = set()
for f in glob.glob(os.path.join(sys.argv[1], "cov_*")):
    for l in open(f):
        a, b = l.strip().rsplit(":", 1)
        hits.add((a, int(b)))


def lines(co):
    r = {l for _, _, l in co.co_lines() if l}
    for c in co.co_consts:
        if hasattr(c, "co_code"):
            r |= lines(c)
    return r


for root, _, fs in os.walk(os.path.join(SRC, "elli")):
    for name in sorted(fs):
        if not name.endswith(".py"):
            continue
        p = os.path.join(root, name)
        s = open(p).read()
        tree = ast.parse(s)
        fn, skip = set(), set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                for b in n.body if isinstance(n.body, list) else [n.body]:
                    fn |= set(range(b.lineno, b.end_lineno + 1))
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                skip |= set(range(n.lineno, n.end_lineno + 1))
        want = {l for l in lines(compile(s, p, "exec")) if l in fn and l not in skip}
        rel = os.path.relpath(p, SRC)
        miss = sorted(want - {l for a, l in hits if a == rel})
        print("##", rel, f"{len(want) - len(miss)}/{len(want)}")
        for l in miss:
            print("   ", l, s.splitlines()[l - 1].strip()[:110])
