"""reach.py [N]: which lines of functions of the code under test no check
reaches, and how many checks reach each function (N scenarios each)."""
import ast
import glob
import json
import os
import subprocess
import sys
import tempfile

N = sys.argv[1] if len(sys.argv) > 1 else '60'
REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = ['C%02d' % i for i in range(1, 19)]
by = {}
for p in PROPS:
    with tempfile.TemporaryDirectory() as d:
        subprocess.run([sys.executable, '-m', 'sim.check', p, '--n', N,
                        '--all', '--workers', '3'], cwd=HERE,
                       env=dict(os.environ, SIM_COV=d),
                       stdout=subprocess.DEVNULL)
        by[p] = set()
        for f in glob.glob(d + '/*'):
            by[p] |= {tuple(x) for x in json.load(open(f))}
for path in sorted(glob.glob(REPO + '/pvfactors/**/*.py', recursive=True)):
    if '/tests/' in path or path.endswith('_version.py'):
        continue
    name = path.split(REPO + '/pvfactors/')[-1]
    tree = ast.parse(open(path).read())
    for c in ast.walk(tree):
        if not isinstance(c, (ast.FunctionDef,)):
            continue
        lines = set()
        for st in c.body:
            for x in ast.walk(st):
                if isinstance(x, ast.stmt) and not (
                        isinstance(x, ast.Expr) and isinstance(
                            x.value, ast.Constant)):
                    lines.add(x.lineno)
        who = [p for p in PROPS if any((name, n) in by[p] for n in lines)]
        miss = sorted(n for n in lines
                      if not any((name, n) in by[p] for p in PROPS))
        print('%-36s %-44s %2d/%d %s %s' % (
            name, c.name, len(lines) - len(miss), len(lines),
            ','.join(p[1:] for p in who) if len(who) < 9 else len(who),
            miss if miss else ''))
