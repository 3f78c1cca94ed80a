"""The check of one property of the Python part."""
import json
import os
import shutil
import subprocess
import tempfile
import time

from . import prove as P

HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = ('C21', 'C27', 'C28', 'C29')
PYTHON = '/opt/spl-venv/bin/python'
HEAVY = {'default_table_lookup': 3, 'data_model': 2, 'substitute_macros': 2}

BASE = [
    'pyv: its symbolic execution of Python source (the ast of the functions as they stand in the tree), its models of built-in functions, lists, dicts and strings, and the rewriting of its terms',
    'z3, for conditions on integers and lengths',
    'the specifications themselves (pyv/spec/*.py, Python functions executed by the same engine)',
    'pyspark, pydantic, pathlib, ipaddress, warnings and logging: calls of them are uninterpreted (same function and arguments, same result or exception)',
]
ASSUME = [
    'enforce_types and pydantic models accept arguments of the annotated types unchanged apart from the documented conversion to Expr; conversions at calls between functions of the package are not modelled',
    'detect_macros, parse and render_pyspark of the extension module are functions of their arguments (contracts of their own: C26, C19, C03)',
    'exec, eval, display and the storing of a result are events compared in their order, with everything they are given; the syntax tree of ast.parse is determined by its list of statements; argparse reads a line by the set of declared options',
    'Spark columns and data frames are immutable values; building them has no side effects',
    'termination is not proved; a macro that expands to itself runs into the recursion limit',
    'the module is loaded from the file it is in, without monkey-patching; names are resolved as written in the module',
]


def world():
    w = P.world()
    return w, P.contracts(w)


def prove(w, c):
    return P.prove(w, c)


def tree(ext):
    """A copy of the Python package with the extension module built from the current source."""
    d = tempfile.mkdtemp(prefix='pyv-')
    shutil.copytree(os.path.join(P.ROOT, 'spl_transpiler'), os.path.join(d, 'spl_transpiler'), ignore=shutil.ignore_patterns('*.so', '__pycache__'))
    for n in os.listdir(ext):
        if n.endswith('.so'):
            shutil.copy(os.path.join(ext, n), os.path.join(d, 'spl_transpiler', n))
    return d


def replay(root, targets, seed, budget):
    """Run the real functions and their contracts on the same random inputs."""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', HOME='/tmp', TZ='UTC')
    env.pop('PYTHONPATH', None)
    try:
        r = subprocess.run([PYTHON, os.path.join(HERE, 'oracle.py'), root, os.path.join(HERE, 'spec'), str(seed), str(budget)] + list(targets),
                           capture_output=True, text=True, timeout=budget + 90, env=env, cwd=root)
        return json.loads(r.stdout.strip().splitlines()[-1])
    except (subprocess.TimeoutExpired, ValueError, IndexError) as e:
        return dict(hit=None, tried=0, errors=['the run did not finish: %s' % type(e).__name__], seconds=budget)
