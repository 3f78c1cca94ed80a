"""The notebook magic: a cell is translated, shown, run, and its result kept."""
TARGET = 'spl_transpiler.runtime'
PROPERTY = 'C29'
NAMES = {'exec_with_return': 'utils.exec_with_return', 'spl': 'magic.spl'}
import ast
from argparse import ArgumentParser, BooleanOptionalAction
from spl_transpiler import convert_spl_to_pyspark
from spl_transpiler.runtime import commands, functions
from spl_transpiler.runtime.utils import exec_with_return as _run
from IPython.core.magic import cell_magic, needs_local_scope


def exec_with_return(code: str, globals: dict, locals: dict):
    """The whole code is run, the last expression or the target of the last assignment is its value."""
    tree = ast.parse(code)
    value = None
    if tree.body:
        last = tree.body[-1]
        if isinstance(last, ast.Expr):
            tree.body.pop()
            value = ast.unparse(last)
        elif isinstance(last, ast.Assign):
            value = ast.unparse(last.targets[0])
        elif isinstance(last, (ast.AnnAssign, ast.AugAssign)):
            value = ast.unparse(last.target)
    exec(ast.unparse(tree), globals, locals)
    if value:
        return eval(value, globals, locals)


def _options(line):
    p = ArgumentParser()
    p.add_argument("--dry-run", action=BooleanOptionalAction, default=False)
    p.add_argument("--use-runtime", action=BooleanOptionalAction, default=True)
    p.add_argument("--format-code", action=BooleanOptionalAction, default=True)
    p.add_argument("--print-code", action=BooleanOptionalAction, default=True)
    p.add_argument("--var-name", default="df")
    return p.parse_args(line.split())


@cell_magic
@needs_local_scope
def spl(line, cell, local_ns):
    from IPython.display import display
    from pyspark.sql import SparkSession, functions as F
    from rich.syntax import Syntax
    options = _options(line)
    code = convert_spl_to_pyspark(cell, allow_runtime=options.use_runtime, format_code=options.format_code)
    if options.print_code:
        display(Syntax(code, "python"))
    if options.dry_run:
        return
    try:
        spark = SparkSession.builder.getOrCreate()
        names = {**local_ns, "commands": commands, "functions": functions, "spark": spark, "F": F}
        result = _run(code, names, names)
    except Exception:
        raise RuntimeError
    local_ns[options.var_name] = result
