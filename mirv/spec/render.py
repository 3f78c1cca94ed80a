"""Contracts of the rendering of columns, expressions and data frames as Python code (src/pyspark/ast.rs, base.rs)."""
from ..dsl import *
from .core import *
from .commands import *

CODE = lambda: tyid('pyspark::base::PythonCode')


def code(c, before=()):
    """Python code: statements that must come before it, and an expression."""
    return PB.PythonCode(preface=before if isinstance(before, T) else list(before), primary_df_code=c)


def text(pc):
    """Code as text: one statement a line, then the expression."""
    return cat(join('', fmap(lambda l: cat(l, '\n'), pc._preface)), pc._primary_df_code)


def Q(ty):
    return impl('ToSparkQuery', 'to_spark_query', ty)


def plain(name, pattern):
    """Contract of a rendering that is a mere expression: no statements, never fails."""
    def deco(f):
        def spec(*a):
            return code(f(*a[:1]))
        spec.__name__ = name
        c = contract(name, pattern, result=True, opaque=True, total=True, view=lambda x, ctx=None: (x,), apptype=STRT, wrap=lambda r, *a: code(r))(spec)
        return lambda x: c(x)._primary_df_code
    return deco


def commas(f, xs, sep=', '):
    return join(sep, fmap(f, xs))


@plain('pycode.lit', Q('PyLiteral'))
def r_lit(l):
    return l._0


@plain('pycode.col', Q('ColumnLike'))
def r_col(c):
    if is_(c, 'Named'):
        return cat("F.col('", c._name, "')")
    if is_(c, 'Literal'):
        return cat('F.lit(', c._code, ')')
    if is_(c, 'MethodCall'):
        return cat(r_receiver(c._col), '.', c._func, '(', commas(r_expr, c._args), ')')
    if is_(c, 'FunctionCall'):
        f = c._func if contains(c._func, '.') else cat('F.', c._func)
        return cat(f, '(', commas(r_expr, c._args), ')')
    if is_(c, 'Aliased'):
        return cat(r_receiver(c._col), ".alias('", c._name, "')")
    if is_(c, 'BinaryOp'):
        return cat(r_expr(c._left), ' ', c._op, ' ', r_expr(c._right))
    return cat('~', r_expr(c._right))


@plain('pycode.expr', Q('pyspark::ast::Expr'))
def r_expr(e):
    if is_(e, 'PyLiteral'):
        return r_lit(e._0)
    if is_(e._0, 'BinaryOp'):
        return cat('(', r_col(e._0), ')')
    return r_col(e._0)


@plain('pycode.receiver', inh('Expr', 'to_spark_receiver'))
def r_receiver(e):
    if is_(e, 'Column') and is_(e._0, 'UnaryNot'):
        return cat('(', r_expr(e), ')')
    return r_expr(e)


@plain('pycode.name', Q('ColumnOrName'))
def r_name(c):
    if is_(c, 'Column'):
        return r_col(c._0)
    return cat('"', c._0, '"')


def full(name, ty):
    """Contract of a rendering with statements; it never fails."""
    def deco(f):
        def spec(x, ctx=None):
            return f(x)
        spec.__name__ = name
        c = contract(name, Q(ty), result=True, opaque=True, total=True, view=lambda x, ctx=None: (x,), apptype=CODE)(spec)
        return lambda x: c(x)
    return deco


def args_of(args, kwargs, key):
    """(statements, rendered arguments) of positional and keyword arguments."""
    a = [r_rt(x) for x in args] if isinstance(args, list) else None
    pre = concat(flatmap(lambda x: r_rt(x)._preface, args), flatmap(lambda kv: r_rt(kv._1)._preface, kwargs))
    out = concat(fmap(lambda x: r_rt(x)._primary_df_code, args), fmap(lambda kv: cat(key(kv._0), r_rt(kv._1)._primary_df_code), kwargs))
    return pre, out


@full('pycode.dict', 'PyDict')
def r_dict(d):
    pre, out = args_of([], d._0, lambda k: cat('"', k, '": '))
    return code(cat('{ ', join(', ', out), ' }'), pre)


@full('pycode.list', 'PyList')
def r_list(l):
    pre, out = args_of(l._0, [], None)
    return code(cat('[ ', join(', ', out), ' ]'), pre)


@full('pycode.func', 'PyRuntimeFunc')
def r_func(f):
    pre, out = args_of(f._args._0, f._kwargs._0, lambda k: cat(k, '='))
    return code(cat('functions.', f._name, '(', join(', ', out), ')'), pre)


@full('pycode.rt', 'RuntimeExpr')
def r_rt(e):
    k = kind(e)
    if k == 'Expr':
        return code(r_expr(e._0))
    return {'DataFrame': r_df, 'PyDict': r_dict, 'PyList': r_list, 'PyRuntimeFunc': r_func}[k](e._0)


METHODS = {
    'Select': lambda d: ('select', commas(r_col, d._columns), ','),
    'Where': lambda d: ('where', r_expr(d._condition), ','),
    'GroupBy': lambda d: ('groupBy', cat('[', join('', fmap(lambda c: cat(r_name(c), ', '), d._columns)), ']'), ''),
    'Aggregation': lambda d: ('agg', commas(r_col, d._columns), ','),
    'WithColumn': lambda d: ('withColumn', cat("'", d._name, "', ", r_col(d._column)), ','),
    'WithColumnRenamed': lambda d: ('withColumnRenamed', cat("'", d._old_name, "', '", d._new_name, "'"), ','),
    'OrderBy': lambda d: ('orderBy', commas(r_col, d._columns), ','),
    'Limit': lambda d: ('limit', itos(d._limit), ','),
    'Tail': lambda d: ('tail', itos(d._limit), ''),
    'Alias': lambda d: ('alias', cat("'", d._name, "'"), ','),
    'ArbitraryMethod': lambda d: (d._method, commas(r_expr, d._params, ','), ','),
    'UnionByName': lambda d: ('unionByName', cat(r_df(d._other)._primary_df_code, ', allowMissingColumns=True'), ','),
    'Join': lambda d: ('join', cat(r_df(d._other)._primary_df_code, ', ', r_expr(d._condition), ", '", d._join_type, "'"), ','),
}


@full('pycode.df', 'DataFrame')
def r_df(d):
    """A data frame: the statements of all the runtime data frames in it, innermost first, then the expression."""
    k = kind(d)
    if k == 'Source':
        return code(cat("spark.table('", d._name, "')"))
    if k == 'RawSource':
        return code(d._code)
    if k == 'Runtime':
        s = some(d._source)
        src = code('None') if s is None else r_df(s)
        pre, out = args_of(d._args, d._kwargs, lambda k: cat(k, '='))
        call = cat(d._name, ' = commands.', d._runtime_func, '(', join(', ', concat([src._primary_df_code], out)), ')')
        return code(d._name, concat(src._preface, pre, [call]))
    src = r_df(d._source)
    if k == 'Named':
        return code(d._name, concat(src._preface, [cat(d._name, ' = ', src._primary_df_code)]))
    m, args, end = METHODS[k](d)
    pre = src._preface
    if k in ('UnionByName', 'Join'):
        pre = concat(pre, r_df(d._other)._preface)
    return code(cat(src._primary_df_code, '.', m, '(', args, end, ')'), pre)


@contract('pycode.pipeline', Q('TransformedPipeline'), result=True)
def r_pipeline(p, ctx):
    return code(join('\n\n', fmap(lambda d: text(r_df(d)), p._dataframes)))
