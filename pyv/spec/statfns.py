"""Each statistics function, by the data frame and the column it stands for in an aggregation."""
TARGET = 'spl_transpiler.runtime.functions.stats'
PROPERTY = 'C28'
VIA = 'to_pyspark_expr'
ALIASES = {'dc': 'distinct_count', 'sum': 'sum_', 'list': 'list_', 'c': 'count'}
from pyspark.sql import functions as F, Window


def _col(e):
    return e.to_pyspark_expr()


def _by_time(df):
    return df.orderBy(F.col("_time").asc())


def avg(df, value: "Expr"):
    return df, F.avg(_col(value))


def count(df):
    return df, F.count(F.lit(1))


def distinct_count(df, x: "Expr"):
    return df, F.approx_count_distinct(_col(x))


def estdc(df, x: "Expr"):
    return df, F.approx_count_distinct(_col(x))


def estdc_error(df, value: "Expr"):
    raise NotImplementedError


def exactperc(df, value: "Expr", percentile: "int"):
    return df, F.percentile(_col(value), percentile / 100.0)


def max(df, value: "Expr"):
    return df, F.max(_col(value))


def mean(df, value: "Expr"):
    return df, F.avg(_col(value))


def median(df, value: "Expr"):
    return df, F.percentile_approx(_col(value), 0.5)


def min(df, value: "Expr"):
    return df, F.min(_col(value))


def mode(df, value: "Expr"):
    return df, F.mode(_col(value))


def percentile(df, value: "Expr", percentile: "int"):
    return df, F.percentile_approx(_col(value), percentile / 100.0)


def range(df, value: "Expr"):
    return df, F.max(_col(value)) - F.min(_col(value))


def stdev(df, value: "Expr"):
    return df, F.stddev_samp(_col(value))


def stddev(df, value: "Expr"):
    return df, F.stddev_samp(_col(value))


def sum_(df, value: "Expr"):
    return df, F.sum(_col(value))


def sumsq(df, value: "Expr"):
    return df, F.sum(F.pow(_col(value), 2))


def upperperc(df, value: "Expr", percentile: "int"):
    return df, F.percentile_approx(_col(value), percentile / 100.0)


def var(df, value: "Expr"):
    return df, F.var_samp(_col(value))


def varp(df, value: "Expr"):
    return df, F.var_pop(_col(value))


def first(df, value: "Expr"):
    return df, F.first(_col(value), ignorenulls=True)


def last(df, value: "Expr"):
    return df, F.last(_col(value), ignorenulls=True)


def list_(df, value: "Expr"):
    return df, F.collect_list(_col(value))


def values(df, value: "Expr"):
    return df, F.collect_set(_col(value))


def earliest(df, value: "Expr"):
    return _by_time(df), F.first(_col(value), ignorenulls=True)


def earliest_time(df):
    return df, F.min(F.col("_time"))


def latest(df, value: "Expr"):
    return _by_time(df), F.last(_col(value), ignorenulls=True)


def latest_time(df):
    return df, F.max(F.col("_time"))


def per_day(df, value: "Expr"):
    raise NotImplementedError


def per_hour(df, value: "Expr"):
    raise NotImplementedError


def per_minute(df, value: "Expr"):
    raise NotImplementedError


def per_second(df, value: "Expr"):
    raise NotImplementedError


def rate(df, value: "Expr"):
    rise = F.last(_col(value)) - F.first(_col(value))
    return _by_time(df), rise / (F.max(F.col("_time")) - F.min(F.col("_time")))


def _step(value):
    """Change per time since the row before, and when that row was."""
    rows = Window.orderBy("_time").rowsBetween(Window.unboundedPreceding, Window.currentRow)
    before, when = F.lag(_col(value)).over(rows), F.lag(F.col("_time")).over(rows)
    return F.when(F.col("_time") != when, (_col(value) - before) / (F.col("_time") - when))


def rate_avg(df, value: "Expr"):
    return _by_time(df), F.avg(_step(value).otherwise(None))


def rate_sum(df, value: "Expr"):
    return _by_time(df), F.sum(_step(value).otherwise(0))
