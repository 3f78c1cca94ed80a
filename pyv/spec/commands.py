"""The runtime commands, and what they rest on."""
TARGET = 'spl_transpiler.runtime'
PROPERTY = 'C27'
NAMES = {
    'search': 'commands.search.search', 'eval': 'commands.eval.eval', 'fill_null': 'commands.fill_null.fill_null', 'stats': 'commands.stats.stats',
    'tstats': 'commands.tstats.tstats', 'data_model': 'commands.data_model.data_model', 'table_lookup': 'config.default_table_lookup',
    'convert_time_format': 'functions.utils.convert_time_format', 'to_expr': 'base.Expr.to_pyspark_expr', 'plain': 'base.Expr.support_plain_types', 'specifier': 'commands.tstats.DataModelSpecifier.__str__',
    'lookup_callable': 'config.lookup_callable',
}
import importlib
from functools import reduce
from pydantic import BaseModel
from pyspark.sql import functions as F, SparkSession
from spl_transpiler.runtime.commands.data_model import data_model as _data_model
from spl_transpiler.runtime.commands.fill_null import fill_null as _fill_null
from spl_transpiler.runtime.commands.stats import stats as _stats
from spl_transpiler.runtime.config import settings
from spl_transpiler.runtime.base import ExprKind as _Kind


def to_expr(self):
    if self.kind == "column":
        return F.col(self.value)
    if self.kind == "literal":
        return F.lit(self.value)
    if self.kind == "raw":
        return self.value
    raise ValueError


def search(df: "DataFrame | None" = None, *exprs: "Expr", index=None, source=None, source_type=None, host=None, host_tag=None,
           event_type=None, event_type_tag=None, saved_splunk=None, splunk_server=None, **field_exprs: "Expr"):
    if df is None:
        df = settings().table_lookup_function(
            index=index, source=source, source_type=source_type, host=host, host_tag=host_tag, event_type=event_type,
            event_type_tag=event_type_tag, saved_splunk=saved_splunk, splunk_server=splunk_server)
    tests = [e.to_pyspark_expr() for e in exprs] + [F.col(name) == e.to_pyspark_expr() for name, e in field_exprs.items()]
    return df.where(reduce(lambda a, b: a & b, tests, F.lit(True)))


def eval(df: "DataFrame", **exprs: "Expr"):
    return reduce(lambda d, x: d.withColumn(x[0], x[1].to_pyspark_expr()), exprs.items(), df)


def fill_null(df: "DataFrame | None", value: "str", fields: "list[str] | None" = None):
    types = dict(df.dtypes)
    if fields is None:
        fields = list(types)
    for name in fields:
        df = df.withColumn(name, F.when(F.col(name).isNull(), F.lit(value).cast(types[name])).otherwise(F.col(name)))
    return df


def stats(df: "DataFrame", *, by: "list[Expr]" = (), **stat_exprs: "StatsFunction"):
    out = []
    for label, fn in stat_exprs.items():
        df, col = fn.to_pyspark_expr(df)
        out.append(col.alias(label))
    return df.groupBy(*[b.to_pyspark_expr() for b in by]).agg(*out)


def tstats(df: "DataFrame | None" = None, *, fill_null_value=None, from_: "DataModelSpecifier | None" = None, where: "Expr | None" = None,
           by: "list[Expr]" = (), **stat_exprs: "StatsFunction"):
    if (df is None) == (from_ is None):
        raise ValueError
    if df is None:
        df = _data_model(data_model_name=from_.datamodel, dataset_name=from_.nodename, summaries_only=False)
    if fill_null_value is not None:
        df = _fill_null(df, value=fill_null_value)
    if where is not None:
        df = df.where(where.to_pyspark_expr())
    return _stats(df, by=by, **stat_exprs)


def data_model(data_model_name: "str", dataset_name: "str | None" = None, search_mode: "str | None" = "search", strict_fields: "bool | None" = None,
               allow_old_summaries: "bool | None" = None, summaries_only: "bool | None" = None):
    if search_mode and search_mode != "search":
        raise NotImplementedError
    return settings().table_lookup_function(".".join(data_model_name.split(".") + (dataset_name or "").split(".")[1:]))


def table_lookup(index=None, source=None, source_type=None, host=None, host_tag=None, event_type=None, event_type_tag=None, saved_splunk=None,
                 splunk_server=None, data_model=None):
    spark = SparkSession.builder.getOrCreate()
    if data_model:
        return spark.table(data_model)
    tests = [("_host", host), ("_hosttag", host_tag), ("_eventtype", event_type), ("_eventtypetag", event_type_tag), ("_savedsearch", saved_splunk),
             ("_splunk_server", splunk_server)]
    if index:
        table = spark.table(index)
        tests = [("_source", source), ("_sourcetype", source_type)] + tests
    elif source or source_type:
        table = spark.table("_".join([x for x in (source, source_type, "silver") if x]))
    else:
        raise ValueError
    for name, value in tests:
        if value is not None:
            table = table.where(F.col(name) == value)
    return table


_FORMATS = {
    "%c": None, "%+": None, "%Ez": None, "%f": "SSS", "%H": "HH", "%I": "hh", "%k": "H", "%M": "mm", "%N": "SSS", "%p": "a", "%Q": "SSS", "%3Q": "SSS",
    "%6Q": "SSSSSS", "%9Q": "SSSSSSSSS", "%S": "ss", "%s": None, "%T": "HH:mm:ss", "%X": None, "%Z": "z", "%z": "x", "%:z": "xxxx", "%::z": "xxxxxx",
    "%:::z": "xx", "%F": "yyyy-MM-dd", "%x": None, "%A": "EEEE", "%a": "EEE", "%d": "dd", "%e": "d", "%j": "D", "%w": "e", "%b": "MMM", "%B": "MMMM",
    "%m": "MM", "%y": "yy", "%Y": "yyyy", "%%": "%",
}


def convert_time_format(fmt_string: "str"):
    for directive, letters in _FORMATS.items():
        if directive in fmt_string:
            if letters is None:
                raise ValueError
            fmt_string = fmt_string.replace(directive, letters)
    return fmt_string


def plain(cls, root_value):
    if isinstance(root_value, (BaseModel, dict)):
        return root_value
    if isinstance(root_value, str):
        return {"kind": _Kind.COLUMN, "value": root_value}
    if isinstance(root_value, (int, float)) or root_value is None:
        return {"kind": _Kind.LITERAL, "value": root_value}
    return {"kind": _Kind.RAW, "value": root_value}


def specifier(self):
    return ".".join([s for name in (self.datamodel, self.nodename or "") for s in name.split(".") if s])


def lookup_callable(v):
    if not isinstance(v, str):
        return v
    parts = v.split(":")
    if len(parts) != 2:
        raise ValueError
    try:
        return getattr(importlib.import_module(parts[0]), parts[1])
    except (ImportError, AttributeError):
        raise ValueError
