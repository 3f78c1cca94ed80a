TARGET = 'spl_transpiler.runtime.functions.eval'
PROPERTY = 'C28'
import math
from functools import reduce
from pyspark.sql import functions as F
from spl_transpiler.runtime import udfs
from spl_transpiler.runtime.functions.utils import convert_time_format


def _unit(scale):
    if scale == "months":
        return "month"
    if scale == "weeks":
        return "week"
    if scale == "days":
        return "day"
    if scale == "hours":
        return "hour"
    if scale == "minutes":
        return "minute"
    return "second"


def bit_and(a: 'Expr', b: 'Expr'):
    return a.to_pyspark_expr().bitwiseAND(b.to_pyspark_expr())


def bit_or(a: 'Expr', b: 'Expr'):
    return a.to_pyspark_expr().bitwiseOR(b.to_pyspark_expr())


def bit_not(x: 'Expr'):
    return F.bitwise_not(x.to_pyspark_expr())


def bit_xor(a: 'Expr', b: 'Expr'):
    return a.to_pyspark_expr().bitwiseXOR(b.to_pyspark_expr())


def bit_shift_left(x: 'Expr', offset: 'int'):
    return F.shiftleft(x.to_pyspark_expr(), offset)


def bit_shift_right(x: 'Expr', offset: 'int'):
    return F.shiftright(x.to_pyspark_expr(), offset)


def case(*args: 'Expr'):
    if not args or len(args) % 2 != 0:
        raise ValueError
    when = F
    for condition, value in zip(args[::2], args[1::2]):
        when = when.when(condition.to_pyspark_expr(), value.to_pyspark_expr())
    return when


def cidrmatch(cidr: 'str', ip: 'Expr'):
    return udfs.cidr_match(ip.to_pyspark_expr(), F.lit(cidr))


def coalesce(*args: 'Expr'):
    return F.coalesce(*(arg.to_pyspark_expr() for arg in args))


def false():
    return F.lit(False)


def if_(condition: 'Expr', true_value: 'Expr', false_value: 'Expr'):
    return F.when(condition.to_pyspark_expr(), true_value.to_pyspark_expr()).otherwise(false_value.to_pyspark_expr())


def in_(field: 'Expr', values: 'list'):
    return field.to_pyspark_expr().isin(values)


def like(string: 'Expr', pattern: 'Expr'):
    return F.like(string.to_pyspark_expr(), pattern.to_pyspark_expr())


def lookup(lookup_table: 'Expr', json_object: 'Expr', json_array: 'Expr'):
    raise NotImplementedError


def match(string: 'Expr', regex: 'Expr'):
    return F.regexp_like(string.to_pyspark_expr(), regex.to_pyspark_expr())


def null():
    return F.lit(None)


def nullif(field1: 'Expr', field2: 'Expr'):
    return F.nullif(field1.to_pyspark_expr(), field2.to_pyspark_expr())


def searchmatch(search_str: 'Expr'):
    raise NotImplementedError


def true():
    return F.lit(True)


def validate(*args):
    if not args or len(args) % 2 != 0:
        raise ValueError
    when = F
    for condition, value in zip(args[::2], args[1::2]):
        when = when.when(~condition.to_pyspark_expr(), value.to_pyspark_expr())
    return when


def ipmask(mask: 'Expr', ip: 'Expr'):
    return udfs.ipmask(mask.to_pyspark_expr(), ip.to_pyspark_expr())


def printf(format_str: 'Expr', *args: 'Expr'):
    return udfs.printf(format_str.to_pyspark_expr(), *[arg.to_pyspark_expr() for arg in args])


def tonumber(value: 'Expr', base: 'int'=10):
    return udfs.tonumber(value.to_pyspark_expr(), F.lit(base))


def tostring(value: 'Expr', format: 'str | None'=None):
    return udfs.tostring(value.to_pyspark_expr(), F.lit(format))


def md5(value: 'Expr'):
    return F.md5(value.to_pyspark_expr())


def sha1(value: 'Expr'):
    return F.sha1(value.to_pyspark_expr())


def sha256(value: 'Expr'):
    return F.sha2(value.to_pyspark_expr(), 256)


def sha512(value: 'Expr'):
    return F.sha2(value.to_pyspark_expr(), 512)


def now():
    return F.current_timestamp()


def relative_time(time: 'Expr', span: 'TimeSpan | None'=None, snap: 'TimeScale | None'=None, snap_offset: 'TimeSpan | None'=None):
    t = F.to_timestamp(time.to_pyspark_expr())
    if span is not None:
        t = t + F.expr(f"INTERVAL {span.value} {span.scale.value.upper()}")
    if snap is not None:
        t = F.date_trunc(_unit(snap), t)
    if snap_offset is not None:
        t = t + F.expr(f"INTERVAL {snap_offset.value} {snap_offset.scale.value.upper()}")
    return t


def strftime(date: 'Expr', format: 'str', is_spl_format=True):
    return F.date_format(date.to_pyspark_expr(), convert_time_format(format) if is_spl_format else format)


def strptime(date: 'Expr', format: 'str', is_spl_format=True):
    return F.to_timestamp(date.to_pyspark_expr(), convert_time_format(format) if is_spl_format else format)


def time():
    return F.current_timestamp()


def isbool(value: 'Expr'):
    raise NotImplementedError


def isint(value: 'Expr'):
    raise NotImplementedError


def isnotnull(value: 'Expr'):
    return F.isnotnull(value.to_pyspark_expr())


def isnull(value: 'Expr'):
    return F.isnull(value.to_pyspark_expr())


def isnum(value: 'Expr'):
    raise NotImplementedError


def isstr(value: 'Expr'):
    raise NotImplementedError


def typeof(value: 'Expr'):
    raise NotImplementedError


def json_object(*members):
    raise NotImplementedError


def json_append(json: 'Expr', **values: 'Expr'):
    raise NotImplementedError


def json_array(*values: 'Expr'):
    raise NotImplementedError


def json_array_to_mv(json_array: 'Expr', boolean: 'bool'):
    raise NotImplementedError


def json_extend(json: 'Expr', **values: 'Expr'):
    raise NotImplementedError


def json_extract(json: 'Expr', *paths: 'str'):
    raise NotImplementedError


def json_extract_exact(json: 'Expr', *keys: 'str'):
    raise NotImplementedError


def json_keys(json: 'Expr'):
    return F.json_object_keys(json.to_pyspark_expr())


def json_set(json: 'Expr', **values: 'Expr'):
    raise NotImplementedError


def json_set_exact(json: 'Expr', **values: 'Expr'):
    raise NotImplementedError


def json_valid(json: 'Expr'):
    return F.get_json_object(json.to_pyspark_expr(), '$').isNotNull()


def abs(num: 'Expr'):
    return F.abs(num.to_pyspark_expr())


def ceiling(num: 'Expr'):
    return F.ceil(num.to_pyspark_expr())


def exact(expression: 'Expr'):
    return expression.to_pyspark_expr().cast('double')


def exp(num: 'Expr'):
    return F.exp(num.to_pyspark_expr())


def floor(num: 'Expr'):
    return F.floor(num.to_pyspark_expr())


def ln(num: 'Expr'):
    return F.log(num.to_pyspark_expr())


def log(num: 'Expr', base: 'int'=10):
    return F.log(float(base), num.to_pyspark_expr())


def pi():
    return F.lit(math.pi)


def pow(num: 'Expr', exp: 'Expr'):
    return F.pow(num.to_pyspark_expr(), exp.to_pyspark_expr())


def round(num: 'Expr', precision: 'int'=0):
    return F.round(num.to_pyspark_expr(), precision)


def sqrt(num: 'Expr'):
    return F.sqrt(num.to_pyspark_expr())


def sum_(*nums: 'Expr'):
    return reduce(lambda a, b: a + b, [n.to_pyspark_expr() for n in nums], 0)


def commands(value: 'Expr'):
    raise NotImplementedError


def mvappend(*values: 'Expr'):
    return F.concat(*[v.to_pyspark_expr() for v in values])


def mvcount(column: 'Expr'):
    return F.size(column.to_pyspark_expr())


def mvdedup(column: 'Expr'):
    raise NotImplementedError


def mvfilter(predicate: 'Expr'):
    raise NotImplementedError


def mvfind(column: 'Expr', regex: 'Expr'):
    raise NotImplementedError


def mvindex(column: 'Expr', start: 'int', end: 'int | None'=None):
    if end is None:
        return F.get(column.to_pyspark_expr(), start)
    else:
        return F.slice(column.to_pyspark_expr(), start + 1, end - start + 1)


def mvjoin(column: 'Expr', delimiter: 'str'):
    raise NotImplementedError


def mvmap(column: 'Expr', expression: 'Expr'):
    raise NotImplementedError


def mvrange(start: 'int', end: 'int', step: 'int'):
    raise NotImplementedError


def mvsort(column: 'Expr'):
    raise NotImplementedError


def mvzip(left: 'Expr', right: 'Expr', delimiter: 'str'=','):
    return F.zip_with(left.to_pyspark_expr(), right.to_pyspark_expr(), lambda left_, right_: F.concat_ws(delimiter, left_, right_))


def mv_to_json_array(column: 'Expr', invert_types: 'bool'=False):
    raise NotImplementedError


def split(column: 'Expr', delimiter: 'str'):
    return F.split(column.to_pyspark_expr(), delimiter)


def avg(*args: 'Expr'):
    return reduce(lambda a, b: a + b, [n.to_pyspark_expr() for n in args], 0) / len(args)


def max_(*args: 'Expr'):
    if not args:
        raise IndexError
    return reduce(lambda a, b: F.greatest(a, b), [a.to_pyspark_expr() for a in args])


def min_(*args: 'Expr'):
    if not args:
        raise IndexError
    return reduce(lambda a, b: F.least(a, b), [a.to_pyspark_expr() for a in args])


def random():
    return F.rand()


def len_(x: 'Expr'):
    return F.length(x.to_pyspark_expr())


def lower(x: 'Expr'):
    return F.lower(x.to_pyspark_expr())


def ltrim(x: 'Expr', chars: 'str'):
    return F.ltrim(x.to_pyspark_expr(), chars)


def replace(input: 'Expr', regex: 'str', replacement: 'str'):
    return F.regexp_replace(input.to_pyspark_expr(), regex, replacement)


def rtrim(x: 'Expr', chars: 'str'):
    return F.rtrim(x.to_pyspark_expr(), chars)


def spath(value: 'Expr', path: 'str'):
    raise NotImplementedError


def substr(column: 'Expr', start: 'int', length: 'int'):
    return F.substring(column.to_pyspark_expr(), start, length)


def trim(x: 'Expr', chars: 'str'):
    return F.trim(x.to_pyspark_expr(), chars)


def upper(x: 'Expr'):
    return F.upper(x.to_pyspark_expr())


def urldecode(x: 'Expr'):
    return F.url_decode(x.to_pyspark_expr())


def acos(x: 'Expr'):
    return F.acos(x.to_pyspark_expr())


def acosh(x: 'Expr'):
    return F.acosh(x.to_pyspark_expr())


def asin(x: 'Expr'):
    return F.asin(x.to_pyspark_expr())


def asinh(x: 'Expr'):
    return F.asinh(x.to_pyspark_expr())


def atan(x: 'Expr'):
    return F.atan(x.to_pyspark_expr())


def atan2(x: 'Expr', y: 'Expr'):
    return F.atan2(x.to_pyspark_expr(), y.to_pyspark_expr())


def atanh(x: 'Expr'):
    return F.atanh(x.to_pyspark_expr())


def cos(x: 'Expr'):
    return F.cos(x.to_pyspark_expr())


def cosh(x: 'Expr'):
    return F.cosh(x.to_pyspark_expr())


def hypot(x: 'Expr', y: 'Expr'):
    return F.hypot(x.to_pyspark_expr(), y.to_pyspark_expr())


def sin(x: 'Expr'):
    return F.sin(x.to_pyspark_expr())


def sinh(x: 'Expr'):
    return F.sinh(x.to_pyspark_expr())


def tan(x: 'Expr'):
    return F.tan(x.to_pyspark_expr())


def tanh(x: 'Expr'):
    return F.tanh(x.to_pyspark_expr())
