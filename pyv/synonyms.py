"""Names of one and the same Spark function."""
FUN = {'mean': 'avg', 'pow': 'power', 'ceil': 'ceiling', 'lcase': 'lower', 'ucase': 'upper', 'shiftLeft': 'shiftleft', 'shiftRight': 'shiftright', 'signum': 'sign',
       'stddev': 'stddev_samp', 'std': 'stddev_samp', 'variance': 'var_samp', 'countDistinct': 'count_distinct', 'approxCountDistinct': 'approx_count_distinct',
       'column': 'col', 'toDegrees': 'degrees', 'toRadians': 'radians', 'bitwiseNOT': 'bitwise_not', 'char_length': 'length', 'character_length': 'length', 'len': 'length',
       'substr': 'substring', 'current_timestamp': 'now', 'sumDistinct': 'sum_distinct', 'first_value': 'first', 'last_value': 'last', 'ifnull': 'nvl'}
METH = {'filter': 'where', 'sort': 'orderBy', 'groupby': 'groupBy', 'astype': 'cast'}
for _k in ('substr', 'std'):
    del FUN[_k]
