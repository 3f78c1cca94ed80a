"""Contracts of the eval, statistical and convert functions (src/functions)."""
from ..dsl import *
from .core import *


# ------------------------------------------------------------------ arguments
def arg_expr(a):
    """An argument as a column expression, without its alias."""
    return unE(tse(a._val, a._ctx))


def arg_int(a):
    n = const_of(a._val, 'Int')
    if n is None:
        fail('not an integer constant')
    return n._0


def arg_str(a):
    for k in ('Str', 'Field', 'Wildcard', 'Variable', 'IPv4CIDR'):
        c = const_of(a._val, k)
        if c is not None:
            return c._0
    fail('not a string-like constant')


CONV = {'e': arg_expr, 'i': arg_int, 's': arg_str}


def take(args, n):
    """First n arguments and the rest; fails when there are fewer."""
    out = []
    for _ in range(n):
        r = uncons(args)
        if r is None:
            fail('too few arguments')
        out.append(r[0])
        args = r[1]
    return out, args


def params(sig, args):
    """The arguments named by the signature: e expression, i integer, s string, one letter each;
    a trailing `*` also yields the list of the remaining ones (as expressions), a trailing `.` ignores them;
    otherwise there must be no more."""
    rest = sig[-1:] in ('*', '.') and sig[-1]
    n = len(sig) - (1 if rest else 0)
    vals = []
    tail = args
    for k in sig[:n]:
        r = uncons(tail)
        if r is None:
            fail('too few arguments')
        vals.append(CONV[k](r[0]))
        tail = r[1]
    if rest == '*':
        vals.append(fmap(arg_expr, tail))
    elif rest == '.':
        vals.append(tail)
    elif not emptyp(tail):
        fail('too many arguments')
    return vals


# ------------------------------------------------------------------ eval functions
def F1(target):
    return ('e', lambda x: func(target, x))


def F2(target):
    return ('ee', lambda x, y: func(target, x, y))


def cast(x, ty):
    return method(x, 'cast', pystr(ty))


def casewhen(neg):
    def f(xs):
        """when(c1, v1).when(c2, v2)...; an even, non-zero number of arguments is needed"""
        c = None
        if emptyp(xs):
            fail('no pair')
        while True:
            r = uncons(xs)
            if r is None:
                return c
            r2 = uncons(r[1])
            if r2 is None:
                fail('odd number of arguments')
            cond = not_(r[0]) if neg else r[0]
            c = func('when', cond, r2[0]) if c is None else method(c, 'when', cond, r2[0])
            xs = r2[1]
    return f


def chain(op, xs):
    r = uncons(xs)
    if r is None:
        fail('no argument')
    return foldl(op, r[0], r[1])


def length(s):
    return G.X.canon(mk('len', (seq(s),)))


REGEX_MEMK = r'(?i)^(\d*\.?\d+)([kmg])$'
REGEX_UNIT = r'(?i)^(\d*\.?\d+)(\w*)$'


def memk(c):
    num = cast(func('regexp_extract', c, pystr(REGEX_MEMK), pyint(1)), 'double')
    unit = func('upper', func('regexp_extract', c, pystr(REGEX_MEMK), pyint(2)))
    scale = None
    for u, k in (('K', '1.0'), ('M', '1024.0'), ('G', '1048576.0')):
        is_u = binop(unit, '==', litc('"%s"' % u))
        scale = func('when', is_u, litc(k)) if scale is None else method(scale, 'when', is_u, litc(k))
    return binop(num, '*', method(scale, 'otherwise', litc('1.0')))


def rmcomma(c):
    return cast(func('regexp_replace', c, pystr(','), pystr('')), 'double')


def rmunit(c):
    return cast(func('regexp_extract', c, pystr(REGEX_UNIT), pyint(1)), 'double')


def to_upper_ascii(s):
    return sfun('str.ascii_upper', s)


def interval(span):
    return expr_(cat('INTERVAL ', itos(span._value), ' ', to_upper_ascii(span._scale)))


SNAP = {k + 's': k for k in ('year', 'month', 'week', 'day', 'hour', 'minute', 'second', 'millisecond', 'microsecond')}


def relative_time(t, rest):
    r = at_most_one(rest)
    if r is None:
        fail('no time specifier')
    sp = const_of(r[0]._val, 'SnapTime')
    if sp is None:
        fail('not a time specifier')
    t = func('to_timestamp', t)
    span = some(sp._span)
    if span is not None:
        t = binop(t, '+', interval(span))
    for k, v in SNAP.items():
        if eq(sp._snap, k):
            t = func('date_trunc', pystr(v), t)
            break
    else:
        fail('bad snap unit')
    off = some(sp._snap_offset)
    if off is not None:
        t = binop(t, '+', interval(off))
    return t


FORMATS = [
    ('%c', None), ('%+', None), ('%Ez', None), ('%f', 'SSS'), ('%H', 'HH'), ('%I', 'hh'), ('%k', 'H'), ('%M', 'mm'), ('%N', 'SSS'),
    ('%p', 'a'), ('%Q', 'SSS'), ('%3Q', 'SSS'), ('%6Q', 'SSSSSS'), ('%9Q', 'SSSSSSSSS'), ('%S', 'ss'), ('%s', None),
    ('%T', 'HH:mm:ss'), ('%X', None), ('%Z', 'z'), ('%z', 'x'), ('%:z', 'xxxx'), ('%::z', 'xxxxxx'), ('%:::z', 'xx'),
    ('%F', 'yyyy-MM-dd'), ('%x', None), ('%A', 'EEEE'), ('%a', 'EEE'), ('%d', 'dd'), ('%e', 'd'), ('%j', 'D'), ('%w', 'e'),
    ('%b', 'MMM'), ('%B', 'MMMM'), ('%m', 'MM'), ('%y', 'yy'), ('%Y', 'yyyy'), ('%%', '%')]


@contract('ctf', r'(^|::)convert_time_format(::<.*>)?$', result=True, opaque=True)
def ctf(s):
    """A time format with every known directive replaced by its equivalent, one directive after another;
    an error if a directive without an equivalent is present."""
    o = G.X.ty.peel(find_ty('std::option::Option<&str>'))

    def step(s, kv):
        if not contains(s, kv._0):
            return s
        r = some(kv._1)
        if r is None:
            fail('no equivalent')
        return replace(s, kv._0, r)
    return foldl(step, s, table([(k, coerce(None if v is None else Some(v), o)) for k, v in FORMATS], STRT(), o))


def mvindex(x, start, rest):
    r = at_most_one(rest)
    if r is None:
        return func('get', x, pyint(start))
    end = arg_int(r[0])
    return func('slice', x, pyint(i64(add(start, 1))), pyint(i64(add(i64(sub(end, start)), 1))))


def i64(n):
    """An integer result: an error when it is out of range."""
    if lt(n, -2**63) or lt(2**63 - 1, n):
        fail('out of range')
    return n


def mvzip(l, r, rest):
    d = at_most_one(rest)
    fmap(arg_expr, rest)
    delim = lit(',') if d is None else arg_str(d[0])
    return func('zip_with', l, r, pyraw(cat('lambda left_, right_: F.concat_ws(r"', delim, '", left_, right_)')))


def at_most_one(rest):
    r = uncons(rest)
    if r is not None and not emptyp(r[1]):
        fail('surplus arguments')
    return r


def only(f):
    def g(x, rest):
        if not emptyp(rest):
            fail('unsupported argument')
        return f(x)
    return g


TRIG = 'acos acosh asin asinh atan atanh cos cosh sin sinh tan tanh'.split()
SAME1 = 'abs exp floor sqrt sum md5 sha1 lower upper isnotnull isnull'.split() + TRIG
EVAL = {n: (n,) + F1(n) for n in SAME1}
EVAL.update({n: (n,) + F2(n) for n in 'like nullif pow atan2 hypot ltrim rtrim trim'.split()})
EVAL.update({
    'memk': ('memk', 'e', memk), 'rmunit': ('memk', 'e', rmunit), 'rmcomma': ('memk', 'e', rmcomma),
    'bit_and': ('bit_and', 'ee', lambda a, b: method(a, 'bitwiseAND', b)),
    'bit_or': ('bit_or', 'ee', lambda a, b: method(a, 'bitwiseOR', b)),
    'bit_xor': ('bit_or', 'ee', lambda a, b: method(a, 'bitwiseXOR', b)),
    'bit_not': ('bit_not', 'e', lambda x: func('bitwise_not', x)),
    'bit_shift_left': ('bit_not', 'ei', lambda x, n: func('shiftleft', x, pyint(n))),
    'bit_shift_right': ('bit_not', 'ei', lambda x, n: func('shiftright', x, pyint(n))),
    'case': ('case', '*', casewhen(False)),
    'validate': ('validate', '*', casewhen(True)),
    'cidrmatch': ('cidrmatch', 'ss', lambda c, x: expr_(cat("cidr_match('", c, "', ", x, ')'))),
    'coalesce': ('coalesce', '*', lambda xs: funcv('coalesce', xs)),
    'mvappend': ('mvappend', '*', lambda xs: funcv('concat', xs)),
    'false': ('false', '', lambda: litc('False')),
    'true': ('true', '', lambda: litc('True')),
    'null': ('null', '', lambda: litc('None')),
    'pi': ('pi', '', lambda: litc('3.141592653589793')),
    'if': ('if', 'eee', lambda c, a, b: method(func('when', c, a), 'otherwise', b)),
    'in': ('in', 'ee', lambda x, v: method(x, 'isin', v)),
    'match': ('match', 'ee', lambda x, r: func('regexp_like', x, r)),
    'tonumber': ('tonumber', 'e*', only(lambda x: cast(x, 'double'))),
    'tostring': ('tostring', 'e*', only(lambda x: cast(x, 'string'))),
    'exact': ('exact', 'e', lambda x: cast(x, 'double')),
    'sha256': ('sha256', 'e', lambda x: func('sha2', x, pyint(256))),
    'sha512': ('sha512', 'e', lambda x: func('sha2', x, pyint(512))),
    'now': ('now', '', lambda: func('current_timestamp')),
    'time': ('time', '', lambda: func('current_timestamp')),
    'random': ('random', '', lambda: func('rand')),
    'relative_time': ('now', 'e.', relative_time),
    'strftime': ('strftime', 'es', lambda d, f: func('date_format', d, pystr(ctf(f)))),
    'strptime': ('strptime', 'es', lambda d, f: func('to_timestamp', d, pystr(ctf(f)))),
    'json_keys': ('json_keys', 'e', lambda x: func('json_object_keys', x)),
    'json_valid': ('json_valid', 'e', lambda x: method(func('get_json_object', x, pystr('$')), 'isNotNull')),
    'ceiling': ('ceiling', 'e', lambda x: func('ceil', x)),
    'ln': ('ln', 'e', lambda x: func('log', x)),
    'log': ('log', 'ee', lambda x, b: binop(func('log', x), '/', func('log', b))),
    'round': ('round', 'ei', lambda x, p: func('round', x, pyint(p))),
    'mvcount': ('mvcount', 'e', lambda x: func('size', x)),
    'mvindex': ('mvindex', 'ei.', mvindex),
    'mvzip': ('mvzip', 'ee.', mvzip),
    'split': ('split', 'es', lambda x, d: func('split', x, pystr(d))),
    'avg': ('avg', '*', lambda xs: binop(chain(lambda a, c: E_(binop(a, '+', c)), xs), '/', pyint(length(xs)))),
    'max': ('max', '*', lambda xs: chain(lambda a, c: E_(func('greatest', a, c)), xs)),
    'min': ('min', '*', lambda xs: chain(lambda a, c: E_(func('least', a, c)), xs)),
    'len': ('len', 'e', lambda x: func('length', x)),
    'replace': ('replace', 'ess', lambda x, r, s: func('regexp_replace', x, pystr(r), pystr(s))),
    'substr': ('substr', 'eii', lambda x, s, n: func('substring', x, pyint(s), pyint(n))),
    'urldecode': ('urldecode', 'e', lambda x: func('url_decode', x)),
})
EVAL_UNSUPPORTED = """lookup searchmatch ipmask printf isbool isint isnum isstr typeof json_object json_append
    json_array json_array_to_mv json_extend json_extract json_extract_exact json_set json_set_exact sigfig commands
    mvdedup mvfilter mvfind mvjoin mvmap mvrange mvsort mv_to_json_array spath""".split()


EVAL_ALL = list(EVAL) + EVAL_UNSUPPORTED
PAIRS = ('case', 'validate')


def _pairs(name, args):
    requires(one_of(name, *PAIRS))
    shape(args, 6)


@contract('evalbare', r'(^|::)eval_fn_bare$', result=True, opaque=True, cases=[
    ('pairs', _pairs, 'at most 6 arguments'),
    ('', lambda name, args: requires(not one_of(name, *PAIRS)), '')])
def evalbare(name, args):
    n = match_name(name, EVAL_ALL)
    if n in EVAL:
        al, sig, build = EVAL[n]
        return aliased(unE(E_(build(*params(sig, args)))), al)
    if n is not None:
        fail('unsupported function')
    return P.ColumnLike.Aliased(name=name, col=P.Expr.Column(funcv(name, fmap(arg_expr, args))))


PYNAMES = {n: n + '_' for n in 'if in len sum max min'.split()}


@contract('evalrt', r'(^|::)eval_fn_runtime$', result=True, opaque=True)
def evalrt(name, args):
    if eq(name, 'cidrmatch'):
        c, x = params('se', args)
        return aliased(func('functions.eval.cidrmatch', pystr(c), x), 'cidrmatch')
    for k, v in PYNAMES.items():
        if eq(name, k):
            name = lit(v)
            break
    return funcv(cat('functions.eval.', name), fmap(arg_expr, args))


def with_ctx(e, ctx):
    return G.X.canon(mk('adt', (0, ctx, e), ctx_expr_ty()))


def ctx_expr_ty():
    for i, t in enumerate(G.X.ty.t):
        if t['k'] == 'adt' and t['name'].endswith('::ContextualizedExpr'):
            return i
    raise Unsupported('anchor lost: ContextualizedExpr')


@contract('eval_fn', r'(^|::)eval_fn$', result=True, opaque=True, view=lambda c, ctx: (c, ctx._runtime))
def eval_fn(call, ctx):
    args = fmap(lambda a: with_ctx(a, ctx), call._args)
    return by_mode(ctx, lambda: evalrt(call._name, args), lambda: evalbare(call._name, args))


def by_mode(ctx, runtime, bare):
    """Runtime-library form when required; when only allowed, the bare form is the fallback."""
    if is_(ctx._runtime, 'Disallow'):
        return bare()
    if is_(ctx._runtime, 'Require'):
        return runtime()
    r = attempt(runtime)
    return bare() if r is ERRV else r


# ------------------------------------------------------------------ statistical functions
def pct(f, prefix):
    def g(x, name):
        n = parse_u32(replace(name, prefix, ''))
        return func(f, x, pyraw(ftos(fdiv(i2f(n), 100.0))))
    return prefix, g


def by_time(df):
    return P.DataFrame.OrderBy(source=df, columns=[method(col('_time'), 'asc')])


SCALAR = {
    'avg': 'avg', 'mean': 'avg', 'distinct_count': 'count_distinct', 'dc': 'count_distinct',
    'estdc': 'approx_count_distinct', 'max': 'max', 'min': 'min', 'mode': 'mode', 'stdev': 'stddev_samp',
    'stdevp': 'stddev_pop', 'sum': 'sum', 'var': 'var_samp', 'varp': 'var_pop', 'list': 'collect_list',
    'values': 'collect_set',
}
STATS_ERR = 'estdc_error per_day per_hour per_minute per_second rate_avg rate_sum'.split()
PCT = [pct('percentile', 'exactperc'), pct('percentile_approx', 'percentile'), pct('percentile_approx', 'upperperc')]


def rate(x):
    dv = binop(func('last', x), '-', func('first', x))
    dt = binop(func('max', col('_time')), '-', func('min', col('_time')))
    return binop(dv, '/', dt)


def st_count(xs):
    r = uncons(xs)
    if r is None:
        return func('count', litc('1'))
    if not emptyp(r[1]):
        fail('too many arguments')
    return func('count', r[0])


STATS = {
    'count': ('*', st_count),
    'median': ('e', lambda x: func('percentile_approx', x, litc('0.5'))),
    'range': ('e', lambda x: binop(func('max', x), '-', func('min', x))),
    'sumsq': ('e', lambda x: func('sum', binop(x, '*', x))),
    'first': ('e', lambda x: func('first', x, pyraw('True'))),
    'last': ('e', lambda x: func('last', x, pyraw('True'))),
    'earliest': ('e', lambda x: func('first', x, pyraw('True'))),
    'latest': ('e', lambda x: func('last', x, pyraw('True'))),
    'earliest_time': ('*', lambda xs: func('min', col('_time'))),
    'latest_time': ('*', lambda xs: func('max', col('_time'))),
    'rate': ('e', rate),
}
STATS.update({k: ('e', (lambda x, f=f: func(f, x))) for k, f in SCALAR.items()})
TIME_ORDERED = ('earliest', 'latest', 'rate')
STATS_ALL = list(STATS) + STATS_ERR


@contract('statsbare', r'(^|::)stats_fn_bare$', result=True, opaque=True)
def statsbare(name, args, df):
    """A statistical function as an aggregate column named after the function, and the data frame it applies to
    (ordered by time when the function depends on the order of events)."""
    n = match_name(name, STATS_ALL)
    if n in STATS:
        sig, build = STATS[n]
        c = aliased(unE(E_(build(*params(sig, args)))), n)
        return (by_time(df) if n in TIME_ORDERED else df, c)
    if n is not None:
        fail('unsupported function')
    for prefix, build in PCT:
        if starts_with(name, prefix):
            x, = params('e', args)
            return (df, aliased(unE(E_(build(x, name))), prefix))
    return (df, P.ColumnLike.Aliased(name=name, col=P.Expr.Column(funcv(name, fmap(arg_expr, args)))))


@contract('statsrt', r'(^|::)stats_fn_runtime$', result=True, opaque=True)
def statsrt(name, args, df):
    return (df, funcv(cat('functions.stats.', name), fmap(arg_expr, args)))


@contract('stats_fn', r'(^|::)stats_fn$', result=True, opaque=True, view=lambda e, df, ctx: (e, df, ctx._runtime))
def stats_fn(e, df, ctx):
    u = unalS(e)
    if not is_(u._0, 'Call'):
        fail('not a function call')
    call = u._0._0
    args = fmap(lambda a: with_ctx(a, ctx), call._args)
    r = by_mode(ctx, lambda: statsrt(call._name, args, df), lambda: statsbare(call._name, args, df))
    r = G.X.canon(coerce(r))
    return (r._0, maybe_alias(r._1, u._1))


# ------------------------------------------------------------------ convert functions
@contract('convert_fn', r'(^|::)convert_fn$', result=True, opaque=True)
def convert_fn(cmd, conv):
    f = col(conv._field._0)
    n = match_name(conv._func, ('ctime', 'memk', 'rmunit', 'rmcomma'))
    if n == 'ctime':
        return func('date_format', f, pystr(ctf(cmd._timeformat)))
    if n is not None:
        return {'memk': memk, 'rmunit': rmunit, 'rmcomma': rmcomma}[n](f)
    return P.ColumnLike.Aliased(name=conv._func, col=P.Expr.Column(func(conv._func, f)))
