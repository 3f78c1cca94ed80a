"""Contracts of the command translations (src/commands/*/pyspark.rs, src/pyspark/transpiler/mod.rs)."""
import re
from ..dsl import *
from .core import *
from .functions import *

D = P.DataFrame
COMMANDS = {}


def TRAIT(cmd, m):
    return impl('PipelineTransformer', m, cmd)


class Cmd:
    """The three contracts of one command: translation without the runtime, with it, and the choice."""

    def __init__(self, name, standalone=None, runtime=None, **kw):
        self.name = name
        COMMANDS[name] = self

        def mk_(m, f, short):
            def spec(cmd, state):
                if f is None:
                    fail('not available in this mode')
                return newstate(state, f(cmd, Ctx(state)))
            spec.__name__ = short
            return contract('%s.%s' % (name, short), TRAIT(name, m), result=True, opaque=True, view=stview, wrap=stwrap,
                            apptype=dfopt, **kw.get(short, {}))(spec)
        self.sa = mk_('transform_standalone', standalone, 'standalone')
        self.rt = mk_('transform_for_runtime', runtime, 'runtime')

        def choice(cmd, state):
            m = state._ctx._runtime
            if is_(m, 'Disallow'):
                return self.sa(cmd, state)
            if is_(m, 'Require'):
                return self.rt(cmd, state)
            r = attempt(lambda: self.rt(cmd, state))
            return self.sa(cmd, state) if r is ERRV else r
        self.tr = contract(name + '.mode', TRAIT(name, 'transform'), result=True, opaque=True, view=stview, wrap=stwrap,
                           apptype=dfopt)(choice)


def dfopt():
    return opt_of(tyid('pyspark::ast::DataFrame'))


def stview(cmd, state):
    return (cmd, state._ctx, state._df)


def stwrap(app, cmd, state):
    return PT.PipelineTransformState(ctx=state._ctx, df=app)


def newstate(state, df):
    """The state after a command: the context is passed on, the data frame is the new one."""
    return PT.PipelineTransformState(ctx=state._ctx, df=df if G.X.ty.get(df.ty).get('name') == 'std::option::Option' else Some(df))


class Ctx:
    """What a command translation can read from the pipeline so far."""

    def __init__(self, state):
        self.state, self.ctx, self.dfo = state, state._ctx, state._df

    @property
    def df(self):
        d = some(self.dfo)
        return source('main') if d is None else d

    def runtime(self, func, args, kwargs):
        """A runtime call: a new data frame variable assigned from commands.<func>(previous, ...)."""
        name = cat('df_', itos(fresh(self.ctx._df_num)))
        d = some(self.dfo)
        return D.Runtime(name=name, source=None if d is None else Some(d), runtime_func=func, args=args, kwargs=kwargs)


# ------------------------------------------------------------------ data frame operations
def source(name):
    return D.Source(name=name)


def raw_source(code):
    return D.RawSource(code=code)


def select(df, cols):
    return D.Select(source=df, columns=cols)


def where(df, cond):
    return D.Where(source=df, condition=unE(cond))


def group_by(df, cols):
    return D.GroupBy(source=df, columns=cols)


def agg(df, cols):
    return D.Aggregation(source=df, columns=cols)


def with_column(df, name, c):
    return D.WithColumn(source=df, column=unalC(c)._0, name=name)


def renamed(df, old, new):
    return D.WithColumnRenamed(source=df, old_name=old, new_name=new)


def order_by(df, cols):
    return D.OrderBy(source=df, columns=cols)


def union(df, other):
    return D.UnionByName(source=df, other=other)


def limit(df, n):
    return D.Limit(source=df, limit=n)


def join_df(df, other, cond, kind):
    return D.Join(source=df, other=other, condition=unE(cond), join_type=kind)


def named_as(df, name):
    return D.Alias(source=df, name=name)


def RX(x):
    """A runtime argument."""
    t = G.X.ty.get(x.ty)['name']
    if t.endswith('RuntimeExpr'):
        return x
    if t.endswith('PyDict'):
        return P.RuntimeExpr.PyDict(x)
    if t.endswith('PyList'):
        return P.RuntimeExpr.PyList(x)
    if t.endswith('DataFrame'):
        return P.RuntimeExpr.DataFrame(x)
    if t.endswith('ColumnOrName'):
        return RX(x._0) if is_(x, 'Column') else RX(col(x._0))
    return P.RuntimeExpr.Expr(E_(x))


def kw(**items):
    return [(k, RX(v)) for k, v in items.items()]


PYNONE = lambda: pyraw('None')


def opt_str(o):
    v = some(o)
    return PYNONE() if v is None else pystr(v)


def column(cmd_expr, ctx):
    """An eval right-hand side: it must denote a column."""
    e = tse(cmd_expr, ctx)
    if not is_(e, 'Column'):
        fail('not a column')
    return e._0


# ------------------------------------------------------------------ commands
def add_totals(c, s):
    def num(f):
        x = col(f._0)
        return method(func('when', method(cast(x, 'double'), 'isNotNull'), x), 'otherwise', litc('0.0'))
    if not true(c._row) or true(c._col):
        fail('only totals per row')
    return with_column(s.df, c._field_name, any_of('+', fmap(num, c._fields), litc('0.0')))


Cmd('AddTotalsCommand', add_totals)


def bin_(c, s):
    name = c._field._0._0 if is_(c._field, 'Field') else c._field._0._name
    df = s.df
    span = some(c._span)
    if span is None or some(c._align_time) is not None:
        fail('no span')
    src = tse(S.Expr.Leaf(S.LeafExpr.Constant(S.Constant.Field(c._field._0))) if is_(c._field, 'Field') else c._field._0._expr, s.ctx)
    df = with_column(df, name, func('window', src, pystr(cat(itos(span._value), ' ', span._scale))))
    return with_column(df, name, col(cat(name, '.start')))


Cmd('BinCommand', bin_)


def convert(c, s):
    def step(df, v):
        a = some(v._alias)
        return with_column(df, v._field._0 if a is None else a._0, convert_fn(c, v))
    return foldl(step, s.df, c._convs)


Cmd('ConvertCommand', convert)


def eval_(c, s):
    return foldl(lambda df, f: with_column(df, f._0._0, column(f._1, s.ctx)), s.df, c._fields)


def eval_rt(c, s):
    return s.runtime('eval', [], fmap(lambda f: (f._0._0, RX(unalC(column(f._1, s.ctx))._0)), c._fields))


Cmd('EvalCommand', eval_, eval_rt)


def fields(c, s):
    return select(s.df, fmap(lambda f: col(f._0), c._fields))


def fields_or_drop(c, s):
    if true(c._remove_fields):
        return D.ArbitraryMethod(source=s.df, method='drop', params=fmap(lambda f: E_(pystr(f._0)), c._fields))
    return fields(c, s)


Cmd('FieldsCommand', fields_or_drop)
Cmd('TableCommand', fields)


def fill_null(c, s):
    fs = some(c._fields)
    only = [] if fs is None else [E_(pyraw(cat('[', join(', ', fmap(lambda f: cat('"', f._0, '"'), fs)), ']')))]
    return D.ArbitraryMethod(source=s.df, method='fillna', params=[E_(pystr(c._value))] + only)


def fill_null_rt(c, s):
    fs = some(c._fields)
    lst = PYNONE() if fs is None else P.PyList(fmap(lambda f: RX(pystr(f._0)), fs))
    return s.runtime('fill_null', [], kw(value=pystr(c._value), fields=lst))


Cmd('FillNullCommand', fill_null, fill_null_rt)


def head(c, s):
    e = c._eval_expr
    n = const_of(e, 'Int')
    if n is not None:
        return limit(s.df, as_u64(n._0))
    if not is_(e, 'Binary'):
        fail()
    b = e._0
    f = const_of(b._left, 'Field')
    if f is not None and eq(f._0, 'count'):
        other, ops = b._right, ('<', '<=')
    else:
        f = const_of(b._right, 'Field')
        if f is None or not eq(f._0, 'count'):
            fail('no comparison against count')
        other, ops = b._left, ('>', '>=')
    n = const_of(other, 'Int')
    if n is None:
        fail()
    if eq(b._symbol, ops[0]):
        extra = 0
    elif eq(b._symbol, ops[1]):
        extra = 1
    else:
        fail()
    if true(c._keep_last._0):
        extra += 1
    n = as_u64(n._0)
    return limit(s.df, add(n, extra) if extra else n)


def as_u64(n):
    """A number of rows: a negative one is an error."""
    if lt(n, 0):
        fail('negative')
    return n


Cmd('HeadCommand', head)


def join_(c, s):
    if not eq(c._max, 1) or not true(c._overwrite):
        fail()
    sub = transform_pipeline(c._sub_search, s.ctx)
    r = uncons(sub._dataframes)
    if r is None:
        fail('sub-search gives no data')
    t = match_name(c._join_type, ('inner', 'left', 'outer'))
    if t is None:
        fail()
    on = some(joinbin(lit('&'), fmap(lambda f: binop(col(cat('LEFT.', f._0)), '==', col(cat('RIGHT.', f._0))), c._fields)))
    if on is None:
        fail('nothing to join on')
    if true(c._use_time):
        op = '>=' if true(c._earlier) else '<='
        on = binop(on, '&', binop(col('LEFT._time'), op, col('RIGHT._time')))
    return join_df(named_as(s.df, 'LEFT'), named_as(r[0], 'RIGHT'), on, t)


Cmd('JoinCommand', join_)


def lookup(c, s):
    def on(f):
        if is_(f, 'AliasedField'):
            return binop(col(cat('main.', f._0._alias)), '==', col(cat('lookup.', f._0._field._0)))
        if is_(f, 'Field'):
            return binop(col(cat('main.', f._0._0)), '==', col(cat('lookup.', f._0._0)))
        fail()

    def out(f):
        if is_(f, 'AliasedField'):
            return aliased(col(cat('lookup.', f._0._field._0)), f._0._alias)
        if is_(f, 'Field'):
            return aliased(col(cat('lookup.', f._0._0)), f._0._0)
        fail()
    cond = any_of('&', fmap(on, c._fields), litc('1'))
    j = join_df(named_as(s.df, 'main'), named_as(source(c._dataset), 'lookup'), cond, 'left')
    o = some(c._output)
    if o is None:
        return select(j, [col('main.*'), col('lookup.*')])
    if not eq(to_upper_ascii(o._kv), 'OUTPUT'):
        fail()
    return select(j, concat([col('main.*')], fmap(out, o._fields)))


Cmd('LookupCommand', lookup)


def make_results(c, s):
    none = litc('None')
    df = with_column(raw_source(cat('spark.range(0, ', itos(c._count), ', 1)')), '_time', func('current_timestamp'))
    if true(c._annotate):
        for n in ('_raw', 'host', 'source', 'sourcetype'):
            df = with_column(df, n, none)
        df = with_column(df, 'splunk_server', litc(cat('"', c._server, '"')))
        g_ = some(c._server_group)
        df = with_column(df, 'splunk_server_group', none if g_ is None else litc(cat('"', g_, '"')))
    return df


Cmd('MakeResultsCommand', make_results)


def multi_search(c, s):
    if emptyp(c._pipelines):
        return s.dfo

    def single(p):
        dfs = transform_pipeline(p, s.ctx)._dataframes
        r = uncons(dfs)
        if r is None or not emptyp(r[1]):
            fail('not a single data frame')
        return r[0]
    h = uncons(fmap(single, c._pipelines))
    if h is None:
        fail()
    return foldl(union, h[0], h[1])


Cmd('MultiSearchCommand', multi_search)


def rawstr(s):
    return pyraw(cat('r"', s, '"'))


def regex(c, s):
    it = some(c._item)
    if it is None:
        name, invert = lit('_raw'), False
    else:
        name = it._0._0
        if eq(it._1, '='):
            invert = False
        elif eq(it._1, '!='):
            invert = True
        else:
            fail()
    m = func('regexp_like', col(name), rawstr(c._regex))
    return where(s.df, not_(m) if invert else m)


Cmd('RegexCommand', regex)


def rename(c, s):
    def step(df, a):
        f = const_of(a._expr, 'Field')
        if f is None:
            fail()
        return renamed(df, f._0, a._name)
    return foldl(step, s.df, c._alias)


Cmd('RenameCommand', rename)


def rex(c, s):
    m = some(c._mode)
    if m is not None and eq(m, 'sed'):
        fail()
    if not eq(c._max_match, 1) or some(c._offset_field) is not None:
        fail()

    def step(df, g_):
        n = some(g_._1)
        return with_column(df, itos(g_._0) if n is None else n,
                           func('regexp_extract', col(c._field), rawstr(c._regex), pyint(g_._0)))
    return foldl(step, s.df, groups(c._regex))


@contract('groups', r'(^|::)get_groups(::<.*>)?$', result=True, opaque=True)
def groups(regex):
    """The capturing groups of a regular expression with their numbers and names; an error if it does not parse."""
    r = G.X.canon(mk('app', ('regex.parse', G.X.canon(coerce(regex))), find_ty('std::result::Result<regex_syntax::ast::Ast, regex_syntax::ast::Error>')))
    if not is_(r, 'Ok'):
        fail('not a regular expression')
    return ast_groups(G.X.canon(r).args[1])


@contract('ast_groups', r'regex_utils::_visit_node$', opaque=True, out=1, apptype=lambda: find_ty('std::vec::Vec<(u32, std::option::Option<std::string::String>)>'))
def ast_groups(a):
    """Those of a syntax tree: each capturing group with its own number and name, then those inside it, from left to right."""
    if is_(a, 'Repetition'):
        return ast_groups(a._0._ast)
    if is_(a, 'Group'):
        k, inside = a._0._kind, ast_groups(a._0._ast)
        none = mk('adt', (0,), OPTS())
        if is_(k, 'CaptureIndex'):
            return concat([(k._0, none)], inside)
        if is_(k, 'CaptureName'):
            return concat([(k._name._index, coerce(Some(k._name._name), OPTS()))], inside)
        return inside
    if is_(a, 'Alternation') or is_(a, 'Concat'):
        return flatmap(ast_groups, a._0._asts)
    return []


@contract('class_groups', r'regex_utils::_visit_class_set$', opaque=True, out=1, apptype=lambda: find_ty('std::vec::Vec<(u32, std::option::Option<std::string::String>)>'))
def class_groups(c):
    """A character class holds none."""
    return []


@contract('item_groups', r'regex_utils::_visit_class_set_item$', opaque=True, out=1, apptype=lambda: find_ty('std::vec::Vec<(u32, std::option::Option<std::string::String>)>'))
def item_groups(c):
    return []


class_groups.const = item_groups.const = mk('seq', ())


def _groups(regex):
    """Groups of a ground regular expression (simple ones)."""
    s, n, depth, out, i = regex.args[0], 0, 0, [], 0
    plain = re.sub(r'\(\?(:|P?<[A-Za-z_]\w*>)', '(', re.sub(r'\\[dwsDWSb.()-]', 'x', s))
    if not re.fullmatch(r'[A-Za-z0-9_\s.*+?()|:/=@,-]*', plain) or re.search(r'(^|[(|*+?])[*+?]', plain) or ')' in re.sub(r'[^()]', '', plain)[:1] \
            or len(set(re.findall(r'<(\w+)>', s))) < len(re.findall(r'<(\w+)>', s)) or plain.count(')') > plain.count('('):
        raise Unsupported('regular expression not evaluated')
    while i < len(s):
        if s[i] == '\\':
            i += 2
            continue
        if s[i] == '(':
            depth += 1
            m = re.match(r'\(\?P?<(\w+)>', s[i:])
            if m or s[i + 1:i + 2] != '?':
                n += 1
                out.append((n, coerce(Some(m.group(1)) if m else None, OPTS())))
        elif s[i] == ')':
            depth -= 1
        i += 1
    if depth:
        fail()
    return out


groups.ground = _groups


Cmd('RexCommand', rex)


def spath(c, s):
    o = some(c._output)
    return with_column(s.df, c._path if o is None else o,
                       func('get_json_object', col(c._input), pystr(cat('$.', c._path))))


Cmd('SPathCommand', spath)


# -- ordering and limits
def sort_(c, s):
    def key(x):
        f = const_of(x._1, 'Field')
        if f is None:
            fail()
        desc = true(c._descending)
        sign = some(x._0)
        if sign is not None:
            if eq(sign, '-'):
                desc = not desc
            elif not eq(sign, '+'):
                fail()
        return method(col(f._0), 'desc' if desc else 'asc')
    df = order_by(s.df, fmap(key, c._fields_to_sort))
    return df if eq(c._count, 0) else limit(df, as_u64(c._count))


Cmd('SortCommand', sort_)
Cmd('TailCommand', lambda c, s: D.Tail(source=s.df, limit=c._n))


def top(direction):
    def f(c, s):
        if true(c._use_other):
            fail()
        by = some(c._by)
        df = group_by(s.df, fmap(lambda f: P.ColumnOrName.Name(f._0), c._fields if by is None else by))
        df = agg(df, [aliased(func('count'), c._count_field)])
        n = c._count_field
        if true(c._show_percent):
            df = with_column(df, c._percent_field, binop(col(n), '/', func('sum', col(n))))
        df = order_by(df, [method(col(n), direction)])
        if not eq(c._n, 0):
            df = limit(df, c._n)
        return df if true(c._show_count) else D.ArbitraryMethod(source=df, method='drop', params=[E_(pystr(n))])
    return f


Cmd('TopCommand', top('desc'))
Cmd('RareCommand', top('asc'))
Cmd('WhereCommand', lambda c, s: where(s.df, tse(c._expr, s.ctx)))


# -- aggregation
@contract('by_field', r'(^|::)transform_by_field$', opaque=True)
def by_field(f):
    span = some(f._span)
    if span is None:
        return P.ColumnOrName.Name(f._field._0)
    return P.ColumnOrName.Column(func('window', pystr(f._field._0), pystr(cat(itos(span._value), ' ', span._scale))))


@contract('stats_expr', r'(^|::)transform_stats_expr$', result=True, opaque=True, view=lambda df, e, ctx: (df, e, ctx._runtime))
def stats_expr(df, e, ctx):
    u = unalS(e)
    if not is_(u._0, 'Call'):
        fail()
    r = stats_fn(u._0, df, ctx)
    return (r._0, maybe_alias(r._1, u._1))


@contract('stats_rt_expr', r'(^|::)transform_stats_runtime_expr$', result=True, opaque=True, view=lambda e, ctx: (e, ctx._runtime))
def stats_rt_expr(e, ctx):
    u = unalS(e)
    if not is_(u._0, 'Call'):
        fail()
    c = u._0._0
    n = some(u._1)
    args = fmap(lambda a: tse(a, ctx), c._args)
    return (c._name if n is None else n, RX(funcv(cat('functions.stats.', c._name), args)))


def aggregated(df, funcs, by, ctx):
    """df.groupBy(by...).agg(f1, f2, ...), one column per function in order"""
    def step(st, e):
        r = stats_expr(st[0], e, ctx)
        return (r._0, concat(st[1], [r._1]))
    df, cols = foldl(step, (df, seq_of('pyspark::ast::ColumnLike')), funcs)
    return agg(group_by(df, by), cols)


def seq_of(name):
    t = tyid(name)
    for i, x in enumerate(G.X.ty.t):
        if x['k'] == 'adt' and x['name'] == 'std::vec::Vec' and G.X.ty.peel(x['args'][0]) == t:
            return mk('seq', (), i)
    raise Unsupported('anchor lost: Vec<%s>' % name)


def stats(c, s):
    by = some(c._by)
    return aggregated(s.df, c._funcs, [] if by is None else fmap(by_field, by), s.ctx)


def by_kw(o):
    by = some(o)
    return [] if by is None else [('by', RX(P.PyList(fmap(lambda f: RX(by_field(f)), by))))]


def stats_rt(c, s):
    kws = concat(kwseq(by_kw(c._by)), fmap(lambda e: stats_rt_expr(e, s.ctx), c._funcs))
    return s.runtime('stats', [], kws)


def kwseq(items):
    return [G.X.canon(mk('tup', (coerce(k), v))) for k, v in items]


Cmd('StatsCommand', stats, stats_rt)


def supported(c):
    for f in (c._prestats, c._local, c._append, c._include_reduced_buckets):
        if true(f):
            fail()
    if some(c._by_prefix) is not None:
        fail()


def t_stats(c, s):
    supported(c)
    dm = S_DM.DataModelCommand(data_model_name=c._datamodel, dataset_name=c._nodename, search_mode=Some('search'), strict_fields=False,
                               allow_old_summaries=c._allow_old_summaries, summaries_only=c._summaries_only)
    st = COMMANDS['DataModelCommand'].tr(dm, s.state)
    df = Ctx(st).df
    w = some(c._where_condition)
    if w is not None:
        df = where(df, tse(w, s.ctx))
    by = some(c._by_fields)
    return aggregated(df, c._exprs, [] if by is None else fmap(by_field, by), s.ctx)


def t_stats_rt(c, s):
    supported(c)
    kws = kwseq([('from_', RX(P.PyDict(kw(datamodel=opt_str(c._datamodel), nodename=opt_str(c._nodename)))))])
    v = some(c._fillnull_value)
    if v is not None:
        kws += kwseq([('fill_null_value', RX(pystr(v)))])
    w = some(c._where_condition)
    if w is not None:
        kws += kwseq([('where', RX(tse(w, s.ctx)))])
    kws = concat(kws, kwseq(by_kw(c._by_fields)), fmap(lambda e: stats_rt_expr(e, s.ctx), c._exprs))
    return s.runtime('tstats', [], kws)


S_DM = NS('cmd_data_model::spl')
Cmd('TStatsCommand', t_stats, t_stats_rt)


def data_model(c, s):
    m = some(c._search_mode)
    if m is None or not eq(m, 'search'):
        fail()
    d, model, node = some(s.dfo), some(c._data_model_name), some(c._dataset_name)
    if d is not None:
        if model is None and node is None:
            return d
        fail()
    if model is None:
        fail()
    if node is None:
        return source(model)
    return source(cat(model, '.', after_first_segment(node)))


def after_first_segment(node):
    """the dotted path without its first component"""
    r = uncons(split(node, '.'))
    return join('.', r[1]) if r is not None else lit('')


def split(s, sep):
    if G.X.concrete:
        return seq(s.args[0].split(sep))
    return G.X.canon(mk('app', ('str.split', coerce(s), coerce(sep)), find_ty('std::vec::Vec<&str>')))


def data_model_rt(c, s):
    return s.runtime('data_model', [], kw(
        data_model_name=opt_str(c._data_model_name), dataset_name=opt_str(c._dataset_name), search_mode=opt_str(c._search_mode),
        strict_fields=pybool(c._strict_fields), allow_old_summaries=pybool(c._allow_old_summaries),
        summaries_only=pybool(c._summaries_only)))


Cmd('DataModelCommand', data_model, data_model_rt)

for n in ('CollectCommand', 'DedupCommand', 'EventStatsCommand', 'FormatCommand', 'InputLookupCommand', 'MapCommand', 'MvCombineCommand',
          'MvExpandCommand', 'ReturnCommand', 'StreamStatsCommand'):
    Cmd(n)


# -- search
def is_index(e):
    f = const_of(e, 'Field')
    return f is not None and eq(f._0, 'index')


STRS = lambda: find_ty('std::vec::Vec<std::string::String>')
EXPRS = lambda: find_ty('std::vec::Vec<spl::ast::Expr>')


@contract('split_conditions', r'cmd_search::pyspark::split_conditions$', result=True, opaque=True, out=2,
          view=lambda e, conj, ctx: (e, conj), apptype=lambda: tuple_of(opt_of(tyid('spl::ast::Expr')), STRS()))
def split_conditions(e, conj, ctx):
    """What is left of a search condition once the `index=x` comparisons that every event must satisfy are taken out,
    and the indexes they name.  An `index` comparison anywhere else is an error; nothing else is lost."""
    none = mk('adt', (0,), opt_of(tyid('spl::ast::Expr')))
    if not is_(e, 'Binary'):
        return Some(e), []
    b = e._0
    l, r = is_index(b._left), is_index(b._right)
    if l or r:
        if l and r or not eq(b._symbol, '='):
            fail('not a comparison of the index with a value')
        if not true(conj):
            fail('index comparison outside a conjunction')
        return none, [arg_name(b._right if l else b._left)]
    conj = true(conj) and eq(b._symbol, 'AND')
    lc, li = pair(split_conditions(b._left, conj, ctx))
    rc, ri = pair(split_conditions(b._right, conj, ctx))
    idx = concat(li, ri)
    x, y = some(lc), some(rc)
    if x is None and y is None:
        return none, idx
    if x is None or y is None:
        if not one_of(b._symbol, 'AND', 'OR'):
            fail('comparison with a pure index condition')
        return Some(x if y is None else y), idx
    return Some(S.Expr.Binary(S.Binary(left=x, symbol=b._symbol, right=y))), idx


def pair(r):
    return r if isinstance(r, tuple) else (r._0, r._1)


def arg_name(e):
    for k in ('Str', 'Field', 'Wildcard', 'Variable', 'IPv4CIDR'):
        c = const_of(e, k)
        if c is not None:
            return c._0
    fail('not a name')


def search(c, s):
    cond, idx = pair(split_conditions(c._expr, True, s.ctx))
    idx = sorted_set(idx)
    r = uncons(idx)
    df = s.df if r is None else foldl(lambda d, i: union(d, source(i)), source(r[0]), r[1])
    x = some(cond)
    return df if x is None else where(df, search_expr(tse(x, s.ctx)))


@contract('conjuncts', r'cmd_search::pyspark::break_down_ands$', opaque=True, out=1, apptype=EXPRS)
def conjuncts(e):
    """The operands of the nested ANDs, from left to right."""
    if is_(e, 'Binary') and eq(e._0._symbol, 'AND'):
        return concat(conjuncts(e._0._left), conjuncts(e._0._right))
    return [e]


SEARCH_KW = {'index': 'index', 'source': 'source', 'sourcetype': 'source_type', 'host': 'host', 'hosttag': 'host_tag',
             'eventtype': 'event_type', 'eventtypetag': 'event_type_tag', 'savedsplunk': 'saved_splunk', 'splunk_server': 'splunk_server'}


def search_rt(c, s):
    def one_(e):
        """(positional arguments, keyword arguments)"""
        if is_(e, 'Binary'):
            f = const_of(e._0._left, 'Field')
            if f is not None:
                k = match_name(f._0, SEARCH_KW)
                iseq = one_of(e._0._symbol, '=', '==')
                if k is not None:
                    if not iseq:
                        fail('must be an equality')
                    v = const_of(e._0._right, 'Field') or const_of(e._0._right, 'Str')
                    if v is None:
                        fail('not a string')
                    return [], [(SEARCH_KW[k], RX(pystr(v._0)))]
                if iseq:
                    return [], [(f._0, RX(tse(e._0._right, s.ctx)))]
        return [RX(tse(e, s.ctx))], []
    es = conjuncts(c._expr)
    return s.runtime('search', flatmap(lambda e: one_(e)[0], es), flatmap(lambda e: one_(e)[1], es))


Cmd('SearchCommand', search, search_rt)


# ------------------------------------------------------------------ dispatch
@contract('command', TRAIT('Command', 'transform'), result=True, opaque=True, view=stview, wrap=stwrap, apptype=dfopt)
def command(c, state):
    k = kind(c)
    if k not in COMMANDS:
        fail('unsupported command')
    return COMMANDS[k].tr(c._0, state)


def rt_none(f):
    return f


@contract('pipeline', r'TransformedPipeline.*::transform$', result=True, opaque=True, view=lambda p, ctx: (p, ctx))
def transform_pipeline(p, ctx):
    """Each command is applied, in order, to the result of the ones before it; the first failure fails the whole."""
    none = mk('adt', (0,), dfopt())
    st = lambda df: PT.PipelineTransformState(ctx=ctx, df=df)
    df = foldl(lambda df, c: command(c, st(df))._df, none, p._commands)
    d = some(df)
    return P.TransformedPipeline(dataframes=[] if d is None else [d])
