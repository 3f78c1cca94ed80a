"""The commands of SPL: contracts of SplCommand::parse, parse_body and of the option parsers (src/commands/*/spl.rs)."""
from ..dsl import *
from ..dsl import G
from .core import *
from ..peg import *
from . import parser as L
from .parser import (int_, token, field, expr, bool_, string, double_quoted, command_options, field_list0, field_list1, aliased_field,
                     field_and_value, field_in, logical_expression, stats_call, maybe_spanned_field_list1, sub_search, quoted_search,
                     COMMA, COMMA_OR_SPACE, EXPR, Lf, lower, combined)

ALIAS = 'spl::ast::Alias'
FIELD = 'spl::ast::Field'


# ------------------------------------------------------------------ options
def mapty():
    return find_ty(r'std::collections::HashMap<std::string::String, spl::ast::Constant>')


@contract('options.of', impl('From', 'from', 'ParsedCommandOptions'))
def options_of(co):
    return S.ParsedCommandOptions(inner=mk('app', ('map.of', G.X.canon(coerce(fmap(lambda fc: (fc._field, fc._value), co._options)))), mapty()))


def given(opts, key):
    """The value written last for the option, or None."""
    r = mk('app', ('map.get', G.X.canon(opts._inner), coerce(key)), opt_of(tyid('spl::ast::Constant')))
    return some(G.X.canon(r))


PCO = lambda m: inh('ParsedCommandOptions', m)


@contract('options.int', PCO('get_int_option'), result=True, opaque=True)
def int_option(opts, key):
    v = given(opts, key)
    if v is None:
        return None
    if not is_(v, 'Int'):
        fail()
    return Some(v._0._0)


@contract('options.string', PCO('get_string_option'), result=True, opaque=True)
def string_option(opts, key):
    v = given(opts, key)
    if v is None:
        return None
    if kind(v) not in ('Field', 'Str'):
        fail()
    return Some(v._0._0)


@contract('options.span', PCO('get_span_option'), result=True, opaque=True)
def span_option(opts, key):
    v = given(opts, key)
    if v is None:
        return None
    if not is_(v, 'TimeSpan'):
        fail()
    return Some(v._0)


@contract('options.bool', PCO('get_boolean'), result=True, opaque=True)
def bool_option(opts, key, default):
    v = given(opts, key)
    if v is None:
        return default
    if is_(v, 'Bool'):
        return v._0._0
    if is_(v, 'Field'):
        for w, b in (('true', True), ('t', True), ('false', False), ('f', False)):
            if eq(v._0._0, w):
                return b
    fail()


@contract('options.int_or', PCO('get_int'), result=True)
def int_or(opts, key, default):
    v = some(int_option(opts, key))
    return default if v is None else v


@contract('options.string_or', r'ParsedCommandOptions::get_string(::<.*>)?$', result=True)
def string_or(opts, key, default):
    v = some(string_option(opts, key))
    return default if v is None else v


INT, STRING, SPAN = object(), object(), object()


def option(opts, key, default):
    if default is INT:
        return int_option(opts, key)
    if default is STRING:
        return string_option(opts, key)
    if default is SPAN:
        return span_option(opts, key)
    if isinstance(default, bool):
        return bool_option(opts, key, default)
    if isinstance(default, int):
        return int_or(opts, key, default)
    return string_or(opts, key, default)


def snake(n):
    return ''.join('_' + c.lower() if c.isupper() else c for c in n).lstrip('_')


MACRO = 'spl::macros::MacroCall'
OPTSTR = '(std::option::Option<std::string::String>, std::string::String)'


@rule('macros', r'spl::macros::spl_macros$')
def macros():
    """Text with macro calls between backquotes: the text before each call, the calls and the text after the last."""
    arg = seq_(opt(post(token, tag('='))), recog(expr)).map(lambda n, e: (n, e))
    args = mid(ws(tag('(')), list0(COMMA, arg, lambda: find_ty(OPTSTR)), ws(tag(')')))
    call = ws(seq_(ws(token), opt(args)).map(lambda n, a: NS('spl::macros').MacroCall(macro_name=n, args=or_(a, []))))
    chunk = seq_(leaf('take_until', '`'), mid(tag('`'), call, tag('`'))).map(lambda t, c: (t, c))
    return whole(seq_(many0(chunk, lambda: find_ty('(&str, spl::macros::MacroCall)')), recog(many0(leaf('none_of', '`'), lambda: G.X.ty.find('char')))).map(
        lambda cs, rest: (cs, rest)))


class Cmd:
    """One command: its module, its option table and its rules."""
    def __init__(self, n, alias=None, opts=None, more=None):
        self.n = n
        self.ns = NS('commands::cmd_%s::spl' % snake(n))
        self.opts = opts or {}
        self.more = more
        self.name = n.lower()
        self.words = [self.name] + ([alias] if alias else [])
        self.try_from = contract('options.%s' % self.name, impl('TryFrom', 'try_from', n + 'CommandOptions'), result=True, opaque=True)(self.convert)
        if not self.opts:
            return
        self.match = Rule('options ' + self.name, lambda: Conv(command_options, lambda co: self.try_from(options_of(co))), gen=self.gen)
        self.match.contract = contract('parse.options.%s' % self.name, impl('SplCommandOptions', 'match_options', n + 'CommandOptions'), result=True, opaque=True, parser=True)(
            self.ruled(self.match))

    def gen(self, g):
        """Text of options: mostly known ones, with values of every type."""
        out = ''
        for _ in range(g.r.choice([0, 1, 1, 2, 3])):
            k, default = g.r.choice(list(self.opts.values()))
            v = (g.r.choice(['true', 'false', 't', 'f', 'TRUE']) if isinstance(default, bool) else g.digits() if default is INT or isinstance(default, int)
                 else g.digits() + g.r.choice(['m', 'd', 'h', 's', 'months']) if default is SPAN else g.name())
            if g.lits and g.r.random() < .35:
                v = g.r.choice(g.lits)
            elif g.r.random() < .25:
                v = g.r.choice(['5', '-3', '1d', 'x', '"a b"', 'true', '"t"', '1.5', 'f', '0', 'F', '"5"', '', 'raw', 'x*', '"x"'])
            out += g.case(k) + g.r.choice(['=', '=', '=', ' = ']) + v + g.r.choice([' ', ' ', '  '])
        return out

    def ruled(self, r):
        def spec(i):
            rest, v = r.get()(i)
            return (rest, tuple(v) if isinstance(v, Vals) else v)
        return spec

    def convert(self, v):
        vals = {}
        for f, (key, default) in self.opts.items():
            vals[f] = option(v, key, default)
        if self.more:
            vals = self.more(vals)
        return getattr(self.ns, self.n + 'CommandOptions')(**vals)

    def __call__(self, **kw):
        return getattr(self.ns, self.n + 'Command')(**kw)

    def of(self, o, **kw):
        """The command with the fields of its options record"""
        for f in self.opts:
            if f not in kw:
                kw[f] = g(o, f)
        return self(**{k: v for k, v in kw.items() if v is not DROP})


DROP = object()
CMDS = {}


def g(o, f):
    return getattr(o, '_' + f)


def cmd(n, alias=None, opts=None, more=None, name=None):
    """Decorator on a function Cmd -> grammar of the command's body."""
    def deco(f):
        c = CMDS[n] = Cmd(n, alias, opts, more)
        r = Rule('body ' + c.name, lambda: f(c))
        r.contract = contract('parse.body.%s' % c.name, impl('SplCommand', 'parse_body', n + 'Parser'), result=True, opaque=True, parser=True)(c.ruled(r))
        w = Rule('command ' + c.name, lambda: pre(name or seq_(alt(*map(kw, c.words)) if len(c.words) > 1 else kw(c.words[0]), alt(ws1, eof)), r))
        w.contract = contract('parse.command.%s' % c.name, impl('SplCommand', 'parse', n + 'Parser'), result=True, opaque=True, parser=True)(c.ruled(w))
        c.body, c.whole = r, w
        r.contract.rule, w.contract.rule = r, w
        return c
    return deco


def or_(v, default):
    return default if v is None else v.v


def by(p):
    return pre(ws(kw('by')), p)


@cmd('AddTotals', opts=dict(row=('row', True), col=('col', False), field_name=('fieldname', 'Total'), label_field=('labelfield', STRING), label=('label', 'Total')))
def addtotals(c):
    return seq_(c.match, many0(ws(field), FIELD)).map(lambda o, fs: c.of(o, fields=fs))


def field_or_alias():
    return alt(aliased_field.map(lambda a: S.FieldOrAlias.Alias(alias_of(a))), field.map(lambda f: S.FieldOrAlias.Field(f)))


def alias_of(a):
    return S.Alias(expr=Lf(S.Constant.Field(a._field)), name=a._alias)


@cmd('Bin', 'bucket', dict(span=('span', SPAN), min_span=('minspan', SPAN), bins=('bins', INT), start=('start', INT), end=('end', INT), align_time=('aligntime', STRING)))
def bin_(c):
    return seq_(c.match, field_or_alias()).map(lambda o, f: c.of(o, field=f))


def need_index(v):
    i = some(v['index'])
    if i is None:
        fail()
    return dict(v, index=i)


@cmd('Collect', opts=dict(index=('index', STRING), add_time=('addtime', True), file=('file', STRING), host=('host', STRING), marker=('marker', STRING),
                          output_format=('output_format', 'raw'), run_in_preview=('run_in_preview', False), spool=('spool', True), source=('source', STRING),
                          source_type=('sourcetype', STRING), test_mode=('testmode', False)), more=need_index)
def collect(c):
    return seq_(c.match, field_list0).map(lambda o, fs: c.of(o, fields=fs))


@cmd('Convert', opts=dict(timeformat=('timeformat', '%m/%d/%Y %H:%M:%S')))
def convert(c):
    conv = ws(seq_(token, mid(tag('('), ws(field), tag(')')), ws(opt(pre(ws(kw('AS')), field))))).map(
        lambda t, f, a: c.ns.FieldConversion(func=t, field=f, alias=a))
    return seq_(c.match, many0(conv, 'commands::cmd_convert::spl::FieldConversion')).map(lambda o, cs: c.of(o, convs=cs))


@cmd('DataModel', opts=dict(strict_fields=('strict_fields', False), allow_old_summaries=('allow_old_summaries', False), summaries_only=('summariesonly', True)))
def datamodel(c):
    modes = ('search', 'flat', 'acceleration_search')
    name = lambda: opt(ws(verify(field, lambda v: not any(eq(v._0, m) for m in modes))))
    text = lambda f: None if f is None else Some(f.v._0)
    return seq_(c.match, name(), name(), opt(alt(*map(kw, modes)))).map(
        lambda o, m, d, s: c.of(o, data_model_name=text(m), dataset_name=text(d), search_mode=s))


def simple_sort(fs):
    return CMDS['Sort'](fields_to_sort=fs, count=0, descending=False)


SORTED = '(std::option::Option<std::string::String>, spl::ast::Expr)'


def sorted_ty():
    return find_ty(SORTED)


def as_field(f):
    return Lf(S.Constant.Field(f))


@cmd('Dedup', opts=dict(keep_events=('keepevents', False), keep_empty=('keepempty', False), consecutive=('consecutive', False)))
def dedup(c):
    fields = many1(ws(verify(field, lambda f: not eq(lower(f._0), 'sortby'))), FIELD)
    order = many1(ws(seq_(opt(alt(tag('+'), tag('-'))), field.map(as_field)).map(lambda s, e: (s, e))), sorted_ty)
    return seq_(opt(int_), c.match, fields, opt(pre(ws(kw('sortby')), order))).map(
        lambda n, o, fs, by: c.of(o, num_results=1 if n is None else n.v._0, fields=fs,
                                  sort_by=simple_sort([(Some('+'), as_field(S.Field('_no')))] if by is None else by.v)))


@cmd('Eval')
def eval_(c):
    return list0(COMMA, sep_(ws(field), ws(tag('=')), ws(expr)).map(lambda f, e: (f, e)),
                 lambda: find_ty('(spl::ast::Field, spl::ast::Expr)')).map(lambda a: c(fields=a))


@cmd('EventStats', opts=dict(all_num=('allnum', False)))
def eventstats(c):
    return seq_(c.match, ws(stats_call), opt(by(field_list0))).map(lambda o, fs, b: c.of(o, funcs=fs, by=or_(b, [])))


@cmd('Fields')
def fields(c):
    return seq_(opt(ws(alt(tag('+'), tag('-')))), field_list1).map(lambda s, fs: c(remove_fields=s is not None and eq(s.v, '-'), fields=fs))


@cmd('FillNull')
def fillnull(c):
    return seq_(opt(pre(tag('value='), alt(double_quoted, token))), opt(many1(ws(field), FIELD))).map(
        lambda v, fs: c(value=or_(v, '0'), fields=fs))


@cmd('Format', opts=dict(mv_sep=('mvsep', 'OR'), max_results=('maxresults', 0)))
def format_(c):
    names = 'row_prefix col_prefix col_sep col_end row_sep row_end'.split()

    def value(o, d):
        d = ('(', '(', 'AND', ')', 'OR', ')') if d is None else d.v
        return c.of(o, **dict(zip(names, d)))
    return seq_(c.match, opt(seq_(*[ws(double_quoted)] * 6))).map(value)


@cmd('Head')
def head(c):
    limit = alt(int_, pre(ws(kw('limit=')), int_)).map(lambda n: Lf(S.Constant.Int(n)))
    return seq_(ws(alt(limit, expr)), ws(opt(pre(ws(kw('keeplast=')), bool_))), ws(opt(pre(ws(kw('null=')), bool_)))).map(
        lambda e, k, n: c(eval_expr=e, keep_last=or_(k, S.BoolValue(False)), null_option=or_(n, S.BoolValue(False))))


@cmd('InputLookup', opts=dict(append=('append', False), strict=('strict', False), start=('start', 0), max=('max', 1000000000)))
def inputlookup(c):
    return seq_(c.match, ws(token), ws(opt(pre(ws(kw('where')), expr)))).map(lambda o, t, w: c.of(o, table_name=t, where_expr=w))


@cmd('Join', opts=dict(join_type=('type', 'inner'), use_time=('usetime', False), earlier=('earlier', True), overwrite=('overwrite', True), max=('max', 1)))
def join_(c):
    return seq_(c.match, field_list1, sub_search).map(lambda o, fs, p: c.of(o, fields=fs, sub_search=p))


FL = S.FieldLike
LK = 'cmd_lookup::spl::'


def not_output(t):
    return not eq(lower(t), 'output')


@rule('field_rep', LK + 'field_rep$')
def field_rep():
    return list1(COMMA_OR_SPACE, alt(verify(aliased_field, lambda v: not_output(v._alias)).map(lambda v: FL.AliasedField(v)),
                                     verify(field, lambda v: not_output(v._0)).map(lambda v: FL.Field(v))), 'spl::ast::FieldLike')


@rule('lookup_output', LK + 'lookup_output$')
def lookup_output():
    return sep_(alt(kw('OUTPUTNEW'), kw('OUTPUT')), ws1, field_rep).map(lambda k, fs: CMDS['Lookup'].ns.LookupOutput(kv=k, fields=fs))


@cmd('Lookup')
def lookup(c):
    return seq_(ws(token), ws(field_rep), ws(opt(lookup_output))).map(lambda t, fs, o: c(dataset=t, fields=fs, output=o))


@cmd('MakeResults', opts=dict(count=('count', 1), annotate=('annotate', False), server=('splunk_server', 'local'), server_group=('splunk_server_group', STRING)))
def makeresults(c):
    return c.match.map(lambda o: c.of(o))


@cmd('Map', opts=dict(max_searches=('maxsearches', 10)))
def map_(c):
    return seq_(quoted_search, c.match).map(lambda p, o: c.of(o, search=p))


@cmd('MultiSearch')
def multisearch(c):
    return Loop('many2', (ws(sub_search),), 'spl::ast::Pipeline').map(lambda ps: c(pipelines=ps))


@cmd('MvCombine')
def mvcombine(c):
    return seq_(opt(pre(seq_(ws(kw('delim')), ws(tag('='))), ws(double_quoted))), field).map(lambda d, f: c(delim=d, field=f))


def number(n):
    return None if n is None else Some(n.v._0)


@cmd('MvExpand')
def mvexpand(c):
    return seq_(ws(field), opt(pre(seq_(ws(kw('limit')), ws(tag('='))), ws(int_)))).map(lambda f, n: c(field=f, limit=number(n)))


def unsigned(n):
    """A count written as a signed integer: an error when it is negative."""
    if lt(n, 0):
        fail()
    return as_u64(n)


def as_u64(n):
    return G.X.canon(G.X.wrapt(coerce(n), G.X.ty.get(G.X.ty.find('u64'))))


def non_negative(n, *_):
    return n is None or not lt(n.v._0, 0)


def unsigned_limit(v):
    return dict(v, limit=unsigned(v['limit']))


MOST = dict(count_field=('countfield', 'count'), limit=('limit', 10), other_str=('otherstr', 'OTHER'), percent_field=('percentfield', 'percent'),
            show_count=('showcount', True), show_percent=('showperc', True), use_other=('useother', False))


def counted(c, o, n, fs, b):
    return c.of(o, limit=DROP, n=o._limit if n is None else as_u64(n.v._0), fields=fs, by=b)


@cmd('Rare', opts=MOST, more=unsigned_limit)
def rare(c):
    return verify(seq_(ws(opt(int_)), ws(c.match), ws(field_list0), ws(opt(by(field_list0)))), non_negative).map(lambda n, o, fs, b: counted(c, o, n, fs, b))


@cmd('Top', opts=MOST, more=unsigned_limit)
def top(c):
    return verify(seq_(ws(opt(int_)), ws(c.match), field_list1, ws(opt(by(field_list1)))), non_negative).map(lambda n, o, fs, b: counted(c, o, n, fs, b))


@cmd('Regex')
def regex(c):
    return seq_(opt(seq_(ws(field), ws(alt(tag('='), tag('!=')))).map(lambda f, o: (f, o))), double_quoted).map(lambda i, r: c(item=i, regex=r))


@cmd('Rename')
def rename(c):
    return list1(COMMA, aliased_field, 'spl::ast::AliasedField').map(lambda l: c(alias=fmap(alias_of, l)))


@cmd('Return')
def return_(c):
    F = S.FieldOrAlias
    FOA = 'spl::ast::FieldOrAlias'
    named = many1(ws(field_and_value).map(lambda v: F.Alias(S.Alias(expr=as_field(S.Field(v._value)), name=v._field))), FOA)
    return seq_(ws(opt(int_)), alt(named, many1(ws(pre(tag('$'), field)).map(lambda f: F.Field(f)), FOA), many1(ws(field).map(lambda f: F.Field(f)), FOA))).map(
        lambda n, fs: c(count=or_(n, S.IntValue(1)), fields=fs))


def sed_mode(v):
    m = some(v['mode'])
    if m is None:
        return v
    if not eq(lower(m), 'sed'):
        fail()
    return dict(v, mode=Some(lower(m)))


@cmd('Rex', opts=dict(mode=('mode', STRING), field=('field', '_raw'), max_match=('max_match', 1), offset_field=('offset_field', STRING)), more=sed_mode)
def rex(c):
    return seq_(c.match, double_quoted).map(lambda o, r: c.of(o, regex=r))


@cmd('Search', name=alt(seq_(kw('search'), alt(ws1, eof)), ws0))
def search(c):
    return list1(COMMA_OR_SPACE, expr, EXPR).map(lambda es: c(expr=combined(es, 'AND')))


@cmd('Sort')
def sort(c):
    keys = list1(COMMA, seq_(opt(alt(tag('+'), tag('-'))), expr).map(lambda s, e: (s, e)), sorted_ty)
    return seq_(opt(pre(opt(ws(kw('limit='))), ws(int_))), keys, opt(ws(kw('desc')))).map(
        lambda n, ks, d: c(fields_to_sort=ks, count=10000 if n is None else n.v._0, descending=d is not None))


@cmd('SPath')
def spath(c):
    f = lambda k: opt(ws(pre(kw(k), field)))
    return seq_(f('input='), f('output='), ws(pre(opt(kw('path=')), string))).map(
        lambda i, o, p: c(path=p, input='_raw' if i is None else i.v._0, output=None if o is None else Some(o.v._0)))


def unsigned_partitions(v):
    if lt(v['partitions'], 0):
        fail()
    return dict(v, partitions=v['partitions'])


@cmd('Stats', opts=dict(partitions=('partitions', 1), all_num=('allnum', False), delim=('delim', ' ')), more=unsigned_partitions)
def stats(c):
    dd = pre(seq_(ws(kw('dedup_splitvals')), ws(tag('='))), bool_)
    return seq_(c.match, stats_call, opt(by(maybe_spanned_field_list1)), opt(dd)).map(
        lambda o, fs, b, d: c.of(o, funcs=fs, by=b, dedup_split_vals=False if d is None else d.v._0))


@cmd('StreamStats', opts=dict(current=('current', True), window=('window', 0)))
def streamstats(c):
    return seq_(c.match, ws(stats_call), opt(by(maybe_spanned_field_list1))).map(lambda o, fs, b: c.of(o, funcs=fs, by=or_(b, [])))


TSP = 'cmd_t_stats::spl::'
DOTTED = lambda: recog(list1(tag('.'), token, 'str'))


@rule('from_datamodel', TSP + '_parse_from_datamodel$')
def from_datamodel():
    return pre(ws(kw('from')), seq_(ws(pre(ws(kw('datamodel=')), DOTTED())), opt(ws(pre(ws(kw('where')), ws(pre(kw('nodename='), DOTTED())))))))


@rule('tstats_where', TSP + '_parse_where$')
def tstats_where():
    return pre(ws(kw('where')), ws(alt(logical_expression, field_in.map(lambda f: S.Expr.FieldIn(f)))))


def by_clause(f, p):
    return CMDS['TStats'].ns.ByClause(fields=f, prefix=p)


@rule('tstats_by', TSP + '_parse_by$')
def tstats_by():
    return pre(ws(kw('by')), alt(ws(pre(kw('PREFIX'), mid(tag('('), field, tag(')')))).map(lambda f: by_clause(None, Some(f._0))),
                                 maybe_spanned_field_list1.map(lambda fs: by_clause(Some(fs), None))))


@rule('stats_count', TSP + '_stats_function_count$')
def stats_count():
    arg = mid(ws1, verify(field, lambda f: not any(eq(lower(f._0), w) for w in ('from', 'where', 'by'))), alt(ws1, eof))
    return pre(kw('count'), opt(arg)).map(lambda f: S.Call(name='count', args=[] if f is None else [as_field(f.v)]))


@rule('stats_fcall', TSP + '_stats_function_call$')
def stats_fcall():
    return seq_(token, mid(tag('('), field, tag(')'))).map(lambda n, f: S.Call(name=n, args=[as_field(f)]))


@rule('stats_function', TSP + '_stats_function$')
def stats_function():
    return seq_(alt(stats_fcall, stats_count), opt(pre(mid(ws1, kw('AS'), ws1), token))).map(
        lambda c, a: S.Expr.Call(c) if a is None else S.Expr.Alias(S.Alias(expr=S.Expr.Call(c), name=a.v)))


@cmd('TStats', opts=dict(prestats=('prestats', False), local=('local', False), append=('append', False), summaries_only=('summariesonly', False),
                         include_reduced_buckets=('include_reduced_buckets', False), allow_old_summaries=('allow_old_summaries', False),
                         chunk_size=('chunk_size', 10000000), fillnull_value=('fillnull_value', STRING)))
def tstats(c):
    def value(o, es, f, w, b):
        if b is not None:
            b = (b.v._fields, b.v._prefix)
        d = parts(G.X, f.v) if f is not None else None
        return c.of(o, exprs=es, datamodel=None if d is None else Some(d[0]), nodename=None if d is None else d[1], where_condition=w,
                    by_fields=None if b is None else b[0], by_prefix=None if b is None else b[1])
    return seq_(c.match, list1(ws1, stats_function, EXPR), ws(opt(from_datamodel)), ws(opt(tstats_where)), ws(opt(tstats_by))).map(value)


@cmd('Table')
def table(c):
    return field_list1.map(lambda fs: c(fields=fs))


@cmd('Tail')
def tail(c):
    return verify(int_, lambda n: not lt(n._0, 0)).map(lambda n: c(n=as_u64(n._0)))


@cmd('Where')
def where(c):
    return expr.map(lambda e: c(expr=e))


ORDER = '''AddTotals Bin Collect Convert DataModel Dedup Eval EventStats Fields FillNull Format Head InputLookup Join Lookup MakeResults Map MultiSearch MvCombine
MvExpand Rare Regex Rename Return Rex Sort SPath Stats StreamStats Table Tail Top TStats Where Search'''.split()


@rule('command', r'spl::parser::command$')
def command():
    def one_(n):
        return CMDS[n].whole.map(lambda v: getattr(S.Command, n + 'Command')(v))
    return alt(*map(one_, ORDER))
