"""The grammar of SPL: contracts of the parser functions (src/spl/parser.rs, operators.rs, stats_utils.rs)."""
from ..dsl import *
from .core import *
from ..peg import *

C = lambda: S.Constant
STRS = 'str'


# ------------------------------------------------------------------ lexical level
UNITS = [('months', 'months month mon'), ('days', 'days day d'), ('hours', 'hours hour hrs hr h'),
         ('minutes', 'minutes minute mins min m'), ('weeks', 'weeks week w7 w0 w'), ('seconds', 'seconds second secs sec s')]


@rule('time_unit')
def time_unit():
    return alt(*[const(alt(*map(kw, ns.split())), u) for u, ns in UNITS])


SIGN = opt(alt(tag('+'), tag('-')))


def is_minus(s):
    return s is not None and eq(s.v, '-')


@rule('int')
def int_():
    def value(s, d):
        n = parse_num(d, 'i64', 63)
        return S.IntValue(G.X.canon(mk('imul', (I(-1), n))) if is_minus(s) else n)
    return seq_(SIGN, digits).map(value)


@rule('double')
def double():
    def value(s, w):
        x = parse_f64(cat(w[0], '.', w[1]))
        return S.DoubleValue(fmul(-1.0 if is_minus(s) else 1.0, x))
    return seq_(SIGN, sep_(digits, tag('.'), digits)).map(value)


@rule('time_span')
def time_span():
    return seq_(int_, time_unit).map(lambda n, u: S.TimeSpan(value=n._0, scale=u))


@rule('time_span_one')
def time_span_one():
    return seq_(opt(tag('-')), time_unit).map(lambda s, u: S.TimeSpan(value=1 if s is None else -1, scale=u))


SNAP = seq_(opt(alt(time_span, time_span_one)), tag('@'), time_unit, opt(time_span)).map(
    lambda span, _, u, off: S.SnapTime(span=span, snap=u, snap_offset=off))


@rule('relative_time')
def relative_time():
    return alt(SNAP, mid(tag('"'), SNAP, tag('"')))


RESERVED = '''AFTER AND APPLY AS ASC BEFORE BETWEEN BIN BRANCH BY DEDUP DISTINCT EVENTSTATS EXISTS EXPORT FIT FROM FUNCTION GROUP
GROUPBY HAVING HEAD HISTPERC IMPORT IN INNER INTO IS JOIN LIKE LIMIT LOOKUP NOT OFFSET ON ONCHANGE OR ORDER ORDERBY OUTER OUTPUTNEW
RENAME RESET RETURN REX SEARCH SELECT SORT STATS STREAMSTATS THRU THROUGH TIMECHART TIMEWRAP UNION WHERE WHILE XOR'''.split()


@contract('parse.word', r'spl::parser::_is_not_reserved_word$', opaque=True)
def free_word(s):
    return B(not any(eq(upper(s), w) for w in RESERVED))


def upper(s):
    return sfun('str.ascii_upper', s)


def word(extra):
    return verify(recog(many1(alt(recog(leaf('one_of', '_*:/-%{}@' + extra)), leaf('alphanumeric1'),
                                  recog(seq_(tag('\\'), leaf('take', 1)))), STRS)), lambda v: true(free_word(v)))


def gen_token(g):
    return g.name()


@rule('token', gen=gen_token)
def token():
    return word('')


@rule('token_with_extras', gen=gen_token)
def token_with_extras():
    return word('\\$.')


def wordop(w):
    """A word of the language: not the beginning of a longer word"""
    return post(kw(w), not_(alt(recog(leaf('one_of', '_*:/-%{}@\\.')), leaf('alphanumeric1'))))


@rule('bool_')
def bool_():
    return post(alt(const(kw('true'), True), const(kw('t'), True), const(kw('false'), False), const(kw('f'), False)),
                Peek(alt(eof, ws1, recog(leaf('one_of', '().:'))))).map(lambda b: S.BoolValue(b))


def quoted(q):
    return ws(recog(many0(alt(recog(seq_(tag('\\'), leaf('anychar'))), recog(leaf('none_of', q + '\\'))), STRS)))


@rule('double_quoted', gen=lambda g: '"%s"' % g.text())
def double_quoted():
    t = quoted('"')
    q = tag('"')
    return alt(mid(q, recog(seq_(q, t, q)), q), mid(q, t, q))


@rule('single_quoted', gen=lambda g: "'%s'" % g.text("'"))
def single_quoted():
    return mid(tag("'"), quoted("'"), tag("'"))


@rule('double_quoted_alt')
def double_quoted_alt():
    return mid(tag('"'), ws(recog(many0(alt(tag('\\"'), tag('\\\\'), recog(leaf('none_of', '"\\'))), STRS))), tag('"'))


@rule('wildcard')
def wildcard():
    return verify(alt(double_quoted, token_with_extras), lambda v: true(contains(v, '*'))).map(lambda v: S.Wildcard(v))


@rule('str_value')
def str_value():
    return double_quoted.map(lambda v: S.StrValue(v))


@rule('_token_not_t_f', gen=gen_token)
def plain_token():
    return verify(token, lambda v: not eq(v, 't') and not eq(v, 'f'))


@rule('field', gen=gen_token)
def field():
    return alt(recog(list1(tag('.'), alt(plain_token, double_quoted), STRS)).map(lambda v: S.Field(v)),
               single_quoted.map(lambda v: S.Field(v)))


@rule('string')
def string():
    return alt(double_quoted, recog(many1(alt(token, tag('.'), tag(':')), STRS)))


@rule('variable')
def variable():
    return mid(tag('$'), plain_token, tag('$')).map(lambda v: S.Variable(v))


@rule('byte', gen=lambda g: str(g.r.randrange(300)))
def byte():
    return recog(verify(digits, lambda s: le(slen(s), I(3))))


@rule('ipv4_addr')
def ipv4_addr():
    return recog(seq_(byte, tag('.'), byte, tag('.'), byte, tag('.'), byte))


@rule('ipv4_cidr')
def ipv4_cidr():
    return recog(sep_(ipv4_addr, ws(tag('/')), byte)).map(lambda v: S.IPv4CIDR(v))


@rule('ipv6_addr', gen=lambda g: g.r.choice(['1:2:3:4:5:6:7:8', '::1', '1::2', '2001:1::']))
def ipv6_addr():
    return verify(recog(list1(tag(':'), opt(Conv(digits, lambda d: parse_num(d, 'u16', 16))), lambda: opt_of(G.X.ty.find('u16')))), is_ipv6)


def is_ipv6(s):
    if G.X.concrete:
        import ipaddress
        try:
            ipaddress.IPv6Address(G.X.canon(coerce(s)).args[0])
            return True
        except ValueError:
            return False
    r = mk('app', ('str.parse', coerce(s)), find_ty('std::result::Result<std::net::Ipv6Addr, std::net::AddrParseError>'))
    return G.X.variant_switch(G.X.canon(r), [{0}]) == 0


def slen(s):
    return G.X.canon(nsize(s))


def parse_f64(s):
    """The number that a numeral `digits.digits` denotes."""
    if G.X.concrete:
        return mk('float', (float(G.X.canon(coerce(s)).args[0]),))
    r = G.X.canon(mk('app', ('str.parse', coerce(s)), find_ty('std::result::Result<f64, std::num::ParseFloatError>')))
    if G.X.variant_switch(r, [{0}]) != 0:
        raise Unsupported('numeral of a float')
    return G.X.canon(G.X.canon(r).args[1])


def fmul(a, b):
    if G.X.concrete:
        return mk('float', (a * b.args[0],))
    return G.X.canon(mk('app', ('fMul', mk('float', (a,)), b), G.X.ty.find('f64')))


QWORD = lambda: recog(alt(double_quoted, single_quoted, token_with_extras))


def Str(s):
    return S.Constant.Str(S.StrValue(s))


@rule('literal')
def literal():
    """The right-hand side of a comparison in a search: a word or quoted text, classified by its whole text."""
    K = S.Constant
    return Within(QWORD(), alt(
        whole(ipv4_cidr).map(lambda v: K.IPv4CIDR(v)), whole(ipv4_addr).map(Str), whole(ipv6_addr).map(Str),
        whole(wildcard).map(lambda v: K.Wildcard(v)), whole(str_value).map(lambda v: K.Str(v)), whole(variable).map(lambda v: K.Variable(v)),
        whole(relative_time).map(lambda v: K.SnapTime(v)), whole(time_span).map(lambda v: K.TimeSpan(v)),
        whole(double).map(lambda v: K.Double(v)), whole(int_).map(lambda v: K.Int(v)), whole(bool_).map(lambda v: K.Bool(v)),
        whole(string).map(Str)))


@rule('constant')
def constant():
    """A constant or field of an expression, classified by its whole text."""
    K = S.Constant
    return Within(QWORD(), alt(
        whole(ipv4_cidr).map(lambda v: K.IPv4CIDR(v)), whole(ipv4_addr).map(Str), whole(ipv6_addr).map(Str),
        whole(relative_time).map(lambda v: K.SnapTime(v)), whole(time_span).map(lambda v: K.TimeSpan(v)),
        whole(wildcard).map(lambda v: K.Wildcard(v)), whole(str_value).map(lambda v: K.Str(v)), whole(variable).map(lambda v: K.Variable(v)),
        whole(double).map(lambda v: K.Double(v)), whole(int_).map(lambda v: K.Int(v)), whole(field).map(lambda v: K.Field(v)),
        whole(bool_).map(lambda v: K.Bool(v))))


class _Command(Pg):
    """The rule `command` of spec/grammar.py"""
    @property
    def kids(self):
        return (RULES['command'],)

    def run(self, i):
        return RULES['command'].run(i)

    def gen(self, g):
        return g.of(RULES['command'])


COMMAND = _Command()


COMMA = ws(tag(','))
COMMA_OR_SPACE = alt(COMMA, ws1)


@rule('field_and_value')
def field_and_value():
    return sep_(token, ws(tag('=')), alt(double_quoted, token)).map(lambda k, v: S.FV(field=k, value=v))


@rule('field_and_constant')
def field_and_constant():
    return sep_(token, ws(tag('=')), constant).map(lambda k, v: S.FC(field=k, value=v))


@rule('command_options')
def command_options():
    return many0(ws(field_and_constant), 'spl::ast::FC').map(lambda v: S.CommandOptions(options=v))


@rule('field_list0')
def field_list0():
    return list0(COMMA_OR_SPACE, field, 'spl::ast::Field')


@rule('field_list1')
def field_list1():
    return list1(COMMA_OR_SPACE, field, 'spl::ast::Field')


# ------------------------------------------------------------------ expressions
def Lf(c):
    return S.Expr.Leaf(S.LeafExpr.Constant(c))


def binary(l, op, r):
    return S.Expr.Binary(S.Binary(left=l, symbol=op, right=r))


EXPR = 'spl::ast::Expr'


@rule('call')
def call():
    return seq_(token, paren(list0(COMMA, expr, EXPR))).map(lambda n, a: S.Call(name=n, args=a))


@rule('term_call')
def term_call():
    return pre(kw('TERM'), paren(leaf('take_while', lambda c: not eqc(c, ')')))).map(
        lambda t: S.Call(name='TERM', args=[Lf(S.Constant.Field(S.Field(t)))]))


def eqc(c, ch):
    """Is the character c the character ch?"""
    return c == ch if isinstance(c, str) else G.X.truth(G.X.canon(mk('ieq', (c, I(ord(ch))))))


@rule('field_in')
def field_in():
    return sep_(field, ws(kw('IN')), paren(list0(COMMA_OR_SPACE, constant, 'spl::ast::Constant'))).map(
        lambda f, cs: S.FieldIn(field=f._0, exprs=fmap(Lf, cs)))


@rule('sub_search')
def sub_search():
    return mid(ws(tag('[')), pre(opt(ws(tag('|'))), list0(ws(tag('|')), COMMAND, 'spl::ast::Command')), ws(tag(']'))).map(
        lambda cs: S.Pipeline(commands=cs))


@rule('expr_base')
def expr_base():
    return alt(paren(expr9), term_call.map(lambda c: S.Expr.Call(c)), call.map(lambda c: S.Expr.Call(c)), constant.map(Lf),
               sub_search.map(lambda p: S.Expr.SubSearch(p)))


def right_assoc(operand, op, again):
    """operand (op again)?"""
    return seq_(operand, opt(seq_(op, again))).map(lambda l, r: l if r is None else binary(l, r.v[0], r.v[1]))


@rule('expr3')
def expr3():
    """operand (op operand)*, grouped from the left"""
    more = many0(seq_(ws(alt(kw('*'), kw('/'))), expr_base), lambda: find_ty('(&str, spl::ast::Expr)'))
    return seq_(expr_base, more).map(lambda first, rest: foldl(lambda l, o: binary(l, *parts(G.X, o)), first, rest))


@rule('expr4')
def expr4():
    return right_assoc(expr3, ws(alt(kw('+'), kw('-'))), expr4)


@rule('expr5')
def expr5():
    return right_assoc(expr4, ws(mid(ws0, tag('.'), ws1)), expr5)


COMPARE = ws(alt(kw('=='), alt(tag('='), tag('::')), kw('!='), kw('<='), kw('<'), kw('>='), kw('>')))


@rule('expr6')
def expr6():
    return alt(field_in.map(lambda f: S.Expr.FieldIn(f)), right_assoc(expr5, COMPARE, expr6))


@rule('expr7')
def expr7():
    return alt(alt(sep_(wordop('NOT'), ws1, expr7), seq_(ws(wordop('NOT')), paren(expr9))).map(
        lambda op, e: S.Expr.Unary(S.Unary(symbol=op, right=e))), expr6)


AND = ws(alt(wordop('AND'), tag(' ')))
OR = ws(wordop('OR'))


@rule('conj', r'spl::parser::expr8_no_whitespace$')
def conj():
    return right_assoc(expr7, AND, conj)


@rule('conj_ws', r'spl::parser::expr8_with_whitespace$')
def conj_ws():
    return right_assoc(expr7, alt(AND, const(ws1, 'AND')), conj_ws)


@rule('expr', r'spl::parser::expr9_no_whitespace$')
def expr():
    return right_assoc(conj, OR, expr)


@rule('expr9', r'spl::parser::expr9_with_whitespace$')
def expr9():
    return right_assoc(conj_ws, OR, expr9)


@rule('aliased_field')
def aliased_field():
    return sep_(field, ws(wordop('AS')), alt(token, double_quoted)).map(lambda f, a: S.AliasedField(field=f, alias=a))


@rule('aliased_call')
def aliased_call():
    return sep_(call, ws(wordop('as')), token).map(lambda c, n: S.Alias(expr=S.Expr.Call(c), name=n))


def lower(s):
    return sfun('str.ascii_lower', s)


@rule('stats_call')
def stats_call():
    return list1(COMMA_OR_SPACE, alt(
        aliased_call.map(lambda a: S.Expr.Alias(a)),
        call.map(lambda c: S.Expr.Call(c)),
        aliased_field.map(lambda f: S.Expr.Alias(S.Alias(expr=S.Expr.Call(S.Call(name=f._field._0, args=[])), name=f._alias))),
        verify(token, lambda v: not eq(lower(v), 'by')).map(lambda v: S.Expr.Call(S.Call(name=v, args=[])))), EXPR)


# ------------------------------------------------------------------ searches
@contract('parse.combine', r'spl::parser::combine_all_expressions(::<.*>)?$', opaque=True,
          wrap=lambda app, es, sym: None if emptyp(es) else Some(app), apptype=lambda: tyid(EXPR))
def combine(es, sym):
    """The operator between all the operands, grouped from the left; None without operands."""
    def step(acc, e):
        a = some(acc)
        return coerce(Some(e if a is None else binary(a, sym, e)), opt_of(tyid(EXPR)))
    return foldl(step, coerce(None, opt_of(tyid(EXPR))), es)


def combined(es, sym):
    r = some(G.X.canon(coerce(combine(es, sym))))
    if r is None:
        raise Unsupported('empty list of operands')
    return r


@rule('comparison_operator', opaque=False)
def comparison_operator():
    O = NS('spl::operators')

    def op(p, n):
        return const(p, 0).map(lambda _: getattr(O.OperatorSymbol, n)(getattr(O, n)()))
    return alt(op(kw('<='), 'LessEquals'), op(kw('<'), 'LessThan'), op(kw('>='), 'GreaterEquals'), op(kw('>'), 'GreaterThan'),
               op(kw('=='), 'StrictlyEquals'), op(alt(tag('='), tag('::')), 'Equals'), op(kw('!='), 'NotEquals'))


SYMBOL = {'LessEquals': '<=', 'LessThan': '<', 'GreaterEquals': '>=', 'GreaterThan': '>', 'StrictlyEquals': '==', 'Equals': '=', 'NotEquals': '!='}


@rule('comparison_expression')
def comparison_expression():
    return alt(seq_(field, ws(comparison_operator), alt(call.map(lambda c: S.Expr.Call(c)), literal.map(Lf))).map(
        lambda l, o, r: binary(Lf(S.Constant.Field(l)), SYMBOL[kind(o)], r)),
        field_in.map(lambda f: S.Expr.FieldIn(f)))


@rule('search_modifier')
def search_modifier():
    def m(v, *ks):
        return pre(alt(*map(kw, ks)), string).map(lambda s: S.Expr.SearchModifier(getattr(S.SearchModifier, v)(s)))
    return alt(m('SourceType', 'sourcetype='), m('Host', 'host='), m('HostTag', 'hosttag='), m('EventType', 'eventtype='),
               m('EventTypeTag', 'eventtypetag='), m('SavedSplunk', 'savedsearch=', 'savedsplunk='), m('Source', 'source='),
               m('SplunkServer', 'splunk_server='))


@rule('time_format')
def time_format():
    return opt(pre(kw('timeformat='), double_quoted)).map(lambda f: '%m/%d/%Y:%H:%M:%S.' if f is None else f.v)


@rule('time_modifier')
def time_modifier():
    M = S.TimeModifier
    return alt(pre(kw('starttime='), double_quoted).map(lambda v: M.StartTime(v)), pre(kw('endtime='), double_quoted).map(lambda v: M.EndTime(v)),
               pre(kw('earliest='), relative_time).map(lambda v: M.Earliest(v)), pre(kw('latest='), relative_time).map(lambda v: M.Latest(v)))


@rule('time_opts', opaque=False)
def time_opts():
    return seq_(time_format, list1(ws1, time_modifier, 'spl::ast::TimeModifier')).map(
        lambda f, ms: fmap(lambda m: S.Expr.TimeModifier(S.FormattedTimeModifier(format=f, time_modifier=m)), ms))


@rule('logical_expression')
def logical_expression():
    return list1(ws(wordop('OR')), logical_expression_group, EXPR).map(lambda es: combined(es, 'OR'))


@rule('logical_expression_group')
def logical_expression_group():
    return list1(alt(ws(wordop('AND')), ws1), logical_expression_term, EXPR).map(lambda es: combined(es, 'AND'))


@rule('logical_expression_term')
def logical_expression_term():
    return alt(paren(logical_expression),
               pre(ws(wordop('NOT')), logical_expression_term).map(lambda e: S.Expr.Unary(S.Unary(symbol='NOT', right=e))),
               time_opts.map(lambda os: combined(os, 'OR')),
               call.map(lambda c: S.Expr.Call(c)),
               comparison_expression, search_modifier)


# ------------------------------------------------------------------ pipelines
@rule('pipeline', opaque=False)
def pipeline():
    return pre(opt(ws(tag('|'))), whole(ws(list0(ws(tag('|')), COMMAND, 'spl::ast::Command')))).map(lambda cs: S.Pipeline(commands=cs))


@rule('quoted_search')
def quoted_search():
    return pre(seq_(ws(kw('search')), ws(tag('='))), Within(double_quoted_alt.map(
        lambda s: replace(replace(s, '\\"', '"'), '\\\\', '\\')), whole(ws(pipeline)),
        lambda s: '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"')))


@rule('maybe_spanned_field', r'stats_utils::maybe_spanned_field$')
def maybe_spanned_field():
    M = lambda f, s: NS('commands::stats_utils').MaybeSpannedField(field=f, span=s)
    return alt(sep_(field, ws1, pre(ws(kw('span=')), time_span)).map(lambda f, s: M(f, Some(s))), field.map(lambda f: M(f, None)))


@rule('maybe_spanned_field_list1', r'stats_utils::maybe_spanned_field_list1$')
def maybe_spanned_field_list1():
    return list1(COMMA_OR_SPACE, maybe_spanned_field, 'commands::stats_utils::MaybeSpannedField')
