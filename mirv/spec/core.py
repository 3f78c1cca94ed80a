"""Contracts of the expression translation and of the alias handling (src/pyspark/alias.rs,
src/pyspark/ast.rs constructors, src/pyspark/transpiler/expr.rs)."""
import re
from ..dsl import *



# ------------------------------------------------------------------ aliases
def _unalias_col_term(E, a, ty):
    """Definition unfolding of unalC on known shapes (no decision needed)."""
    c = a[0]
    if c.op != 'adt':
        return None
    vn = E.ty.variants(c.ty)[c.args[0]]['name']
    if vn != 'Aliased':
        return E.canon(mk('tup', (c, mk('adt', (0,), OPTS()))))
    col, name = _f(E, c, 'col'), _f(E, c, 'name')
    col = E.canon(col)
    if col.op != 'adt':
        return None
    if E.ty.variants(col.ty)[col.args[0]]['name'] == 'Column':
        inner = E.canon_children(mk('app', ('unalC', col.args[1]), ty))
        return mk('tup', (E.proj(inner, 0, 0, c.ty), mk('adt', (1, name), OPTS())))
    return mk('tup', (c, mk('adt', (1, name), OPTS())))


def _unalias_expr_term(E, a, ty):
    e = a[0]
    if e.op != 'adt':
        return None
    if E.ty.variants(e.ty)[e.args[0]]['name'] == 'Column':
        tt = UNALC.tupty()
        inner = E.canon_children(mk('app', ('unalC', e.args[1]), tt))
        c = E.proj(inner, 0, 0, E.ty.get(tt)['ts'][0])
        n = E.proj(inner, 0, 1, E.ty.get(tt)['ts'][1])
        return mk('tup', (mk('adt', (e.args[0], c), e.ty), n))
    return mk('tup', (e, mk('adt', (0,), OPTS())))


def _f(E, t, name):
    for i, f in enumerate(E.ty.variants(t.ty)[t.args[0]]['fields']):
        if f[0] == name:
            return t.args[1 + i]
    raise Unsupported('anchor lost: field ' + name)


def OPTS():
    return opt_of(STRT())


APPS['unalC'] = _unalias_col_term
APPS['unalE'] = _unalias_expr_term


@contract('unalC', impl('Aliasable', 'unaliased_with_name', 'pyspark::ast::ColumnLike'), opaque=True)
def unalC(c):
    """A column without its outermost aliases, and the name of the outermost alias if there is one."""
    if not is_(c, 'Aliased'):
        return (c, opt(None))
    if is_(c._col, 'Column'):
        return (unalC(c._col._0)._0, opt(Some(c._name)))
    return (c, opt(Some(c._name)))


def opt(v):
    return coerce(v, OPTS())


unalC.tupty = lambda: unalC.ret()
UNALC = unalC


@contract('unalE', impl('Aliasable', 'unaliased_with_name', 'pyspark::ast::Expr'), opaque=True)
def unalE(e):
    if is_(e, 'Column'):
        r = unalC(e._0)
        return (P.Expr.Column(r._0), r._1)
    return (e, opt(None))


@contract('unalS', impl('Aliasable', 'unaliased_with_name', 'spl::ast::Expr'), opaque=True)
def unalS(e):
    """An SPL expression without its aliases, and the outermost alias."""
    if is_(e, 'Alias'):
        a = e._0
        return (unalS(a._expr)._0, opt(Some(a._name)))
    if is_(e, 'AliasedField'):
        a = e._0
        return (field_expr(a._field), opt(Some(a._alias)))
    return (e, opt(None))


def field_expr(f):
    return S.Expr.Leaf(S.LeafExpr.Constant(S.Constant.Field(f)))


# ------------------------------------------------------------------ building columns
def E_(c):
    """A column or Python literal as an expression."""
    c = G.X.canon(c)
    t = G.X.ty.get(c.ty)['name'] if c.ty is not None else None
    if t.endswith('pyspark::ast::Expr'):
        return c
    if t.endswith('ColumnLike'):
        return P.Expr.Column(c)
    if t.endswith('PyLiteral'):
        return P.Expr.PyLiteral(c)
    raise TypeError(t)


def unE(e):
    return unalE(E_(e))._0


def col(name):
    return P.ColumnLike.Named(name=name)


def litc(code):
    return P.ColumnLike.Literal(code=code)


def pystr(s):
    """A Python string literal."""
    return P.PyLiteral(cat('"', s, '"'))


def pyraw(s):
    return P.PyLiteral(s)


def pyint(n):
    return P.PyLiteral(itos(n))


def pybool(b):
    return P.PyLiteral('True' if true(b) else 'False')


def method(c, func, *args):
    return P.ColumnLike.MethodCall(col=unE(c), func=func, args=[E_(a) for a in args])


def methodv(c, func, args):
    return P.ColumnLike.MethodCall(col=unE(c), func=func, args=args)


def func(name, *args):
    return P.ColumnLike.FunctionCall(func=name, args=[E_(a) for a in args])


def funcv(name, args):
    return P.ColumnLike.FunctionCall(func=name, args=args)


def binop(l, op, r):
    return P.ColumnLike.BinaryOp(left=unE(l), op=op, right=unE(r))


def not_(r):
    return P.ColumnLike.UnaryNot(right=unE(r))


def aliased(c, name):
    return P.ColumnLike.Aliased(col=unE(c), name=name)


def expr_(s):
    return func('expr', pystr(s))


def with_alias(c, name):
    """A column under a (new) name."""
    return aliased(unalC(c)._0, name)


# ------------------------------------------------------------------ SPL expression -> column expression
def op_of(sym):
    """The Python operator for an SPL operator symbol."""
    if eq(sym, '='):
        return lit('==')
    if eq(sym, 'AND'):
        return lit('&')
    if eq(sym, 'OR'):
        return lit('|')
    if eq(sym, 'NOT'):
        return lit('~')
    return sym


def const_of(e, name):
    """payload of a leaf constant of the given kind, or None"""
    if is_(e, 'Leaf') and is_(e._0, 'Constant') and is_(e._0._0, name):
        return e._0._0._0
    return None


def glob(p):
    return pystr(replace(p, '*', '%'))


@contract('tse', impl('ToSparkExpr', 'to_spark_expr', 'spl::ast::Expr'), result=True, opaque=True,
          view=lambda e, ctx: (e, ctx._runtime))
def tse(e, ctx):
    if is_(e, 'Binary'):
        b = e._0
        op = op_of(b._symbol)
        rw = const_of(b._right, 'Wildcard')
        if rw is not None:
            m = method(tse(b._left, ctx), 'like', glob(rw._0))
            if eq(op, '=='):
                return E_(m)
            if eq(op, '!='):
                return E_(not_(m))
            fail('wildcard under another operator')
        if eq(op, '=='):
            l = const_of(b._left, 'Field')
            r = const_of(b._right, 'IPv4CIDR') if l is not None else None
            if l is not None and r is not None:
                return E_(expr_(cat("cidr_match('", r._0, "', ", l._0, ')')))
        if eq(op, '!='):
            l = const_of(b._left, 'Field')
            r = const_of(b._right, 'IPv4CIDR') if l is not None else None
            if l is not None and r is not None:
                return E_(not_(expr_(cat("cidr_match('", r._0, "', ", l._0, ')'))))
        return E_(binop(tse(b._left, ctx), op, tse(b._right, ctx)))
    if is_(e, 'Unary'):
        if eq(e._0._symbol, 'NOT'):
            return E_(not_(tse(e._0._right, ctx)))
        fail('other unary operator')
    if is_(e, 'Leaf'):
        if not is_(e._0, 'Constant'):
            fail()
        c = e._0._0
        if is_(c, 'Field'):
            return E_(col(c._0._0))
        if is_(c, 'Int'):
            return E_(litc(itos(c._0._0)))
        if is_(c, 'Double'):
            return E_(litc(ftos(c._0._0)))
        if is_(c, 'Str'):
            q = '"' if contains(c._0._0, "'") else "'"
            return E_(litc(cat(q, c._0._0, q)))
        if is_(c, 'Bool'):
            return E_(litc('True' if true(c._0._0) else 'False'))
        if is_(c, 'IPv4CIDR'):
            return E_(litc(cat("'", c._0._0, "'")))
        fail('constant without a column form')
    if is_(e, 'FieldIn'):
        f = e._0
        c = col(f._field)
        checks = fmap(lambda x: in_check(f._field, c, x), f._exprs)
        return E_(any_of('|', checks, litc('True')))
    if is_(e, 'Call'):
        return E_(eval_fn(e._0, ctx))
    fail('no column form')


def in_check(f, c, e):
    """One alternative of `field IN (...)`."""
    if not (is_(e, 'Leaf') and is_(e._0, 'Constant')):
        fail()
    k = e._0._0
    if is_(k, 'Wildcard'):
        return method(c, 'like', glob(k._0._0))
    if is_(k, 'Bool'):
        return binop(c, '==', pybool(k._0._0))
    if is_(k, 'Int'):
        return binop(c, '==', pyint(k._0._0))
    if is_(k, 'Double'):
        return binop(c, '==', pyraw(ftos(k._0._0)))
    if is_(k, 'Str') or is_(k, 'Field'):
        return binop(c, '==', pystr(k._0._0))
    if is_(k, 'IPv4CIDR'):
        return expr_(cat("cidr_match('", k._0._0, "', ", f, ')'))
    fail('constant not comparable')


@contract('joinbin', r'(^|::)join_as_binaries(::<.*>)?$', opaque=True, unfold=lambda op, cols: concrete_seq(cols))
def joinbin(op, cols):
    """c1 op c2 op ... (left associated); None when there is nothing to join."""
    h = uncons(cols)
    if h is None:
        return None
    return Some(foldl(lambda acc, c: P.ColumnLike.BinaryOp(left=P.Expr.Column(acc), op=op, right=P.Expr.Column(c)), h[0], h[1]))


def any_of(op, cols, empty_):
    r = some(joinbin(lit(op), cols))
    return empty_ if r is None else r


def eval_fn(call, ctx):
    from . import functions
    return functions.eval_fn(call, ctx)


# ------------------------------------------------------------------ search-context terms
@contract('iseC', inh('pyspark::ast::ColumnLike', '_into_search_expr'), opaque=True)
def iseC(c):
    """A bare term of a search matches the raw event; comparisons stay; AND/OR/NOT distribute."""
    if is_(c, 'Named'):
        return method(col('_raw'), 'ilike', pystr(cat('%', c._name, '%')))
    if is_(c, 'Literal'):
        return method(col('_raw'), 'ilike', pystr(cat('%', unquote(c._code), '%')))
    if is_(c, 'UnaryNot'):
        return P.ColumnLike.UnaryNot(right=iseE(c._right))
    if is_(c, 'BinaryOp'):
        if one_of(c._op, '&', '|'):
            return binop(iseE(c._left), c._op, iseE(c._right))
    return c


def iseE(e):
    if is_(e, 'Column'):
        return P.Expr.Column(search_col(e._0))
    return e


def search_expr(e):
    """A search condition: its terms as conditions on the event, its outermost name kept."""
    u = unalE(e)
    x, n = iseE(u._0), some(u._1)
    return x if n is None else P.Expr.Column(aliased(x, n))


def maybe_alias(c, n):
    n = some(n)
    return c if n is None else with_alias(c, n)


def search_col(c):
    u = unalC(c)
    return maybe_alias(iseC(u._0), u._1)


@contract('unquote', r'.*_strip_quotes$', opaque=True, apptype=STRT)
def unquote(s):
    """The text of a quoted Python literal (the text itself when it is not quoted)."""
    if matches(s, '^".+"$') or matches(s, "^'.+'$"):
        return inner(s)
    return s


def _unquote(s):
    s = s.args[0]
    return s[1:-1] if re.search('^".+"\\Z', s) or re.search("^'.+'\\Z", s) else s


unquote.ground = _unquote


# ------------------------------------------------------------------ copies
def clone(x):
    """A copy is the value itself (everywhere else a call of clone is taken to be that)."""
    return x


contract('clone.ast', r'^<spl_transpiler::(spl|commands::stats_utils|pyspark::base::ContextualizedExpr)\b.* as std::clone::Clone>::clone$')(clone)
contract('clone.pyspark', r'^<spl_transpiler::(pyspark::(ast|transpiler)|pyspark::base::(?!ContextualizedExpr))\b.* as std::clone::Clone>::clone$')(clone)
for _c in ('AddTotals', 'Bin', 'Collect', 'Convert', 'DataModel', 'Dedup', 'Eval', 'EventStats', 'Fields', 'FillNull', 'Format', 'Head', 'InputLookup', 'Join', 'Lookup',
           'MakeResults', 'Map', 'MultiSearch', 'MvCombine', 'MvExpand', 'Rare', 'Regex', 'Rename', 'Return', 'Rex', 'Search', 'Sort', 'SPath', 'Stats', 'StreamStats', 'Table',
           'Tail', 'Top', 'TStats', 'Where'):
    contract(_c + 'Command.clone', r'^<spl_transpiler::commands::cmd_%s::.* as std::clone::Clone>::clone$' % re.sub('(?<!^)(?=[A-Z])', '_', _c).lower())(clone)
