"""Concrete side: syntax trees as ground terms, the compiled crate run on them, and the contracts evaluated on them.

Used (1) to replay a failed obligation against the real code and (2) as the bounded stand-in for functions that are out of
the verifier's reach.  It never counts as proof.
"""
import os, re, random, sys, importlib, decimal, time
from .terms import *
from . import terms as TT
from . import dsl
from .dsl import G, SpecErr, coerce

PAIRS = {}


# ------------------------------------------------------------------ the real code
class Real:
    """The compiled extension module found in directory `d`."""

    def __init__(self, d):
        sys.path.insert(0, d)
        self.m = importlib.import_module('spl_transpiler')
        sys.path.pop(0)
        self.ast = self.m.ast
        self.cls = {}
        self.spans = {}

    SAMPLES = {
        'DataModelCommand': '| datamodel a b search', 'RareCommand': 'rare a', 'TopCommand': 'top a', 'TailCommand': 'tail 2',
        'TStatsCommand': '| tstats count', 'SPathCommand': 'spath path=a', 'MvCombineCommand': 'mvcombine a',
    }

    def cls_of(self, name):
        c = self.cls.get(name)
        if c is None:
            c = getattr(self.ast, name, None)
            if c is None:
                if name not in self.SAMPLES:
                    raise KeyError('no class ' + name)
                c = type(self.m.parse(self.SAMPLES[name]).commands[-1][0])
            self.cls[name] = c
        return c

    def obj(self, t):
        """Python object of a ground term."""
        E = G.X
        if t.op == 'lit':
            return t.args[0]
        if t.op in ('int', 'bool', 'float'):
            return t.args[0]
        if t.op == 'seq':
            return [self.obj(s.args[0]) for s in t.args]
        if t.op == 'tup':
            return tuple(self.obj(x) for x in t.args)
        if t.op != 'adt':
            raise ValueError('not ground: %s' % t)
        n = E.ty.get(E.ty.peel(t.ty))['name']
        if n == 'std::option::Option':
            return None if t.args[0] == 0 else self.obj(t.args[1])
        short = n.split('::')[-1]
        vs = E.ty.variants(t.ty)
        v = vs[t.args[0]]
        args = [self.obj(a) for a in t.args[1:]]
        if len(vs) > 1:
            return getattr(self.cls_of(short), v['name'])(*args)
        if short == 'MaybeSpannedField':
            return self.spanned(t)
        f = v['fields']
        if len(f) == 1 and f[0][0] == '0':
            return self.cls_of(short)(args[0])
        return self.cls_of(short)(**{x[0]: a for x, a in zip(f, args)})

    def spanned(self, t):
        """A grouping field with an optional time span: it has no constructor, the parser makes it."""
        name = self.text(t.args[1])
        sp = t.args[2]
        if not re.fullmatch(r'[A-Za-z_][\w.]*', name) or sp.args[0] == 1 and sp.args[1].args[2].args[0] not in ('minutes', 'days', 'seconds', 'hours'):
            raise ValueError('the parser does not make it')
        q = 'stats count by %s' % name
        if sp.args[0] == 1:
            ts = sp.args[1]
            q += ' span=%d%s' % (ts.args[1].args[0], ts.args[2].args[0])
        o = self.spans.get(q)
        if o is None:
            o = self.spans[q] = self.m.parse(q).commands[-1][0].by[0]
        return o

    @staticmethod
    def text(t):
        while t.op == 'adt':
            t = t.args[1]
        return t.args[0]

    def run(self, o, allow):
        try:
            return ('ok', self.m.render_pyspark(o, allow_runtime=allow, format_code=False))
        except Exception as e:
            return ('err', str(e)[:300])
        except BaseException as e:
            if type(e).__name__ == 'PanicException':
                return ('panic', str(e)[:300])
            raise


# ------------------------------------------------------------------ the contracts on ground terms
def rust_float(x):
    if x != x:
        return 'NaN'
    if x in (float('inf'), float('-inf')):
        return 'inf' if x > 0 else '-inf'
    s = format(decimal.Decimal(repr(x)), 'f')
    if '.' in s:
        s = s.rstrip('0').rstrip('.')
    return s


class Concrete:
    """Evaluates contracts on ground terms (no decisions are left)."""

    def __init__(self, X):
        self.X = X

    def run(self, f):
        X = self.X
        out = []

        def on(k, v, p):
            out.append((k, v))
        old, X.concrete = X.concrete, True
        oldp, X.path = X.path, None
        dl, X.deadline = X.deadline, None
        try:
            X.explore(f, on)
        finally:
            X.concrete, X.path, X.deadline = old, oldp, dl
        if len(out) != 1:
            raise Unsupported('the specification is not defined on this input')
        k, v = out[0]
        if k == 'specerr':
            return ('err', None)
        if k != 'ret':
            raise Unsupported('specification: %s %s' % (k, v))
        return ('ok', v)

    def render(self, pipe, allow):
        from .spec import commands as C, render as R
        X = self.X

        def f():
            ctx = context(allow)
            p = C.transform_pipeline(pipe, ctx)
            return X.canon(R.text(R.r_pipeline(p, ctx)))
        r = self.run(f)
        if r[0] == 'ok':
            if r[1].op != 'lit':
                raise Unsupported('not evaluated: %s' % r[1])
            return ('ok', r[1].args[0])
        return r


def context(allow):
    PB = dsl.PB
    ns = PB.RuntimeSelection
    mode = ns.Allow() if allow else ns.Disallow()
    cty = PB.PysparkTranspileContext
    f = G.X.ty.variants(cty.ty())[0]['fields']
    cnt = [x for x in f if x[0] == 'df_num'][0]
    return cty(runtime=mode, df_num=mk('var', ('counter',), G.X.ty.peel(cnt[1])))


# ------------------------------------------------------------------ ground syntax trees
NAMES = ['x', 'y', 'z', 'count', 'src_ip', 'a.b', 'host', '_time', '_raw', 'n', 'main', 'c', 'd', 'field name']
STRS = ['abc', '', 'x', 'a b', '10', "it's", 'a%b', 'web*', '%Y-%m-%d', 'with,comma', 'LEFT', 'lookup', 'true']
INTS = [0, 1, 2, 3, 5, 10, 100, 1000, -1, -2, 2**31, 2**63 - 1, -2**63]
FLOATS = [0.5, 1.0, 2.25, -3.5, 100.0, 1e20, 1e-7]
OPS = ['=', '!=', '<', '>', '<=', '>=', 'AND', 'OR', '+', '-', '*', '/', '%']
REGEX = [r'(?<a>\d+)', r'(\w+)-(?P<b>\w+)', r'from (?<from>.*) to (?<to>.*)', r'abc', r'((?<x>a)|(b))+', r'(', r'(?:q)(r)']
SPANS = [(5, 'minutes'), (1, 'days'), (-2, 'hours'), (1, 'hours'), (30, 'seconds')]
FORMATS = ['%Y-%m-%d', '%H:%M:%S', '%d/%b/%y %I:%M %p', '%A %B %e', '%s', 'plain', '%F %T', '%3Q', '%:z', '%%Y']


class Gen:
    """Random ground terms by type; `lits`/`ints` are extra literals to try (those of a failing path)."""

    def __init__(self, X, seed=0, lits=(), ints=(), kinds=()):
        self.X, self.r = X, random.Random(seed)
        self.lits, self.ints = list(lits), list(ints)
        self.wild = 0.06
        self.fnames = ()
        self.size = 3

    def format(self):
        d = ['%Y', '%m', '%%', '%d', '%H', '%M', '%S', '%p', '%I', '%b', '%B', '%A', '%a', '%e', '%j', '%y', '%F', '%T', '%f', '%N', '%Q', '%3Q', '%6Q', '%9Q', '%z', '%:z', '%::z', '%:::z', '%Z', '%k', '%w', '%s', '%x', '%c', '%+']
        k = self.r.sample(d[:30] if self.p(0.8) else d, 2)
        return ''.join(self.pick(k) + self.pick(['', '-', ' ', '/']) for _ in range(self.r.choice([1, 2, 3, 4])))

    def regex(self, d=3):
        """A regular expression of the kind that the specification evaluates."""
        k = self.r.random()
        if d <= 0 or k < 0.3:
            return self.pick(['a', r'\d+', r'\w*', '.', 'x y', ':', r'\.', 'b?'])
        if k < 0.6:
            return self.regex(d - 1) + self.regex(d - 1)
        if k < 0.7:
            return '(?:' + self.regex(d - 1) + '|' + self.regex(d - 1) + ')'
        n = self.pick(['', '', '?:', '?<g%d>' % self.r.randrange(1000), '?P<n%d>' % self.r.randrange(1000)])
        return '(' + n + self.regex(d - 1) + ')' + self.pick(['', '', '+', '*', '?'])

    def many(self, xs):
        """Sometimes with a repetition."""
        xs = list(xs)
        if xs and self.p(0.12):
            xs.insert(self.r.randrange(len(xs) + 1), self.pick(xs))
        return mk('seq', tuple(one(x) for x in xs))

    def p(self, x):
        return self.r.random() < x

    def pick(self, xs):
        return self.r.choice(xs)

    # ---- leaves
    def name(self):
        if self.lits and self.p(0.25):
            return lit(self.pick(self.lits))
        return lit(self.pick(NAMES))

    def string(self):
        if self.lits and self.p(0.3):
            l = self.pick(self.lits)
            if self.p(0.2):      # one that merely starts, or ends, like a literal
                l = l + self.pick(['0', '1', '100', '00', '99', 'x', ' ', l]) if self.p(0.7) else self.pick(['x', ' ', '1']) + l
            return lit(l)
        return lit(self.pick(STRS + NAMES))

    def int_(self, lo=None, hi=None):
        if self.ints and self.p(0.35):
            n = self.pick(self.ints) + self.pick([-1, 0, 0, 1])
        else:
            n = self.pick(INTS[:8] if self.p(0.85) else INTS)
        if lo is not None and n < lo:
            n = self.pick([0, 1, 2, 10])
        if hi is not None and n > hi:
            n = self.pick([0, 1, 2, 10])
        return I(n)

    # ---- by type
    def gen(self, ty, d=3, hint=None):
        E = self.X.ty
        ty = E.peel(ty)
        t = E.get(ty)
        k = E.kind(ty)
        if k == 'str':
            return self.string()
        if k == 'bool':
            return B(self.p(0.5))
        if k == 'int':
            s = t.get('s', t.get('name', ''))
            if s.startswith('u'):
                return self.int_(0, 2**64 - 1)
            return self.int_(-2**63, 2**63 - 1)
        if k == 'float':
            return mk('float', (self.pick(FLOATS),), ty)
        if k == 'seq':
            e = E.elem(ty)
            n = self.pick([0, 1, 1, 2, 2, 3])
            return self.many(self.gen(e, d - 1) for _ in range(n))
        if k == 'tuple':
            return mk('tup', tuple(self.gen(x, d - 1) for x in t['ts']))
        n = t['name']
        if n == 'std::option::Option':
            if self.p(0.4):
                return mk('adt', (0,), ty)
            return mk('adt', (1, self.gen(t['args'][0], d)), ty)
        short = n.split('::')[-1]
        f = getattr(self, 'g_' + short, None)
        if f is not None and (short == 'MaybeSpannedField' or not self.p(self.wild)):
            r = f(ty, d)
            if r is not None:
                return r
        vs = E.variants(ty)
        if not vs:
            raise Unsupported('cannot make a ' + n)
        v = self.pick([i for i, x in enumerate(vs) if x['name'] not in NOCLASS])
        return self.adt(ty, v, d)

    def adt(self, ty, v, d=3, **given):
        E = self.X.ty
        fs = E.variants(ty)[v]['fields']
        short = E.get(ty)['name'].split('::')[-1]
        out = []
        for f in fs:
            if f[0] in given:
                out.append(given[f[0]])
                continue
            h = FIELDS.get((short, f[0]))
            if h is not None and not self.p(self.wild):
                out.append(h(self, f[1], d - 1))
            else:
                out.append(self.gen(f[1], d - 1))
        return mk('adt', (v,) + tuple(out), ty)

    def var(self, ty, name):
        for i, v in enumerate(self.X.ty.variants(ty)):
            if v['name'] == name:
                return i
        raise Unsupported('anchor lost: variant ' + name)

    def ety(self, n='spl::ast::Expr'):
        return dsl.tyid(n)

    # ---- expressions
    def const(self, kind_, payload=None):
        S = dsl.S
        C = getattr(S.Constant, kind_)
        f = self.X.ty.fieldty(S.Constant.ty(), self.var(S.Constant.ty(), kind_), 0)
        v = payload if payload is not None else self.gen(f)
        return S.Expr.Leaf(S.LeafExpr.Constant(C(v)))

    def field(self, name=None):
        return self.const('Field', dsl.S.Field(name if name is not None else self.name()))

    def g_Field(self, ty, d):
        return mk('adt', (0, self.name()), ty)

    def g_Wildcard(self, ty, d):
        return mk('adt', (0, lit(self.pick(['web*', '*', 'a*b', '10.*', 'x', 'a*b*c', '*a*', '%*_']))), ty)

    def g_IPv4CIDR(self, ty, d):
        return mk('adt', (0, lit(self.pick(['10.0.0.0/8', '192.168.1.0/24']))), ty)

    def g_TimeSpan(self, ty, d):
        v, s = self.pick(SPANS)
        return mk('adt', (0, I(v), lit(s)), ty)

    def g_MaybeSpannedField(self, ty, d):
        E = self.X.ty
        fs = E.variants(ty)[0]['fields']
        n = mk('adt', (0, lit(self.pick(['x', 'y', 'host', '_time', 'src_ip']))), E.peel(fs[0][1]))
        v, s = self.pick([(5, 'minutes'), (1, 'days'), (30, 'seconds')])
        sp = E.peel(fs[1][1])
        st = E.peel(E.get(sp)['args'][0])
        return mk('adt', (0, n, mk('adt', (0,), sp) if self.p(0.6) else mk('adt', (1, mk('adt', (0, I(v), lit(s)), st)), sp)), ty)

    def g_SnapTime(self, ty, d):
        return self.adt(ty, 0, d, snap=lit(self.pick(['years', 'months', 'weeks', 'days', 'hours', 'minutes', 'seconds', 'x'])))

    def g_LeafExpr(self, ty, d):
        return self.adt(ty, self.var(ty, 'Constant'), d)

    def g_Constant(self, ty, d):
        k = self.pick(['Field'] * 6 + ['Int'] * 3 + ['Str'] * 4 + ['Bool', 'Double', 'Wildcard', 'IPv4CIDR', 'Variable', 'TimeSpan', 'SnapTime'])
        return self.adt(ty, self.var(ty, k), d)

    def g_Expr(self, ty, d):
        if d <= 0 or self.p(0.3):
            return self.adt(ty, self.var(ty, 'Leaf'), d)
        k = self.pick(['Binary'] * 5 + ['Unary'] + ['Call'] * 4 + ['FieldIn'] + ['Alias', 'AliasedField'] * (self.p(0.2)))
        return self.adt(ty, self.var(ty, k), d - 1)

    def expr(self, d=2):
        return self.g_Expr(self.ety(), d)

    def g_Call(self, ty, d):
        from .spec import functions as Fn
        c = getattr(self, 'calls', None)
        if self.lits and self.p(0.3):
            name = self.pick(self.lits)
        elif self.fnames and self.p(0.7):
            name = self.pick(self.fnames)
        else:
            name = self.pick(list(Fn.EVAL)) if self.p(0.93) else self.pick(Fn.EVAL_UNSUPPORTED + ['custom'])
        sig = Fn.EVAL.get(name, (name, '**'[:self.r.randrange(2)] + '*'))[1]
        return self.call(ty, name, sig, d)

    def call(self, ty, name, sig, d):
        args = []
        for s in sig:
            if s == 'e':
                args.append(self.expr(d - 1))
            elif s == 'i':
                args.append(self.const('Int'))
            elif s == 's':
                if name in ('strftime', 'strptime') and self.p(0.9):
                    args.append(self.const('Str', dsl.S.StrValue(self.pick(FORMATS) if self.p(0.4) else self.format())))
                else:
                    args.append(self.const(self.pick(['Str', 'Str', 'Field'])))
            elif s == '.' and name == 'relative_time':
                if self.p(0.9):
                    args.append(self.const('SnapTime'))
            elif s == '.' and name == 'mvindex':
                if self.p(0.7):
                    args.append(self.const('Int'))
            elif s == '.' and name == 'mvzip':
                if self.p(0.7):
                    args.append(self.const('Str'))
            elif s == '*':
                n = self.pick([2, 4, 6]) if name in ('case', 'validate') else self.pick([0, 1, 1, 2, 3])
                if name in ('tonumber', 'tostring') and self.p(0.8):
                    n = 0
                args.extend(self.expr(d - 1) for _ in range(n))
        if self.p(0.08):
            if args and self.p(0.5):
                args.pop()
            else:
                args.append(self.expr(0))
        return dsl.S.Call(name=name, args=args)

    def stat(self, d=2):
        """An aggregation of stats and the like."""
        from .spec import functions as Fn
        S = dsl.S
        if self.lits and self.p(0.25):
            name = self.pick(self.lits)
        else:
            name = self.pick(['p', 'perc', 'exactperc', 'percentile', 'upperperc']) + str(self.pick([0, 1, 5, 50, 99, 100, self.r.randrange(130), self.r.randrange(3000)])) if self.p(0.2) else \
                self.pick(Fn.STATS_ALL + ['p95', 'perc90', 'exactperc99', 'percentile50', 'upperperc75', 'first', 'count', 'sum', 'custom'])
        sig = Fn.STATS.get(name, ('e',))[0]
        if sig == '*':
            sig = self.pick(['', 'e'])
        e = S.Expr.Call(self.call(None, name, sig, d))
        if self.p(0.4):
            e = S.Expr.Alias(S.Alias(expr=e, name=self.name()))
            if self.p(0.15):
                e = S.Expr.Alias(S.Alias(expr=e, name=self.name()))
        if self.p(0.03):
            e = self.expr(1)
        return e

    # ---- commands
    def g_Command(self, ty, d):
        vs = self.X.ty.variants(ty)
        ks = [i for i, v in enumerate(vs) if v['name'] not in UNSUPPORTED or self.p(0.05)]
        return self.adt(ty, self.pick(ks), 4)

    def g_Pipeline(self, ty, d):
        if d <= 0:
            n = 1
        else:
            n = self.pick([1, 1, 2, 2, 3])
        cty = dsl.tyid('spl::ast::Command')
        return mk('adt', (0, mk('seq', tuple(one(self.g_Command(cty, d - 1)) for _ in range(n)))), ty)


NOCLASS = ('Null', 'TimeModifier', 'SearchModifier')       # variants that Python code cannot make
UNSUPPORTED = ('CollectCommand', 'DedupCommand', 'EventStatsCommand', 'FormatCommand', 'InputLookupCommand', 'MapCommand', 'MvCombineCommand',
               'MvExpandCommand', 'ReturnCommand', 'StreamStatsCommand')


def _mostly(v, p=0.85):
    return lambda g, ty, d: (coerce(v, g.X.ty.peel(ty)) if g.p(p) else g.gen(ty, d))


def _from(*vs):
    return lambda g, ty, d: coerce(g.pick(vs))


def _optfrom(*vs):
    def f(g, ty, d):
        v = g.pick(vs)
        return coerce(None if v is None else dsl.Some(v), g.X.ty.peel(ty))
    return f


def _many(f, lo=1, hi=3):
    return lambda g, ty, d: g.many(f(g, d) for _ in range(g.r.randint(lo, hi)))


def _head(g, ty, d):
    S = dsl.S
    c = g.field('count')
    n = g.const('Int', S.IntValue(g.int_(-2**63, 2**63 - 1)))
    k = g.r.randrange(8)
    if k < 2:
        return n
    if k == 7:
        return g.expr(1)
    a, b = (c, n) if g.p(0.6) else (n, c)
    return S.Expr.Binary(S.Binary(left=a, symbol=g.pick(['<', '<=', '>', '>=', '<', '<=', '=', '!=']), right=b))


def _search(g, ty, d, depth=3):
    S = dsl.S
    k = g.r.random()
    if depth and k < 0.5:
        return S.Expr.Binary(S.Binary(left=_search(g, ty, d, depth - 1), symbol=g.pick(['AND', 'AND', 'AND', 'OR']), right=_search(g, ty, d, depth - 1)))
    if depth and k < 0.56:
        return S.Expr.Unary(S.Unary(symbol='NOT', right=_search(g, ty, d, depth - 1)))
    if k < 0.8:
        f = g.field(g.pick(['index', 'index', 'sourcetype', 'source', 'host', 'x', 'y', 'eventtype', 'hosttag', 'splunk_server']))
        v = g.const(g.pick(['Str', 'Str', 'Field', 'Int', 'Wildcard', 'IPv4CIDR']))
        if g.p(0.1):
            f, v = v, f
        return S.Expr.Binary(S.Binary(left=f, symbol=g.pick(['=', '=', '=', '=', '!=', '<', '>=']), right=v))
    if k < 0.85:
        return g.expr(2)
    return g.const(g.pick(['Str', 'Field', 'Int']))


def _boolexpr(g, ty, d):
    return _search(g, ty, d, 2) if g.p(0.4) else g.expr(3)


def _opt(f, p=0.5):
    def h(g, ty, d):
        ty = g.X.ty.peel(ty)
        if g.p(1 - p):
            return mk('adt', (0,), ty)
        return mk('adt', (1, f(g, g.X.ty.get(ty)['args'][0], d)), ty)
    return h


def _renames(g, d):
    S = dsl.S
    return S.Alias(expr=g.field() if g.p(0.95) else g.expr(1), name=g.name())


def _sortkey(g, d):
    o = dsl.opt_of(dsl.STRT())
    s = coerce(None, o) if g.p(0.4) else coerce(dsl.Some(g.pick(['+', '-', '-', '+', '-', '+', 'x'])), o)
    return mk('tup', (s, g.field() if g.p(0.95) else g.expr(1)))


def _fields(lo, hi):
    return lambda g, ty, d: g.many(dsl.S.Field(g.name()) for _ in range(g.r.randint(lo, hi)))


def _sub(g, ty, d):
    return g.g_Pipeline(g.X.ty.peel(ty), 1)


def _subs(g, ty, d):
    return g.many(_simple_pipe(g) for _ in range(g.r.randint(0, 3)))


def _simple_pipe(g):
    return g.g_Pipeline(dsl.tyid('spl::ast::Pipeline'), 1)


def _evals(g, d):
    return mk('tup', (dsl.S.Field(g.name()), g.expr(3)))


def _flike(g, d):
    S = dsl.S
    if g.p(0.5):
        return S.FieldLike.Field(S.Field(g.name()))
    if g.p(0.8):
        return S.FieldLike.AliasedField(S.AliasedField(field=S.Field(g.name()), alias=g.name()))
    return g.gen(dsl.tyid('spl::ast::FieldLike'))


def _regex(g, ty, d):
    return coerce(g.pick(REGEX) if g.p(0.3) else g.regex())


FIELDS = {
    ('Binary', 'symbol'): _from(*(OPS * 3 + ['=', '='] + ['like', '::', '==', '.'])),
    ('Unary', 'symbol'): _from('NOT', 'NOT', 'NOT', '+', '-'),
    ('Alias', 'name'): lambda g, ty, d: g.name(),
    ('AliasedField', 'alias'): lambda g, ty, d: g.name(),
    ('FieldIn', 'field'): lambda g, ty, d: g.name(),
    ('FieldIn', 'exprs'): _many(lambda g, d: g.adt(dsl.tyid('spl::ast::Expr'), g.var(dsl.tyid('spl::ast::Expr'), 'Leaf'), 0) if g.p(0.95) else g.expr(1), 0, 3),
    ('EvalCommand', 'fields'): _many(_evals),
    ('WhereCommand', 'expr'): _boolexpr,
    ('SearchCommand', 'expr'): _search,
    ('HeadCommand', 'eval_expr'): _head,
    ('StatsCommand', 'funcs'): _many(lambda g, d: g.stat()),
    ('TStatsCommand', 'exprs'): _many(lambda g, d: g.stat()),
    ('TStatsCommand', 'prestats'): _mostly(False, 0.93), ('TStatsCommand', 'local'): _mostly(False, 0.93),
    ('TStatsCommand', 'append'): _mostly(False, 0.93), ('TStatsCommand', 'include_reduced_buckets'): _mostly(False, 0.93),
    ('TStatsCommand', 'by_prefix'): _optfrom(*([None] * 14 + ['x'])),
    ('TStatsCommand', 'where_condition'): _opt(_boolexpr),
    ('TStatsCommand', 'datamodel'): _optfrom('Web', 'Net', 'Auth', 'Web', None),
    ('DataModelCommand', 'search_mode'): _optfrom(*(['search'] * 8 + [None, 'flat', 'acceleration_search'])),
    ('DataModelCommand', 'data_model_name'): _optfrom('Web', 'Net', 'Auth', 'Web', None),
    ('DataModelCommand', 'dataset_name'): _optfrom('Web.a', 'b', 'x.y.z', None),
    ('TStatsCommand', 'nodename'): _optfrom('Web.a', 'b', 'x.y.z', None),
    ('RenameCommand', 'alias'): _many(_renames),
    ('SortCommand', 'fields_to_sort'): _many(_sortkey),
    ('JoinCommand', 'max'): _mostly(1, 0.95), ('JoinCommand', 'join_type'): _from('inner', 'inner', 'left', 'outer', 'x'),
    ('JoinCommand', 'fields'): _fields(0, 3), ('JoinCommand', 'sub_search'): _sub,
    ('MultiSearchCommand', 'pipelines'): _subs,
    ('LookupCommand', 'fields'): _many(_flike), ('LookupOutput', 'fields'): _many(_flike),
    ('LookupOutput', 'kv'): _from('OUTPUT', 'OUTPUT', 'output', 'Output', 'OUTPUTNEW'),
    ('RegexCommand', 'regex'): _regex, ('RexCommand', 'regex'): _regex,
    ('RexCommand', 'mode'): _optfrom(*([None] * 8 + ['sed', 'x'])), ('RexCommand', 'max_match'): _mostly(1, 0.95),
    ('TopCommand', 'use_other'): _mostly(False, 0.93), ('RareCommand', 'use_other'): _mostly(False, 0.93),
    ('FieldConversion', 'func'): _from('ctime', 'memk', 'rmunit', 'rmcomma', 'num', 'none', 'custom', 'auto'),
    ('ConvertCommand', 'timeformat'): lambda g, ty, d: coerce(g.pick(FORMATS) if g.p(0.4) else g.format()),
    ('SPathCommand', 'path'): _from('a.b', 'x{}', 'p'),
}


# ------------------------------------------------------------------ failing paths -> ground inputs
class Conc:
    """Ground instances of terms under the decisions of a path."""

    def __init__(self, X, path, seed):
        self.X, self.path = X, path
        self.lits, self.ints = literals(X, path)
        self.g = Gen(X, seed, self.lits, self.ints)
        self.g.wild = 0.03
        self.memo = {}

    def ground(self, t, depth=0):
        """A ground term compatible with what the path says about the shape of t."""
        X = self.X
        old = X.path
        X.path = self.path
        try:
            t = X.canon(t)
        finally:
            X.path = old
        m = self.memo.get(t)
        if m is None:
            m = self.memo[t] = self._ground(t, depth)
        return m

    def _ground(self, t, d):
        if t.op in ('lit', 'int', 'bool', 'float'):
            return t
        if t.op in ('adt', 'tup'):
            return mk(t.op, tuple(self.ground(a, d + 1) if isinstance(a, T) else a for a in t.args), t.ty)
        if t.op == 'seq':
            out = []
            for s in t.args:
                if s.op == 'one':
                    out.append(one(self.ground(s.args[0], d + 1)))
                elif s.op == 'all':
                    a = s.args[0]
                    r = self.tail(a)
                    out.extend(r.args)
                else:
                    raise Unsupported('cannot make ' + s.op)
            return mk('seq', tuple(out))
        if t.ty is None:
            raise Unsupported('cannot make %s' % t)
        ex = self.path.excl.get(t)
        ty = self.X.ty.peel(t.ty)
        if ex:
            vs = self.X.ty.variants(ty)
            for _ in range(30):
                r = self.g.gen(ty, 2)
                if r.op == 'adt' and r.args[0] not in ex:
                    return r
            v = self.g.pick([i for i in range(len(vs)) if i not in ex and vs[i]['name'] not in NOCLASS])
            return self.g.adt(ty, v, 2)
        if t.op == 'fld':
            h = self.hint(t)
            if h is not None:
                return h
        return self.g.gen(ty, 2)

    def hint(self, t):
        """Field-specific generator."""
        b, v, i = t.args
        if not isinstance(b, T) or b.ty is None or not isinstance(i, int) or v == 'c':
            return None
        E = self.X.ty
        try:
            f = E.variants(b.ty)[v]['fields'][i]
        except Exception:
            return None
        h = FIELDS.get((E.get(E.peel(b.ty))['name'].split('::')[-1], f[0]))
        if h is None or self.g.p(0.15):
            return None
        r = h(self.g, f[1], 2)
        return r

    def tail(self, a):
        r = None
        if a.op == 'fld' and a.args[1] != 'c':
            r = self.hint(a)
        elif a.op == 'fld' and a.args[1] == 'c':
            if self.g.p(0.5):
                return mk('seq', ())
        if r is None:
            r = self.g.gen(a.ty, 2)
        return r if r.op == 'seq' else mk('seq', ())


def literals(X, path, extra=()):
    lits, ints = [], []
    seen = set()

    def go(t):
        if not isinstance(t, T) or t.id in seen:
            return
        seen.add(t.id)
        if t.op == 'lit' and len(t.args[0]) < 60:
            lits.append(t.args[0])
        if t.op == 'int' and abs(t.args[0]) < 2**64:
            ints.append(t.args[0])
        for a in t.args:
            go(a)
    for k, _ in path.log:
        go(k)
    for e in extra:
        go(e)
    keep = [l for l in dict.fromkeys(lits) if l]
    return keep, list(dict.fromkeys(ints))


# ------------------------------------------------------------------ contexts: a term of some type inside a pipeline
def in_context(g, name, args):
    """Pipelines in which the function under contract `name` is applied to the ground arguments."""
    S = dsl.S
    E = g.X.ty
    cmds = []

    def cmd(n, **kw):
        vs = E.variants(dsl.tyid('spl::ast::Command'))
        i = [j for j, v in enumerate(vs) if v['name'] == n][0]
        cty = E.peel(vs[i]['fields'][0][1])
        return mk('adt', (i, g.adt(cty, 0, 2, **kw)), dsl.tyid('spl::ast::Command'))

    def pipe(*cs):
        return mk('adt', (0, mk('seq', tuple(one(c) for c in cs))), dsl.tyid('spl::ast::Pipeline'))

    def seq1(*xs):
        return mk('seq', tuple(one(x) for x in xs))

    def exprs(e):
        yield pipe(cmd('EvalCommand', fields=seq1(mk('tup', (S.Field('r'), e)))))
        yield pipe(cmd('WhereCommand', expr=e))
        yield pipe(cmd('SearchCommand', expr=e))
        yield pipe(cmd('StatsCommand', funcs=seq1(S.Expr.Call(S.Call(name='max', args=[e])))))

    def aggs(e):
        yield pipe(cmd('StatsCommand', funcs=seq1(e)))
        yield pipe(cmd('TStatsCommand', funcs=seq1(e)) if False else cmd('StatsCommand', funcs=seq1(e, g.stat())))

    def call_of(name, args):
        vals = []
        for s in args.args:
            v = s.args[0]
            vals.append(v.args[-1] if v.op == 'adt' and len(v.args) == 3 else v)
        return S.Call(name=name, args=vals)
    if name.endswith(('.standalone', '.runtime', '.mode')):
        c, st = args
        n = name.split('.')[0]
        vs = E.variants(dsl.tyid('spl::ast::Command'))
        i = [j for j, v in enumerate(vs) if v['name'] == n]
        if not i:
            raise Unsupported('no context')
        c = mk('adt', (i[0], c), dsl.tyid('spl::ast::Command'))
        first = st.args[[j for j, f in enumerate(E.variants(st.ty)[0]['fields']) if f[0] == 'df'][0] + 1]
        if first.args[0] == 0:
            yield pipe(c)
        elif g.p(0.5):
            yield pipe(cmd('FillNullCommand'), c)
        else:
            yield pipe(cmd('FieldsCommand', fields=seq1(S.Field('x'))), c)
    elif name == 'command':
        yield pipe(args[0])
    elif name in ('pipeline', 'api.render'):
        yield args[0]
    elif name in ('tse', 'unalS'):
        yield from exprs(args[0])
        yield from aggs(args[0])
    elif name == 'eval_fn':
        yield from exprs(S.Expr.Call(args[0]))
    elif name in ('evalbare', 'evalrt'):
        yield from exprs(S.Expr.Call(call_of(args[0], args[1])))
    elif name in ('statsbare', 'statsrt'):
        e = S.Expr.Call(call_of(args[0], args[1]))
        yield from aggs(e)
        yield from aggs(S.Expr.Alias(S.Alias(expr=e, name=g.name())))
    elif name in ('stats_fn', 'stats_rt_expr'):
        yield from aggs(args[0])
    elif name == 'stats_expr':
        yield from aggs(args[1])
    elif name in ('split_conditions', 'conjuncts'):
        yield pipe(cmd('SearchCommand', expr=args[0]))
    elif name == 'by_field':
        yield pipe(cmd('StatsCommand', by=dsl.coerce(dsl.Some(seq1(args[0])), opt_field('StatsCommand', 'by'))))
    elif name == 'convert_fn':
        yield pipe(cmd('ConvertCommand', timeformat=args[0].args[1], convs=seq1(args[1])))
    elif name == 'ctf':
        if g.p(0.7):
            args = [coerce(g.format())]
        for f in ('strftime', 'strptime'):
            yield from exprs(S.Expr.Call(S.Call(name=f, args=[g.field(), g.const('Str', S.StrValue(args[0]))])))
        yield pipe(cmd('ConvertCommand', timeformat=args[0]))
    elif name == 'groups':
        yield pipe(cmd('RexCommand', regex=args[0]))
    elif name == 'unquote':
        yield pipe(cmd('SearchCommand', expr=g.const('Str', S.StrValue(args[0]))))
    else:
        raise Unsupported('no context')


def opt_field(cmdname, f):
    for n, i in [(x[0], x[1]) for v in G.X.ty.variants(dsl.tyid(cmdname)) for x in v['fields']]:
        if n == f:
            return G.X.ty.peel(i)
    raise Unsupported('anchor lost: field ' + f)


FOCUS = {       # what to generate for contracts that have no context of their own
    'unal': None, 'iseC': ['SearchCommand'], 'unquote': ['SearchCommand'], 'joinbin': ['JoinCommand', 'LookupCommand', 'AddTotalsCommand', 'WhereCommand'],
    'pycode': None,
}


class Search:
    """Looks for a pipeline on which the real code and the contracts disagree."""

    def __init__(self, X, extdir):
        self.X, self.C = X, Concrete(X)
        self.R = Real(extdir)
        self.tried = self.skipped = 0
        self.accept = None       # (outcome of the code, outcome specified) -> does the difference count

    def differ(self, pipe):
        """None, or a description of the disagreement on this pipeline."""
        try:
            o = self.R.obj(pipe)
        except (ValueError, KeyError, TypeError, OverflowError):
            self.skipped += 1
            return None
        for allow in (False, True):
            try:
                want = self.C.render(pipe, allow)
            except (Unsupported, RecursionError):
                self.skipped += 1
                continue
            except (AttributeError, TypeError, IndexError, KeyError, ValueError):
                self.skipped += 1
                continue
            got = self.R.run(o, allow)
            self.tried += 1
            if (got[0] != want[0] or got[0] == 'ok' and got[1] != want[1]) and (self.accept is None or self.accept(got, want)):
                return {'pipeline': repr(o), 'allow_runtime': allow, 'code': got, 'specification': want, 'term': pipe}
        return None

    def run1(self, f):
        """f() with a path of its own (generation uses the engine)."""
        r = self.C.run(f)
        return r[1] if r[0] == 'ok' else None

    def from_path(self, c, fail, budget, seed=0):
        X = self.X
        end = time.time() + budget
        n = 0
        extra = [x for x in flat(fail.code) + flat(fail.spec)]
        while time.time() < end and n < 600:
            n += 1
            try:
                k = Conc(X, fail.path, seed * 100003 + n)
                l2, i2 = literals(X, fail.path, extra)
                if n % 2 == 0:
                    k.g.lits, k.g.ints = l2, i2
                args = None

                def go():
                    return list(in_context(k.g, c.name, [k.ground(a) for a in fail.args]))
                ps = self.run1(go)
            except (Unsupported, Infeasible, ValueError, KeyError, IndexError, AttributeError, TypeError, SpecErr, PanicExc, RecursionError):
                if n >= 40 and self.tried == 0:
                    return None
                continue
            for p in ps or ():
                d = self.differ(p)
                if d:
                    return d
        return None

    def random(self, budget, seed, lits=(), ints=(), focus=None, limit=None):
        """Random pipelines, biased to the given literals and commands."""
        end = time.time() + budget
        g = Gen(self.X, seed, lits, ints)
        pt = dsl.tyid('spl::ast::Pipeline')
        ct = dsl.tyid('spl::ast::Command')
        n = 0
        while time.time() < end and (limit is None or n < limit):
            n += 1

            def go():
                if focus and g.p(0.8):
                    name = g.pick(focus)
                    vs = self.X.ty.variants(ct)
                    i = [j for j, v in enumerate(vs) if v['name'] == name][0]
                    cs = [g.adt(ct, i, 4)]
                    if g.p(0.4):
                        cs.insert(g.r.randrange(2), g.g_Command(ct, 3))
                    return mk('adt', (0, mk('seq', tuple(one(c) for c in cs))), pt)
                return g.gen(pt, 3)
            try:
                p = self.run1(go)
            except (Unsupported, Infeasible, ValueError, KeyError, IndexError, AttributeError, TypeError, SpecErr, RecursionError):
                continue
            if p is None:
                continue
            d = self.differ(p)
            if d:
                return d
        return None


def flat(v):
    if isinstance(v, T):
        return [v]
    if isinstance(v, (list, tuple)):
        return [y for x in v for y in flat(x)]
    return []


# ------------------------------------------------------------------ formatting, against stand-ins for black
QUERIES = ('search a=1', '`m` | eval x="  y  "', '| makeresults', 'stats count by b', 'eval a="x\ny", b=\'c d\'')


def blacks():
    """Modules named black: (what it does, the module or None, code -> text or None for unformatted)."""
    import types

    class FileMode:
        def __init__(self, *a, **k):
            self.given = (a, tuple(sorted(k)))

    def shown(src, kw):
        m = kw.get('mode')
        return '  \n\t# %s %s\n%s \n\n' % (sorted(kw), getattr(m, 'given', m), src)

    def mod(fmt=None, mode=FileMode):
        m = types.ModuleType('black')
        if fmt:
            m.format_str = fmt
        if mode:
            m.FileMode = mode
        return m

    def good(src, *a, **kw):
        return shown(src, dict(kw, **({'positional': a} if a else {})))

    def bad(text):
        def f(*a, **k):
            raise ValueError(text)
        return f

    def want(c):
        return shown(c, dict(mode=FileMode())).strip()
    yield 'formats', mod(good), want
    yield 'is missing', None, None
    yield 'raises', mod(bad('Cannot parse')), None
    yield 'raises, saying that Black is not installed', mod(bad('Black is not installed')), None
    yield 'has no format_str', mod(), None
    yield 'has no FileMode', mod(good, None), None
    yield 'raises when its mode is made', mod(good, bad('mode')), None
    yield 'returns a text of blanks', mod(lambda *a, **k: ' \n'), lambda c: ''


def format_search(ext, accept=None):
    """A query whose code is formatted otherwise than by black with its default mode, or is not there when black fails."""
    R = Real(ext)
    old = sys.modules.get('black', R)
    try:
        for q in QUERIES:
            for allow in (False, True):
                sys.modules['black'] = None
                try:
                    p = R.m.parse(q)
                    u = R.m.render_pyspark(p, allow_runtime=allow, format_code=False)
                except Exception:
                    continue
                for what, m, want in blacks():
                    sys.modules['black'] = m
                    w = ('ok', want(u) if want else u)
                    for kw in (dict(allow_runtime=allow, format_code=True), dict(allow_runtime=allow), {} if not allow else None):
                        if kw is None:
                            continue
                        try:
                            got = ('ok', R.m.render_pyspark(p, **kw))
                        except BaseException as e:
                            if not isinstance(e, Exception) and type(e).__name__ != 'PanicException':
                                raise
                            got = ('panic' if type(e).__name__ == 'PanicException' else 'err', str(e)[:300])
                        if got != w and (accept is None or accept(got, w)):
                            return {'pipeline': '%s (options %s; black %s)' % (q, kw, what), 'allow_runtime': allow, 'code': got, 'specification': w,
                                    'found': 'by formatting with stand-ins for black'}
    finally:
        if old is R:
            sys.modules.pop('black', None)
        else:
            sys.modules['black'] = old
    return None
