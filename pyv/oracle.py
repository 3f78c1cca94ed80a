"""Real functions of the package and their contracts, both run on the same concrete inputs, Spark replaced by a recorder of calls.

usage: python oracle.py PACKAGE_PARENT(PYTHON TREE WITH THE BUILT EXTENSION) SPEC_DIR SEED SECONDS TARGET...      (JSON on stdout)
"""
import ast
import enum
import importlib.util
import inspect
import json
import logging
import os
import random
import shutil
import sys
import tempfile
import time
import types
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from synonyms import FUN, METH
sys.path.pop(0)
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)

import pyspark.sql
import pyspark.sql.functions as RealF
from pyspark.sql import Column, DataFrame

real_f = {n: getattr(RealF, n) for n in dir(RealF) if not n.startswith('_')}


# ------------------------------------------------------------------ the recorder
def term(x):
    """A comparable text of any value."""
    if isinstance(x, Rec):
        return object.__getattribute__(x, '_t')
    if isinstance(x, RecFn):
        return 'F.' + x.name
    if isinstance(x, RecUdf):
        return x.name
    if isinstance(x, enum.Enum):
        return term(x.value)
    if isinstance(x, (list, tuple)):
        return '%s(%s)' % (type(x).__name__, ', '.join(map(term, x)))
    if isinstance(x, dict):
        return '{%s}' % ', '.join('%s: %s' % (term(k), term(v)) for k, v in x.items())
    if type(x).__name__ == 'Expr' and hasattr(x, 'kind'):
        return term(x.value) if term(x.kind) == "'raw'" else 'Expr(%s, %s)' % (term(x.kind), term(x.value))
    if hasattr(type(x), 'model_fields'):
        return '%s(%s)' % (type(x).__name__, ', '.join('%s=%s' % (n, term(getattr(x, n))) for n in sorted(type(x).model_fields)))
    if inspect.isfunction(x):
        n = x.__code__.co_argcount
        a = [RecCol('x%d' % i) for i in range(n)]
        try:
            return '(%s -> %s)' % (', '.join(map(term, a)), term(x(*a)))
        except Exception as e:
            return '(raises %s)' % type(e).__name__
    if inspect.isgenerator(x) or type(x).__name__ in ('map', 'filter', 'zip', 'dict_items', 'dict_keys', 'dict_values'):
        return term(list(x))
    if isinstance(x, types.BuiltinFunctionType) or isinstance(x, type) or inspect.ismodule(x):
        return getattr(x, '__name__', repr(x))
    return '%s:%r' % (type(x).__name__, x) if isinstance(x, (bool, float)) else repr(x)


def args_of(a, kw):
    return ', '.join([term(x) for x in a] + ['%s=%s' % (k, term(kw[k])) for k in sorted(kw)])


class Rec:
    """Anything of Spark: what is done to it is written down."""


class Meth:
    def __init__(self, o, n):
        self.o, self.n = o, n

    def __call__(self, *a, **kw):
        t = '%s.%s(%s)' % (term(self.o), METH.get(self.n, self.n), args_of(a, kw))
        if isinstance(self.o, RecDF) and self.n in ('withColumn', 'where', 'filter', 'orderBy', 'sort', 'select', 'limit', 'drop', 'agg', 'groupBy', 'groupby', 'join', 'union'):
            return RecDF(t)
        if isinstance(self.o, RecSpark) and self.n in ('table', 'sql'):
            return RecDF(t)
        return type(self.o)(t) if not isinstance(self.o, RecDF) else RecCol(t)


def _getattribute(self, n):
    if n.startswith('__') or n == '_t':
        return object.__getattribute__(self, n)
    if isinstance(self, RecDF) and n == 'dtypes':
        return [('alpha', 'int'), ('beta', 'string')]
    if isinstance(self, RecDF) and n == 'columns':
        return ['alpha', 'beta']
    return Meth(self, n)


def _no(self, *a):
    raise ValueError('a column has no truth value')


class RecCol(Rec, Column):
    def __new__(cls, t):
        o = object.__new__(cls)
        object.__setattr__(o, '_t', t)
        return o

    def __init__(self, t):
        pass
    __getattribute__ = _getattribute
    __bool__ = _no
    __hash__ = object.__hash__

    def __iter__(self):
        raise TypeError('a column is not iterable')

    def __repr__(self):
        return term(self)


class RecDF(Rec, DataFrame):
    def __new__(cls, t):
        o = object.__new__(cls)
        object.__setattr__(o, '_t', t)
        return o

    def __init__(self, t):
        pass
    __getattribute__ = _getattribute
    __hash__ = object.__hash__

    def __getitem__(self, k):
        return RecCol('%s[%s]' % (term(self), term(k)))

    def __repr__(self):
        return term(self)


class RecSpark(Rec):
    def __init__(self, t):
        object.__setattr__(self, '_t', t)

    def __getattribute__(self, n):
        if n.startswith('__') or n == '_t':
            return object.__getattribute__(self, n)
        if n in ('builder', 'unboundedPreceding', 'unboundedFollowing', 'currentRow'):
            return RecSpark('%s.%s' % (term(self), n))
        return Meth(self, n)


def _op(name, sym, swap=False):
    def f(self, other):
        a, b = term(self), term(other)
        return RecCol('(%s %s %s)' % ((b, sym, a) if swap else (a, sym, b)))
    f.__name__ = name
    setattr(RecCol, name, f)


for _n, _s in (('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'), ('mod', '%'), ('pow', '**'), ('and', '&'), ('or', '|')):
    _op('__%s__' % _n, _s)
    _op('__r%s__' % _n, _s, True)
for _n, _s in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')):
    _op('__%s__' % _n, _s)
RecCol.__getitem__ = lambda self, k: RecCol('%s[%s]' % (term(self), term(k)))
RecCol.__neg__ = lambda self: RecCol('(-%s)' % term(self))
RecCol.__invert__ = lambda self: RecCol('(~%s)' % term(self))


class RecFn:
    def __init__(self, name):
        self.name = name
        try:
            self.sig = inspect.signature(real_f[name])
        except (TypeError, ValueError):
            self.sig = None

    def __call__(self, *a, **kw):
        if self.sig is not None:
            b = self.sig.bind(*a, **kw)
            if not any(p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD, p.KEYWORD_ONLY) for p in self.sig.parameters.values()):
                b.apply_defaults()
                a, kw = tuple(b.arguments.values()), {}
        return RecCol('F.%s(%s)' % (FUN.get(self.name, self.name), args_of(a, kw)))


class RecUdf:
    def __init__(self, func, returns):
        self.func, self.name, self.returns = func, 'udf:' + func.__name__, returns

    def __call__(self, *a, **kw):
        b = inspect.signature(self.func).bind(*a, **kw)
        return RecCol('%s(%s)' % (self.name, args_of(b.args, b.kwargs)))


def fake_udf(f=None, returnType=None, **kw):
    if callable(f):
        return RecUdf(f, returnType)
    return lambda g: RecUdf(g, f or returnType)


def install():
    m = types.ModuleType('pyspark.sql.functions')
    for n, v in real_f.items():
        setattr(m, n, RecFn(n) if callable(v) and not isinstance(v, type) else v)
    m.udf = fake_udf
    m.UserDefinedFunction = RecUdf
    sys.modules['pyspark.sql.functions'] = m
    pyspark.sql.functions = m
    pyspark.sql.Window = RecSpark('Window')
    pyspark.sql.SparkSession = RecSpark('SparkSession')
    import pyspark.sql.window as win
    win.Window = pyspark.sql.Window


# ------------------------------------------------------------------ inputs
NAMES = ['alpha', 'beta', 'gamma', 'main', '_time', 'x.y', '']


class Gen:
    def __init__(self, rng, lits, ints):
        self.r, self.lits, self.ints = rng, lits, ints

    def string(self):
        return self.r.choice(self.lits) if self.lits and self.r.random() < .4 else self.r.choice(NAMES)

    def integer(self):
        r = self.r.random()
        if self.ints and r < .4:
            return self.r.choice(self.ints) + self.r.choice((0, 0, 1, -1))
        return self.r.choice((0, 1, 2, 3, 5, 7, 10, 16, 60, 100, 3600, -1, -2, -60)) if r < .9 else self.r.randrange(-10**6, 10**6)

    def column(self):
        return RecCol(self.r.choice(('F.col(f1)', 'F.col(f2)', 'F.lit(3)', 'F.upper(F.col(f3))')))

    def plain(self):
        k = self.r.randrange(8)
        return self.string() if k < 3 else self.integer() if k == 3 else 2.5 if k == 4 else None if k == 5 else self.r.random() < .5 if k == 6 else self.column()

    def some(self, f, n=4):
        return [f() for _ in range(self.r.choice((0, 1, 1, 2, 2, 3, n)))]

    def arg(self, ann, B):
        """(what the real function is given, what the contract is given)"""
        opts = [x.strip() for x in ann.split('|')]
        if 'None' in opts:
            if self.r.random() < .35:
                return None, None
            opts.remove('None')
        a = self.r.choice(opts)
        if a == 'Expr':
            v = self.plain()
            if v is None and '|' in ann:
                return None, None
            return v, B.Expr.model_validate(v)
        if a in ('list[Expr]',):
            v = self.some(self.plain)
            return v, [B.Expr.model_validate(x) for x in v]
        if a == 'list':
            v = self.some(self.value)
            return v, list(v)
        if a == 'list[str]':
            v = self.some(self.string)
            return v, list(v)
        if a == 'str':
            v = self.string()
        elif a == 'int':
            v = self.integer()
        elif a == 'float':
            v = self.r.choice((0.0, 1.5, -2.25, 100.0))
        elif a == 'bool':
            v = self.r.random() < .5
        elif a == 'DataFrame':
            v = RecDF('df')
        elif a == 'TimeScale':
            v = self.r.choice(list(B.TimeScale))
        elif a == 'TimeSpan':
            v = B.TimeSpan(value=self.integer(), scale=self.r.choice(list(B.TimeScale)))
        elif a == 'StatsFunction':
            v = stat(self.r.choice(('p', 'q', 'r')), B)
        elif a == 'DataModelSpecifier':
            from spl_transpiler.runtime.commands.tstats import DataModelSpecifier as D
            v = D(datamodel=self.dotted(), nodename=None if self.r.random() < .3 else self.dotted())
        else:
            v = self.value()
        return v, v

    def dotted(self):
        return '.'.join(self.r.choice(('net', 'web', 'All', '')) for _ in range(self.r.randrange(1, 4)))

    def value(self):
        k = self.r.randrange(7)
        return self.string() if k < 3 else self.integer() if k == 3 else None if k == 4 else self.r.choice((1.5, True, False)) if k == 5 else self.string()


def stat(n, B):
    from spl_transpiler.runtime.functions.stats import StatsFunction

    class Stub(StatsFunction):
        tag: str = n

        def to_pyspark_expr(self, df):
            return RecDF('%s.for_%s()' % (term(df), self.tag)), RecCol('agg_%s' % self.tag)
    Stub.__name__ = 'Stub'
    return Stub()


def call_args(sd, skip, g, B):
    """Arguments by the annotations of the contract."""
    ra, rk, sa, sk, note = [], {}, [], {}, []
    a = sd.args
    pos = (a.posonlyargs + a.args)[skip:]
    nd = len(pos) - len(a.defaults)
    ann = lambda p: '' if p.annotation is None else p.annotation.value if isinstance(p.annotation, ast.Constant) else ast.unparse(p.annotation)
    full = True
    for i, p in enumerate(pos):
        if i >= nd and (not a.vararg or g.r.random() < .5) and g.r.random() < .4:
            full = False
            continue
        x, y = g.arg(ann(p), B)
        if full:
            ra.append(x)
            sa.append(y)
        else:
            rk[p.arg], sk[p.arg] = x, y
    if a.vararg and full:
        for _ in range(g.r.choice((0, 1, 2, 2, 3, 4, 4, 6))):
            x, y = g.arg(ann(a.vararg), B)
            ra.append(x)
            sa.append(y)
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None and g.r.random() < .5:
            continue
        rk[p.arg], sk[p.arg] = g.arg(ann(p), B)
    if a.kwarg:
        for n in g.r.sample(('k1', 'k2', 'k3', 'k4'), g.r.choice((0, 1, 2, 3))):
            rk[n], sk[n] = g.arg(ann(a.kwarg), B)
    return ra, rk, sa, sk


def outcome(f):
    try:
        r = f()
        if type(r).__name__ == 'Expr' and hasattr(r, 'kind'):
            r = r.value
        return 'returns ' + term(r), None
    except RecursionError:
        return 'raises RecursionError', 'RecursionError'
    except Exception as e:
        return 'raises %s' % type(e).__name__, type(e).__name__


DIRECTIVES = ['%Y', '%m', '%d', '%H', '%M', '%S', '%y', '%b', '%B', '%a', '%A', '%Z', '%z', '%:z', '%F', '%T', '%p', '%I', '%k', '%e', '%j', '%w', '%N', '%Q', '%3Q', '%6Q', '%9Q',
              '%f', '%%', '%s', '%c', '%::z', '%:::z', '%x', '%X', '%+', '%Ez', '-', ' ', ':', 'T', 'at']


# ------------------------------------------------------------------ one contract
class Job:
    def __init__(self, target, spec, name, via, names):
        self.target, self.spec, self.name, self.via = target, spec, name, via
        self.sd = names[name]

    def real(self):
        parts = self.target.split('.')
        for i in range(len(parts) - 1, 0, -1):
            try:
                o = importlib.import_module('.'.join(parts[:i]))
            except ModuleNotFoundError:
                continue
            for p in parts[i:]:
                o = getattr(o, p)
            return o
        raise AttributeError(self.target)

    def trial(self, g, B):
        """(description of the input, thunk of the code, thunk of the contract)"""
        n, spec = self.name, getattr(self.spec, self.name)
        t = self.target
        if t.startswith('spl_transpiler.macros.'):
            return macro_trial(self, n, spec, g)
        if n == 'to_expr':
            e = B.Expr.model_validate(g.plain())
            return 'Expr(%s)' % term(e), (lambda: e.to_pyspark_expr()), (lambda: spec(e))
        if n == 'plain':
            v = g.r.choice((g.plain(), g.integer(), {'kind': 'raw', 'value': 1}, {}, B.Expr(kind='literal', value=3), (1, 2)))
            return term(v), (lambda: B.Expr.support_plain_types(v)), (lambda: spec(B.Expr, v))
        if n == 'specifier':
            v = g.arg('DataModelSpecifier', B)[0]
            return term(v), (lambda: str(v)), (lambda: spec(v))
        if n == 'lookup_callable':
            v = g.r.choice(('os.path:join', 'os:nope', 'nosuchmodule_x:y', 'os', 'a:b:c', '', 3, None, len, 'json:dumps', ':', 'os.path:join:x', 'os.:x', 'json:'))
            f = self.real()
            f = getattr(f, 'func', f)
            return term(v), (lambda: f(v)), (lambda: spec(v))
        if n == 'convert_time_format':
            v = ''.join(g.r.choice(DIRECTIVES) for _ in range(g.r.randrange(0, 7)))
            f = self.real()
            return term(v), (lambda: f(v)), (lambda: spec(v))
        if n == 'convert_spl_to_pyspark':
            f = self.real()
            q = g.r.choice(('search index=main x=1', 'index=a | head 3', 'search y | stats count by z', '| tstats count', 'x=(', '', 'eval x=1 | sort - a', 'search x | eval y=a+1'))
            kw = {k: g.r.random() < .5 for k in ('allow_runtime', 'format_code') if g.r.random() < .6}
            return '%r, %s' % (q, kw), (lambda: f(q, **kw)), (lambda: spec(q, **kw))
        if t.startswith(('spl_transpiler.runtime.utils.', 'spl_transpiler.runtime.magic.')):
            return magic_trial(self, n, g)
        if t.startswith('spl_transpiler.runtime.udfs.'):
            f = self.real().func
            a = udf_args(n, g)
            return args_of(a, {}), (lambda: f(*a)), (lambda: spec.func(*a))
        f = self.real()
        ra, rk, sa, sk = call_args(self.sd, 1 if self.via else 0, g, B)
        d = '%s(%s)' % (t.split('.', 2)[-1], args_of(ra, rk))
        if self.via:
            return d, (lambda: getattr(f(*ra, **rk), self.via)(RecDF('df'))), (lambda: spec(RecDF('df'), *sa, **sk))
        return d, (lambda: f(*ra, **rk)), (lambda: spec(*sa, **sk))


def udf_args(n, g):
    c = g.r.choice
    if n == 'cidr_match':
        return [c(('10.0.0.1', '10.1.2.3', '192.168.1.7', 'x', '', '::1', None, 'fe80::5')), c(('10.0.0.0/8', '10.0.0.9/8', '192.168.1.0/24', 'fe80::/10', 'y', '', '10.0.0.0/33'))]
    if n == 'ipmask':
        return [c((8, '16', 24, '0.0.255.0', '255.255.0.0', 32, 'x', None, 0, 33)), c(('10.20.30.40', '192.168.1.7', 'z', '', '::1'))]
    if n == 'printf':
        return [c(('%s', '%d', '%s-%s', '%5.2f', 'x', '%%', '%d/%s', '%x'))] + [c((1, 'a', 2.5, None)) for _ in range(g.r.randrange(0, 3))]
    if n == 'tonumber':
        v = c(('12', '0x1f', 'ff', '101', 'z', '', None, 7, ' 8 ', '-3', 2.5))
        return [v] if g.r.random() < .4 else [v, c((2, 8, 10, 16, 36, 1, 37))]
    if n == 'tostring':
        v = c((True, False, 0, 1, 15, 255, 3600, 3661, 86399, 100000, 1234567, -5, 2.5, 1234.5, 'x', None))
        return [v] if g.r.random() < .3 else [v, c((None, 'binary', 'hex', 'commas', 'duration', 'other'))]
    return [g.value() for _ in range(g.r.randrange(0, 4))]


CODES = ['a = 1', 'b = a + g', 'x', 'x: int = 3', 'a = b = g', 'g += 1', 'for i in [1, 2]: pass', '(p, q) = (1, 2)', 'h = lambda v: g + v', 'h(1)', 'out.append(g)', 'out.append(1)', 'a',
         'def k(): return 5', 'k()', 'out[:] = [7]', 'zz', 'out', 'import math', 'y: int', 'l[0] = 4', '[a for a in out]', '0', 'None', 'g = 3', '1 +', '(u, w) = pp = [1, 2]']


def magic_trial(job, n, g):
    r = g.r
    if n == 'exec_with_return':
        code = '\n'.join(r.choice(CODES) for _ in range(r.choice((0, 1, 2, 2, 3))))
        same = r.random() < .4

        def run(f):
            out = []
            gl = {'g': 10, 'out': out, 'l': [1]}
            lo = gl if same else {'x': 'local', 'out': out}
            try:
                v = f(code, gl, lo)
            except Exception as e:
                v = 'raises ' + type(e).__name__
            clean = lambda d: {k: '<function>' if callable(v) else v for k, v in d.items() if k != '__builtins__' and not inspect.ismodule(v)}
            return (clean({'v': v})['v'] if not callable(v) else '<function>', clean(gl), clean(lo))
        return 'exec_with_return(%r, %s)' % (code, 'same namespace twice' if same else 'globals, locals'), (lambda: run(job.real())), (lambda: run(job.spec.exec_with_return))
    import IPython.display
    line = ' '.join(r.choice(('--dry-run', '--no-dry-run', '--use-runtime', '--no-use-runtime', '--format-code', '--no-format-code', '--print-code', '--no-print-code',
                              '--var-name out', '--var-name=df2', '--nosuch', '')) for _ in range(r.choice((0, 1, 1, 2, 3, 5))))
    cell = r.choice(('search x=1', 'index=main | head 3', 'search y'))
    fails = r.choice((None, None, None, ValueError, KeyError, 'convert'))
    held = r.sample(('F', 'df', 'x', 'commands', 'spark'), r.randrange(0, 4))

    def run(m, f, executes):
        done = []
        ns = {k: 'own ' + k for k in held}

        def convert(*a, **kw):
            b = inspect.signature(job.convert).bind(*a, **kw)
            b.apply_defaults()
            done.append('convert(%s)' % args_of(b.args, b.kwargs))
            if fails == 'convert':
                raise ValueError('not SPL')
            return '<code>'

        def execute(code, gl, lo):
            done.append('run(%s, names %s)' % (term(code), term({k: v for k, v in sorted({**gl, **lo}.items())})))
            done.append('seen from nested code: %s' % term(sorted(gl)))
            if isinstance(fails, type):
                raise fails('failed')
            return '<result>'
        old = m.convert_spl_to_pyspark, getattr(m, executes), IPython.display.display, sys.stderr
        m.convert_spl_to_pyspark = convert
        setattr(m, executes, execute)
        IPython.display.display = lambda *a, **kw: done.append('display(%s)' % ', '.join('%s %r' % (type(x).__name__, getattr(x, 'code', x)) for x in a))
        sys.stderr = open(os.devnull, 'w')
        try:
            v = f(line, cell, ns)
        except (Exception, SystemExit) as e:
            v = 'raises ' + type(e).__name__
        finally:
            sys.stderr.close()
            m.convert_spl_to_pyspark, IPython.display.display, sys.stderr = old[0], old[2], old[3]
            setattr(m, executes, old[1])
        ns.pop('__builtins__', None)
        return (v, done, ns)
    import spl_transpiler.utils as U
    job.convert = U.convert_spl_to_pyspark
    M = importlib.import_module('spl_transpiler.runtime.magic')
    return '%%%%spl %s <%s>, notebook names %s, %s' % (line, cell, held, 'no failure' if fails is None else 'failure: %s' % fails), \
        (lambda: run(M, M.spl, 'exec_with_return')), (lambda: run(job.spec, job.spec.spl, '_run'))


MTEXT = ['index=main', ' | ', 'search x', '| head 5 ', '', ' ', '|', 'sourcetype="a" ', '$a$', '$b$ ', ' AND ', 'eval x=$a$', 'p=$a$ q=$b$', ' | | ', 'where $b$=$a$', '\n', '\\1', 'sort $a$$b$']
MARGS = ['1', 'foo', '"q"', 'x', 'main', '$b$', '$a$', '3.5', 'TERM']


def macro_trial(job, n, spec, g):
    r = g.r
    M = sys.modules['spl_transpiler.macros']
    names = ['m1', 'm2', 'm3']
    table = {}
    for i, m in enumerate(names):
        ps = r.sample(['a', 'b', 'cc'], r.choice((0, 0, 1, 2, 2, 3)))
        text = ''.join(r.choice(MTEXT) for _ in range(r.randrange(0, 4)))
        if i and r.random() < .3:
            text += ' `%s%s` ' % (names[i - 1], r.choice(('', '(1)', '(x, y)')))
        table[m] = dict(arguments=ps, definition=text) if ps or r.random() < .5 else dict(definition=text)

    def call():
        m = r.choice(names + ['m1', 'm2'] + (['nosuch'] if r.random() < .1 else []))
        ps = list(table.get(m, {}).get('arguments', []))
        k = r.random()
        if k < .35:
            a = [r.choice(MARGS) for _ in ps]
        elif k < .65:
            r.shuffle(ps)
            a = ['%s=%s' % (p, r.choice(MARGS)) for p in ps]
        elif k < .8:
            a = [r.choice(MARGS) for _ in range(r.randrange(0, 4))]
        elif k < .92:
            a = ['%s=%s' % (r.choice(('a', 'b', 'cc', 'zz')), r.choice(MARGS)) for _ in range(r.randrange(0, 4))]
        else:
            a = [r.choice(('a=1', '2', 'b=x', 'y')) for _ in range(r.randrange(1, 4))]
        return '`%s%s`' % (m, '(%s)' % ','.join(a) if a or r.random() < .2 else '')
    code = ''.join(r.choice(MTEXT) + (call() if r.random() < .6 else '') for _ in range(r.randrange(1, 4))) + r.choice(('', '', ' ', '|', '| ', ' | table x'))
    if n == 'substitute_macros':
        d = 'substitute_macros(%r, %r)' % (code, table)
        return d, (lambda: M.substitute_macros(code, table)), (lambda: spec(code, table))
    if n == 'parse_with_macros':
        code = r.choice(('search index=main', '`m1` | head 3', 'search `m2(1)`', '`m3`', 'x=3', '| | |', 'search x | `m1(a=2)`'))
        table['m1'] = dict(definition='search y=1')
        table['m2'] = dict(arguments=['a'], definition='z=$a$')
        return 'parse_with_macros(%r, %r)' % (code, table), (lambda: repr(M.parse_with_macros(code, table))), (lambda: repr(spec(code, table)))
    item = r.choice(names + ['nosuch'])
    defs = {k: M.MacroDefinition(**v) for k, v in table.items()}
    if n.endswith('__init__') or n.endswith('__register'):
        import copy
        import types
        cls = getattr(M, n.split('__')[0])

        def made(real):
            reg = {k: v for k, v in defs.items() if k != 'm2'}
            if n.endswith('__register'):
                l = cls(dict(reg)) if real else types.SimpleNamespace(registry=dict(reg))
                (l.register if real else lambda *a: spec(l, *a))(item, defs['m2'])
                return l.__dict__
            if n.startswith('Registry'):
                a, kw = (reg,), {}
            elif n.startswith('Combined'):
                a, kw = tuple(defs.values())[:len(code) % 4], ({} if len(code) % 3 else dict(fallback_fn=len))
            else:
                a, kw = (('d', '.x', len), ('d',), ('d', '.y'))[len(code) % 3], ({} if len(code) % 2 or len(code) % 3 == 0 else dict(loader=len))
            l = cls(*a, **kw) if real else types.SimpleNamespace()
            if not real:
                spec(l, *a, **kw)
            reg['later'] = defs['m2']
            return dict(l.__dict__)
        return '%s of %s' % (n, sorted(defs)), (lambda: made(True)), (lambda: made(False))

    def lookups(text, l, l2):
        """One lookup, or a few of the same loader one after another: none changes what the next one finds."""
        if r.random() < .6:
            return '%s[%r]' % (text, item), (lambda: l[item]), (lambda: spec(l2, item))
        ks = [r.choice(names) for _ in range(r.randrange(2, 4))]

        def one(g, k):
            try:
                return g(k)
            except Exception as e:
                return type(e).__name__
        return '%s, then %s' % (text, ', '.join('[%r]' % k for k in ks)), (lambda: [one(l.__getitem__, k) for k in ks]), (lambda: [one(lambda k: spec(l2, k), k) for k in ks])
    if n.startswith('Registry'):
        l = M.RegistryMacroLoader({k: v for k, v in defs.items() if r.random() < .7})
        return lookups('RegistryMacroLoader(%r)' % l.registry, l, M.RegistryMacroLoader(dict(l.registry)))
    if n.startswith('Combined'):
        ls = []
        for _ in range(r.randrange(0, 4)):
            ls.append({k: M.MacroDefinition(definition='%d %s' % (len(ls), k)) for k in names if r.random() < .4})
        if r.random() < .2:
            ls.insert(r.randrange(0, len(ls) + 1), Bad())
        fb = r.choice((None, None, lambda k: 'fallback ' + k))
        l = M.CombinedMacroLoader(*ls, fallback_fn=fb)
        return lookups('CombinedMacroLoader(%s, fallback=%s)' % (ls, fb is not None), l, M.CombinedMacroLoader(*ls, fallback_fn=fb))
    if n.startswith('Folder'):
        from pathlib import Path
        d = tempfile.mkdtemp(prefix='pyv')
        TMP.append(d)
        suf = r.choice(('.json', '.json', '.macro', '.spl.json', '-macro.json'))
        files = []
        near = [item + 'x', 'x' + item, item.upper(), item[:-1], item + suf]
        table.update({k: table['m1'] for k in near})
        for f in names + near:
            for sub in ('', 'd1', 'd1/d2'):
                if r.random() < (.3 if f in names else .08):
                    p = os.path.join(d, sub, f + r.choice((suf, suf, '.txt')))
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    if r.random() < .1:
                        os.makedirs(p, exist_ok=True)
                    elif not os.path.isdir(p):
                        with open(p, 'w') as h:
                            json.dump(table[f] if r.random() < .9 else {'arguments': []}, h)
                    files.append(os.path.relpath(p, d))
        kw = dict(loader=lambda f: dict(arguments=['q'], definition='read ' + f.read(5))) if r.random() < .4 else {}
        l = M.FolderMacroLoader(Path(d), suf, **kw)
        return lookups('FolderMacroLoader(<%s>, %r)' % (', '.join(files), suf), l, M.FolderMacroLoader(Path(d), suf, **kw))
    raise ValueError(n)


TMP = []


class Bad:
    def __getitem__(self, k):
        raise ValueError(k)

    def __repr__(self):
        return 'Bad()'


def constants(tree):
    s, i = [], []
    for x in ast.walk(tree):
        if isinstance(x, ast.Constant):
            if isinstance(x.value, str) and len(x.value) < 30:
                s.append(x.value)
            elif isinstance(x.value, int) and not isinstance(x.value, bool):
                i.append(x.value)
    return s, i


def source_constants(obj_target, root):
    """Constants of the function's own text."""
    parts = obj_target.split('.')
    for k in range(len(parts) - 1, 0, -1):
        for f in (os.path.join(root, *parts[:k]) + '.py', os.path.join(root, *parts[:k], '__init__.py')):
            if os.path.exists(f):
                t = ast.parse(open(f).read())
                for x in t.body:
                    if getattr(x, 'name', None) == parts[k]:
                        return constants(x)
                return [], []
    return [], []


def main():
    root, specs, seed, budget = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4])
    targets = sys.argv[5:]
    install()
    sys.path.insert(0, root)
    sys.setrecursionlimit(400)
    out = dict(hit=None, tried=0, errors=[])
    try:
        from spl_transpiler.runtime import base as B
        from spl_transpiler.runtime import config
        st = config.settings()
        def lookup(*a, **kw):
            return RecDF('lookup(%s)' % args_of(a, kw))
        st.__dict__['table_lookup_function'] = lookup
        import spl_transpiler.macros
    except Exception as e:
        out['errors'].append('import: %s: %s' % (type(e).__name__, e))
        print(json.dumps(out))
        return
    jobs = []
    for f in sorted(os.listdir(specs)):
        if not f.endswith('.py') or f.startswith('__'):
            continue
        src = open(os.path.join(specs, f)).read()
        tree = ast.parse(src)
        names = {x.name: x for x in tree.body if isinstance(x, ast.FunctionDef)}
        try:
            sp = importlib.util.spec_from_file_location('pyvspec_' + f[:-3], os.path.join(specs, f))
            m = importlib.util.module_from_spec(sp)
            sp.loader.exec_module(m)
        except Exception as e:
            out['errors'].append('%s: %s: %s' % (f, type(e).__name__, e))
            continue
        for n in names:
            if n.startswith('_'):
                continue
            t = target_of(m, n)
            if t in targets:
                jobs.append(Job(t, m, n, getattr(m, 'VIA', None), names))
        for a, b in getattr(m, 'ALIASES', {}).items():
            t = m.TARGET + '.' + a
            if t in targets:
                jobs.append(Job(t, m, b if b in names else b.rstrip('_'), m.VIA, names) if (b in names or b.rstrip('_') in names) else None)
    jobs = [j for j in jobs if j]
    rng = random.Random(seed)
    end = time.time() + budget
    prepared = []
    for j in jobs:
        try:
            j.real()
        except Exception as e:
            out['errors'].append('%s: %s' % (j.target, e))
            continue
        s, i = source_constants(j.target, root)
        s2, i2 = constants(j.sd)
        prepared.append((j, Gen(rng, s + s2, i + i2)))
    n = 0
    per = {}
    while prepared and time.time() < end and out['hit'] is None:
        j, g = prepared[n % len(prepared)]
        n += 1
        try:
            d, code, spec = j.trial(g, B)
        except Exception as e:
            if per.setdefault(j.target, 0) < 3:
                out['errors'].append('%s: input: %s: %s' % (j.target, type(e).__name__, str(e)[:200]))
            per[j.target] += 1
            continue
        a, b = outcome(code), outcome(spec)
        out['tried'] += 1
        for x in TMP:
            shutil.rmtree(x, ignore_errors=True)
        TMP.clear()
        if a[0] == b[0] or a[1] and b[1] and not j.target.startswith(('spl_transpiler.macros.', 'spl_transpiler.runtime.magic.', 'spl_transpiler.runtime.utils.')):
            continue
        out['hit'] = dict(target=j.target, input=d[:4000], code=a[0][:4000], specification=b[0][:4000])
    out['seconds'] = budget - (end - time.time())
    print(json.dumps(out))


def target_of(m, f):
    names = getattr(m, 'NAMES', {})
    if f in names:
        return m.TARGET + '.' + names[f]
    if '____' in f:
        return m.TARGET + '.' + f.replace('____', '.__', 1)
    if '__' in f.strip('_'):
        return m.TARGET + '.' + f.replace('__', '.', 1)
    return m.TARGET + '.' + f


if __name__ == '__main__':
    main()
