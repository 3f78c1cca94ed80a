"""Contracts of the Python part: which there are, and one task of proving each."""
import ast
import glob
import os
import time

from .engine import *

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.environ.get('PYV_ROOT', '/repo/python')


class Contract:
    def __init__(self, spec, name, target, prop, via=None, alias=None):
        self.spec, self.name, self.target, self.prop, self.via, self.alias = spec, name, target, prop, via, alias

    def __repr__(self):
        return self.target


def world():
    w = World(ROOT, 'spl_transpiler')
    for m in ('macros', 'runtime.base', 'runtime.config', 'runtime.utils', 'runtime.udfs', 'runtime.functions.eval', 'runtime.functions.stats', 'runtime.functions.utils',
              'runtime.commands.search', 'runtime.commands.eval', 'runtime.commands.stats', 'runtime.commands.tstats', 'runtime.commands.fill_null',
              'runtime.commands.data_model'):
        w.module('spl_transpiler.' + m)
    return w


def contracts(w):
    out = []
    for p in sorted(glob.glob(os.path.join(HERE, 'spec', '*.py'))):
        n = os.path.basename(p)[:-3]
        if n.startswith('__'):
            continue
        m = Module(w, 'spec.' + n, p)
        w.mods['spec.' + n] = m
        const = {k: ast.literal_eval(v) for k, v in m.names.items() if k.isupper() and isinstance(v, ast.AST)}
        for f in m.tree.body:
            if isinstance(f, ast.FunctionDef) and not f.name.startswith('_'):
                t = const['TARGET'] + '.' + const.get('NAMES', {}).get(f.name, f.name).replace('____', '.__', 1)
                if f.name in const.get('NAMES', {}):
                    pass
                elif '____' in f.name:
                    t = const['TARGET'] + '.' + f.name.replace('____', '.__', 1)
                elif '__' in f.name.strip('_'):
                    t = const['TARGET'] + '.' + f.name.replace('__', '.', 1)
                out.append(Contract(m, f.name, t, const['PROPERTY'], const.get('VIA')))
        for a, b in const.get('ALIASES', {}).items():
            out.append(Contract(m, None, const['TARGET'] + '.' + a, const['PROPERTY'], alias=const['TARGET'] + '.' + b))
    for c in out:
        if not c.via:
            w.contracts.add(c.target)
    return out


def find(w, q):
    """(module, class or None, definition)"""
    parts = q.split('.')
    for i in range(len(parts) - 1, 0, -1):
        m = w.module('.'.join(parts[:i]))
        if m is not None:
            break
    else:
        return None
    rest = parts[i:]
    d = m.names.get(rest[0])
    if len(rest) == 1:
        return (m, None, d) if isinstance(d, ast.FunctionDef) else None
    if isinstance(d, ast.ClassDef):
        for x in d.body:
            if isinstance(x, ast.FunctionDef) and x.name == rest[1]:
                return m, d.name, x
    return None


def params(a):
    out = []
    pos = a.posonlyargs + a.args
    nd = len(pos) - len(a.defaults)
    for i, p in enumerate(pos):
        out.append(('pos', p.arg, ann_sort(p.annotation), ast.dump(a.defaults[i - nd]) if i >= nd else None))
    if a.vararg:
        out.append(('var', a.vararg.arg, ann_sort(a.vararg.annotation), None))
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        out.append(('kw', p.arg, ann_sort(p.annotation), ast.dump(d) if d is not None else None))
    if a.kwarg:
        out.append(('kwargs', a.kwarg.arg, ann_sort(a.kwarg.annotation), None))
    return out


def symbols(a, cls):
    b = {}
    for i, (k, n, s, _) in enumerate(params(a)):
        if k == 'var':
            b[n] = ('lst', (('all', ('sym', n, ('list', s))),))
        elif k == 'kwargs':
            b[n] = ('sym', n, ('dict', 'str', s))
        elif i == 0 and cls and n in ('self', 'cls'):
            b[n] = ('sym', n, ('inst', cls) if n == 'self' else 'any')
        else:
            b[n] = ('sym', n, s)
    return b


def outcome(E, run, names):
    """What a run returns or raises, and its effects: the events, and the fields it leaves (those whose names the specifications know: a field they never read or write is nobody else's business)."""
    E.heap[0] = ('lst', ())
    E.fields.clear()
    effects = lambda: (E.close(E.heap[0]),) + tuple(('fld', o, a, E.close(v)) for (o, a), v in sorted(E.fields.items(), key=repr) if a in names)
    try:
        return ('ok', ('tup', (E.close(run()),) + effects()))
    except PyRaise as e:
        return ('raise', e.cls, ('tup', effects()))


def prove(w, c):
    """dict(status, obligations, discharged, fails, ...)"""
    t0 = time.time()
    r = dict(contract=c.target, case='', function='', status='', obligations=0, discharged=0, fails=[], why='', secs=0.0, ext=[], models=[])
    try:
        _prove(w, c, r)
    except Unsupported as e:
        r['status'], r['why'] = 'unsupported', str(e)
    except (RecursionError, ValueError, KeyError, IndexError, TypeError, AttributeError, z3.Z3Exception) as e:
        if os.environ.get('PYV_DEBUG'):
            raise
        r['status'], r['why'] = 'unsupported', 'the prover: %s: %s' % (type(e).__name__, e)
    r['secs'] = time.time() - t0
    return r


def fail(r, kind, code, spec, conds=()):
    r['fails'].append(dict(kind=kind, code=code, specification=spec, conditions=list(conds)))


def _prove(w, c, r):
    if c.alias:
        m, n = c.target.rsplit('.', 1)
        E = Engine(w)
        a, b = (w.module(x.rsplit('.', 1)[0]).get(x.rsplit('.', 1)[1], E) for x in (c.target, c.alias))
        r['function'], r['obligations'] = c.target, 1
        if a is None or a != b:
            r['status'] = 'failed'
            fail(r, 'alias', '%s is %s' % (c.target, a), 'the function %s' % c.alias)
        else:
            r['status'], r['discharged'] = 'discharged', 1
        return
    f = find(w, c.target)
    if f is None:
        r['status'], r['why'] = 'unsupported', 'anchor lost: no such function'
        return
    mod, cls, d = f
    r['function'] = c.target
    sd = c.spec.names[c.name]
    sp, dp = params(sd.args), params(d.args)
    if c.via:
        sp = sp[1:]
    r['obligations'] += 1
    if not d.decorator_list:      # nothing enforces the annotations
        sp, dp = ([(k, n, x) for k, n, _, x in y] for y in (sp, dp))
    if sp != dp:
        fail(r, 'signature', str(dp), str(sp))
    else:
        r['discharged'] += 1
    if sd.decorator_list:
        r['obligations'] += 1
        ds, dd = ([ast.unparse(x) for x in y.decorator_list] for y in (sd, d))
        if ds != dd:
            fail(r, 'decorator', str(dd), str(ds))
        else:
            r['discharged'] += 1
    E = Engine(w)
    known = {x.attr for x in ast.walk(c.spec.tree) if isinstance(x, ast.Attribute)}

    def run():
        env = symbols(sd.args, cls)
        call = lambda d, m, b: E.inline(d, dict(b), m, {})
        if c.via:
            df = env[sd.args.args[0].arg]
            code = outcome(E, lambda: E.call_via(E.inline(d, {p[1]: env[p[1]] for p in sp}, mod, {}), c.via, df), known)
        else:
            code = outcome(E, lambda: call(d, mod, env), known)
        spec = outcome(E, lambda: call(sd, c.spec, env), known)
        if code[0] == spec[0] == 'raise':
            return (code[1] == spec[1] or not exact(c)) and E.same(code[2], spec[2]), code, spec
        return code[0] == spec[0] and E.same(code[1], spec[1]), code, spec
    if sp == dp:
        for trail, (ok, code, spec) in E.explore(run):
            r['obligations'] += 1
            if ok:
                r['discharged'] += 1
            else:
                fail(r, 'post', out(code), out(spec), ['%s%s' % ('' if v else 'not ', show(a, 300)) for a, v in trail])
    r['ext'] = sorted(E.ext)
    r['used'] = sorted(E.used)
    r['status'] = 'discharged' if not r['fails'] else 'failed'


def exact(c):
    return c.prop in ('C21', 'C29')


def out(o):
    ev, *fs = o[2][1] if o[0] == 'raise' else o[1][1][1:]
    done = ' after ' + show(canon(ev), 3000) if ev != ('lst', ()) else ''
    done += ''.join('; %s.%s = %s' % (show(f[1]), f[2], show(canon(f[3]), 1000)) for f in fs)
    return ('raises ' + o[1] if o[0] == 'raise' else show(canon(o[1][1][0]), 3000)) + done
