"""Discharge the obligations of one contract against the MIR of the function it is written on."""
import time, traceback
from .terms import *
from .dsl import G, SpecErr, coerce
from . import dsl
from .exec import Frame, MRef


class Fail:
    args = ()      # the arguments (terms)

    def __init__(self, kind, log, code, spec, path):
        self.kind, self.log, self.code, self.spec, self.path = kind, log, code, spec, path


class Result:
    def __init__(self):
        self.status, self.paths, self.why, self.fails = 'discharged', 0, '', []
        self.obligations = 0
        self.discharged = 0


def split_result(X, v, retty, parser=False):
    """Result value of the code -> ('ok', term) | ('err',)"""
    v = X.canon(v)
    if X.variant_of(v) == 0:
        return ('ok', X.canon(X.canon(v).args[1]))
    if parser:
        e = X.canon(X.canon(v).args[1])
        if not X.ty.vname(e.ty, X.variant_of(e)).endswith('Error'):
            return ('failure',)
    return ('err',)


TIMEOUT = 120


def prove(X, c, key, args=None, timeout=TIMEOUT, requires=None, case=None):
    """One obligation per path of the function: it does not panic, it fails exactly when the specification
    fails, and its value equals the specification's."""
    r = Result()
    b = X.body(key)
    X.deadline = time.time() + timeout
    X.path = None
    X.nofork = None
    X.frames = []
    X.steps = 0
    X.parsing = c.parser

    def go():
        X.frames = []
        a = args() if args else [mk('var', ('a%d' % i,), X.ty.peel(b.locals[1 + i])) for i in range(b.nargs) if i != c.out]
        r.args = list(a)
        if requires is not None:
            requires(*a)
        if case is not None and case[1] is not None:
            case[1](*a)
        if getattr(c, 'pre', None) is not None:
            c.pre(*a)
        try:
            ca = list(a)
            if c.out is not None:
                hold = Frame(None, Caller(X.ty.peel(b.locals[1 + c.out])), 'caller')
                X.frames = [hold]
                hold.locals = [mk(outop(X, b.locals[1 + c.out]), (OLD,))]
                ca.insert(c.out, MRef(hold, 0))
            v = X.deref(X.call_key(key, ca))
            if c.out is not None:
                code = split_result(X, v, b.locals[0]) if c.result else ('ok', X.canon(v))
                if code[0] == 'ok':
                    code = ('ok', added(X, c, code[1], hold.locals[0]))
            elif c.result:
                code = split_result(X, v, b.locals[0], c.parser)
            else:
                code = ('ok', X.canon(v))
        except PanicExc as e:
            code = ('panic', e.why, e.where)
        n = X.path.freshn
        X.path.freshn = 0
        try:
            s = c.spec(*a)
            if c.out is not None and not c.unit():
                spec = ('ok', mk('tup', (X.canon(coerce(s[0], c.ret())), X.canon(coerce(s[1])))))
            else:
                spec = ('ok', X.canon(coerce(s, None if c.out is not None else c.ret())))
        except SpecErr:
            spec = ('err',)
        ok = code[0] == spec[0] and (code[0] != 'ok' or X.equal(code[1], spec[1]))
        return ok, code, spec

    def on(kind, v, p):
        r.paths += 1
        r.obligations += 1
        if kind == 'ret' and v[0]:
            r.discharged += 1
            return
        if kind == 'ret':
            r.fails.append(Fail('panic' if v[1][0] == 'panic' else 'post', list(p.log), v[1], v[2], p))
        else:
            r.fails.append(Fail(kind, list(p.log), getattr(v, 'why', v), getattr(v, 'where', ''), p))
    try:
        X.explore(go, on)
        if r.fails:
            r.status = 'failed'
            for f in r.fails:
                f.args = r.args
    except Unsupported as e:
        tb = traceback.extract_tb(e.__traceback__)
        r.status, r.why = 'unsupported', '%s @ %s in %s' % (str(e)[:300], [(f.name, f.lineno) for f in tb][-3:], [f.name[-60:] for f in X.frames][-4:])
    if r.paths == 0 and r.status == 'discharged':
        r.status, r.why = 'unsupported', 'vacuous: no feasible path'
    X.deadline = None
    return r


class Caller:
    """The frame that owns the collection passed by reference."""
    def __init__(self, ty):
        self.locals = [ty]


# the elements that the collection had before the call
OLD = mk('all', (mk('var', ('old',), None),))


def outop(X, ty):
    n = X.ty.get(X.ty.peel(ty)).get('name', '')
    if n == 'std::vec::Vec':
        return 'seq'
    if n == 'std::collections::HashSet':
        return 'set'
    raise Unsupported('out parameter of type ' + n)


def added(X, c, val, now):
    """(value, elements added); the old elements must still be there, in front."""
    if not now.args or now.args[0] is not OLD:
        return mk('opaque', ('the collection lost its old elements',))
    new = X.canon(mk('seq', now.args[1:]))
    return new if c.unit() else mk('tup', (val, new))
