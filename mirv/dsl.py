"""The specification language: contracts are Python functions over terms.

The same specification runs symbolically (inside a path of the verifier, where `is_`, `eq`, `when` fork)
and concretely (as the oracle used when a failed obligation is replayed against the compiled crate).
"""
import re
from .terms import *
from . import terms as TT
from .exec import Exec, MRef, It
from . import models as M


class G:
    X = None            # the executor
    fns = {}            # opaque contract functions
    contracts = []      # all contracts
    short = {}


class Some:
    def __init__(self, v):
        self.v = v


SEGOPS = ('one', 'all', 'fm')


# ------------------------------------------------------------------ types
def tyid(name):
    """Type index of the ADT with this name ('pyspark::ast::Expr' or a unique suffix)."""
    r = G.short.get(name)
    if r is None:
        c = [i for i, t in enumerate(G.X.ty.t) if t['k'] == 'adt' and not t.get('box') and (t['name'] == name or t['name'].endswith('::' + name))]
        if not c:
            raise Unsupported('anchor lost: type ' + name)
        nt = {G.X.ty.t[i]['name'] for i in c}
        if len(nt) > 1:
            raise Unsupported('anchor lost: ambiguous type %s %s' % (name, nt))
        r = G.short[name] = c[0]
    return r


def opt_of(elem):
    """Option<elem> type index for an element type index."""
    for i, t in enumerate(G.X.ty.t):
        if t['k'] == 'adt' and t['name'] == 'std::option::Option' and t['args'] and G.X.ty.peel(t['args'][0]) == elem:
            return G.X.ty.peel(i)
    t = next(t for t in G.X.ty.t if t['k'] == 'adt' and t['name'] == 'std::option::Option')
    vs = [dict(v, fields=[[f[0], elem] for f in v['fields']]) for v in t['variants']]
    G.X.ty.t.append(dict(t, args=[elem], variants=vs, s='std::option::Option<%s>' % G.X.ty.get(elem)['s']))
    return len(G.X.ty.t) - 1


def tuple_of(*tys):
    """Type index of the tuple of the given types (added to the table if the program has no such type)."""
    X = G.X
    for i, t in enumerate(X.ty.t):
        if t['k'] == 'tuple' and tuple(X.ty.peel(x) for x in t['ts']) == tys:
            return i
    X.ty.t.append({'k': 'tuple', 'ts': list(tys), 's': '(spec tuple %d)' % len(X.ty.t)})
    return len(X.ty.t) - 1


def sorted_set(s):
    """The distinct elements of the list, sorted."""
    from .models import set_order
    if G.X.concrete:
        return seq([lit(x) for x in sorted({g.args[0].args[0] for g in G.X.segs(coerce(s))})])
    return G.X.canon(mk('seq', set_order(G.X, mk('set', G.X.segs(coerce(s))), 'set.sorted')))


def coerce(v, ty=None):
    E = G.X.ty
    if isinstance(v, T):
        return v
    k = None
    if ty is not None:
        ty = E.peel(ty)
        t = E.get(ty)
        k = E.kind(ty)
        if t.get('name') == 'std::option::Option':
            if v is None:
                return mk('adt', (0,), ty)
            if isinstance(v, Some):
                return mk('adt', (1, coerce(v.v, t['args'][0])), ty)
            raise TypeError('option expected, got %r' % (v,))
    if isinstance(v, str):
        return lit(v)
    if isinstance(v, bool):
        return B(v)
    if isinstance(v, int):
        return I(v)
    if isinstance(v, float):
        return mk('float', (v,))
    if isinstance(v, (list, tuple)):
        if isinstance(v, tuple):
            ts = E.get(ty)['ts'] if ty is not None and E.get(ty)['k'] == 'tuple' else [None] * len(v)
            return mk('tup', tuple(coerce(x, y) for x, y in zip(v, ts)))
        ety = E.elem(ty) if ty is not None else None
        return mk('seq', tuple(x if isinstance(x, T) and x.op in SEGOPS else one(coerce(x, ety)) for x in v))
    raise TypeError('cannot make a term of %r for type %s' % (v, ty and E.get(ty)['s']))


class Ctor:
    def __init__(self, ty, v):
        self.ty, self.v = ty, v
        self.fields = G.X.ty.variants(ty)[v]['fields']

    def __call__(self, *a, **kw):
        fs = self.fields
        if kw:
            if a or set(kw) != {f[0] for f in fs}:
                raise Unsupported('anchor lost: fields of %s are %s' % (G.X.ty.vname(self.ty, self.v), [f[0] for f in fs]))
            a = [kw[f[0]] for f in fs]
        elif len(a) != len(fs):
            raise Unsupported('anchor lost: fields of %s are %s' % (G.X.ty.vname(self.ty, self.v), [f[0] for f in fs]))
        return mk('adt', (self.v,) + tuple(coerce(x, f[1]) for x, f in zip(a, fs)), G.X.ty.peel(self.ty))


class NS:
    """NS('pyspark::ast').Expr.Column(x)  /  NS(...).Struct(field=..)"""

    def __init__(self, mod):
        self.mod = mod

    def __getattr__(self, n):
        return TyNS(self.mod + '::' + n)


class TyNS:
    def __init__(self, name):
        self._name = name

    def ty(self):
        return tyid(self._name)

    def __getattr__(self, n):
        ty = tyid(self._name)
        for i, v in enumerate(G.X.ty.variants(ty)):
            if v['name'] == n:
                return Ctor(ty, i)
        raise Unsupported('anchor lost: variant %s of %s' % (n, self._name))

    def __call__(self, *a, **kw):
        ty = tyid(self._name)
        return Ctor(ty, 0)(*a, **kw)


P = NS('pyspark::ast')
PB = NS('pyspark::base')
S = NS('spl::ast')
PT = NS('pyspark::transpiler')


# ------------------------------------------------------------------ inspection
def is_(t, *names):
    """Does enum term t have one of the named variants?  (decides)"""
    E = G.X
    t = E.canon(t)
    vs = E.ty.variants(t.ty)
    w = {i for i, v in enumerate(vs) if v['name'] in names}
    if len(w) != len(set(names)):
        raise Unsupported('anchor lost: variants %s of %s' % (names, E.ty.get(t.ty)['s']))
    return E.variant_switch(t, [w]) == 0


def kind(t):
    E = G.X
    t = E.canon(t)
    return E.ty.variants(t.ty)[E.variant_of(t)]['name']


def g(t, name):
    """Field of a struct / of the decided variant of an enum."""
    E = G.X
    t = E.canon(t)
    if t.op == 'tup':
        return E.canon(t.args[name])
    if t.ty is None:
        raise Unsupported('field %s of %s' % (name, t))
    if E.ty.get(t.ty)['k'] == 'tuple':
        return E.canon(E.proj(t, 0, name, E.ty.get(t.ty)['ts'][name]))
    vs = E.ty.variants(t.ty)
    v = t.args[0] if t.op == 'adt' else (0 if len(vs) == 1 else None)
    if v is None:
        c = [i for i, x in enumerate(vs) if any(f[0] == str(name) for f in x['fields'])]
        if len(c) != 1:
            raise Unsupported('field %s of undecided %s' % (name, t))
        v = c[0]
        if E.variant_switch(t, [{v}]) != 0:
            raise Infeasible()
    for i, f in enumerate(vs[v]['fields']):
        if f[0] == str(name):
            return E.canon(E.field(t, i, None, v))
    raise Unsupported('anchor lost: field %s of %s' % (name, E.ty.vname(t.ty, v)))


def _getattr(self, n):
    if n[0] == '_' and n[1:2] != '_':
        n = n[1:]
        return g(self, int(n) if n.isdigit() else n)
    raise AttributeError(n)


T.__getattr__ = _getattr


def some(o):
    """Option term -> its value, or None.  (decides)"""
    E = G.X
    o = E.canon(o)
    if E.variant_switch(o, [{0}]) == 0:
        return None
    return E.canon(E.canon(o).args[1])


def eq(a, b):
    E = G.X
    return E.truth(E.canon(mk('eq', (E.canon(coerce(a)), E.canon(coerce(b))))))


def one_of(a, *ls):
    return any(eq(a, l) for l in ls)


def true(t):
    return G.X.truth(t)


def lt(a, b):
    return G.X.truth(G.X.canon(mk('ilt', (G.X.canon(coerce(a)), G.X.canon(coerce(b))))))


def le(a, b):
    return G.X.truth(G.X.canon(mk('ile', (G.X.canon(coerce(a)), G.X.canon(coerce(b))))))


def add(a, b):
    return G.X.canon(mk('iadd', (coerce(a), coerce(b))))


def sub(a, b):
    return G.X.canon(mk('isub', (coerce(a), coerce(b))))


def fail(why=''):
    raise SpecErr(why)


def requires(c):
    """Precondition of the contract: outside it nothing is promised."""
    if not c:
        raise Infeasible()


def cat(*parts):
    """String concatenation; every part is a string term."""
    return G.X.canon(mk('cat', tuple(coerce(p) for p in parts)))


def _typed_app(name, args, ty):
    return G.X.canon(mk('app', (name,) + tuple(G.X.canon(coerce(a)) for a in args), ty))


def STRT():
    return G.X.ty.find('std::string::String')


def sfun(name, *args):
    return _typed_app(name, args, STRT())


def bfun(name, *args):
    return G.X.truth(_typed_app(name, args, G.X.ty.find('bool')))


def contains(s, p):
    return bfun('str.contains', s, p)


def starts_with(s, p):
    return bfun('str.starts_with', s, p)


def matches(s, regex):
    """Does the (constant) regular expression match somewhere in the text?"""
    return bfun('regex.is_match', mk('app', ('regex', coerce(regex)), None), s)


def inner(s):
    """The text without its first and last byte."""
    return sfun('str.slice', s, 1, G.X.canon(mk('isub', (_typed_app('str.len', (s,), G.X.ty.find('usize')), I(1)))))


def table(rows, *tys):
    """A constant table of the program with these rows; folds over it are over an arbitrary row."""
    v = G.X.canon(coerce(rows))
    return v if G.X.concrete or len(v.args) <= 8 else G.X.table(v, tuple_of(*[G.X.ty.peel(t) for t in tys]))


def ends_with(s, p):
    return bfun('str.ends_with', s, p)


def replace(s, a, b):
    return sfun('str.replace', s, a, b)


def itos(n):
    """decimal form of an integer"""
    return sfun('itos', n)


def btos(b):
    return sfun('btos', b)


def ftos(x):
    """Display form of a double"""
    return sfun('ftos', x)


def dtos(x):
    """Display of an int / double / string / bool term by its type"""
    E = G.X
    x = E.canon(coerce(x))
    if x.op == 'lit' or x.op == 'cat':
        return x
    k = E.ty.kind(x.ty) if x.ty is not None else {'int': 'int', 'float': 'float', 'bool': 'bool'}.get(x.op, 'int')
    return {'int': itos, 'float': ftos, 'bool': btos, 'str': lambda y: y}[k](x)


# ------------------------------------------------------------------ sequences
def caps_of(f, depth=0):
    b = EMPTY
    if isinstance(f, T):
        return f.bv
    if depth > 4:
        return b
    if isinstance(f, (list, tuple)):
        for x in f:
            b = b | caps_of(x, depth + 1)
        return b
    if isinstance(f, dict):
        for x in f.values():
            b = b | caps_of(x, depth + 1)
        return b
    if hasattr(f, 'bvs'):
        return f.bvs
    c = getattr(f, '__closure__', None)
    if c:
        for cell in c:
            try:
                b = b | caps_of(cell.cell_contents, depth + 1)
            except ValueError:
                pass
    d = getattr(f, '__defaults__', None)
    if d:
        b = b | caps_of(d, depth + 1)
    return b


def seq(v):
    return G.X.canon(coerce(list(v) if isinstance(v, (list, tuple)) else v))


def segs(s):
    return G.X.segs(seq(s))


def lam(f, ety, many=False):
    def call(x):
        try:
            r = f(x)
        except SpecErr:
            return ('err',)
        if many:
            return ('ok', G.X.canon(seq(r)))
        return ('ok', vec(G.X.canon(coerce(r))))
    return Lam(call, ety, caps_of(f), 'spec:' + getattr(f, '__name__', '?'))


def fmap(f, s, many=False):
    """[f(x) for x in s]; fails if f fails on some element (decides).  f returns one value, or a list if many."""
    E = G.X
    out = []
    ss = segs(s)
    for gsg in ss:
        if gsg.op == 'one':
            r = f(gsg.args[0])
            if many:
                out.extend(E.segs(seq(r)))
            else:
                out.append(one(E.canon(coerce(r))))
        else:
            if gsg.op == 'fm':
                l = compose(E, lam(f, None, many), gsg.args[0])
                src = gsg.args[1]
            else:
                l = lam(f, E.ty.elem(gsg.args[0].ty), many)
                src = gsg
            if may_fail(l):
                ok = E.canon(mk('allok', (Lam(lambda x, l=l: ('ok', UNIT) if l.call(x)[0] == 'ok' else ('err',), l.ety, l.bvs, 'ok:' + l.label), src)))
                if not E.truth(ok):
                    raise SpecErr()
            out.append(mk('fm', (l, src)))
    return E.canon(mk('seq', tuple(out)))


def may_fail(l):
    E = G.X
    n = E.bvar_id()
    x = E.bvar_of(n, l.ety)
    r = [False]

    def on(k, v, p):
        if k != 'ret' or v[0] != 'ok':
            r[0] = True
    E.explore(lambda: l.call(x), on, local=frozenset((n,)))
    return r[0]


def flatmap(f, s):
    return fmap(f, s, many=True)


def filt(p, s):
    return flatmap(lambda x: [x] if p(x) else [], s)


def join(sep, s):
    return G.X.canon(mk('join', (coerce(sep), seq(s))))


def concat(*ss):
    out = []
    for s in ss:
        out.extend(segs(s))
    return G.X.canon(mk('seq', tuple(out)))


def uncons(s):
    """None if empty, else (head, tail).  (decides)"""
    r = G.X.force_cons(seq(s))
    if r is None:
        return None
    return G.X.canon(r[0]), G.X.canon(r[1])


def empty(s):
    return M.is_empty(G.X, seq(s))


def emptyp(s):
    r = empty(s)
    return r if isinstance(r, bool) else G.X.truth(r)


def foldl(f, init, s):
    """Left fold with state tuple/term; f(state, x) -> state; may fail."""
    E = G.X
    tup = isinstance(init, tuple)
    st = [coerce(x) for x in (init if tup else (init,))]
    seqtys = [x.ty if x.op == 'seq' else None for x in st]
    st = [E.canon(x) for x in st]

    def app(stv, x):
        r = f(tuple(stv) if tup else stv[0], x)
        return [E.canon(coerce(y)) for y in (r if tup else (r,))]
    for gsg in segs(s):
        if gsg.op == 'one':
            st = app(st, gsg.args[0])
            continue
        if gsg.op == 'fm':
            ety, src, l0 = gsg.args[0].ety, gsg.args[1], gsg.args[0]
        else:
            ety, src, l0 = E.ty.elem(gsg.args[0].ty), gsg, None
        tys = tuple(t or foldty(E, x) for x, t in zip(st, seqtys))

        def call(xx):
            sv = list(xx.args[:-1])
            try:
                if l0 is None:
                    es = (one(xx.args[-1]),)
                else:
                    r = l0.call(xx.args[-1])
                    if r[0] != 'ok':
                        return ('err',)
                    es = E.segs(r[1])
                for e in es:
                    if e.op != 'one':
                        raise Unsupported('nested fold in spec')
                    sv = app(sv, e.args[0])
            except SpecErr:
                return ('err',)
            return ('ok', mk('tup', tuple(sv)))
        b = caps_of(f) | (l0.bvs if l0 is not None else EMPTY)
        l = Lam(call, tys + (ety,), b, 'specfold')
        init_t = mk('tup', tuple(st))
        fail_kind = fold_fail(l, len(st))
        if fail_kind == 'state':
            if not E.truth(E.canon(mk('foldok', (l, init_t, src)))):
                raise SpecErr()
        elif fail_kind == 'elem':
            def okc(x):
                accs = [E.bvar_of(('facc', i), t) for i, t in enumerate(tys)]
                r = l.call(mk('tup', tuple(accs) + (x,)))
                return ('ok', UNIT) if r[0] == 'ok' else ('err',)
            if not E.truth(E.canon(mk('allok', (Lam(okc, ety, b, 'specfoldok'), src)))):
                raise SpecErr()
        st = [E.canon(mk('fold', (l, I(i), init_t, src), tys[i])) for i in range(len(st))]
    return tuple(st) if tup else st[0]


def foldty(E, x):
    if x.ty is not None:
        return E.ty.peel(x.ty)
    if x.op in ('lit', 'cat', 'join', 'smap'):
        return STRT()
    if x.op in ('bool', 'not', 'and', 'or'):
        return E.ty.find('bool')
    raise Unsupported('type of fold state %s' % x)


def fold_fail(l, n):
    E = G.X
    b = E.bvar_id()
    accn = [b + ('acc', i) for i in range(n)]
    accs = [mk('bvar', (accn[i], 0), l.ety[i]) for i in range(n)]
    x = E.bvar_of(b, l.ety[-1])
    res = [None]
    an = frozenset(accn)

    def on(k, v, p):
        if k != 'ret' or v[0] != 'ok':
            if any(key.bv & an for key, _ in p.log):
                res[0] = 'state'
            elif res[0] is None:
                res[0] = 'elem'
    E.explore(lambda: l.call(mk('tup', tuple(accs) + (x,))), on, local=frozenset([b] + accn))
    return res[0]


# ------------------------------------------------------------------ results
class Err_:
    pass


ERRV = Err_()


def attempt(f):
    """Run a specification; ERRV if it fails."""
    try:
        return f()
    except SpecErr:
        return ERRV


# ------------------------------------------------------------------ contracts
def candidates(X):
    """Functions a contract can be written on."""
    c = X.__dict__.get('contract_fns')
    if c is None:
        c = X.contract_fns = [(k, f['name']) for k, f in X.F.items() if f['body'] and f['local'] and '{closure' not in f['name']]
    return c


class Contract:
    """A contract on the function(s) of the crate whose name matches `pattern`.

    result: True if the function returns Result<..>; `spec(*args)` returns the value or calls fail().
    out:    index of a `&mut` collection parameter that the function only adds to; the specification does not take
            it, and returns (value, elements added) (or just the elements added if the value is ()).
    opaque: callers see only the contract: call sites become uninterpreted applications of the
            specification function `name` (the function's own body is verified against `spec`).
    """

    def __init__(self, name, pattern, spec, result, opaque, view=None, post=None, unfold=None, props=(), cases=None, wrap=None, apptype=None, out=None, total=False, parser=False):
        self.out = out
        self.parser = parser     # it returns IResult; its errors are recoverable (nom::Err::Error)
        self.total = total       # it never fails
        self.const = None        # its value, when that does not depend on the arguments
        self.ground = None       # its value on ground arguments, where the specification is not executable
        self.wrap, self.apptype = wrap, apptype
        self.cases = cases or [('', None, '')]
        self.name, self.pattern, self.spec, self.result, self.opaque = name, pattern, spec, result, opaque
        self.rx = re.compile(pattern)
        self.view = view or (lambda *a: a)
        self.post = post
        self.unfold = unfold
        self.props = tuple(props)
        self.retty = None
        self._keys = None

    def keys(self):
        if self._keys is None:
            self._keys = [k for k, n in candidates(G.X) if self.rx.search(n)]
        return self._keys

    def ret(self):
        """type index of the (Ok) result"""
        if self.retty is None:
            ks = self.keys()
            if not ks:
                raise Unsupported('anchor lost: no function matches ' + self.pattern)
            b = G.X.body(ks[0])
            t = G.X.ty.peel(b.locals[0])
            if self.result:
                t = G.X.ty.peel(G.X.ty.get(t)['args'][0])
            self.retty = t
        return self.retty

    # -- as seen by specifications
    def __call__(self, *args):
        X = G.X
        args = [X.canon(coerce(a)) for a in args]
        if X.concrete and self.ground is not None:
            return X.canon(coerce(self.ground(*args), self.ret()))
        if self.out is None and not self.keys():
            return X.canon(coerce(self.spec(*args), self.apptype() if self.apptype and not self.wrap else None))
        if X.concrete or not self.opaque:
            return X.canon(coerce(self.spec(*args), self.ret() if self.out is None else None if self.unit() else self.apptype()))
        if self.unfold is not None and self.unfold(*args):
            return X.canon(coerce(self.spec(*args), self.ret()))
        v = self.view(*args)
        if self.result and not self.total:
            if not X.truth(_typed_app(self.name + '.ok', v, X.ty.find('bool'))):
                raise SpecErr()
        return self.app(v, args)

    def app(self, v, args):
        if self.const is not None:
            return self.const
        r = _typed_app(self.name, v, self.apptype() if self.apptype else self.ret())
        if self.wrap:
            r = self.wrap(r, *args)
            if r is None or isinstance(r, Some):
                r = coerce(r, self.ret())
        return r

    def err(self, X, ty):
        if self.parser:
            from .nomm import nomerr
            return X.err(ty, nomerr(X, X.ty.get(X.ty.peel(ty))['args'][1]))
        return X.err(ty)

    # -- as seen by callers in the code
    def handler(self, X, fj, args, destty):
        if X.concrete:
            return NotImplemented
        if self.out is not None:
            return self.out_handler(X, args, destty)
        args = [X.canon(X.deref(a)) for a in args]
        if self.unfold is not None and self.unfold(*args):
            return NotImplemented
        v = self.view(*args)
        if self.result:
            if not self.total and not X.truth(_typed_app(self.name + '.ok', v, X.ty.find('bool'))):
                return self.err(X, destty)
            return X.ok(destty, self.app(v, args))
        return self.app(v, args)


    def out_handler(self, X, args, destty):
        m = args[self.out]
        args = [X.canon(X.deref(a)) for i, a in enumerate(args) if i != self.out]
        v = self.view(*args)
        if self.result:
            if not X.truth(_typed_app(self.name + '.ok', v, X.ty.find('bool'))):
                return X.err(destty)
        r = self.const if self.const is not None else _typed_app(self.name, v, self.apptype())
        val, new = (None, r) if self.unit() else r.args
        cur = X.deref(m)
        if cur.op not in ('seq', 'set'):
            if X.ty.kind(cur.ty) != 'seq':
                raise Unsupported('collection of unknown contents')
            cur = mk('seq', (allseg(cur),))
        X.write(m.frame, m.local, m.path, mk(cur.op, cur.args + X.segs(new)))
        if self.unit():
            val = mk('tup', ())
        return X.ok(destty, val) if self.result else val

    def unit(self):
        t = G.X.ty.get(self.ret())
        return t['k'] == 'tuple' and not t['ts']


REG = []


def impl(trait, m, ty):
    """Pattern of the method `m` of `impl trait for ty`."""
    t = trait + r'(<.*>)?'
    return r'(^<(\S*::)?%s as (\S*::)?%s>::%s$|<impl (\S*::)?%s for (\S*::)?%s>::%s$)' % (ty, t, m, t, ty, m)


def inh(ty, m):
    """Pattern of the inherent method or associated function `m` of type `ty`."""
    return r'(^|::|<impl (\S*::)?)%s(::<.*>)?>?::%s$' % (ty, m)


def contract(name, pattern, result=False, opaque=False, view=None, unfold=None, props=(), cases=None, wrap=None, apptype=None, out=None, total=False, parser=False):
    def deco(f):
        c = Contract(name, pattern, f, result, opaque, view=view, unfold=unfold, props=props, cases=cases, wrap=wrap, apptype=apptype, out=out, total=total, parser=parser)
        REG.append(c)
        return c
    return deco


def install(X):
    """Bind the registered contracts to executor X."""
    G.X = X
    G.short = {}
    X.abstract = []
    for c in REG:
        c._keys = None
        c.retty = None
        if c.opaque:
            keys = set(c.keys())
            X.abstract.append((lambda fj, names=frozenset(X.F[k]['name'] for k in keys): fj['name'] in names, c.handler))


def concrete_seq(v):
    """True if the list has a known length."""
    return all(s.op == 'one' for s in segs(v))


def shape(s, n):
    """Case assumption: the list has at most n elements (fixes its length)."""
    for _ in range(n):
        r = uncons(s)
        if r is None:
            return
        s = r[1]
    requires(emptyp(s))


def match_name(name, table):
    """The key of `table` that the string equals, or None (decides)."""
    name = G.X.canon(coerce(name))
    if name.op == 'lit':
        return name.args[0] if name.args[0] in table else None
    for k in table:
        if eq(name, k):
            return k
    return None


def find_ty(s):
    for i, t in enumerate(G.X.ty.t):
        if t['s'] == s:
            return i
    raise Unsupported('anchor lost: type ' + s)


def parse_u32(s):
    """The value of a decimal numeral; fails if it is not one (decides)."""
    if G.X.concrete:
        v = G.X.canon(coerce(s)).args[0]
        if not re.fullmatch(r'\+?[0-9]+', v) or int(v) >= 2**32:
            fail('not a number')
        return I(int(v))
    r = G.X.canon(mk('app', ('str.parse', coerce(s)), find_ty('std::result::Result<u32, std::num::ParseIntError>')))
    if G.X.variant_switch(r, [{0}]) != 0:
        fail('not a number')
    return G.X.canon(G.X.canon(r).args[1])


def parse_num(s, ty, bits):
    """The value of an unsigned numeral as a number of the given type; fails if it does not fit (decides)."""
    if G.X.concrete:
        v = G.X.canon(coerce(s)).args[0]
        if not re.fullmatch(r'[0-9]+', v) or int(v) >= 2**bits:
            fail('not a number')
        return I(int(v))
    r = G.X.canon(mk('app', ('str.parse', coerce(s)), find_ty('std::result::Result<%s, std::num::ParseIntError>' % ty)))
    if G.X.variant_switch(r, [{0}]) != 0:
        fail('not a number')
    return G.X.canon(G.X.canon(r).args[1])


def fdiv(a, b):
    if G.X.concrete:
        return mk('float', (coerce(a).args[0] / float(b),))
    return G.X.canon(mk('app', ('fDiv', coerce(a), mk('float', (float(b),)) if isinstance(b, (int, float)) else b), G.X.ty.find('f64')))


def i2f(n):
    if G.X.concrete:
        return mk('float', (float(n.args[0]),))
    return G.X.canon(mk('app', ('i2f', n), G.X.ty.find('f64')))


def fresh(counter):
    """The next number of the shared counter."""
    return G.X.fresh_name(G.X.canon(counter))
