"""nom: the combinators are executed from their own MIR; this file holds the trusted part, that is the leaf
recognisers (tag, digit1, ...) and the repetitions (many0, separated_list0, ...), which become uninterpreted
applications np.ok / np.rest / np.out of the recogniser and the input, evaluated on concrete text."""
from .terms import *
from . import terms as TT
from .exec import *
from .models import model, sapp, bapp, STR
from . import models as M

LEAFS = ('tag', 'tag_no_case', 'take', 'take_until', 'take_while', 'take_while1', 'one_of', 'none_of',
         'digit1', 'digit0', 'alphanumeric1', 'alphanumeric0', 'alpha1', 'alpha0', 'multispace0', 'multispace1', 'space0', 'space1', 'anychar')
LOOPS = ('many0', 'many1', 'many2', 'separated_list0', 'separated_list1')
ALWAYS = ('digit0', 'alphanumeric0', 'alpha0', 'multispace0', 'space0', 'take_while')
CHAROUT = ('one_of', 'none_of', 'anychar')


@model(r'nom::bytes::complete::(tag|tag_no_case|take|take_until|take_while|take_while1)', r'nom::character::complete::(one_of|none_of|char)',
       r'nom::multi::(many0|many1|separated_list0|separated_list1)')
def _ctor(X, f, a, ty):
    k = f['def'].split('::')[-1]
    a = [X.canon(X.deref(x)) for x in a]
    if k == 'char':
        k, a = 'one_of', [lit(chr(a[0].args[0]))]
    if k == 'tag_no_case' and a[0].op == 'lit' and a[0].args[0].upper() == a[0].args[0].lower():
        k = 'tag'
    return mk('np', (k,) + tuple(a), X.ty.peel(ty))


@model(r'nom::multi::many_m_n')
def _many_m_n(X, f, a, ty):
    lo, hi = (X.canon(X.deref(x)) for x in a[:2])
    if lo.op == 'int' and lo.args[0] == 2 and hi.op == 'int' and hi.args[0] == 2 ** 64 - 1:
        return mk('np', ('many2', X.canon(X.deref(a[2]))), X.ty.peel(ty))
    raise Unsupported('many_m_n of other bounds')


@model(r'nom::character::complete::(digit1|digit0|alphanumeric1|alphanumeric0|alpha1|alpha0|multispace0|multispace1|space0|space1|anychar)')
def _leaf(X, f, a, ty):
    return np_call(X, mk('np', (f['def'].split('::')[-1],)), X.deref(a[0]), ty)


def np_call(X, np, i, ty):
    """The recogniser applied to a text, as the IResult of type `ty`."""
    t = X.ty.get(X.ty.peel(ty))
    r = np_apply(X, np, i, X.ty.get(X.ty.peel(t['args'][0]))['ts'][1])
    if r is None:
        return X.err(ty, nomerr(X, t['args'][1]))
    return X.ok(ty, mk('tup', r))


def nomerr(X, ety):
    """Some recoverable parse error (its position and kind are left open)."""
    ety = X.ty.peel(ety)
    for vi, v in enumerate(X.ty.variants(ety)):
        if v['name'] == 'Error':
            return mk('adt', (vi, mk('app', ('nomerr',), X.ty.peel(v['fields'][0][1]))), ety)
    raise Unsupported('anchor lost: nom::Err::Error')


def chars(k):
    return {'digit': lambda c: '0' <= c <= '9', 'alphanumeric': lambda c: c.isascii() and c.isalnum(), 'alpha': lambda c: c.isascii() and c.isalpha(),
            'multispace': lambda c: c in ' \t\r\n', 'space': lambda c: c in ' \t'}[k]


def span(s, p, least):
    n = 0
    while n < len(s) and p(s[n]):
        n += 1
    return None if n < least else (s[n:], s[:n])


def leaf(k, args, s):
    """A leaf on concrete text -> (rest, out) or None (it does not match)."""
    if k == 'tag':
        return (s[len(args[0]):], args[0]) if s.startswith(args[0]) else None
    if k == 'tag_no_case':
        n = len(args[0])
        return (s[n:], s[:n]) if s[:n].lower() == args[0].lower() else None
    if k == 'take':
        return (s[args[0]:], s[:args[0]]) if len(s) >= args[0] else None
    if k == 'take_until':
        n = s.find(args[0])
        return None if n < 0 else (s[n:], s[:n])
    if k == 'anychar':
        return (s[1:], s[0]) if s else None
    if k == 'one_of':
        return (s[1:], s[0]) if s and s[0] in args[0] else None
    if k == 'none_of':
        return (s[1:], s[0]) if s and s[0] not in args[0] else None
    if k[-1] in '01' and k[:-1] in ('digit', 'alphanumeric', 'alpha', 'multispace', 'space'):
        return span(s, chars(k[:-1]), int(k[-1]))
    return NotImplemented


def tag_rel(a, b):
    """The no-case tags a and b on the same text: 'in' if a match of b implies a match of a, 'ex' if both cannot match."""
    a, b = a.lower(), b.lower()
    if b.startswith(a):
        return 'in'
    return None if a.startswith(b) else 'ex'


def np_apply(X, np, i, oty):
    """-> (rest, out) terms, or None if it does not match (decides)."""
    k, args = np.args[0], np.args[1:]
    i = X.canon(i)
    if k == 'tag_no_case' and args[0].op == 'lit' and args[0].args[0].isascii():
        args = (lit(args[0].args[0].lower()),)
    if i.op == 'lit' and all(x.op in ('lit', 'int') for x in args) and k in LEAFS:
        r = leaf(k, [x.args[0] for x in args], i.args[0])
        if r is None:
            return None
        if r is not NotImplemented:
            return lit(r[0]), I(ord(r[1])) if k in CHAROUT else lit(r[1])
    if k in LOOPS:
        args = tuple(canon_lam(X, plam(X, p)) for p in args)
    elif k in ('take_while', 'take_while1'):
        args = (canon_lam(X, clam(X, args[0])),)
    if k not in ALWAYS and not decide(X, k, args, i):
        return None
    key = (k,) + args + (i,)
    rest = sapp(X, 'np.rest', *key)
    if k == 'tag':
        return rest, args[0]
    oty = X.ty.peel(oty)
    if k in LOOPS:
        oty = vec_of(X, X.ty.elem(oty))
        return rest, mk('app', ('np.out',) + key, oty)
    return rest, X.canon(mk('app', ('np.out',) + key, oty if k in CHAROUT else STR(X)))


def vec_of(X, ety):
    """The type Vec<ety>."""
    ety = X.ty.peel(ety)
    for n, t in enumerate(X.ty.t):
        if t['k'] == 'adt' and t.get('name') == 'std::vec::Vec' and X.ty.peel(t['args'][0]) == ety:
            return X.ty.peel(n)
    raise Unsupported('anchor lost: Vec<%s>' % X.ty.get(ety)['s'])


def decide(X, k, args, i):
    t = mk('app', ('np.ok', k) + args + (i,), X.ty.find('bool'))
    c = X.canon(t)
    if c.op == 'bool':
        return c.args[0]
    if k in ('tag', 'tag_no_case') and args[0].op == 'lit':
        # what is known of this text decides some tags
        low = args[0].args[0].lower()
        for q, v in X.path.eqs.items():
            if q.op == 'app' and q.args[0] == 'np.ok' and q.args[-1] is i and v.op == 'bool' and q.args[1] in ('tag', 'tag_no_case') and q.args[2].op == 'lit':
                o, ol = q.args[2].args[0], q.args[2].args[0].lower()
                if v.args[0]:
                    if not ol.startswith(low) and not low.startswith(ol):
                        return False
                    if ol.startswith(low) and (k == 'tag_no_case' or q.args[1] == 'tag' and o.startswith(args[0].args[0])):
                        return True
                elif low.startswith(ol) and (q.args[1] == 'tag_no_case' or k == 'tag' and args[0].args[0].startswith(o)):
                    return False
    return X.truth(c)


# ---------------------------------------------------------------- parsers as functions of the text
def plam(X, p):
    """The parser term as a function text -> (rest, value) | error."""
    if isinstance(p, Lam):
        return p
    cache = X.__dict__.setdefault('np_lams', {})
    l = cache.get(p)
    if l is None:
        def call(x):
            v = X.canon(X.deref(X.call_value(p, [x])))
            if X.variant_of(v) == 0:
                v = X.canon(X.canon(v).args[1])
                return ('ok', mk('tup', parts(X, v)))
            e = X.canon(X.canon(v).args[1])
            return ('err',) if X.ty.vname(e.ty, X.variant_of(e)).endswith('Error') else ('failure',)
        l = cache[p] = Lam(call, STR(X), p.bv, 'parser')
        l.closed = closed(p)
    return l


def parts(X, v):
    v = X.canon(v)
    if v.op == 'tup':
        return v.args
    return tuple(X.canon(X.proj(v, 0, n, t)) for n, t in enumerate(X.ty.get(v.ty)['ts']))


def clam(X, p):
    """A predicate on characters."""
    if isinstance(p, Lam):
        return p
    cache = X.__dict__.setdefault('np_lams', {})
    l = cache.get(p)
    if l is None:
        def call(x):
            return ('ok', B(X.truth(X.deref(X.call_value(p, [x])))))
        l = cache[p] = Lam(call, X.ty.find('char'), p.bv, 'class')
        l.closed = closed(p)
    return l


def closed(t):
    if isinstance(t, T):
        return t.op in ('clo', 'np', 'fndef', 'fnptr', 'lit', 'int', 'bool', 'tup', 'adt', 'seq', 'one') and all(closed(a) for a in t.args)
    return not isinstance(t, Lam) or getattr(t, 'closed', False)


def canon_lam(X, l):
    """The representative of the functions that equal l."""
    if getattr(l, 'closed', False):
        reps = X.__dict__.setdefault('np_reps', {})
        r = reps.get(l)
        if r is None:
            s, names = outcomes(X, l)
            r = reps.get(s)
            if r is None:
                for r, rn in reps.get('all', ()):
                    if r.ety == l.ety and (names <= rn or rn <= names) and same_closed(X, r, l):
                        break
                else:
                    r = l
                    reps.setdefault('all', []).append((l, names))
                reps[s] = r
            reps[l] = r
        return r
    for r in X.path.nplams:
        if r.ety == l.ety and X.lam_equal(r, l, 'np'):
            return r
    X.path.nplams.append(l)
    return l


SIG = ('npc', 0)


def outcomes(X, l):
    """The ways the closed function l takes on an arbitrary argument, and the names of what it depends on."""
    out, names = [l.ety], set()

    def on(kind, v, p):
        r = v if kind != 'ret' else (v[0], X.canon(v[1])) if v[0] == 'ok' else v
        out.append((kind if kind != 'ret' else r, tuple(p.log)))
        if kind == 'ret' and v[0] == 'ok':
            heads(r[1], names)
        for k, _ in p.log:
            heads(k, names)
    closed_explore(X, l.call, l.ety, on, n=SIG, whole=True)
    return tuple(out), frozenset(names)


def heads(t, out, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(t, T) or t in seen:
        return
    seen.add(t)
    if t.op == 'app':
        out.add(t.args[:2] if t.args[0] in ('np.ok', 'np.rest', 'np.out') else t.args[0])
    for a in t.args:
        heads(a, out, seen)


def same_closed(X, f, g):
    """Equality without any assumption (the result is used on every path)."""
    ok = [True]

    def run(x):
        r = []
        for l in (f, g):
            try:
                r.append(l.call(x))
            except PanicExc:
                r.append(('panic',))
        a, b = r
        return a[0] == b[0] and (a[0] != 'ok' or X.equal(a[1], b[1]))

    def on(kind, v):
        if kind != 'ret' or not v:
            ok[0] = False
    closed_explore(X, run, f.ety, on)
    return ok[0]


# ---------------------------------------------------------------- long alternatives
def fails(X, l):
    """In how many ways the (closed) parser fails."""
    c = X.__dict__.setdefault('np_fails', {})
    if l not in c:
        n = [0]
        closed_explore(X, lambda x: l.call(x)[0], l.ety, lambda kind, v: n.__setitem__(0, n[0] + (kind != 'ret' or v != 'ok')))
        c[l] = n[0]
    return c[l]


def closed_explore(X, f, ety, on, n=None, whole=False):
    path, nofork, frames = X.path, X.nofork, X.frames
    X.path, X.nofork, X.frames = None, None, []
    try:
        X.np_n = getattr(X, 'np_n', 0) + 1
        n = n or ('npc', X.np_n)
        x = mk('bvar', (n, 0), ety)
        X.explore(lambda: f(x), on if whole else lambda kind, v, p: on(kind, v), local=frozenset((n,)))
    finally:
        X.path, X.nofork, X.frames = path, nofork, frames


def skips(X, l, i):
    """Does the alternative l of a long list fail on i, decided at once?  None: to be found out by running it.
    (An alternative that may fail in several ways would otherwise multiply the cases of those after it.)"""
    if not getattr(l, 'closed', False) or X.concrete:
        return None
    l = canon_lam(X, l)
    if fails(X, l) < 2:
        return None
    return not decide(X, 'this', (l,), X.canon(i))


LONG = 8


@model(r'<\(.*\) as nom::branch::Alt<.*>>::choice', r'nom::branch::.*Alt<.*>>::choice', r'nom::branch::Alt::choice')
def _choice(X, f, a, ty):
    ps = X.canon(X.deref(a[0]))
    if X.concrete or ps.op != 'tup' or len(ps.args) < LONG:
        return NotImplemented
    i = X.canon(X.deref(a[1]))
    for p in ps.args:
        s = skips(X, plam(X, p), i)
        if s:
            continue
        v = X.canon(X.deref(X.call_value(p, [i])))
        if X.variant_of(v) == 0:
            return v
        e = X.canon(X.canon(v).args[1])
        if not X.ty.vname(e.ty, X.variant_of(e)).endswith('Error'):
            return v
        if s is False:
            raise Infeasible()
    return X.err(ty, nomerr(X, X.ty.get(X.ty.peel(ty))['args'][1]))


# ---------------------------------------------------------------- texts as positions
@model(r"<&'a str as nom::Offset>::offset", r'<str as nom::Offset>::offset')
def _offset(X, f, a, ty):
    return mk('app', ('np.offset', X.canon(X.deref(a[0])), X.canon(X.deref(a[1]))), X.ty.find('usize'))


@model(r"<&'a str as nom::Slice<std::ops::RangeTo<usize>>>::slice")
def _slice_to(X, f, a, ty):
    s = X.canon(X.deref(a[0]))
    r = X.canon(X.deref(a[1]))
    n = X.canon(r.args[1])
    if n.op == 'app' and n.args[0] == 'np.offset' and n.args[1] is s:
        return consumed(X, s, n.args[2])
    raise Unsupported('slice of parser input')


def consumed(X, s, rest):
    """The part of s before its suffix `rest`."""
    s, rest = X.canon(s), X.canon(rest)
    if s is rest:
        return lit('')
    if s.op == 'lit' and rest.op == 'lit':
        assert s.args[0].endswith(rest.args[0])
        return lit(s.args[0][:len(s.args[0]) - len(rest.args[0])])
    if rest.op == 'app' and rest.args[0] == 'np.rest' and rest.args[-1] is s and rest.args[1] in LEAFS and rest.args[1] not in CHAROUT:
        if rest.args[1] == 'tag':
            return rest.args[2]
        return X.canon(mk('app', ('np.out',) + rest.args[1:], STR(X)))
    return sapp(X, 'np.consumed', s, rest)
