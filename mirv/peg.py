"""Grammar specifications: parsing expressions whose meaning is a function text -> (rest, value) | fail().

A rule is a contract on a parser function: called on any text it returns what the parsing expression returns, and
fails (recoverably) exactly when the expression fails.  The same object evaluates concrete text (replay) and generates
text (search for a failing input)."""
import string
from .dsl import *
from .dsl import G
from .terms import *
from . import nomm
from .nomm import np_apply, plam, parts, consumed, vec_of
from .prove import Fail

RULES = {}


class Pg:
    kids = ()

    def __call__(self, i):
        i = G.X.canon(coerce(i))
        return self.run(i)

    def map(self, f, back=None):
        return Map(self, f)

    def lam(self, ety=None):
        """The parser as a function term (one per executor)."""
        c = G.X.__dict__.setdefault('peg_lams', {})
        l = c.get((id(self), ety))
        if l is None:
            def call(x):
                try:
                    r, v = self(x)
                except SpecErr:
                    return ('err',)
                return ('ok', mk('tup', (G.X.canon(r), term(v, ety))))
            l = c[(id(self), ety)] = Lam(call, STRT(), EMPTY, 'grammar')
            l.closed = True
            l.keep = self
        return l


def term(v, ety=None):
    return G.X.canon(coerce(v) if ety is None else coerce(v, ety))


class Leaf(Pg):
    def __init__(self, k, *args):
        self.k, self.args = k, args

    def run(self, i):
        X = G.X
        if self.k == 'eof':
            if not emptytext(i):
                fail()
            return i, i
        if X.concrete:
            r = nomm.leaf(self.k, self.args, i.args[0]) if self.k[:10] != 'take_while' else nomm.span(i.args[0], self.args[0], 1 if self.k[-1] == '1' else 0)
            if r is None:
                fail()
            return lit(r[0]), I(ord(r[1])) if self.k in nomm.CHAROUT else lit(r[1])
        if self.k[:10] == 'take_while':
            c = X.__dict__.setdefault('peg_lams', {})
            f = self.args[0]
            l = c.get(id(self))
            if l is None:
                l = c[id(self)] = Lam(lambda x: ('ok', B(f(x))), X.ty.find('char'), EMPTY, 'class')
                l.closed, l.keep = True, self
            args = (l,)
        else:
            args = tuple(coerce(a) for a in self.args)
        r = np_apply(X, mk('np', (self.k,) + args), i, X.ty.find('char') if self.k in nomm.CHAROUT else STRT())
        if r is None:
            fail()
        return r

    def gen(self, g):
        k, a = self.k, self.args
        if k == 'tag':
            return a[0]
        if k == 'tag_no_case':
            return g.case(a[0])
        if k in ('digit1', 'digit0'):
            return g.digits()
        if k in ('alphanumeric1', 'alpha1'):
            return g.word()
        if k == 'multispace0':
            return '' if g.spare else g.ws0()
        if k == 'multispace1':
            return g.ws1()
        if k == 'one_of':
            return g.r.choice(a[0])
        if k in ('none_of', 'anychar'):
            return g.r.choice([c for c in 'ab1 x_.|-' if k == 'anychar' or c not in a[0]])
        if k == 'take':
            return ''.join(g.r.choice('ab$" ') for _ in range(a[0]))
        if k == 'eof':
            return ''
        if k[:10] == 'take_while':
            return 'x' + g.word()
        if k == 'take_until':
            return g.r.choice(['', 'a ', 'x=1 | ', 'count by '])
        raise KeyError(k)


class Map(Pg):
    def __init__(self, p, f):
        self.p, self.f = p, f
        self.kids = (p,)

    def run(self, i):
        r, v = self.p(i)
        return r, (self.f(*v) if isinstance(v, Vals) else self.f(v))

    def gen(self, g):
        return g.of(self.p)


class Vals(tuple):
    pass


class Seq(Pg):
    def __init__(self, *ps, pick=None):
        self.kids = tuple(ps)
        self.pick = pick

    def run(self, i):
        vs = []
        for p in self.kids:
            i, v = p(i)
            vs.append(v)
        if self.pick is None:
            return i, Vals(vs)
        return i, vs[self.pick] if isinstance(self.pick, int) else Vals(vs[n] for n in self.pick)

    def gen(self, g):
        return ''.join(g.of(p) for p in self.kids)


class Alt(Pg):
    def __init__(self, *ps):
        self.kids = ps

    def run(self, i):
        for p in self.kids:
            s = nomm.skips(G.X, p.lam(), i) if len(self.kids) >= nomm.LONG else None
            if s:
                continue
            r = attempt(lambda: p(i))
            if r is not ERRV:
                return r
            if s is False:
                raise Infeasible()
        fail()

    def gen(self, g):
        return g.of(g.pick(self.kids))


class Opt(Pg):
    def __init__(self, p):
        self.kids = (p,)

    def run(self, i):
        r = attempt(lambda: self.kids[0](i))
        if r is ERRV:
            return i, None
        return r[0], Some(r[1])

    def gen(self, g):
        return g.of(self.kids[0]) if g.want(self.kids[0]) or not g.spare and g.r.random() < .5 else ''


class Loop(Pg):
    """many0 / many1 (p) and list0 / list1 (sep, p); the value is a list of `ety`."""
    def __init__(self, kind, ps, ety):
        self.k, self.kids, self.ety = kind, ps, ety

    def run(self, i):
        X = G.X
        if not X.concrete:
            ety = etype(self.ety)
            r = np_apply(X, mk('np', (self.k,) + tuple(p.lam() for p in self.kids[:-1]) + (self.kids[-1].lam(ety),)), i, vec_of(X, ety))
            if r is None:
                fail()
            return r
        out = []
        if self.k in ('many0', 'many1', 'many2'):
            p = self.kids[0]
            while True:
                r = attempt(lambda: p(i))
                if r is ERRV:
                    if len(out) < int(self.k[-1]):
                        fail()
                    return i, out
                if G.X.canon(r[0]) is i and (self.k != 'many1' or out):
                    fail()
                out.append(term(r[1], etype(self.ety)))
                i = X.canon(r[0])
        sep, p = self.kids
        r = attempt(lambda: p(i))
        if r is ERRV:
            if self.k.endswith('1'):
                fail()
            return i, out
        while True:
            out.append(term(r[1], etype(self.ety)))
            i = X.canon(r[0])
            s = attempt(lambda: sep(i))
            if s is ERRV:
                return i, out
            j = X.canon(s[0])
            if j is i:
                fail()
            r = attempt(lambda: p(j))
            if r is ERRV:
                return i, out

    def gen(self, g):
        n = 1 if g.spare else g.r.choice([1, 1, 2, 2, 3])
        if self.k == 'many2':
            n = max(n, 2)
        if not g.want(self.kids[-1]) and self.k[-1] == '0' and g.r.random() < .3:
            n = 0
        if len(self.kids) == 1:
            return ''.join(g.of(self.kids[0]) for _ in range(n))
        out = ''
        for k in range(n):
            out += (g.of(self.kids[0]) if k else '') + g.of(self.kids[1])
        return out


def etype(e):
    if callable(e):
        return e()
    if e == 'str':
        return G.X.ty.peel(find_ty('&str'))
    return tyid(e)


class Recog(Pg):
    """The text that p matched."""
    def __init__(self, p):
        self.kids = (p,)

    def run(self, i):
        r, _ = self.kids[0](i)
        return r, consumed(G.X, i, r)

    def gen(self, g):
        return g.of(self.kids[0])


class Verify(Pg):
    def __init__(self, p, f):
        self.kids, self.f = (p,), f

    def run(self, i):
        r, v = self.kids[0](i)
        if not (self.f(*v) if isinstance(v, Vals) else self.f(v)):
            fail()
        return r, v

    def gen(self, g):
        return g.of(self.kids[0])


class Whole(Pg):
    """p, with nothing left over"""
    def __init__(self, p):
        self.kids = (p,)

    def run(self, i):
        r, v = self.kids[0](i)
        if not emptytext(r):
            fail()
        return r, v

    def gen(self, g):
        return g.of(self.kids[0])


class Peek(Pg):
    def __init__(self, p):
        self.kids = (p,)

    def run(self, i):
        r, v = self.kids[0](i)
        return i, v

    def gen(self, g):
        return ''


class Not(Pg):
    """p does not match here"""
    def __init__(self, p):
        self.kids = (p,)

    def run(self, i):
        if attempt(lambda: self.kids[0](i)) is not ERRV:
            fail()
        return i, ()

    def gen(self, g):
        return ''


class Within(Pg):
    """q on the text matched by p; `quoted`: how a text of q is written as a text of p"""
    def __init__(self, p, q, quoted=None):
        self.kids, self.quoted = (p, q), quoted

    def run(self, i):
        r, v = self.kids[0](i)
        _, w = self.kids[1](v)
        return r, w

    def gen(self, g):
        s = g.of(self.kids[1])
        return self.quoted(s if g.r.random() < .7 else g.mutate(s)) if self.quoted else s


class Conv(Pg):
    """p whose value is converted by f, failing (recoverably) when f fails"""
    def __init__(self, p, f):
        self.kids, self.f = (p,), f

    def run(self, i):
        r, v = self.kids[0](i)
        return r, (self.f(*v) if isinstance(v, Vals) else self.f(v))

    def gen(self, g):
        return g.of(self.kids[0])


class Rule(Pg):
    """A named rule: a contract on the parser function of the crate."""
    def __init__(self, name, body=None, gen=None):
        self.name, self.body, self.genf = name, body, gen
        self.contract = None

    @property
    def kids(self):
        return (self.get(),)

    def get(self):
        if not isinstance(self.body, Pg):
            self.body = self.body()
        return self.body

    def run(self, i):
        if self.contract is None:
            return self.get()(i)
        if G.X.concrete:
            m = G.X.__dict__.setdefault('peg_memo', {})
            r = m.get((id(self), i))
            if r is None:
                r = m[id(self), i] = attempt(lambda: parts(G.X, self.contract(i)))
            if r is ERRV:
                fail()
            return r
        v = self.contract(i)
        return parts(G.X, v)

    def gen(self, g):
        if self.genf is not None and not g.want(self, below=True):
            return self.genf(g)
        return g.of(self.get())


def emptytext(s):
    return eq(G.X.canon(nsize(s)), I(0)) if not G.X.concrete else G.X.canon(s).args[0] == ''


def nsize(s):
    return mk('app', ('str.len', G.X.canon(coerce(s))), G.X.ty.find('usize'))


def rule(name, pattern=None, gen=None, props=(), opaque=True):
    """Decorator on a function () -> Pg."""
    def deco(f):
        r = RULES[name] = Rule(name, f, gen)

        def spec(i):
            rest, v = r.get()(i)
            return (rest, tuple(v) if isinstance(v, Vals) else v)
        spec.__name__ = name
        r.contract = contract('parse.' + name, pattern or r'(^|::)spl::parser::%s$' % name, result=True, opaque=opaque, parser=True, props=props)(spec)
        r.contract.rule = r
        return r
    return deco


# ---- notation
def tag(s):
    return Leaf('tag', s)


def kw(s):
    return Leaf('tag_no_case' if s.upper() != s.lower() else 'tag', s)


def not_(p):
    return Not(p)


def leaf(k, *a):
    return Leaf(k, *a)


ws0, ws1 = Leaf('multispace0'), Leaf('multispace1')
digits, eof = Leaf('digit1'), Leaf('eof')


def seq_(*ps, pick=None):
    return Seq(*ps, pick=pick)


def pre(a, b):
    return Seq(a, b, pick=1)


def post(a, b):
    return Seq(a, b, pick=0)


def mid(a, b, c):
    return Seq(a, b, c, pick=1)


def sep_(a, s, b):
    return Seq(a, s, b, pick=(0, 2))


def ws(p):
    return mid(ws0, p, ws0)


def paren(p):
    return mid(post(tag('('), ws0), p, pre(ws0, tag(')')))


def alt(*ps):
    return Alt(*ps)


def opt(p):
    return Opt(p)


def many0(p, ety):
    return Loop('many0', (p,), ety)


def many1(p, ety):
    return Loop('many1', (p,), ety)


def list0(sep, p, ety):
    return Loop('separated_list0', (sep, p), ety)


def list1(sep, p, ety):
    return Loop('separated_list1', (sep, p), ety)


def recog(p):
    return Recog(p)


def verify(p, f):
    return Verify(p, f)


def whole(p):
    return Whole(p)


def const(p, v):
    return Map(p, lambda *_: v)
