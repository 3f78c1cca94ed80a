"""Concrete side of the grammar: texts, the real parser run on them, and the grammar contracts evaluated on them."""
import re, random, time
from .terms import *
from . import dsl, peg
from .dsl import G, SpecErr, coerce, attempt, ERRV
from .oracle import Real, Concrete, literals, flat


# ------------------------------------------------------------------ Rust's Debug text of a ground term
def dbg_str(s):
    out = []
    for c in s:
        if c in '"\\':
            out.append('\\' + c)
        elif c in '\n\r\t\0':
            out.append({'\n': '\\n', '\r': '\\r', '\t': '\\t', '\0': '\\0'}[c])
        elif ' ' <= c < '\x7f':
            out.append(c)
        elif c.isalpha() and c < '\u0250':
            out.append(c)
        elif c < ' ' or c == '\x7f':
            out.append('\\u{%x}' % ord(c))
        else:
            raise ValueError('no opinion on %r' % c)
    return '"%s"' % ''.join(out)


def dbg_float(x):
    if x != x or x in (float('inf'), float('-inf')):
        return {True: 'NaN'}.get(x != x, 'inf' if x > 0 else '-inf')
    r = repr(x)
    m = re.fullmatch(r'(.*)e([+-]?)0*(\d+)', r)
    return '%se%s%s' % (re.sub(r'\.0$', '', m[1]), '-' if m[2] == '-' else '', m[3]) if m else r


def debug(t):
    E = G.X
    t = E.canon(t)
    if t.op == 'lit':
        return dbg_str(t.args[0])
    if t.op == 'int':
        return str(t.args[0])
    if t.op == 'bool':
        return 'true' if t.args[0] else 'false'
    if t.op == 'float':
        return dbg_float(t.args[0])
    if t.op == 'seq':
        return '[%s]' % ', '.join(debug(s.args[0]) for s in t.args)
    if t.op == 'tup':
        return '(%s)' % ', '.join(debug(a) for a in t.args)
    if t.op != 'adt':
        raise Unsupported('not evaluated: %s' % str(t)[:200])
    n = E.ty.get(E.ty.peel(t.ty))['name']
    vs = E.ty.variants(t.ty)
    v = vs[t.args[0]]
    name = v['name'] if len(vs) > 1 else n.split('::')[-1]
    fs, a = v['fields'], [debug(x) for x in t.args[1:]]
    if not fs:
        return name
    if fs[0][0] == '0':
        return '%s(%s)' % (name, ', '.join(a))
    return '%s { %s }' % (name, ', '.join('%s: %s' % (f[0], x) for f, x in zip(fs, a)))


# ------------------------------------------------------------------ both parsers
class Parsers:
    def __init__(self, X, extdir):
        self.X, self.C, self.R = X, Concrete(X), Real(extdir)
        from .spec import grammar, api
        self.api = api

    def spec(self, which, text):
        X = self.X
        X.__dict__['peg_memo'] = {}

        def f():
            return lit(debug({"parse": self.api.api_parse, "detect_macros": self.api.api_macros}[which](lit(text))))
        r = self.C.run(f)
        return ("ok", r[1].args[0]) if r[0] == "ok" else ("err",)

    def real(self, which, text):
        try:
            v = getattr(self.R.m, which)(text)
        except ValueError:
            return ('err',)
        except BaseException as e:
            if type(e).__name__ == 'PanicException':
                return ('panic', str(e)[:300])
            raise
        return ('ok', repr(v) if which == 'parse' else macros_text(v))


def macros_text(v):
    def opt(x):
        return 'None' if x is None else 'Some(%s)' % dbg_str(x)
    cs = ['(%s, MacroCall { macro_name: %s, args: [%s] })' % (
        dbg_str(t), dbg_str(m.macro_name), ', '.join('(%s, %s)' % (opt(k), dbg_str(a)) for k, a in m.args)) for t, m in v[0]]
    return '([%s], %s)' % (', '.join(cs), dbg_str(v[1]))


# ------------------------------------------------------------------ texts of the grammar
KW = 'AND OR NOT IN AS BY search stats eval where by as or and not in true false t f span=1d count limit=5 x=1 "a b" "x*" \'q r\' 10.0.0.1 10.0.0.0/8 ::1 1.5 -3 5m @d -1d@h $v$ a.b w* * | [ ] ( ) , = == != <= >= < > + - / . :: ` % " \\'.split(' ')
NAMES = ['x', 'y', 'host', 'a', 'foo', 'count', '_time', 'src_ip', 'n', 'alpha', 'Web', 'x1', 'field', 't', 'b', 'f', 'true', 'a*', 'x-y', 'u:v', 'o/p', 'tt', 'by1', 'ORx',
         'android', 'inner', 'not_x', '5m', '12', 'm', '{x}', 'count_of', 'over', 'asx', 'outputx']
TEXTS = ['', 'a', 'a b', 'x*y', '%H:%M', '-5m', '10.0.0.1', 'it\\"s', '3', 'a|b', 'a.b', ' s ', '(?<n>\\d+)', '1.2.3.4/8', 'true', 'a\\\\', 'x, y', '[z]', 'By', '5d', '$v$', '@d']


class TextGen:
    """Random texts of a parsing expression; `target`: a rule they should go through."""

    def __init__(self, seed, lits=(), target=None):
        self.r = random.Random(seed)
        self.lits = [l for l in lits if 0 < len(l) < 40]
        self.depth = self.base = 0
        self.budget = 60
        self.target = target
        self.hit = False
        self.reach = {}

    @property
    def spare(self):
        return self.depth - self.base > 28 or self.budget <= 0 or self.target is not None and not self.hit and self.r.random() < .8

    def of(self, p):
        self.depth += 1
        self.budget -= 1
        try:
            if p is self.target and not self.hit:
                self.hit = True
                self.base, self.budget = self.depth, 60
            if self.depth > 160:
                raise RecursionError
            return p.gen(self)
        finally:
            self.depth -= 1

    def want(self, p, below=False):
        """Does the way to the target (not yet reached) lead through p?"""
        if self.target is None or self.hit:
            return False
        return (not below or p is not self.target) and self.leads(p)

    def leads(self, p):
        k = id(p)
        if k not in self.reach:
            self.reach.update(reaching(p, self.target))
        return self.reach.get(k, False)

    def pick(self, ps):
        if self.target is not None and not self.hit:
            w = [p for p in ps if self.leads(p)]
            if w and self.r.random() < .95:
                return self.r.choice(w)
        if self.spare:
            return min(ps, key=lambda p: (height(p), self.r.random()))
        return self.r.choice(ps)

    def case(self, s):
        x = self.r.random()
        return s if x < .6 else s.upper() if x < .75 else s.lower() if x < .9 else ''.join(c.upper() if self.r.random() < .5 else c for c in s)

    def digits(self):
        if self.r.random() < .15:
            return ''.join(self.r.choice('0123456789') for _ in range(self.r.randrange(1, 13)))
        return self.r.choice(['1', '2', '0', '7', '10', '24', '08', '300', str(self.r.randrange(100000)), str(self.r.choice([2**31, 2**63 - 1, 2**63, 2**64]))] if self.r.random() < .3
                             else ['1', '3', '5', '60'])

    def word(self):
        return self.r.choice(['a', 'b1', 'x', 'T', 'foo', '0', 'min'])

    def name(self):
        if self.lits and self.r.random() < .2:
            l = self.r.choice(self.lits)
            if re.fullmatch(r'[\w*:/%{}@-]+', l):
                return self.case(l)
        return self.r.choice(NAMES[:10]) if self.r.random() < .6 else self.r.choice(NAMES)

    def text(self, q='"'):
        s = self.r.choice(TEXTS) if not self.lits or self.r.random() < .8 else self.r.choice(self.lits)
        return s.replace(q, '')

    def ws0(self):
        return self.r.choice(['', '', ' ', ' ', '  ', '\n', '\t'] if self.r.random() < .3 else ['', ' '])

    def ws1(self):
        return self.r.choice([' ', ' ', ' ', '  ', '\n ', '\t'] if self.r.random() < .2 else [' '])

    # -- damage
    def mutate(self, s):
        r = self.r
        toks = re.findall(r'\s+|\w+|"[^"]*"|.', s)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            k = r.random()
            if not toks:
                toks = ['x']
            i = r.randrange(len(toks))
            if re.fullmatch(r'"[^"\\]{2,}"', toks[i]) and r.random() < .6:
                toks[i] = '"%s"' % self.mutate(toks[i][1:-1])
            elif k < .22:
                toks[i] = r.choice(KW + self.lits)
            elif k < .4:
                toks.insert(i, r.choice(KW + self.lits))
            elif k < .5:
                toks.insert(i, r.choice([' ', '', '\n', ' ']))
            elif k < .62:
                del toks[i]
            elif k < .72:
                toks[i] = self.case(toks[i].swapcase())
            elif k < .82:
                j = r.randrange(len(toks))
                toks[i], toks[j] = toks[j], toks[i]
            elif k < .9:
                j = min(len(toks), i + r.choice([1, 2, 3, 4, 5, 6]))
                toks[i:i] = toks[i:j]
            elif k < .95:
                t = toks[i]
                m = r.randrange(len(t) + 1)
                toks[i] = t[:m] + r.choice('ab1 ."\'$*:/-@\\|=`,()é') + t[m:]
            else:
                toks = toks[:i] if r.random() < .5 else toks[i:]
        return ''.join(toks)


def nodes(p, seen=None):
    seen = {} if seen is None else seen
    st = [p]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen[id(x)] = x
        st.extend(x.kids)
    return seen


def reaching(p, target):
    """id -> does the expression contain the target"""
    ns = nodes(p)
    up = {}
    for i, x in ns.items():
        for k in x.kids:
            up.setdefault(id(k), []).append(i)
    got, st = set(), [id(target)]
    while st:
        i = st.pop()
        if i not in got:
            got.add(i)
            st.extend(up.get(i, ()))
    return {i: i in got for i in ns}


HEIGHT = {}


def height(p):
    """Least depth of a text of p."""
    if id(p) not in HEIGHT:
        ns = nodes(p)
        h = {i: 0 if not x.kids or isinstance(x, peg.Opt) or isinstance(x, peg.Rule) and x.genf else 999 for i, x in ns.items()}
        ch = True
        while ch:
            ch = False
            for i, x in ns.items():
                if h[i] == 0:
                    continue
                ks = [h[id(k)] for k in x.kids]
                n = 1 + (min(ks) if isinstance(x, peg.Alt) else max(ks))
                if n < h[i]:
                    h[i] = n
                    ch = True
        HEIGHT.update(h)
        HEIGHT['keep'] = HEIGHT.get('keep', []) + [ns]
    return HEIGHT[id(p)]


# ------------------------------------------------------------------ search
class TextSearch:
    def __init__(self, X, extdir, which='parse'):
        self.P = Parsers(X, extdir)
        self.X, self.which = X, which
        self.tried = self.skipped = self.parsed = 0
        self.accept = None

    def differ(self, text):
        try:
            want = self.P.spec(self.which, text)
        except (Unsupported, RecursionError, AttributeError, TypeError, IndexError, KeyError, ValueError):
            self.skipped += 1
            return None
        got = self.P.real(self.which, text)
        self.tried += 1
        self.parsed += got[0] == 'ok'
        if got != want and (self.accept is None or self.accept(got, want)):
            return {'text': text, 'function': self.which, 'pipeline': repr(text), 'allow_runtime': None, 'code': got, 'specification': want}
        return None

    def start(self):
        return peg.RULES['pipeline' if self.which == 'parse' else 'macros']

    def random(self, budget, seed, lits=(), targets=None, limit=None):
        end = time.time() + budget
        n = 0
        start = self.start()
        pool = []
        while time.time() < end and (limit is None or n < limit):
            n += 1
            g = TextGen(seed * 1000003 + n, lits)
            if targets and g.r.random() < .85:
                g.target = g.r.choice(targets)
            if pool and g.r.random() < .5:
                s = g.mutate(g.r.choice(pool))
            else:
                try:
                    s = g.of(start)
                except RecursionError:
                    continue
                if g.r.random() < .15:
                    s = g.mutate(s)
            if len(s) > 400:
                continue
            k = self.parsed
            d = self.differ(s)
            if d:
                return self.shrink(d)
            if self.parsed > k:
                pool = pool[-150:] + [s]
        return None

    def shrink(self, d):
        end = time.time() + 4
        t = d['text']
        step = max(1, len(t) // 2)
        while step and time.time() < end:
            i = 0
            done = False
            while i < len(t) and time.time() < end:
                e = self.differ(t[:i] + t[i + step:])
                if e:
                    d, t, done = e, e['text'], True
                else:
                    i += step
            if not done or step > 1:
                step = step // 2 if not done or step > 1 else 0
        return d


def targets(c):
    """What the parser function under contract c is reached by: (entry point, rules)."""
    from .spec import grammar as GR, parser as L
    n = c.name
    if n in ('parse.macros', 'api.detect_macros'):
        return 'detect_macros', []
    r = getattr(c, 'rule', None)
    if r is not None:
        return 'parse', [r]
    if n.startswith(('options.', 'parse.options.')):
        k = n.split('.')[-1]
        ms = {x.name: x.match for x in GR.CMDS.values() if x.opts}
        return 'parse', [ms[k]] if k in ms else list(ms.values())
    if n == 'parse.word':
        return 'parse', [peg.RULES['token']]
    if n == 'parse.combine':
        return 'parse', [peg.RULES['logical_expression'], peg.RULES['logical_expression_group']]
    return 'parse', []
