"""Hash-consed terms, path conditions and path exploration for mirv.

A *term* is a value of the program or of the specification language.  Terms are immutable and
hash-consed; `Path.canon` rewrites a term to its normal form under the equations assumed on the
current path (congruence by re-normalisation), so two values are equal iff their normal forms are
the same object (integers additionally go through z3).
"""
import sys, itertools
import z3

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    """The verifier cannot handle this construct: the obligation is undecided, never an alarm."""


class Infeasible(Exception):
    """The path condition is contradictory."""


class PanicExc(Exception):
    def __init__(self, why, where=''):
        self.why, self.where = why, where


class SpecErr(Exception):
    """Raised by specifications: the contract says the function returns Err."""


class NoFork(Exception):
    """Normalisation would need a decision: the term is left as it is."""


class StopBody(Exception):
    """Loop body finished one iteration."""


EMPTY = frozenset()


class T:
    __slots__ = ('op', 'args', 'ty', 'bv', 'id', 'haslam')

    def __repr__(self):
        return show(self)


_intern = {}
LAMOPS = {'fm', 'fold', 'smap', 'allok', 'foldok', 'anypanic'}
_ids = itertools.count()


def mk(op, args=(), ty=None):
    key = (op, args, ty)
    t = _intern.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.ty, t.id = op, args, ty, next(_ids)
        bv = EMPTY
        hl = op in LAMOPS
        if op == 'bvar':
            bv = frozenset((args[0],))
        for a in args:
            if isinstance(a, T):
                if a.bv:
                    bv = bv | a.bv
                if a.haslam:
                    hl = True
            elif hasattr(a, 'bvs'):
                bv = bv | a.bvs
        t.bv = bv
        t.haslam = hl
        _intern[key] = t
    return t


def lit(s):
    return mk('lit', (s,))


def I(n):
    return mk('int', (n,))


TRUE = mk('bool', (True,))
FALSE = mk('bool', (False,))
UNIT = mk('tup', ())
ERR = mk('err', ())
NILSEQ = mk('seq', ())


def B(b):
    return TRUE if b else FALSE


def one(v):
    return mk('one', (v,))


def allseg(a):
    return mk('all', (a,))


def seq(*segs):
    return mk('seq', tuple(segs))


def vec(*vals):
    return mk('seq', tuple(one(v) for v in vals))


def show(t, depth=0):
    if not isinstance(t, T):
        return repr(t)
    o, a = t.op, t.args
    if depth > 12:
        return '…'
    s = lambda x: show(x, depth + 1)
    if o == 'var':
        return a[0]
    if o == 'bvar':
        return '%%%s' % (a[0],)
    if o == 'lit':
        return repr(a[0])
    if o in ('int', 'bool'):
        return str(a[0])
    if o == 'err':
        return 'ERR'
    if o == 'adt':
        ty = TYPES.get(t.ty) if TYPES else None
        nm = TYPES.vname(t.ty, a[0]) if TYPES else '%s#%s' % (t.ty, a[0])
        return nm + ('(%s)' % ', '.join(s(x) for x in a[1:]) if len(a) > 1 else '')
    if o == 'fld':
        return '%s.%s.%s' % (s(a[0]), a[1], a[2])
    if o == 'app':
        return '%s(%s)' % (a[0], ', '.join(s(x) for x in a[1:]))
    if o == 'cat':
        return '⟨%s⟩' % ' ++ '.join(s(x) for x in a)
    if o == 'seq':
        return '[%s]' % ', '.join(s(x) for x in a)
    if o == 'one':
        return s(a[0])
    if o == 'all':
        return '*' + s(a[0])
    if o == 'tup':
        return '(%s)' % ', '.join(s(x) for x in a)
    return '%s{%s}' % (o, ', '.join(s(x) for x in a))


TYPES = None


class Types:
    """Type table of the MIR dump."""

    def __init__(self, tys):
        global TYPES
        TYPES = self
        self.t = tys
        self.by_s = {}
        for i, t in enumerate(tys):
            self.by_s.setdefault(t['s'], i)
        self._peel = {}
        self._reps = {}
        self._kind = {}

    def get(self, i):
        return self.t[i]

    def vname(self, i, v):
        t = self.t[i]
        n = t['name'].split('::')[-1]
        if t['adt'] == 'Struct':
            return n
        return n + '::' + t['variants'][v]['name']

    def peel(self, i):
        r = self._peel.get(i)
        if r is None:
            t = self.t[i]
            r = i
            if t['k'] == 'ref' or t['k'] == 'ptr':
                r = self.peel(t['t'])
            elif t['k'] == 'adt' and (t['box'] or t['name'] in ('std::rc::Rc', 'std::sync::Arc')):
                r = self.peel(t['args'][0])
            elif t['k'] == 'adt' and t['name'] in ('std::option::Option', 'std::result::Result') and t['args']:
                self._peel[i] = i
                sig = (t['name'],) + tuple(self.peel(a) for a in t['args'])
                r = self._reps.setdefault(sig, i)
            self._peel[i] = r
        return r

    def kind(self, i):
        """int bool float str seq enum struct tuple err opaque (of the peeled type)"""
        i = self.peel(i)
        k = self._kind.get(i)
        if k is None:
            t = self.t[i]
            k = t['k']
            if k in ('int', 'bool', 'float', 'tuple'):
                pass
            elif k == 'char':
                k = 'char'
            elif k == 'str':
                k = 'str'
            elif k in ('slice', 'array'):
                k = 'seq'
            elif k == 'adt':
                n = t['name']
                if n == 'std::string::String':
                    k = 'str'
                elif n == 'std::vec::Vec':
                    k = 'seq'
                elif n == 'anyhow::Error':
                    k = 'err'
                elif n.startswith(('std::collections', 'regex::', 'regex_automata', 'regex_syntax::hir', 'regex_syntax::ast::parse', 'regex_syntax::ast::Error', 'std::fmt', 'core::fmt', 'std::sync', 'phf', 'log::', 'std::slice', 'std::vec', 'std::iter', 'hashbrown')):
                    k = 'opaque'
                elif t['adt'] == 'Enum':
                    k = 'enum'
                elif t['adt'] == 'Struct':
                    k = 'struct'
                else:
                    k = 'opaque'
            else:
                k = 'opaque'
            self._kind[i] = k
        return k

    def elem(self, i):
        i = self.peel(i)
        t = self.t[i]
        if t['k'] in ('slice', 'array'):
            return self.peel(t['t'])
        return self.peel(t['args'][0])

    def variants(self, i):
        return self.t[self.peel(i)]['variants']

    def fieldty(self, i, v, f):
        return self.peel(self.variants(i)[v]['fields'][f][1])

    def find(self, s):
        if s in self.by_s:
            return self.by_s[s]
        raise Unsupported('anchor lost: type ' + s)


class Lam:
    """A loop body / closure, as a re-executable function of one element term.
    call(x) -> (tag, payload): ('ok', seqterm|value) or ('err',)."""
    __slots__ = ('call', 'bvs', 'ety', 'label', 'cache', 'closed', 'keep')

    def __init__(self, call, ety, bvs=EMPTY, label=''):
        self.call, self.ety, self.bvs, self.label = call, ety, bvs, label
        self.cache = {}

    def __repr__(self):
        return 'λ' + self.label


class Path:
    def __init__(self, parent=None, prefix=(), base=None):
        self.parent = parent
        self.prefix = list(prefix)
        self.log = []       # (key term, choice description)
        self.taken = []     # indices of choices
        self.alts = []      # alternatives to explore
        self.local = EMPTY
        self.gen = 0
        self.ccache = {}
        self.freshn = 0
        self.nplams = list(base.nplams) if base is not None else []
        if base is not None:
            self.eqs = dict(base.eqs)
            self.excl = {k: set(v) for k, v in base.excl.items()}
            self.zc = list(base.zc)
            self.lamuf = dict(base.lamuf)
            self.lamneq = set(base.lamneq)
            self.counter = base.counter
            self.freshn = base.freshn
        else:
            self.eqs, self.excl, self.zc, self.lamuf, self.lamneq = {}, {}, [], {}, set()
            self.counter = 0

    def lamrep(self, l):
        while l in self.lamuf:
            l = self.lamuf[l]
        return l


def text_shape(t):
    """A test on a text -> (text, least length in bytes, known prefix, known suffix) when it holds; None: unknown."""
    if t.op != 'app':
        return None
    n, a = t.args[0], t.args[1:]
    if n in ('str.starts_with', 'str.ends_with', 'str.contains') and a[1].op == 'lit':
        p = a[1].args[0]
        return (a[0], len(p.encode()), p if n == 'str.starts_with' else '', p if n == 'str.ends_with' else '')
    if n == 'regex.is_match' and a[0].op == 'app' and a[0].args[0] == 'regex' and a[0].args[1].op == 'lit':
        import re
        try:
            tree = list(re._parser.parse(a[0].args[1].args[0]))
            width = re._parser.parse(a[0].args[1].args[0]).getwidth()[0]
        except Exception:
            return None
        C = re._constants
        pre = suf = ''
        if tree and tree[0] == (C.AT, C.AT_BEGINNING):
            for op, v in tree[1:]:
                if op is not C.LITERAL:
                    break
                pre += chr(v)
        if len(tree) > 1 and tree[-1] == (C.AT, C.AT_END):
            for op, v in reversed(tree[:-1]):
                if op is not C.LITERAL:
                    break
                suf = chr(v) + suf
        return (a[1], int(width), pre, suf)
    return None


class Engine:
    """Path exploration + normalisation."""

    def __init__(self, types):
        self.ty = types
        self.path = None
        self.nofork = None
        self.stats = {'paths': 0, 'z3': 0, 'z3_time': 0.0, 'lam_checks': 0}
        self.frames = []
        self.deadline = None
        self.unfold = {}      # app name -> python spec function (definition unfolding)
        self.max_paths = 20000

    # ------------------------------------------------------------------ exploration
    def explore(self, fn, on_path, base=None, local=EMPTY):
        """Run fn() once per feasible path; on_path(kind, value, path)."""
        saved = self.path
        stack = [[]]
        n = 0
        root = base if base is not None else saved
        while stack:
            prefix = stack.pop()
            p = Path(parent=saved, prefix=prefix, base=root)
            p.local = local
            self.path = p
            n += 1
            self.stats['paths'] += 1
            if n > self.max_paths:
                self.path = saved
                raise Unsupported('too many paths')
            self.check_time()
            try:
                try:
                    v = fn()
                    r = ('ret', v)
                except PanicExc as e:
                    r = ('panic', e)
                except SpecErr:
                    r = ('specerr', None)
                except Infeasible:
                    r = None
                if r is not None:
                    on_path(r[0], r[1], p)
            finally:
                self.path = saved
            for a in reversed(p.alts):
                stack.append(a)

    def check_time(self):
        if self.deadline is not None:
            import time
            if time.time() > self.deadline:
                raise Unsupported('timeout')

    def target_path(self, bv):
        p = self.path
        while p.parent is not None and not (bv & p.local):
            p = p.parent
        return p

    def choose(self, key, options):
        """options: list of (label, effect) ; effect(): applied on self.path...; returns index chosen."""
        tp = self.target_path(key.bv if isinstance(key, T) else EMPTY)
        if self.nofork is not None and not self.below(tp, self.nofork):
            raise NoFork()
        k = len(tp.taken)
        if k < len(tp.prefix):
            i = tp.prefix[k]
        else:
            i = 0
            for j in range(1, len(options)):
                tp.alts.append(tp.taken + [j])
        tp.taken.append(i)
        tp.log.append((key, options[i][0]))
        # apply the effect on every path from the current one up to the target
        p = self.path
        chain = []
        while True:
            chain.append(p)
            if p is tp:
                break
            p = p.parent
        cur = self.path
        try:
            for p in chain:
                self.path = p
                options[i][1]()
        finally:
            self.path = cur
        return i

    @staticmethod
    def below(p, q):
        """Is path p strictly inside path q?"""
        p = p.parent
        while p is not None:
            if p is q:
                return True
            p = p.parent
        return False

    def quiet(self, f):
        """Run f without taking decisions; None if it would need one."""
        old, frames, path = self.nofork, self.frames, self.path
        if old is None or self.below(path, old):
            self.nofork = path
        nf = len(frames)
        try:
            return f()
        except NoFork:
            if old is not None and self.nofork is old:
                raise
            del frames[nf:]
            self.frames = frames
            self.path = path
            return None
        finally:
            self.nofork = old

    def fresh_id(self):
        # deterministic per path
        p = self.path
        p.counter += 1
        return p.counter

    # ------------------------------------------------------------------ equations
    def add_eq(self, l, r):
        p = self.path
        l = self.canon(l)
        r = self.canon(r)
        if l is r:
            return
        if self.is_con(l):
            if self.is_con(r):
                self.unify_con(l, r)
                return
            l, r = r, l
        p.eqs[l] = r
        self.bump()

    def unify_con(self, l, r):
        if l.op == 'adt' and r.op == 'adt':
            if l.args[0] != r.args[0]:
                raise Infeasible()
            for a, b in zip(l.args[1:], r.args[1:]):
                self.add_eq(a, b)
            return
        if l.op in ('lit', 'int', 'bool') and r.op == l.op:
            raise Infeasible()
        if l.op == 'seq' and r.op == 'seq':
            if not l.args and r.args and r.args[0].op == 'one' or not r.args and l.args and l.args[0].op == 'one':
                raise Infeasible()
        raise Unsupported('unify %s %s' % (l, r))

    def unify_seq(self, a, b):
        if not a.args and not b.args:
            return
        if not a.args or not b.args:
            o = a.args or b.args
            if any(g.op == 'one' for g in o):
                raise Infeasible()
            return
        if a.args[0].op == 'one' and b.args[0].op == 'one':
            self.add_eq(a.args[0].args[0], b.args[0].args[0])
            ra, rb = a.args[1:], b.args[1:]
            if len(ra) == 1 and ra[0].op == 'all' and len(rb) == 1 and rb[0].op == 'all':
                self.add_eq(ra[0].args[0], rb[0].args[0])
            # otherwise the tails stay related only by being equal: losing it is sound

    def is_con(self, t):
        if t.op == 'adt':
            return True
        if t.op in ('lit', 'int', 'bool', 'tup'):
            return True
        if t.op == 'seq':
            return True
        return False

    def bump(self):
        """Re-normalise the equations after a new one was added."""
        p = self.path
        for _ in range(50):
            p.gen += 1
            p.ccache = {}
            changed = False
            pending = []
            new = {}
            for l, r in list(p.eqs.items()):
                l2 = self.canon_children(l)
                if l2 is not l:
                    changed = True
                if l2 in new:
                    if new[l2] is not r:
                        a, b = new[l2], r
                        pending.append((a, b))
                    continue
                if self.is_con(l2) or l2.op in ('cat',):
                    # the left side now has a known form
                    r2 = self.canon(r)
                    if l2.op == 'adt' and r2.op == 'adt':
                        if l2.args[0] != r2.args[0]:
                            raise Infeasible()
                        pending.append((l2, r2))
                        continue
                    if l2.op in ('lit', 'int', 'bool') and r2.op == l2.op:
                        if l2 is not r2:
                            raise Infeasible()
                        continue
                    continue
                new[l2] = r
            p.eqs = new
            ex = {}
            for l, vs in p.excl.items():
                l2 = self.canon(l)
                if l2.op == 'adt':
                    if l2.args[0] in vs:
                        raise Infeasible()
                    continue
                ex.setdefault(l2, set()).update(vs)
                if len(ex[l2]) >= len(self.ty.variants(l2.ty)):
                    raise Infeasible()
            p.excl = ex
            for a, b in pending:
                if a.op == 'adt' and b.op == 'adt':
                    if a.args[0] != b.args[0]:
                        raise Infeasible()
                    for x, y in zip(a.args[1:], b.args[1:]):
                        self.add_eq(x, y)
                elif a.op in ('lit', 'int', 'bool') and b.op == a.op:
                    raise Infeasible()
                else:
                    a, b = self.canon(a), self.canon(b)
                    if a is not b:
                        if not self.is_con(a):
                            self.add_eq(a, b)
                        elif not self.is_con(b):
                            self.add_eq(b, a)
                        elif a.op == 'seq' and b.op == 'seq':
                            self.unify_seq(a, b)
                        else:
                            raise Infeasible()
            if pending:
                changed = True
            if not changed:
                break

    # ------------------------------------------------------------------ normal forms
    def canon(self, t):
        if not isinstance(t, T):
            return t
        p = self.path
        c = p.ccache.get(t)
        if c is not None:
            return c
        g = p.gen
        r = self._canon(t)
        if p.gen == g and self.path is p:
            p.ccache[t] = r
            p.ccache[r] = r
        return r

    def canon_children(self, t):
        """Normalise the arguments and simplify, without applying an equation to the result."""
        op = t.op
        if op in ('var', 'bvar', 'lit', 'int', 'bool', 'err'):
            return t
        if op == 'fld':
            b, v, i = t.args
            b2 = self.canon_children(b)
            r = b2 if self.is_con(b2) else self.path.eqs.get(b2)
            if r is not None:
                f = self.field_of(r, v, i)
                if f is t:
                    return t
                if f is not None:
                    return self.canon(f)
            if b2 is b or self.is_con(b2):
                return t
            return mk('fld', (b2, v, i), t.ty)
        new = tuple(self.canon(a) if isinstance(a, T) else a for a in t.args)
        if op in ('fm', 'fold', 'smap', 'allok', 'foldok', 'anypanic'):
            new = tuple(self.path.lamrep(a) if isinstance(a, Lam) else a for a in new)
        if op in SIMP:
            return SIMP[op](self, new, t.ty)
        if new == t.args:
            return t
        return mk(op, new, t.ty)

    def _canon(self, t):
        t2 = self.canon_children(t)
        if t2 is not t:
            c = self.path.ccache.get(t2)
            if c is not None:
                return c
        t = t2
        r = self.path.eqs.get(t)
        if r is not None:
            return self.canon(r)
        if t.op in ATOMS and t.ty is not None:
            k = self.ty.kind(t.ty)
            if k == 'struct':
                fs = self.ty.variants(t.ty)[0]['fields']
                return mk('adt', (0,) + tuple(self.canon(mk('fld', (t, 0, i), self.ty.peel(f[1]))) for i, f in enumerate(fs)), self.ty.peel(t.ty))
            if k == 'tuple':
                ts = self.ty.get(self.ty.peel(t.ty))['ts']
                return mk('tup', tuple(self.canon(mk('fld', (t, 0, i), self.ty.peel(x))) for i, x in enumerate(ts)))
            if k == 'err':
                return ERR
            if k == 'seq':
                return mk('seq', (allseg(t),))
        return t

    def field_of(self, r, v, i):
        if r.op == 'adt':
            return r.args[1 + i] if r.args[0] == v else None
        if r.op == 'tup':
            return r.args[i]
        if r.op == 'seq' and r.args and r.args[0].op == 'one':
            if i == 0:
                return r.args[0].args[0]
            if len(r.args) == 2 and r.args[1].op == 'all':
                return r.args[1].args[0]
            return mk('seq', r.args[1:])
        return None

    # proj constructor with simplification
    def proj(self, b, v, i, ty):
        if b.op == 'adt' and b.args[0] == v:
            return b.args[1 + i]
        if b.op == 'tup':
            return b.args[i]
        if b.op == 'adt':
            raise Infeasible()
        return mk('fld', (b, v, i), self.ty.peel(ty) if ty is not None else None)

    def field(self, t, i, ty=None, v=0):
        t = self.canon(t)
        if ty is None and t.op not in ('adt', 'tup'):
            ty = self.ty.fieldty(t.ty, v, i)
        return self.proj(t, v, i, ty)

    # ------------------------------------------------------------------ decisions
    def variant_switch(self, t, groups):
        """Decide the variant of enum term t.  groups: list of sets of variant indices (disjoint, any not
        mentioned variants form the last 'otherwise' group, index len(groups)).  Returns group index."""
        t = self.canon(t)
        if t.op == 'adt':
            for gi, g in enumerate(groups):
                if t.args[0] in g:
                    return gi
            return len(groups)
        if t.ty is None:
            raise Unsupported('variant of %s' % t)
        if t.op == 'app' and t.args[0] == 'str.parse' and numeral(self, t):
            self.restrict(t, {0})
            return next((gi for gi, g in enumerate(groups) if 0 in g), len(groups))
        if t.haslam and self.merge_equiv(t):
            return self.variant_switch(t, groups)
        nv = len(self.ty.variants(t.ty))
        ex = self.path.excl.get(t, set())
        opts = []
        gis = []
        covered = set()
        for gi, g in enumerate(groups):
            g2 = [v for v in g if v not in ex]
            covered |= set(g)
            if not g2:
                continue
            opts.append(('in %s' % [self.ty.variants(t.ty)[v]['name'] for v in g2], (lambda g2=g2, t=t: self.restrict(t, set(g2)))))
            gis.append(gi)
        rest = [v for v in range(nv) if v not in covered and v not in ex]
        if rest:
            opts.append(('in %s' % [self.ty.variants(t.ty)[v]['name'] for v in rest] if len(rest) < 4 else 'other', (lambda t=t, rest=rest: self.restrict(t, set(rest)))))
            gis.append(len(groups))
        if not opts:
            raise Infeasible()
        if len(opts) == 1:
            opts[0][1]()
            return gis[0]
        i = self.choose(t, opts)
        return gis[i]

    def restrict(self, t, allowed):
        t = self.canon(t)
        if t.op == 'adt':
            if t.args[0] not in allowed:
                raise Infeasible()
            return
        nv = len(self.ty.variants(t.ty))
        ex = self.path.excl.get(t, set()) | (set(range(nv)) - allowed)
        left = [v for v in range(nv) if v not in ex]
        if not left:
            raise Infeasible()
        if len(left) == 1:
            self.set_variant(t, left[0])
        else:
            self.path.excl[t] = ex

    def set_variant(self, t, v):
        self.path.excl.pop(t, None)
        fs = self.ty.variants(t.ty)[v]['fields']
        pt = self.ty.peel(t.ty)
        r = mk('adt', (v,) + tuple(mk('fld', (t, v, i), self.ty.peel(f[1])) for i, f in enumerate(fs)), pt)
        self.path.eqs[t] = r
        self.bump()

    def variant_of(self, t, vs=None):
        """Fully decide the variant index of t."""
        t = self.canon(t)
        if t.op == 'adt':
            return t.args[0]
        if t.ty is None:
            raise Unsupported('variant of %s' % t)
        nv = len(self.ty.variants(t.ty))
        return self.variant_switch(t, [{v} for v in range(nv)])

    def truth(self, t):
        """Decide a boolean term."""
        if t is True or t is False:
            return t
        t = self.canon(t)
        if t.op == 'bool':
            return t.args[0]
        if t.op == 'not':
            return not self.truth(t.args[0])
        if t.op == 'and':
            for a in t.args:
                if not self.truth(a):
                    return False
            return True
        if t.op == 'or':
            for a in t.args:
                if self.truth(a):
                    return True
            return False
        if t.op in ('ilt', 'ile', 'ieq'):
            return self.truth_int(t)
        if t.op == 'eq':
            return self.truth_eq(t)
        if t.haslam:
            m = self.find_equiv(t)
            if m is not None:
                return self.truth(m)
        def yes():
            self.add_eq(t, TRUE)
            sh = text_shape(t)
            if sh is not None and sh[1] > 0:      # a text with such a part is at least as long
                self.path.zc.append((mk('ile', (I(sh[1]), mk('app', ('str.len', sh[0]), self.ty.find('usize')))), True))
        opts = [('true', yes), ('false', lambda: self.add_eq(t, FALSE))]
        return self.choose(t, opts) == 0

    def char_boundary(self, s, i, n):
        """Is byte index i (0 <= i <= n = length) of the text known to lie between two characters?"""
        d = lambda x, y: not self.z3check([(mk('ieq', (x, y)), False)])
        if d(i, I(0)) or d(i, n):
            return True
        for t, v in list(self.path.eqs.items()):
            if v is not TRUE or t.op != 'app':
                continue
            sh = text_shape(t)
            if sh is None or self.canon(sh[0]) is not s:
                continue
            for k in range(1, len(sh[2]) + 1):
                if sh[2][:k].isascii() and d(i, I(k)):
                    return True
            for k in range(1, len(sh[3]) + 1):
                if sh[3][-k:].isascii() and d(mk('iadd', (i, I(k))), n):
                    return True
        return False

    def truth_eq(self, t):
        a, b = t.args
        r = self.path.eqs.get(t)
        if r is not None:
            return r.args[0]
        def yes():
            self.add_eq(t, TRUE)
            if a.op == 'lit' or self.is_atom(b):
                self.add_eq(b, a)
            elif self.is_atom(a):
                self.add_eq(a, b)
        return self.choose(t, [('true', yes), ('false', lambda: self.add_eq(t, FALSE))]) == 0

    def is_atom(self, t):
        return t.op in ATOMS

    # ---- integers through z3
    def z(self, t, ctx):
        """term -> z3 int expression; collects range constraints into ctx (dict)."""
        t = self.canon(t)
        if t.op == 'int':
            return z3.IntVal(t.args[0])
        if t.op == 'iadd':
            return self.z(t.args[0], ctx) + self.z(t.args[1], ctx)
        if t.op == 'isub':
            return self.z(t.args[0], ctx) - self.z(t.args[1], ctx)
        if t.op == 'imul':
            return self.z(t.args[0], ctx) * self.z(t.args[1], ctx)
        if t.op == 'wrap':
            lo, hi, x = t.args
            e = self.z(x, ctx)
            m = hi - lo + 1
            r = self.interval(x)
            if r is not None and r[0] >= lo - m and r[1] <= hi + m:
                return z3.If(e > hi, e - m, z3.If(e < lo, e + m, e))
            return (e - lo) % m + lo
        if t.op == 'ite':
            return z3.If(self.zb(t.args[0], ctx), self.z(t.args[1], ctx), self.z(t.args[2], ctx))
        v = ctx.get(t)
        if v is None:
            x = z3.Int('t%d' % t.id)
            lo, hi = self.int_range(t)
            ctx[t] = v = x
            ctx.setdefault('#', []).append(z3.And(x >= lo, x <= hi))
        return v

    def zb(self, t, ctx):
        t = self.canon(t)
        if t.op == 'bool':
            return z3.BoolVal(t.args[0])
        if t.op == 'ilt':
            return self.z(t.args[0], ctx) < self.z(t.args[1], ctx)
        if t.op == 'ile':
            return self.z(t.args[0], ctx) <= self.z(t.args[1], ctx)
        if t.op == 'ieq':
            return self.z(t.args[0], ctx) == self.z(t.args[1], ctx)
        if t.op == 'not':
            return z3.Not(self.zb(t.args[0], ctx))
        if t.op == 'and':
            return z3.And([self.zb(a, ctx) for a in t.args])
        if t.op == 'or':
            return z3.Or([self.zb(a, ctx) for a in t.args])
        return z3.Bool('b%d' % t.id)

    def interval(self, t):
        """Range of values of an integer term, or None."""
        if t.op == 'int':
            return t.args[0], t.args[0]
        if t.op in ('iadd', 'isub'):
            a, b = self.interval(t.args[0]), self.interval(t.args[1])
            if a is None or b is None:
                return None
            return (a[0] + b[0], a[1] + b[1]) if t.op == 'iadd' else (a[0] - b[1], a[1] - b[0])
        if t.op == 'imul':
            a, b = self.interval(t.args[0]), self.interval(t.args[1])
            if a is None or b is None:
                return None
            c = [x * y for x in a for y in b]
            return min(c), max(c)
        if t.op == 'wrap':
            r = self.interval(t.args[2])
            if r is not None and r[0] >= t.args[0] and r[1] <= t.args[1]:
                return r
            return t.args[0], t.args[1]
        if t.op == 'len' or t.op not in INTOPS:
            return self.int_range(t)
        return None

    def int_range(self, t):
        if t.op == 'len':
            return 0, 1 << 62   # assumption: no collection has more elements
        if t.ty is not None:
            k = self.ty.get(self.ty.peel(t.ty))
            if k['k'] == 'int':
                b = k['bits']
                if k['signed'] and t.op == 'fld' and t.args[0].op == 'app' and t.args[0].args[0] == 'str.parse' and t.args[0].args[1].op == 'app' and t.args[0].args[1].args[:2] == ('np.out', 'digit1'):
                    return 0, (1 << (b - 1)) - 1     # digits only: no sign
                return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if k['signed'] else (0, (1 << b) - 1)
        return 0, (1 << 64) - 1

    def z3check(self, extra):
        """True if path int constraints + extra are satisfiable (unknown -> Unsupported)."""
        import time
        t0 = time.time()
        ctx = {}
        cs = []
        for c, pol in self.path.zc:
            e = self.zb(c, ctx)
            cs.append(e if pol else z3.Not(e))
        for c, pol in extra:
            e = self.zb(c, ctx)
            cs.append(e if pol else z3.Not(e))
        cs += ctx.get('#', [])
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*cs)
        r = s.check()
        self.stats['z3'] += 1
        self.stats['z3_time'] += time.time() - t0
        if r == z3.unknown:
            raise Unsupported('z3 unknown')
        if r == z3.sat:
            self.last_model = (s.model(), ctx)
        return r == z3.sat

    def truth_int(self, t):
        r = self.path.eqs.get(t)
        if r is not None:
            return r.args[0]
        for x, y in ((t.args[0], t.args[1]), (t.args[1], t.args[0])):
            if y.op == 'int' and y.args[0] <= 4:
                x1 = x.args[1] if x.op == 'iadd' and x.args[0].op == 'int' else x.args[0] if x.op == 'iadd' and x.args[1].op == 'int' else x
                if x1.op == 'len':
                    sg = self.segs(x1.args[0])
                    if len(sg) == 1 and sg[0].op == 'all' and sg[0].args[0].op in ATOMS:
                        base = x.args[0].args[0] if x.op == 'iadd' and x.args[0].op == 'int' else 0
                        if base <= y.args[0]:
                            self.split_atom(sg[0].args[0])
                            return self.truth(t)
        can_t = self.z3check([(t, True)])
        can_f = self.z3check([(t, False)])
        if not can_t and not can_f:
            raise Infeasible()
        if not can_f:
            return True
        if not can_t:
            return False

        def eff(pol):
            def f():
                self.path.zc.append((t, pol))
                if t.op == 'ieq' and pol:
                    a, b = self.canon(t.args[0]), self.canon(t.args[1])
                    if self.is_atom(a) and b.op == 'int':
                        self.add_eq(a, b)
                    elif self.is_atom(b) and a.op == 'int':
                        self.add_eq(b, a)
            return f
        return self.choose(t, [('true', eff(True)), ('false', eff(False))]) == 0

    # ------------------------------------------------------------------ sequences
    def segs(self, t):
        t = self.canon(t)
        if t.op != 'seq':
            raise Unsupported('not a sequence: %s' % t)
        return t.args

    def force_cons(self, t):
        """Decide whether sequence t is empty; returns None or (head, tailseq)."""
        while True:
            s = self.segs(t)
            if not s:
                return None
            g = s[0]
            if g.op == 'one':
                return g.args[0], mk('seq', s[1:])
            if g.op == 'all':
                self.split_atom(g.args[0])
                t = mk('seq', s)
                continue
            if g.op == 'fm':
                lam, src = g.args
                if src.op == 'one':
                    r = lam.call(src.args[0])
                    if r[0] == 'err':
                        raise Infeasible()
                    if r[0] == 'panic':
                        raise Infeasible()
                    t = mk('seq', tuple(self.segs(r[1])) + tuple(s[1:]))
                    continue
                # 1-1 maps: splitting the source is enough
                self.split_src(src)
                t = mk('seq', s)
                s2 = self.segs(t)
                if s2 and s2[0] is g:
                    raise Unsupported('cannot split %s' % g)
                continue
            raise Unsupported('force %s' % g)

    def split_src(self, src):
        if src.op == 'all':
            self.split_atom(src.args[0])
        else:
            raise Unsupported('split of %s' % src)

    def split_atom(self, a):
        a0 = a
        ety = self.ty.elem(a.ty)
        def nil():
            self.path.eqs[a0] = NILSEQ
            self.bump()
        def cons():
            h = mk('fld', (a0, 'c', 0), ety)
            tl = mk('fld', (a0, 'c', 1), a0.ty)
            self.path.eqs[a0] = mk('seq', (one(h), allseg(tl)))
            self.bump()
        if a.op == 'app' and a.args[0] == 'str.split':      # splitting yields at least one part
            cons()
            return
        if a.op == 'app' and a.args[0] == 'np.out' and a.args[1] in ('many1', 'many2', 'separated_list1'):
            cons()
            return
        if a.op == 'app' and a.args[0] in ('set.iter', 'set.sorted'):      # a set is empty when nothing was put in it
            nil() if self.force_cons(a.args[1]) is None else cons()
            return
        self.choose(a, [('nil', nil), ('cons', cons)])

    def lam_apply_seq(self, lam, x):
        """Elements produced by lam on x, assuming it does not fail."""
        r = lam.call(x)
        if r[0] == 'err':
            raise Infeasible()
        return self.segs(r[1])

    # ------------------------------------------------------------------ equality
    def equal(self, a, b):
        """Are terms a and b equal on the current path (for all values of the symbols)?"""
        a = self.canon(a)
        b = self.canon(b)
        if a is b:
            return True
        if not isinstance(a, T) or not isinstance(b, T):
            return a == b
        if a.op in INTOPS or b.op in INTOPS or a.op == 'int' or b.op == 'int':
            ka, kb = self.isint(a), self.isint(b)
            if ka and kb:
                return not self.z3check([(mk('ieq', (a, b)), False)])
            return False
        return self.equal_parts(a, b)

    def equal_parts(self, a, b):
        if a.op != b.op:
            return False
        if a.op == 'adt':
            return a.ty == b.ty and a.args[0] == b.args[0] and all(self.equal(x, y) for x, y in zip(a.args[1:], b.args[1:]))
        if a.op in ('lit', 'bool', 'var', 'bvar'):
            return False
        if a.op == 'all':
            return self.equal_parts(a.args[0], b.args[0])
        if a.op in ('seq', 'cat', 'tup', 'one', 'all', 'join', 'set', 'not', 'and', 'or'):
            if len(a.args) != len(b.args):
                return False
            return all(self.equal(x, y) for x, y in zip(a.args, b.args))
        if a.op in ('fm', 'smap', 'allok', 'foldok', 'fold', 'anypanic'):
            if len(a.args) != len(b.args):
                return False
            for x, y in zip(a.args, b.args):
                if isinstance(x, Lam):
                    continue
                if not self.equal(x, y):
                    return False
            la = [x for x in a.args if isinstance(x, Lam)]
            lb = [x for x in b.args if isinstance(x, Lam)]
            return all(self.lam_equal(x, y, a.op) for x, y in zip(la, lb))
        if a.op == 'fld':
            # canonical projections of symbols: equal only if the same, or of equal applications
            while a.op == 'fld' and b.op == 'fld' and a.args[1:] == b.args[1:]:
                a, b = a.args[0], b.args[0]
            if a.op != 'app' or b.op != 'app':
                return a is b
        if a.op in ('app', 'eq', 'ilt', 'ile', 'ieq', 'len') and len(a.args) == len(b.args):
            return all((self.equal(x, y) if isinstance(x, T) and isinstance(y, T) else x == y) for x, y in zip(a.args, b.args))
        return False

    def isint(self, t):
        if t.op == 'int' or t.op in INTOPS:
            return True
        return t.ty is not None and self.ty.kind(t.ty) == 'int'

    def lam_equal(self, f, g, op):
        f, g = self.path.lamrep(f), self.path.lamrep(g)
        if f is g:
            return True
        k = (f, g, op)
        if k in self.path.lamneq:
            return False
        if f.ety != g.ety:
            return False
        self.stats['lam_checks'] += 1
        n = self.bvar_id()
        x = self.bvar_of(n, f.ety)
        ok = [True]
        strict = [True]
        okonly = op in ('allok', 'anypanic')

        def run():
            try:
                a = f.call(x)
            except PanicExc:
                a = ('panic',)
            try:
                b = g.call(x)
            except PanicExc:
                b = ('panic',)
            return a, b

        def on(kind, v, p):
            if not ok[0]:
                return
            if kind != 'ret':
                ok[0] = False
                return
            a, b = v
            if a[0] != b[0]:
                # under an assumed allok(.) the erring path is impossible for either side
                if op in ('fm', 'smap') and 'err' in (a[0], b[0]):
                    strict[0] = False
                    return
                if 'panic' in (a[0], b[0]) and op in ('fm', 'smap', 'fold'):
                    strict[0] = False
                    return
                ok[0] = False
                self.last_diff = (a, b, list(p.log))
                return
            if a[0] == 'ok' and not okonly:
                if not self.equal(a[1], b[1]):
                    ok[0] = False
                    self.last_diff = (a, b, list(p.log))
        self.explore(run, on, local=frozenset((n,)))
        if ok[0] and not okonly and strict[0]:
            self.path.lamuf[g] = f
            self.path.gen += 1
            self.path.ccache = {}
        elif not ok[0]:
            self.path.lamneq.add(k)
        return ok[0]

    def bvar_id(self):
        # unique along the chain of paths, deterministic
        return ('b', self.fresh_id(), len(self.path.local), self.depth())

    def depth(self):
        d = 0
        p = self.path
        while p is not None:
            d += 1
            p = p.parent
        return d

    def bvar_of(self, n, ety):
        if isinstance(ety, tuple):   # tuple of types -> tuple of bvars sharing the binder
            return mk('tup', tuple(mk('bvar', (n, i), self.ty.peel(t)) for i, t in enumerate(ety)))
        return mk('bvar', (n, 0), self.ty.peel(ety))

    def merge_equiv(self, t):
        """If t (containing binders) is provably equal to a term already decided on this path, identify them."""
        p = self.path
        if t in p.excl:
            return False
        for k in list(p.excl) + list(p.eqs):
            if k is not t and k.op == t.op and k.haslam and k.ty == t.ty and self.equal_parts(k, t):
                p.eqs[t] = p.eqs.get(k) or k
                self.bump()
                return True
        return False

    def find_equiv(self, t):
        p = self.path
        for k in list(p.eqs):
            if k.op == t.op and k is not t and k.haslam:
                if self.equal_parts(k, t):
                    return p.eqs.get(k) or k
        return None


ATOMS = {'var', 'bvar', 'fld', 'app', 'fold', 'ite'}
INTOPS = {'iadd', 'isub', 'imul', 'wrap', 'len', 'ite'}


# ---------------------------------------------------------------------- simplifiers
def s_seq(E, args, ty):
    out = []
    for g in args:
        if g.op == 'one':
            out.append(g)
        elif g.op == 'seq':
            out.extend(g.args)
        elif g.op == 'all':
            s = g.args[0]
            if s.op == 'seq':
                out.extend(s.args)
            else:
                c = E.canon(s)
                if c.op == 'seq' and not (len(c.args) == 1 and c.args[0].op == 'all' and c.args[0].args[0] is s):
                    out.extend(c.args)
                else:
                    out.append(g)
        elif g.op == 'fm':
            lam, src = g.args
            if src.op == 'seq':
                for h in src.args:
                    if h.op == 'one':
                        r = E.quiet(lambda: E.lam_apply_seq(lam, h.args[0]))
                        if r is None:
                            out.append(mk('fm', (lam, h)))
                        else:
                            out.extend(r)
                    elif h.op == 'fm':
                        out.append(mk('fm', (compose(E, lam, h.args[0]), h.args[1])))
                    elif h.op == 'all':
                        out.append(mk('fm', (lam, h)))
                    else:
                        raise Unsupported('fm over %s' % h)
            elif src.op == 'all':
                c = E.canon(src.args[0])
                if c.op == 'seq' and not (len(c.args) == 1 and c.args[0].op == 'all' and c.args[0].args[0] is src.args[0]):
                    out.extend(s_seq(E, (mk('fm', (lam, c)),), None).args)
                else:
                    out.append(g)
            elif src.op == 'one':
                r = E.quiet(lambda: E.lam_apply_seq(lam, src.args[0]))
                if r is None:
                    out.append(g)
                else:
                    out.extend(r)
            else:
                out.append(g)
        else:
            out.append(g)
    return mk('seq', tuple(out))


def compose(E, g, f):
    """x -> flatmap g (f x)"""
    key = ('compose', g, f)
    c = f.cache.get(key)
    if c is None:
        def call(x, g=g, f=f):
            r = f.call(x)
            if r[0] != 'ok':
                return r
            out = []
            for s in E.segs(r[1]):
                if s.op == 'one':
                    q = g.call(s.args[0])
                    if q[0] != 'ok':
                        return q
                    out.extend(E.segs(q[1]))
                else:
                    out.append(mk('fm', (g, s)))
            return ('ok', E.canon(mk('seq', tuple(out))))
        c = Lam(call, f.ety, f.bvs | g.bvs, g.label + '∘' + f.label)
        f.cache[key] = c
    return c


def s_cat(E, args, ty):
    out = []

    def add(x):
        if x.op == 'cat':
            for y in x.args:
                add(y)
            return
        if x.op == 'lit':
            if x.args[0] == '':
                return
            if out and out[-1].op == 'lit':
                out[-1] = lit(out[-1].args[0] + x.args[0])
                return
        out.append(x)
    for a in args:
        add(a)
    if not out:
        return lit('')
    if len(out) == 1:
        return out[0]
    return mk('cat', tuple(out))


def s_join(E, args, ty):
    """join(sep, seq)"""
    sep, s = args
    segs = E.segs(s)
    if all(g.op == 'one' for g in segs):
        parts = []
        for i, g in enumerate(segs):
            if i:
                parts.append(sep)
            parts.append(g.args[0])
        return s_cat(E, parts, None)
    if sep is lit(''):
        parts = []
        for g in segs:
            if g.op == 'one':
                parts.append(g.args[0])
            else:
                parts.append(mk('smap', (g,)))
        return s_cat(E, parts, None)
    return mk('join', (sep, mk('seq', segs)))


def s_iadd(E, a, ty):
    x, y = a
    if x.op == 'int' and y.op == 'int':
        return I(x.args[0] + y.args[0])
    if y is I(0):
        return x
    if x is I(0):
        return y
    if y.op == 'int':
        x, y = y, x
    if x.op == 'int' and y.op == 'iadd' and y.args[0].op == 'int':
        return s_iadd(E, (I(x.args[0] + y.args[0].args[0]), y.args[1]), ty)
    if x.op == 'iadd' and x.args[0].op == 'int':
        return s_iadd(E, (x.args[0], s_iadd(E, (x.args[1], y), ty)), ty)
    return mk('iadd', (x, y))


def s_isub(E, a, ty):
    x, y = a
    if x.op == 'int' and y.op == 'int':
        return I(x.args[0] - y.args[0])
    if y is I(0):
        return x
    return mk('isub', (x, y))


def s_imul(E, a, ty):
    x, y = a
    if x.op == 'int' and y.op == 'int':
        return I(x.args[0] * y.args[0])
    return mk('imul', (x, y))


def s_wrap(E, a, ty):
    lo, hi, x = a
    if x.op == 'int':
        m = hi - lo + 1
        return I((x.args[0] - lo) % m + lo)
    r = E.interval(x)
    if r is not None and r[0] >= lo and r[1] <= hi:
        return x
    return mk('wrap', (lo, hi, x))


def numeral(E, t):
    """A floating-point number read from digits "." digits: always well formed."""
    if E.ty.get(E.ty.peel(t.ty))['s'] != 'std::result::Result<f64, std::num::ParseFloatError>':
        return False
    s = t.args[1]
    return s.op == 'cat' and len(s.args) == 3 and s.args[1].op == 'lit' and s.args[1].args[0] == '.' and all(
        x.op == 'app' and x.args[:2] == ('np.out', 'digit1') for x in (s.args[0], s.args[2]))


def s_icmp(op):
    def f(E, a, ty):
        x, y = a
        if x.op == 'int' and y.op == 'int':
            p, q = x.args[0], y.args[0]
            return B(p < q if op == 'ilt' else p <= q if op == 'ile' else p == q)
        if x is y:
            return B(op != 'ilt')
        if x.op == 'int' or y.op == 'int':
            p, q = E.interval(x), E.interval(y)
            if p is not None and q is not None:
                if op == 'ilt' and (p[1] < q[0] or p[0] >= q[1]):
                    return B(p[1] < q[0])
                if op == 'ile' and (p[1] <= q[0] or p[0] > q[1]):
                    return B(p[1] <= q[0])
                if op == 'ieq' and (p[1] < q[0] or q[1] < p[0]):
                    return FALSE
        if op == 'ieq':
            if x.op == 'int':
                x, y = y, x
            if y.op == 'int' and y.args[0] == 0 and x.op == 'app' and x.args[0] == 'str.len':
                return E.canon(mk('eq', (lit(''), x.args[1])))
        return mk(op, (x, y))
    return f


def s_not(E, a, ty):
    x = a[0]
    if x.op == 'bool':
        return B(not x.args[0])
    if x.op == 'not':
        return x.args[0]
    return mk('not', (x,))


def s_and(E, a, ty):
    out = []
    for x in a:
        if x is FALSE:
            return FALSE
        if x is TRUE or x in out:
            continue
        out.append(x)
    return TRUE if not out else out[0] if len(out) == 1 else mk('and', tuple(out))


def s_or(E, a, ty):
    out = []
    for x in a:
        if x is TRUE:
            return TRUE
        if x is FALSE or x in out:
            continue
        out.append(x)
    return FALSE if not out else out[0] if len(out) == 1 else mk('or', tuple(out))


def s_eq(E, a, ty):
    x, y = a
    if x is y:
        return TRUE
    if x.op in ('lit', 'bool') and y.op == x.op:
        return FALSE
    if x.op == 'adt' and y.op == 'adt':
        if x.args[0] != y.args[0]:
            return FALSE
        return s_and(E, [E.canon(mk('eq', (p, q))) for p, q in zip(x.args[1:], y.args[1:])], None)
    if E.isint(x) and E.isint(y):
        return s_icmp('ieq')(E, a, ty)
    if y.op in ('lit',):
        x, y = y, x
    if x.op == 'lit' and y.op == 'cat':
        # prefix / suffix disagreement decides some cases
        L = x.args[0]
        ps = y.args
        if ps[0].op == 'lit' and not L.startswith(ps[0].args[0]):
            return FALSE
        if ps[-1].op == 'lit' and not L.endswith(ps[-1].args[0]):
            return FALSE
    return mk('eq', (x, y))


def one_to_one(E, lam):
    """Does lam map every element to exactly one element (where it succeeds)?"""
    r = lam.cache.get('1-1')
    if r is None:
        r = [True]
        n = E.bvar_id()
        x = E.bvar_of(n, lam.ety)

        def on(k, v, p):
            if k == 'ret' and v[0] == 'ok' and not v[1]:
                r[0] = False

        def run():
            q = lam.call(x)
            return q if q[0] != 'ok' else ('ok', [g.op for g in E.segs(q[1])] == ['one'])
        E.explore(run, on, local=frozenset((n,)))
        r = lam.cache['1-1'] = r[0]
    return r


def s_len(E, a, ty):
    s = E.segs(a[0])
    n = sum(1 for g in s if g.op == 'one')
    rest = [g for g in s if g.op != 'one']
    t = I(n)
    for g in rest:
        while g.op == 'fm' and g.args[1].op in ('all', 'one') and one_to_one(E, g.args[0]):
            g = g.args[1]
        if g.op == 'one':
            t = s_iadd(E, (I(1), t), None)
        else:
            t = s_iadd(E, (t, mk('len', (mk('seq', (g,)),))), None)
    return t


def s_allok(E, a, ty):
    lam, s = a
    out = []
    if s.op == 'one':
        segs = (s,)
    else:
        segs = E.segs(s) if s.op == 'seq' else E.segs(mk('seq', (s,)))
    for g in segs:
        if g.op == 'one':
            r = E.quiet(lambda: lam.call(g.args[0]))
            if r is None:
                out.append(mk('allok', (lam, g)))
            else:
                out.append(B(r[0] == 'ok'))
        elif g.op == 'fm':
            l2 = compose(E, lam, g.args[0])
            if not never_fails(E, l2):
                out.append(mk('allok', (l2, g.args[1])))
        elif not never_fails(E, lam):
            out.append(mk('allok', (lam, g)))
    return s_and(E, out, None)


def never_fails(E, lam):
    """True if no path of the function, for an arbitrary element, fails."""
    r = lam.cache.get('never')
    if r is None:
        bad = []
        b = E.bvar_id()
        ety = lam.ety
        if isinstance(ety, tuple):
            return False

        def on(kind, v, p):
            if kind != 'ret' or v[0] != 'ok':
                bad.append(1)
        E.explore(lambda: lam.call(E.bvar_of(b, ety)), on, local=frozenset([b]))
        r = lam.cache['never'] = not bad
    return r


def s_app(E, a, ty):
    f = a[0]
    h = APPS.get(f)
    if h is not None:
        r = h(E, a[1:], ty)
        if r is not None:
            return r
    return mk('app', a, ty)


def s_all(E, a, ty):
    x = a[0]
    if x.op == 'seq' and len(x.args) == 1 and x.args[0].op == 'all':
        return x.args[0]
    return mk('all', (x,))


def s_fm(E, a, ty):
    lam, src = a
    if src.op == 'all' and src.args[0].op == 'seq':
        return mk('fm', (lam, src.args[0]))
    return mk('fm', a)


def s_smap(E, a, ty):
    g = a[0]
    segs = s_seq(E, (g,), None).args
    parts = []
    for h in segs:
        if h.op == 'one':
            parts.append(h.args[0])
        else:
            parts.append(mk('smap', (h,)))
    if len(parts) == 1 and parts[0].op == 'smap':
        return parts[0]
    return s_cat(E, parts, None)


SIMP = {'all': s_all, 'fm': s_fm, 'smap': s_smap, 'seq': s_seq, 'cat': s_cat, 'join': s_join, 'iadd': s_iadd, 'isub': s_isub, 'imul': s_imul, 'wrap': s_wrap,
        'ilt': s_icmp('ilt'), 'ile': s_icmp('ile'), 'ieq': s_icmp('ieq'), 'not': s_not, 'and': s_and, 'or': s_or,
        'eq': s_eq, 'len': s_len, 'allok': s_allok, 'app': s_app}

APPS = {}


def compose_fold(E, lam, f):
    """fold step over the source of a flatmap f"""
    key = ('cfold', lam, f)
    c = f.cache.get(key)
    if c is None:
        n = len(lam.ety) - 1

        def call(xx):
            st = mk('tup', xx.args[:n])
            r = f.call(xx.args[n])
            if r[0] != 'ok':
                return r
            for g in E.segs(r[1]):
                if g.op == 'one':
                    q = lam.call(mk('tup', st.args + (g.args[0],)))
                    if q[0] != 'ok':
                        return q
                    st = q[1]
                else:
                    st = mk('tup', tuple(E.canon(mk('fold', (lam, I(j), st, g), lam.ety[j])) for j in range(n)))
            return ('ok', st)
        c = Lam(call, lam.ety[:n] + (f.ety,), lam.bvs | f.bvs, lam.label + '∘' + f.label)
        f.cache[key] = c
    return c


def fold_segs(E, src):
    if src.op in ('lits', 'one'):
        return (src,)
    return E.segs(src) if src.op == 'seq' else s_seq(E, (src,), None).args


def flat_fold(E, lam, ini):
    """Constructor invariants of a fold state: if a component starts as a known constructor and the step keeps that
    constructor (whatever the payload), the fold is over the payload.  Returns (lam', ini', rebuild) or None."""
    cand = []
    for j, x in enumerate(ini.args):
        x = E.canon(x)
        if x.op == 'adt':
            cand.append((j, x.args[0], x.ty))
    if not cand:
        return None
    key = ('flat', tuple(cand))
    r = lam.cache.get(key)
    if r is None:
        cur = cand
        while cur:
            bad = set()
            b = E.bvar_id()
            l2 = _flat_lam(E, lam, cur)
            names = [b + ('acc', i) for i in range(len(l2.ety) - 1)]
            arg = mk('tup', tuple(mk('bvar', (names[i], 0), l2.ety[i]) for i in range(len(names))) + (E.bvar_of(b, l2.ety[-1]),))

            def on(kind, v, p):
                if kind == 'ret' and v[0] == 'ok':
                    for k in v[1]:
                        bad.add(k)

            def run():
                q = lam.call(_unflat(E, lam, cur, arg.args))
                if q[0] != 'ok':
                    return q
                return ('ok', [c for c in cur if not (lambda y: y.op == 'adt' and y.args[0] == c[1])(E.canon(q[1].args[c[0]]))])
            E.explore(run, on, local=frozenset([b] + names))
            if not bad:
                break
            cur = [c for c in cur if c not in bad]
        r = lam.cache[key] = (_flat_lam(E, lam, cur), cur) if cur else (None, None)
    l2, cur = r
    if l2 is None:
        return None
    at = {c[0]: c for c in cur}
    st, pos = [], []
    for j, x in enumerate(ini.args):
        if j in at:
            fs = E.canon(x).args[1:]
            pos.append((len(st), len(fs)))
            st.extend(fs)
        else:
            pos.append((len(st), None))
            st.append(x)
    return l2, mk('tup', tuple(st)), pos, at


def _unflat(E, lam, cur, args):
    at = {c[0]: c for c in cur}
    out, p = [], 0
    for j in range(len(lam.ety) - 1):
        if j in at:
            n = len(E.ty.variants(at[j][2])[at[j][1]]['fields'])
            out.append(mk('adt', (at[j][1],) + tuple(args[p:p + n]), at[j][2]))
            p += n
        else:
            out.append(args[p])
            p += 1
    return mk('tup', tuple(out) + tuple(args[p:]))


def _flat_lam(E, lam, cur):
    at = {c[0]: c for c in cur}
    tys = []
    for j, t in enumerate(lam.ety[:-1]):
        if j in at:
            tys.extend(E.ty.peel(f[1]) for f in E.ty.variants(at[j][2])[at[j][1]]['fields'])
        else:
            tys.append(t)

    def call(xx):
        q = lam.call(_unflat(E, lam, cur, xx.args))
        if q[0] != 'ok':
            return q
        out = []
        for j, y in enumerate(q[1].args):
            if j in at:
                out.extend(E.canon(y).args[1:])
            else:
                out.append(y)
        return ('ok', mk('tup', tuple(out)))
    return Lam(call, tuple(tys) + (lam.ety[-1],), lam.bvs, lam.label + '!')


def fold_info(E, lam):
    """How the step uses its state: (components returned unchanged, append-only components, state-dependent failure)."""
    r = lam.cache.get('info')
    if r is not None:
        return r
    n = len(lam.ety) - 1
    b = E.bvar_id()
    names = [b + ('acc', i) for i in range(n)]
    accs = [mk('bvar', (names[i], 0), lam.ety[i]) for i in range(n)]
    arg = mk('tup', tuple(accs) + (E.bvar_of(b, lam.ety[-1]),))
    an = frozenset(names)
    const, app = set(range(n)), {i for i in range(n) if E.ty.kind(lam.ety[i]) == 'seq'}
    dec, deps = set(), [set() for _ in range(n)]
    owner = {nm: i for i, nm in enumerate(names)}
    err = [False]

    def run():
        q = lam.call(arg)
        if q[0] != 'ok':
            return q
        return ('ok', [E.canon(x) for x in q[1].args])

    def on(kind, v, p):
        for key, _ in p.log:
            dec.update(owner[x] for x in key.bv & an)
        if kind != 'ret' or v[0] != 'ok':
            err[0] = True
            return
        for i, y in enumerate(v[1]):
            if y is not accs[i]:
                if not (y.op == 'seq' and len(y.args) == 1 and y.args[0] is allseg(accs[i])):
                    const.discard(i)
            if i in app:
                ok = y.op == 'seq' and y.args and y.args[0] is allseg(accs[i])
                if ok:
                    rest = set()
                    for x in y.args[1:]:
                        rest |= {owner[z] for z in x.bv & an}
                    deps[i] |= rest
                    if rest:
                        app.discard(i)
                else:
                    app.discard(i)
            if i not in app:
                deps[i] |= {owner[z] for z in y.bv & an}
    E.explore(run, on, local=frozenset([b] + names))
    if dec:
        app.clear()
    app -= const
    for i in range(n):
        if i in app and any(i in deps[j] for j in range(n) if j != i and j not in const):
            app.discard(i)
    need = []
    for i in range(n):
        c, ch = {i} | dec, True
        while ch:
            ch = False
            for d in list(c):
                if not deps[d] <= c:
                    c |= deps[d]
                    ch = True
        need.append(tuple(sorted(c)))
    r = lam.cache['info'] = (frozenset(const), frozenset(app), bool(dec), need, accs)
    return r


def fold_sub(E, lam, keep, fixed):
    """The fold restricted to the components `keep`; the others have the constant values `fixed`."""
    key = ('sub', keep, tuple(sorted(fixed.items(), key=lambda kv: kv[0])))
    r = lam.cache.get(key)
    if r is None:
        n = len(lam.ety) - 1
        gen = fold_info(E, lam)[4]
        bvs = lam.bvs
        for v in fixed.values():
            bvs = bvs | v.bv

        def call(xx):
            st = [fixed.get(i, gen[i]) for i in range(n)]
            for k, i in enumerate(keep):
                st[i] = xx.args[k]
            q = lam.call(mk('tup', tuple(st) + (xx.args[-1],)))
            if q[0] != 'ok':
                return q
            return ('ok', mk('tup', tuple(q[1].args[i] for i in keep)))
        r = lam.cache[key] = Lam(call, tuple(lam.ety[i] for i in keep) + (lam.ety[-1],), bvs, lam.label)
    return r


def fold_app(E, lam, i, fixed):
    """What one step appends to the append-only component i."""
    key = ('app', i, tuple(sorted(fixed.items(), key=lambda kv: kv[0])))
    r = lam.cache.get(key)
    if r is None:
        n = len(lam.ety) - 1
        gen = fold_info(E, lam)[4]
        bvs = lam.bvs
        for v in fixed.values():
            bvs = bvs | v.bv

        def call(x):
            q = lam.call(mk('tup', tuple(fixed.get(j, gen[j]) for j in range(n)) + (x,)))
            if q[0] != 'ok':
                return q
            y = E.canon(q[1].args[i])
            return ('ok', E.canon(mk('seq', y.args[1:])))
        r = lam.cache[key] = Lam(call, lam.ety[-1], bvs, lam.label + '+')
    return r


def s_fold(E, a, ty):
    lam, i, ini, src = a
    fl = flat_fold(E, lam, ini)
    if fl is not None:
        l2, st, pos, at = fl
        j = i.args[0]
        p, n = pos[j]
        if n is None:
            return E.canon(mk('fold', (l2, I(p), st, src), l2.ety[p]))
        return mk('adt', (at[j][1],) + tuple(E.canon(mk('fold', (l2, I(p + k), st, src), l2.ety[p + k])) for k in range(n)), at[j][2])
    const, app, dec, need, gen = fold_info(E, lam)
    k = i.args[0]
    if k in const:
        return E.canon(ini.args[k])
    fixed = {c: E.canon(ini.args[c]) for c in const}
    if k in app:
        ss = fold_segs(E, src)
        if all(g.op in ('all', 'fm') for g in ss):
            l2 = fold_app(E, lam, k, fixed)
            return E.canon(mk('seq', tuple(E.segs(ini.args[k])) + tuple(
                mk('fm', (l2, g)) if g.op == 'all' else mk('fm', (compose(E, l2, g.args[0]), g.args[1])) for g in ss)))
        return _fold_run(E, lam, i, ini, src, ty)
    keep = tuple(c for c in need[k] if c not in const)
    if len(keep) < len(lam.ety) - 1:
        l2 = fold_sub(E, lam, keep, fixed)
        return E.canon(mk('fold', (l2, I(keep.index(k)), mk('tup', tuple(ini.args[c] for c in keep)), src), ty))
    return _fold_run(E, lam, i, ini, src, ty)


def _fold_run(E, lam, i, ini, src, ty):
    segs = fold_segs(E, src)
    st = ini
    for k, g in enumerate(segs):
        if g.op == 'one':
            r = E.quiet(lambda: lam.call(mk('tup', st.args + (g.args[0],))))
            if r is None:
                if any(h.op == 'lits' for h in segs[k:]):
                    raise Unsupported('pending fold over literals')
                return mk('fold', (lam, i, st, mk('seq', tuple(segs[k:]))), ty)
            if r[0] != 'ok':
                raise Infeasible()
            st = r[1]
        else:
            l, s = lam, g
            if g.op == 'fm':
                l, s = compose_fold(E, lam, g.args[0]), g.args[1]
            st = mk('tup', tuple(mk('fold', (l, I(j), st, s), lam.ety[j]) for j in range(len(st.args))))
    return st.args[i.args[0]]


def s_foldok(E, a, ty):
    lam, ini, src = a
    fl = flat_fold(E, lam, ini)
    if fl is not None:
        return E.canon(mk('foldok', (fl[0], fl[1], src)))
    const, app, dec, need, gen = fold_info(E, lam)
    fixed = {c: E.canon(ini.args[c]) for c in const}
    if not dec:
        key = ('okelem', tuple(sorted(fixed.items(), key=lambda kv: kv[0])))
        l2 = lam.cache.get(key)
        if l2 is None:
            n = len(lam.ety) - 1
            bvs = lam.bvs
            for v in fixed.values():
                bvs = bvs | v.bv

            def okcall(x):
                q = lam.call(mk('tup', tuple(fixed.get(j, gen[j]) for j in range(n)) + (x,)))
                return ('ok', UNIT) if q[0] == 'ok' else ('err',)
            l2 = lam.cache[key] = Lam(okcall, lam.ety[-1], bvs, 'ok:' + lam.label)
        return E.canon(mk('allok', (l2, src)))
    if fixed:
        keep = tuple(c for c in range(len(lam.ety) - 1) if c not in const)
        return E.canon(mk('foldok', (fold_sub(E, lam, keep, fixed), mk('tup', tuple(ini.args[c] for c in keep)), src)))
    segs = fold_segs(E, src)
    st = ini
    out = []
    for k, g in enumerate(segs):
        if g.op == 'one':
            r = E.quiet(lambda: lam.call(mk('tup', st.args + (g.args[0],))))
            if r is None:
                out.append(mk('foldok', (lam, st, mk('seq', tuple(segs[k:])))))
                return s_and(E, out, None)
            if r[0] != 'ok':
                return FALSE
            st = r[1]
        else:
            l, s = lam, g
            if g.op == 'fm':
                l, s = compose_fold(E, lam, g.args[0]), g.args[1]
            out.append(mk('foldok', (l, st, s)))
            st = mk('tup', tuple(mk('fold', (l, I(j), st, s), lam.ety[j]) for j in range(len(st.args))))
    return s_and(E, out, None)


SIMP['fold'] = s_fold
SIMP['foldok'] = s_foldok
