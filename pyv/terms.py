"""Terms of the Python verifier: nested tuples, with binders named by unique numbers and canonical forms that do not depend on them."""
import itertools

_uid = itertools.count(1)


def uid():
    return next(_uid)


def C(v):
    return ('c', type(v).__name__, v)


NONE = C(None)


def isc(t):
    return t[0] == 'c'


def bv(u, k, sort='any'):
    return ('bv', u, k, sort)


# operators with a binder: position of the number, of the parts in its scope
BIND = {'flat': (2, (3,)), 'fold': (2, (4,)), 'loop': (2, (4,)), 'lam': (1, (3,)), 'allq': (2, (3,))}


def mentions(t, p):
    if not isinstance(t, tuple):
        return False
    if t and t[0] == 'bv' and p(t):
        return True
    return any(mentions(x, p) for x in t)


def subst(t, f):
    """Replace the sub-terms for which f gives something."""
    if not isinstance(t, tuple) or not t:
        return t
    r = f(t)
    if r is not None:
        return r
    if t[0] == 'c':
        return t
    return tuple(subst(x, f) for x in t)


def ite(a, x, y):
    return x if x == y else ('ite', a, x, y)


def tree_atoms(t, out):
    if t[0] == 'ite':
        if t[1] not in out:
            out.append(t[1])
        tree_atoms(t[2], out)
        tree_atoms(t[3], out)
    return out


def restrict(t, a, v):
    if t[0] == 'ite':
        if t[1] == a:
            return restrict(t[2] if v else t[3], a, v)
        x, y = restrict(t[2], a, v), restrict(t[3], a, v)
        return t if (x, y) == t[2:] else ite(t[1], x, y)
    return t


def order(t):
    """Reduced, ordered decision tree."""
    if t[0] != 'ite':
        return t
    a = min(tree_atoms(t, []), key=repr)
    return ite(a, order(restrict(t, a, True)), order(restrict(t, a, False)))


def tree_map(t, f):
    if t[0] == 'ite':
        return ite(t[1], tree_map(t[2], f), tree_map(t[3], f))
    return f(t)


def tree_leaves(t):
    if t[0] == 'ite':
        return tree_leaves(t[2]) + tree_leaves(t[3])
    return [t]


def tree_of(paths):
    """A decision tree from (trail, leaf) pairs, a trail being a list of (atom, value)."""
    if not paths:
        raise ValueError('no path')
    if len(paths) == 1 and not paths[0][0]:
        return paths[0][1]
    a = paths[0][0][0][0]
    ka = repr(canon(a))
    same = {id(tr): tr[0][0] is a or repr(canon(tr[0][0])) == ka for tr, _ in paths if tr}
    yes = [(tr[1:], x) for tr, x in paths if tr and same[id(tr)] and tr[0][1]]
    no = [(tr[1:], x) for tr, x in paths if tr and same[id(tr)] and not tr[0][1]]
    if len(yes) + len(no) != len(paths):
        raise ValueError('paths do not form a tree: %s' % [[(show(a)[:80], v) for a, v in tr] for tr, _ in paths][:6])
    if not yes:
        return tree_of(no)
    if not no:
        return tree_of(yes)
    return ite(a, tree_of(yes), tree_of(no))


def canon(t, env=None, depth=0):
    """Bound variables by depth, decision trees ordered, states of a fold in canonical order."""
    if not isinstance(t, tuple) or not t or t[0] == 'c':
        return t
    env = env or {}
    if t[0] == 'bv':
        return ('bv', env.get(t[1], t[1]), t[2]) if t[1] in env else t
    if t[0] == 'proj':
        f = t[2]
        if f[0] == 'fold' and len(f[3]) > 1:
            best = None
            n = len(f[3])
            for p in itertools.permutations(range(n)):
                # new position k holds old state p[k]
                inv = {o: k for k, o in enumerate(p)}
                u = f[2]

                def ren(x):
                    if x[0] == 'bv' and x[1] == u and isinstance(x[2], int):
                        return ('bv', u, inv[x[2]], x[3])
                leafed = tree_map(subst(f[4], ren), lambda l: (l[0], tuple(l[1][o] for o in p)))
                g = canon(('fold', f[1], u, tuple(f[3][o] for o in p), leafed), env, depth)
                c = ('proj', inv[t[1]], g)
                if best is None or repr(c) < repr(best):
                    best = c
            return best
    if t[0] in BIND:
        at, scoped = BIND[t[0]]
        e2 = dict(env)
        e2[t[at]] = 'd%d' % depth
        return tuple('d%d' % depth if i == at else canon(x, e2 if i in scoped else env, depth + 1) for i, x in enumerate(t))
    r = tuple(canon(x, env, depth) for x in t)
    if r[0] in ('eq',) and repr(r[2]) < repr(r[1]):
        r = ('eq', r[2], r[1])
    if r[0] == 'ite':
        r = order(r)
    return r


# ---- lists: ('lst', parts); a part is ('one', x), ('all', list term) or ('flat', list term, number, tree whose leaves are ('lst', parts))

def lst(parts):
    out = []
    for p in parts:
        if p[0] == 'all' and p[1][0] == 'lst':
            out.extend(lst(p[1][1])[1])
        elif p[0] == 'all' and p[1][0] == 'tup':
            out.extend(('one', x) for x in p[1][1])
        else:
            out.append(p)
    return ('lst', tuple(out))


def unlst(l):
    """A list that is one other list, as that list."""
    if l[0] == 'lst' and len(l[1]) == 1 and l[1][0][0] == 'all':
        return l[1][0][1]
    return l


def cat(parts):
    out = []
    for p in parts:
        if p[0] == 'cat':
            q = p[1]
        else:
            q = (p,)
        for x in q:
            if x == C(''):
                continue
            if out and isc(x) and isc(out[-1]):
                out[-1] = C(out[-1][2] + x[2])
            else:
                out.append(x)
    if not out:
        return C('')
    if len(out) == 1 and isc(out[0]):
        return out[0]
    return ('cat', tuple(out))


def show(t, n=100000):
    return _show(t)[:n]


def _show(t):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    if k == 'c':
        return repr(t[2])
    if k in ('sym', 'bv'):
        return str(t[1]) if k == 'sym' else 'v%s_%s' % (t[1], t[2])
    if k in ('ext',):
        return t[1].replace('pyspark.sql.functions.', 'F.')
    if k == 'call':
        return '%s(%s)' % (t[1].replace('pyspark.sql.functions.', 'F.'), ', '.join([_show(x) for x in t[2]] + ['%s=%s' % (n, _show(v)) for _, n, v in t[3]]))
    if k == 'meth':
        return '%s.%s(%s)' % (_show(t[1]), t[2], ', '.join([_show(x) for x in t[3]] + ['%s=%s' % (n, _show(v)) for _, n, v in t[4]]))
    if k == 'attr':
        return '%s.%s' % (_show(t[1]), t[2])
    if k == 'idx':
        return '%s[%s]' % (_show(t[1]), _show(t[2]))
    if k == 'op':
        return '(%s %s %s)' % (_show(t[2]), t[1], _show(t[3]))
    if k == 'tup':
        return '(%s)' % ', '.join(map(_show, t[1]))
    if k == 'lst':
        return '[%s]' % ', '.join(_show(p[1]) if p[0] == 'one' else '*' + _show(p[1]) if p[0] == 'all' else '*%s for v%s in %s' % (_show(p[3]), p[2], _show(p[1])) for p in t[1])
    if k == 'cat':
        return ' ++ '.join(map(_show, t[1]))
    return '%s(%s)' % (k, ', '.join(map(_show, t[1:])))
