"""Symbolic execution of Python functions, path by path, loops over lists of any length as folds."""
import ast
import builtins
import functools
import ipaddress
import itertools
import json
import logging
import os
import re
import sys
import warnings

from . import synonyms
from .terms import *

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3

F = 'pyspark.sql.functions'


class Unsupported(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, cls, info=None):
        self.cls, self.info = cls, info


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


EXC = {'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception', 'ValueError': 'Exception', 'TypeError': 'Exception',
       'AttributeError': 'Exception', 'NameError': 'Exception', 'NotImplementedError': 'RuntimeError', 'RuntimeError': 'Exception', 'ImportError': 'Exception',
       'Exception': 'BaseException', 'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception', 'AssertionError': 'Exception', 'StopIteration': 'Exception'}


STDLIB = {m.__name__: m for m in (functools, ipaddress, itertools, json, logging, re, sys, warnings)}
OPAQUE_METHODS = ('to_pyspark_expr',)


def hasattr_model(name):
    return name.startswith(('model_', '__')) or name in ('json', 'dict', 'copy')


def exc_is(c, h):
    while c:
        if c == h:
            return True
        c = EXC.get(c)
    return False


# ---------------------------------------------------------------- modules

class Module:
    def __init__(self, world, name, path, tree=None):
        self.world, self.name, self.path = world, name, path
        self.src = None if tree else open(path).read()
        self.tree = tree or ast.parse(self.src)
        self.names = {}
        self.vals = {}
        self.scan(self.tree.body)

    def unbound(self, name):
        """Nothing in the file binds the name, and it is no builtin: using it raises NameError."""
        if hasattr(builtins, name):
            return False
        for n in ast.walk(self.tree):
            if (isinstance(n, ast.Name) and n.id == name and not isinstance(n.ctx, ast.Load) or isinstance(n, ast.arg) and n.arg == name
                    or isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.ExceptHandler, ast.MatchAs, ast.MatchStar)) and n.name == name
                    or isinstance(n, ast.MatchMapping) and n.rest == name
                    or isinstance(n, (ast.Import, ast.ImportFrom)) and any(a.name == '*' or (a.asname or a.name.split('.')[0]) == name for a in n.names)):
                return False
        return True

    def scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.names[n.name] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.names[a.asname or a.name.split('.')[0]] = ('import', a.name if a.asname else a.name.split('.')[0], None)
            elif isinstance(n, ast.ImportFrom):
                m = n.module or ''
                if n.level:
                    base = self.name.split('.')
                    if not self.path.endswith('__init__.py'):
                        base = base[:-1]
                    base = base[:len(base) - (n.level - 1)]
                    m = '.'.join(base + ([n.module] if n.module else []))
                for a in n.names:
                    self.names[a.asname or a.name] = ('import', m, a.name)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.names[n.targets[0].id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.names[n.target.id] = n.value
            elif isinstance(n, ast.Try):
                self.scan(n.body)
                self.scan(n.orelse)

    def get(self, name, eng=None):
        if name in self.vals:
            return self.vals[name]
        n = self.names.get(name)
        if n is None:
            return None
        if isinstance(n, ast.FunctionDef):
            v = ('fn', self.name, name)
            for d in n.decorator_list:
                dn = ast.unparse(d)
                if dn.startswith(('udf(', 'BeforeValidator')):
                    v = ('ext', self.name + '.' + name)
        elif isinstance(n, ast.ClassDef):
            v = ('cls', self.name, name)
        elif isinstance(n, tuple):
            _, m, a = n
            if a is None:
                v = ('ext', m) if self.world.module(m) is None else ('mod', m)
            else:
                v = self.world.lookup(m, a)
        else:
            if eng is None:
                return None
            v = eng.deref(eng.ev(n, {}, self))
        self.vals[name] = v
        return v


class World:
    """The package, module by module, read from its current source."""
    def __init__(self, root, package):
        self.root, self.package = root, package
        self.mods = {}
        self.contracts = set()       # qualified names that calls see by contract
        self.sigs = {}
        self.externals = set()

    def path(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        if os.path.exists(p + '.py'):
            return p + '.py'
        return None

    def module(self, name):
        if name.split('.')[0] != self.package:
            return self.mods.get(name)
        if name not in self.mods:
            p = self.path(name)
            self.mods[name] = Module(self, name, p) if p else None
        return self.mods[name]

    def lookup(self, m, a):
        if '%s.%s' % (m, a) == 'pyspark.sql.functions':
            return ('ext', F)
        mod = self.module(m)
        if mod is None:
            return ('ext', '%s.%s' % (m, a))
        v = mod.get(a)
        if v is None and a in mod.names:
            return ('lazy', m, a)
        if v is None:
            if self.module('%s.%s' % (m, a)) is not None:
                return ('mod', '%s.%s' % (m, a))
            raise Unsupported('%s has no %s' % (m, a))
        # a module attribute that is itself a submodule of the package, shadowed by an import of the package's __init__
        return v

    def fsig(self, name):
        """Parameters of a pyspark function, from the installed pyspark's source."""
        if not self.sigs:
            import glob
            p = glob.glob('/opt/spl-venv/lib/python3*/site-packages/pyspark/sql/functions/builtin.py') or \
                glob.glob('/opt/spl-venv/lib/python3*/site-packages/pyspark/sql/functions.py')
            for n in ast.parse(open(p[0]).read()).body:
                if isinstance(n, ast.FunctionDef):
                    self.sigs[n.name] = n
                elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                    self.sigs[n.targets[0].id] = self.sigs.get(n.value.id) if isinstance(n.value, ast.Name) else None
            self.sigs['__ok__'] = None
        return self.sigs.get(name, False)


# ---------------------------------------------------------------- sorts

PRIMS = ('int', 'str', 'bool', 'float')


def ann_sort(a):
    if a is None:
        return 'any'
    if isinstance(a, ast.Constant):
        if a.value is None:
            return 'none'
        if isinstance(a.value, str):
            return ann_sort(ast.parse(a.value, mode='eval').body)
    if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
        ss = []
        for x in (ann_sort(a.left), ann_sort(a.right)):
            ss += list(x[1]) if isinstance(x, tuple) and x[0] == 'or' else [x]
        rest = [s for s in ss if s != 'none']
        if len(rest) == 1 and len(rest) < len(ss):
            return ('opt', rest[0]) if not (isinstance(rest[0], tuple) and rest[0][0] == 'opt') else rest[0]
        return ('or', tuple(sorted(map(str, ss))))
    if isinstance(a, ast.Name):
        if a.id in PRIMS:
            return a.id
        if a.id in ('list', 'tuple'):
            return ('list', 'any')
        if a.id == 'dict':
            return ('dict', 'any', 'any')
        if a.id == 'DataFrame':
            return 'df'
        if a.id in ('Any', 'object'):
            return 'any'
        return ('inst', a.id)
    if isinstance(a, ast.Attribute):
        return ('inst', a.attr)
    if isinstance(a, ast.Subscript):
        h = ast.unparse(a.value).split('.')[-1]
        if h == 'Optional':
            s = ann_sort(a.slice)
            return s if isinstance(s, tuple) and s[0] == 'opt' else ('opt', s)
        if h in ('list', 'List', 'Sequence', 'Iterable'):
            return ('list', ann_sort(a.slice))
        if h in ('dict', 'Dict', 'Mapping'):
            return ('dict',) + tuple(ann_sort(x) for x in a.slice.elts)
        if h in ('tuple', 'Tuple'):
            return ('tup', tuple(ann_sort(x) for x in a.slice.elts))
        if h == 'Literal':
            return 'str'
    return 'any'


CLASS_ATTR = {
    'Expr': {'kind': 'str', 'value': 'any'},
    'TimeSpan': {'value': 'int', 'scale': ('inst', 'TimeScale')},
    'DataModelSpecifier': {'datamodel': 'str', 'nodename': ('opt', 'str')},
    'MacroDefinition': {'arguments': ('list', 'str'), 'definition': 'str'},
    'MacroCall': {'macro_name': 'str', 'args': ('list', ('tup', (('opt', 'str'), 'str')))},
}
EXT_SORT = {
    'spl_transpiler.spl_transpiler.detect_macros': ('tup', (('list', ('tup', ('str', ('inst', 'MacroCall')))), 'str')),
    'spl_transpiler.macros.MacroDefinition.model_validate': ('inst', 'MacroDefinition'),
}
STR_M = {'split': ('list', 'str'), 'strip': 'str', 'rstrip': 'str', 'lstrip': 'str', 'replace': 'str', 'upper': 'str', 'lower': 'str', 'join': 'str', 'format': 'str',
         'startswith': 'bool', 'endswith': 'bool', 'count': 'int', 'isdigit': 'bool', 'removeprefix': 'str', 'removesuffix': 'str', 'splitlines': ('list', 'str'),
         'find': 'int'}


def sort_of(t):
    k = t[0]
    if k == 'c':
        return 'none' if t[2] is None else 'str' if t[1] == 'enum' else t[1]
    if k in ('sym', 'bv'):
        return t[2] if k == 'sym' else t[3]
    if k in ('cat', 'join', 'str'):
        return 'str'
    if k == 'lst':
        ss = {repr(x): x for x in (sort_of(p[1]) if p[0] == 'one' else elem_sort(p[1]) if p[0] == 'all' else 'any' for p in t[1])}
        if any(p[0] == 'flat' for p in t[1]):
            ls = [q for p in t[1] if p[0] == 'flat' for l in tree_leaves(p[3]) for q in l[1]]
            if all(q[0] == 'one' for q in ls) and all(p[0] == 'flat' for p in t[1]):
                ss = {repr(sort_of(q[1])): sort_of(q[1]) for q in ls}
        return ('list', list(ss.values())[0] if len(ss) == 1 else 'any')
    if k == 'frozen':
        return ('list', join_sorts([sort_of(p[1]) for p in t[1][1]]))
    if k == 'tup':
        return ('tup', tuple(sort_of(x) for x in t[1]))
    if k == 'len':
        return 'int'
    if k == 'dict':
        return ('dict', 'any', 'any')
    if k == 'items':
        s = sort_of(t[1])
        if isinstance(s, tuple) and s[0] == 'dict' and s[1:] != ('any', 'any'):
            return ('list', ('tup', s[1:]))
        return ('list', ('tup', ('str', 'any')))
    if k == 'zip':
        return ('list', ('tup', tuple(elem_sort(x) for x in t[1])))
    if k == 'enumerate':
        return ('list', ('tup', ('int', elem_sort(t[1]))))
    if k in ('islice', 'slice', 'sorted', 'reversed'):
        return sort_of(t[1])
    if k == 'dictof':
        e = elem_sort(t[1])
        return ('dict',) + (e[1] if isinstance(e, tuple) and e[0] == 'tup' and len(e[1]) == 2 else ('any', 'any'))
    if k == 'call':
        if t[1].startswith(F + '.'):
            return 'col'
        return t[4] if len(t) > 4 else 'any'
    if k == 'meth':
        if t[2] == 'to_pyspark_expr' and not t[3]:
            return 'col'
        s = strip_opt(sort_of(t[1]))
        if s == 'col':
            return 'col'
        if s == 'str':
            return STR_M.get(t[2], 'any')
        if s == 'df':
            return 'df' if t[2] in ('withColumn', 'where', 'filter', 'orderBy', 'select', 'limit', 'drop') else 'any'
        if isinstance(s, tuple) and s[0] == 'dict':
            if t[2] == 'keys':
                return ('list', s[1])
            if t[2] == 'values':
                return ('list', s[2])
        return 'any'
    if k == 'attr':
        if len(t) > 3:
            return t[3]
        s = strip_opt(sort_of(t[1]))
        if isinstance(s, tuple) and s[0] == 'inst':
            return CLASS_ATTR.get(s[1], {}).get(t[2], 'any')
        return 'any'
    if k == 'idx':
        s = strip_opt(sort_of(t[1]))
        if isinstance(s, tuple):
            if s[0] == 'list':
                return s[1]
            if s[0] == 'dict':
                return s[2]
            if s[0] == 'tup' and isc(t[2]) and isinstance(t[2][2], int) and t[2][2] < len(s[1]):
                return s[1][t[2][2]]
        return 'any'
    if k == 'op':
        a, b = sort_of(t[2]), sort_of(t[3])
        if 'col' in (a, b):
            return 'col'
        if a == b and a in ('int', 'str', 'float'):
            return a
        if isinstance(a, tuple) and a[0] == 'list':
            return a
        return 'any'
    if k == 'un':
        return sort_of(t[2])
    if k == 'proj':
        return sort_of(t[2][3][t[1]]) if t[2][0] == 'fold' else 'any'
    if k == 'obj':
        return ('inst', t[1].split('.')[-1])
    if k == 'ext':
        return 'ext'
    if k in ('fn', 'clo', 'cls', 'mod', 'bm', 'lam'):
        return 'fn'
    return 'any'


def strip_opt(s):
    return s[1] if isinstance(s, tuple) and s[0] == 'opt' else s


def elem_sort(t):
    s = strip_opt(sort_of(t))
    return s[1] if isinstance(s, tuple) and s[0] == 'list' else s[1] if isinstance(s, tuple) and s[0] == 'dict' else 'any'


# ---------------------------------------------------------------- arithmetic and equality by z3

U = z3.DeclareSort('U')
BOX = z3.Function('box', z3.IntSort(), U)


class Enc:
    def __init__(self):
        self.fns = {}

    def fn(self, key, *sorts):
        if (key, sorts) not in self.fns:
            self.fns[key, sorts] = z3.Function('f%d' % len(self.fns), *sorts)
        return self.fns[key, sorts]

    eng = None

    def isint(self, t):
        if self.eng is not None and self.eng.ints and sort_of(t) == 'any' and self.eng.facts.get(repr(('isinst', canon(t), 'int'))):
            return True
        if t[0] == 'op' and t[1] in ('+', '-', '*', '%', '//'):
            return self.isint(t[2]) and self.isint(t[3])
        return sort_of(t) == 'int' or t[0] == 'c' and t[1] in ('int', 'bool')

    def i(self, t):
        if t[0] == 'c' and isinstance(t[2], (int, bool)):
            return z3.IntVal(int(t[2]))
        if t[0] == 'op' and t[1] in ('+', '-', '*', '%', '//') and self.isint(t[2]) and self.isint(t[3]):
            a, b = self.i(t[2]), self.i(t[3])
            if t[1] in ('%', '//'):
                if t[3][0] == 'c' and t[3][2] > 0:
                    return a % b if t[1] == '%' else a / b
            else:
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b}[t[1]]()
        if t[0] == 'un' and t[1] == '-' and self.isint(t[2]):
            return -self.i(t[2])
        if t[0] == 'len':
            if t[1][0] == 'zip':
                ls = [self.i(('len', x)) for x in t[1][1]]
                m = ls[0]
                for x in ls[1:]:
                    m = z3.If(x < m, x, m)
                return m
            if t[1][0] == 'slice' and t[1][3] == NONE and all(x == NONE or isc(x) and isinstance(x[2], int) for x in t[1][2:]):
                lo, st = (d if x == NONE else x[2] for x, d in ((t[1][2], 0), (t[1][4], 1)))
                if lo >= 0 and st > 0:
                    n = self.i(('len', t[1][1])) - lo
                    return z3.If(n <= 0, 0, (n + st - 1) / st)
            if t[1][0] == 'islice' and isc(t[1][2]) and isinstance(t[1][2][2], int):
                n = self.i(('len', t[1][1]))
                return z3.If(n < t[1][2][2], n, t[1][2][2])
            x = self.fn('len', U, z3.IntSort())(self.u(t[1]))
            return z3.If(x < 0, 0, x)
        return self.fn('unint', U, z3.IntSort())(self.u(t, False))

    def u(self, t, box=True):
        if not isinstance(t, tuple):
            return z3.Const('s_' + repr(t), U)
        if box and t and self.isint_safe(t):
            return BOX(self.i(t))
        if t and t[0] == 'c':
            return z3.Const('c_%s_%r' % (t[1], t[2]), U)
        if t and (t[0] in ('sym', 'bv') or t[0] in BIND or t[0] == 'ite'):
            return z3.Const('t_' + repr(canon(t)), U)
        kids = [self.u(x) for x in t if isinstance(x, tuple)]
        key = ('t', tuple(x if not isinstance(x, tuple) else None for x in t))
        if not kids:
            return z3.Const('t_' + repr(t), U)
        return self.fn(key, *([U] * (len(kids) + 1)))(*kids)

    def isint_safe(self, t):
        try:
            return self.isint(t)
        except Exception:
            return False

    def atom(self, a):
        if a[0] == 'eq':
            if self.isint(a[1]) and self.isint(a[2]):
                return self.i(a[1]) == self.i(a[2])
            return self.u(a[1]) == self.u(a[2])
        if a[0] == 'lt':
            return self.i(a[1]) < self.i(a[2])
        kids = [self.u(x) for x in a[1:] if isinstance(x, tuple)]
        if a[0] in ('allq', 'stops', 'raises') or not kids:
            return z3.Bool('a_' + repr(canon(a)))
        return self.fn(('a', a[0]) + tuple(x for x in a[1:] if not isinstance(x, tuple)), *([U] * len(kids) + [z3.BoolSort()]))(*kids)


def closed(t):
    return t[0] == 'c' or t[0] == 'tup' and all(closed(x) for x in t[1])


def frozen(l):
    """A long list of constants: a loop over it is one loop, not unrolled."""
    return ('lst', (('all', ('frozen', l)),)) if all(p[0] == 'one' and closed(p[1]) for p in l[1]) else l


def join_sorts(ss):
    ss = list(dict.fromkeys(ss))
    if len(ss) == 1:
        return ss[0]
    rest = [s for s in ss if s != 'none']
    if len(rest) == 1:
        return rest[0] if isinstance(rest[0], tuple) and rest[0][0] == 'opt' else ('opt', rest[0])
    if all(isinstance(s, tuple) and s[0] == 'tup' for s in ss) and len({len(s[1]) for s in ss}) == 1:
        return ('tup', tuple(join_sorts([s[1][i] for s in ss]) for i in range(len(ss[0][1]))))
    return 'any'


def islist(t):
    s = sort_of(t)
    return isinstance(s, tuple) and s[0] == 'list'


def mentions_bind(t):
    return isinstance(t, tuple) and (bool(t) and isinstance(t[0], str) and t[0] in BIND or any(mentions_bind(x) for x in t))


class Path:
    def __init__(self):
        self.facts = {}
        self.plan, self.trail = [], []
        self.canon = {}


# ---------------------------------------------------------------- the engine

MUT = ('append', 'extend', 'insert', 'update', 'setdefault', 'add', 'pop', 'remove', 'clear', 'sort', 'reverse')
PURE_IGNORED = ('warnings.warn', 'logging.')


class Engine:
    MAXP = 20000

    def __init__(self, world):
        self.w = world
        self.facts = {}
        self.plan, self.trail = [], []
        self.heap = {}
        self.fields = {}
        self.nref = 0
        self.heap[0] = ('lst', ())       # what has been done to the outside world, in order
        self.clos = {}
        self.handlers = []
        self.enc = Enc()
        self.enc.eng = self
        self.ints = False
        self.depth = 0
        self.npaths = 0
        self.atoms = {}
        self.ranges = {}
        self.cons = []
        self.ext = set()
        self.used = set()
        self.envs = []

    # -- paths

    def explore(self, thunk, env=None):
        """Run thunk along every path; [(trail, outcome)]; the state is put back before each run, and after the last."""
        if env is not None:
            saved = (dict(self.facts), self.plan, self.trail, dict(self.heap), list(self.cons), env, dict(env))
        else:
            saved = (dict(self.facts), self.plan, self.trail, dict(self.heap), list(self.cons), None, None)
        out = []
        work = [[]]
        while work:
            plan = work.pop()
            self.facts, self.plan, self.trail, self.heap, self.cons = dict(saved[0]), plan, [], dict(saved[3]), list(saved[4])
            if env is not None:
                env.clear()
                env.update(saved[6])
            r = thunk()
            out.append(([(a, v) for a, v in self.trail], r))
            self.npaths += 1
            if self.npaths > self.MAXP:
                raise Unsupported('too many paths')
            for i in range(len(plan), len(self.trail)):
                work.append([v for _, v in self.trail[:i]] + [not self.trail[i][1]])
        self.facts, self.plan, self.trail, self.heap, self.cons = saved[0], saved[1], saved[2], saved[3], saved[4]
        if env is not None:
            env.clear()
            env.update(saved[6])
        # paths in the order of a tree: yes before no
        return out

    def decide(self, atom):
        """The truth of an atom on this path."""
        key = repr(canon(atom))
        if key in self.facts:
            return self.facts[key]
        self.atoms[key] = atom
        if atom[0] == 'allq':
            if self.empty(atom[1]):
                self.facts[key] = True
                return True
            r = self.known(atom)
            if r is not None:
                self.facts[key] = r
                return r
        elif atom[0] == 'eq' and mentions_bind(atom):
            for k, val in list(self.facts.items()):
                a = self.atoms.get(k)
                if a is not None and a[0] == 'eq' and mentions_bind(a) and (self.sem(a[1], atom[1]) and self.sem(a[2], atom[2]) or self.sem(a[1], atom[2]) and self.sem(a[2], atom[1])):
                    self.facts[key] = val
                    return val
        e = self.enc.atom(atom)
        forced = None
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*self.cons)
        s.push()
        s.add(e)
        if s.check() == z3.unsat:
            forced = False
        s.pop()
        if forced is None:
            s.add(z3.Not(e))
            if s.check() == z3.unsat:
                forced = True
        if forced is not None:
            self.facts[key] = forced
            return forced
        i = len(self.trail)
        v = self.plan[i] if i < len(self.plan) else True
        self.trail.append((atom, v))
        self.facts[key] = v
        self.cons.append(e if v else z3.Not(e))
        if atom[0] == 'isinst' and atom[2] == 'int' and v:
            self.ints = True
            x = self.enc.u(atom[1], False)
            self.cons.append(x == BOX(self.enc.fn('unint', U, z3.IntSort())(x)))
        if atom[0] == 'allq' and not v:
            self.cons.append(self.enc.i(self.length(('lst', (('all', atom[1]),)))) > 0)
        if atom[0] == 'eq' and all(islist(x) for x in atom[1:]):
            a, b = (self.enc.i(self.length(x)) for x in atom[1:])
            self.cons.append(a == b if v else z3.Or(a > 0, b > 0))
        return v

    def same(self, a, b):
        """Equality of two values on this path."""
        ca, cb = canon(a), canon(b)
        if ca == cb:
            return True
        if self.z3same(ca, cb):
            return True
        return self.sem(a, b)

    def z3same(self, ca, cb):
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(*self.cons)
        try:
            s.add(self.enc.u(ca) != self.enc.u(cb))
        except z3.Z3Exception:
            return False
        return s.check() == z3.unsat

    def empty(self, t):
        """Is the list certainly empty on this path?"""
        if t[0] == 'lst':
            return all(p[0] != 'one' and self.empty(p[1]) for p in t[1])
        if t[0] == 'frozen':
            return False
        if t[0] == 'zip':
            return any(self.empty(x) for x in t[1])
        if t[0] in ('items', 'dictof', 'enumerate', 'sorted', 'reversed', 'islice', 'slice'):
            return self.empty(t[1])
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*self.cons)
        s.add(self.enc.i(('len', t)) > 0)
        return s.check() == z3.unsat

    def reduce(self, t):
        if t[0] == 'proj' and t[2][0] == 'fold' and self.empty(t[2][1]):
            return t[2][3][t[1]]
        if t[0] == 'lst':
            return lst(tuple(p for p in t[1] if p[0] == 'one' or not self.empty(p[1])))
        return t

    def sem(self, a, b):
        """Equality by structure, the bodies of loops compared for every element."""
        if not a or not b:
            return a == b
        a, b = self.reduce(a), self.reduce(b)
        if a == b or canon(a) == canon(b):
            return True
        if a and b and a[0] == 'c' and b[0] == 'c':
            return False
        if len(a) == len(b) and (a[0] == b[0] if isinstance(a[0], str) or isinstance(b[0], str) else True):
            if a[0] in ('flat', 'allq'):
                return self.sem(a[1], b[1]) and self.bodies(a[1], a[2], a[3], b[2], b[3])
            if a[0] == 'fold':
                for x, y in ((a, b), (b, a)):
                    if x[1][:1] == ('slice',) and x[1][1:] == (y[1], C(1), NONE, NONE):
                        y = self.peel(y)
                        return y is not None and self.sem(x[3], y[3]) and self.bodies(x[1], x[2], x[4], y[2], y[4])
                return self.sem(a[1], b[1]) and self.sem(a[3], b[3]) and self.bodies(a[1], a[2], a[4], b[2], b[4])
            if a[0] not in BIND and a[0] != 'ite' and \
                    all(self.sem(x, y) if isinstance(x, tuple) and isinstance(y, tuple) else type(x) is type(y) and x == y for x, y in zip(a, b)):
                return True
        if a and b and isinstance(a[0], str) and isinstance(b[0], str):
            return self.z3same(canon(a), canon(b))
        return False

    def peel(self, f):
        """A fold over a list that is not empty, its first step taken."""
        if not self.nonempty(('lst', (('all', f[1]),))):
            return None

        def first(y):
            if y[0] == 'bv' and y[1] == f[2]:
                return f[3][y[2]] if isinstance(y[2], int) else ('idx', f[1], C(0)) if y[2] == 'x' else None
        leaf = self.leaf(subst(f[4], first))

        def named(y):
            if y[0] == 'meth' and y[1] == ('ext', F):
                return ('call', F + '.' + y[2], y[3], y[4])

        inits = tuple(subst(x, named) for x in leaf[1])

        def sorts(y):
            if y[0] == 'bv' and y[1] == f[2] and isinstance(y[2], int) and y[3] == 'ext':
                return y[:3] + (sort_of(inits[y[2]]),)
        return ('fold', ('slice', f[1], C(1), NONE, NONE), f[2], inits, subst(f[4], sorts))

    def at(self, t, u, v):
        return subst(t, lambda y: bv(v, y[2], y[3]) if y[0] == 'bv' and y[1] == u else None)

    def bodies(self, src, u1, t1, u2, t2):
        """Two bodies of a loop over src give the same for every element that the loops before let through."""
        v = uid()
        t1, t2 = self.at(t1, u1, v), self.at(t2, u2, v)

        def run():
            return self.held(src, v) or self.sem(self.leaf(t1), self.leaf(t2))
        return all(r for _, r in self.explore(run))

    def held(self, src, v):
        """Element v of src fails a condition known to hold for every element: the path is not possible."""
        for k, val in list(self.facts.items()):
            a = self.atoms.get(k)
            if val and a is not None and a[0] == 'allq' and (canon(a[1]) == canon(src) or canon(('items', ('dictof', a[1]))) == canon(src)):
                if self.leaf(self.at(a[3], a[2], v)) == C(False):
                    return True
        return False

    def known(self, atom):
        """A condition on every element that follows from those already decided."""
        src, v = atom[1], uid()
        q = self.at(atom[3], atom[2], v)
        facts = [(self.atoms.get(k), val) for k, val in list(self.facts.items())]
        facts = [(a, val) for a, val in facts if a is not None and a[0] == 'allq' and
                 (canon(a[1]) == canon(src) or val and canon(('items', ('dictof', a[1]))) == canon(src))]
        if not facts:
            return None
        if all(r for _, r in self.explore(lambda: self.held(src, v) or self.leaf(q) == C(True))):
            return True
        for a, val in facts:
            if not val:
                p = self.at(a[3], a[2], v)
                if all(r for _, r in self.explore(lambda: self.held(src, v) or self.leaf(q) == C(False) or self.leaf(p) == C(True))):
                    return False
        return None

    # -- conditions

    def isnone(self, t):
        t = self.deref(t)
        s = sort_of(t)
        if s == 'none':
            return True
        if s == 'any' or isinstance(s, tuple) and s[0] in ('opt', 'or'):
            if t[0] == 'meth' and False:
                return False
            if isinstance(s, tuple) and s[0] == 'or' and 'none' not in s[1]:
                return False
            return self.decide(('eq', t, NONE))
        return False

    def truth(self, t):
        t = self.deref(t)
        if isc(t):
            return bool(t[2])
        s = sort_of(t)
        if isinstance(s, tuple) and s[0] == 'opt':
            if self.isnone(t):
                return False
            s = s[1]
        if s == 'int':
            return not self.decide(('eq', t, C(0)))
        if s == 'str':
            if t[0] == 'call' and t[1] == 'ast.unparse':
                return True
            if t[0] == 'cat' and any(isc(p) for p in t[1]):
                return True
            return not self.decide(('eq', t, C('')))
        if t[0] == 'lst' or isinstance(s, tuple) and s[0] == 'list' or t[0] in ('items', 'dictof'):
            return self.nonempty(t)
        if isinstance(s, tuple) and s[0] in ('dict',):
            return self.nonempty(('items', t)) if t[0] != 'dict' else bool(t[1])
        if t[0] == 'tup':
            return bool(t[1])
        if s == 'col':
            raise PyRaise('ValueError')
        if s in ('df', 'fn', 'ext') or isinstance(s, tuple) and s[0] == 'inst':
            return True
        return self.decide(('truth', t))

    def nonempty(self, t):
        if t[0] == 'lst':
            if any(p[0] == 'one' for p in t[1]):
                return True
        n = self.length(t)
        if isc(n):
            return n[2] > 0
        return self.decide(('lt', C(0), n))

    def length(self, t):
        t = self.deref(t)
        if isc(t):
            return C(len(t[2]))
        if t[0] == 'tup':
            return C(len(t[1]))
        if t[0] == 'lst':
            n, rest = 0, []
            for p in t[1]:
                if p[0] == 'one':
                    n += 1
                elif p[0] == 'all':
                    rest.append(self.length(p[1]) if p[1][0] in ('sorted', 'reversed', 'enumerate', 'items') else ('len', p[1]))
                else:
                    ks = {len(l[1]) if all(q[0] == 'one' for q in l[1]) else None for l in tree_leaves(p[3])}
                    if len(ks) == 1 and None not in ks:
                        k = ks.pop()
                        if k:
                            rest.append(self.arith('*', C(k), ('len', p[1])) if k > 1 else ('len', p[1]))
                    else:
                        rest.append(('len', ('lst', (p,))))
            r = C(n)
            for x in rest:
                r = self.arith('+', r, x) if r != C(0) else x
            return r
        if t[0] == 'dict':
            return C(len(t[1]))
        if t[0] == 'items':
            return ('len', t[1])
        if t[0] in ('sorted', 'reversed', 'enumerate'):
            return self.length(t[1])
        if t[0] == 'islice' and isc(t[2]):
            pass
        return ('len', t)

    def arith(self, o, a, b):
        a, b = self.deref(a), self.deref(b)
        if isc(a) and isc(b):
            x, y = a[2], b[2]
            try:
                return C({'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y, '//': lambda: x // y, '%': lambda: x % y,
                          '**': lambda: x ** y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y, '<<': lambda: x << y, '>>': lambda: x >> y}[o]())
            except (TypeError, ZeroDivisionError, ValueError) as e:
                raise PyRaise(type(e).__name__)
        sa, sb = sort_of(a), sort_of(b)
        if o == '+':
            if sa == 'str' and sb == 'str':
                return cat([a, b])
            if 'str' in (sa, sb) and ('opt', 'str') in (sa, sb):
                if self.isnone(a if sb == 'str' else b):
                    raise PyRaise('TypeError')
                return cat([x if s == 'str' else ('str', x) for x, s in ((a, sa), (b, sb))])
            if isinstance(sa, tuple) and sa[0] == 'list' and isinstance(sb, tuple) and sb[0] in ('list', 'tup'):
                return lst([('all', a), ('all', b)])
            if sa == 'int' and b == C(0):
                return a
            if sb == 'int' and a == C(0):
                return b
        if 'none' in (sa, sb) and 'col' not in (sa, sb) and 'any' not in (sa, sb):
            raise PyRaise('TypeError')
        return ('op', o, a, b)

    def equal(self, a, b):
        """a == b: a term for columns and frames, else a truth value."""
        a, b = self.deref(a), self.deref(b)
        if 'col' in (sort_of(a), sort_of(b)):
            return ('op', '==', a, b)
        return C(self.eq(a, b))

    def eq(self, a, b):
        if isc(a) and isc(b):
            if a[1] == 'enum' and b[1] == 'enum' or a[1] != 'enum' and b[1] != 'enum':
                return a[2] == b[2]
            return self.enumval(a) == self.enumval(b)
        if a == b:
            return True
        sa, sb = sort_of(a), sort_of(b)
        if a[0] == 'tup' and b[0] == 'tup':
            return len(a[1]) == len(b[1]) and all(self.eq(x, y) for x, y in zip(a[1], b[1]))
        if 'none' in (sa, sb):
            return self.isnone(a if sb == 'none' else b)
        if a[0] == 'lst' and b[0] == 'lst' and (not a[1] or not b[1]):
            return not self.nonempty(b if not a[1] else a)
        if sa == 'int' and sb == 'str' or sa == 'str' and sb == 'int':
            return False
        a, b = self.member(a), self.member(b)
        if isc(a) and isc(b):
            return a == b
        for x in (a, b):
            self.one_of(x)
        x, y = (a, b) if repr(canon(a)) <= repr(canon(b)) else (b, a)
        return self.decide(('eq', x, y))

    def member(self, c):
        """A member of an enumeration of strings, as that string."""
        if c[0] == 'c' and c[1] == 'enum':
            m, cls, _ = c[2].rsplit('.', 2)
            if 'str' in [ast.unparse(b) for b in self.w.module(m).names[cls].bases]:
                return C(self.enumval(c))
        return c

    def one_of(self, t):
        """A value of an enumeration of strings is one of its members."""
        s = strip_opt(sort_of(t))
        k = self.find_class(s[1]) if isinstance(s, tuple) and s[0] == 'inst' and t[0] != 'obj' else None
        if k is not None and self.is_enum(k) and 'str' in [ast.unparse(b) for b in self.w.module(k[1]).names[k[2]].bases]:
            vals = [x.value.value for x in self.w.module(k[1]).names[k[2]].body if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant)]
            self.cons.append(z3.Or([self.enc.u(t) == self.enc.u(C(v)) for v in vals] + ([self.enc.u(t) == self.enc.u(NONE)] if s is not sort_of(t) else [])))
            cs = [self.enc.u(C(v)) for v in vals]
            self.cons.append(z3.Distinct(*cs))

    def enumval(self, c):
        if c[1] != 'enum':
            return c[2]
        m, cls, mem = c[2].rsplit('.', 2)
        for n in self.w.module(m).names[cls].body:
            if isinstance(n, ast.Assign) and n.targets[0].id == mem:
                return n.value.value

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            a, b = self.deref(a), self.deref(b)
            if NONE in (a, b):
                return C(self.isnone(b if a == NONE else a))
            if isc(a) and isc(b):
                return C(a == b)
            if isc(b) and isinstance(b[2], bool) or isc(a) and isinstance(a[2], bool):
                return C(self.decide(('is', a, b)))
            raise Unsupported('is')
        if isinstance(op, ast.IsNot):
            return C(not self.compare(ast.Is(), a, b)[2])
        if isinstance(op, ast.Eq):
            return self.equal(a, b)
        if isinstance(op, ast.NotEq):
            a, b = self.deref(a), self.deref(b)
            if 'col' in (sort_of(a), sort_of(b)):
                return ('op', '!=', a, b)
            return C(not self.eq(a, b))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b)
            return C(r if isinstance(op, ast.In) else not r)
        a, b = self.deref(a), self.deref(b)
        if 'col' in (sort_of(a), sort_of(b)):
            return ('op', {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[type(op)], a, b)
        if isc(a) and isc(b):
            return C({ast.Lt: lambda: a[2] < b[2], ast.LtE: lambda: a[2] <= b[2], ast.Gt: lambda: a[2] > b[2], ast.GtE: lambda: a[2] >= b[2]}[type(op)]())
        if sort_of(a) != 'int' or sort_of(b) != 'int':
            raise Unsupported('comparison of ' + show(a, 60))
        if isinstance(op, ast.Lt):
            return C(self.decide(('lt', a, b)))
        if isinstance(op, ast.Gt):
            return C(self.decide(('lt', b, a)))
        if isinstance(op, ast.LtE):
            return C(not self.decide(('lt', b, a)))
        return C(not self.decide(('lt', a, b)))

    def contains(self, x, c):
        x, c = self.deref(x), self.deref(c)
        if isc(x) and isc(c):
            return x[2] in c[2]
        if c[0] == 'tup' or c[0] == 'lst' and all(p[0] == 'one' for p in c[1]):
            return any(self.eq(x, y) for y in (c[1] if c[0] == 'tup' else [p[1] for p in c[1]]))
        if c[0] == 'dict':
            return any(self.eq(x, p[1]) for p in c[1])
        return self.decide(('in', x, unlst(c)))

    # -- heap

    def new(self, v):
        self.nref += 1
        self.heap[self.nref] = v
        return ('ref', self.nref)

    def deref(self, t):
        """A value with the contents of the lists and dictionaries it refers to."""
        def f(x):
            if x[0] == 'ref':
                return self.deref(self.heap[x[1]])
        if t[0] == 'ref':
            return self.deref(self.heap[t[1]])
        if t[0] in ('c', 'sym', 'bv'):
            return t
        return subst(t, f)

    # -- expressions

    def ev(self, n, env, mod):
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(n).__name__)
        return m(n, env, mod)

    def ev_Constant(self, n, env, mod):
        return C(n.value)

    def ev_Name(self, n, env, mod):
        e = env
        while e is not None:
            if n.id in e:
                if e[n.id] == ('poison',):
                    raise Unsupported('variable of a loop used after it: ' + n.id)
                return e[n.id]
            e = e.get('.outer')
        v = mod.get(n.id, self)
        if v is not None and v[0] == 'lazy':
            v = self.w.module(v[1]).get(v[2], self)
        if v is not None:
            return v
        if n.id in BUILTINS:
            return ('ext', n.id)
        if n.id in EXC:
            return ('ext', n.id)
        if mod.unbound(n.id):
            raise PyRaise('NameError')
        raise Unsupported('name ' + n.id)

    def ev_Attribute(self, n, env, mod):
        o = self.ev(n.value, env, mod)
        return self.getattr(o, n.attr)

    def getattr(self, o, a):
        if (o, a) in self.fields:
            return self.fields[o, a]
        if o[0] == 'ext':
            q = o[1] + '.' + a
            if q == 'pyspark.sql.functions':
                return ('ext', F)
            if o[1] == F and self.w.fsig(a) is False:
                raise PyRaise('AttributeError')
            if o[1] in STDLIB and not hasattr(STDLIB[o[1]], a):
                raise PyRaise('AttributeError')
            return ('ext', q)
        if o[0] == 'mod':
            mo = self.w.module(o[1])
            v = mo.get(a, self)
            if v is not None and v[0] == 'lazy':
                v = self.w.module(v[1]).get(v[2], self)
            if v is None:
                if self.w.module(o[1] + '.' + a) is not None:
                    return ('mod', o[1] + '.' + a)
                raise PyRaise('AttributeError')
            return v
        if o[0] == 'cls':
            return self.classattr(o, a, None)
        if o[0] == 'obj':
            for _, k, v in o[2]:
                if k == a:
                    return v
            if o[1] in ('ast.Module', 'argparse.ArgumentParser'):
                return ('bm', o, a)
            return self.classattr(('cls',) + tuple(o[1].rsplit('.', 1)), a, o)
        if o[0] == 'c' and o[1] == 'enum':
            m, cls, mem = o[2].rsplit('.', 2)
            if a == 'value':
                return C(self.enumval(o))
            if a == 'name':
                return C(mem)
            r = self.classattr(('cls', m, cls), a, None, quiet=True)
            if r is not None:
                return r
            return ('bm', C(self.enumval(o)), a)
        if o[0] in ('fn', 'clo'):
            return ('attr', o, a)
        d = self.deref(o)
        s = strip_opt(sort_of(d))
        if isinstance(s, tuple) and s[0] == 'inst':
            k = self.find_class(s[1])
            if k is not None and self.is_enum(k):
                r = self.classattr(k, a, None, quiet=True)
                if r is not None:
                    return r
            if k is not None and k[2] in CLASS_ATTR and a not in CLASS_ATTR[k[2]] and self.class_member(k, a) is None and a in ('to_ascii_uppercase',):
                raise PyRaise('AttributeError')
            if a in CLASS_ATTR.get(s[1], {}):
                return ('attr', d, a)
            if s[1] == 'TimeScale' and a == 'value':
                return ('attr', d, 'value')
        if sort_of(d) == 'none':
            raise PyRaise('AttributeError')
        if s in ('str', ('inst', 'TimeScale')) and not hasattr(str, a):
            raise PyRaise('AttributeError')
        return ('attr', d, a)

    def find_class(self, name):
        for m in list(self.w.mods.values()):
            if m is not None and isinstance(m.names.get(name), ast.ClassDef):
                return ('cls', m.name, name)
        return None

    def is_enum(self, k):
        c = self.w.module(k[1]).names[k[2]]
        return any(ast.unparse(b).split('.')[-1] in ('Enum', 'StrEnum') for b in c.bases)

    def own_fields(self, k):
        """Names that methods of the class or of its bases assign on self."""
        c = self.w.module(k[1]).names.get(k[2])
        if not isinstance(c, ast.ClassDef):
            return set()
        r = {t.attr for t in ast.walk(c) if isinstance(t, ast.Attribute) and isinstance(t.ctx, ast.Store) and isinstance(t.value, ast.Name) and t.value.id == 'self'}
        for b in c.bases:
            v = self.ev(b, {}, self.w.module(k[1]))
            if v[0] == 'cls':
                r |= self.own_fields(v)
        return r

    def class_member(self, k, a):
        """(class, definition) of an attribute, along the bases."""
        c = self.w.module(k[1]).names.get(k[2])
        if not isinstance(c, ast.ClassDef):
            return None
        for n in c.body:
            if isinstance(n, ast.FunctionDef) and n.name == a:
                return k, n
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a for t in n.targets):
                return k, n.value
            if isinstance(n, ast.AnnAssign) and n.target.id == a:
                return k, n.value
        for b in c.bases:
            v = self.ev(b, {}, self.w.module(k[1]))
            if v[0] == 'cls':
                r = self.class_member(v, a)
                if r is not None:
                    return r
        return None

    def classattr(self, k, a, obj, quiet=False):
        r = self.class_member(k, a)
        if r is None:
            if quiet:
                return None
            if obj is None:
                return ('ext', '%s.%s.%s' % (k[1], k[2], a))
            raise PyRaise('AttributeError')
        owner, d = r
        if isinstance(d, ast.FunctionDef):
            return ('method', owner[1], owner[2], a, obj if obj is not None else NONE)
        if self.is_enum(k):
            return ('c', 'enum', '%s.%s.%s' % (k[1], k[2], a))
        if d is None:
            if quiet:
                return None
            raise PyRaise('AttributeError')
        return self.ev(d, {}, self.w.module(owner[1]))

    def ev_Tuple(self, n, env, mod):
        parts = self.elts(n.elts, env, mod)
        if all(p[0] == 'one' for p in parts):
            return ('tup', tuple(p[1] for p in parts))
        return lst(parts)

    def elts(self, es, env, mod):
        parts = []
        for e in es:
            if isinstance(e, ast.Starred):
                parts += list(self.aslist(self.ev(e.value, env, mod))[1])
            else:
                parts.append(('one', self.ev(e, env, mod)))
        return parts

    def ev_List(self, n, env, mod):
        return self.new(lst(self.elts(n.elts, env, mod)))

    def ev_Set(self, n, env, mod):
        raise Unsupported('set display')

    def ev_Dict(self, n, env, mod):
        ps = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                ps += self.pairs(self.ev(v, env, mod))
            else:
                ps.append(('pair', self.ev(k, env, mod), self.ev(v, env, mod)))
        return self.new(self.dict_of(ps))

    def pairs(self, v):
        """The entries of a dictionary."""
        d = self.deref(v)
        if d[0] == 'dict':
            return list(d[1])
        if d[0] == 'dictof' and d[1][0] == 'lst' and all(p[0] == 'all' or p[0] == 'one' and p[1][0] == 'tup' for p in d[1][1]):
            return [p if p[0] == 'all' else ('pair',) + p[1][1] for p in d[1][1]]
        s = strip_opt(sort_of(d))
        if s == 'any' or isinstance(s, tuple) and s[0] == 'dict':
            return [('all', ('items', d))]
        raise Unsupported('entries of ' + show(d, 40))

    def dict_of(self, ps):
        if any(p[0] == 'all' for p in ps):
            if any(p[0] == 'pair' and not isc(p[1]) for p in ps):
                raise Unsupported('dictionary key')
            return ('dictof', ('lst', tuple(p if p[0] == 'all' else ('one', ('tup', (self.deref(p[1]), self.deref(p[2])))) for p in ps)))
        return self.mkdict(ps)

    def mkdict(self, ps):
        out = []
        for p in ps:
            if not isc(p[1]):
                raise Unsupported('dictionary key')
            out = [q if q[1] != p[1] else p for q in out] if any(q[1] == p[1] for q in out) else out + [p]
        return ('dict', tuple(out))

    def ev_JoinedStr(self, n, env, mod):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    parts.append(('format', self.deref(self.ev(v.value, env, mod)), C(ast.unparse(v.format_spec) if v.format_spec else ''), C(v.conversion)))
                else:
                    parts.append(self.str_(self.ev(v.value, env, mod)))
        return cat(parts)

    def str_(self, t):
        t = self.deref(t)
        if isc(t):
            return C(str(t[2])) if t[1] != 'enum' else ('str', t)
        if sort_of(t) == ('opt', 'str') and self.isnone(t):
            return C('None')
        if sort_of(t) == 'bool' or sort_of(t) == 'any' and self.facts.get(repr(canon(('isinst', t, 'bool')))):
            return C('True' if self.truth(t) else 'False')
        return t if sort_of(t) == 'str' else ('str', t)

    def ev_IfExp(self, n, env, mod):
        return self.ev(n.body if self.truth(self.ev(n.test, env, mod)) else n.orelse, env, mod)

    def ev_BoolOp(self, n, env, mod):
        v = None
        for x in n.values:
            v = self.ev(x, env, mod)
            if x is n.values[-1]:
                return v
            if self.truth(v) != isinstance(n.op, ast.And):
                return v

    def ev_UnaryOp(self, n, env, mod):
        v = self.ev(n.operand, env, mod)
        if isinstance(n.op, ast.Not):
            return C(not self.truth(v))
        d = self.deref(v)
        if isinstance(n.op, ast.USub):
            return C(-d[2]) if isc(d) else ('un', '-', d)
        if isinstance(n.op, ast.Invert):
            return C(~d[2]) if isc(d) else ('un', '~', d)
        return d

    OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^',
           ast.LShift: '<<', ast.RShift: '>>'}

    def ev_BinOp(self, n, env, mod):
        a = self.ev(n.left, env, mod)
        b = self.ev(n.right, env, mod)
        r = self.arith(self.OPS[type(n.op)], a, b)
        return self.new(r) if r[0] == 'lst' else r

    def ev_Compare(self, n, env, mod):
        l = self.ev(n.left, env, mod)
        r = None
        for o, c in zip(n.ops, n.comparators):
            x = self.ev(c, env, mod)
            r = self.compare(o, l, x)
            if len(n.ops) > 1 and not self.truth(r):
                return r
            l = x
        return r

    def ev_Lambda(self, n, env, mod):
        i = len(self.clos)
        self.clos[i] = (n, env, mod)
        return ('clo', i)

    def ev_NamedExpr(self, n, env, mod):
        v = self.ev(n.value, env, mod)
        env[n.target.id] = v
        return v

    def ev_Subscript(self, n, env, mod):
        o = self.deref(self.ev(n.value, env, mod))
        if isinstance(n.slice, ast.Slice):
            a = [NONE if x is None else self.deref(self.ev(x, env, mod)) for x in (n.slice.lower, n.slice.upper, n.slice.step)]
            return self.slice(o, *a)
        return self.index(o, self.deref(self.ev(n.slice, env, mod)))

    def slice(self, o, lo, hi, st):
        if isc(o) and isc(lo) and isc(hi) and isc(st):
            return C(o[2][lo[2]:hi[2]:st[2]])
        if o[0] == 'lst' and all(p[0] == 'one' for p in o[1]) and isc(lo) and isc(hi) and isc(st):
            return lst(o[1][lo[2]:hi[2]:st[2]])
        if o[0] == 'tup' and isc(lo) and isc(hi) and isc(st):
            return ('tup', o[1][lo[2]:hi[2]:st[2]])
        if o[0] == 'lst':
            if hi == NONE and st == NONE and isc(lo) and lo[2] >= 0 and len(o[1]) >= lo[2] and all(p[0] == 'one' for p in o[1][:lo[2]]):
                return lst(o[1][lo[2]:])
            if lo == C(0):
                lo = NONE
            if st == C(1):
                st = NONE
            if (lo, hi, st) == (NONE, NONE, NONE):
                return o
            return lst([('all', ('slice', unlst(o), lo, hi, st))])
        return ('slice', o, lo, hi, st)

    def index(self, o, i):
        if o[0] == 'tup' and isc(i):
            if -len(o[1]) <= i[2] < len(o[1]):
                return o[1][i[2]]
            raise PyRaise('IndexError')
        if isc(o) and isc(i):
            try:
                return C(o[2][i[2]])
            except (IndexError, KeyError, TypeError) as e:
                raise PyRaise(type(e).__name__)
        if o[0] == 'dict':
            for p in o[1]:
                if self.eq(p[1], i):
                    return p[2]
            raise PyRaise('KeyError')
        if o[0] == 'lst' and isc(i) and isinstance(i[2], int):
            ps = o[1]
            if i[2] >= 0 and len(ps) > i[2] and all(p[0] == 'one' for p in ps[:i[2] + 1]):
                return ps[i[2]][1]
            if i[2] < 0 and len(ps) >= -i[2] and all(p[0] == 'one' for p in ps[i[2]:]):
                return ps[i[2]][1]
            n = self.length(o)
            if isc(n):
                if not -n[2] <= i[2] < n[2]:
                    raise PyRaise('IndexError')
            elif self.decide(('lt', n, C(i[2] + 1 if i[2] >= 0 else -i[2]))):
                raise PyRaise('IndexError')
            return ('idx', unlst(o), i)
        if i[0] == 'idx' and i[1][0] == 'bv' and i[2] == C(0) and self.ranges.get(i[1][1]) == canon(('items', o)):
            return ('idx', i[1], C(1))
        s = strip_opt(sort_of(o))
        if isinstance(s, tuple) and s[0] == 'tup' and isc(i):
            if not 0 <= i[2] < len(s[1]):
                raise PyRaise('IndexError')
            return ('idx', o, i)
        return self.may_raise(('idx', o, i))

    def may_raise(self, t):
        """A call of the outside world: within try it may end in any exception that is handled."""
        if t[0] == 'meth' and t[2] in ('split', 'strip', 'lstrip', 'rstrip', 'lower', 'upper') and all(isc(a) for a in t[3]) and not t[4] and self.isinstance_(t[1], 'str'):
            return t
        for hs in reversed(self.handlers):
            for h in hs:
                if t[0] == 'idx' and isc(t[2]) and h not in ('IndexError', 'KeyError', 'LookupError', 'TypeError', 'Exception', 'BaseException'):
                    continue
                if self.decide(('raises', t, h)):
                    raise PyRaise(h, t)
        return t

    # -- lists

    def aslist(self, t):
        """A list as ('lst', parts)."""
        d = self.deref(t)
        if d[0] == 'lst':
            return d if len(d[1]) <= 12 else frozen(d)
        if d[0] == 'tup':
            return lst([('one', x) for x in d[1]])
        if isc(d) and isinstance(d[2], (tuple, list, str)):
            return lst([('one', C(x)) for x in d[2]])
        if d[0] == 'dict':
            return lst([('one', p[1]) for p in d[1]])
        if d[0] == 'items' and d[1][0] == 'dict':
            l = lst([('one', ('tup', p[1:])) for p in d[1][1]])
            return l if len(l[1]) <= 12 else frozen(l)
        s = strip_opt(sort_of(d))
        if isinstance(s, tuple) and s[0] == 'dict':
            return lst(self.flatmap(('lst', (('all', ('items', d)),)), lambda x: [('one', x[1][0])], None))
        if s in ('int', 'float', 'bool', 'none', 'df') or isinstance(s, tuple) and s[0] == 'inst' and s[1] != 'Expr':
            raise PyRaise('TypeError')
        return ('lst', (('all', d),))

    def each(self, t, body):
        """The parts of a list, each handed to body as ('one', x) or ('any', list term)."""
        for p in self.aslist(t)[1]:
            if p[0] == 'one':
                body(('one', p[1]))
            elif p[0] == 'all':
                body(('any', p[1], None))
            else:
                body(('any', p[1], p))

    def bind_elem(self, src, u):
        """The element of a list in a loop: structured when the list is."""
        if src[0] == 'items':
            self.ranges[u] = canon(src)
            s = sort_of(src)[1][1]
            x = bv(u, 'x', ('tup', s))
            return ('tup', (('idx', x, C(0)), ('idx', x, C(1))))
        s = elem_sort(src)
        x = bv(u, 'x', s)
        if isinstance(s, tuple) and s[0] == 'tup':
            return ('tup', tuple(('idx', x, C(i)) for i in range(len(s[1]))))
        return x

    def zip_elem(self, src, u):
        return None

    def flatmap(self, t, f, env):
        """Parts of the list in which every element is replaced by the parts f gives for it."""
        out = []

        def one(p):
            if p[0] == 'one':
                out.extend(f(p[1]))
                return
            src, part = p[1], p[2]
            u = uid()

            def run():
                if part is None:
                    x = self.bind_elem(src, u)
                    return ('ok', lst(f(x)))
                self.ranges[u] = canon(src)
                leaf = self.leaf(subst(part[3], lambda y: bv(u, y[2], y[3]) if y[0] == 'bv' and y[1] == part[2] else None))
                ps = []
                for q in leaf[1]:
                    if q[0] == 'one':
                        ps.extend(f(q[1]))
                    else:
                        ps.extend(self.flatmap(('lst', (q,)), f, env))
                return ('ok', lst(ps))
            paths = self.explore(lambda: self.guard(run), env)
            self.stops(src, u, paths)
            tree = self.hoist(tree_of([(tr, r[1]) for tr, r in paths if r[0] == 'ok']), u)
            out.append(self.simplify(('flat', src, u, tree)))
        self.each(t, one)
        return [p for p in out if p is not None]

    def simplify(self, p):
        src, u, tree = p[1], p[2], p[3]
        if tree == ('lst', ()):
            return None
        if tree[0] == 'lst' and len(tree[1]) == 1 and tree[1][0][0] == 'one':
            x = tree[1][0][1]
            if x == bv(u, 'x', x[3] if x[0] == 'bv' else None) or x == self.bind_elem(src, u):
                return ('all', src)
        return p

    def leaf(self, tree):
        while tree[0] == 'ite':
            tree = tree[2] if self.decide(tree[1]) else tree[3]
        return tree

    def guard(self, run):
        try:
            return run()
        except PyRaise as e:
            return ('raise', e.cls)

    def stops(self, src, u, paths):
        """The part of a loop's paths that leave it by an exception: decide whether that happens, and if so raise."""
        kinds = sorted({r[1] for _, r in paths if r[0] == 'raise'})
        for k in kinds:
            tree = self.hoist(tree_of([(tr, C(r[0] == 'raise' and r[1] == k)) for tr, r in paths]), u)
            if tree == C(True):
                if self.nonempty(('lst', (('all', src),))):
                    raise PyRaise(k)
                continue
            tree = tree_map(tree, lambda l: C(not l[2]))
            if not self.decide(('allq', src, u, tree)):
                raise PyRaise(k)

    def ev_ListComp(self, n, env, mod):
        return self.new(self.comp(n, env, mod))

    def ev_GeneratorExp(self, n, env, mod):
        return self.comp(n, env, mod)

    def comp(self, n, env, mod):
        inner = {'.outer': env}

        def gen(i):
            if i == len(n.generators):
                return [('one', self.deref(self.ev(n.elt, inner, mod)))]
            g = n.generators[i]

            def f(x):
                self.assign(g.target, x, inner, mod)
                for c in g.ifs:
                    if not self.truth(self.ev(c, inner, mod)):
                        return []
                return gen(i + 1)
            return self.flatmap(self.ev(g.iter, inner, mod), f, inner)
        return lst(gen(0))

    def ev_DictComp(self, n, env, mod):
        m = ast.GeneratorExp(elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators)
        return self.todict(self.comp(m, env, mod))

    def todict(self, l):
        l = self.aslist(l)
        if all(p[0] == 'one' and p[1][0] == 'tup' and isc(p[1][1][0]) for p in l[1]):
            return self.new(self.mkdict([('pair',) + p[1][1] for p in l[1]]))
        return ('dictof', unlst(l))

    def quantifier(self, t, all_):
        """all(...) / any(...)"""
        for p in self.aslist(t)[1]:
            if p[0] == 'one':
                if self.truth(p[1]) != all_:
                    return not all_
                continue
            src, part = p[1], p if p[0] == 'flat' else None
            u = uid()

            def run():
                if part is None:
                    return ('ok', C(self.truth(self.bind_elem(src, u)) == all_))
                self.ranges[u] = canon(src)
                leaf = self.leaf(subst(part[3], lambda y: bv(u, y[2], y[3]) if y[0] == 'bv' and y[1] == part[2] else None))
                return ('ok', C(all(self.quantifier(('lst', (q,)), all_) == all_ for q in leaf[1])))
            paths = self.explore(lambda: self.guard(run), None)
            self.stops(src, u, paths)
            tree = self.hoist(tree_of([(tr, r[1]) for tr, r in paths if r[0] == 'ok']), u)
            if tree == C(True):
                continue
            if tree == C(False):
                if self.nonempty(('lst', (('all', src),))):
                    return not all_
                continue
            if not self.decide(('allq', src, u, tree)):
                return not all_
        return all_

    def fold(self, t, init, step, env):
        """reduce: one state."""
        acc = init
        for p in self.aslist(t)[1]:
            if p[0] == 'one':
                acc = step(acc, p[1])
                continue
            src, part = p[1], p if p[0] == 'flat' else None
            u = uid()
            a0 = acc
            s0 = sort_of(self.deref(a0))

            def run():
                st = bv(u, 0, s0)
                if part is None:
                    return ('ok', ('st', (self.deref(step(st, self.bind_elem(src, u))),)))
                self.ranges[u] = canon(src)
                leaf = self.leaf(subst(part[3], lambda y: bv(u, y[2], y[3]) if y[0] == 'bv' and y[1] == part[2] else None))
                for q in leaf[1]:
                    if q[0] != 'one':
                        raise Unsupported('fold over a nested list')
                    st = step(st, q[1])
                return ('ok', ('st', (self.deref(st),)))
            paths = self.explore(lambda: self.guard(run), env)
            self.stops(src, u, paths)
            tree = self.hoist(tree_of([(tr, r[1]) for tr, r in paths if r[0] == 'ok']), u)
            acc = self.mkfold(src, u, (self.deref(a0),), tree, 0)
        return acc

    def mkfold(self, src, u, inits, tree, i):
        """State i after the fold, with the states it depends on only."""
        need, todo = [], [i]
        while todo:
            k = todo.pop(0)
            if k in need:
                continue
            need.append(k)
            tk = order(tree_map(tree, lambda l: l[1][k]))
            mentions(tk, lambda b: todo.append(b[2]) if b[1] == u and isinstance(b[2], int) and b[2] not in need else False)
        tk = order(tree_map(tree, lambda l: l[1][i]))
        if tk == bv(u, i, tk[3] if tk[0] == 'bv' else None):
            return inits[i]
        pos = {k: j for j, k in enumerate(need)}

        def ren(x):
            if x[0] == 'bv' and x[1] == u and isinstance(x[2], int):
                return ('bv', u, pos[x[2]], x[3])
        t2 = order(tree_map(tree, lambda l: ('st', tuple(l[1][k] for k in need))))
        if len(need) == 1:
            # a text that only grows: the texts added, joined
            s0 = bv(u, i, sort_of(inits[i]))

            def added(l):
                x = l[1][0]
                if x == s0:
                    return ()
                if x[0] == 'cat' and x[1][0] == s0 and not any(mentions(y, lambda b: b[1] == u and b[2] == i) for y in x[1][1:]):
                    return x[1][1:]
            if sort_of(inits[i]) == 'str' and all(added(l) is not None for l in tree_leaves(t2)) and \
                    not any(mentions(a, lambda b: b[1] == u and b[2] == i) for a in tree_atoms(t2, [])):
                return cat([inits[i], ('join', C(''), lst((self.flatjoin(('flat', src, u, tree_map(t2, lambda l: lst(tuple(('one', y) for y in added(l)))))),)))])
        return ('proj', 0, ('fold', src, u, tuple(inits[k] for k in need), subst(t2, ren)))

    def flatjoin(self, p):
        """The texts a loop gives for ''.join, those for one element concatenated."""
        if p[0] != 'flat' or not all(l[0] == 'lst' and all(q[0] == 'one' for q in l[1]) for l in tree_leaves(p[3])):
            return p

        def f(l):
            c = cat([q[1] for q in l[1]])
            return lst(()) if c == C('') else lst((('one', c),))
        return p[:3] + (order(tree_map(p[3], f)),)

    def hoist(self, tree, u):
        """Conditions of a loop's body that do not depend on the element or the state are decided outside."""
        for a in tree_atoms(tree, []):
            if not mentions(a, lambda b: b[1] == u):
                tree = restrict(tree, a, self.decide(a))
        return order(tree)

    # -- calls

    def ev_Call(self, n, env, mod):
        if isinstance(n.func, ast.Attribute):
            o = self.ev(n.func.value, env, mod)
            if o[0] in ('ext', 'mod', 'cls', 'obj', 'fn', 'clo') or o[0] == 'c' and o[1] == 'enum':
                f = self.getattr(o, n.func.attr)
            else:
                f = ('bm', o, n.func.attr)
        else:
            f = self.ev(n.func, env, mod)
        parts, kws = [], []
        for a in n.args:
            if isinstance(a, ast.Starred):
                parts += list(self.aslist(self.ev(a.value, env, mod))[1])
            else:
                parts.append(('one', self.ev(a, env, mod)))
        for k in n.keywords:
            v = self.ev(k.value, env, mod)
            if k.arg is None:
                d = self.deref(v)
                if d[0] == 'dict':
                    kws += [('kw', p[1][2], p[2]) for p in d[1]]
                else:
                    kws.append(('kw', '**', d))
            else:
                kws.append(('kw', k.arg, v))
        return self.call(f, parts, kws, env, mod)

    def call(self, f, parts, kws, env, mod):
        simple = all(p[0] == 'one' for p in parts)
        args = [p[1] for p in parts] if simple else None
        if f[0] == 'ext':
            return self.call_ext(f[1], parts, args, kws, env, mod)
        if f[0] == 'fn':
            q = '%s.%s' % (f[1], f[2])
            m = self.w.module(f[1])
            d = m.names[f[2]]
            b = self.bind(d.args, parts, kws, m)
            if q in self.w.contracts:
                self.used.add(q)
                s = ann_sort(d.returns)
                if q in EFFECTS:
                    self.event(q, [b[p.arg] for p in d.args.args])
                return self.may_raise(('call', q, tuple(self.deref(self.packed(b, d.args))), (), s))
            return self.inline(d, b, m, {})
        if f[0] == 'clo':
            d, cenv, cmod = self.clos[f[1]]
            b = self.bind(d.args, parts, kws, cmod, cenv)
            if isinstance(d, ast.Lambda):
                b['.outer'] = cenv
                return self.ev(d.body, b, cmod)
            return self.inline(d, b, cmod, cenv)
        if f[0] == 'cls':
            return self.construct(f, parts, kws)
        if f[0] == 'method':
            _, m, cls, name, obj = f
            mo = self.w.module(m)
            d = self.class_member(('cls', m, cls), name)[1]
            decos = [ast.unparse(x) for x in d.decorator_list]
            if 'staticmethod' not in decos:
                parts = [('one', obj if 'classmethod' not in decos else ('cls', m, cls))] + parts
            b = self.bind(d.args, parts, kws, mo)
            return self.inline(d, b, mo, {})
        if f[0] == 'bm' or f[0] == 'attr':
            return self.call_method(f[1], f[2], parts, args, kws, env, mod)
        # a value of unknown kind is called
        return self.may_raise(('meth', self.deref(f), '__call__', self.argterms(parts), self.kwterms(kws)))

    def event(self, what, args):
        """Something that is done to the outside world, in its turn."""
        self.heap[0] = lst(list(self.heap[0][1]) + [('one', ('call', what, tuple(self.close(a) for a in args), ()))])

    def packed(self, b, a):
        """The arguments of a contracted call in the order of the parameters."""
        out = []
        for x in a.posonlyargs + a.args + ([a.vararg] if a.vararg else []) + a.kwonlyargs + ([a.kwarg] if a.kwarg else []):
            out.append(b[x.arg])
        return tuple(out)

    def argterms(self, parts):
        if all(p[0] == 'one' for p in parts):
            return tuple(self.close(p[1]) for p in parts)
        return (('star', self.close(lst(parts))),)

    def kwterms(self, kws):
        return tuple(sorted((('kw', k, self.close(v)) for _, k, v in kws), key=lambda x: x[1]))

    def close(self, v):
        """A value that goes to the outside world: lists and dictionaries by their contents, functions by what they do."""
        def f(x):
            if x[0] == 'ref':
                return self.close(self.heap[x[1]])
            if x[0] == 'clo':
                return self.lam(x)
            if x[0] == 'fn' and '%s.%s' % x[1:] not in self.w.contracts:
                return self.lam(x)
            if x[0] == 'lst' and len(x[1]) == 1 and x[1][0][0] == 'all':
                return self.close(x[1][0][1])
        return subst(v, f)

    def lam(self, x):
        d = self.clos[x[1]][0] if x[0] == 'clo' else self.w.module(x[1]).names[x[2]]
        if d.args.vararg or d.args.kwarg or d.args.kwonlyargs:
            raise Unsupported('function value with variable arguments')
        n = len(d.args.args)
        u = uid()

        def run():
            return ('ok', self.close(self.call(x, [('one', bv(u, i, 'col')) for i in range(n)], [], None, None)))
        paths = self.explore(lambda: self.guard(run), None)
        return ('lam', u, n, order(tree_of([(tr, r) for tr, r in paths])))

    def bind(self, a, parts, kws, mod, env=None):
        """Python's binding of arguments to parameters."""
        b = {}
        pos = a.posonlyargs + a.args
        parts = list(parts)
        for p in pos:
            if not parts:
                break
            if parts[0][0] != 'one':
                raise Unsupported('starred arguments for named parameters')
            b[p.arg] = parts.pop(0)[1]
        if a.vararg:
            l = lst([(q[0], self.deref(q[1])) + tuple(q[2:]) for q in parts])
            b[a.vararg.arg] = l
        elif parts:
            if all(q[0] == 'one' for q in parts):
                raise PyRaise('TypeError')
            raise Unsupported('starred arguments')
        names = {p.arg for p in pos + a.kwonlyargs}
        rest = []
        for _, k, v in kws:
            if k == '**':
                rest.append(('kw', k, v))
            elif k in names:
                if k in b:
                    raise PyRaise('TypeError')
                b[k] = v
            elif a.kwarg:
                rest.append(('kw', k, v))
            else:
                raise PyRaise('TypeError')
        defs = dict(zip([p.arg for p in pos][len(pos) - len(a.defaults):], a.defaults))
        defs.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in pos + a.kwonlyargs:
            if p.arg not in b:
                if p.arg not in defs:
                    raise PyRaise('TypeError')
                b[p.arg] = self.ev(defs[p.arg], dict(env or {}), mod)
        if a.kwarg:
            if not rest:
                b[a.kwarg.arg] = ('dict', ())
            elif len(rest) == 1 and rest[0][1] == '**':
                b[a.kwarg.arg] = rest[0][2]
            elif all(k != '**' for _, k, _ in rest):
                b[a.kwarg.arg] = ('dict', tuple(('pair', C(k), v) for _, k, v in rest))
            else:
                raise Unsupported('mixed keyword arguments')
        elif rest:
            raise Unsupported('** for named parameters')
        return b

    def inline(self, d, b, mod, outer):
        if self.depth > 30:
            raise Unsupported('recursion without a contract: ' + d.name)
        for x in d.decorator_list:
            if self.depth == 0 and (ast.unparse(x).startswith('udf(') or ast.unparse(x) in ('BeforeValidator', 'cell_magic', 'needs_local_scope')):
                continue
            if ast.unparse(x).split('.')[-1] not in ('enforce_types', 'cache', 'staticmethod', 'classmethod', 'wraps', 'lru_cache', "model_validator(mode='before')"):
                raise Unsupported('decorator ' + ast.unparse(x))
        env = dict(b)
        env['.outer'] = outer or None
        self.depth += 1
        try:
            self.block(d.body, env, mod)
        except Return as r:
            return r.v
        finally:
            self.depth -= 1
        return NONE

    def construct(self, k, parts, kws):
        m = self.w.module(k[1])
        c = m.names[k[2]]
        bases = [ast.unparse(b).split('.')[-1] for b in c.bases]
        if any(b in EXC for b in bases):
            return ('exc', bases[0])
        if self.is_enum(k):
            return ('call', '%s.%s' % k[1:], self.argterms(parts), (), ('inst', k[2]))
        init = self.class_member(k, '__init__')
        if init is not None:
            raise Unsupported('constructor of ' + k[2])
        if parts:
            raise PyRaise('TypeError')
        fields = []
        given = {n: v for _, n, v in kws}

        def walk(k):
            c = self.w.module(k[1]).names[k[2]]
            for b in c.bases:
                v = self.ev(b, {}, self.w.module(k[1]))
                if v[0] == 'cls':
                    walk(v)
            for n in c.body:
                if isinstance(n, ast.AnnAssign):
                    fields[:] = [f for f in fields if f[0] != n.target.id] + [(n.target.id, n.value, self.w.module(k[1]))]
        walk(k)
        out = []
        for n, dflt, mo in fields:
            if n in given:
                out.append(('fld', n, given.pop(n)))
            elif dflt is not None:
                out.append(('fld', n, self.ev(dflt, {}, mo)))
            else:
                raise PyRaise('ValueError')
        return ('obj', '%s.%s' % k[1:], tuple(out))

    def call_method(self, o, name, parts, args, kws, env, mod):
        d = self.deref(o)
        s = strip_opt(sort_of(d))
        if d[0] == 'exc':
            return d
        if d[0] == 'obj' and d[1] == 'argparse.ArgumentParser':
            return self.parser_method(o if o[0] == 'obj' else self.heap[o[1]], name, parts, args, kws)
        if s == 'none':
            raise PyRaise('AttributeError')
        if isinstance(s, tuple) and s[0] == 'inst' and s != sort_of(d) and self.isnone(d):
            raise PyRaise('AttributeError')
        if isinstance(s, tuple) and s[0] == 'inst':
            k = self.find_class(s[1])
            if k is not None and self.is_enum(k):
                if not hasattr(str, name):
                    raise PyRaise('AttributeError')
                return ('meth', d, name, self.argterms(parts), self.kwterms(kws))
            r = self.class_member(k, name) if k is not None else None
            if r is not None and isinstance(r[1], ast.FunctionDef) and name not in OPAQUE_METHODS and '%s.%s.%s' % (r[0][1], r[0][2], name) not in self.w.contracts:
                return self.call(('method', r[0][1], r[0][2], name, d), parts, kws, env, mod)
            if r is None and k is not None and name not in CLASS_ATTR.get(s[1], {}) and not hasattr_model(name) and name not in self.own_fields(k):
                raise PyRaise('AttributeError')
        if o[0] == 'ref' and d[0] == 'lst' and not kws:
            if name == 'append' and args and len(args) == 1:
                self.heap[o[1]] = lst(list(d[1]) + [('one', args[0])])
                return NONE
            if name == 'extend' and args and len(args) == 1:
                self.heap[o[1]] = lst(list(d[1]) + list(self.aslist(args[0])[1]))
                return NONE
            if name == 'copy' and not args:
                return self.new(d)
            if name == 'pop' and not args and len(d[1]) == 1 and d[1][0][0] == 'all':
                v = self.index(d, C(-1))
                self.heap[o[1]] = self.slice(d, NONE, C(-1), NONE)
                return v
            if name in MUT:
                raise Unsupported('list.' + name)
        if d[0] == 'dict' or isinstance(s, tuple) and s[0] == 'dict':
            if name == 'items' and not parts:
                return ('items', d) if d[0] != 'dict' else lst([('one', ('tup', p[1:])) for p in d[1]])
            if name == 'keys' and not parts:
                return self.aslist(d)
            if name == 'values' and not parts:
                return lst([('one', p[2]) for p in d[1]]) if d[0] == 'dict' else \
                    lst(self.flatmap(('lst', (('all', ('items', d)),)), lambda x: [('one', x[1][1])], None))
            if name == 'get' and args and d[0] == 'dict':
                for p in d[1]:
                    if self.eq(p[1], self.deref(args[0])):
                        return p[2]
                return args[1] if len(args) > 1 else NONE
            if o[0] == 'ref' and name == 'update' and args is not None and len(args) < 2:
                self.heap[o[1]] = self.dict_of(self.pairs(d) + (self.pairs(args[0]) if args else []) + [('pair', C(k), v) for _, k, v in kws])
                return NONE
            if o[0] == 'ref' and name in MUT:
                raise Unsupported('dict.' + name)
        if s == 'str':
            return self.str_method(d, name, args, parts, kws)
        if isc(d):
            raise PyRaise('AttributeError')
        if name in MUT and (d[0] == 'lst' or isinstance(s, tuple) and s[0] == 'list'):
            raise Unsupported('list.' + name)
        if name in ('format',):
            raise Unsupported('.format')
        return self.may_raise(('meth', d, synonyms.METH.get(name, name) if s in ('any', 'df') else name, self.argterms(parts), self.kwterms(kws)))

    def parser_method(self, o, name, parts, args, kws):
        """Options are declared in any order; their texts of help do not matter."""
        if args is None:
            raise Unsupported('argparse')
        decls = o[2][0][2]
        if name == 'add_argument':
            kws = [k for k in kws if k[1] not in ('help', 'metavar') and not (k[1] == 'action' and k[2] == C('store')) and not (k[1] == 'default' and k[2] == NONE)]
            one = ('tup', (('tup', self.argterms(parts)), ('tup', self.kwterms(kws))))
            old = self.heap[decls[1]]
            self.heap[decls[1]] = lst(sorted(list(old[1]) + [('one', one)], key=repr))
            return NONE
        if name == 'parse_args':
            return self.may_raise(('call', 'argparse.parse_args', (self.close(decls),) + self.argterms(parts), self.kwterms(kws)))
        raise Unsupported('argparse.' + name)

    def str_method(self, d, name, args, parts, kws):
        if name == 'join' and len(parts) == 1:
            l = self.aslist(args[0] if args else None)
            if isc(d) and all(p[0] == 'one' for p in l[1]):
                out = []
                for i, p in enumerate(l[1]):
                    if i and d[2]:
                        out.append(d)
                    out.append(self.deref(p[1]))
                return cat(out)
            if d == C(''):
                out = []
                for p in l[1]:
                    out.append(self.deref(p[1]) if p[0] == 'one' else ('join', d, unlst(lst([self.flatjoin(p)]))))
                return cat(out)
            return ('join', d, unlst(l))
        da = [self.deref(a) for a in args] if args is not None else None
        if isc(d) and da is not None and all(isc(a) and a[1] != 'enum' for a in da) and not kws:
            try:
                r = getattr(d[2], name)(*[a[2] for a in da])
            except AttributeError:
                raise PyRaise('AttributeError')
            except (TypeError, ValueError) as e:
                raise PyRaise(type(e).__name__)
            return self.new(lst([('one', C(x)) for x in r])) if isinstance(r, list) else C(r)
        t = ('meth', d, name, self.argterms(parts), self.kwterms(kws))
        if sort_of(t) == 'bool':
            return C(self.decide(('truth', t)))
        return self.new(lst([('all', t)])) if isinstance(sort_of(t), tuple) and sort_of(t)[0] == 'list' else t

    def call_ext(self, q, parts, args, kws, env, mod):
        b = BUILTINS.get(q)
        if b is not None:
            if q in ARITY and (kws or all(p[0] == 'one' for p in parts) and len(parts) != ARITY[q]):
                raise PyRaise('TypeError')
            return b(self, parts, args, kws, env, mod)
        if q.startswith('logging.') and not hasattr(logging, q.split('.')[-1]) and not hasattr(logging.Logger, q.split('.')[-1]):
            raise PyRaise('AttributeError')
        if q == 'warnings.warn' or q.startswith('logging.'):
            return NONE
        if q in EXC:
            return ('exc', q)
        if q.startswith(F + '.') and self.w.fsig(q[len(F) + 1:]) not in (False, None):
            parts, kws = self.bind_f(self.w.fsig(q[len(F) + 1:]).args, parts, kws)
        if q.startswith(F + '.'):
            q = F + '.' + synonyms.FUN.get(q[len(F) + 1:], q[len(F) + 1:])
        self.ext.add(q)
        t = ('call', q, self.argterms(parts), self.kwterms(kws))
        return self.may_raise(t + (EXT_SORT[q],) if q in EXT_SORT else t)

    def bind_f(self, a, parts, kws):
        """Arguments of a pyspark function by position where its signature allows, defaults filled in."""
        if not all(p[0] == 'one' for p in parts):
            return parts, kws
        pos = a.posonlyargs + a.args
        given = {k: v for _, k, v in kws}
        if len(parts) > len(pos) and not a.vararg or any(k not in [p.arg for p in pos + a.kwonlyargs] for k in given) and not a.kwarg:
            raise PyRaise('TypeError')
        if a.vararg or a.kwarg or a.kwonlyargs:
            return parts, kws
        defs = dict(zip([p.arg for p in pos][len(pos) - len(a.defaults):], a.defaults))
        out = list(parts)
        for p in pos[len(parts):]:
            if p.arg in given:
                out.append(('one', given.pop(p.arg)))
            elif p.arg in defs:
                if not isinstance(defs[p.arg], ast.Constant):
                    return parts, kws
                out.append(('one', C(defs[p.arg].value)))
            else:
                raise PyRaise('TypeError')
        if given:
            raise PyRaise('TypeError')
        return out, []

    def call_via(self, obj, name, arg):
        """obj.name(arg)"""
        if obj[0] == 'obj':
            return self.call(self.getattr(obj, name), [('one', arg)], [], {}, None)
        return self.call_method(obj, name, [('one', arg)], [arg], [], {}, None)

    # -- statements

    def block(self, body, env, mod):
        for n in body:
            m = getattr(self, 'st_' + type(n).__name__, None)
            if m is None:
                raise Unsupported('statement ' + type(n).__name__)
            m(n, env, mod)

    def st_Expr(self, n, env, mod):
        if not isinstance(n.value, ast.Constant):
            if isinstance(n.value, ast.Call) and ast.unparse(n.value.func).split('.')[0] == 'log':
                if isinstance(n.value.func, ast.Attribute) and not hasattr(logging.Logger, n.value.func.attr):
                    raise PyRaise('AttributeError')
                return
            self.ev(n.value, env, mod)

    def st_Pass(self, n, env, mod):
        pass

    def st_Assign(self, n, env, mod):
        v = self.ev(n.value, env, mod)
        for t in n.targets:
            self.assign(t, v, env, mod)

    def st_AnnAssign(self, n, env, mod):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, env, mod), env, mod)

    def st_AugAssign(self, n, env, mod):
        t = n.target
        if not isinstance(t, ast.Name):
            raise Unsupported('augmented assignment')
        old = self.ev(ast.Name(id=t.id, ctx=ast.Load()), env, mod)
        v = self.ev(n.value, env, mod)
        if old[0] == 'ref' and isinstance(n.op, ast.Add):
            self.call_method(old, 'extend', [('one', v)], [v], [], env, mod)
            return
        env[t.id] = self.arith(self.OPS[type(n.op)], old, v)

    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            d = v if v[0] == 'tup' else self.deref(v)
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported('starred assignment')
            if d[0] == 'tup' or d[0] == 'lst' and all(p[0] == 'one' for p in d[1]):
                xs = d[1] if d[0] == 'tup' else [p[1] for p in d[1]]
                if len(xs) != len(t.elts):
                    raise PyRaise('ValueError')
            else:
                s = strip_opt(sort_of(d))
                if isinstance(s, tuple) and s[0] == 'tup' and len(s[1]) != len(t.elts):
                    raise PyRaise('ValueError')
                if isinstance(s, tuple) and s[0] == 'list' or d[0] == 'meth' and d[2] == 'split':
                    if not self.eq(self.length(d), C(len(t.elts))):
                        raise PyRaise('ValueError')
                xs = [('idx', unlst(d), C(i)) for i in range(len(t.elts))]
            for x, y in zip(t.elts, xs):
                self.assign(x, y, env, mod)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            if o[0] in ('sym', 'attr') and sort_of(o) == 'any':
                self.event('setitem', [o, self.ev(t.slice, env, mod), v])
                return
            if o[0] != 'ref' or self.heap[o[1]][0] not in ('dict', 'dictof'):
                raise Unsupported('assignment to an item')
            k = self.deref(self.ev(t.slice, env, mod))
            self.heap[o[1]] = self.dict_of(self.pairs(self.heap[o[1]]) + [('pair', k, v)])
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            if o[0] != 'sym':
                raise Unsupported('assignment to an attribute')
            self.fields[o, t.attr] = v
        else:
            raise Unsupported('assignment to ' + type(t).__name__)

    def st_Return(self, n, env, mod):
        raise Return(NONE if n.value is None else self.ev(n.value, env, mod))

    def st_Raise(self, n, env, mod):
        if n.exc is None:
            raise Unsupported('bare raise')
        saved = self.handlers
        self.handlers = []
        e = n.exc
        f = e.func if isinstance(e, ast.Call) else e
        v = self.ev(f, env, mod)
        self.handlers = saved
        if v[0] == 'ext':
            raise PyRaise(v[1].split('.')[-1])
        if v[0] == 'exc':
            raise PyRaise(v[1])
        if v[0] == 'cls':
            raise PyRaise(self.construct(v, [], [])[1])
        raise Unsupported('raise')

    def st_Assert(self, n, env, mod):
        if not self.truth(self.ev(n.test, env, mod)):
            raise PyRaise('AssertionError')

    def st_If(self, n, env, mod):
        self.block(n.body if self.truth(self.ev(n.test, env, mod)) else n.orelse, env, mod)

    def st_FunctionDef(self, n, env, mod):
        i = len(self.clos)
        self.clos[i] = (n, env, mod)
        env[n.name] = ('clo', i)

    def st_Import(self, n, env, mod):
        for a in n.names:
            env[a.asname or a.name.split('.')[0]] = ('ext', a.name if a.asname else a.name.split('.')[0])

    def st_ImportFrom(self, n, env, mod):
        for a in n.names:
            env[a.asname or a.name] = self.w.lookup(n.module, a.name)

    def st_Break(self, n, env, mod):
        raise Break()

    def st_Continue(self, n, env, mod):
        raise Continue()

    def st_With(self, n, env, mod):
        for i in n.items:
            v = self.deref(self.ev(i.context_expr, env, mod))
            if i.optional_vars is not None:
                self.assign(i.optional_vars, ('meth', v, '__enter__', (), ()), env, mod)
        self.block(n.body, env, mod)

    def st_Try(self, n, env, mod):
        if n.finalbody:
            raise Unsupported('finally')
        names = []
        for h in n.handlers:
            if h.type is None:
                names.append('Exception')
            else:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                names += [ast.unparse(t).split('.')[-1] for t in ts]
        self.handlers.append(names)
        ok = False
        try:
            self.block(n.body, env, mod)
            ok = True
        except PyRaise as e:
            self.handlers.pop()
            for h in n.handlers:
                ts = [None] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                if any(t is None or exc_is(e.cls, ast.unparse(t).split('.')[-1]) for t in ts):
                    if h.name:
                        env[h.name] = ('exc', e.cls)
                    self.block(h.body, env, mod)
                    return
            raise
        except BaseException:
            if not ok:
                self.handlers.pop()
            raise
        self.handlers.pop()
        self.block(n.orelse, env, mod)

    def st_Match(self, n, env, mod):
        v = self.ev(n.subject, env, mod)
        for c in n.cases:
            b = {}
            if self.match(c.pattern, v, b, env, mod):
                e2 = dict(env)
                env.update(b)
                if c.guard is not None and not self.truth(self.ev(c.guard, env, mod)):
                    continue
                self.block(c.body, env, mod)
                return

    def match(self, p, v, b, env, mod):
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, b, env, mod):
                return False
            if p.name:
                b[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, b, env, mod) for q in p.patterns)
        if isinstance(p, ast.MatchSingleton):
            return self.isnone(v) if p.value is None else self.compare(ast.Is(), v, C(p.value))[2]
        if isinstance(p, ast.MatchValue):
            return self.eq(self.deref(v), self.deref(self.ev(p.value, env, mod)))
        if isinstance(p, ast.MatchSequence):
            if v[0] != 'tup':
                raise Unsupported('sequence pattern')
            return len(v[1]) == len(p.patterns) and all(self.match(q, x, b, env, mod) for q, x in zip(p.patterns, v[1]))
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.isinstance_(v, ast.unparse(p.cls).split('.')[-1])
        raise Unsupported('pattern ' + type(p).__name__)

    def isinstance_(self, v, cls):
        d = self.deref(v)
        s = sort_of(d)
        if isc(d) and cls in ('str', 'int', 'float', 'bool', 'NoneType', 'dict', 'list', 'tuple', 'BaseModel', 'Expr'):
            return {'str': str, 'int': int, 'float': float, 'bool': bool, 'NoneType': type(None)}.get(cls, ()) and isinstance(d[2], {'str': str, 'int': int, 'float': float, 'bool': bool, 'NoneType': type(None)}[cls]) or False
        if s in ('str', 'int', 'float', 'bool'):
            return cls == s or s == 'bool' and cls == 'int'
        if isinstance(s, tuple) and s[0] == 'inst':
            return cls in (s[1], 'BaseModel')
        if isinstance(s, tuple) and s[0] == 'opt' and self.isnone(d):
            return False
        if cls == 'bool' and not self.decide(('isinst', d, 'int')):
            return False
        return self.decide(('isinst', d, cls))

    def st_While(self, n, env, mod):
        raise Unsupported('while')

    def st_For(self, n, env, mod):
        l = self.aslist(self.ev(n.iter, env, mod))
        done = False
        for p in l[1]:
            if p[0] == 'one':
                self.assign(n.target, p[1], env, mod)
                try:
                    self.block(n.body, env, mod)
                except Continue:
                    pass
                except Break:
                    done = True
                    break
            elif self.loop(n, p, env, mod):
                done = True
                break
        if not done:
            self.block(n.orelse, env, mod)

    def loop(self, n, part, env, mod):
        """A loop over a list of any length: its body once, on any element and any state."""
        src = part[1]
        u = uid()
        stored = sorted({x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} |
                        {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)})
        svars = [v for v in stored if v in env and env[v] != ('poison',)]
        refs = sorted(k for k, v in self.heap.items())
        states = []          # ('var', name) / ('ref', id): what some path changes
        before = dict(env)
        heap0 = dict(self.heap)
        while True:
            def run():
                for i, st in enumerate(states):
                    if st[0] == 'var':
                        env[st[1]] = bv(u, i, sort_of(self.deref(before[st[1]])))
                    else:
                        self.heap[st[1]] = ('lst', (('all', bv(u, i, sort_of(heap0[st[1]]))),)) if heap0[st[1]][0] == 'lst' else bv(u, i, 'any')
                for v in stored:
                    if v not in svars:
                        env.pop(v, None)
                kind = ('next',)
                try:
                    if part[0] == 'all':
                        elems = [self.bind_elem(src, u)]
                    else:
                        self.ranges[u] = canon(src)
                        leaf = self.leaf(subst(part[3], lambda y: bv(u, y[2], y[3]) if y[0] == 'bv' and y[1] == part[2] else None))
                        if any(q[0] != 'one' for q in leaf[1]):
                            raise Unsupported('loop over a nested list')
                        elems = [q[1] for q in leaf[1]]
                    for x in elems:
                        self.assign(n.target, x, env, mod)
                        try:
                            self.block(n.body, env, mod)
                        except Continue:
                            pass
                except PyRaise as e:
                    kind = ('raise', e.cls)
                except Return as r:
                    kind = ('return', self.deref(r.v))
                except Break:
                    kind = ('break',)
                vals = [self.deref(env[st[1]]) if st[0] == 'var' else self.deref(('ref', st[1])) for st in states]
                chg = [('var', v) for v in svars if ('var', v) not in states and (v not in env or self.deref(env[v]) != self.deref2(before[v], heap0))]
                chg += [('ref', k) for k in refs if ('ref', k) not in states and self.heap[k] != heap0[k]]
                if kind[0] == 'raise':
                    chg = []
                return kind, tuple(vals), chg
            paths = self.explore(run, env)
            new = []
            for _, r in paths:
                for c in r[2]:
                    if c not in new:
                        new.append(c)
            if not new:
                break
            states += new
        inits = tuple(self.deref(before[s[1]]) if s[0] == 'var' else heap0[s[1]] for s in states)
        kinds = {r[0][0] for _, r in paths}
        if kinds - {'next', 'raise'}:
            return self.stopping(n, part, src, u, states, inits, paths, env, stored, svars)
        self.stops(src, u, [(tr, ('raise', r[0][1]) if r[0][0] == 'raise' else ('ok', None)) for tr, r in paths]) if not self.state_in_trails(u, paths) else \
            self.stateful_stop(src, u, inits, paths)
        ok = [(tr, r) for tr, r in paths if r[0][0] == 'next']
        if not ok:
            # every element raises: the list is empty here
            pass
        else:
            tree = self.hoist(tree_of([(tr, ('st', r[1])) for tr, r in ok]), u)
            self.after(src, u, states, inits, tree, env)
        for v in stored:
            if v not in svars:
                env[v] = ('poison',)
        return False

    def deref2(self, t, heap):
        h, self.heap = self.heap, heap
        try:
            return self.deref(t)
        finally:
            self.heap = h

    def state_in_trails(self, u, paths):
        return any(mentions(a, lambda b: b[1] == u and isinstance(b[2], int)) for tr, r in paths for a, v in tr) and any(r[0][0] == 'raise' for _, r in paths)

    def stateful_stop(self, src, u, inits, paths):
        kinds = sorted({r[0][1] for _, r in paths if r[0][0] == 'raise'})
        tree = order(tree_of([(tr, ('next', ('st', r[1])) if r[0][0] == 'next' else ('stop', C(r[0][1]))) for tr, r in paths]))
        for k in kinds:
            if self.decide(('stops', ('loop', src, u, inits, tree), C(k))):
                raise PyRaise(k)

    def after(self, src, u, states, inits, tree, env):
        for i, s in enumerate(states):
            t = order(tree_map(tree, lambda l: l[1][i]))
            v = None
            if s[0] == 'ref' and inits[i][0] == 'lst':
                old = ('all', bv(u, i, sort_of(inits[i])))
                ls = tree_leaves(t)
                if all(l[0] == 'lst' and l[1][:1] == (old,) and not mentions(l[1][1:], lambda b: b[1] == u and isinstance(b[2], int)) for l in ls) and \
                        not any(mentions(a, lambda b: b[1] == u and isinstance(b[2], int)) for a in tree_atoms(t, [])):
                    t2 = tree_map(t, lambda l: ('lst', l[1][1:]))
                    q = self.simplify(('flat', src, u, t2))
                    v = lst(list(inits[i][1]) + ([q] if q else []))
            if v is None:
                v = self.mkfold(src, u, inits, tree, i)
                if s[0] == 'ref' and v[0] != 'lst' and inits[i][0] == 'lst':
                    v = ('lst', (('all', v),))
            if s[0] == 'var':
                env[s[1]] = v
            else:
                self.heap[s[1]] = v

    def stopping(self, n, part, src, u, states, inits, paths, env, stored, svars):
        """A loop that may be left by return or break."""
        def leaf(r):
            if r[0][0] == 'next':
                return ('next', ('st', r[1]))
            if r[0][0] == 'return':
                return ('stop', C('return'), r[0][1])
            if r[0][0] == 'raise':
                return ('stop', C(r[0][1]), NONE)
            return ('stop', C('break'), ('st', r[1]))
        tree = order(tree_of([(tr, leaf(r)) for tr, r in paths]))
        L = ('loop', src, u, inits, tree)
        stateless = not mentions(tree_map(tree, lambda l: l if l[0] == 'stop' else NONE), lambda b: b[1] == u and isinstance(b[2], int))
        if stateless:
            L = ('loop', src, u, (), tree_map(tree, lambda l: l if l[0] == 'stop' else ('next',)))
            kinds = sorted({l[1][2] for l in tree_leaves(tree) if l[0] == 'stop'})
            if len(kinds) == 1:
                t2 = tree_map(tree, lambda l: C(l[0] != 'stop'))
                stop = lambda k: not self.decide(('allq', src, u, order(t2)))
            else:
                stop = lambda k: self.decide(('stops', L, C(k)))
        else:
            kinds = sorted({l[1][2] for l in tree_leaves(tree) if l[0] == 'stop'})
            stop = lambda k: self.decide(('stops', L, C(k)))
        for k in kinds:
            if stop(k):
                if k == 'return':
                    vs = {repr(l[2]): l[2] for l in tree_leaves(tree) if l[0] == 'stop' and l[1] == C('return')}
                    v = list(vs.values())[0]
                    if len(vs) == 1 and not mentions(v, lambda b: b[1] == u):
                        raise Return(v)
                    raise Return(('loopval', L))
                if k == 'break':
                    bl = [l for l in tree_leaves(tree) if l[0] == 'stop' and l[1] == C('break')]
                    for i, s in enumerate(states):
                        vs = {repr(l[2][1][i]): l[2][1][i] for l in bl}
                        v = list(vs.values())[0]
                        if len(vs) != 1 or mentions(v, lambda b: b[1] == u):
                            v = ('loopst', i, ('loop', src, u, inits, tree))
                            if s[0] == 'ref':
                                v = ('lst', (('all', v),))
                        if s[0] == 'var':
                            env[s[1]] = v
                        else:
                            self.heap[s[1]] = v
                    for v in stored:
                        if v not in svars:
                            env[v] = ('poison',)
                    return True
                raise PyRaise(k)
        # ran to its end
        ok = [(tr, r) for tr, r in paths if r[0][0] == 'next']
        if ok and states:
            try:
                t = order(tree_of([(tr, ('st', r[1])) for tr, r in ok]))
            except ValueError:
                raise Unsupported('loop with stops')
            self.after(src, u, states, inits, t, env)
        for v in stored:
            if v not in svars:
                env[v] = ('poison',)
        return False


# ---------------------------------------------------------------- builtins

def b_len(E, parts, args, kws, env, mod):
    s = strip_opt(sort_of(E.deref(args[0])))
    if s in ('int', 'none', 'float', 'df', 'col') or isinstance(s, tuple) and s[0] == 'inst':
        raise PyRaise('TypeError')
    return E.length(args[0])


def b_list(E, parts, args, kws, env, mod):
    return E.new(E.aslist(args[0]) if args else ('lst', ()))


def b_tuple(E, parts, args, kws, env, mod):
    l = E.aslist(args[0]) if args else ('lst', ())
    return ('tup', tuple(p[1] for p in l[1])) if all(p[0] == 'one' for p in l[1]) else l


def b_dict(E, parts, args, kws, env, mod):
    if args and not kws:
        d = E.deref(args[0])
        if d[0] in ('dict', 'dictof') or isinstance(sort_of(d), tuple) and sort_of(d)[0] == 'dict':
            return E.new(d) if d[0] == 'dict' else d
        if d[0] in ('sym', 'attr') and sort_of(d) == 'any':
            return E.new(E.dict_of(E.pairs(d)))
        return E.todict(d)
    if not args:
        return E.new(E.mkdict([('pair', C(k), v) for _, k, v in kws]))
    raise Unsupported('dict()')


def b_zip(E, parts, args, kws, env, mod):
    if kws:
        raise Unsupported('zip(strict)')
    ls = [E.aslist(a) for a in args]
    if all(p[0] == 'one' for l in ls for p in l[1]):
        return lst([('one', ('tup', tuple(q[1] for q in z))) for z in zip(*[l[1] for l in ls])])
    # element-wise maps are moved out of the lists that are put side by side
    srcs, fs = [], []
    for l in ls:
        if len(l[1]) == 1 and l[1][0][0] == 'flat':
            _, s, u, tr = l[1][0]
            if tr[0] == 'lst' and len(tr[1]) == 1 and tr[1][0][0] == 'one':
                srcs.append(s)
                fs.append((u, tr[1][0][1]))
                continue
        srcs.append(unlst(l))
        fs.append(None)
    z = ('zip', tuple(srcs))
    if not any(fs):
        return lst([('all', z)])

    def f(x):
        out = []
        for i, g in enumerate(fs):
            e = x[1][i] if x[0] == 'tup' else ('idx', x, C(i))
            if g:
                def sub(y, g=g, e=e, i=i):
                    if y[0] == 'idx' and y[1][0] == 'bv' and y[1][1] == g[0]:
                        return ('idx', e, y[2])
                    if y[0] == 'bv' and y[1] == g[0]:
                        return e
                e = subst(g[1], sub)
            out.append(e)
        return [('one', ('tup', tuple(out)))]
    return lst(E.flatmap(('lst', (('all', z),)), f, env))


def b_enumerate(E, parts, args, kws, env, mod):
    l = E.aslist(args[0])
    if len(args) > 1 or kws:
        raise Unsupported('enumerate from')
    if all(p[0] == 'one' for p in l[1]):
        return lst([('one', ('tup', (C(i), p[1]))) for i, p in enumerate(l[1])])
    return lst([('all', ('enumerate', unlst(l)))])


def b_reduce(E, parts, args, kws, env, mod):
    f, l = args[0], E.aslist(args[1])
    step = lambda a, x: E.call(f, [('one', a), ('one', x)], [], env, mod)
    if len(args) > 2:
        return E.fold(l, args[2], step, env)
    if not E.nonempty(l):
        raise PyRaise('TypeError')
    if l[1][0][0] == 'one':
        return E.fold(('lst', l[1][1:]), l[1][0][1], step, env)
    h = E.index(l, C(0))
    p = l[1][0]
    if p[0] == 'flat' and p[3][0] == 'lst' and len(p[3][1]) == 1 and p[3][1][0][0] == 'one' and len(l[1]) == 1:
        src, u, x = p[1], p[2], p[3][1][0][1]
        h0 = ('idx', src, C(0))
        h = subst(x, lambda y: h0 if y[0] == 'bv' and y[1] == u else None)
        rest = lst([('flat', ('slice', src, C(1), NONE, NONE), u, p[3])])
    else:
        rest = E.slice(l, C(1), NONE, NONE)
    return E.fold(rest, h, step, env)


def b_sum(E, parts, args, kws, env, mod):
    l = E.aslist(args[0])
    if len(args) > 2:
        raise PyRaise('TypeError')
    if len(args) == 2 and sort_of(E.deref(args[0])) == 'col':
        raise PyRaise('TypeError')
    return E.fold(l, args[1] if len(args) > 1 else C(0), lambda a, x: E.arith('+', a, x), env)


def b_all(E, parts, args, kws, env, mod):
    return C(E.quantifier(args[0], True))


def b_any(E, parts, args, kws, env, mod):
    return C(E.quantifier(args[0], False))


def b_isinstance(E, parts, args, kws, env, mod):
    c = E.deref(args[1])
    cs = c[1] if c[0] == 'tup' else (c,)
    return C(any(E.isinstance_(args[0], x[1].split('.')[-1] if x[0] == 'ext' else x[2]) for x in cs))


def b_str(E, parts, args, kws, env, mod):
    return E.str_(args[0]) if args else C('')


def b_bool(E, parts, args, kws, env, mod):
    return C(E.truth(args[0]) if args else False)


def b_map(E, parts, args, kws, env, mod):
    if len(args) != 2:
        raise Unsupported('map')
    return lst(E.flatmap(args[1], lambda x: [('one', E.deref(E.call(args[0], [('one', x)], [], env, mod)))], env))


def b_filter(E, parts, args, kws, env, mod):
    f = args[0]
    return lst(E.flatmap(args[1], lambda x: [('one', x)] if E.truth(x if f == NONE else E.call(f, [('one', x)], [], env, mod)) else [], env))


def b_islice(E, parts, args, kws, env, mod):
    l = E.aslist(args[0])
    if len(args) == 2:
        return lst([('all', ('islice', unlst(l), E.deref(args[1])))])
    raise Unsupported('islice')


def b_sorted(E, parts, args, kws, env, mod):
    if kws:
        raise Unsupported('sorted(key)')
    return E.new(lst([('all', ('sorted', unlst(E.aslist(args[0]))))]))


def b_set(E, parts, args, kws, env, mod):
    return ('set', unlst(E.aslist(args[0]))) if args else ('set', ('lst', ()))


def b_int(E, parts, args, kws, env, mod):
    d = [E.deref(a) for a in args]
    if len(d) == 1 and sort_of(d[0]) == 'int':
        return d[0]
    return E.may_raise(('call', 'int', tuple(d), (), 'int'))


def b_chain(E, parts, args, kws, env, mod):
    return lst([q for a in args for q in E.aslist(a)[1]])


def b_op(o):
    def f(E, parts, args, kws, env, mod):
        return E.arith(o, *args)
    return f


def b_opaque(name, sort):
    def f(E, parts, args, kws, env, mod):
        return E.may_raise(('call', name, E.argterms(parts), E.kwterms(kws), sort))
    return f


def b_divmod(E, parts, args, kws, env, mod):
    a, b = (E.deref(x) for x in args)
    return ('tup', (E.arith('//', a, b), E.arith('%', a, b)))


def b_getattr(E, parts, args, kws, env, mod):
    if len(args) == 2 and isc(E.deref(args[1])):
        return E.getattr(args[0], E.deref(args[1])[2])
    return E.may_raise(('call', 'getattr', E.argterms(parts), ()))


def b_parse(E, parts, args, kws, env, mod):
    if len(parts) != 1 or kws:
        raise Unsupported('ast.parse')
    t = E.may_raise(('call', 'ast.parse', E.argterms(parts), ()))
    return ('obj', 'ast.Module', (('fld', 'body', E.new(lst([('all', ('attr', t, 'body', ('list', 'any')))]))),))


def b_effect(name):
    def f(E, parts, args, kws, env, mod):
        if args is None or kws:
            raise Unsupported(name)
        E.event(name, args)
        return E.may_raise(('call', name, E.argterms(parts) + (E.close(E.heap[0]),), ()))
    return f


def b_parser(E, parts, args, kws, env, mod):
    return ('obj', 'argparse.ArgumentParser', (('fld', 'options', E.new(lst(()))),))


ARITY = {'len': 1, 'isinstance': 2, 'all': 1, 'any': 1, 'divmod': 2, 'hex': 1, 'bin': 1}
EFFECTS = ('spl_transpiler.runtime.utils.exec_with_return',)
BUILTINS = {'ast.parse': b_parse, 'exec': b_effect('exec'), 'eval': b_effect('eval'), 'IPython.display.display': b_effect('display'), 'argparse.ArgumentParser': b_parser,
            'ast.unparse': b_opaque('ast.unparse', 'str'),
            'len': b_len, 'list': b_list, 'tuple': b_tuple, 'dict': b_dict, 'zip': b_zip, 'enumerate': b_enumerate, 'functools.reduce': b_reduce, 'sum': b_sum, 'all': b_all,
            'any': b_any, 'isinstance': b_isinstance, 'str': b_str, 'bool': b_bool, 'map': b_map, 'filter': b_filter, 'itertools.islice': b_islice, 'sorted': b_sorted,
            'set': b_set, 'int': b_int, 'itertools.chain': b_chain, 'divmod': b_divmod, 'getattr': b_getattr, 'hex': b_opaque('hex', 'str'), 'bin': b_opaque('bin', 'str'), 'float': b_opaque('float', 'float'),
            'operator.add': b_op('+'), 'operator.and_': b_op('&'), 'operator.or_': b_op('|')}
