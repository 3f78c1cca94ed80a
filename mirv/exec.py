"""Symbolic executor for the monomorphic MIR dumped from /repo's current source by mirx.

Every function body executed here comes from the MIR dump of this run.  Calls to functions listed in
`abstract` are replaced by their contract (an uninterpreted application whose meaning is the callee's
specification, verified separately); other local functions are executed in place (inlined);
functions of std and of dependencies are the trusted models in `models.py` or their own MIR.
"""
import re
import json, re
from .terms import *
from . import terms as TT


class MRef:
    __slots__ = ('frame', 'local', 'path', 'bvs')

    def __init__(self, frame, local, path=()):
        self.frame, self.local, self.path = frame, local, path
        self.bvs = EMPTY

    def __eq__(self, o):
        return isinstance(o, MRef) and self.frame is o.frame and self.local == o.local and self.path == o.path

    def __hash__(self):
        return hash((id(self.frame), self.local, self.path))

    def __repr__(self):
        return '&mut %s._%s%s' % (self.frame.name[-20:], self.local, self.path or '')


class Uninit:
    bvs = EMPTY

    def __repr__(self):
        return 'UNINIT'


UNINIT = Uninit()


class It:
    """An iterator: pending segments plus a lazily applied list of adapters."""
    __slots__ = ('segs', 'ads', 'sentinel', 'ety', 'bvs')

    def __init__(self, segs, ads=(), ety=None, sentinel=None):
        self.segs, self.ads, self.ety, self.sentinel = tuple(segs), tuple(ads), ety, sentinel
        b = EMPTY
        for s in self.segs:
            b = b | s.bv
        self.bvs = b

    def __repr__(self):
        return 'It(%s%s)' % (list(self.segs), ' ' + str(self.ads) if self.ads else '')

    def __eq__(self, o):
        return isinstance(o, It) and self.segs == o.segs and self.ads == o.ads and self.sentinel is o.sentinel

    def __hash__(self):
        return hash((self.segs, len(self.ads)))


class FArg:
    bvs = EMPTY

    def __init__(self, kind, ty, v):
        self.kind, self.ty, self.v = kind, ty, v
        self.bvs = v.bv if isinstance(v, T) else EMPTY


class FArgs:
    bvs = EMPTY

    def __init__(self, parts):
        self.parts = parts       # list of str | FArg


CALLS = re.compile(r'ops::Fn(Once|Mut)?(<.*>)?::call(_once|_mut)?$')
DERIVED = re.compile(r'as std::(clone::Clone|cmp::\w+|hash::Hash|fmt::\w+)>::\w+$|<impl std::(clone::Clone|cmp::\w+|hash::Hash|fmt::\w+) for .*>::\w+$')


class Frame:
    __slots__ = ('fn', 'body', 'locals', 'name', 'sent')

    def __init__(self, fn, body, name):
        self.fn, self.body, self.name = fn, body, name
        self.locals = [None] * (len(body.locals) if body else 0)
        self.sent = None


class Body:
    def __init__(self, j):
        self.locals = j['locals']
        self.nargs = j['nargs']
        self.blocks = j['blocks']
        self.span = j['span']
        self._live = None
        self._cyc = None
        self.simplify()

    def simplify(self):
        bl = self.blocks
        n = len(bl)
        for b in bl:
            t = b['term']
            if t['t'] == 'drop':
                b['term'] = {'t': 'goto', 'to': t['to']}
            elif t['t'] == 'call' and t['to'] is not None and t['f'].get('def', '').endswith('std::ops::Drop>::drop'):
                b['term'] = {'t': 'goto', 'to': t['to']}
                b['s'] = [s for s in b['s']]
        # locals only used to test drop flags / discriminants before drops: merge such switches

        def follow(i, seen):
            # skip blocks that only assign constants/refs to temporaries never read elsewhere and goto
            while i not in seen:
                seen.add(i)
                b = bl[i]
                if b['term']['t'] == 'goto' and all(self._pure_tmp(s) for s in b['s']):
                    i = b['term']['to']
                else:
                    break
            return i
        changed = True
        while changed:
            changed = False
            self._uses = self._count_uses()
            for b in bl:
                t = b['term']
                if t['t'] == 'switch':
                    tg = {follow(x[1], set()) for x in t['br']} | ({follow(t['otherwise'], set())} if bl[t['otherwise']]['term']['t'] != 'unreachable' else set())
                    if len(tg) == 1:
                        b['term'] = {'t': 'goto', 'to': tg.pop()}
                        changed = True
        self._uses = self._count_uses()
        # remove assignments to flag temporaries that are never read
        for b in bl:
            b['s'] = [s for s in b['s'] if not self._pure_tmp(s)]

    def _pure_tmp(self, s):
        """assignment to a bare local that is never read (pure right-hand side)"""
        return s[0] == '=' and not s[1][1] and s[1][0] != 0 and self._uses.get(s[1][0], 0) == 0 and s[2][0] in ('use', 'ref', 'discr', 'cast', 'addrof')

    def _count_uses(self):
        u = {}

        def pl(p):
            u[p[0]] = u.get(p[0], 0) + 1
            for e in p[1]:
                if e[0] == 'index':
                    u[e[1]] = u.get(e[1], 0) + 1

        def op(o):
            if 'copy' in o:
                pl(o['copy'])
            elif 'move' in o:
                pl(o['move'])
        reach = self.reachable()
        for i in reach:
            b = self.blocks[i]
            for s in b['s']:
                if s[0] == '=':
                    if s[1][1]:
                        pl(s[1])
                    self._rv(s[2], op, pl)
                elif s[0] == 'setdiscr':
                    pl(s[1])
            t = b['term']
            if t['t'] == 'switch':
                op(t['d'])
            elif t['t'] == 'assert':
                op(t['cond'])
            elif t['t'] == 'call':
                for a in t['args']:
                    op(a)
                if t['f'].get('dynamic'):
                    op(t['f']['dynamic'])
                if t['dest'][1]:
                    pl(t['dest'])
        u[0] = u.get(0, 0) + 1
        return u

    @staticmethod
    def _rv(r, op, pl):
        k = r[0]
        if k in ('use',):
            op(r[1])
        elif k == 'agg':
            for o in r[2]:
                op(o)
        elif k == 'ref':
            pl(r[2])
        elif k in ('discr', 'len', 'addrof'):
            pl(r[1])
        elif k in ('bin', 'checked'):
            op(r[2])
            op(r[3])
        elif k == 'cast':
            op(r[2])
        elif k == 'un':
            op(r[2])
        elif k == 'repeat':
            op(r[1])

    def succ(self, i):
        t = self.blocks[i]['term']
        k = t['t']
        if k == 'goto' or k == 'assert':
            return [t['to']]
        if k == 'switch':
            return [x[1] for x in t['br']] + [t['otherwise']]
        if k == 'call':
            return [t['to']] if t['to'] is not None else []
        return []

    def reachable(self, start=0):
        seen = {start}
        st = [start]
        while st:
            for j in self.succ(st.pop()):
                if j not in seen:
                    seen.add(j)
                    st.append(j)
        return seen

    def in_cycle(self, i):
        if self._cyc is None:
            self._cyc = {}
        c = self._cyc.get(i)
        if c is None:
            seen = set()
            st = list(self.succ(i))
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                st.extend(self.succ(x))
            c = self._cyc[i] = i in seen
        return c

    def live_in(self, i):
        """locals live at the start of block i"""
        if self._live is None:
            n = len(self.blocks)
            use, de = [set() for _ in range(n)], [set() for _ in range(n)]
            for bi in self.reachable():
                b = self.blocks[bi]
                U, D = use[bi], de[bi]

                def pl(p):
                    if p[0] not in D:
                        U.add(p[0])
                    for e in p[1]:
                        if e[0] == 'index' and e[1] not in D:
                            U.add(e[1])

                def op(o):
                    if 'copy' in o:
                        pl(o['copy'])
                    elif 'move' in o:
                        pl(o['move'])
                for s in b['s']:
                    if s[0] == '=':
                        self._rv(s[2], op, pl)
                        if s[1][1]:
                            pl(s[1])
                        else:
                            D.add(s[1][0])
                    elif s[0] == 'setdiscr':
                        pl(s[1])
                t = b['term']
                if t['t'] == 'switch':
                    op(t['d'])
                elif t['t'] == 'assert':
                    op(t['cond'])
                elif t['t'] == 'return':
                    if 0 not in D:
                        U.add(0)
                elif t['t'] == 'call':
                    for a in t['args']:
                        op(a)
                    if t['f'].get('dynamic'):
                        op(t['f']['dynamic'])
                    if t['dest'][1]:
                        pl(t['dest'])
                    else:
                        D.add(t['dest'][0])
            live = [set(u) for u in use]
            ch = True
            while ch:
                ch = False
                for bi in range(n):
                    out = set()
                    for s in self.succ(bi):
                        out |= live[s]
                    new = use[bi] | (out - de[bi])
                    if new != live[bi]:
                        live[bi] = new
                        ch = True
            self._live = live
        return self._live[i]


class SinkBody:
    locals = [None]
    nargs = 0

    def live_in(self, i):
        return {0}


class Exec(Engine):
    def __init__(self, dump):
        types = Types(dump['types'])
        super().__init__(types)
        self.F = dump['fns']
        self.statics = dump['statics']
        self.bodies = {}
        self.abstract = []        # list of (predicate(fnjson), handler)
        self.top_fn = None
        self.concrete = False
        self.inlined = {}
        self.used_models = {}
        self.ext_used = {}
        self.memo_ty = {}
        self.disp_index = None
        self.byname = {}
        for k, f in self.F.items():
            self.byname.setdefault(f['name'], k)
        self.max_depth = 60
        self.const_cache = {}
        self.steps = 0

    # ------------------------------------------------------------ lookup
    def find_fn(self, pat):
        """Functions with a body whose name matches the regular expression."""
        r = re.compile(pat)
        return [k for k, f in self.F.items() if f['body'] and r.search(f['name'])]

    def body(self, key):
        b = self.bodies.get(key)
        if b is None:
            b = self.bodies[key] = Body(self.F[key]['body'])
        return b

    # ------------------------------------------------------------ constants
    def const(self, c):
        k = id(c)
        v = self.const_cache.get(k)
        if v is None:
            v = self._const(c)
            # keep the json alive through self.F; ids stay unique
            if isinstance(v, T) and _perm_ok(v):
                pass
        return v

    def _const(self, c):
        k = c['c']
        if k == 'bool':
            return B(c['v'])
        if k == 'int':
            return I(int(c['v']))
        if k == 'char':
            return I(int(c['v']))
        if k == 'str':
            return lit(c['v'])
        if k == 'float':
            import struct
            return mk('float', (struct.unpack('<d', struct.pack('<Q', int(c['bits'])))[0],)) if int(c['bits']) >= 0 else None
        if k == 'ref':
            return self._const(c['v'])
        if k in ('array', 'slice'):
            return mk('seq', tuple(one(self._const(e)) for e in c['es']))
        if k == 'tuple':
            return mk('tup', tuple(self._const(e) for e in c['fs']))
        if k == 'adt':
            t = self.ty.get(c['ty'])
            if self.ty.kind(c['ty']) == 'str':
                return lit('')
            return mk('adt', (c['variant'],) + tuple(self._const(e) for e in c['fs']), self.ty.peel(c['ty']))
        if k == 'bytes':
            return mk('bytes', (tuple(c['v']),))
        if k == 'zst':
            t = self.ty.get(c['ty'])
            if t['k'] == 'fndef':
                return mk('fndef', (c['ty'],))
            if t['k'] == 'closure':
                return mk('clo', (c['ty'],))
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'adt':
                return mk('adt', (0,), self.ty.peel(c['ty']))
            return UNIT
        if k == 'static':
            return mk('static', (c['name'],))
        if k == 'fnptr':
            return mk('fnptr', (c['inst'],))
        return mk('opaque', (json.dumps(c, sort_keys=True)[:200],))

    # ------------------------------------------------------------ places
    def resolve(self, fr, p):
        cur = fr
        local = p[0]
        path = ()
        ty = fr.body.locals[local]
        boxp = False
        dv = 0
        for e in p[1]:
            k = e[0]
            if k == 'deref':
                if boxp:
                    boxp = False
                    continue
                v = self.read(cur, local, path)
                if isinstance(v, MRef):
                    cur, local, path = v.frame, v.local, v.path
                t = self.ty.get(ty) if ty is not None else None
                if t is not None:
                    ty = t.get('t') if t['k'] in ('ref', 'ptr') else (t['args'][0] if t['k'] == 'adt' and t['args'] else None)
            elif k == 'field':
                t = self.ty.get(ty) if ty is not None else None
                if boxp:
                    ty = e[2]
                    continue
                if t is not None and t['k'] == 'adt' and t.get('box'):
                    boxp = True
                    ty = e[2]
                    continue
                path = path + (('f', dv, e[1], e[2]),)
                ty = e[2]
                dv = 0
            elif k == 'downcast':
                dv = e[1]
            elif k == 'index':
                path = path + (('i', fr.locals[e[1]]),)
                ty = None if ty is None else self.ty.get(ty).get('t')
            elif k == 'cindex':
                if e[3]:
                    raise Unsupported('const index from end')
                path = path + (('i', I(e[1])),)
                ty = None if ty is None else self.ty.get(ty).get('t')
            elif k == 'subslice':
                path = path + (('s', e[1], e[2], e[3]),)
            else:
                raise Unsupported('projection %s' % k)
        return cur, local, path, boxp

    def read(self, fr, local, path):
        v = fr.locals[local]
        for e in path:
            v = self.step(v, e)
        return v

    def step(self, v, e):
        while isinstance(v, MRef):
            v = self.read(v.frame, v.local, v.path)
        if v is None:
            raise Unsupported('read of uninitialised place')
        if e[0] == 'f':
            if v is UNINIT:
                return UNINIT
            if not isinstance(v, T):
                raise Unsupported('field of %r' % (v,))
            if v.op == 'clo':
                return v.args[1 + e[2]]
            if v.op == 'tup':
                return v.args[e[2]]
            c = self.canon(v)
            return self.proj(c, e[1], e[2], e[3])
        if e[0] == 'i':
            return self.index(v, e[1])
        if e[0] == 's':
            s = v
            for _ in range(e[1]):
                r = self.force_cons(s)
                if r is None:
                    raise Unsupported('subslice')
                s = r[1]
            if e[2] and e[3]:
                raise Unsupported('subslice from end')
            return s
        raise Unsupported('step %s' % (e,))

    def index(self, s, i):
        i = self.canon(i)
        if i.op != 'int':
            raise Unsupported('symbolic index')
        n = i.args[0]
        while True:
            r = self.force_cons(s)
            if r is None:
                raise PanicExc('index out of bounds')
            if n == 0:
                return r[0]
            s = r[1]
            n -= 1

    def read_place(self, fr, p):
        cur, local, path, boxp = self.resolve(fr, p)
        if boxp:
            return MRef(cur, local, path)
        return self.read(cur, local, path)

    def write_place(self, fr, p, val):
        cur, local, path, boxp = self.resolve(fr, p)
        self.write(cur, local, path, val)

    def write(self, cur, local, path, val):
        cur.locals[local] = self.upd(cur.locals[local], path, val)

    def upd(self, v, path, val):
        if not path:
            return val
        if v is UNINIT or v is None:
            if v is UNINIT:
                return val
            raise Unsupported('partial init')
        if isinstance(v, MRef):
            self.write(v.frame, v.local, v.path + path, val)
            return v
        e = path[0]
        if e[0] == 'f':
            if v.op == 'tup':
                a = list(v.args)
                a[e[2]] = self.upd(a[e[2]], path[1:], val)
                return mk('tup', tuple(a))
            if v.op == 'clo':
                a = list(v.args)
                a[1 + e[2]] = self.upd(a[1 + e[2]], path[1:], val)
                return mk('clo', tuple(a))
            c = self.canon(v)
            if c.op != 'adt':
                raise Unsupported('update of %s' % c)
            a = list(c.args)
            a[1 + e[2]] = self.upd(a[1 + e[2]], path[1:], val)
            return mk('adt', tuple(a), c.ty)
        raise Unsupported('update %s' % (e,))

    def operand(self, fr, o):
        if 'copy' in o:
            return self.read_place(fr, o['copy'])
        if 'move' in o:
            return self.read_place(fr, o['move'])
        if 'const' in o:
            return self._const(o['const'])
        return FALSE   # runtime checks (UB checks) disabled

    def operand_ty(self, fr, o):
        if 'const' in o:
            return o['const'].get('ty')
        p = o.get('copy') or o.get('move')
        return self.place_ty(fr, p)

    def place_ty(self, fr, p):
        ty = fr.body.locals[p[0]]
        for e in p[1]:
            if ty is None:
                return None
            t = self.ty.get(ty)
            if e[0] == 'deref':
                ty = t.get('t') if t['k'] in ('ref', 'ptr') else (t['args'][0] if t['k'] == 'adt' else None)
            elif e[0] == 'field':
                ty = e[2]
            elif e[0] in ('index', 'cindex'):
                ty = t.get('t')
        return ty

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, r, destp):
        k = r[0]
        if k == 'use':
            return self.operand(fr, r[1])
        if k == 'ref' or k == 'addrof':
            p = r[2] if k == 'ref' else r[1]
            mut = r[1] if k == 'ref' else True
            cur, local, path, boxp = self.resolve(fr, p)
            if mut:
                v = self.read(cur, local, path) if not boxp else None
                if isinstance(v, MRef) and p[1] and p[1][-1][0] == 'deref':
                    return v
                return MRef(cur, local, path)
            v = self.read(cur, local, path)
            if v is None:
                return MRef(cur, local, path)
            return v
        if k == 'agg':
            kk = r[1]['k']
            vs = tuple(self.operand(fr, o) for o in r[2])
            if kk == 'tuple':
                return mk('tup', vs)
            if kk == 'array':
                return mk('seq', tuple(one(v) if isinstance(v, T) else mk('one', (v,)) for v in vs))
            if kk == 'adt':
                ty = self.ty.peel(r[1]['t'])
                return mk('adt', (r[1]['v'],) + vs, ty)
            if kk == 'closure':
                return mk('clo', (r[1]['t'],) + vs)
            if kk == 'rawptr':
                return vs[0]
            raise Unsupported('aggregate %s' % kk)
        if k == 'discr':
            v = self.deref(self.read_place(fr, r[1]))
            if not isinstance(v, T):
                raise Unsupported('discriminant of %r' % (v,))
            c = self.canon(v)
            if c.op == 'adt':
                return I(self.discr(c.ty, c.args[0]))
            return mk('discr', (c,))
        if k in ('bin', 'checked'):
            return self.binop(fr, r, k == 'checked')
        if k == 'un':
            v = self.deref(self.operand(fr, r[2]))
            if r[1] == 'Not':
                if self.operand_ty(fr, r[2]) is not None and self.ty.kind(self.operand_ty(fr, r[2])) == 'bool':
                    return mk('not', (self.canon(v),))
                raise Unsupported('bitwise not')
            if r[1] == 'Neg':
                t = self.ty.get(self.ty.peel(self.operand_ty(fr, r[2])))
                if t['k'] == 'float':
                    return mk('app', ('fneg', v), self.ty.peel(self.operand_ty(fr, r[2])))
                return self.wrapt(mk('isub', (I(0), v)), t)
            if r[1] == 'PtrMetadata':
                return self.canon(mk('len', (v,)))
            raise Unsupported('unary %s' % r[1])
        if k == 'cast':
            return self.cast(fr, r)
        if k == 'len':
            return self.canon(mk('len', (self.read_place(fr, r[1]),)))
        if k == 'repeat':
            v = self.operand(fr, r[1])
            return mk('seq', tuple(one(v) for _ in range(r[2])))
        raise Unsupported('rvalue %s' % k)

    def discr(self, ty, v):
        return int(self.ty.variants(ty)[v]['discr'])

    def deref(self, v):
        while isinstance(v, MRef):
            v = self.read(v.frame, v.local, v.path)
        return v

    def range_of(self, t):
        b = t['bits']
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t['signed'] else (0, (1 << b) - 1)

    def wrapt(self, x, t):
        lo, hi = self.range_of(t)
        return self.canon(mk('wrap', (lo, hi, x)))

    def binop(self, fr, r, checked):
        op = r[1]
        a = self.deref(self.operand(fr, r[2]))
        b = self.deref(self.operand(fr, r[3]))
        ty = self.operand_ty(fr, r[2])
        t = self.ty.get(self.ty.peel(ty)) if ty is not None else {'k': 'int', 'signed': False, 'bits': 64}
        if op.endswith('WithOverflow'):
            op = op[:-12]
            checked = True
        if op.endswith('Unchecked'):
            op = op[:-9]
        if t['k'] in ('int', 'char'):
            if t['k'] == 'char':
                t = {'k': 'int', 'signed': False, 'bits': 32}
            if isinstance(a, T) and a.op == 'discr' or isinstance(b, T) and b.op == 'discr':
                if op in ('Eq', 'Ne'):
                    x, y = (a, b) if a.op == 'discr' else (b, a)
                    if y.op == 'int':
                        r_ = self.is_discr(x.args[0], y.args[0])
                        return B(r_ == (op == 'Eq'))
                raise Unsupported('discriminant arithmetic')
            m = {'Add': 'iadd', 'Sub': 'isub', 'Mul': 'imul'}
            if op in m:
                x = mk(m[op], (a, b))
                w = self.wrapt(x, t)
                if checked:
                    lo, hi = self.range_of(t)
                    ov = mk('not', (mk('and', (mk('ile', (I(lo), x)), mk('ile', (x, I(hi))))),))
                    return mk('tup', (w, self.canon(ov)))
                return w
            c = {'Eq': ('ieq', 0), 'Ne': ('ieq', 1), 'Lt': ('ilt', 0), 'Le': ('ile', 0), 'Gt': ('ile', 1), 'Ge': ('ilt', 1)}
            if op in c:
                o, neg = c[op]
                a, b = self.len_refine(a, b), self.len_refine(b, a)
                x = mk(o, (a, b))
                return self.canon(mk('not', (x,)) if neg else x)
            if a.op == 'int' and b.op == 'int' and op in ('Div', 'Rem', 'BitAnd', 'BitOr', 'Shl', 'Shr', 'BitXor'):
                p, q = a.args[0], b.args[0]
                if op == 'Div':
                    v = abs(p) // abs(q) * (1 if (p >= 0) == (q >= 0) else -1)
                elif op == 'Rem':
                    v = p - q * (abs(p) // abs(q) * (1 if (p >= 0) == (q >= 0) else -1))
                else:
                    v = {'BitAnd': p & q, 'BitOr': p | q, 'Shl': p << q if q < 200 else 0, 'Shr': p >> q, 'BitXor': p ^ q}[op]
                return self.wrapt(I(v), t)
            raise Unsupported('int op %s' % op)
        if t['k'] == 'bool':
            if op == 'Eq':
                return self.canon(self.iff(a, b))
            if op == 'Ne' or op == 'BitXor':
                return self.canon(mk('not', (self.iff(a, b),)))
            if op == 'BitAnd':
                return self.canon(mk('and', (a, b)))
            if op == 'BitOr':
                return self.canon(mk('or', (a, b)))
        if t['k'] == 'float':
            return mk('app', ('f' + op, a, b), None if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') else self.ty.peel(ty))
        raise Unsupported('binop %s on %s' % (op, t['k']))

    def iff(self, a, b):
        return B(self.truth(a) == self.truth(b))

    def len_refine(self, a, b):
        """a is len(s) compared with the constant b: split s until its length is known or exceeds b."""
        if isinstance(a, T) and b.op == 'int' and ('len' in (a.op,) or (a.op == 'iadd' and a.args[1].op == 'len') or (a.op == 'iadd' and a.args[0].op == 'len')):
            n = b.args[0] + 1
            if n <= 16:
                x = a
                for _ in range(n + 1):
                    x = self.canon(x)
                    if x.op == 'int':
                        return x
                    base = 0
                    l = x
                    if x.op == 'iadd':
                        l, c = (x.args[0], x.args[1]) if x.args[0].op == 'len' else (x.args[1], x.args[0])
                        if c.op != 'int' or l.op != 'len':
                            return x
                        base = c.args[0]
                    if base >= n:
                        return x
                    self.force_cons(l.args[0])
        return a

    def is_discr(self, t, d):
        if t.ty is None:
            raise Unsupported('discriminant of %s' % t)
        for v, vv in enumerate(self.ty.variants(t.ty)):
            if int(vv['discr']) == d:
                return self.variant_switch(t, [{v}]) == 0
        return False

    def cast(self, fr, r):
        kind, o, ty = r[1], r[2], r[3]
        v = self.operand(fr, o)
        if kind in ('IntToInt',):
            v = self.deref(v)
            t = self.ty.get(ty)
            if v.op == 'discr':
                vi = self.variant_of(v.args[0])
                v = I(self.discr(self.canon(v.args[0]).ty, vi))
            if v.op in ('bool',) or (v.ty is not None and self.ty.kind(v.ty) == 'bool'):
                v = I(1 if self.truth(v) else 0)
            if t['k'] == 'char':
                t = {'bits': 32, 'signed': False}
            return self.wrapt(v, t)
        if kind == 'IntToFloat':
            return mk('app', ('i2f', v), ty)
        if kind == 'FloatToInt':
            return mk('app', ('f2i', v), ty)
        if kind in ('Transmute', 'BoxDerefTransmute', 'PtrToPtr', 'Subtype') or kind.startswith('PointerCoercion'):
            if kind.startswith('PointerCoercion(ReifyFnPointer') or kind.startswith('PointerCoercion(ClosureFnPointer'):
                return v
            return v
        raise Unsupported('cast %s' % kind)

    # ------------------------------------------------------------ calls
    def call_key(self, key, args, name=None, nomodel=False):
        """Execute the body of function instance `key`."""
        f = self.F.get(key)
        if f is None or not f['body']:
            raise Unsupported('no body for %s' % (name or (f and f['name']) or key))
        b = self.body(key)
        if len(self.frames) > self.max_depth:
            raise Unsupported('recursion too deep in %s' % f['name'])
        if f['local']:
            self.inlined[f['name']] = self.inlined.get(f['name'], 0) + 1
        fr = Frame(f, b, f['name'])
        if len(args) != b.nargs:
            raise Unsupported('arity of %s: %d vs %d' % (f['name'], len(args), b.nargs))
        for i, a in enumerate(args):
            fr.locals[1 + i] = a
        self.frames.append(fr)
        try:
            return self.run_from(fr, 0)
        finally:
            self.frames.pop()

    def run_from(self, fr, bb):
        body = fr.body
        n = 0
        while True:
            n += 1
            self.steps += 1
            if n > 20000:
                raise Unsupported('concrete loop too long in %s' % fr.name)
            b = body.blocks[bb]
            for s in b['s']:
                if s[0] == '=':
                    v = self.rvalue(fr, s[2], s[1])
                    self.write_place(fr, s[1], v)
                elif s[0] == 'setdiscr':
                    raise Unsupported('setdiscr')
            t = b['term']
            k = t['t']
            if k == 'goto':
                bb = t['to']
            elif k == 'return':
                return fr.locals[0] if fr.locals[0] is not None else UNIT
            elif k == 'switch':
                bb = self.switch(fr, t)
            elif k == 'assert':
                c = self.operand(fr, t['cond'])
                if self.truth(c) == t['expected']:
                    bb = t['to']
                else:
                    raise PanicExc(t['msg'], '%s:%s' % (body.span[0], b['line']))
            elif k == 'call':
                if self.is_next(t) and self.loop_next(fr, bb, t):
                    bb = t['to']
                    continue
                v = self.do_call(fr, t, b['line'])
                if t['to'] is None:
                    raise PanicExc('diverging call %s' % t['f'].get('name'), '%s:%s' % (body.span[0], b['line']))
                self.write_place(fr, t['dest'], v)
                bb = t['to']
            elif k == 'unreachable':
                raise Infeasible()
            else:
                raise Unsupported('terminator %s' % k)

    def switch(self, fr, t):
        d = self.operand(fr, t['d'])
        d = self.deref(d)
        br = [(int(x[0]), x[1]) for x in t['br']]
        d = self.canon(d)
        if d.op == 'discr':
            x = self.canon(d.args[0])
            if x.op == 'adt':
                d = I(self.discr(x.ty, x.args[0]))
            else:
                dv = {int(v['discr']): i for i, v in enumerate(self.ty.variants(x.ty))}
                groups, tgts = [], []
                for val, tg in br:
                    vi = dv.get(val)
                    if vi is None:
                        continue
                    if tg in tgts:
                        groups[tgts.index(tg)].add(vi)
                    else:
                        groups.append({vi})
                        tgts.append(tg)
                # an unreachable otherwise block needs no group
                g = self.variant_switch(x, groups)
                if g == len(groups):
                    return t['otherwise']
                return tgts[g]
        if d.op == 'bool':
            for val, tg in br:
                if bool(val) == d.args[0]:
                    return tg
            return t['otherwise']
        ty = self.operand_ty(fr, t['d'])
        isb = ty is not None and self.ty.kind(ty) == 'bool'
        if isb or d.op in ('not', 'and', 'or', 'ilt', 'ile', 'ieq', 'eq'):
            v = self.truth(d)
            for val, tg in br:
                if bool(val) == v:
                    return tg
            return t['otherwise']
        bits = 64
        if ty is not None and self.ty.get(ty)['k'] == 'int':
            tt = self.ty.get(ty)
            bits = tt['bits']
            if tt['signed']:
                br = [(v - (1 << bits) if v >> (bits - 1) else v, tg) for v, tg in br]
        if d.op != 'int' and br:
            d = self.len_refine(d, I(max(v for v, _ in br)))
        if d.op == 'int':
            for val, tg in br:
                if val == d.args[0]:
                    return tg
            return t['otherwise']
        for val, tg in br:
            if self.truth(mk('ieq', (d, I(val)))):
                return tg
        return t['otherwise']

    def do_call(self, fr, t, line=None):
        f = t['f']
        args = [self.operand(fr, a) for a in t['args']]
        if 'dynamic' in f:
            g = self.operand(fr, f['dynamic'])
            return self.call_value(g, args)
        destty = self.place_ty(fr, t['dest'])
        try:
            return self.call(f, args, destty)
        except PanicExc as e:
            if not e.where:
                e.where = '%s:%s' % (fr.body.span[0], line)
            raise

    def call(self, f, args, destty):
        key = f.get('inst')
        fj = self.F.get(key) if key else None
        name = f.get('name') or f.get('def')
        de = f.get('def') or name
        if fj is not None:
            for pred, h in self.abstract:
                if pred(fj):
                    r = h(self, fj, [self.deref(a) if not isinstance(a, MRef) else a for a in args], destty)
                    if r is not NotImplemented:
                        return r
        from . import models, nomm
        # the crate's own functions are interpreted from their bodies, except the derived structural ones
        own = fj is not None and fj['local'] and fj['body'] and not DERIVED.search(fj['name']) and not CALLS.search(f.get('def') or '')
        for ent in (fj['def'] if fj else None, de, name):
            if ent is None or own:
                continue
            h = models.lookup(ent)
            if h is not None:
                r = h(self, f, args, destty)
                if r is not NotImplemented:
                    self.used_models[ent] = self.used_models.get(ent, 0) + 1
                    return r
        if fj is not None and fj['body']:
            return self.call_key(key, args, name)
        return self.unknown(name, fj, args, destty)

    def unknown(self, name, fj, args, destty):
        """An external function without a model: nothing is known about its value, save that the arguments determine it.
        A failed obligation on a path with such a call counts only with a failing input."""
        if destty is None or fj is not None and fj['local'] or self.concrete:
            raise Unsupported('call to %s' % name)
        k = self.ty.kind(self.ty.peel(destty))
        out = []
        for a in args:
            if isinstance(a, MRef):
                raise Unsupported('call to %s' % name)
            a = self.deref(a)
            if not isinstance(a, T) or a.op in ('clo', 'fndef', 'fnptr', 'iter'):
                raise Unsupported('call to %s' % name)
            out.append(a)
        if k not in ('str', 'bool', 'int', 'float', 'seq', 'tuple', 'enum', 'struct') or '&mut ' in str(self.ty.get(destty).get('s', '')):
            raise Unsupported('call to %s' % name)
        self.ext_used[name] = self.ext_used.get(name, 0) + 1
        return mk('app', ('ext:' + name,) + tuple(out), self.ty.peel(destty))

    def call_value(self, g, args):
        """Call a closure / function item / function pointer with unpacked arguments."""
        g = self.deref_clo(g)
        if g.op == 'clo':
            ty = self.ty.get(g.args[0])
            key = ty['inst']
            b = self.F[key]['body'] if key in self.F else None
            if not b:
                raise Unsupported('closure without body %s' % ty['s'])
            return self.call_key(key, [g] + list(args))
        if g.op == 'np':
            from .nomm import np_call
            return np_call(self, g, self.deref(args[0]), self.np_ret(g))
        if g.op == 'fndef':
            ty = self.ty.get(g.args[0])
            key = ty['inst']
            fj = self.F.get(key) or {}
            # constructor functions: no body; build the ADT
            if not fj.get('body'):
                c = self.ctor(ty, args)
                if c is not None:
                    return c
            return self.call({'inst': key, 'def': ty['def'], 'name': fj.get('name'), 'gargs': ty.get('args', [])}, list(args), self.ret_ty(key))
        if g.op == 'fnptr':
            fj = self.F.get(g.args[0]) or {}
            return self.call({'inst': g.args[0], 'def': fj.get('def'), 'name': fj.get('name'), 'gargs': fj.get('gargs', [])}, list(args), self.ret_ty(g.args[0]))
        raise Unsupported('call of %r' % (g,))

    def np_ret(self, g):
        """Result type of a recogniser: that of the closure it stands for."""
        t = self.ty.get(g.ty) if g.ty is not None else {}
        r = self.ret_ty(t.get('inst'))
        if r is None:
            raise Unsupported('type of recogniser %s' % g)
        return r

    def ret_ty(self, key):
        f = self.F.get(key)
        if f and f['body']:
            return f['body']['locals'][0]
        return f.get('ret') if f else None

    def ctor(self, ty, args):
        d = ty['def']
        base, _, last = d.rpartition('::')
        for i, t in enumerate(self.ty.t):
            if t['k'] == 'adt' and not t.get('box'):
                nm = t['name']
                for vi, v in enumerate(t['variants']):
                    if (t['adt'] == 'Enum' and d.endswith(nm + '::' + v['name']) or t['adt'] == 'Struct' and d.endswith(nm)) and len(v['fields']) == len(args):
                        if t['args'] and not self._ctor_match(ty, t):
                            continue
                        return mk('adt', (vi,) + tuple(self.deref(a) for a in args), i)
        return None

    def _ctor_match(self, fty, t):
        return [a for a in fty.get('args', []) if a is not None] == [a for a in t['args'] if a is not None]

    def deref_clo(self, g):
        while isinstance(g, MRef):
            v = self.read(g.frame, g.local, g.path)
            if isinstance(v, T) and v.op in ('clo', 'np'):
                # FnMut called through &mut: mutate in place is only supported through captured &mut
                return v
            g = v
        return g

    # ------------------------------------------------------------ iteration
    def is_next(self, t):
        d = t['f'].get('def', '')
        return d.endswith('Iterator>::next') or d == 'std::iter::Iterator::next'

    def loop_next(self, fr, bb, t):
        """Handle Iterator::next.  Returns True if handled (dest written)."""
        a = self.operand(fr, t['args'][0])
        if not isinstance(a, MRef):
            return False
        it = self.deref(a)
        if not isinstance(it, It):
            return False
        destty = self.place_ty(fr, t['dest'])
        cur = a
        while True:
            # chase &mut &mut
            v = self.read(cur.frame, cur.local, cur.path)
            if isinstance(v, MRef):
                cur = v
            else:
                break
        while True:
            it = self.read(cur.frame, cur.local, cur.path)
            it = self.normalise_it(it)
            if not it.segs:
                if it.sentinel is not None:
                    if it.sentinel == (id(fr), bb):
                        raise StopBody()
                    raise Unsupported('iterator consumed at a second place in a loop')
                self.write(cur.frame, cur.local, cur.path, it)
                self.write_place(fr, t['dest'], self.none(destty))
                return True
            g = it.segs[0]
            if g.op == 'fm' and g.args[1].op == 'one':
                # an element produced by a function of a known element: execute that function now
                r = g.args[0].call(g.args[1].args[0])
                if r[0] != 'ok':
                    raise Infeasible()
                self.write(cur.frame, cur.local, cur.path, It(tuple(self.segs(r[1])) + it.segs[1:], it.ads, it.ety, it.sentinel))
                continue
            if g.op == 'one' and not self.concrete and it.sentinel is None and fr.body.in_cycle(bb) and len(it.segs) > 8 and all(x.op == 'one' for x in it.segs):
                it = It(self.table(mk('seq', it.segs), self.ty.peel(self.ty.get(self.ty.peel(destty))['args'][0])).args, (), it.ety)
                g = it.segs[0]
            if g.op == 'one':
                self.write(cur.frame, cur.local, cur.path, It(it.segs[1:], it.ads, it.ety, it.sentinel))
                self.write_place(fr, t['dest'], self.some(destty, g.args[0]))
                return True
            if not fr.body.in_cycle(bb):
                # single next(): split the sequence
                s = mk('seq', it.segs)
                r = self.force_cons(s)
                it = It(self.segs(s), it.ads, it.ety, it.sentinel)
                self.write(cur.frame, cur.local, cur.path, it)
                continue
            self.summarise(fr, bb, t, cur, it, g, destty)

    def table(self, rows, ety):
        """A long constant sequence as an opaque one, identified by its contents: loops over it take an arbitrary row."""
        def norm(i):
            i = self.ty.peel(i)
            return tuple(norm(x) for x in self.ty.get(i)['ts']) if self.ty.kind(i) == 'tuple' else 'str' if self.ty.kind(i) == 'str' else i
        k = norm(ety)
        if k not in self.memo_ty:
            self.ty.t.append({'k': 'slice', 't': self.ty.peel(ety), 's': '(constant table %d)' % len(self.ty.t)})
            self.memo_ty[k] = len(self.ty.t) - 1
        rows = mk('tup', tuple(self.canon(self.deref(x.args[0])) for x in rows.args))
        return mk('seq', (allseg(mk('app', ('table', rows), self.memo_ty[k])),))

    def none(self, ty):
        return mk('adt', (0,), self.ty.peel(ty))

    def some(self, ty, v):
        return mk('adt', (1, v), self.ty.peel(ty))

    def ok(self, ty, v):
        return mk('adt', (0, v), self.ty.peel(ty))

    def err(self, ty, v=ERR):
        return mk('adt', (1, v), self.ty.peel(ty))

    def normalise_it(self, it):
        """Push pending adapters through and re-normalise the segments."""
        segs = self.segs(mk('seq', it.segs)) if all(s.op != 'lits' for s in it.segs) else it.segs
        if not it.ads:
            return It(segs, (), it.ety, it.sentinel)
        ads = it.ads
        for ad in ads:
            segs = self.apply_adapter(ad, segs)
        return It(segs, (), it.ety, it.sentinel)

    def apply_adapter(self, ad, segs):
        from . import models
        return models.apply_adapter(self, ad, segs)

    # --- loop summarisation -------------------------------------------------
    def snapshot(self):
        return [(f, list(f.locals)) for f in self.frames]

    def restore(self, snap):
        for f, ls in snap:
            f.locals[:] = ls

    def elem_ty_of_seg(self, g, destty):
        if g.op == 'all':
            a = g.args[0]
            return self.ty.elem(a.ty)
        if g.op == 'fm':
            return g.args[0].ety
        if g.op == 'lits':
            o = self.ty.get(self.ty.peel(destty))
            return self.ty.peel(o['args'][0])
        raise Unsupported('element type of %s' % g)

    def summarise(self, fr, bb, t, cur, it, g, destty):
        snap = self.snapshot()
        frames_copy = list(self.frames)
        live = fr.body.live_in(bb)
        ety = self.elem_ty_of_seg(g, destty)
        if g.op == 'fm':
            lam0, src = g.args
        elif g.op == 'lits':
            lam0, src = None, g
        else:
            lam0, src = None, g
        carried = {}   # (frame index, local) -> 'seq' | 'str' | 'gen'

        def relevant(fi, l):
            f = self.frames[fi]
            if f is fr:
                return l in live
            return True

        def run_body(elem, vals):
            """One iteration from the snapshot with the carried places set to vals."""
            save_frames = self.frames
            saved = [(f, list(f.locals)) for f, _ in snap]
            self.frames = list(frames_copy)
            try:
                self.restore(snap)
                for (fi, l), v in vals.items():
                    self.frames[fi].locals[l] = v
                if lam0 is None:
                    es = (one(elem),)
                else:
                    r = lam0.call(elem)
                    if r[0] == 'err':
                        raise Infeasible()
                    es = self.segs(r[1])
                self.write(cur.frame, cur.local, cur.path, It(es, (), it.ety, (id(fr), bb)))
                before = [list(f.locals) for f in self.frames]
                depth = len(self.frames)
                try:
                    v = self.run_from(fr, bb)
                    return ('exit', v, None, before)
                except StopBody:
                    del self.frames[depth:]
                    return ('cont', None, [list(f.locals) for f in self.frames], before)
            finally:
                self.frames = save_frames
                for f, ls in saved:
                    f.locals[:] = ls

        def local_ty(fi, l):
            ty = self.frames[fi].body.locals[l]
            return ty

        for attempt in range(12):
            n = self.bvar_id()
            x = self.bvar_of(n, ety)
            accs = {}
            accn = {}
            for key, kind in carried.items():
                b = n + ('acc',) + key
                accn[key] = b
                fi, l = key
                if kind == 'str':
                    accs[key] = mk('bvar', (b, 0), self.ty.find('std::string::String'))
                else:
                    accs[key] = mk('bvar', (b, 0), self.ty.peel(local_ty(fi, l)) if local_ty(fi, l) is not None else None)
            outcomes = []

            def go():
                return run_body(x, accs)

            def on(kind, v, p):
                outcomes.append((kind, v, p))
            loc = frozenset([n] + list(accn.values()))
            self.explore(go, on, local=loc)
            grow = False
            for kind, v, p in outcomes:
                if kind != 'ret' or v[0] != 'cont':
                    continue
                after, before = v[2], v[3]
                for fi in range(len(after)):
                    for l in range(len(after[fi])):
                        key = (fi, l)
                        a, b = after[fi][l], before[fi][l]
                        if a is b or a == b:
                            continue
                        if (cur.frame is frames_copy[fi] and cur.local == l):
                            continue
                        if key in carried or not relevant(fi, l):
                            continue
                        if not isinstance(a, T) or (b is not None and not isinstance(b, T)):
                            if b is None:
                                continue
                            raise Unsupported('loop carries a non-value %r (local _%d of %s)' % (a, l, frames_copy[fi].name))
                        if b is None:
                            continue   # not initialised before the loop: a temporary of the body
                        sp = self.path
                        self.path = p
                        try:
                            ca, cb = self.canon(a), self.canon(b)
                        finally:
                            self.path = sp
                        if ca is cb:
                            continue
                        ty = local_ty(fi, l)
                        k = self.ty.kind(ty) if ty is not None else 'str'
                        carried[key] = {'seq': 'seq', 'str': 'str'}.get(k, 'gen')
                        grow = True
            if not grow:
                break
        else:
            raise Unsupported('loop state does not stabilise')

        # classify append-only accumulators
        accbinders = {accn[k]: k for k in carried}
        dec_deps = set()
        changed_keys = set()
        for kind, v, p in outcomes:
            for key, _ in p.log:
                dec_deps |= {accbinders[b] for b in key.bv if b in accbinders}
        deps = {k: set() for k in carried}
        append = {}

        def with_path(p, f):
            sp = self.path
            self.path = p
            try:
                return f()
            finally:
                self.path = sp
        for key, kind in list(carried.items()):
            ok_append = kind in ('seq', 'str')
            for okind, v, p in outcomes:
                if okind != 'ret' or v[0] != 'cont':
                    continue
                nv = with_path(p, lambda: self.canon(v[2][key[0]][key[1]]))
                av = accs[key]
                if kind == 'seq':
                    rest = nv.args[1:] if nv.op == 'seq' and nv.args and nv.args[0] is allseg(av) else None
                    if rest is None or any(accn[key] in r.bv for r in rest):
                        ok_append = False
                    else:
                        for r in rest:
                            deps[key] |= {accbinders[b] for b in r.bv if b in accbinders}
                elif kind == 'str':
                    if nv is av:
                        pass
                    elif nv.op == 'cat' and nv.args[0] is av and not any(accn[key] in r.bv for r in nv.args[1:]):
                        for r in nv.args[1:]:
                            deps[key] |= {accbinders[b] for b in r.bv if b in accbinders}
                    else:
                        ok_append = False
                if not ok_append:
                    deps[key] |= {accbinders[b] for b in nv.bv if b in accbinders}
                    deps[key] |= {key}
            append[key] = ok_append
        # a value used by another accumulator or by a decision must itself be fold state
        exits = [(v, p) for okind, v, p in outcomes if okind == 'ret' and v[0] == 'exit']
        panics = [(v, p) for okind, v, p in outcomes if okind == 'panic']
        conts = [1 for okind, v, p in outcomes if okind == 'ret' and v[0] == 'cont']
        changed = True
        for key in carried:
            deps[key] |= dec_deps
        state = {k for k in carried if not append[k] or deps[k] - {k}} | dec_deps
        # any accumulator that something depends on is state
        for k in carried:
            state |= {d for d in deps[k]}
        for k in carried:
            if k in dec_deps or any(k in deps[o] for o in carried if o != k):
                state.add(k)
                append[k] = False
        state_keys = sorted(k for k in carried if k in state)
        simple = [k for k in carried if k not in state]

        self.restore(snap)
        init = {k: frames_copy[k[0]].locals[k[1]] for k in carried}

        # closure to re-run the body
        def rerun(elem, statevals):
            vals = dict(accs)
            for k, v in statevals.items():
                vals[k] = v
            r = run_body(elem, vals)
            return r

        caps = EMPTY
        for f, ls in snap:
            for v in ls:
                if isinstance(v, T):
                    caps = caps | v.bv
                elif v is not None and hasattr(v, 'bvs'):
                    caps = caps | v.bvs
        lam_ety = lam0.ety if lam0 is not None else ety
        srcseg = src

        exit_val = None
        if exits:
            vals = []
            for v, p in exits:
                c = with_path(p, lambda: self.canon(v[1]))
                vals.append(c)
            exit_val = vals[0]
            if any(c is not exit_val for c in vals[1:]):
                raise Unsupported('loop leaves early with different values')
            if exit_val.bv & loc:
                raise Unsupported('loop leaves early with an element-dependent value: %s' % exit_val)

        dep_state_exit = bool(dec_deps)

        def mk_ok():
            def call(xx):
                if dep_state_exit:
                    el = xx.args[-1]
                    sv = {k: xx.args[i] for i, k in enumerate(state_keys)}
                else:
                    el, sv = xx, {}
                r = rerun(el, sv)
                return ('err',) if r[0] == 'exit' else ('ok', UNIT)
            return call

        if panics:
            lamp = Lam(mk_ok(), lam_ety if not dep_state_exit else tuple([accs[k].ty for k in state_keys] + [lam_ety]), caps, 'panic@%s' % fr.name[-30:])
            key = mk('anypanic', (lamp, srcseg))
            if self.truth(key):
                e = panics[0][0]
                raise PanicExc(e.why + ' (in a loop)', e.where)

        if exits:
            if dep_state_exit:
                st_types = tuple(accs[k].ty for k in state_keys)
                lamok = Lam(mk_ok(), st_types + (lam_ety,), caps, 'ok@%s' % fr.name[-30:])
                step = self._fold_lam(rerun, state_keys, accs, lam_ety, caps, fr)
                okt = self.canon(mk('foldok', (step, mk('tup', tuple(init[k] for k in state_keys)), srcseg)))
            else:
                lamok = Lam(mk_ok(), lam_ety, caps, 'ok@%s' % fr.name[-30:])
                okt = self.canon(mk('allok', (lamok, srcseg)))
            if not self.truth(okt):
                raise LoopExit(fr, exit_val)

        # append-only accumulators
        for k in simple:
            def call(xx, k=k):
                r = rerun(xx, {})
                if r[0] == 'exit':
                    return ('err',)
                nv = self.canon(r[2][k[0]][k[1]])
                if carried[k] == 'seq':
                    return ('ok', mk('seq', nv.args[1:]))
                if nv is accs[k]:
                    return ('ok', NILSEQ)
                return ('ok', vec(self.canon(mk('cat', nv.args[1:]))))
            lam = Lam(call, lam_ety, caps, 'push _%d@%s' % (k[1], fr.name[-30:]))
            seg = mk('fm', (lam, srcseg))
            f = frames_copy[k[0]]
            if carried[k] == 'seq':
                f.locals[k[1]] = self.canon(mk('seq', tuple(self.segs(init[k])) + (seg,)))
            else:
                f.locals[k[1]] = self.canon(mk('cat', (init[k], mk('smap', (seg,)))))
        if state_keys:
            comps = self._components(state_keys, deps)
            for comp in comps:
                step = self._fold_lam(rerun, comp, accs, lam_ety, caps, fr)
                ini = mk('tup', tuple(init[k] for k in comp))
                for i, k in enumerate(comp):
                    f = frames_copy[k[0]]
                    f.locals[k[1]] = self.canon(mk('fold', (step, I(i), ini, srcseg), accs[k].ty))
        # iterator advanced past this segment
        self.write(cur.frame, cur.local, cur.path, It(it.segs[1:], (), it.ety, it.sentinel))

    def _components(self, keys, deps):
        comps = []
        for k in keys:
            c = {k}
            ch = True
            while ch:
                ch = False
                for d in list(c):
                    for e in deps[d]:
                        if e in keys and e not in c:
                            c.add(e)
                            ch = True
            comps.append(tuple(sorted(c)))
        # keep, for each key, the smallest closed set containing it; emit each set once
        out = []
        for c in sorted(set(comps), key=len):
            out.append(c)
        seen = set()
        res = []
        for c in out:
            if set(c) <= seen:
                continue
            res.append(c)
            seen |= set(c)
        return res

    def _fold_lam(self, rerun, comp, accs, lam_ety, caps, fr):
        def call(xx):
            sv = {k: xx.args[i] for i, k in enumerate(comp)}
            r = rerun(xx.args[-1], sv)
            if r[0] == 'exit':
                return ('err',)
            return ('ok', mk('tup', tuple(self.canon(r[2][k[0]][k[1]]) for k in comp)))
        return Lam(call, tuple(accs[k].ty for k in comp) + (lam_ety,), caps, 'fold@%s' % fr.name[-30:])


class LoopExit(Exception):
    def __init__(self, frame, value):
        self.frame, self.value = frame, value


def _perm_ok(v):
    return False


# run_from must catch LoopExit for its own frame
_orig_run_from = Exec.run_from


def _run_from(self, fr, bb):
    depth = len(self.frames)
    try:
        return _orig_run_from(self, fr, bb)
    except LoopExit as e:
        if e.frame is fr:
            del self.frames[depth:]
            return e.value
        raise


Exec.run_from = _run_from
