"""Trusted models of std / dependency functions.  Each entry is an assumption, listed in the evidence."""
import re, struct
from .terms import *
from .exec import *

MODELS = []
_cache = {}


def model(*pats):
    def d(f):
        for p in pats:
            MODELS.append((re.compile(p + r'$'), f))
        return f
    return d


def lookup(name):
    if name in _cache:
        return _cache[name]
    r = None
    for p, f in MODELS:
        if p.match(name):
            r = f
            break
    _cache[name] = r
    return r


def _ident(X, f, a, ty):
    return X.deref(a[0])


# ---- ownership / conversion plumbing: values are immutable terms, references are transparent
for p in [r'<.* as std::clone::Clone>::clone', r'std::clone::Clone::clone', r'std::clone::impls::<impl std::clone::Clone for .*>::clone',
          r'<.* as std::ops::Deref>::deref', r'<.* as std::convert::AsRef<.*>>::as_ref', r'<.* as std::borrow::Borrow<.*>>::borrow',
          r'std::string::String::as_str', r'std::vec::Vec::<T, A>::as_slice', r'std::slice::<impl \[T\]>::to_vec', r'std::slice::<impl \[T\]>::into_vec.*',
          r'std::boxed::Box::<T>::new', r'std::rc::Rc::<T>::new', r'std::sync::Arc::<T>::new', r'std::boxed::box_assume_init_into_vec_unsafe',
          r'<std::string::String as std::convert::From<&str>>::from', r'<std::string::String as std::convert::From<.*>>::from', r'std::str::<impl str>::to_owned', r'(std|core|alloc)::str::<impl std::borrow::ToOwned for str>::to_owned',
          r'<str as std::string::ToString>::to_string', r'<.* as std::borrow::ToOwned>::to_owned', r'std::hint::must_use', r'anyhow::__private::must_use',
          r'std::string::String::into_boxed_str', r'<.* as std::convert::From<T>>::from', r'<T as std::convert::From<T>>::from',
          r'std::boxed::Box::<T, A>::into_inner', r'std::convert::identity', r'std::str::<impl str>::into_string', r'<std::boxed::Box<T> as std::convert::From<T>>::from',
          r'<std::vec::Vec<T> as std::convert::From<.*>>::from', r'std::mem::ManuallyDrop::<T>::new', r'std::string::String::from_utf8_lossy']:
    model(p)(_ident)


@model(r'<.* as std::ops::DerefMut>::deref_mut', r'<.* as std::convert::AsMut<.*>>::as_mut', r'std::string::String::as_mut_str', r'std::vec::Vec::<T, A>::as_mut_slice')
def _identm(X, f, a, ty):
    return a[0]


@model(r'std::boxed::Box::<T>::new_uninit')
def _new_uninit(X, f, a, ty):
    return UNINIT


@model(r'std::mem::drop', r'std::ops::Drop::drop', r'<.* as std::ops::Drop>::drop', r'std::mem::forget', r'core::ptr::drop_in_place.*')
def _drop(X, f, a, ty):
    return UNIT


@model(r'<.* as std::default::Default>::default')
def _default(X, f, a, ty):
    k = X.ty.kind(ty)
    if k == 'str':
        return lit('')
    if k == 'seq':
        return NILSEQ
    if k == 'int':
        return I(0)
    if k == 'bool':
        return FALSE
    t = X.ty.get(X.ty.peel(ty))
    if t.get('name') == 'std::option::Option':
        return X.none(ty)
    return NotImplemented


@model(r'std::mem::replace')
def _replace(X, f, a, ty):
    old = X.deref(a[0])
    X.write(a[0].frame, a[0].local, a[0].path, a[1])
    return old


@model(r'std::mem::take')
def _take(X, f, a, ty):
    old = X.deref(a[0])
    X.write(a[0].frame, a[0].local, a[0].path, _default(X, f, a, ty))
    return old


@model(r'std::option::Option::<T>::take')
def _otake(X, f, a, ty):
    old = X.deref(a[0])
    X.write(a[0].frame, a[0].local, a[0].path, X.none(ty))
    return old


# ---- function values
@model(r'.*std::ops::FnOnce.*::call_once', r'.*std::ops::FnMut.*::call_mut', r'.*std::ops::Fn.*::call')
def _callv(X, f, a, ty):
    tup = X.canon(X.deref(a[1]))
    return X.call_value(a[0], list(tup.args))


# ---- errors
@model(r'anyhow::.*format_err', r'anyhow::error::<impl anyhow::Error>::(msg|new|from.*)', r'anyhow::Error::msg', r'anyhow::kind::.*::new',
       r'<anyhow::Error as std::convert::From<.*>>::from', r'anyhow::error::<impl std::convert::From<E> for anyhow::Error>::from', r'<E as anyhow::.*>::.*ext_context.*',
       r'anyhow::context::.*', r'anyhow::error::<impl anyhow::Error>::context')
def _err(X, f, a, ty):
    if ty is not None and X.ty.kind(ty) == 'err':
        return ERR
    return NotImplemented


@model(r'pyo3::.*impl std::convert::From<anyhow::Error> for pyo3::PyErr>::from', r'<pyo3::PyErr as std::convert::From<anyhow::Error>>::from')
def _pyerr(X, f, a, ty):
    """The error raised into Python: total, and which error it is is not specified."""
    return mk('app', ('pyerr', X.deref(a[0])), X.ty.peel(ty))


# ---- Python objects: what an operation yields is determined by its operands; it may raise
def pyobj(X, op, *a):
    ty = next(i for i, t in enumerate(X.ty.t) if t.get('name') == 'pyo3::Bound' and t['s'].endswith(' pyo3::PyAny>'))
    return X.canon(mk('app', ('py.' + op,) + a, ty))


def pyreturns(X, v):
    return X.truth(X.canon(mk('app', ('py.returns', v), X.ty.find('bool'))))


def pyop(X, ty, op, *a):
    v = pyobj(X, op, *(X.canon(X.deref(x)) for x in a))
    return X.ok(ty, v) if pyreturns(X, v) else X.err(ty, mk('app', ('pyexception', v), X.ty.peel(X.ty.get(X.ty.peel(ty))['args'][1])))


@model(r'pyo3::Python::<.*>::with_gil')
def _gil(X, f, a, ty):
    return X.call_value(a[0], [mk('app', ('python',), None)])


@model(r'pyo3::types::PyModule::import(_bound)?', r'pyo3::Python::<.*>::import(_bound)?')
def _pyimport(X, f, a, ty):
    return pyop(X, ty, 'import', a[1])


@model(r'<pyo3::Bound<.*> as pyo3::types::PyAnyMethods<.*>>::(getattr|call0|call1|call|call_method0|call_method1|call_method)')
def _pycall(X, f, a, ty):
    n = f['def'].split('::')[-1]
    a = [X.canon(X.deref(x)) for x in a]
    if n == 'getattr':
        return pyop(X, ty, 'getattr', *a)
    if n.startswith('call_method'):
        g = pyobj(X, 'getattr', a[0], a[1])
        if not pyreturns(X, g):
            return X.err(ty, mk('app', ('pyexception', g), X.ty.peel(X.ty.get(X.ty.peel(ty))['args'][1])))
        a = [g] + a[2:]
        n = n.replace('_method', '')
    args = a[1] if n != 'call0' else mk('tup', ())
    kw = a[2] if n == 'call' else None
    if kw is not None and kw.op == 'adt' and X.ty.get(kw.ty).get('name') == 'std::option::Option':
        kw = kw.args[1] if kw.args[0] else None
    if args.op != 'tup':
        raise Unsupported('python call')
    return pyop(X, ty, 'call', a[0], args, *([kw] if kw is not None else ()))


@model(r'pyo3::types::IntoPyDict::into_py_dict(_bound)?', r'<.* as pyo3::types::IntoPyDict.*>::into_py_dict(_bound)?')
def _pydict(X, f, a, ty):
    return pyobj(X, 'dict', X.canon(X.deref(a[0])))


@model(r'anyhow::Ok')
def _aok(X, f, a, ty):
    return X.ok(ty, X.deref(a[0]))


@model(r'anyhow::__private::kind::AdhocKind::anyhow_kind', r'anyhow::__private::kind::.*')
def _akind(X, f, a, ty):
    return UNIT


@model(r'anyhow::__private::not')
def _anot(X, f, a, ty):
    return X.canon(mk('not', (X.deref(a[0]),)))


# ---- logging: the log level is taken to be Off (logging has no effect on the result)
@model(r'log::max_level')
def _maxlevel(X, f, a, ty):
    return mk('adt', (0,), X.ty.peel(ty))


@model(r'std::cmp::PartialOrd::le', r'<log::Level as std::cmp::PartialOrd<log::LevelFilter>>::.*')
def _le(X, f, a, ty):
    x, y = X.canon(X.deref(a[0])), X.canon(X.deref(a[1]))
    if x.op == 'adt' and 'log::Level' in X.ty.get(x.ty)['name']:
        return FALSE
    if X.isint(x) and X.isint(y):
        return X.canon(mk('ile', (x, y)))
    return NotImplemented


@model(r'log::__private_api::.*')
def _log(X, f, a, ty):
    return UNIT


@model(r'std::any::type_name')
def _tn(X, f, a, ty):
    return mk('app', ('type_name', X.ty.get(f['gargs'][0])['s']), X.ty.find('std::string::String'))


# ---- equality
def eqterm(X, x, y):
    return X.canon(mk('eq', (X.canon(X.deref(x)), X.canon(X.deref(y)))))


@model(r'<.* as std::cmp::PartialEq(<.*>)?>::eq', r'.*impl std::cmp::PartialEq(<.*>)? for .*>::eq', r'std::cmp::PartialEq::eq')
def _eq(X, f, a, ty):
    return eqterm(X, a[0], a[1])


@model(r'<.* as std::cmp::PartialEq(<.*>)?>::ne', r'.*impl std::cmp::PartialEq(<.*>)? for .*>::ne', r'std::cmp::PartialEq::ne')
def _ne(X, f, a, ty):
    return X.canon(mk('not', (eqterm(X, a[0], a[1]),)))


def _icmp(op, neg):
    def h(X, f, a, ty):
        x, y = X.canon(X.deref(a[0])), X.canon(X.deref(a[1]))
        if X.isint(x) and X.isint(y):
            t = mk(op, (x, y))
            return X.canon(mk('not', (t,)) if neg else t)
        return NotImplemented
    return h


for nm, o, n in (('lt', 'ilt', 0), ('le', 'ile', 0), ('gt', 'ile', 1), ('ge', 'ilt', 1)):
    model(r'.*std::cmp::PartialOrd.*(>::|::)%s' % nm)(_icmp(o, n))


def _minmax(op):
    def h(X, f, a, ty):
        x, y = X.canon(X.deref(a[0])), X.canon(X.deref(a[1]))
        if not (X.isint(x) and X.isint(y)):
            return NotImplemented
        c = X.truth(mk('ile', (x, y)))
        return (x if c else y) if op == 'min' else (y if c else x)
    return h


model(r'.*std::cmp::Ord.*::min', r'std::cmp::min')(_minmax('min'))
model(r'.*std::cmp::Ord.*::max', r'std::cmp::max')(_minmax('max'))


# ---- strings
STR = lambda X: X.ty.find('std::string::String')


def cat(X, *parts):
    return X.canon(mk('cat', tuple(parts)))


def sapp(X, name, *args):
    return X.canon(mk('app', (name,) + args, STR(X)))


def bapp(X, name, *args):
    return X.canon(mk('app', (name,) + args, X.ty.find('bool')))


def pat(X, p):
    """A str pattern: string, char"""
    p = X.canon(X.deref(p))
    if p.op == 'int':
        return lit(chr(p.args[0]))
    if p.op == 'clo' or p.op == 'fndef':
        raise Unsupported('closure pattern')
    return p


def fold2(name, fn):
    def h(E, a, ty):
        if all(isinstance(x, T) and x.op in ('lit', 'int', 'bool') for x in a):
            return fn(*[x.args[0] for x in a])
        return None
    APPS[name] = h


fold2('str.contains', lambda s, p: B(p in s))
fold2('str.starts_with', lambda s, p: B(s.startswith(p)))
fold2('str.ends_with', lambda s, p: B(s.endswith(p)))
fold2('str.replace', lambda s, p, r: lit(s.replace(p, r)))
fold2('str.replacen', lambda s, p, r, n: lit(s.replace(p, r, n)))
fold2('str.lower', lambda s: lit(s.lower()))
fold2('str.upper', lambda s: lit(s.upper()))
fold2('str.ascii_upper', lambda s: lit(''.join(c.upper() if c.isascii() else c for c in s)))
fold2('str.ascii_lower', lambda s: lit(''.join(c.lower() if c.isascii() else c for c in s)))
fold2('str.trim', lambda s: lit(s.strip()))
fold2('str.len', lambda s: I(len(s.encode())))
fold2('itos', lambda n: lit(str(n)))
fold2('btos', lambda n: lit('true' if n else 'false'))


def _i2f(E, a, ty):
    if a[0].op == 'int':
        return mk('float', (float(a[0].args[0]),))


APPS['i2f'] = _i2f


def f64_display(v):
    import math
    if v != v:
        return 'NaN'
    if v in (math.inf, -math.inf):
        return 'inf' if v > 0 else '-inf'
    from decimal import Decimal
    s = format(Decimal(repr(v)), 'f')
    if '.' in s:
        s = s.rstrip('0').rstrip('.')
    if s == '0' and math.copysign(1, v) < 0:
        s = '-0'
    return s


def _ftos(E, a, ty):
    if a[0].op == 'float':
        return lit(f64_display(a[0].args[0]))


APPS['ftos'] = _ftos


@model(r'(core|std)::str::<impl str>::contains')
def _contains(X, f, a, ty):
    return bapp(X, 'str.contains', X.deref(a[0]), pat(X, a[1]))


@model(r'(core|std)::str::<impl str>::starts_with')
def _sw(X, f, a, ty):
    s, p = X.canon(X.deref(a[0])), pat(X, a[1])
    if astag(X, s, p):
        return mk('app', ('np.ok', 'tag', p, s), X.ty.find('bool'))
    return bapp(X, 'str.starts_with', s, p)


def astag(X, s, p):
    """In a parser a fixed prefix of its text is the recogniser tag, spelt differently."""
    return getattr(X, 'parsing', False) and p.op == 'lit' and p.args[0] and s.op != 'lit'


@model(r'(core|std)::str::<impl str>::ends_with')
def _ew(X, f, a, ty):
    return bapp(X, 'str.ends_with', X.deref(a[0]), pat(X, a[1]))


@model(r'(core|std)::str::<impl str>::replace')
def _repl(X, f, a, ty):
    return sapp(X, 'str.replace', X.deref(a[0]), pat(X, a[1]), X.deref(a[2]))


@model(r'(core|std)::str::<impl str>::replacen')
def _repln(X, f, a, ty):
    return sapp(X, 'str.replacen', X.deref(a[0]), pat(X, a[1]), X.deref(a[2]), X.canon(X.deref(a[3])))


@model(r'(core|std)::str::<impl str>::to_lowercase')
def _low(X, f, a, ty):
    return sapp(X, 'str.lower', X.deref(a[0]))


@model(r'(core|std)::str::<impl str>::to_uppercase')
def _upp(X, f, a, ty):
    return sapp(X, 'str.upper', X.deref(a[0]))


@model(r'(core|std)::str::<impl str>::to_ascii_uppercase')
def _aupp(X, f, a, ty):
    return sapp(X, 'str.ascii_upper', X.deref(a[0]))


@model(r'(core|std)::str::<impl str>::to_ascii_lowercase')
def _alow(X, f, a, ty):
    return sapp(X, 'str.ascii_lower', X.deref(a[0]))


@model(r'(core|std)::str::<impl str>::eq_ignore_ascii_case')
def _eqic(X, f, a, ty):
    return eqterm(X, sapp(X, 'str.ascii_lower', X.deref(a[0])), sapp(X, 'str.ascii_lower', X.deref(a[1])))


@model(r'(core|std)::str::<impl str>::trim')
def _trim(X, f, a, ty):
    return sapp(X, 'str.trim', X.deref(a[0]))


@model(r'(core|std)::str::<impl str>::trim_(start_|end_)?matches', r'(core|std)::str::<impl str>::strip_(prefix|suffix)')
def _strip(X, f, a, ty):
    n = f['def'].split('::')[-1]
    if n.startswith('strip'):
        s, p = X.canon(X.deref(a[0])), pat(X, a[1])
        if n == 'strip_prefix' and astag(X, s, p):
            from .nomm import np_apply
            r = np_apply(X, mk('np', ('tag', p)), s, None)
            return X.none(ty) if r is None else X.some(ty, r[0])
        test = bapp(X, 'str.starts_with' if n == 'strip_prefix' else 'str.ends_with', s, p)
        if X.truth(test):
            if s.op == 'lit' and p.op == 'lit':
                L, P = s.args[0], p.args[0]
                return X.some(ty, lit(L[len(P):] if n == 'strip_prefix' else L[:len(L) - len(P)]))
            return X.some(ty, sapp(X, 'str.' + n, s, p))
        return X.none(ty)
    return sapp(X, 'str.' + n, X.deref(a[0]), pat(X, a[1]))


@model(r'(core|std)::str::<impl str>::len', r'std::string::String::len')
def _slen(X, f, a, ty):
    return X.canon(mk('app', ('str.len', X.canon(X.deref(a[0]))), X.ty.find('usize')))


@model(r'(core|std)::str::<impl str>::is_empty', r'std::string::String::is_empty')
def _sempty(X, f, a, ty):
    return eqterm(X, a[0], lit(''))


@model(r'(core|std)::str::traits::<impl std::ops::Index<I> for str>::index', r'<std::string::String as std::ops::Index<I>>::index')
def _sindex(X, f, a, ty):
    s = X.canon(X.deref(a[0]))
    r = X.canon(X.deref(a[1]))
    nm = X.ty.get(r.ty)['name'].split('::')[-1]
    v = list(r.args[1:])
    n = X.canon(mk('app', ('str.len', s), X.ty.find('usize')))
    if nm not in ('Range', 'RangeFrom', 'RangeTo', 'RangeFull'):
        raise Unsupported('string indexed by ' + nm)
    lo, hi = {'Range': lambda: (v[0], v[1]), 'RangeFrom': lambda: (v[0], n), 'RangeTo': lambda: (I(0), v[0]), 'RangeFull': lambda: (I(0), n)}[nm]()
    lo, hi = X.canon(lo), X.canon(hi)
    if s.op == 'lit' and lo.op == 'int' and hi.op == 'int':
        try:
            b = s.args[0].encode()
            if lo.args[0] > hi.args[0] or hi.args[0] > len(b):
                raise PanicExc('string slice out of range')
            return lit(b[lo.args[0]:hi.args[0]].decode())
        except UnicodeDecodeError:
            raise PanicExc('string slice inside a character')
    if nm == 'RangeFrom' and lo.op == 'int' and getattr(X, 'parsing', False):
        for q, b in X.path.eqs.items():
            if q.op == 'app' and q.args[:2] == ('np.ok', 'tag') and q.args[-1] is s and b.op == 'bool' and b.args[0] and len(q.args[2].args[0].encode()) == lo.args[0]:
                return sapp(X, 'np.rest', *q.args[1:])
    if not X.truth(X.canon(mk('ile', (lo, hi)))) or not X.truth(X.canon(mk('ile', (hi, n)))):
        raise PanicExc('string slice out of range')
    for i in (lo, hi):
        if not X.char_boundary(s, i, n) and not X.truth(X.canon(mk('app', ('str.is_char_boundary', s, i), X.ty.find('bool')))):
            raise PanicExc('string slice inside a character')
    while hi.op == 'wrap' and not X.z3check([(mk('ieq', (hi, hi.args[2])), False)]):
        hi = X.canon(hi.args[2])
    while lo.op == 'wrap' and not X.z3check([(mk('ieq', (lo, lo.args[2])), False)]):
        lo = X.canon(lo.args[2])
    return sapp(X, 'str.slice', s, lo, hi)


def _sslice(E, a, ty):
    s, lo, hi = a
    if s.op == 'lit' and lo.op == 'int' and hi.op == 'int':
        try:
            return lit(s.args[0].encode()[lo.args[0]:hi.args[0]].decode())
        except UnicodeDecodeError:
            return None


@model(r'(core|std)::str::<impl str>::is_char_boundary')
def _scb(X, f, a, ty):
    return X.canon(mk('app', ('str.is_char_boundary', X.canon(X.deref(a[0])), X.canon(X.deref(a[1]))), X.ty.find('bool')))


APPS['str.slice'] = _sslice


@model(r'(core|std)::str::<impl str>::parse')
def _parse(X, f, a, ty):
    s = X.canon(X.deref(a[0]))
    if s.op == 'lit':
        t = X.ty.get(X.ty.peel(f['gargs'][-1] if f['gargs'] else 0))
        if t['k'] == 'int':
            import re as _re
            if _re.fullmatch(r'[+-]?[0-9]+' if t['signed'] else r'\+?[0-9]+', s.args[0]):
                n = int(s.args[0])
                lo, hi = X.range_of(t)
                if lo <= n <= hi:
                    return X.ok(ty, I(n))
            return mk('adt', (1, mk('opaque', ('parse error',))), X.ty.peel(ty))
    ga = f.get('gargs') or (X.F.get(f.get('inst')) or {}).get('gargs')
    r = X.ty.by_s.get('std::result::Result<%s, std::num::ParseIntError>' % X.ty.get(X.ty.peel(ga[-1]))['s']) if ga else None
    return X.canon(mk('app', ('str.parse', s), X.ty.peel(r if r is not None else ty)))


@model(r'(core|std)::str::<impl str>::split', r'(core|std)::str::<impl str>::split_whitespace', r'(core|std)::str::<impl str>::lines')
def _split(X, f, a, ty):
    s = X.canon(X.deref(a[0]))
    n = f['def'].split('::')[-1]
    p = pat(X, a[1]) if len(a) > 1 else lit('')
    vt = X.ty.by_s.get('std::vec::Vec<std::string::String>')
    if s.op == 'lit' and p.op == 'lit':
        parts = s.args[0].split(p.args[0]) if n == 'split' else s.args[0].split()
        return It(tuple(one(lit(x)) for x in parts))
    return It((allseg(mk('app', ('str.' + n, s, p), vt)),))


def _concsplit(E, a, ty):
    return None


@model(r'std::string::String::new')
def _snew(X, f, a, ty):
    return lit('')


@model(r'std::string::String::with_capacity', )
def _scap(X, f, a, ty):
    return lit('')


@model(r'std::string::String::push_str', r'<std::string::String as std::ops::AddAssign<&str>>::add_assign')
def _push_str(X, f, a, ty):
    X.write(a[0].frame, a[0].local, a[0].path, cat(X, X.deref(a[0]), X.deref(a[1])))
    return UNIT


@model(r'std::string::String::push')
def _push_ch(X, f, a, ty):
    c = X.canon(X.deref(a[1]))
    X.write(a[0].frame, a[0].local, a[0].path, cat(X, X.deref(a[0]), lit(chr(c.args[0])) if c.op == 'int' else mk('app', ('chr', c), STR(X))))
    return UNIT


@model(r'<std::string::String as std::ops::Add<&str>>::add')
def _sadd(X, f, a, ty):
    return cat(X, X.deref(a[0]), X.deref(a[1]))


@model(r'(core|std)::str::<impl str>::repeat')
def _srep(X, f, a, ty):
    s, n = X.canon(X.deref(a[0])), X.canon(X.deref(a[1]))
    if n.op == 'int':
        return cat(X, *([s] * n.args[0]))
    return sapp(X, 'str.repeat', s, n)


# ---- formatting
def decode_template(bs, args):
    out = []
    i = 0
    nxt = 0
    while True:
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(bytes(bs[i:i + b]).decode())
            i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(bytes(bs[i:i + n]).decode())
            i += n
        elif b & 0xC0 == 0xC0:
            if b & 0x07 or b & 0x30:
                # width / precision / flags: accept only default flags
                fl = None
                j = i
                if b & 1:
                    fl = int.from_bytes(bytes(bs[j:j + 4]), 'little')
                    j += 4
                if b & 2 or b & 4 or b & 0x30:
                    out.append(None)
                if b & 2:
                    j += 2
                if b & 4:
                    j += 2
                i = j
                if fl is not None:
                    out.append(None)
            if b & 8:
                nxt = bs[i] | bs[i + 1] << 8
                i += 2
            out.append(args[nxt])
            nxt += 1
        else:
            raise Unsupported('format template byte %x' % b)
    return out


@model(r"core::fmt::rt::Argument::<'_>::new_(display|debug|lower_exp|lower_hex|upper_hex|pointer)")
def _fa(X, f, a, ty):
    kind = f['def'].split('new_')[-1]
    g = [x for x in f['gargs'] if isinstance(x, int)]
    return FArg(kind, g[-1], a[0])


@model(r"core::fmt::rt::Argument::<'_>::.*")
def _fa2(X, f, a, ty):
    return FArg('other', None, a[0])


@model(r"std::fmt::Arguments::<'a>::new", r"std::fmt::Arguments::<'_>::new.*")
def _fargs(X, f, a, ty):
    if f['def'].endswith('from_str') or f['def'].endswith('from_str_nonconst'):
        return FArgs([X.deref(a[0])])
    bs = a[0]
    while isinstance(bs, MRef):
        bs = X.deref(bs)
    if bs.op == 'seq':
        bt = tuple(g.args[0].args[0] for g in bs.args)
    else:
        bt = bs.args[0]
    arr = X.deref(a[1])
    args = [g.args[0] for g in arr.args]
    return FArgs(decode_template(bt, args))


@model(r"std::fmt::Arguments::<'a>::from_str", r"std::fmt::Arguments::<'_>::from_str.*")
def _fargs1(X, f, a, ty):
    return FArgs([X.deref(a[0])])


def display(X, ty, v):
    v = X.deref(v)
    if isinstance(v, FArgs):
        return render(X, v)
    k = X.ty.kind(ty)
    pt = X.ty.get(X.ty.peel(ty))
    if k == 'str':
        return X.canon(v)
    if k == 'int':
        return sapp(X, 'itos', X.canon(v))
    if k == 'float':
        return sapp(X, 'ftos', X.canon(v))
    if k == 'bool':
        return sapp(X, 'btos', X.canon(v))
    if pt['k'] == 'char':
        v = X.canon(v)
        return lit(chr(v.args[0])) if v.op == 'int' else sapp(X, 'chr', v)
    if k in ('struct', 'enum', 'err'):
        if X.disp_index is None:
            X.disp_index = {}
            for key, f in X.F.items():
                if f['body'] and f['name'].endswith('as std::fmt::Display>::fmt'):
                    X.disp_index[X.ty.peel(f['body']['locals'][1])] = key
        key = X.disp_index.get(X.ty.peel(ty))
        if key is not None:
            fr = Frame({'name': 'sink'}, SinkBody, 'formatter')
            fr.locals = [lit('')]
            X.frames.append(fr)
            try:
                X.call_key(key, [v, MRef(fr, 0)])
                return X.canon(fr.locals[0])
            finally:
                X.frames.remove(fr)
    if pt.get('name') == 'pyo3::Bound':
        return sapp(X, 'py.str', X.canon(v))
    if k == 'err':
        return sapp(X, 'display.err', lit(''))          # some text: no contract speaks of it
    if 'nom::' in pt['s']:
        return sapp(X, 'display.nom', lit(''))          # the wording of an error: no contract speaks of it
    raise Unsupported('Display of %s' % pt['s'])


def render(X, fa):
    parts = []
    for p in fa.parts:
        if isinstance(p, str):
            parts.append(lit(p))
        elif p is None:
            raise Unsupported('format options')
        elif isinstance(p, T):
            parts.append(p)
        elif p.kind == 'display':
            parts.append(display(X, p.ty, p.v))
        elif p.kind == 'debug':
            parts.append(debug(X, p.ty, p.v))
        else:
            raise Unsupported('format kind ' + p.kind)
    return cat(X, *parts)


def debug(X, ty, v):
    v = X.canon(X.deref(v))
    return sapp(X, 'debug', v)


class Lazy:
    bvs = EMPTY


@model(r'std::fmt::format', r'alloc::fmt::format')
def _format(X, f, a, ty):
    fa = X.deref(a[0])
    if any(isinstance(p, FArg) and p.kind == 'debug' for p in fa.parts):
        # only ever used for messages: keep it opaque unless it reaches a result
        try:
            return render(X, fa)
        except Unsupported:
            return sapp(X, 'debugfmt', I(X.fresh_id()))
    try:
        return render(X, fa)
    except Unsupported:
        if any(p is None for p in fa.parts):
            return sapp(X, 'fmtopts', I(X.fresh_id()))
        raise


@model(r"std::fmt::Formatter::<'a>::write_fmt", r"std::fmt::Formatter::<'_>::write_fmt", r".*std::fmt::Write>::write_fmt", r'std::fmt::Write::write_fmt')
def _wfmt(X, f, a, ty):
    s = render(X, X.deref(a[1]))
    X.write(a[0].frame, a[0].local, a[0].path, cat(X, X.deref(a[0]), s))
    return X.ok(ty, UNIT)


@model(r".*std::fmt::Write>::write_str", r"std::fmt::Formatter::<'.*>::(write_str|pad)", r'std::fmt::Write::write_str')
def _wstr(X, f, a, ty):
    X.write(a[0].frame, a[0].local, a[0].path, cat(X, X.deref(a[0]), X.deref(a[1])))
    return X.ok(ty, UNIT)


@model(r'<.* as std::fmt::Display>::fmt', r'.*impl std::fmt::Display for .*>::fmt')
def _dfmt(X, f, a, ty):
    g = f.get('inst')
    fj = X.F.get(g)
    if fj and fj['local'] and fj['body']:
        return NotImplemented
    return NotImplemented


@model(r'<T as std::string::ToString>::to_string', r'<.* as std::string::ToString>::to_string', r'std::string::ToString::to_string', r'.*std::string::SpecToString>::spec_to_string')
def _tostr(X, f, a, ty):
    g = [x for x in f['gargs'] if isinstance(x, int)]
    if not g:
        return NotImplemented
    return display(X, g[0], a[0])


# ---- Vec / slices
@model(r'std::vec::Vec::<T>::new', r'std::vec::Vec::<T>::with_capacity')
def _vnew(X, f, a, ty):
    return NILSEQ


@model(r'std::vec::Vec::<T, A>::push')
def _vpush(X, f, a, ty):
    v = a[1]
    if isinstance(v, MRef):
        v = X.deref(v)
    s = X.canon(X.deref(a[0]))
    X.write(a[0].frame, a[0].local, a[0].path, X.canon(mk('seq', s.args + (one(v),))))
    return UNIT


@model(r'std::vec::Vec::<T, A>::(extend_from_slice|append)', r'<std::vec::Vec<T, A> as std::iter::Extend<.*>>::extend', r'std::iter::Extend::extend')
def _vextend(X, f, a, ty):
    if X.ty.kind(f['gargs'][0]) not in ('seq',) and 'Vec' not in f.get('def', ''):
        return NotImplemented
    s = X.canon(X.deref(a[0]))
    src = X.deref(a[1])
    X.write(a[0].frame, a[0].local, a[0].path, X.canon(mk('seq', s.args + tuple(iter_segs(X, src)))))
    if f['def'].endswith('append') and isinstance(a[1], MRef):
        X.write(a[1].frame, a[1].local, a[1].path, NILSEQ)
    return UNIT


@model(r'std::vec::Vec::<T, A>::pop')
def _vpop(X, f, a, ty):
    s = X.segs(X.deref(a[0]))
    if s and s[-1].op == 'one':
        X.write(a[0].frame, a[0].local, a[0].path, mk('seq', s[:-1]))
        return X.some(ty, s[-1].args[0])
    if not s:
        return X.none(ty)
    raise Unsupported('pop of a symbolic vector')


@model(r'std::vec::Vec::<T, A>::insert')
def _vinsert(X, f, a, ty):
    i = X.canon(X.deref(a[1]))
    s = X.segs(X.deref(a[0]))
    if i.op == 'int' and len(s) >= i.args[0] and all(g.op == 'one' for g in s[:i.args[0]]):
        n = i.args[0]
        X.write(a[0].frame, a[0].local, a[0].path, mk('seq', s[:n] + (one(X.deref(a[2])),) + s[n:]))
        return UNIT
    raise Unsupported('insert')


@model(r'std::vec::Vec::<T, A>::remove', r'std::vec::Vec::<T, A>::swap_remove')
def _vremove(X, f, a, ty):
    i = X.canon(X.deref(a[1]))
    v = X.index(X.deref(a[0]), i)
    if not f['def'].endswith('::remove'):
        raise Unsupported('swap_remove')
    s = X.segs(X.deref(a[0]))
    n = i.args[0]
    X.write(a[0].frame, a[0].local, a[0].path, mk('seq', s[:n] + s[n + 1:]))
    return v


@model(r'std::vec::Vec::<T, A>::truncate', r'std::vec::Vec::<T, A>::clear')
def _vclear(X, f, a, ty):
    if f['def'].endswith('clear'):
        X.write(a[0].frame, a[0].local, a[0].path, NILSEQ)
        return UNIT
    raise Unsupported('truncate')


@model(r'std::vec::Vec::<T, A>::len', r'core::slice::<impl \[T\]>::len', r'<.* as std::iter::ExactSizeIterator>::len')
def _vlen(X, f, a, ty):
    v = X.deref(a[0])
    if isinstance(v, It):
        v = mk('seq', X.normalise_it(v).segs)
    return X.canon(mk('len', (v,)))


@model(r'std::vec::Vec::<T, A>::is_empty', r'core::slice::<impl \[T\]>::is_empty')
def _vempty(X, f, a, ty):
    return is_empty(X, X.deref(a[0]))


@model(r'std::collections::(HashSet|BTreeSet)::<T, .*>::is_empty')
def _hsempty(X, f, a, ty):
    return is_empty(X, mk('seq', X.deref(a[0]).args))


def is_empty(X, v):
    s = X.segs(v)
    if not s:
        return TRUE
    if any(g.op == 'one' for g in s):
        return FALSE
    if len(s) == 1 and s[0].op == 'fm':
        # emptiness of a one-to-one map is that of its source; otherwise split
        return B(X.force_cons(v) is None)
    return B(X.force_cons(v) is None)


@model(r'<std::vec::Vec<T, A> as std::ops::Index<I>>::index', r'core::slice::index::<impl std::ops::Index<I> for \[T\]>::index', r'.*std::ops::Index<I> for \[T\]>::index')
def _vindex(X, f, a, ty):
    i = X.canon(X.deref(a[1]))
    if i.op == 'adt':
        return slice_range(X, X.deref(a[0]), i)
    return X.index(X.deref(a[0]), i)


def slice_range(X, s, r):
    nm = X.ty.get(r.ty)['name'].split('::')[-1]
    v = [X.canon(x) for x in r.args[1:]]
    if nm == 'RangeFull':
        return s
    if any(x.op != 'int' for x in v):
        # len - k style upper bounds
        if nm in ('Range', 'RangeTo'):
            raise Unsupported('symbolic slice range')
        raise Unsupported('symbolic slice range')
    if nm == 'RangeFrom':
        return drop_n(X, s, v[0].args[0])
    if nm == 'RangeTo':
        return take_exact(X, s, v[0].args[0])
    if nm == 'Range':
        lo, hi = v[0].args[0], v[1].args[0]
        if lo > hi:
            raise PanicExc('slice range')
        return take_exact(X, drop_n(X, s, lo), hi - lo)
    raise Unsupported('slice by ' + nm)


def drop_n(X, s, n, panic=True):
    for _ in range(n):
        r = X.force_cons(s)
        if r is None:
            if panic:
                raise PanicExc('slice index out of range')
            return NILSEQ
        s = r[1]
    return X.canon(s)


def take_exact(X, s, n, panic=True):
    out = []
    for _ in range(n):
        r = X.force_cons(s)
        if r is None:
            if panic:
                raise PanicExc('slice index out of range')
            break
        out.append(one(r[0]))
        s = r[1]
    return mk('seq', tuple(out))


@model(r'core::slice::<impl \[T\]>::first')
def _first(X, f, a, ty):
    r = X.force_cons(X.deref(a[0]))
    return X.none(ty) if r is None else X.some(ty, r[0])


@model(r'core::slice::<impl \[T\]>::last')
def _last(X, f, a, ty):
    s = X.deref(a[0])
    sg = X.segs(s)
    if not sg:
        return X.none(ty)
    if sg[-1].op == 'one':
        return X.some(ty, sg[-1].args[0])
    if len(sg) == 1:
        if X.force_cons(s) is None:
            return X.none(ty)
        et = X.ty.fieldty(ty, 1, 0)
        return X.some(ty, mk('app', ('last', X.canon(s)), et))
    raise Unsupported('last')


@model(r'core::slice::<impl \[T\]>::(split_first)')
def _split_first(X, f, a, ty):
    r = X.force_cons(X.deref(a[0]))
    return X.none(ty) if r is None else X.some(ty, mk('tup', (r[0], r[1])))


@model(r'core::slice::<impl \[T\]>::get', r'std::vec::Vec::<T, A>::get')
def _get(X, f, a, ty):
    i = X.canon(X.deref(a[1]))
    if i.op != 'int':
        raise Unsupported('get with symbolic index')
    try:
        return X.some(ty, X.index(X.deref(a[0]), i))
    except PanicExc:
        return X.none(ty)


@model(r'(std|core)::slice::<impl \[T\]>::(join|concat)')
def _join(X, f, a, ty):
    s = X.canon(X.deref(a[0]))
    sep = X.deref(a[1]) if len(a) > 1 else lit('')
    if X.ty.kind(ty) != 'str':
        raise Unsupported('join of non-strings')
    return X.canon(mk('join', (X.canon(sep), s)))


@model(r'core::slice::<impl \[T\]>::contains')
def _slcontains(X, f, a, ty):
    s = X.segs(X.deref(a[0]))
    x = X.deref(a[1])
    if all(g.op == 'one' for g in s):
        return X.canon(mk('or', tuple(eqterm(X, g.args[0], x) for g in s)))
    return bapp(X, 'seq.contains', X.canon(mk('seq', s)), X.canon(x))


@model(r'(core|std)::slice::<impl \[T\]>::(reverse|sort|sort_unstable|sort_by|sort_by_key|dedup)', r'std::vec::Vec::<T, A>::(dedup|retain|drain|sort|split_off)')
def _vmut(X, f, a, ty):
    n = f['def'].split('::')[-1]
    if n == 'reverse':
        s = X.segs(X.deref(a[0]))
        X.write(a[0].frame, a[0].local, a[0].path, rev(X, s))
        return UNIT
    if n == 'retain':
        s = X.segs(X.deref(a[0]))
        X.write(a[0].frame, a[0].local, a[0].path, mk('seq', tuple(apply_adapter(X, ('filter', a[1]), s))))
        return UNIT
    s = X.canon(X.deref(a[0]))
    if n in ('sort', 'sort_unstable') and all(g.op == 'one' and g.args[0].op == 'lit' for g in s.args):
        X.write(a[0].frame, a[0].local, a[0].path, mk('seq', tuple(sorted(s.args, key=lambda g: g.args[0].args[0]))))
        return UNIT
    if n in ('sort', 'sort_unstable'):
        if len(s.args) <= 1 and all(g.op == 'one' for g in s.args):
            return UNIT
        g = s.args[-1]
        if g.op == 'all' and g.args[0].op == 'app' and g.args[0].args[0].startswith('set.'):
            c = mk('set', g.args[0].args[1].args)
            if s in (mk('seq', set_order(X, c, 'set.iter')), mk('seq', set_order(X, c, 'set.sorted'))):
                X.write(a[0].frame, a[0].local, a[0].path, mk('seq', set_order(X, c, 'set.sorted')))
                return UNIT
        raise Unsupported('sort of a symbolic vector')
    raise Unsupported(n)


def rev(X, segs):
    if all(g.op == 'one' for g in segs):
        return mk('seq', tuple(reversed(segs)))
    raise Unsupported('reverse of a symbolic sequence')


# ---- iterators
def iter_segs(X, v):
    v = X.deref(v)
    if isinstance(v, It):
        return X.normalise_it(v).segs
    if isinstance(v, T):
        c = X.canon(v)
        if c.op == 'seq':
            return c.args
        if c.op == 'set':
            return set_order(X, c, 'set.iter')
        if c.op == 'adt' and c.ty is not None and X.ty.get(c.ty)['name'] == 'std::option::Option':
            return () if c.args[0] == 0 else (one(c.args[1]),)
        if c.ty is not None and X.ty.kind(c.ty) == 'enum' and X.ty.get(c.ty)['name'] == 'std::option::Option':
            return () if X.variant_of(c) == 0 else (one(X.canon(c).args[1]),)
        if c.op == 'adt' and X.ty.get(c.ty)['name'] in ('std::ops::Range', 'std::ops::RangeInclusive'):
            lo, hi = X.canon(c.args[1]), X.canon(c.args[2])
            if lo.op == 'int' and hi.op == 'int':
                h = hi.args[0] + (1 if 'Inclusive' in X.ty.get(c.ty)['name'] else 0)
                return tuple(one(I(i)) for i in range(lo.args[0], h))
            raise Unsupported('symbolic range')
    raise Unsupported('iteration over %r' % (v,))


@model(r'<.* as std::iter::IntoIterator>::into_iter', r'.*<impl std::iter::IntoIterator for .*>::into_iter', r'core::slice::<impl \[T\]>::iter',
       r'std::vec::Vec::<T, A>::into_iter', r'std::iter::IntoIterator::into_iter', r'std::option::Option::<T>::iter', r'std::iter::Iterator::by_ref', r'std::iter::Iterator::peekable', r'std::iter::Iterator::fuse')
def _into_iter(X, f, a, ty):
    if isinstance(a[0], MRef) and isinstance(X.deref(a[0]), It):
        return a[0]
    v = X.deref(a[0])
    if isinstance(v, It):
        return v
    fj = X.F.get(f.get('inst'))
    if fj and fj['local'] and fj['body']:
        return NotImplemented
    if isinstance(v, T) and v.ty is not None and X.ty.kind(v.ty) == 'struct' and not X.ty.get(v.ty)['name'].startswith('std::'):
        return NotImplemented
    return It(iter_segs(X, v))


def clo_captures_mut(X, c):
    c = X.deref_clo(c)
    return isinstance(c, T) and c.op == 'clo' and any(isinstance(x, MRef) for x in c.args)


def adapter(name):
    def h(X, f, a, ty):
        it = X.deref(a[0])
        if isinstance(it, T):
            c = X.canon(it)
            if c.op == 'adt' and X.ty.get(c.ty)['name'] == 'std::ops::Range':
                it = It(iter_segs(X, c))
        if not isinstance(it, It):
            return NotImplemented
        return It(it.segs, it.ads + ((name,) + tuple(a[1:]),), None, it.sentinel)
    return h


for nm in ('map', 'filter', 'filter_map', 'flat_map', 'flatten', 'cloned', 'copied', 'skip', 'step_by', 'take', 'rev', 'enumerate', 'chain', 'zip', 'inspect'):
    model(r'std::iter::Iterator::%s' % nm, r'<.* as std::iter::(Iterator|DoubleEndedIterator)>::%s' % nm)(adapter(nm))


def closure_lam(X, fn, label, post, ety, caps=EMPTY):
    """Lam from a callable term: post(result) -> ('ok', seq) | ('err',)"""
    snap_frames = list(X.frames)

    def call(x):
        sf = X.frames
        X.frames = list(snap_frames)
        try:
            return post(X.call_value(fn, [x]), x)
        finally:
            X.frames = sf
    g = X.deref_clo(fn)
    b = g.bv if isinstance(g, T) else EMPTY
    return Lam(call, ety, b | caps, label)


def seg_ety(X, g):
    if g.op == 'all':
        return X.ty.elem(g.args[0].ty)
    if g.op == 'fm':
        return g.args[0].ety
    raise Unsupported('elem type of %s' % g)


def map_segs(X, segs, f):
    """segs -> segs where f: Lam-style call on one element producing ('ok', seq).  Used for adapters."""
    out = []
    for g in segs:
        if g.op == 'one':
            r = f.call(g.args[0])
            if r[0] != 'ok':
                raise Infeasible()
            out.extend(X.segs(r[1]))
        elif g.op == 'fm':
            out.append(mk('fm', (compose(X, f, g.args[0]), g.args[1])))
        elif g.op in ('all', 'lits'):
            out.append(mk('fm', (f, g)))
        else:
            raise Unsupported('map over %s' % g)
    return tuple(out)


def lam_of(X, fn, label, post, segs):
    ety = None
    for g in segs:
        if g.op != 'one':
            ety = seg_ety(X, g)
    return closure_lam(X, fn, label, post, ety)


def opt_post(X):
    def post(v, x):
        v = X.canon(X.deref(v))
        if X.variant_of(v) == 0:
            return ('ok', NILSEQ)
        return ('ok', vec(X.canon(v).args[1]))
    return post


def apply_adapter(X, ad, segs):
    n = ad[0]
    if n in ('cloned', 'copied', 'inspect'):
        return segs
    if n == 'map':
        if clo_captures_mut(X, ad[1]) and any(g.op != 'one' for g in segs):
            raise Unsupported('map with a mutating closure')
        return map_segs(X, segs, lam_of(X, ad[1], 'map', lambda v, x: ('ok', vec1(X, v)), segs))
    if n == 'filter':
        return map_segs(X, segs, lam_of(X, ad[1], 'filter', lambda v, x: ('ok', vec(x) if X.truth(X.deref(v)) else NILSEQ), segs))
    if n == 'filter_map':
        return map_segs(X, segs, lam_of(X, ad[1], 'filter_map', opt_post(X), segs))
    if n == 'flat_map':
        return map_segs(X, segs, lam_of(X, ad[1], 'flat_map', lambda v, x: ('ok', mk('seq', tuple(iter_segs(X, v)))), segs))
    if n == 'flatten':
        lam = Lam(lambda x: ('ok', mk('seq', tuple(iter_segs(X, x)))), next((seg_ety(X, g) for g in segs if g.op != 'one'), None), EMPTY, 'flatten')
        return map_segs(X, segs, lam)
    if n == 'skip':
        k = X.canon(X.deref(ad[1]))
        if k.op != 'int':
            raise Unsupported('skip by symbolic count')
        return X.segs(drop_n(X, mk('seq', segs), k.args[0], panic=False))
    if n == 'take':
        k = X.canon(X.deref(ad[1]))
        if k.op != 'int' or k.args[0] > 16:
            raise Unsupported('take by symbolic count')
        return X.segs(take_exact(X, mk('seq', segs), k.args[0], panic=False))
    if n == 'rev':
        return rev(X, segs).args
    if n == 'chain':
        return tuple(segs) + tuple(iter_segs(X, ad[1]))
    if n == 'step_by':
        k = X.canon(X.deref(ad[1]))
        if k.op != 'int':
            raise Unsupported('step_by')
        k = k.args[0]
        if all(g.op == 'one' for g in segs):
            return segs[::k]
        s = mk('seq', segs)
        if len(segs) == 1 and segs[0].op == 'all':
            a = segs[0].args[0]
            return (allseg(mk('app', ('step_by', a, I(k)), a.ty)),)
        raise Unsupported('step_by over %s' % s)
    if n == 'enumerate':
        if all(g.op == 'one' for g in segs):
            return tuple(one(mk('tup', (I(i), g.args[0]))) for i, g in enumerate(segs))
        raise Unsupported('enumerate over a symbolic sequence')
    if n == 'zip':
        o = iter_segs(X, ad[1])
        if all(g.op == 'one' for g in segs) and all(g.op == 'one' for g in o):
            return tuple(one(mk('tup', (g.args[0], h.args[0]))) for g, h in zip(segs, o))
        raise Unsupported('zip over symbolic sequences')
    raise Unsupported('iterator adapter ' + n)


def vec1(X, v):
    v = X.deref(v) if isinstance(v, MRef) else v
    return mk('seq', (one(X.canon(v) if isinstance(v, T) else v),))


def collect_result(X, segs, okv=0):
    """Sequence of Result (or Option) values -> (okterm, seq of payloads); forks on success."""
    ety = None
    for g in segs:
        if g.op != 'one':
            ety = seg_ety(X, g)

    def call(v):
        v = X.canon(v)
        k = X.variant_of(v)
        v = X.canon(v)
        if k != okv:
            return ('err',)
        return ('ok', vec(v.args[1]))
    out = []
    # elements in order; the first failing one decides, and all failures are equal
    lamr = Lam(call, ety, EMPTY, 'unwrap')
    for g in segs:
        if g.op == 'one':
            r = lamr.call(g.args[0])
            if r[0] == 'err':
                return None
            out.extend(X.segs(r[1]))
        else:
            if g.op == 'fm':
                lam, src = compose(X, lamr, g.args[0]), g.args[1]
            else:
                lam, src = lamr, g
            panic_check(X, lam, src)
            okt = X.canon(mk('allok', (lam, src)))
            if not X.truth(okt):
                return None
            out.append(mk('fm', (lam, src)))
    return X.canon(mk('seq', tuple(out)))


def panic_check(X, lam, src):
    """Explore the element function once to see whether it can panic."""
    n = X.bvar_id()
    x = X.bvar_of(n, lam.ety)
    pan = []
    X.explore(lambda: lam.call(x), lambda k, v, p: pan.append(v) if k == 'panic' else None, local=frozenset((n,)))
    if pan:
        def call(y):
            try:
                lam.call(y)
                return ('ok', UNIT)
            except PanicExc:
                return ('err',)
        t = mk('not', (X.canon(mk('allok', (Lam(call, lam.ety, lam.bvs, 'nopanic'), src))),))
        if X.truth(t):
            raise PanicExc(pan[0].why + ' (in an iterator)', pan[0].where)


@model(r'std::iter::Iterator::collect', r'<.* as std::iter::Iterator>::collect', r'.*std::iter::FromIterator<.*>>::from_iter')
def _collect(X, f, a, ty):
    it = a[0]
    segs = iter_segs(X, it)
    t = X.ty.get(X.ty.peel(ty))
    nm = t.get('name', '')
    if nm == 'std::vec::Vec':
        for g in segs:
            if g.op == 'fm':
                panic_check(X, g.args[0], g.args[1])
        return X.canon(mk('seq', tuple(segs)))
    if nm == 'std::string::String':
        return X.canon(mk('join', (lit(''), mk('seq', tuple(segs)))))
    if nm == 'std::result::Result':
        inner = X.ty.get(X.ty.peel(t['args'][0]))
        s = collect_result(X, segs, 0)
        if s is None:
            return X.err(ty)
        if inner.get('name') == 'std::vec::Vec':
            return X.ok(ty, s)
        if inner.get('name') == 'std::string::String':
            return X.ok(ty, X.canon(mk('join', (lit(''), s))))
        if inner.get('k') == 'tuple' and not inner['ts']:
            return X.ok(ty, UNIT)
    if nm == 'std::option::Option':
        inner = X.ty.get(X.ty.peel(t['args'][0]))
        s = collect_result(X, segs, 1)
        if s is None:
            return X.none(ty)
        if inner.get('name') == 'std::vec::Vec':
            return X.some(ty, s)
    if nm == 'std::collections::HashMap':
        return X.canon(mk('app', ('map.of', X.canon(mk('seq', tuple(segs)))), X.ty.peel(ty)))
    if nm in ('std::collections::HashSet', 'std::collections::BTreeSet'):
        return mk('set', tuple(segs)) if nm.endswith('HashSet') else mk('bset', tuple(segs))
    raise Unsupported('collect into %s' % t['s'])


@model(r'std::iter::Iterator::(for_each|try_for_each|fold|try_fold|any|all|find|find_map|position|count|last|nth|sum|max|min|reduce|partition|unzip)', r'<.* as std::iter::Iterator>::(fold|any|all|find|find_map|position|count|last|nth|for_each|try_fold|reduce)')
def _consume(X, f, a, ty):
    n = f['def'].split('::')[-1]
    segs = iter_segs(X, a[0])
    if n in ('try_fold', 'try_for_each'):
        return try_fold(X, segs, X.deref(a[1]) if n == 'try_fold' else None, a[-1], ty)
    if n == 'count':
        return X.canon(mk('len', (mk('seq', tuple(segs)),)))
    conc = all(g.op == 'one' for g in segs)
    if n == 'fold':
        st = X.deref(a[1])
        fn = a[2]
        for g in segs:
            if g.op == 'one':
                st = X.canon(X.deref(X.call_value(fn, [st, g.args[0]])))
            else:
                lam = fold_lam(X, fn, ty, seg_ety(X, g) if g.op != 'lits' else None)
                st = X.canon(mk('fold', (lam, I(0), mk('tup', (st,)), g), X.ty.peel(ty)))
        return st
    if n == 'reduce':
        r = X.force_cons(mk('seq', tuple(segs)))
        if r is None:
            return X.none(ty)
        st = r[0]
        ity = X.ty.fieldty(ty, 1, 0)
        for g in X.segs(r[1]):
            if g.op == 'one':
                st = X.canon(X.deref(X.call_value(a[1], [st, g.args[0]])))
            else:
                lam = fold_lam(X, a[1], ity, seg_ety(X, g))
                st = X.canon(mk('fold', (lam, I(0), mk('tup', (st,)), g), ity))
        return X.some(ty, st)
    if n in ('any', 'all'):
        want = n == 'any'

        def post(v, x):
            return ('err',) if X.truth(X.deref(v)) == want else ('ok', UNIT)
        for g in segs:
            if g.op == 'one':
                if X.truth(X.deref(X.call_value(a[1], [g.args[0]]))) == want:
                    return B(want)
            else:
                lam = closure_lam(X, a[1], n, post, seg_ety(X, g))
                lam2, src = (compose(X, lam, g.args[0]), g.args[1]) if g.op == 'fm' else (lam, g)
                if not X.truth(X.canon(mk('allok', (lam2, src)))):
                    return B(want)
        return B(not want)
    if n == 'for_each':
        for g in segs:
            if g.op == 'one':
                X.call_value(a[1], [g.args[0]])
            else:
                for_each(X, a[1], g)
        return UNIT
    if n in ('nth',):
        k = X.canon(X.deref(a[1]))
        s = mk('seq', tuple(segs))
        for i in range(k.args[0] + 1):
            r = X.force_cons(s)
            if r is None:
                return X.none(ty)
            s = r[1]
        return X.some(ty, r[0])
    if n in ('find', 'find_map', 'position') and conc:
        for i, g in enumerate(segs):
            v = X.canon(X.deref(X.call_value(a[1], [g.args[0]])))
            if n == 'find_map':
                if X.variant_of(v) == 1:
                    return X.canon(v)
            elif X.truth(v):
                return X.some(ty, g.args[0] if n == 'find' else I(i))
        return X.none(ty)
    raise Unsupported('iterator consumer ' + n)


def try_fold(X, segs, st, fn, ty):
    """Iterator::try_fold (st is None: try_for_each) with a step that returns an Option or a Result."""
    nm = X.ty.get(X.ty.peel(ty)).get('name')
    if nm not in ('std::option::Option', 'std::result::Result'):
        raise Unsupported('try_fold over ' + str(nm))
    good = 0 if nm.endswith('Result') else 1
    if any(isinstance(x, MRef) for x in X.deref_clo(fn).args):
        raise Unsupported('try_fold changes captured state')
    sty = X.ty.peel(X.ty.fieldty(ty, good, 0))

    def step(s, el):
        v = X.canon(X.deref(X.call_value(fn, [el] if st0 is None else [s, el])))
        return v, X.variant_of(v) == good
    st0 = st
    for g in segs:
        if g.op == 'one':
            v, good_ = step(st, g.args[0])
            if not good_:
                return v
            st = X.canon(X.canon(v).args[1])
            continue
        if nm.endswith('Result') and X.ty.kind(X.ty.fieldty(ty, 1, 0)) != 'err':
            raise Unsupported('try_fold with a structured error')
        frames = list(X.frames)

        def call(xx):
            sf = X.frames
            X.frames = list(frames)
            try:
                v, ok = step(*((None, xx) if st0 is None else xx.args))
                return ('ok', mk('tup', (X.canon(X.canon(v).args[1]),)) if st0 is not None else UNIT) if ok else ('err',)
            finally:
                X.frames = sf
        bv = X.deref_clo(fn).bv
        if st0 is None:
            okt = mk('allok', (Lam(call, seg_ety(X, g), bv, 'tryfn'), g))
        else:
            lam = Lam(call, (sty, seg_ety(X, g)), bv, 'tryfn')
            okt = mk('foldok', (lam, mk('tup', (st,)), g))
        if not X.truth(X.canon(okt)):
            return X.err(ty) if nm.endswith('Result') else X.none(ty)
        if st0 is not None:
            st = X.canon(mk('fold', (lam, I(0), mk('tup', (st,)), g), sty))
    return X.ok(ty, UNIT if st0 is None else st) if nm.endswith('Result') else X.some(ty, UNIT if st0 is None else st)


def for_each(X, fn, g):
    """A closure that updates the places it captured by &mut, over the elements of one segment: a fold."""
    c = X.deref_clo(fn)
    refs = [x for x in c.args if isinstance(x, MRef)]
    if any(r.path for r in refs):
        raise Unsupported('for_each through part of a place')
    init = [X.canon(X.read(r.frame, r.local, r.path)) for r in refs]
    tys = [X.ty.peel(r.frame.body.locals[r.local]) for r in refs]
    snap = list(X.frames)

    def step(xx):
        sf = X.frames
        old = [r.frame.locals[r.local] for r in refs]
        X.frames = list(snap)
        try:
            for r, v in zip(refs, xx.args):
                r.frame.locals[r.local] = v
            X.call_value(fn, [xx.args[-1]])
            return ('ok', mk('tup', tuple(X.canon(X.read(r.frame, r.local, r.path)) for r in refs)))
        finally:
            X.frames = sf
            for r, v in zip(refs, old):
                r.frame.locals[r.local] = v
    changed = []

    def go():
        n = X.bvar_id()
        vs = [X.bvar_of(n + (i,), t) for i, t in enumerate(tys)]
        return vs, step(mk('tup', tuple(vs) + (X.bvar_of(n, seg_ety(X, g)),)))
    bad = []

    def on(kind, v, p):
        if kind != 'ret':
            bad.append(kind)
            return
        vs, (_, out) = v
        for i, (x, y) in enumerate(zip(vs, out.args)):
            if x is not y and i not in changed:
                changed.append(i)
    X.explore(go, on, local=EMPTY)
    if bad:
        raise Unsupported('for_each body fails')
    if not changed:
        return
    ch = sorted(changed)

    def call(xx):
        vs = list(init)
        for k, i in enumerate(ch):
            vs[i] = xx.args[k]
        r = step(mk('tup', tuple(vs) + (xx.args[-1],)))
        return ('ok', mk('tup', tuple(r[1].args[i] for i in ch)))
    lam = Lam(call, tuple(tys[i] for i in ch) + (seg_ety(X, g),), c.bv, 'for_each')
    ini = mk('tup', tuple(init[i] for i in ch))
    for k, i in enumerate(ch):
        X.write(refs[i].frame, refs[i].local, refs[i].path, X.canon(mk('fold', (lam, I(k), ini, g), tys[i])))


def fold_lam(X, fn, sty, ety):
    snap_frames = list(X.frames)
    g = X.deref_clo(fn)

    def call(xx):
        sf = X.frames
        X.frames = list(snap_frames)
        try:
            v = X.canon(X.deref(X.call_value(fn, [xx.args[0], xx.args[1]])))
            return ('ok', mk('tup', (v,)))
        finally:
            X.frames = sf
    return Lam(call, (X.ty.peel(sty), ety), g.bv, 'foldfn')


@model(r'std::iter::Iterator::next', r'<.* as std::iter::Iterator>::next')
def _next(X, f, a, ty):
    # not inside the interpreter's loop handling (called from std code or a closure)
    if isinstance(a[0], MRef):
        it = X.deref(a[0])
        if isinstance(it, It):
            it = X.normalise_it(it)
            s = mk('seq', it.segs)
            r = X.force_cons(s)
            m = a[0]
            v = X.read(m.frame, m.local, m.path)
            while isinstance(v, MRef):
                m = v
                v = X.read(m.frame, m.local, m.path)
            if r is None:
                X.write(m.frame, m.local, m.path, It((), (), it.ety, it.sentinel))
                return X.none(ty)
            X.write(m.frame, m.local, m.path, It(X.segs(r[1]), (), it.ety, it.sentinel))
            return X.some(ty, r[0])
    return NotImplemented


# ---- HashMap built from pairs: the last pair of a key counts
@model(r'std::collections::HashMap::<K, V, .*>::get')
def _hmget(X, f, a, ty):
    return X.canon(mk('app', ('map.get', X.canon(X.deref(a[0])), X.canon(X.deref(a[1]))), X.ty.peel(ty)))


def _mapget(E, a, ty):
    m, k = a
    if m.op == 'app' and m.args[0] == 'map.of' and k.op == 'lit':
        segs = E.segs(m.args[1])
        if all(g.op == 'one' for g in segs):
            kv = [E.canon(g.args[0]) for g in segs]
            kv = [(E.canon(E.proj(p, 0, 0, None)), p) for p in kv]
            if all(x.op == 'lit' for x, _ in kv):
                for x, p in reversed(kv):
                    if x is k:
                        return mk('adt', (1, E.canon(E.proj(p, 0, 1, None))), E.ty.peel(ty))
                return mk('adt', (0,), E.ty.peel(ty))


APPS['map.get'] = _mapget


# ---- HashSet (order is unspecified: iteration yields an unordered term)
@model(r'std::collections::(HashSet|BTreeSet)::<T.*>::new')
def _hsnew(X, f, a, ty):
    return mk('set' if 'Hash' in f['def'] else 'bset', ())


def set_order(X, c, name):
    """The elements of a hash set, in an order that nothing is known about ('set.iter') or sorted ('set.sorted')."""
    items = X.segs(mk('seq', c.args))
    if not items or len(items) == 1 and items[0].op == 'one':
        return items
    vt, s = vec_of(X, items), mk('seq', items)
    if any(g.op == 'one' for g in items):       # not empty
        return (one(mk('app', (name + '.first', s), X.ty.elem(vt))), mk('all', (mk('app', (name + '.rest', s), vt),)))
    return (mk('all', (mk('app', (name, s), vt),)),)


def vec_of(X, segs):
    for g in segs:
        e = g.args[0].ty if g.op == 'one' else X.ty.elem(g.args[0].ty) if g.op == 'all' else None
        if e is not None or (g.op == 'one' and g.args[0].op in ('lit', 'cat')):
            if e is None:
                return X.ty.find('std::vec::Vec<std::string::String>')
            for i, t in enumerate(X.ty.t):
                if t['k'] == 'adt' and t['name'] == 'std::vec::Vec' and X.ty.peel(t['args'][0]) == X.ty.peel(e):
                    return i
    raise Unsupported('element type of a set')


@model(r'std::collections::(HashSet|BTreeSet)::<T, .*>::insert')
def _hsinsert(X, f, a, ty):
    s = X.deref(a[0])
    X.write(a[0].frame, a[0].local, a[0].path, mk(s.op, s.args + (one(X.canon(X.deref(a[1]))),)))
    return mk('app', ('set.inserted', I(X.fresh_id())), X.ty.find('bool'))


# ---- atomics: the df counter
@model(r'std::sync::atomic::Atomic::<usize>::fetch_add', r'std::sync::atomic::AtomicUsize::fetch_add')
def _fetch_add(X, f, a, ty):
    n = X.canon(X.deref(a[1]))
    if n is not I(1):
        return mk('app', ('nonfresh', X.canon(X.deref(a[0])), n), X.ty.find('usize'))
    return X.fresh_name(X.canon(X.deref(a[0])))


@model(r'std::sync::atomic::Atomic::<.*>::new', r'std::sync::atomic::AtomicUsize::new')
def _anew(X, f, a, ty):
    return mk('app', ('newcounter',), ty)         # where it starts does not matter


@model(r'std::rc::Rc::<T(, A)?>::.*', r'std::sync::Arc::<T(, A)?>::.*')
def _rc(X, f, a, ty):
    return X.deref(a[0])


def _fresh_name(self, counter):
    p = self.path
    p.freshn = getattr(p, 'freshn', 0) + 1
    if self.concrete:
        return I(p.freshn)
    return mk('app', ('fresh', counter, I(p.freshn)), self.ty.find('usize'))


Exec.fresh_name = _fresh_name


# ---- phf
@model(r'phf::Map::<K, V>::get', r'phf::map::Map::<K, V>::get')
def _phfget(X, f, a, ty):
    m = X.canon(X.deref(a[0]))
    k = X.canon(X.deref(a[1]))
    if m.op != 'static':
        raise Unsupported('phf map %s' % m)
    for (key, val) in phf_entries(X, m.args[0]):
        if X.truth(mk('eq', (k, key))):
            return X.some(ty, val)
    return X.none(ty)


def phf_entries(X, name):
    j = X.statics[name]
    out = []

    def walk(v):
        if isinstance(v, dict):
            if v.get('c') in ('slice', 'array') and v['es'] and v['es'][0].get('c') == 'tuple' and len(v['es'][0]['fs']) == 2 and v['es'][0]['fs'][0].get('c') in ('str',):
                for e in v['es']:
                    out.append((X._const(e['fs'][0]), X._const(e['fs'][1])))
                return
            for x in v.values():
                walk(x)
        elif isinstance(v, list):
            for x in v:
                walk(x)
    walk(j)
    return sorted(out, key=lambda e: e[0].args[0])


# ---- regex crate: uninterpreted, except on literals of simple shape
@model(r'regex::Regex::new')
def _rnew(X, f, a, ty):
    p = X.canon(X.deref(a[0]))
    if p.op == 'lit':
        return X.ok(ty, mk('app', ('regex', p), None))
    v = X.canon(mk('app', ('regex.new', p), ty))
    return v


@model(r'regex_syntax::ast::parse::Parser::new')
def _rsnew(X, f, a, ty):
    return mk('opaque', ('regex parser',))


@model(r'regex_syntax::ast::Group::(capture_index|is_capturing)')
def _rscap(X, f, a, ty):
    g = X.canon(X.deref(a[0]))
    fs = X.ty.variants(g.ty)[0]['fields']
    i = [j for j, x in enumerate(fs) if x[0] == 'kind'][0]
    k = X.canon(mk('fld', (g, 0, i), X.ty.peel(fs[i][1])))
    names = [v['name'] for v in X.ty.variants(k.ty)]
    ci, cn = names.index('CaptureIndex'), names.index('CaptureName')
    v = X.variant_switch(k, [{ci}, {cn}])
    if f['def'].endswith('is_capturing'):
        return B(v != 2)
    if v == 2:
        return X.none(ty)
    k = X.canon(k)
    x = X.canon(k.args[1])
    if v == 1:
        fs = X.ty.variants(x.ty)[0]['fields']
        i = [j for j, y in enumerate(fs) if y[0] == 'index'][0]
        x = X.canon(mk('fld', (x, 0, i), X.ty.peel(fs[i][1])))
    return X.some(ty, x)


@model(r'regex_syntax::ast::parse::Parser::parse')
def _rsparse(X, f, a, ty):
    return X.canon(mk('app', ('regex.parse', X.canon(X.deref(a[1]))), X.ty.peel(ty)))


@model(r'regex::Regex::is_match')
def _rmatch(X, f, a, ty):
    r = X.canon(X.deref(a[0]))
    return bapp(X, 'regex.is_match', r, X.canon(X.deref(a[1])))


def _rx(E, a, ty):
    r, s = a
    if r.op == 'app' and r.args[0] == 'regex' and r.args[1].op == 'lit' and s.op == 'lit':
        import re as _re
        return B(_re.search(r.args[1].args[0].replace('$', r'\Z'), s.args[0]) is not None)


APPS['regex.is_match'] = _rx


# ---- panics
@model(r'core::panicking::.*', r'std::rt::begin_panic.*', r'core::option::(unwrap_failed|expect_failed)', r'core::result::unwrap_failed', r'std::option::(unwrap_failed|expect_failed)', r'std::result::unwrap_failed')
def _panic(X, f, a, ty):
    raise PanicExc(f['def'])


@model(r'std::option::Option::<T>::(unwrap|expect)')
def _ounwrap(X, f, a, ty):
    v = X.deref(a[0])
    if X.variant_of(v) == 0:
        raise PanicExc('Option::unwrap on None')
    return X.canon(v).args[1]


@model(r'std::result::Result::<T, E>::(unwrap|expect)')
def _runwrap(X, f, a, ty):
    v = X.deref(a[0])
    if X.variant_of(v) == 1:
        raise PanicExc('Result::unwrap on Err')
    return X.canon(v).args[1]


# ---- integer arithmetic with an explicit treatment of overflow
@model(r'(core|std)::num::<impl [iu](8|16|32|64|128|size)>::(checked|saturating|wrapping|overflowing)_(add|sub|mul|neg|abs)')
def _intops(X, f, a, ty):
    m = re.search(r'<impl (\w+)>::(\w+?)_(\w+)$', f['def'])
    t = X.ty.get(X.ty.find(m.group(1)))
    lo, hi = X.range_of(t)
    v = [X.canon(X.deref(x)) for x in a]
    op = m.group(3)
    if op == 'neg':
        x = mk('isub', (I(0), v[0]))
    elif op == 'abs':
        x = mk('isub', (I(0), v[0])) if X.truth(X.canon(mk('ilt', (v[0], I(0))))) else v[0]
    else:
        x = mk({'add': 'iadd', 'sub': 'isub', 'mul': 'imul'}[op], tuple(v))
    x = X.canon(x)
    how = m.group(2)
    if how == 'wrapping':
        return X.wrapt(x, t)
    if X.truth(X.canon(mk('ilt', (x, I(lo))))):
        low = True
    elif X.truth(X.canon(mk('ilt', (I(hi), x)))):
        low = False
    else:
        return X.some(ty, x) if how == 'checked' else x if how == 'saturating' else mk('tup', (x, FALSE))
    if how == 'checked':
        return X.none(ty)
    if how == 'saturating':
        return I(lo if low else hi)
    return mk('tup', (X.wrapt(x, t), TRUE))
