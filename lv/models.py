"""Models of the library functions whose bodies are not exported (std, regex, lazy_static, unicase)."""
from . import lang as L
from .facts import Z, RANGES, BASELANG, Infeasible
from .interp import (Adt, BoxV, Bytes, Cell, Chr, Clo, Cut, Dyn, Fnd, FnPtr, Lin, Panic, Ref, Seq, Str, Sym, Tup,
                     UNINIT, UNIT, Unknown, X, lit, ref)

PATHS = {}
METHODS = {}     # (trait method, self type path) -> model
TRAITS = {}      # trait method -> model, whatever the type


def model(*names):
    def deco(f):
        for n in names:
            PATHS[n] = f
        return f
    return deco


def method(tm, *selfs):
    def deco(f):
        for s in selfs or ('*',):
            if s == '*':
                TRAITS[tm] = f
            else:
                METHODS[(tm, s)] = f
        return f
    return deco


class Models:
    def __init__(self):
        self.cache = {}

    def lookup(self, prog, fn):
        k = (id(prog), fn['id'])
        if k in self.cache:
            return self.cache[k]
        m = self.find(prog, fn)
        self.cache[k] = m
        return m

    def find(self, prog, fn):
        p = fn['path']
        if p in PATHS:
            return PATHS[p]
        if '::<impl core::cmp::PartialEq<' in p:
            m = cross_eq(p)
            if m is not None:
                return m
        tm = fn['tm']
        if tm:
            st = prog.types[fn['self']] if fn['self'] is not None else None
            sp = None
            if st is not None:
                sp = st.get('path') or st['k']
            m = METHODS.get((tm, sp))
            if m is None and not (fn.get('local') or fn['crate'] in ('ronda',)):
                if not fn.get('blocks') or tm in FORCE_TRAITS:
                    m = TRAITS.get(tm)
            if m is not None:
                return m
        if fn.get('kind') == 'virtual':
            return virtual
        if p.startswith('core::panicking::') or p.endswith('::unwrap_failed') or 'unwrap_failed_inner' in p or p.endswith('expect_failed') or p in NO_RETURN \
                or p.startswith('core::num::imp::overflow_panic::') or (fn['crate'] in ('core', 'alloc', 'std') and p.endswith(NO_RETURN_ENDS)):
            return panics
        if fn.get('kind') == 'intrinsic':
            return INTRINSICS.get(p.rsplit('::', 1)[-1])
        return None


FORCE_TRAITS = set()
# library functions that never answer
NO_RETURN = {'std::panicking::begin_panic', 'std::rt::begin_panic', 'std::panic::panic_any', 'std::panic::resume_unwind', 'std::panicking::resume_unwind', 'std::process::exit',
             'std::process::abort', 'core::intrinsics::abort', 'alloc::alloc::handle_alloc_error', 'alloc::raw_vec::capacity_overflow', 'alloc::raw_vec::handle_error',
             'core::process::abort_immediate'}
NO_RETURN_ENDS = ('::slice_index_fail', '::slice_error_fail', '::len_mismatch_fail', '::panic_already_borrowed', '::panic_already_mutably_borrowed', '::assert_failed', '::panic_poisoned',
                  '::panic_access_error', '::panic_on_ord_violation', '::panic_for_nonpositive_argument', '::panic_for_negative_argument')


def panics(I, fn, args, dty):
    p = fn['path']
    msg = p
    try:
        for a in args:
            v = I.deref_all(a)
            if isinstance(v, Str):
                w = I.word(v.t)
                if w is not None:
                    msg = w
                    break
            if isinstance(v, X) and v.kind == 'fmtargs':
                w = I.word(fmt_text(I, v))
                if w is not None:
                    msg = w
                    break
    except (Unknown, Cut):
        pass
    raise Panic(msg, (I.where(), 0))


def virtual(I, fn, args, dty):
    d = args[0]
    d = I.force(d)
    n = 0
    while isinstance(d, Ref) and n < 4:
        w = I.getf(d)
        if isinstance(w, (Dyn, Ref)):
            d = w
            n += 1
        else:
            break
    if isinstance(d, BoxV):
        d = I.force(d.cell.v)
    if isinstance(d, X) and d.kind == 'pyfn':
        return I.callv(d, args[1].fs if len(args) > 1 and isinstance(args[1], Tup) else args[1:], dty)
    if not isinstance(d, Dyn):
        raise Unknown('virtual call on %r' % (d,))
    rest = list(args[1:])
    if not fn['tm'].startswith('core::ops::function::'):
        f = d.vt[fn['vidx']] if d.vt else None
        if f is None:
            raise Unknown('virtual slot')
    else:
        a = rest[0]
        vals = list(a.fs) if isinstance(a, Tup) else rest
        return I.callv(d.ref, vals, dty)
    return I.call(f, [d.ref] + rest, dty)


def bool_(b):
    return bool(b)


# ------------------------------------------------------------------ options
def is_some(I, v):
    v = I.force(v)
    return (v.v == 1, v.fs[0] if v.v == 1 else None)


def opt(ty, x):
    return Adt(ty, 0, ()) if x is None else Adt(ty, 1, (x,))


# ------------------------------------------------------------------ intrinsics
INTRINSICS = {}


def intr(*names):
    def deco(f):
        for n in names:
            INTRINSICS[n] = f
        return f
    return deco


@intr('discriminant_value')
def _dv(I, fn, args, dty):
    r = I.force(args[0])
    v = I.getf(r)
    d = I.disc(v, v.ty if isinstance(v, Adt) else fn['args'][0])
    t = I.p.types[dty]
    return I.wrap(d, t) if t['k'] in ('int', 'uint') and isinstance(d, int) else d


@intr('is_val_statically_known', 'ub_checks', 'overflow_checks', 'contract_checks')
def _false(I, fn, args, dty):
    return False


@intr('likely', 'unlikely', 'black_box')
def _same(I, fn, args, dty):
    return args[0]


@intr('cold_path', 'assume', 'assert_inhabited', 'forget', 'assert_zero_valid')
def _unit(I, fn, args, dty):
    return UNIT


@intr('unreachable')
def _unr(I, fn, args, dty):
    raise Unknown('unreachable intrinsic')


@intr('needs_drop')
def _nd(I, fn, args, dty):
    return False


@intr('three_way_compare')
def _twc(I, fn, args, dty):
    return I.ordering(I.cmpi(args[0], args[1]))


def _arith(op):
    def f(I, fn, args, dty):
        return I.binop(op, args[0], args[1], fn['args'][0])
    return f


for _n, _o in (('unchecked_add', 'Add'), ('unchecked_sub', 'Sub'), ('wrapping_add', 'Add'), ('wrapping_sub', 'Sub'),
               ('unchecked_mul', 'Mul')):
    INTRINSICS[_n] = _arith(_o)


@intr('saturating_sub')
def _ssub(I, fn, args, dty):
    lo, hi = I.int_range(fn['args'][0])
    return saturated(I, 'Sub', I.force(args[0]), I.force(args[1]), fn['args'][0])


@intr('saturating_add')
def _sadd(I, fn, args, dty):
    return saturated(I, 'Add', I.force(args[0]), I.force(args[1]), fn['args'][0])


def saturated(I, op, a, b, ty):
    lo, hi = I.int_range(ty)
    if isinstance(a, int) and isinstance(b, int):
        return max(lo, min(hi, I.conc(op, a, b)))
    r, ov = I.arith(op, a, b, ty)
    if not ov:
        return r
    return hi if I.le(hi + 1, r) else lo


@intr('add_with_overflow', 'sub_with_overflow', 'mul_with_overflow')
def _awo(I, fn, args, dty):
    op = fn['path'].rsplit('::', 1)[-1].split('_')[0].capitalize()
    return I.checked(op, I.force(args[0]), I.force(args[1]), fn['args'][0])


def int_method(name):
    def deco(f):
        for t in ('i8', 'i16', 'i32', 'i64', 'isize', 'u8', 'u16', 'u32', 'u64', 'usize', 'i128', 'u128'):
            PATHS['core::num::<impl %s>::%s' % (t, name)] = f
        return f
    return deco


@int_method('saturating_sub')
def _im_ssub(I, fn, args, dty):
    ty = dty if dty is not None else fn['self']
    lo, hi = I.int_range(ty)
    a, b = I.force(args[0]), I.force(args[1])
    return saturated(I, 'Sub', a, b, ty)


@int_method('saturating_add')
def _im_sadd(I, fn, args, dty):
    lo, hi = I.int_range(dty)
    a, b = I.force(args[0]), I.force(args[1])
    return saturated(I, 'Add', a, b, dty)


def _wrapping(op):
    def f(I, fn, args, dty):
        return I.binop(op, args[0], args[1], dty)
    return f


for _n, _o in (('wrapping_add', 'Add'), ('wrapping_sub', 'Sub'), ('wrapping_mul', 'Mul')):
    int_method(_n)(_wrapping(_o))


def _checked(op):
    def f(I, fn, args, dty):
        ty = fn['self']
        r = I.checked(op, I.force(args[0]), I.force(args[1]), ty)
        return Adt(dty, 0, ()) if r.fs[1] else Adt(dty, 1, (r.fs[0],))
    return f


for _n, _o in (('checked_add', 'Add'), ('checked_sub', 'Sub'), ('checked_mul', 'Mul')):
    int_method(_n)(_checked(_o))


@int_method('signum')
def _signum(I, fn, args, dty):
    return I.cmpi(args[0], 0)


@int_method('abs_diff')
def _absdiff(I, fn, args, dty):
    a, b = I.force(args[0]), I.force(args[1])
    if I.le(b, a):
        return I.arith('Sub', a, b, dty)[0] if isinstance(a, Lin) or isinstance(b, Lin) else a - b
    return I.arith('Sub', b, a, dty)[0] if isinstance(a, Lin) or isinstance(b, Lin) else b - a


@model('core::mem::swap')
def _swap(I, fn, args, dty):
    a, b = I.get(args[0]), I.get(args[1])
    I.set(args[0], b)
    I.set(args[1], a)
    return UNIT


@model('core::mem::replace')
def _replace(I, fn, args, dty):
    a = I.get(args[0])
    I.set(args[0], args[1])
    return a


@model('core::mem::take')
def _take(I, fn, args, dty):
    a = I.get(args[0])
    d = default_of(I, dty)
    I.set(args[0], d)
    return a


def default_of(I, ty):
    t = I.p.types[ty]
    k = t['k']
    if k in ('int', 'uint'):
        return 0
    if k == 'bool':
        return False
    if k == 'adt':
        if t['path'] == 'alloc::string::String':
            return Str(('lit', ''))
        if t['path'] == 'alloc::vec::Vec':
            return Seq(())
        if t['path'] == 'core::option::Option':
            return Adt(ty, 0, ())
    m = I.method(ty, 'default')
    if m is not None:
        return I.call(m, [])
    raise Unknown('default')


@model('core::mem::drop', 'core::mem::forget')
def _drop(I, fn, args, dty):
    return UNIT


# ------------------------------------------------------------------ boxes, vectors
@model('alloc::boxed::Box::<T>::new', 'alloc::rc::Rc::<T>::new', 'alloc::sync::Arc::<T>::new')
def _boxnew(I, fn, args, dty):
    return BoxV(Cell(args[0]))


@model('alloc::boxed::Box::<T>::new_uninit')
def _boxun(I, fn, args, dty):
    return BoxV(Cell(UNINIT))


@model('alloc::boxed::box_assume_init_into_vec_unsafe', 'alloc::slice::<impl [T]>::into_vec')
def _boxvec(I, fn, args, dty):
    v = I.force(args[0])
    w = I.force(v.cell.v)
    while isinstance(w, (Adt, Tup)):
        w = [x for x in w.fs if not (isinstance(x, X) and x.kind == 'uninit')][0]
    if not isinstance(w, Seq):
        raise Unknown('vec! of %r' % (w,))
    return w


@method('core::clone::Clone::clone', 'alloc::boxed::Box')
def _boxclone(I, fn, args, dty):
    v = I.getf(args[0])
    return BoxV(Cell(clone_val(I, v.cell.v, I.p.types[fn['self']]['args'][0])))


@method('core::ops::deref::Deref::deref', 'alloc::boxed::Box', 'alloc::rc::Rc', 'alloc::sync::Arc')
def _boxderef(I, fn, args, dty):
    v = I.getf(args[0])
    return Ref(v.cell, ())


@model('<alloc::boxed::Box<T, A> as core::convert::AsRef<T>>::as_ref', '<alloc::boxed::Box<T, A> as core::borrow::Borrow<T>>::borrow')
def _boxasref(I, fn, args, dty):
    return _boxderef(I, fn, args, dty)


def clone_val(I, v, ty):
    """clone through the type's own Clone unless it is derived (values are immutable here)"""
    t = I.p.types[ty]
    if t['k'] == 'adt' and t.get('local') and custom_clone(I, ty):
        m = I.method(ty, 'clone')
        if m is not None:
            return I.call(m, [ref(v)])
    return v


def custom_clone(I, ty):
    c = getattr(I.p, '_cc', None)
    if c is None:
        c = I.p._cc = {}
    if ty not in c:
        s = I.p.types[ty].get('path')
        d = [x for x in I.p.d['impls'] if x[0] == 'core::clone::Clone' and x[1] == s]
        c[ty] = any(not x[2] for x in d)
    return c[ty]


@method('core::clone::Clone::clone', 'alloc::vec::Vec', 'array', 'alloc::string::String', 'core::slice::iter::Iter',
        'core::slice::Iter', 'alloc::vec::into_iter::IntoIter', 'core::str::iter::Split', 'core::str::iter::Chars',
        'regex::re_unicode::Regex', 'regex::re_unicode::Match', 'unicase::UniCase', 'unicase::Ascii', 'core::ops::range::Range',
        'core::ops::range::RangeInclusive', 'core::fmt::Arguments', 'std::collections::hash::set::HashSet',
        'core::str::iter::CharIndices', 'core::str::iter::SplitN')
def _clone(I, fn, args, dty):
    v = I.getf(args[0])
    if isinstance(v, Seq):
        t = I.p.types[fn['self']]
        e = t.get('e', (t.get('args') or [None])[0])
        if e is not None and I.p.types[e].get('local') and custom_clone(I, e):
            return Seq(tuple(('i', clone_val(I, x, e)) for x in I.items(v)))
    return v


@model('alloc::slice::<impl [T]>::to_vec', '<T as alloc::slice::<impl [T]>::to_vec_in::ConvertVec>::to_vec',
       '<[T] as alloc::borrow::ToOwned>::to_owned', '<alloc::vec::Vec<T> as core::convert::From<&[T]>>::from',
       'alloc::slice::<impl alloc::borrow::ToOwned for [T]>::to_owned')
def _tovec(I, fn, args, dty):
    return I.getf(args[0])


@model('alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity')
def _vecnew(I, fn, args, dty):
    return Seq(())


@method('core::default::Default::default', 'alloc::vec::Vec', 'std::collections::hash::set::HashSet')
def _vecdef(I, fn, args, dty):
    return Seq(())


@model('alloc::vec::Vec::<T, A>::push', 'alloc::vec::Vec::<T, A>::push_mut')
def _push(I, fn, args, dty):
    s = I.getf(args[0])
    I.set(args[0], Seq(s.segs + (('i', args[1]),)))
    return UNIT


@model('alloc::vec::Vec::<T, A>::pop')
def _pop(I, fn, args, dty):
    s = I.getf(args[0])
    r = I.pop_back(s)
    if r is None:
        return opt(dty, None)
    I.set(args[0], r[1])
    return opt(dty, r[0])


@model('alloc::vec::Vec::<T, A>::insert')
def _insert(I, fn, args, dty):
    s = I.getf(args[0])
    i = I.force(args[1])
    n = I.seq_len(s)
    if not I.le(i, n):
        raise Panic('insertion index out of bounds', (I.where(), 0))
    if I.eqi(i, n):
        I.set(args[0], Seq(s.segs + (('i', args[2]),)))
        return UNIT
    if not isinstance(i, int):
        raise Unknown('symbolic insertion')
    pre, rest = [], s
    for _ in range(i):
        x, rest = I.pop_front(rest)
        pre.append(('i', x))
    I.set(args[0], Seq(tuple(pre) + (('i', args[2]),) + rest.segs))
    return UNIT


@model('alloc::vec::Vec::<T, A>::remove', 'alloc::vec::Vec::<T, A>::swap_remove')
def _remove(I, fn, args, dty):
    s = I.getf(args[0])
    i = I.force(args[1])
    if not I.lt(i, I.seq_len(s)):
        raise Panic('removal index out of bounds', (I.where(), 0))
    if I.eqi(I.add(i, 1), I.seq_len(s)):
        r = I.pop_back(s)
        I.set(args[0], r[1])
        return r[0]
    if not isinstance(i, int):
        raise Unknown('symbolic removal')
    pre, rest = [], s
    for _ in range(i):
        x, rest = I.pop_front(rest)
        pre.append(('i', x))
    x, rest = I.pop_front(rest)
    if fn['path'].endswith('swap_remove'):
        y, rest = I.pop_back(rest)
        I.set(args[0], Seq(tuple(pre) + (('i', y),) + rest.segs))
    else:
        I.set(args[0], Seq(tuple(pre) + rest.segs))
    return x


@model('alloc::vec::Vec::<T, A>::truncate')
def _trunc(I, fn, args, dty):
    s = I.getf(args[0])
    n = args[1]
    if not I.lt(n, I.seq_len(s)):
        return UNIT
    I.set(args[0], I.seq_slice(s, 0, n))
    return UNIT


@model('alloc::vec::Vec::<T, A>::clear')
def _clear(I, fn, args, dty):
    I.set(args[0], Seq(()))
    return UNIT


@model('alloc::vec::Vec::<T, A>::append')
def _append(I, fn, args, dty):
    s, o = I.getf(args[0]), I.getf(args[1])
    I.set(args[0], Seq(s.segs + o.segs))
    I.set(args[1], Seq(()))
    return UNIT


@model('alloc::vec::Vec::<T, A>::extend_from_slice')
def _extsl(I, fn, args, dty):
    s, o = I.getf(args[0]), I.deref_all(args[1])
    I.set(args[0], Seq(s.segs + o.segs))
    return UNIT


@model('alloc::vec::Vec::<T, A>::split_off')
def _splitoff(I, fn, args, dty):
    s = I.getf(args[0])
    i = I.force(args[1])
    if not I.le(i, I.seq_len(s)):
        raise Panic('split_off index out of bounds', (I.where(), 0))
    b = I.seq_slice(s, i, None)
    a = I.seq_slice(s, 0, i)
    I.set(args[0], a)
    return b


@model('alloc::vec::Vec::<T, A>::drain')
def _drain(I, fn, args, dty):
    s = I.getf(args[0])
    a, b = range_bounds(I, args[1], I.seq_len(s))
    mid = I.seq_slice(s, a, b)
    n = I.seq_len(s)
    I.set(args[0], Seq(I.seq_slice(s, 0, a).segs + (I.seq_slice(s, b, None).segs if not I.eqi(b, n) else ())))
    return X('iter', (mid, 'val'))


@model('alloc::vec::Vec::<T, A>::retain')
def _retain(I, fn, args, dty):
    s = I.getf(args[0])
    out = []
    for x in I.items(s):
        if I.force(I.callv(args[1], [ref(x)])):
            out.append(('i', x))
    I.set(args[0], Seq(tuple(out)))
    return UNIT


@model('alloc::slice::<impl [T]>::reverse', 'core::slice::<impl [T]>::reverse')
def _rev(I, fn, args, dty):
    s = I.getf(args[0])
    I.set(args[0], Seq(tuple(('i', x) for x in reversed(I.items(s)))))
    return UNIT


@model('core::slice::<impl [T]>::swap')
def _slswap(I, fn, args, dty):
    s = I.getf(args[0])
    xs = I.items(s)
    i, j = I.force(args[1]), I.force(args[2])
    if not (isinstance(i, int) and isinstance(j, int)):
        raise Unknown('symbolic swap')
    if i >= len(xs) or j >= len(xs):
        raise Panic('index out of bounds', (I.where(), 0))
    xs[i], xs[j] = xs[j], xs[i]
    I.set(args[0], Seq(tuple(('i', x) for x in xs)))
    return UNIT


@model('alloc::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len', 'std::collections::hash::set::HashSet::<T, S, A>::len')
def _len(I, fn, args, dty):
    return I.seq_len(I.deref_all(args[0]))


@model('alloc::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty', 'std::collections::hash::set::HashSet::<T, S, A>::is_empty')
def _isempty(I, fn, args, dty):
    return I.eqi(I.seq_len(I.deref_all(args[0])), 0)


@model('alloc::vec::Vec::<T, A>::capacity')
def _cap(I, fn, args, dty):
    I.taint('capacity')
    t = ('cap', I.key(args[0]))
    RANGES.setdefault(t, (0, None))
    return Lin(t, 0)


@model('alloc::vec::Vec::<T, A>::reserve', 'alloc::vec::Vec::<T, A>::shrink_to_fit', 'alloc::string::String::reserve')
def _reserve(I, fn, args, dty):
    return UNIT


@method('core::ops::deref::Deref::deref', 'alloc::vec::Vec', 'alloc::string::String')
def _vderef(I, fn, args, dty):
    return Ref(args[0].cell, args[0].path) if isinstance(args[0], Ref) else I.force(args[0])


@method('core::ops::deref::DerefMut::deref_mut', 'alloc::vec::Vec', 'alloc::string::String')
def _vderefm(I, fn, args, dty):
    return args[0]


@model('alloc::vec::Vec::<T, A>::as_slice', 'alloc::vec::Vec::<T, A>::as_mut_slice', 'alloc::string::String::as_str',
       'alloc::string::String::as_mut_str', 'core::array::<impl [T; N]>::as_slice', 'core::str::<impl str>::as_str')
def _asslice(I, fn, args, dty):
    return args[0]


def TM(name):
    return {'as_ref': 'core::convert::AsRef::as_ref', 'borrow': 'core::borrow::Borrow::borrow'}[name]


for _n in ('core::convert::AsRef::as_ref', 'core::borrow::Borrow::borrow'):
    @method(_n, 'alloc::vec::Vec', 'alloc::string::String', 'str', 'slice', 'array')
    def _asref(I, fn, args, dty):
        return args[0]


@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last')
def _first(I, fn, args, dty):
    s = I.deref_all(args[0])
    r = I.pop_front(s) if fn['path'].endswith('first') else I.pop_back(s)
    return opt(dty, None if r is None else ref(r[0]))


@model('core::slice::<impl [T]>::last_mut', 'core::slice::<impl [T]>::first_mut')
def _lastmut(I, fn, args, dty):
    s = I.getf(args[0])
    n = I.seq_len(s)
    if I.eqi(n, 0):
        return opt(dty, None)
    i = I.add(n, -1) if 'last' in fn['path'] else 0
    return opt(dty, Ref(args[0].cell, args[0].path + (('i', i),)))


@model('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def _splitfirst(I, fn, args, dty):
    s = I.deref_all(args[0])
    r = I.pop_front(s) if fn['path'].endswith('first') else I.pop_back(s)
    return opt(dty, None if r is None else Tup((ref(r[0]), ref(r[1]))))


@model('core::slice::<impl [T]>::split_at')
def _splitat(I, fn, args, dty):
    s = I.deref_all(args[0])
    i = I.force(args[1])
    if not I.le(i, I.seq_len(s)):
        raise Panic('mid > len', (I.where(), 0))
    return Tup((ref(I.seq_slice(s, 0, i)), ref(I.seq_slice(s, i, None))))


def range_bounds(I, r, n):
    """(start, end) of a range argument over a length n, without checks"""
    r = I.force(r)
    p = I.p.types[r.ty]['path']
    fs = [I.force(x) for x in r.fs]
    if p.endswith('RangeFrom'):
        return fs[0], n
    if p.endswith('RangeToInclusive'):
        return 0, I.add(fs[0], 1)
    if p.endswith('RangeTo'):
        return 0, fs[0]
    if p.endswith('RangeFull'):
        return 0, n
    if p.endswith('RangeInclusive'):
        return fs[0], I.add(fs[1], 1)
    if p.endswith('Range'):
        return fs[0], fs[1]
    raise Unknown('range ' + p)


def seq_index(I, base, idx, want):
    """index a sequence; want: 'get' -> Ref or None, 'index' -> Ref or panic"""
    b = I.force(base)
    if isinstance(b, Ref):
        s = I.getf(b)
        while isinstance(s, (Ref, BoxV)):
            b = s
            s = I.getf(b)
    else:
        s = I.deref_all(b)
    i = I.force(idx)
    n = I.seq_len(s)
    if isinstance(i, (int, Lin)):
        if not I.lt(i, n):
            return None
        if isinstance(b, Ref) and isinstance(i, int) and isinstance(s, Seq) and all(g[0] == 'i' for g in s.segs):
            return Ref(b.cell, b.path + (('i', i),))
        return ref(I.seq_get(s, i))
    a, e = range_bounds(I, i, n)
    if not I.le(a, e) or not I.le(e, n):
        return None
    return ref(I.seq_slice(s, a, None if I.eqi(e, n) else e))


@method('core::ops::index::Index::index', 'alloc::vec::Vec', 'slice', 'array')
def _index(I, fn, args, dty):
    r = seq_index(I, args[0], args[1], 'index')
    if r is None:
        raise Panic('index out of bounds', (I.where(), 0))
    return r


@method('core::ops::index::IndexMut::index_mut', 'alloc::vec::Vec', 'slice', 'array')
def _indexmut(I, fn, args, dty):
    b = args[0]
    s = I.getf(b)
    i = I.force(args[1])
    if not isinstance(i, (int, Lin)):
        raise Unknown('mutable subslice')
    if not I.lt(i, I.seq_len(s)):
        raise Panic('index out of bounds', (I.where(), 0))
    return Ref(b.cell, b.path + (('i', i),))


@model('core::slice::<impl [T]>::get')
def _get(I, fn, args, dty):
    return opt(dty, seq_index(I, args[0], args[1], 'get'))


@model('core::slice::<impl [T]>::get_unchecked')
def _getu(I, fn, args, dty):
    r = seq_index(I, args[0], args[1], 'get')
    if r is None:
        raise Unknown('get_unchecked out of bounds')
    return r


@model('core::slice::<impl [T]>::contains')
def _slcontains(I, fn, args, dty):
    s = I.deref_all(args[0])
    e = I.p.types[fn['self']]['e']
    for x in I.items(s):
        if val_eq(I, x, I.get(args[1]), e):
            return True
    return False


@model('core::slice::<impl [T]>::starts_with', 'core::slice::<impl [T]>::ends_with')
def _slsw(I, fn, args, dty):
    s, o = I.deref_all(args[0]), I.deref_all(args[1])
    e = I.p.types[fn['self']]['e']
    if not I.le(I.seq_len(o), I.seq_len(s)):
        return False
    pop = I.pop_front if fn['path'].endswith('starts_with') else I.pop_back
    n = 0
    while True:
        t0 = len(I.path.trail)
        b = pop(o)
        if b is None:
            return True
        a = pop(s)
        if a is None:
            return False
        if not val_eq(I, a[0], b[0], e):
            return False
        s, o = a[1], b[1]
        if len(I.path.trail) > t0:
            n += 1
            if n > I.loops:
                raise Cut('slice starts_with', True)


def val_eq(I, a, b, ty):
    """a == b for values of type ty"""
    t = I.p.types[ty]
    k = t['k']
    if k in ('int', 'uint'):
        return I.eqi(a, b)
    if k == 'bool':
        return I.force(a) == I.force(b)
    if k == 'char':
        return I.str_eq(I.force(a).t, I.force(b).t)
    if k == 'ref':
        return val_eq(I, I.get(I.force(a)), I.get(I.force(b)), t['e'])
    if k == 'str' or t.get('path') == 'alloc::string::String':
        return I.str_eq(I.text(a), I.text(b))
    if k in ('slice', 'array') or t.get('path') == 'alloc::vec::Vec':
        e = t['e'] if 'e' in t else t['args'][0]
        return seq_eq(I, I.force(a), I.force(b), e)
    if k == 'tuple':
        x, y = I.force(a), I.force(b)
        return all(val_eq(I, p, q, u) for p, q, u in zip(x.fs, y.fs, t['a']))
    m = I.method(ty, 'eq')
    if m is None:
        raise Unknown('no == for ' + t['s'])
    return bool(I.force(I.call(m, [ref(a), ref(b)])))


def seq_eq(I, s, o, e):
    if isinstance(s, Str) and isinstance(o, Str):
        return I.str_eq(s.t, o.t)
    n, m = I.seq_len(s), I.seq_len(o)
    if not I.eqi(n, m):
        return False
    k = 0
    while True:
        t0 = len(I.path.trail)
        a = I.pop_front(s)
        if a is None:
            return True
        b = I.pop_front(o)
        if b is None:
            return False
        if not val_eq(I, a[0], b[0], e):
            return False
        s, o = a[1], b[1]
        if len(I.path.trail) > t0:
            k += 1
            if k > I.loops:
                raise Cut('slice equality', True)


@method('core::cmp::PartialEq::eq', 'alloc::vec::Vec', 'slice', 'array', 'alloc::boxed::Box')
def _seqeq(I, fn, args, dty):
    st = I.p.types[fn['self']]
    a, b = I.getf(args[0]), I.getf(args[1])
    if isinstance(a, BoxV):
        return val_eq(I, a.cell.v, b.cell.v, st['args'][0])
    while isinstance(b, (Ref, BoxV)):
        b = I.getf(b)
    e = st['e'] if 'e' in st else st['args'][0]
    return seq_eq(I, a, b, e)


def val_cmp(I, a, b, ty):
    """-1/0/1/None through the type's partial_cmp"""
    t = I.p.types[ty]
    k = t['k']
    if k in ('int', 'uint', 'bool'):
        return I.cmpi(I.force(a), I.force(b))
    if k == 'char':
        return I.str_cmp(I.force(a).t, I.force(b).t)
    if k == 'ref':
        return val_cmp(I, I.get(I.force(a)), I.get(I.force(b)), t['e'])
    if k == 'str' or t.get('path') == 'alloc::string::String':
        return I.str_cmp(I.text(a), I.text(b))
    if k in ('slice', 'array') or t.get('path') == 'alloc::vec::Vec':
        e = t['e'] if 'e' in t else t['args'][0]
        return seqs_cmp(I, I.force(a), I.force(b), e)
    m = I.method(ty, 'pcmp')
    if m is None:
        raise Unknown('no order for ' + t['s'])
    r = I.force(I.call(m, [ref(a), ref(b)]))
    if r.v == 0:
        return None
    return I.force(r.fs[0]).v - 1


def seqs_cmp(I, s, o, e):
    if isinstance(s, Str) and isinstance(o, Str):
        return I.str_cmp(s.t, o.t)
    return seq_cmp(I, s, o, e)


def seq_cmp(I, s, o, e):
    k = 0
    while True:
        t0 = len(I.path.trail)
        a, b = I.pop_front(s), I.pop_front(o)
        if a is None or b is None:
            return (a is not None) - (b is not None)
        r = val_cmp(I, a[0], b[0], e)
        if r != 0:
            return r
        s, o = a[1], b[1]
        if len(I.path.trail) > t0:
            k += 1
            if k > I.loops:
                raise Cut('slice comparison', True)


@method('core::cmp::PartialOrd::partial_cmp', 'alloc::vec::Vec', 'slice', 'array')
def _seqpc(I, fn, args, dty):
    st = I.p.types[fn['self']]
    e = st['e'] if 'e' in st else st['args'][0]
    r = seqs_cmp(I, I.getf(args[0]), I.getf(args[1]), e)
    return opt(dty, None if r is None else I.ordering(r))


@method('core::cmp::Ord::cmp', 'alloc::vec::Vec', 'slice', 'array')
def _seqoc(I, fn, args, dty):
    st = I.p.types[fn['self']]
    e = st['e'] if 'e' in st else st['args'][0]
    return I.ordering(seqs_cmp(I, I.getf(args[0]), I.getf(args[1]), e))


# ------------------------------------------------------------------ iterators
# X('iter', (Seq, kind))  kind 'ref' (yields references) or 'val'
@model('core::slice::<impl [T]>::iter')
def _iter(I, fn, args, dty):
    return X('iter', (I.deref_all(args[0]), 'ref'))


@model('core::slice::<impl [T]>::iter_mut')
def _itermut(I, fn, args, dty):
    s = I.getf(args[0])
    n = len(I.items(s))
    I.set(args[0], Seq(tuple(('i', x) for x in I.items(s))))
    return X('iter', (Seq(tuple(('i', Ref(args[0].cell, args[0].path + (('i', i),))) for i in range(n))), 'val'))


@model('core::slice::<impl [T]>::windows', 'core::slice::<impl [T]>::chunks')
def _windows(I, fn, args, dty):
    xs = I.items(I.deref_all(args[0]))
    k = I.force(args[1])
    if not isinstance(k, int) or k == 0:
        raise Unknown('windows')
    if fn['path'].endswith('windows'):
        ws = [xs[i:i + k] for i in range(len(xs) - k + 1)]
    else:
        ws = [xs[i:i + k] for i in range(0, len(xs), k)]
    return X('iter', (Seq(tuple(('i', ref(Seq(tuple(('i', y) for y in w)))) for w in ws)), 'val'))


@model("<&'a alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
       "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a [T]>::into_iter",
       "<&'a [T] as core::iter::traits::collect::IntoIterator>::into_iter",
       "core::array::<impl core::iter::traits::collect::IntoIterator for &'a [T; N]>::into_iter")
def _refinto(I, fn, args, dty):
    return X('iter', (I.deref_all(args[0]), 'ref'))


@method('core::iter::traits::collect::IntoIterator::into_iter', 'alloc::vec::Vec', 'array', 'alloc::boxed::Box')
def _vecinto(I, fn, args, dty):
    v = I.force(args[0])
    if isinstance(v, BoxV):
        v = I.force(v.cell.v)
    if not isinstance(v, Seq):
        return NotImplemented
    return X('iter', (v, 'val'))


@model('<I as core::iter::traits::collect::IntoIterator>::into_iter')
def _idinto(I, fn, args, dty):
    return args[0]


ITERS = ('core::slice::iter::Iter', 'core::slice::Iter', 'alloc::vec::into_iter::IntoIter', 'alloc::vec::IntoIter',
         'core::slice::iter::IterMut', 'core::array::iter::IntoIter', 'alloc::vec::drain::Drain', 'core::str::iter::Split',
         'core::str::iter::SplitN', 'core::str::iter::RSplit', 'core::str::iter::RSplitN', 'core::str::iter::SplitTerminator',
         'core::str::iter::Chars', 'core::str::iter::CharIndices', 'core::str::iter::Bytes', 'core::ops::range::Range',
         'core::ops::range::RangeInclusive', 'core::ops::range::RangeFrom', 'regex::re_unicode::Matches', 'core::slice::iter::Windows',
         'core::slice::iter::Chunks', 'core::str::iter::SplitWhitespace', 'core::str::iter::Lines', 'core::str::iter::SplitInclusive',
         'regex::re_unicode::CaptureMatches', 'regex::re_unicode::Split', 'core::str::iter::MatchIndices', 'core::str::iter::Matches',
         'std::collections::hash::set::Iter', 'std::collections::hash::set::IntoIter', 'std::collections::hash::map::Iter', 'std::collections::hash::map::IntoIter',
         'std::collections::hash::map::Drain')


def it_next(I, it, back=False):
    """one step of a library iterator value: (item or None, new iterator value)"""
    it = I.force(it)
    if isinstance(it, Adt):                       # ranges
        p = I.p.types[it.ty]['path']
        if p.endswith('RangeFrom'):
            a = I.force(it.fs[0])
            return a, Adt(it.ty, 0, (I.add(a, 1),))
        if p.endswith('RangeInclusive'):
            a, b, ex = I.force(it.fs[0]), I.force(it.fs[1]), I.force(it.fs[2])
            if ex or not I.le(a, b):
                return None, it
            if I.eqi(a, b):
                return a, Adt(it.ty, 0, (a, b, True))
            if back:
                return b, Adt(it.ty, 0, (a, I.add(b, -1), False))
            return a, Adt(it.ty, 0, (I.add(a, 1), b, False))
        a, b = I.force(it.fs[0]), I.force(it.fs[1])
        if not I.lt(a, b):
            return None, it
        if back:
            b = I.add(b, -1)
            return b, Adt(it.ty, 0, (a, b))
        return a, Adt(it.ty, 0, (I.add(a, 1), b))
    if not isinstance(it, X):
        raise Unknown('iterator %r' % (it,))
    k = it.kind
    if k == 'iter':
        s, kind = it.a
        r = I.pop_back(s) if back else I.pop_front(s)
        if r is None:
            return None, X('iter', (Seq(()), kind))
        if kind == 'unord' and not I.calm and I.pop_front(r[1]) is not None:
            I.taint('order of a hash map or set')
        return (ref(r[0]) if kind == 'ref' else r[0]), X('iter', (r[1], kind))
    f = ITNEXT.get(k)
    if f is None:
        raise Unknown('iterator ' + k)
    return f(I, it, back)


ITNEXT = {}


def itnext(kind):
    def deco(f):
        ITNEXT[kind] = f
        return f
    return deco


for _p in ITERS:
    @method('core::iter::traits::iterator::Iterator::next', _p)
    def _next(I, fn, args, dty):
        r, it = it_next(I, I.getf(args[0]))
        I.set(args[0], it)
        return opt(dty, r)

    @method('core::iter::traits::double_ended::DoubleEndedIterator::next_back', _p)
    def _nextb(I, fn, args, dty):
        r, it = it_next(I, I.getf(args[0]), True)
        I.set(args[0], it)
        return opt(dty, r)

    @method('core::iter::traits::collect::IntoIterator::into_iter', _p)
    def _into(I, fn, args, dty):
        return args[0]

    @method('core::iter::traits::exact_size::ExactSizeIterator::len', _p)
    def _eslen(I, fn, args, dty):
        v = I.getf(args[0])
        if isinstance(v, X) and v.kind == 'iter':
            return I.seq_len(v.a[0])
        if isinstance(v, Adt):
            return I.arith('Sub', I.force(v.fs[1]), I.force(v.fs[0]), dty)[0] if not (isinstance(v.fs[0], int) and isinstance(v.fs[1], int)) else max(0, v.fs[1] - v.fs[0])
        raise Unknown('len of iterator')


@model('core::slice::iter::Iter::<\'a, T>::as_slice', 'alloc::vec::into_iter::IntoIter::<T, A>::as_slice')
def _itas(I, fn, args, dty):
    return ref(I.getf(args[0]).a[0])


class Stepper:
    """drives an iterator value of any type through its next()"""

    def __init__(self, I, v, ty, back=False):
        self.I, self.ty, self.back = I, ty, back
        self.cell = Cell(v)
        self.n = 0
        self.total = 0
        self.ref = None
        t = I.p.types[ty]
        if t['k'] == 'ref':                       # by_ref()
            self.ref = I.force(v)
            self.ty = t['e']

    calm = False

    def next(self):
        """(True, item) or (False, None)"""
        if not self.calm:
            return self.step()
        was, self.I.calm = self.I.calm, True
        try:
            return self.step()
        finally:
            self.I.calm = was

    def step(self):
        I = self.I
        t0 = len(I.path.trail)
        r = self.ref or Ref(self.cell, ())
        p = I.p.types[self.ty].get('path') if self.ty is not None else None
        if p in ITERS or self.ty is None:
            x, it = it_next(I, I.getf(r), self.back)
            I.set(r, it)
            out = (x is not None, x)
        else:
            m = I.method(self.ty, 'next_back' if self.back else 'next')
            if m is None and self.total == 0 and not self.ref and I.p.types[self.ty].get('path') == 'core::option::Option':
                o = I.force(self.cell.v)
                self.cell.v, self.ty = X('iter', (Seq(()) if o.v == 0 else Seq((('i', o.fs[0]),)), 'val')), None
                return self.step()
            if m is None:
                raise Unknown('no next() for ' + I.p.types[self.ty]['s'])
            o = I.force(I.call(m, [r]))
            out = (o.v == 1, o.fs[0] if o.v == 1 else None)
        if out[0]:
            self.total += 1
            if self.total > 3000:
                raise Unknown('unbounded iterator')
            if len(I.path.trail) > t0:
                self.n += 1
                if self.n > I.loops:
                    raise Cut('iteration in ' + I.where(), True)
        return out


def drain(I, v, ty):
    st = Stepper(I, v, ty)
    st.calm = I.calm
    out = []
    while True:
        ok, x = st.next()
        if not ok:
            return out
        out.append(x)


def bulk(I, v, ty):
    """segments of an iterator that moves whole sequences, or None"""
    v = I.force(v)
    p = I.p.types[ty].get('path')
    if isinstance(v, X) and v.kind == 'iter' and v.a[1] == 'val':
        return v.a[0].segs
    if p == 'core::iter::adapters::chain::Chain':
        out = ()
        for o, a in zip(v.fs, I.p.types[ty]['args']):
            o = I.force(o)
            if o.v == 1:
                b = bulk(I, o.fs[0], a)
                if b is None:
                    return None
                out += b
        return out
    if isinstance(v, Seq):
        return v.segs
    return None


def iter_ty(I, fn, args, idx=0):
    """type of the iterator value in args"""
    return fn['self']


@method('core::iter::traits::collect::FromIterator::from_iter', 'alloc::vec::Vec')
def _fromiter(I, fn, args, dty):
    ity = fn['args'][-1]
    b = bulk(I, args[0], ity)
    if b is not None:
        return Seq(b)
    v = args[0]
    m = I.method(ity, 'into_iter')
    return Seq(tuple(('i', x) for x in into_items(I, v, ity)))


def into_items(I, v, ity):
    t = I.p.types[ity]
    p = t.get('path')
    w = I.force(v)
    if isinstance(w, Seq):
        xs = I.items(w)
        if p and '::hash::' in p and len(xs) > 1 and not I.calm:
            I.taint('order of a hash map or set')
        return xs
    if t['k'] == 'ref':
        e = I.p.types[t['e']]
        if e.get('path') == 'alloc::vec::Vec' or e['k'] in ('slice', 'array'):
            return [ref(x) for x in I.items(I.deref_all(w))]
    return drain(I, v, ity)


@method('core::iter::traits::collect::Extend::extend', 'alloc::vec::Vec')
def _extend(I, fn, args, dty):
    s = I.getf(args[0])
    ity = fn['args'][-1]
    b = bulk(I, args[1], ity)
    if b is None:
        t = I.p.types[ity]
        xs = into_items(I, args[1], ity)
        if t['k'] == 'ref':
            xs = [I.get(x) for x in xs]
        elif xs and fn['path'].find('&') >= 0:
            xs = [I.get(x) for x in xs]
        b = tuple(('i', x) for x in xs)
    I.set(args[0], Seq(s.segs + b))
    return UNIT


@method('core::iter::traits::collect::FromIterator::from_iter', 'alloc::string::String')
def _strfrom(I, fn, args, dty):
    xs = into_items(I, args[0], fn['args'][-1])
    return Str(cat([I.text(x) for x in xs]))


IT = 'core::iter::traits::iterator::Iterator::'
DIT = 'core::iter::traits::double_ended::DoubleEndedIterator::'


# what these answer does not depend on the order of the elements
ORDERFREE = ('any', 'all', 'count', 'sum', 'product', 'len', 'size_hint', 'max', 'min')


def consuming(name, by_ref=False, back=False):
    def deco(f):
        def m(I, fn, args, dty):
            v = args[0]
            if by_ref:
                st = Stepper(I, None, fn['self'], back)
                st.ref = I.force(v)
                if I.p.types[fn['self']]['k'] == 'ref':
                    st.ref = I.force(I.get(st.ref))
                    st.ty = I.p.types[fn['self']]['e']
            else:
                st = Stepper(I, v, fn['self'], back)
            st.calm = name in ORDERFREE
            return f(I, st, args, dty, fn)
        TRAITS[(DIT if back else IT) + name] = m
        FORCE_TRAITS.add((DIT if back else IT) + name)
        return f
    return deco


@consuming('all', True)
def _all(I, st, args, dty, fn):
    while True:
        ok, x = st.next()
        if not ok:
            return True
        if not I.force(I.callv(args[1], [x])):
            return False


@consuming('any', True)
def _any(I, st, args, dty, fn):
    while True:
        ok, x = st.next()
        if not ok:
            return False
        if I.force(I.callv(args[1], [x])):
            return True


@consuming('find', True)
def _find(I, st, args, dty, fn):
    while True:
        ok, x = st.next()
        if not ok:
            return opt(dty, None)
        if I.force(I.callv(args[1], [ref(x)])):
            return opt(dty, x)


@consuming('rfind', True, True)
def _rfind(I, st, args, dty, fn):
    return _find(I, st, args, dty, fn)


@consuming('find_map', True)
def _findmap(I, st, args, dty, fn):
    while True:
        ok, x = st.next()
        if not ok:
            return Adt(dty, 0, ())
        r = I.force(I.callv(args[1], [x]))
        if r.v == 1:
            return r


@consuming('position', True)
def _position(I, st, args, dty, fn):
    i = 0
    while True:
        ok, x = st.next()
        if not ok:
            return Adt(dty, 0, ())
        if I.force(I.callv(args[1], [x])):
            return Adt(dty, 1, (i,))
        i += 1


@consuming('rposition', True, True)
def _rposition(I, st, args, dty, fn):
    raise Unknown('rposition')


@consuming('fold')
def _fold(I, st, args, dty, fn):
    acc = args[1]
    while True:
        ok, x = st.next()
        if not ok:
            return acc
        acc = I.callv(args[2], [acc, x])


@consuming('rfold', False, True)
def _rfold(I, st, args, dty, fn):
    return _fold(I, st, args, dty, fn)


@consuming('reduce')
def _reduce(I, st, args, dty, fn):
    ok, acc = st.next()
    if not ok:
        return Adt(dty, 0, ())
    while True:
        ok, x = st.next()
        if not ok:
            return Adt(dty, 1, (acc,))
        acc = I.callv(args[1], [acc, x])


@consuming('for_each')
def _foreach(I, st, args, dty, fn):
    while True:
        ok, x = st.next()
        if not ok:
            return UNIT
        I.callv(args[1], [x])


def try_out(I, dty, r):
    """(continues, value) of a Try value: Option, Result, ControlFlow"""
    r = I.force(r)
    p = I.p.types[r.ty if r.ty is not None else dty]['path']
    if p == 'core::option::Option':
        return r.v == 1, r.fs[0] if r.fs else UNIT
    return r.v == 0, r.fs[0] if r.fs else UNIT


def try_wrap(I, dty, v):
    p = I.p.types[dty]['path']
    return Adt(dty, 1 if p == 'core::option::Option' else 0, (v,))


@consuming('try_fold', True)
def _tryfold(I, st, args, dty, fn):
    acc = args[1]
    while True:
        ok, x = st.next()
        if not ok:
            return try_wrap(I, dty, acc)
        r = I.force(I.callv(args[2], [acc, x], dty))
        go, v = try_out(I, dty, r)
        if not go:
            return r
        acc = v


@consuming('try_for_each', True)
def _tryforeach(I, st, args, dty, fn):
    while True:
        ok, x = st.next()
        if not ok:
            return try_wrap(I, dty, UNIT)
        r = I.force(I.callv(args[1], [x], dty))
        if not try_out(I, dty, r)[0]:
            return r


@consuming('count')
def _count(I, st, args, dty, fn):
    v = I.force(args[0])
    if isinstance(v, X) and v.kind == 'iter':
        return I.seq_len(v.a[0])
    n = 0
    while st.next()[0]:
        n += 1
    return n


@consuming('last')
def _last(I, st, args, dty, fn):
    v = I.force(args[0])
    if isinstance(v, X) and v.kind == 'iter':
        return opt(dty, it_next(I, v, True)[0])
    r = None
    while True:
        ok, x = st.next()
        if not ok:
            return opt(dty, r)
        r = x


@consuming('nth', True)
def _nth(I, st, args, dty, fn):
    n = I.force(args[1])
    if not isinstance(n, int):
        it = I.getf(st.ref) if st.ref is not None and isinstance(st.ref, Ref) else None
        if not (isinstance(it, X) and it.kind == 'iter' and it.a[1] == 'ref'):
            raise Unknown('nth')
        r = seq_index(I, ref(it.a[0]), n, 'get')
        I.set(st.ref, X('iterated', ()))     # its later use is not followed
        return opt(dty, r)
    while True:
        ok, x = st.next()
        if not ok:
            return opt(dty, None)
        if n == 0:
            return opt(dty, x)
        n -= 1


@consuming('nth_back', True, True)
def _nthb(I, st, args, dty, fn):
    return _nth(I, st, args, dty, fn)


@consuming('sum')
def _sum(I, st, args, dty, fn):
    t = 0
    while True:
        ok, x = st.next()
        if not ok:
            return t
        x = I.deref_all(x)
        r = I.checked('Add', t, x, dty)
        if r.fs[1]:
            raise Panic('attempt to add with overflow', (I.where(), 0))
        t = r.fs[0]


def pair_steps(I, fn, args):
    a = Stepper(I, args[0], fn['self'])
    oty = fn['args'][-1]
    o = args[1]
    t = I.p.types[oty]
    w = I.force(o)
    if isinstance(w, Seq):
        oty, w = None, X('iter', (w, 'val'))
    elif t['k'] == 'ref' and isinstance(I.deref_all(w), Seq):
        oty, w = None, X('iter', (I.deref_all(w), 'ref'))
    if oty is None:
        b = Stepper.__new__(Stepper)
        b.I, b.ty, b.back, b.cell, b.n, b.total, b.ref = I, None, False, Cell(w), 0, 0, None

        def nx():
            x, it = it_next(I, b.cell.v)
            b.cell.v = it
            return (x is not None, x)
        b.next = nx
    else:
        b = Stepper(I, w, oty)
    return a, b


class _E(Exception):
    pass


def item_ty(I, fn):
    return None


def dyn_eq(I, a, b):
    """== on two values of the same unknown type"""
    a, b = I.deref_all(a), I.deref_all(b)
    if isinstance(a, (int, bool, Lin)):
        return I.eqi(a, b)
    if isinstance(a, (Str, Chr)):
        return I.str_eq(a.t, b.t)
    if isinstance(a, Adt) and a.ty is not None:
        return val_eq(I, a, b, a.ty)
    raise Unknown('== of iterator items')


def dyn_cmp(I, a, b, pc=True):
    a0 = a
    a, b = I.deref_all(a), I.deref_all(b)
    if isinstance(a, (int, bool, Lin)):
        return I.cmpi(a, b)
    if isinstance(a, (Str, Chr)):
        return I.str_cmp(a.t, b.t)
    if isinstance(a, Adt) and a.ty is not None:
        return val_cmp(I, a, b, a.ty)
    raise Unknown('order of iterator items')


@consuming('eq')
def _iteq(I, st, args, dty, fn):
    a, b = pair_steps(I, fn, args)
    while True:
        p, x = a.next()
        q, y = b.next()
        if not p or not q:
            return p == q
        if not dyn_eq(I, x, y):
            return False


@consuming('ne')
def _itne(I, st, args, dty, fn):
    return not _iteq(I, st, args, dty, fn)


def it_cmp(I, fn, args):
    a, b = pair_steps(I, fn, args)
    while True:
        p, x = a.next()
        if not p:
            q, y = b.next()
            return -1 if q else 0
        q, y = b.next()
        if not q:
            return 1
        r = dyn_cmp(I, x, y)
        if r != 0:
            return r


@consuming('partial_cmp')
def _itpc(I, st, args, dty, fn):
    r = it_cmp(I, fn, args)
    return opt(dty, None if r is None else I.ordering(r))


@consuming('cmp')
def _itcmp(I, st, args, dty, fn):
    return I.ordering(it_cmp(I, fn, args))


for _nm, _test in (('lt', lambda r: r == -1), ('le', lambda r: r in (-1, 0)), ('gt', lambda r: r == 1), ('ge', lambda r: r in (0, 1))):
    def _mk(test):
        def g(I, st, args, dty, fn):
            return test(it_cmp(I, fn, args))
        return g
    consuming(_nm)(_mk(_test))


def extremum(name, sign, key, tie_last):
    @consuming(name)
    def g(I, st, args, dty, fn):
        best = None
        while True:
            ok, x = st.next()
            if not ok:
                return opt(dty, None if best is None else best[0])
            if key == 'key':
                kx = I.callv(args[1], [ref(x)])
            else:
                kx = x
            if best is None:
                best = (x, kx)
                continue
            if key == 'by':
                r = I.force(I.callv(args[1], [ref(best[0]), ref(x)])).v - 1
            else:
                r = dyn_cmp(I, best[1], kx)
            if r is None:
                raise Unknown('order')
            r *= sign
            if r < 0 or r == 0 and tie_last:
                best = (x, kx)


for _nm, _s, _t in (('max', 1, True), ('min', -1, False)):
    extremum(_nm, _s, None, _t)
    extremum(_nm + '_by_key', _s, 'key', _t)
    extremum(_nm + '_by', _s, 'by', _t)


def exact_len(I, v, ty):
    """how many elements an iterator still has, or None where that is not a plain function of its state"""
    v = I.force(v)
    t = I.p.types[ty]
    p = t.get('path') or ''
    if t['k'] == 'ref':
        return exact_len(I, I.get(v), t['e'])
    if isinstance(v, X) and v.kind == 'iter':
        return I.seq_len(v.a[0])
    if isinstance(v, X) and v.kind == 'zip':
        a, b = exact_len(I, v.a[0], v.a[1]), exact_len(I, v.a[2], v.a[3])
        return None if a is None or b is None else a if I.le(a, b) else b
    if not isinstance(v, Adt) or v.ty is None or not p.startswith('core::'):
        return None
    fs = dict((f[0], (x, f[1])) for f, x in zip(t['v'][v.v]['f'], v.fs)) if t.get('v') else {}
    last = p.split('::')[-1]
    if last == 'Peekable':
        n = exact_len(I, *fs['iter'])
        o = I.force(fs['peeked'][0])
        if n is None or o.v == 0:
            return n
        return I.add(n, 1) if I.force(o.fs[0]).v == 1 else 0
    if last in ('Rev', 'Map', 'Enumerate', 'Copied', 'Cloned', 'Inspect'):
        return exact_len(I, *fs['iter'])
    if last == 'Fuse':
        o = I.force(fs['iter'][0])
        return 0 if o.v == 0 else exact_len(I, o.fs[0], I.p.types[fs['iter'][1]]['args'][0])
    if last in ('Skip', 'Take'):
        n = exact_len(I, *fs['iter'])
        k = I.force(fs['n'][0])
        if n is None:
            return None
        if I.le(n, k):
            return 0 if last == 'Skip' else n
        return k if last == 'Take' else I.arith('Sub', n, k, usize_ty(I))[0]
    if last == 'Chain':
        r = 0
        for name in ('a', 'b'):
            o = I.force(fs[name][0])
            if o.v == 1:
                n = exact_len(I, o.fs[0], I.p.types[fs[name][1]]['args'][0])
                if n is None:
                    return None
                r = I.add(r, n) if isinstance(n, int) or isinstance(r, int) else None
                if r is None:
                    return None
        return r
    if last in ('Once', 'IntoIter', 'Empty') or 'option' in p:
        return None
    return None


def usize_ty(I):
    for i, t in enumerate(I.p.types):
        if t['k'] == 'uint' and t['bits'] == 64:
            return i
    return None


@consuming('size_hint', True)
def _sizehint(I, st, args, dty, fn):
    n = exact_len(I, I.get(st.ref), st.ty)
    oty = I.p.types[dty]['a'][1] if 'a' in I.p.types[dty] else None
    if n is not None:
        return Tup((n, Adt(oty, 1, (n,))))
    I.taint('size_hint')
    t = ('hint', I.key(I.get(st.ref)))
    RANGES.setdefault(t, (0, None))
    return Tup((Lin(t, 0), Adt(oty, 0, ())))


@consuming('len', True)
def _exactlen(I, st, args, dty, fn):
    n = exact_len(I, I.get(st.ref), st.ty)
    if n is None:
        raise Unknown('len of iterator')
    return n


for _s in (TRAITS, ):
    _s['core::iter::traits::exact_size::ExactSizeIterator::len'] = _s.pop(IT + 'len')
FORCE_TRAITS.discard(IT + 'len')
FORCE_TRAITS.add('core::iter::traits::exact_size::ExactSizeIterator::len')


@consuming('partition')
def _partition(I, st, args, dty, fn):
    a, b = [], []
    while True:
        ok, x = st.next()
        if not ok:
            return Tup((Seq(tuple(('i', y) for y in a)), Seq(tuple(('i', y) for y in b))))
        (a if I.force(I.callv(args[1], [ref(x)])) else b).append(x)


@consuming('advance_by', True)
def _advance(I, st, args, dty, fn):
    raise Unknown('advance_by')


# zip: TrustedRandomAccess specialisation is avoided
@model('core::iter::adapters::zip::Zip::<A, B>::new')
def _zipnew(I, fn, args, dty):
    return X('zip', (args[0], fn['args'][0], args[1], fn['args'][1]))


@model('core::iter::adapters::zip::zip')
def _zip(I, fn, args, dty):
    raise Unknown('zip()')


@method('core::iter::traits::iterator::Iterator::next', 'core::iter::adapters::zip::Zip')
def _zipnext(I, fn, args, dty):
    z = I.getf(args[0])
    a = Stepper(I, z.a[0], z.a[1])
    b = Stepper(I, z.a[2], z.a[3])
    p, x = a.next()
    q, y = (False, None)
    if p:
        q, y = b.next()
    I.set(args[0], X('zip', (a.cell.v, z.a[1], b.cell.v, z.a[3])))
    return opt(dty, Tup((x, y)) if p and q else None)


@method('core::iter::traits::collect::IntoIterator::into_iter', 'core::iter::adapters::zip::Zip')
def _zipinto(I, fn, args, dty):
    return args[0]


# ------------------------------------------------------------------ strings
def cat(ts):
    out = []
    for t in ts:
        for u in (t[1] if t[0] == 'cat' else (t,)):
            if u[0] == 'lit' and u[1] == '':
                continue
            if u[0] == 'lit' and out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + u[1])
            else:
                out.append(u)
    if not out:
        return ('lit', '')
    return out[0] if len(out) == 1 else ('cat', tuple(out))


S = 'core::str::<impl str>::'
AS = 'alloc::str::<impl str>::'


@model(S + 'len', 'alloc::string::String::len')
def _slen(I, fn, args, dty):
    return I.blen(I.text(args[0]))


@model(S + 'is_empty', 'alloc::string::String::is_empty')
def _sempty(I, fn, args, dty):
    return I.in_lang(I.text(args[0]), L.EPS)


@model('alloc::string::String::new')
def _snew(I, fn, args, dty):
    return Str(('lit', ''))


@model('alloc::string::String::with_capacity')
def _scap(I, fn, args, dty):
    return Str(('lit', ''))


@method('core::default::Default::default', 'alloc::string::String')
def _sdef(I, fn, args, dty):
    return Str(('lit', ''))


@model('core::str::<impl core::default::Default for &str>::default')
def _strdef(I, fn, args, dty):
    return lit('')


@model('alloc::string::ToString::to_string', '<T as alloc::string::ToString>::to_string')
def _tostring(I, fn, args, dty):
    try:
        return Str(I.text(args[0]))
    except Unknown:
        pass
    return Str(display(I, args[0], fn['self']))


@model('alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned', '<str as alloc::borrow::ToOwned>::to_owned',
       '<alloc::string::String as core::convert::From<&str>>::from', AS + 'into_string', 'alloc::string::String::into_boxed_str',
       '<alloc::string::String as core::convert::From<char>>::from', AS + 'to_string', AS + 'into_boxed_str',
       '<alloc::string::String as core::convert::From<&alloc::string::String>>::from', '<alloc::string::String as core::convert::From<&mut str>>::from',
       '<alloc::string::String as core::str::traits::FromStr>::from_str_')
def _own(I, fn, args, dty):
    return Str(I.text(args[0]))


@model('<T as core::convert::From<T>>::from', '<T as core::convert::Into<U>>::into_same')
def _fromself(I, fn, args, dty):
    return args[0]


@method('core::convert::From::from', 'alloc::string::String')
def _sfrom(I, fn, args, dty):
    return Str(I.text(args[0]))


@method('core::cmp::PartialEq::eq', 'str', 'alloc::string::String', 'alloc::borrow::Cow')
def _seq(I, fn, args, dty):
    return I.str_eq(I.text(args[0]), I.text(args[1]))


@method('core::cmp::PartialEq::ne', 'str', 'alloc::string::String', 'alloc::borrow::Cow')
def _sne(I, fn, args, dty):
    return not I.str_eq(I.text(args[0]), I.text(args[1]))


@method('core::cmp::PartialOrd::partial_cmp', 'str', 'alloc::string::String')
def _spc(I, fn, args, dty):
    return opt(dty, I.ordering(I.str_cmp(I.text(args[0]), I.text(args[1]))))


@method('core::cmp::Ord::cmp', 'str', 'alloc::string::String')
def _soc(I, fn, args, dty):
    return I.ordering(I.str_cmp(I.text(args[0]), I.text(args[1])))


for _nm, _t in (('lt', lambda r: r < 0), ('le', lambda r: r <= 0), ('gt', lambda r: r > 0), ('ge', lambda r: r >= 0)):
    def _mk2(t):
        def g(I, fn, args, dty):
            return t(I.str_cmp(I.text(args[0]), I.text(args[1])))
        return g
    method('core::cmp::PartialOrd::' + _nm, 'str', 'alloc::string::String')(_mk2(_t))


# ---- patterns: ('chars', set) | ('text', string)
def sought(I, u, within):
    """the unknown text u as one to look for: decided word by word if there are few"""
    w = I.word(u)
    if w is not None:
        return w
    whole = I.word(I.text(within)) if within is not None else None
    l = I.f.get_lang(u)
    if whole is not None:
        parts = L.factors(L.L_lit(whole), L.ALL, L.ALL)
        if not I.in_lang(u, parts):
            return whole + '\0'
        l = l & parts
    ws = l.finite(40)
    if ws is None:
        raise Unknown('symbolic pattern')
    for w in ws:
        if I.in_lang(u, L.L_lit(w)):
            return w
    raise Infeasible()


def pattern(I, v, within=None):
    v = I.force(v)
    if isinstance(v, Chr):
        w = sought(I, v.t, within)
        return ('chars', L.cs_of(w)) if len(w) == 1 else ('text', w)
    if isinstance(v, (Clo, Fnd, FnPtr)):
        return ('chars', closure_set(I, v))
    if isinstance(v, Seq):
        ws = [I.word(I.force(x).t) for x in I.items(v)]
        if None in ws:
            raise Unknown('symbolic pattern')
        return ('chars', L.cs_of(''.join(ws)))
    if isinstance(v, Ref):
        w = I.deref_all(v)
        if isinstance(w, Seq):
            return pattern(I, w, within)
        if isinstance(w, (Clo, Fnd, FnPtr)):
            return ('chars', closure_set(I, v if isinstance(w, Clo) else w))
        if isinstance(w, Chr):
            return pattern(I, w, within)
        if isinstance(w, Str):
            s = sought(I, w.t, within)
            if len(s) == 1:
                return ('chars', L.cs_of(s))
            return ('text', s)
    raise Unknown('pattern %r' % (v,))


def closure_set(I, v):
    """characters a predicate accepts, by exploring it on an unknown character"""
    from .interp import explore, Interp
    k = ('cset', I.key(v))
    c = getattr(I.p, '_csets', None)
    if c is None:
        c = I.p._csets = {}
    if k in c:
        if c[k] is None:
            raise Unknown('predicate')
        return c[k]
    out = ()
    t = ('patchar', 0)
    BASELANG[t] = L.L_chars(L.ANY)
    good = True
    for r in explore(I.p, I.models, lambda J: bool(J.force(J.callv(v, [Chr(t)]))), loops=I.loops, limit=500):
        if r.kind != 'ret' or not r.exact:
            good = False
            break
        if r.val:
            out = L.cs_or(out, r.interp.f.get_lang(t).alphabet())
    c[k] = out if good else None
    if not good:
        raise Unknown('predicate')
    return out


def pat_lang(p):
    return L.L_chars(p[1]) if p[0] == 'chars' else L.L_lit(p[1])


@model(S + 'contains')
def _contains(I, fn, args, dty):
    p = pattern(I, args[1], args[0])
    return I.in_lang(I.text(args[0]), L.ALL + pat_lang(p) + L.ALL)


@model(S + 'starts_with')
def _starts(I, fn, args, dty):
    t = I.text(args[0])
    try:
        p = pattern(I, args[1], args[0])
    except Unknown:
        return sym_prefix(I, t, args[1], 'start')
    return I.in_lang(t, pat_lang(p) + L.ALL)


@model(S + 'ends_with')
def _ends(I, fn, args, dty):
    t = I.text(args[0])
    try:
        p = pattern(I, args[1], args[0])
    except Unknown:
        return sym_prefix(I, t, args[1], 'end')
    return I.in_lang(t, L.ALL + pat_lang(p))


def sym_prefix(I, t, arg, side):
    """does t begin (end) with the unknown text u: equal, longer, or neither (with either order)"""
    u = I.text(arg)
    if u == t or I.in_lang(u, L.EPS):
        return True
    if t[0] == 'cat' and t[1][0 if side == 'start' else -1] == u:
        return True
    key = ('prefix', t, u, side)
    A = I.f.atoms
    if key in A:
        return A[key]
    ft, fu = I.f.get_lang(t), I.f.get_lang(u)
    some = L.L_chars(L.ANY) + L.ALL
    longer = fu + some if side == 'start' else some + fu
    if (ft & longer).is_empty() or I.in_lang(t, L.EPS):
        return I.str_eq(t, u)
    x, y = I.rank(t), I.rank(u)
    if not (plain(t) and plain(u)) or any(x in k and y not in k and Z not in k or y in k and x not in k and Z not in k for k in I.f.d):
        I.taint('a text that may begin or end with another')
    k = I.choose(4, key)
    if k == 0:
        if not I.str_eq(t, u):
            raise Infeasible()
    elif k == 1:
        if I.str_eq(t, u):
            raise Infeasible()
        I.f.assume_lang(t, longer)
        if side == 'start':
            I.f.add_le(y, 1, x, 0)
    else:
        if I.str_eq(t, u):
            raise Infeasible()
        I.f.add_le(*((x, 1, y, 0) if k == 2 else (y, 1, x, 0)))
    A[key] = k < 2
    return A[key]


def plain(t):
    while t[0] == 'f':
        t = t[1]
    return t[0] == 'sv'


def prefixes_ok(I):
    """do the languages reached later still allow what was decided about prefixes"""
    for k, v in I.f.atoms.items():
        if k[0] == 'prefix':
            t, u, side = k[1:]
            a, b = I.word(t), I.word(u)
            if a is not None and b is not None and v != (a.startswith(b) if side == 'start' else a.endswith(b)):
                return False
            fu = I.f.get_lang(u)
            if v and (I.f.get_lang(t) & (fu + L.ALL if side == 'start' else L.ALL + fu)).is_empty():
                return False
    return True


@model(S + 'strip_prefix', S + 'strip_suffix')
def _stripp(I, fn, args, dty):
    t = I.text(args[0])
    p = pattern(I, args[1], args[0])
    side = 'start' if fn['path'].endswith('prefix') else 'end'
    pl = pat_lang(p)
    if not I.in_lang(t, pl + L.ALL if side == 'start' else L.ALL + pl):
        return Adt(dty, 0, ())
    w = p[1] if p[0] == 'text' else None
    if w is None:
        cs = p[1]
        one = L.L_chars(cs).finite(1)
        if one is None:
            # several characters: fork on which
            for a, b in cs:
                for c in range(a, min(b, a + 64) + 1):
                    if I.in_lang(t, L.L_lit(chr(c)) + L.ALL if side == 'start' else L.ALL + L.L_lit(chr(c))):
                        return Adt(dty, 1, (ref(Str(strip(I, t, side, chr(c)))),))
            raise Unknown('strip')
        w = one[0]
    return Adt(dty, 1, (ref(Str(strip(I, t, side, w))),))


def strip(I, t, side, s):
    if s == '':
        return t
    if t[0] == 'lit':
        return ('lit', t[1][len(s):] if side == 'start' else t[1][:len(t[1]) - len(s)])
    if t[0] == 'cat':
        xs = list(t[1])
        i = 0 if side == 'start' else -1
        x = xs[i]
        if x[0] == 'lit' and (x[1].startswith(s) if side == 'start' else x[1].endswith(s)):
            xs[i] = ('lit', x[1][len(s):] if side == 'start' else x[1][:-len(s)])
            return cat(xs)
    if t[0] == 'strip' and t[2] == side:
        return ('strip', t[1], side, t[3] + s if side == 'start' else s + t[3])
    w = I.word(t)
    if w is not None:
        return ('lit', w[len(s):] if side == 'start' else w[:len(w) - len(s)])
    return ('strip', t, side, s)


def dropend(I, t, k):
    """t without its last k bytes (char boundary already checked)"""
    if k == 0:
        return t
    w = I.word(t)
    if w is not None:
        return ('lit', w.encode()[:-k].decode())
    l = L.lquot(L.ALL, I.f.get_lang(t)) & L.L_utf8(k)
    ws = l.finite(2)
    if ws is not None and len(ws) == 1:
        return strip(I, t, 'end', ws[0])
    if t[0] == 'dropend':
        return ('dropend', t[1], t[2] + k)
    return ('dropend', t, k)


def dropstart(I, t, k):
    if k == 0:
        return t
    w = I.word(t)
    if w is not None:
        return ('lit', w.encode()[k:].decode())
    l = L.rquot(I.f.get_lang(t), L.ALL) & L.L_utf8(k)
    ws = l.finite(2)
    if ws is not None and len(ws) == 1:
        return strip(I, t, 'start', ws[0])
    if t[0] == 'dropstart':
        return ('dropstart', t[1], t[2] + k)
    return ('dropstart', t, k)


def takestart(I, t, k):
    if k == 0:
        return ('lit', '')
    l = L.rquot(I.f.get_lang(t), L.ALL) & L.L_utf8(k)
    ws = l.finite(2)
    if ws is not None and len(ws) == 1:
        return ('lit', ws[0])
    return ('takestart', t, k)


TRIM = {'trim': 'both', 'trim_start': 'start', 'trim_end': 'end', 'trim_left': 'start', 'trim_right': 'end',
        'trim_matches': 'both', 'trim_start_matches': 'start', 'trim_end_matches': 'end',
        'trim_left_matches': 'start', 'trim_right_matches': 'end'}


def trim_lang(side, cs):
    c = L.L_chars(cs)
    bad = L.EMPTY
    if side in ('both', 'start'):
        bad = bad | (c + L.ALL)
    if side in ('both', 'end'):
        bad = bad | (L.ALL + c)
    return ~bad


def trim_term(I, t, side, cs):
    if I.f.get_lang(t) <= trim_lang(side, cs):
        return t
    w = I.word(t)
    if w is not None:
        a, b = 0, len(w)
        if side in ('both', 'start'):
            while a < b and L.cs_has(cs, ord(w[a])):
                a += 1
        if side in ('both', 'end'):
            while b > a and L.cs_has(cs, ord(w[b - 1])):
                b -= 1
        return ('lit', w[a:b])
    if t[0] == 'trim' and t[3] == cs:
        s = {t[2], side}
        return ('trim', t[1], t[2] if len(s) == 1 else 'both', cs)
    if t[0] == 'cat':
        xs = list(t[1])
        if side in ('both', 'start'):
            while xs and (xs[0][0] == 'lit' or I.f.get_lang(xs[0]) <= L.L_chars(cs).star()):
                if I.f.get_lang(xs[0]) <= L.L_chars(cs).star():
                    xs.pop(0)
                    continue
                s = xs[0][1]
                while s and L.cs_has(cs, ord(s[0])):
                    s = s[1:]
                xs[0] = ('lit', s)
                break
        if side in ('both', 'end'):
            while xs and (xs[-1][0] == 'lit' or I.f.get_lang(xs[-1]) <= L.L_chars(cs).star()):
                if I.f.get_lang(xs[-1]) <= L.L_chars(cs).star():
                    xs.pop()
                    continue
                s = xs[-1][1]
                while s and L.cs_has(cs, ord(s[-1])):
                    s = s[:-1]
                xs[-1] = ('lit', s)
                break
        u = cat(xs)
        if I.f.get_lang(u) <= trim_lang(side, cs):
            return u
        return ('trim', u, side, cs)
    return ('trim', t, side, cs)


for _n, _side in TRIM.items():
    def _mk3(side, pat):
        def g(I, fn, args, dty):
            t = I.text(args[0])
            if not pat:
                return ref(Str(trim_term(I, t, side, L.SPACE)))
            p = pattern(I, args[1], args[0])
            if p[0] == 'chars':
                return ref(Str(trim_term(I, t, side, p[1])))
            # repeated literal
            for _ in range(I.loops):
                if side != 'end' and I.in_lang(t, L.L_lit(p[1]) + L.ALL):
                    t = strip(I, t, 'start', p[1])
                elif side != 'start' and I.in_lang(t, L.ALL + L.L_lit(p[1])):
                    t = strip(I, t, 'end', p[1])
                else:
                    return ref(Str(t))
            raise Cut('trim of a repeated text', False)
        return g
    PATHS[S + _n] = _mk3(_side, _n.endswith('matches'))


@model(AS + 'replace', AS + 'replacen')
def _srepl(I, fn, args, dty):
    t = I.text(args[0])
    p = pattern(I, args[1], args[0])
    to = I.word(I.text(args[2]))
    if to is None or fn['path'].endswith('replacen'):
        raise Unknown('replace')
    if p[0] == 'text':
        w = I.word(t)
        if w is not None:
            return Str(('lit', w.replace(p[1], to)))
        if not I.in_lang(t, L.ALL + L.L_lit(p[1]) + L.ALL):
            return Str(t)
        raise Unknown('replace of a longer text')
    cs = [chr(c) for a, b in p[1] for c in range(a, b + 1)] if sum(b - a + 1 for a, b in p[1]) < 200 else None
    if cs is None:
        raise Unknown('replace of a large class')
    return Str(hom(I, t, tuple((c, to) for c in cs)))


def hom(I, t, m):
    """per-character substitution, composed and simplified"""
    l = I.f.get_lang(t)
    al = l.alphabet()
    m = tuple((c, s) for c, s in m if c != s and L.cs_has(al, ord(c)))
    if not m:
        return t
    d = dict(m)
    w = I.word(t)
    if w is not None:
        return ('lit', ''.join(d.get(c, c) for c in w))
    if t[0] == 'cat':
        return cat([hom(I, x, m) for x in t[1]])
    if t[0] == 'hom':
        old = dict(t[2])
        new = {c: ''.join(d.get(x, x) for x in s) for c, s in old.items()}
        for c, s in d.items():
            new.setdefault(c, s)
        return ('hom', t[1], tuple(sorted(new.items())))
    return ('hom', t, tuple(sorted(m)))


CASES = {'to_lowercase': ('lower', False), 'to_uppercase': ('upper', False),
         'to_ascii_lowercase': ('lower', True), 'to_ascii_uppercase': ('upper', True)}


def case_term(I, t, which, asc):
    w = I.word(t)
    if w is not None:
        if asc:
            return ('lit', ''.join(chr(ord(c) + (32 if which == 'lower' else -32)) if
                                   ('A' <= c <= 'Z' if which == 'lower' else 'a' <= c <= 'z') else c for c in w))
        return ('lit', w.lower() if which == 'lower' else w.upper())
    if t[0] == 'case' and t[2] == which and t[3] == asc:
        return t
    return ('case', t, which, asc)


for _n, (_w, _a) in CASES.items():
    def _mk4(w, a):
        def g(I, fn, args, dty):
            return Str(case_term(I, I.text(args[0]), w, a))
        return g
    for _pre in (S, AS):
        PATHS[_pre + _n] = _mk4(_w, _a)


@model(S + 'eq_ignore_ascii_case')
def _eqic(I, fn, args, dty):
    return I.str_eq(case_term(I, I.text(args[0]), 'lower', True), case_term(I, I.text(args[1]), 'lower', True))


# ---- slicing
def slice_text(I, t, r):
    """t[range]: term, or None when out of range / not on a char boundary"""
    n = I.blen(t)
    a, b = range_bounds(I, r, n)
    w = I.word(t)
    if w is not None and isinstance(a, int) and isinstance(b, int):
        e = w.encode()
        try:
            return ('lit', e[a:b].decode()) if 0 <= a <= b <= len(e) and (e[:a].decode(), e[b:].decode()) else None
        except UnicodeDecodeError:
            return None
    u = t
    # the end first
    if not same(I, b, n):
        u = cut_end(I, t, b, n)
        if u is None:
            return None
    if same(I, a, 0):
        return u
    # whole match [start..end]
    v = span(I, t, a, b)
    if v is not None:
        return v
    return cut_start(I, u, a, t)


def cat_cut(I, t, a):
    """(text before, text from) the byte offset a of a compound text, or None"""
    if t[0] != 'cat':
        return None
    want = None
    if isinstance(a, Lin) and a.base[0] in ('blen', 'blensum'):
        want = ((a.base[1],) if a.base[0] == 'blen' else a.base[1], a.k)
    elif isinstance(a, int):
        want = ((), a)
    if want is None:
        return None
    holes, k = (), 0
    for i, x in enumerate(t[1]):
        w = I.word(x)
        if (holes, k) == want:
            return cat(list(t[1][:i])), cat(list(t[1][i:]))
        if w is None:
            holes += (x,)
            continue
        if holes == want[0]:
            n = want[1] - k
            e = w.encode()
            if 0 <= n < len(e):
                try:
                    p, q = e[:n].decode(), e[n:].decode()
                except UnicodeDecodeError:
                    return None
                return cat(list(t[1][:i]) + [('lit', p)]), cat([('lit', q)] + list(t[1][i + 1:]))
        k += len(w.encode())
    if (holes, k) == want:
        return t, ('lit', '')
    return None


def same(I, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    x, kx = I.norm(a)
    y, ky = I.norm(b)
    if x == y:
        return kx == ky
    p, q = I.f.le(x, kx, y, ky), I.f.le(y, ky, x, kx)
    return bool(p and q)


def cut_end(I, t, b, n):
    """t[..b]"""
    cc = cat_cut(I, t, b)
    if cc is not None:
        return cc[0]
    x, k = I.norm(b)
    y, kn = I.norm(n)
    if x == y:                                  # len - c
        c = kn - k
        if c < 0:
            return None
        if not I.in_lang(t, L.ALL + L.L_utf8(c)):
            return None
        return dropend(I, t, c)
    if x == Z:
        if k < 0:
            return None
        if not I.in_lang(t, L.L_utf8(k) + L.ALL):
            return None
        return takestart(I, t, k)
    if x[0] == 'blen' and k == 0 and prefix_of(x[1], t):
        return x[1]
    if x[0] == 'blen' and k > 0:
        m = at_mark(x[1], t)
        if m is not None:
            cs, w = m
            n = mark_width(I, t, cs, w)
            if k < n:
                return None
            if k == n:
                c = one_char(cs)
                if c is not None:
                    return cat([x[1], ('lit', c)])
                if w == 'last':
                    return trim_term(I, t, 'end', L.cs_neg(cs))
                if sum(q - p + 1 for p, q in cs) <= 12:
                    no = L.L_chars(L.cs_neg(cs)).star()
                    for ch in (chr(c) for p, q in cs for c in range(p, q + 1)):
                        if I.in_lang(t, no + L.L_lit(ch) + L.ALL):
                            return cat([x[1], ('lit', ch)])
    if x[0] in ('mstart', 'mend'):
        raise Unknown('slice at a match')
    raise Unknown('slice end')


def at_mark(p, t):
    """(set, first or last) when p is the part of t before its first (last) character of the set"""
    if p[0] == 'before' and p[1] == t:
        return p[2], p[3]
    if p[0] == 'piece' and p[1] == t and p[3] == 0 and len(p) == 4:
        return p[2], 'first'
    return None


def mark_width(I, t, cs, w):
    """bytes of the first (last) character of t that is in the set"""
    no = L.L_chars(L.cs_neg(cs)).star()
    for n in (1, 2, 3, 4):
        one = L.L_chars(cs) & L.L_utf8(n)
        if n == 4 or not one.is_empty() and I.in_lang(t, no + one + L.ALL if w == 'first' else L.ALL + one + no):
            return n


def one_char(cs):
    x = L.L_chars(cs).finite(1)
    return x[0] if x else None


def prefix_of(p, t):
    return p[0] in ('before', 'takestart', 'run') and p[1] == t or p[0] == 'piece' and p[1] == t and p[3] == 0


def cut_start(I, t, a, whole):
    """t[a..]"""
    cc = cat_cut(I, t, a)
    if cc is not None:
        return cc[1]
    x, k = I.norm(a)
    if x == Z:
        if not I.in_lang(t, L.L_utf8(k) + L.ALL):
            return None
        return dropstart(I, t, k)
    y, kn = I.norm(I.blen(whole))
    if x == y:
        c = kn - k
        if c < 0:
            return None
        if not I.in_lang(t, L.ALL + L.L_utf8(c)):
            return None
        return takeend(I, t, c)
    if x[0] == 'blen' and t == whole:
        p = x[1]
        m = at_mark(p, t)
        if m is not None:
            cs, w = m
            if k == 0:
                if w == 'first':
                    return trim_term(I, t, 'start', L.cs_neg(cs))
                ch = one_char(cs)
                if ch is None:
                    raise Unknown('slice from a separator')
                return cat([('lit', ch), after(I, t, cs, w)])
            width = mark_width(I, t, cs, w)
            if k < width:
                return None
            if k == width:
                return after(I, t, cs, w)
        if p[0] == 'run' and p[1] == t and k == 0:
            return ('norun', t, p[2])
    raise Unknown('slice start')


def takeend(I, t, k):
    if k == 0:
        return ('lit', '')
    l = L.lquot(L.ALL, I.f.get_lang(t)) & L.L_utf8(k)
    ws = l.finite(2)
    if ws is not None and len(ws) == 1:
        return ('lit', ws[0])
    return ('takeend', t, k)


def after(I, t, cs, w):
    n = I.f.value(('nsplit', t, cs))
    if n == 2:
        return I.piece(t, cs, 1)
    if w == 'last':
        return I.piece(t, cs, 0, True)
    return ('after', t, cs, w)


def before(I, t, cs, w):
    if w == 'first':
        return I.piece(t, cs, 0)
    if I.f.value(('nsplit', t, cs)) == 2:
        return I.piece(t, cs, 0)
    return ('before', t, cs, w)


def span(I, t, a, b):
    """text of a regex match, for t[m.start()..m.end()]"""
    if isinstance(a, Lin) and isinstance(b, Lin) and a.k == 0 and b.k == 0 and a.base[0] == 'mstart' and b.base[0] == 'mend' \
            and a.base[1] == b.base[1]:
        return a.base[1]
    return None


@method('core::ops::index::Index::index', 'str', 'alloc::string::String')
def _strindex(I, fn, args, dty):
    t = I.text(args[0])
    r = I.force(args[1])
    sp = match_span(I, t, r)
    if sp is not None:
        return ref(Str(sp))
    u = slice_text(I, t, r)
    if u is None:
        raise Panic('text sliced out of range or inside a character', (I.where(), 0))
    return ref(Str(u))


def match_span(I, t, r):
    p = I.p.types[r.ty]['path']
    if p.endswith('Range'):
        return span(I, t, I.force(r.fs[0]), I.force(r.fs[1]))
    return None


@model(S + 'get')
def _sget(I, fn, args, dty):
    t = I.text(args[0])
    r = I.force(args[1])
    sp = match_span(I, t, r)
    u = sp if sp is not None else slice_text(I, t, r)
    return opt(dty, None if u is None else ref(Str(u)))


@model(S + 'is_char_boundary')
def _icb(I, fn, args, dty):
    t = I.text(args[0])
    i = I.force(args[1])
    if isinstance(i, int):
        return I.in_lang(t, L.L_utf8(i) + L.ALL)
    raise Unknown('char boundary')


@model(S + 'split_at')
def _ssplitat(I, fn, args, dty):
    t = I.text(args[0])
    i = I.force(args[1])
    n = I.blen(t)
    a = t if same(I, i, n) else cut_end(I, t, i, n)
    b = ('lit', '') if same(I, i, n) else (t if same(I, i, 0) else cut_start(I, t, i, t))
    if a is None or b is None:
        raise Panic('failed to slice string', (I.where(), 0))
    return Tup((ref(Str(a)), ref(Str(b))))


# ---- searching
def pos_before(I, t, p, w):
    """prefix of t before the first/last occurrence"""
    if p[0] == 'chars':
        return before(I, t, p[1], w)
    wt = I.word(t)
    if wt is not None:
        i = wt.find(p[1]) if w == 'first' else wt.rfind(p[1])
        return ('lit', wt[:i])
    raise Unknown('position of a longer text')


@model(S + 'find', S + 'rfind')
def _sfind(I, fn, args, dty):
    t = I.text(args[0])
    p = pattern(I, args[1], args[0])
    if not I.in_lang(t, L.ALL + pat_lang(p) + L.ALL):
        return Adt(dty, 0, ())
    return Adt(dty, 1, (I.blen(pos_before(I, t, p, 'last' if fn['path'].endswith('rfind') else 'first')),))


@model(S + 'split_once', S + 'rsplit_once')
def _splitonce(I, fn, args, dty):
    t = I.text(args[0])
    p = pattern(I, args[1], args[0])
    if not I.in_lang(t, L.ALL + pat_lang(p) + L.ALL):
        return Adt(dty, 0, ())
    w = 'last' if 'rsplit' in fn['path'] else 'first'
    if p[0] == 'chars':
        return Adt(dty, 1, (Tup((ref(Str(before(I, t, p[1], w))), ref(Str(after(I, t, p[1], w))))),))
    wt = I.word(t)
    if wt is None:
        raise Unknown('split at a longer text')
    i = wt.find(p[1]) if w == 'first' else wt.rfind(p[1])
    return Adt(dty, 1, (Tup((lit(wt[:i]), lit(wt[i + len(p[1]):]))),))


# ---- splitting:  pieces of t between characters of a set
def split_seq(I, t, cs):
    w = I.word(t)
    if w is not None:
        ps, cur = [], ''
        for c in w:
            if L.cs_has(cs, ord(c)):
                ps.append(cur)
                cur = ''
            else:
                cur += c
        ps.append(cur)
        return Seq(tuple(('i', lit(x)) for x in ps))
    if t[0] == 'cat':
        # split literal separators of a compound text
        ok = all(x[0] == 'lit' or (I.f.get_lang(x) & (L.ALL + L.L_chars(cs) + L.ALL)).is_empty() for x in t[1])
        if ok:
            ps, cur = [], []
            for x in t[1]:
                if x[0] != 'lit':
                    cur.append(x)
                    continue
                b = ''
                for c in x[1]:
                    if L.cs_has(cs, ord(c)):
                        cur.append(('lit', b))
                        ps.append(cat(cur))
                        cur, b = [], ''
                    else:
                        b += c
                cur.append(('lit', b))
            ps.append(cat(cur))
            return Seq(tuple(('i', ref(Str(x))) for x in ps))
    return Seq((('v', ('split', t, cs), None, 0, Lin(('nsplit', t, cs), 0)),))


@model(S + 'split')
def _split(I, fn, args, dty):
    t = I.text(args[0])
    p = pattern(I, args[1], args[0])
    if p[0] != 'chars':
        w = I.word(t)
        if w is not None and p[1]:
            return X('iter', (Seq(tuple(('i', lit(x)) for x in w.split(p[1]))), 'val'))
        raise Unknown('split at a longer text')
    return X('iter', (split_seq(I, t, p[1]), 'val'))


@model(S + 'rsplit')
def _rsplit(I, fn, args, dty):
    t = I.text(args[0])
    p = pattern(I, args[1], args[0])
    if p[0] != 'chars':
        raise Unknown('rsplit')
    return X('revsplit', (split_seq(I, t, p[1]),))


@itnext('revsplit')
def _revnext(I, it, back):
    r = I.pop_front(it.a[0]) if back else I.pop_back(it.a[0])
    if r is None:
        return None, X('revsplit', (Seq(()),))
    return r[0], X('revsplit', (r[1],))


@model(S + 'splitn', S + 'rsplitn')
def _splitn(I, fn, args, dty):
    t = I.text(args[0])
    n = I.force(args[1])
    p = pattern(I, args[2], args[0])
    if p[0] != 'chars' or not isinstance(n, int):
        raise Unknown('splitn')
    return X('splitn', (t, n, p[1], 'last' if 'rsplitn' in fn['path'] else 'first'))


@itnext('splitn')
def _splitnnext(I, it, back):
    t, n, cs, w = it.a
    if back or n == 0 or t is None:
        if back:
            raise Unknown('splitn from the back')
        return None, X('splitn', (None, 0, cs, w))
    if n == 1 or not I.in_lang(t, L.ALL + L.L_chars(cs) + L.ALL):
        return ref(Str(t)), X('splitn', (None, 0, cs, w))
    if w == 'first':
        return ref(Str(before(I, t, cs, w))), X('splitn', (after(I, t, cs, w), n - 1, cs, w))
    return ref(Str(after(I, t, cs, w))), X('splitn', (before(I, t, cs, w), n - 1, cs, w))


@model(S + 'split_terminator')
def _splitterm(I, fn, args, dty):
    t = I.text(args[0])
    p = pattern(I, args[1], args[0])
    if p[0] != 'chars':
        raise Unknown('split_terminator')
    if I.in_lang(t, L.EPS | (L.ALL + L.L_chars(p[1]))):
        s = split_seq(I, t, p[1])
        r = I.pop_back(s)
        return X('iter', (r[1], 'val'))
    return X('iter', (split_seq(I, t, p[1]), 'val'))


@model(S + 'chars')
def _chars(I, fn, args, dty):
    return X('chars', (I.text(args[0]), 0, False))


@model(S + 'char_indices')
def _charind(I, fn, args, dty):
    return X('chars', (I.text(args[0]), 0, True))


@itnext('chars')
def _charsnext(I, it, back):
    t, off, ind = it.a
    if I.in_lang(t, L.EPS):
        return None, X('chars', (('lit', ''), off, ind))
    c, rest = first_char(I, t, back)
    if ind:
        if back:
            raise Unknown('char_indices from the back')
        w = I.word(c)
        l = I.f.get_lang(c)
        k = None
        for n in (1, 2, 3, 4):
            if I.in_lang(c, L.L_utf8(n)):
                k = n
                break
        return Tup((off, Chr(c))), X('chars', (rest, I.add(off, k), ind))
    return Chr(c), X('chars', (rest, off, ind))


def first_char(I, t, back=False):
    """(first or last character, rest) of a non-empty text"""
    w = I.word(t)
    if w is not None:
        return (('lit', w[-1]), ('lit', w[:-1])) if back else (('lit', w[0]), ('lit', w[1:]))
    if t[0] == 'cat':
        xs = list(t[1])
        while True:
            x = xs[-1 if back else 0]
            if I.in_lang(x, L.EPS):
                xs.pop(-1 if back else 0)
                continue
            c, r = first_char(I, x, back)
            xs[-1 if back else 0] = r
            return c, cat(xs)
    if back:
        return ('clast', t), ('cinit', t)
    if t[0] == 'ctail':
        return ('chat', t[1], t[2]), ('ctail', t[1], t[2] + 1)
    return ('chat', t, 0), ('ctail', t, 1)


from .facts import OPS as _OPS
_ANYC = L.L_chars(L.ANY)
_OPS['clast'] = (lambda l, t: L.lquot(L.ALL, l) & _ANYC, lambda l, t: L.ALL + (l & _ANYC))
_OPS['cinit'] = (lambda l, t: L.rquot(l, _ANYC), lambda l, t: l + _ANYC)


@model('core::str::iter::Chars::<\'a>::as_str')
def _charsas(I, fn, args, dty):
    return ref(Str(I.getf(args[0]).a[0]))


CHARP = {'is_numeric': 'num', 'is_alphabetic': 'alpha', 'is_alphanumeric': 'alnum', 'is_whitespace': 's', 'is_uppercase': 'upper',
         'is_lowercase': 'lower', 'is_control': 'ctl'}
ASCP = {'is_ascii_digit': ((48, 57),), 'is_ascii_alphabetic': ((65, 90), (97, 122)), 'is_ascii_alphanumeric': ((48, 57), (65, 90), (97, 122)),
        'is_ascii_uppercase': ((65, 90),), 'is_ascii_lowercase': ((97, 122),), 'is_ascii': ((0, 127),),
        'is_ascii_punctuation': ((33, 47), (58, 64), (91, 96), (123, 126)), 'is_ascii_whitespace': L.cs_of(' \t\n\r\x0c'),
        'is_ascii_hexdigit': ((48, 57), (65, 70), (97, 102)), 'is_ascii_graphic': ((33, 126),)}
for _d, _get in ((CHARP, lambda v: (lambda: L.cs_class(v))), (ASCP, lambda v: (lambda: v))):
    for _n, _v in _d.items():
        def _mk5(g):
            def h(I, fn, args, dty):
                c = I.deref_all(args[0])
                return I.in_lang(c.t, L.L_chars(g()))
            return h
        PATHS['core::char::methods::<impl char>::' + _n] = _mk5(_get(_v))
ASCSTR = 'core::str::<impl str>::is_ascii'
PATHS[ASCSTR] = lambda I, fn, args, dty: I.in_lang(I.text(args[0]), L.L_chars(((0, 127),)).star())


@model('core::char::methods::<impl char>::is_digit')
def _isdigit(I, fn, args, dty):
    c = I.deref_all(args[0])
    r = I.force(args[1])
    cs = L.cs_of('0123456789abcdefghijklmnopqrstuvwxyz'[:r] + 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'[:max(0, r - 10)])
    return I.in_lang(c.t, L.L_chars(cs))


@model('core::char::methods::<impl char>::to_digit')
def _todigit(I, fn, args, dty):
    c = I.deref_all(args[0])
    for i in range(I.force(args[1])):
        ch = '0123456789abcdefghijklmnopqrstuvwxyz'[i]
        if I.in_lang(c.t, L.L_chars(L.cs_of(ch + ch.upper()))):
            return Adt(dty, 1, (i,))
    return Adt(dty, 0, ())


@model('core::char::methods::<impl char>::to_ascii_lowercase', 'core::char::methods::<impl char>::to_ascii_uppercase')
def _chcase(I, fn, args, dty):
    return Chr(case_term(I, I.deref_all(args[0]).t, 'lower' if 'lower' in fn['path'] else 'upper', True))


@model('core::char::methods::<impl char>::eq_ignore_ascii_case')
def _cheq(I, fn, args, dty):
    return I.str_eq(case_term(I, I.deref_all(args[0]).t, 'lower', True), case_term(I, I.deref_all(args[1]).t, 'lower', True))


@model('core::char::methods::<impl char>::len_utf8')
def _lenutf8(I, fn, args, dty):
    c = I.deref_all(args[0])
    for n in (1, 2, 3):
        if I.in_lang(c.t, L.L_utf8(n)):
            return n
    return 4


@model('alloc::string::String::push_str')
def _pushstr(I, fn, args, dty):
    s = I.getf(args[0])
    I.set(args[0], Str(cat([s.t, I.text(args[1])])))
    return UNIT


@model('alloc::string::String::push')
def _pushc(I, fn, args, dty):
    s = I.getf(args[0])
    I.set(args[0], Str(cat([s.t, I.force(args[1]).t])))
    return UNIT


@model('alloc::string::String::pop')
def _spop(I, fn, args, dty):
    s = I.getf(args[0])
    if I.in_lang(s.t, L.EPS):
        return Adt(dty, 0, ())
    c, r = first_char(I, s.t, True)
    I.set(args[0], Str(r))
    return Adt(dty, 1, (Chr(c),))


@model('alloc::string::String::clear')
def _sclear(I, fn, args, dty):
    I.set(args[0], Str(('lit', '')))
    return UNIT


@model('alloc::string::String::truncate')
def _strunc(I, fn, args, dty):
    s = I.getf(args[0])
    n = I.blen(s.t)
    if not I.le(args[1], n):
        return UNIT
    u = s.t if same(I, args[1], n) else cut_end(I, s.t, I.force(args[1]), n)
    if u is None:
        raise Panic('truncate inside a character', (I.where(), 0))
    I.set(args[0], Str(u))
    return UNIT


@model('alloc::string::String::insert_str', 'alloc::string::String::insert')
def _sinsert(I, fn, args, dty):
    s = I.getf(args[0])
    if I.force(args[1]) != 0:
        raise Unknown('insert_str')
    I.set(args[0], Str(cat([I.text(args[2]) if not isinstance(I.force(args[2]), Chr) else I.force(args[2]).t, s.t])))
    return UNIT


@method('core::ops::arith::Add::add', 'alloc::string::String')
def _sadd(I, fn, args, dty):
    return Str(cat([I.text(args[0]), I.text(args[1])]))


@method('core::ops::arith::AddAssign::add_assign', 'alloc::string::String')
def _saddassign(I, fn, args, dty):
    s = I.getf(args[0])
    I.set(args[0], Str(cat([s.t, I.text(args[1])])))
    return UNIT


@model(AS + 'repeat')
def _srepeat(I, fn, args, dty):
    n = I.force(args[1])
    if not isinstance(n, int) or n > 64:
        raise Unknown('repeat')
    return Str(cat([I.text(args[0])] * n))


@model('alloc::slice::<impl [T]>::join', 'alloc::slice::<impl [T]>::concat')
def _join(I, fn, args, dty):
    s = I.deref_all(args[0])
    sep = I.text(args[1]) if len(args) > 1 else ('lit', '')
    out = []
    for i, x in enumerate(I.items(s)):
        if i:
            out.append(sep)
        out.append(I.text(x))
    return Str(cat(out))


# ---- parse
@model(S + 'parse')
def _parse(I, fn, args, dty):
    t = I.p.types[dty]
    okty = t['args'][0]
    k = I.p.types[okty]
    tx = I.text(args[0])
    if k['k'] in ('int', 'uint'):
        return parse_int(I, tx, okty, dty)
    if k['k'] == 'adt' and k['path'] == 'alloc::string::String':
        return Adt(dty, 0, (Str(tx),))
    f = I.p.tables.get(okty, {}).get('from_str')
    if f is None or not I.p.fns[f].get('blocks'):
        f = find_from_str(I, okty)
    if f is None:
        raise Unknown('parse::<%s>' % k['s'])
    return I.call(f, [ref(Str(tx))], dty)


def find_from_str(I, ty):
    for i, f in enumerate(I.p.fns):
        if f['tm'] == 'core::str::traits::FromStr::from_str' and f['self'] == ty:
            return i
    return None


def parse_int(I, tx, ty, dty):
    lo, hi = I.int_range(ty)
    if not I.in_lang(tx, L.L_int(lo, hi)):
        return Adt(dty, 1, (X('parseerr', (tx,)),))
    w = I.word(tx)
    if w is not None:
        return Adt(dty, 0, (int(w),))
    term = ('int', tx)
    old = RANGES.get(term)
    RANGES.setdefault(term, (-(1 << 127), 1 << 127))
    v = Lin(term, 0)
    I.f.add_le(term, 0, Z, hi)
    I.f.add_le(Z, lo, term, 0)
    if (I.f.get_lang(tx) & L.L_lits(['+', '-'])).is_empty() and not I.f.get_lang(tx).has('-') and \
            (I.f.get_lang(tx) & (L.L_lit('-') + L.ALL)).is_empty():
        I.f.add_le(Z, 0, term, 0)
    return Adt(dty, 0, (v,))


for _t in ('i8', 'i16', 'i32', 'i64', 'isize', 'u8', 'u16', 'u32', 'u64', 'usize', 'i128', 'u128'):
    PATHS['core::num::<impl core::str::traits::FromStr for %s>::from_str' % _t] = \
        lambda I, fn, args, dty: parse_int(I, I.text(args[0]), I.p.types[dty]['args'][0], dty)


# ------------------------------------------------------------------ formatting
# X('fmtargs', (pieces...)) with pieces ('lit', s) | ('arg', value ref, fmt function id or None, kind, alternate)
def decode(b):
    """pieces of a compact format template"""
    out, i, n = [], 0, 0
    while i < len(b):
        c = b[i]
        i += 1
        if c == 0:
            break
        if c < 0x80:
            out.append(bytes(b[i:i + c]).decode())
            i += c
        elif c == 0x80:
            k = b[i] | b[i + 1] << 8
            i += 2
            out.append(bytes(b[i:i + k]).decode())
            i += k
        else:
            flags = 0
            if c & 1:
                flags = int.from_bytes(bytes(b[i:i + 4]), 'little')
                i += 4
            w = p = None
            if c & 2:
                w = int.from_bytes(bytes(b[i:i + 2]), 'little')
                i += 2
            if c & 4:
                p = int.from_bytes(bytes(b[i:i + 2]), 'little')
                i += 2
            if c & 48:
                raise Unknown('format width taken from an argument')
            idx = n
            if c & 8:
                idx = int.from_bytes(bytes(b[i:i + 2]), 'little')
                i += 2
            n = idx + 1
            out.append((idx, flags, w, p))
    return out


@model("core::fmt::Arguments::<'a>::new")
def _argsnew(I, fn, args, dty):
    b = I.deref_all(args[0])
    xs = I.items(I.deref_all(args[1]))
    if isinstance(b, Seq):
        b = Bytes(tuple(I.items(b)))
    if not isinstance(b, Bytes):
        raise Unknown('format template')
    out = []
    for p in decode(b.b):
        if isinstance(p, str):
            out.append(('lit', p))
        else:
            a = I.force(xs[p[0]])
            if a.kind != 'fmtarg':
                raise Unknown('format argument')
            opts = (p[1], p[2], p[3]) if p[2] is not None or p[3] is not None or p[1] & (1 << 21 | 1 << 24) else None
            out.append(('arg', a.a[0], a.a[1], a.a[2], bool(p[1] & (1 << 23)), opts))
    return X('fmtargs', (tuple(out),))


@model("core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'a>::new_const", "core::fmt::rt::<impl core::fmt::Arguments<'a>>::new_const")
def _argsstr(I, fn, args, dty):
    return X('fmtargs', ((('lit', I.word(I.text(args[0]))),),))


@model("core::fmt::Arguments::<'a>::as_statically_known_str", "core::fmt::Arguments::<'a>::as_str")
def _argsas(I, fn, args, dty):
    a = I.deref_all(args[0])
    if all(p[0] == 'lit' for p in a.a[0]):
        return Adt(dty, 1, (lit(''.join(p[1] for p in a.a[0])),))
    return Adt(dty, 0, ())


for _k in ('display', 'debug', 'lower_exp', 'lower_hex', 'upper_hex', 'pointer'):
    def _mk6(kind):
        def g(I, fn, args, dty):
            return X('fmtarg', (args[0], fn['args'][0], kind))
        return g
    PATHS["core::fmt::rt::Argument::<'_>::new_" + _k] = _mk6(_k)


def new_formatter(alt):
    return Cell(X('formatter', (('lit', ''), alt)))


def fmt_value(I, v, ty, kind, alt):
    """text produced by formatting the referenced value"""
    v = I.force(v)
    t = I.p.types[ty]
    while t['k'] == 'ref':
        v = I.force(I.get(v))
        ty = t['e']
        t = I.p.types[ty]
    w = I.deref_all(v) if isinstance(v, (Ref, Dyn)) else v
    if t['k'] == 'str' or t.get('path') in ('alloc::string::String', 'alloc::borrow::Cow') or t['k'] == 'char':
        tx = I.text(w)
        if kind == 'display':
            return tx
        ww = I.word(tx)
        if ww is not None and ww.isprintable() and '"' not in ww and '\\' not in ww and t['k'] != 'char':
            return ('lit', '"' + ww + '"')
        return ('quoted', tx)
    if t['k'] in ('int', 'uint'):
        w = I.force(w)
        if isinstance(w, int):
            return ('lit', str(w))
        x = I.f.value(w.base)
        if x is not None:
            return ('lit', str(x + w.k))
        return ('dec', w.base, w.k)
    if t['k'] == 'bool':
        return ('lit', 'true' if I.force(w) else 'false')
    if t['k'] == 'adt' and t['path'] == 'core::fmt::Arguments':
        return fmt_text(I, w)
    if t['k'] == 'dyn' and isinstance(v, Dyn):
        raise Unknown('formatting a trait object')
    m = I.method(ty, kind)
    fm = new_formatter(alt)
    if m is not None and (I.p.fns[m].get('blocks') and (I.p.fns[m].get('local') or I.p.fns[m]['crate'] == 'ronda')):
        r = I.force(I.call(m, [Ref(Cell(w), ()), Ref(fm, ())]))
        if isinstance(r, Adt) and r.v == 1:
            raise Unknown('formatting error')
        return fm.v.a[0]
    if isinstance(w, Seq) and kind == 'debug':
        e = t['e'] if 'e' in t else t['args'][0]
        out = [('lit', '[')]
        for i, x in enumerate(I.items(w)):
            if i:
                out.append(('lit', ', '))
            out.append(fmt_value(I, ref(x), e, kind, alt))
        return cat(out + [('lit', ']')])
    if t['k'] == 'tuple' and kind == 'debug':
        return ('fmt', kind, I.key(w))
    if m is not None and I.p.fns[m].get('blocks') and not isinstance(w, X):
        try:
            r = I.force(I.call(m, [Ref(Cell(w), ()), Ref(fm, ())]))
            return fm.v.a[0]
        except Unknown:
            pass
    return ('fmt', kind, t['s'], I.key(w))


def padded(I, x, p):
    """width, precision, fill and sign options; p[5] is (flags, width, precision, value type)"""
    flags, w, prec = p[5]
    ty = I.p.types[p[2]]
    while ty['k'] == 'ref':
        ty = I.p.types[ty['e']]
    isnum = ty['k'] in ('int', 'uint')
    istext = ty['k'] in ('str', 'char', 'bool') or ty.get('path') in ('alloc::string::String', 'alloc::borrow::Cow')
    if not isnum and not istext:
        # derived and hand-written formatting decides itself what to do with the options
        if w is None and prec is None:
            return x
        I.taint('formatting options')
        return ('fmt', 'padded', x, p[5])
    if isnum and flags & 1 << 21 and not I.in_lang(x, L.L_lit('-') + L.ALL):
        x = cat([('lit', '+'), x])
    if prec is not None and istext:
        if not I.in_lang(x, L.L_power(L.L_chars(L.ANY) | L.EPS, prec)):
            ww = I.word(x)
            if ww is not None:
                x = ('lit', ww[:prec])
            elif I.in_lang(x, L.L_power(L.L_chars(((0, 127),)), prec) + L.ALL):
                x = takestart(I, x, prec)
            else:
                raise Unknown('precision of an unknown text')
    if w is None:
        return x
    align = flags >> 29 & 3
    fill = chr(flags & 0x1FFFFF)
    zero = isnum and flags & 1 << 24
    any_ = L.L_chars(L.ANY)
    for n in range(w):
        if I.in_lang(x, L.L_power(any_, n)):
            k = w - n
            if zero:
                ww = I.word(x)
                if ww is None:
                    raise Unknown('zero padding of an unknown number')
                return ('lit', (ww[0] + '0' * k + ww[1:]) if ww[:1] in ('-', '+') else '0' * k + ww)
            l = {0: 0, 1: k, 2: k // 2, 3: k if isnum else 0}[align]
            return cat([('lit', fill * l), x, ('lit', fill * (k - l))])
    return x


def fmt_text(I, a):
    out = []
    for p in a.a[0]:
        if p[0] == 'lit':
            out.append(p)
        else:
            x = fmt_value(I, p[1], p[2], p[3], p[4])
            if p[5]:
                x = padded(I, x, p)
            out.append(x)
    return cat(out)


def display(I, v, ty):
    return fmt_value(I, v, ty, 'display', False)


@model('alloc::fmt::format', 'alloc::fmt::format::format_inner')
def _format(I, fn, args, dty):
    return Str(fmt_text(I, I.force(args[0])))


def fmt_append(I, f, t):
    """append text to a formatter, String or trait object"""
    f = I.force(f)
    n = 0
    while isinstance(f, (Ref, Dyn)) and n < 5:
        r = f.ref if isinstance(f, Dyn) else f
        w = I.getf(r)
        if isinstance(w, X) and w.kind == 'formatter':
            I.set(r, X('formatter', (cat([w.a[0], t]), w.a[1])))
            return
        if isinstance(w, X) and w.kind == 'fmt-into':
            f = w.a[0]
            continue
        if isinstance(w, Str):
            I.set(r, Str(cat([w.t, t])))
            return
        f = w
        n += 1
    raise Unknown('formatter %r' % (f,))


def fmt_ok(I, dty):
    return Adt(dty, 0, (UNIT,))


def getfm(I, f):
    f = I.force(f)
    for _ in range(5):
        if isinstance(f, Dyn):
            f = f.ref
        w = I.getf(f)
        if isinstance(w, X) and w.kind == 'formatter':
            return f, w
        f = w
    raise Unknown('formatter')


@model("core::fmt::Formatter::<'a>::write_fmt", 'core::fmt::Write::write_fmt', 'core::fmt::write', 'std::io::Write::write_fmt')
def _writefmt(I, fn, args, dty):
    fmt_append(I, args[0], fmt_text(I, I.force(args[1])))
    return fmt_ok(I, dty)


@model("core::fmt::Formatter::<'a>::debug_c_like_enum_write_str")
def _clike(I, fn, args, dty):
    names, i = I.word(I.text(args[1])), I.force(args[2])
    if not isinstance(i, int):
        raise Unknown('variant name')
    fmt_append(I, args[0], ('lit', names[i:].split(' ')[0]))
    return fmt_ok(I, dty)


@model("core::fmt::Formatter::<'a>::write_str", "core::fmt::Formatter::<'a>::pad", 'core::fmt::Write::write_str')
def _writestr(I, fn, args, dty):
    fmt_append(I, args[0], I.text(args[1]))
    return fmt_ok(I, dty)


@method('core::fmt::Write::write_str', 'alloc::string::String', 'core::fmt::Formatter')
def _wstr(I, fn, args, dty):
    return _writestr(I, fn, args, dty)


@method('core::fmt::Write::write_char', 'alloc::string::String', 'core::fmt::Formatter')
def _wchr(I, fn, args, dty):
    fmt_append(I, args[0], I.force(args[1]).t)
    return fmt_ok(I, dty)


@method('core::fmt::Write::write_fmt', 'alloc::string::String', 'core::fmt::Formatter')
def _wfmt(I, fn, args, dty):
    return _writefmt(I, fn, args, dty)


@model("core::fmt::Formatter::<'a>::alternate")
def _alternate(I, fn, args, dty):
    f, w = getfm(I, args[0])
    if w.a[1] is None:
        return I.atom(('alternate', 0))
    return w.a[1]


@model("core::fmt::Formatter::<'a>::new")
def _fmnew(I, fn, args, dty):
    return X('fmt-into', (args[0],))


for _k, _tm in (('display', 'core::fmt::Display::fmt'), ('debug', 'core::fmt::Debug::fmt')):
    def _mk7(kind):
        def g(I, fn, args, dty):
            f = args[1]
            alt = False
            try:
                alt = getfm(I, f)[1].a[1]
            except Unknown:
                pass
            st = fn['self']
            v = I.force(args[0])
            t = I.p.types[st]
            # the library's own implementation, on the referenced value
            if t['k'] == 'adt' and t['path'] in ('alloc::boxed::Box', 'alloc::rc::Rc', 'alloc::sync::Arc'):
                b = I.getf(v)
                fmt_append(I, f, fmt_value(I, Ref(b.cell, ()), t['args'][0], kind, alt))
                return fmt_ok(I, dty)
            if t['k'] == 'ref' or t['k'] in ('str', 'int', 'uint', 'bool', 'char', 'slice', 'array') or t.get('path') in (
                    'alloc::string::String', 'alloc::vec::Vec', 'core::fmt::Arguments', 'alloc::borrow::Cow'):
                fmt_append(I, f, fmt_value(I, v, st, kind, alt))
                return fmt_ok(I, dty)
            if fn.get('blocks'):
                return NotImplemented
            fmt_append(I, f, ('fmt', kind, t['s'], I.key(I.get(v))))
            return fmt_ok(I, dty)
        return g
    for _sp in ('str', 'alloc::string::String', 'alloc::vec::Vec', 'slice', 'array', 'int', 'uint', 'bool', 'char', 'ref', 'alloc::boxed::Box',
                'core::fmt::Arguments', 'alloc::borrow::Cow'):
        METHODS[(_tm, _sp)] = _mk7(_k)
    TRAITS[_tm] = _mk7(_k)


def dbg(I, f, name, fields, dty, brackets):
    """fields: [(name or None, Dyn)]"""
    _, w = getfm(I, f)
    out = [('lit', name + brackets[0])]
    for i, (n, d) in enumerate(fields):
        if i:
            out.append(('lit', ', '))
        if n:
            out.append(('lit', n + ': '))
        d = I.force(d)
        if isinstance(d, Dyn):
            if isinstance(I.get(d.ref), X) and I.get(d.ref).kind == 'uninit':
                raise Unknown('uninit')
            out.append(fmt_value(I, d.ref, d.ty, 'debug', w.a[1]))
        else:
            out.append(('fmt', 'debug', '?', 0))
    out.append(('lit', brackets[1]))
    fmt_append(I, f, cat(out))
    return fmt_ok(I, dty)


@model(*["core::fmt::Formatter::<'a>::debug_struct_field%d_finish" % i for i in range(1, 6)])
def _dsf(I, fn, args, dty):
    ns = I.word(I.text(args[1])).split(' ')         # the type's name and the fields'
    return dbg(I, args[0], ns[0], list(zip(ns[1:], args[2:])), dty, (' { ', ' }'))


@model("core::fmt::Formatter::<'a>::debug_struct_fields_finish")
def _dsfs(I, fn, args, dty):
    ns = I.word(I.text(args[1])).split(' ')
    return dbg(I, args[0], ns[0], list(zip(ns[1:], I.items(I.deref_all(args[2])))), dty, (' { ', ' }'))


@model(*["core::fmt::Formatter::<'a>::debug_tuple_field%d_finish" % i for i in range(1, 6)])
def _dtf(I, fn, args, dty):
    return dbg(I, args[0], I.word(I.text(args[1])), [(None, a) for a in args[2:]], dty, ('(', ')'))


@model("core::fmt::Formatter::<'a>::debug_struct", "core::fmt::Formatter::<'a>::debug_tuple")
def _ds(I, fn, args, dty):
    return X('dbgb', (args[0], I.word(I.text(args[1])), (), 'tuple' if 'tuple' in fn['path'] else 'struct'))


@model("core::fmt::Formatter::<'a>::debug_list", "core::fmt::Formatter::<'a>::debug_set")
def _dl(I, fn, args, dty):
    return X('dbgb', (args[0], '', (), 'list'))


@model("core::fmt::builders::DebugStruct::<'a, 'b>::field", "core::fmt::builders::DebugTuple::<'a, 'b>::field")
def _dsfield(I, fn, args, dty):
    b = I.getf(args[0])
    it = (I.word(I.text(args[1])), args[2]) if len(args) == 3 else (None, args[1])
    I.set(args[0], X('dbgb', (b.a[0], b.a[1], b.a[2] + (it,), b.a[3])))
    return args[0]


@model("core::fmt::builders::DebugList::<'a, 'b>::entry")
def _dlentry(I, fn, args, dty):
    return _dsfield(I, fn, args, dty)


@model("core::fmt::builders::DebugStruct::<'a, 'b>::finish", "core::fmt::builders::DebugTuple::<'a, 'b>::finish",
       "core::fmt::builders::DebugList::<'a, 'b>::finish")
def _dsfin(I, fn, args, dty):
    b = I.getf(args[0])
    br = {'struct': (' { ', ' }'), 'tuple': ('(', ')'), 'list': ('[', ']')}[b.a[3]]
    return dbg(I, b.a[0], b.a[1], list(b.a[2]), dty, br)


# ------------------------------------------------------------------ lazy_static, regex, unicase
LAZY = {}


@model('lazy_static::lazy::Lazy::<T>::get')
def _lazyget(I, fn, args, dty):
    c = I.force(args[0])
    if not hasattr(I, 'lazies'):
        I.lazies = {}
    k = id(c.cell)
    if k not in I.lazies:
        had, I.compiled = I.compiled, []
        I.lazies[k] = Cell(I.callv(args[1], []))
        I.compiled = had
    return Ref(I.lazies[k], ())


HOLE = 0xE000


def regex_value(I, t, dty):
    """Result<Regex, Error> of compiling pattern text t"""
    w = I.word(t)
    if w is not None:
        try:
            ast, ng, names = L.parse_regex(w)
        except L.RegexError as e:
            return Adt(dty, 1, (X('regexerr', (t,)),))
        return Adt(dty, 0, (X('regex', (t, ast)),))
    # a pattern built from unknown text: an opaque expression, which may be malformed
    if t[0] == 'cat' or t[0] in ('sv', 'hom', 'f', 'el', 'strip', 'piece', 'trim'):
        toks, holes = [], []
        for x in (t[1] if t[0] == 'cat' else (t,)):
            if x[0] == 'lit':
                toks += list(x[1])
            else:
                toks.append(x)
                holes.append(x)
        safe = L.L_chars(((48, 57), (65, 90), (97, 122), (95, 95), (45, 45), (64, 64), (44, 44), (32, 33), (58, 62), (35, 35), (37, 39), (47, 47), (34, 34))).star()
        try:
            ast, ng, names = L.parse_regex(toks)
        except L.RegexError:
            ast = None
        except L.Unsupported:
            ast = None
        if ast is not None and all(I.f.get_lang(h) <= safe for h in holes):
            return Adt(dty, 0, (X('regex', (t, ast)),))
        if not I.atom(('regex-ok', t)):
            return Adt(dty, 1, (X('regexerr', (t,)),))
        return Adt(dty, 0, (X('regex', (t, None)),))
    raise Unknown('regex of an unknown pattern')


@model('regex::re_unicode::Regex::new')
def _renew(I, fn, args, dty):
    r = regex_value(I, I.text(args[0]), dty)
    I.compiled = I.compiled + [(I.text(args[0]), r.v == 0)]
    return r


@model('regex::re_unicode::Regex::as_str')
def _reas(I, fn, args, dty):
    a = I.deref_all(args[0]).a
    return ref(Str(a[2] if len(a) > 2 else a[0]))


def re_lang(I, re):
    if re.a[1] is None:
        raise L.Unsupported('opaque pattern')
    w = I.word(re.a[0])
    if w is not None:
        return L.regex_search(w)
    return L.search_lang(re.a[1], lambda h: I.f.get_lang(h))


@model('regex::re_unicode::Regex::is_match')
def _ismatch(I, fn, args, dty):
    re = I.deref_all(args[0])
    t = I.text(args[1])
    if isinstance(re, X) and re.kind == 'opaque':
        return I.atom(('is_match', re.a[0], t))
    if re.a[1] is None or I.word(re.a[0]) is None:
        return I.atom(('is_match', re.a[0], t))
    return I.in_lang(t, re_lang(I, re))


def words_in_order(ast, limit=64):
    """words of a finite expression, most preferred first (leftmost-first, greedy)"""
    k = ast[0]
    if k == 'cs':
        n = sum(b - a + 1 for a, b in ast[1])
        if n > limit:
            return None
        return [chr(c) for a, b in ast[1] for c in range(a, b + 1)]
    if k == 'cat':
        out = ['']
        for x in ast[1]:
            w = words_in_order(x, limit)
            if w is None:
                return None
            out = [a + b for a in out for b in w]
            if len(out) > limit:
                return None
        return out
    if k == 'alt':
        out = []
        for x in ast[1]:
            w = words_in_order(x, limit)
            if w is None:
                return None
            out += w
        return out
    if k == 'grp':
        return words_in_order(ast[2], limit)
    if k == 'rep':
        if ast[3] is None or ast[3] > 4:
            return None
        w = words_in_order(ast[1], limit)
        if w is None:
            return None
        def rep(lo, hi):
            if hi == 0:
                return ['']
            more = [a + b for a in w for b in rep(max(0, lo - 1), hi - 1)]
            if lo > 0:
                return more
            return more + [''] if ast[4] else [''] + more
        out = rep(ast[2], ast[3])
        return out if len(out) <= 4 * limit else None
    return None


def flat(ast):
    """elements of a concatenation"""
    if ast[0] == 'cat':
        out = []
        for x in ast[1]:
            out += flat(x)
        return out
    return [ast]


@model('regex::re_unicode::Regex::captures')
def _captures(I, fn, args, dty):
    re = I.deref_all(args[0])
    t = I.text(args[1])
    ast = re.a[1] if isinstance(re, X) and re.kind == 'regex' else None
    if ast is None:
        raise Unknown('captures of an opaque pattern')
    if not I.in_lang(t, re_lang(I, re)):
        return Adt(dty, 0, ())
    els = flat(ast)
    begins, ends = bool(els) and els[0] == ('^',), bool(els) and els[-1] == ('$',)
    body = els[begins:len(els) - ends]
    if not (begins and ends) or t[0] == 'lit':
        # symbolic matching on a compound or literal text
        if t[0] in ('cat', 'lit') or I.word(t) is not None or not body or not all(seq_able(x) for x in body):
            m = Matcher(I, t).search(ast, 0)
            if m is None:
                raise Unknown('captures')
            return Adt(dty, 1, (X('captures', (tuple(sorted(m.items())), t)),))
    after = L.EPS if ends else L.ALL
    if not begins:
        here = L.EPS
        for x in body:
            here = here + L.ast_lang(x)
        if not I.in_lang(t, here + after):
            raise Unknown('captures of a match inside the text')
    els = body
    groups = {0: t} if ends else {}
    rest = t
    for i, e in enumerate(els):
        tail = L.EPS
        for x in els[i + 1:]:
            tail = tail + L.ast_lang(x)
        tail = tail + after
        g = e[1] if e[0] == 'grp' else None
        if i == len(els) - 1 and not ends:
            u = class_run(e)
            if u is not None:
                if g is not None:
                    groups[g] = ('run', rest, u[0])
                break
        elif i == len(els) - 1:
            if g is not None:
                inner_groups(I, e[2], rest, groups)
                groups[g] = rest
            break
        # an optional group: (x)? takes part or not
        ws = words_in_order(e)
        if ws is None:
            # longest run of a character class, when what follows cannot start with it
            u = class_run(e)
            if u is not None:
                cs, mn = u
                nxt = L.rquot(tail, L.ALL) & L.L_chars(L.ANY)
                if (nxt & L.L_chars(cs)).is_empty():
                    if g is not None:
                        groups[g] = ('run', rest, cs)
                    rest = ('norun', rest, cs)
                    continue
            raise Unknown('captures of an unbounded group')
        done = False
        seen = L.EMPTY
        for w in ws:
            l = (L.L_lit(w) + tail) - seen
            seen = seen | l
            if (I.f.get_lang(rest) & l).is_empty():
                continue
            if I.in_lang(rest, l):
                if g is not None:
                    groups[g] = ('lit', w)
                rest = strip(I, rest, 'start', w)
                done = True
                break
        if not done:
            raise Unknown('captures')
    return Adt(dty, 1, (X('captures', (tuple(sorted(groups.items())), t)),))


def seq_able(e):
    """an element of a sequence whose extent is settled by what precedes it"""
    return words_in_order(e) is not None or class_run(e) is not None


def inner_groups(I, e, t, groups):
    if any_group(e):
        raise Unknown('nested group')


def any_group(e):
    return e[0] == 'grp' or e[0] in ('cat', 'alt') and any(any_group(x) for x in e[1]) or e[0] == 'rep' and any_group(e[1])


def class_run(e):
    """(set, min) if the expression is a greedy repetition of one class"""
    while e[0] == 'grp' or e[0] == 'cat' and len(e[1]) == 1:
        e = e[2] if e[0] == 'grp' else e[1][0]
    if e[0] == 'rep' and e[3] is None and e[4]:
        x = e[1]
        while x[0] == 'grp' or x[0] == 'cat' and len(x[1]) == 1:
            x = x[2] if x[0] == 'grp' else x[1][0]
        if x[0] == 'cs':
            return x[1], e[2]
    return None


def mk_match(I, t, whole, s=None, e=None):
    return X('match', (t, whole, s, e))


@model("regex::re_unicode::Captures::<'t>::get")
def _capget(I, fn, args, dty):
    c = I.deref_all(args[0])
    i = I.force(args[1])
    g = dict(c.a[0])
    if i in g:
        return Adt(dty, 1, (mk_match(I, g[i], c.a[1]),))
    if i == 0:
        raise Unknown('the whole of a match')
    return Adt(dty, 0, ())


@model("<regex::re_unicode::Captures<'t> as core::ops::index::Index<usize>>::index")
def _capidx(I, fn, args, dty):
    c = I.deref_all(args[0])
    g = dict(c.a[0])
    i = I.force(args[1])
    if i == 0 and i not in g:
        raise Unknown('the whole of a match')
    if i not in g:
        raise Panic('no group at index', (I.where(), 0))
    return ref(Str(g[i]))


@model("regex::re_unicode::Match::<'t>::as_str", "<&'t str as core::convert::From<regex::re_unicode::Match<'t>>>::from")
def _mas(I, fn, args, dty):
    m = I.deref_all(args[0])
    if m.kind != 'match':
        raise Unknown('match')
    return ref(Str(m.a[0]))


@model("regex::re_unicode::Match::<'t>::start", "regex::re_unicode::Match::<'t>::end")
def _mstart(I, fn, args, dty):
    m = I.deref_all(args[0])
    st = fn['path'].endswith('start')
    if m.a[2] is not None:
        x = m.a[2 if st else 3]
        return Matcher(I, x[1]).offset(x[2]) if isinstance(x, tuple) else x
    # the offsets of a located match: meaningful together, for slicing
    k = 'mstart' if st else 'mend'
    RANGES.setdefault((k, m.a[0]), (0, None))
    return Lin((k, m.a[0]), 0)


@model('regex::re_unicode::Regex::find_iter')
def _finditer(I, fn, args, dty):
    re = I.deref_all(args[0])
    t = I.text(args[1])
    if re.kind != 'regex' or re.a[1] is None:
        raise Unknown('find_iter of an opaque pattern')
    return X('matches', (re, t, t, None))


@model('regex::re_unicode::Regex::find')
def _refind(I, fn, args, dty):
    re = I.deref_all(args[0])
    t = I.text(args[1])
    m, _ = it_next(I, X('matches', (re, t, t, None)))
    return opt(dty, m)


def strip_groups(e):
    k = e[0]
    if k == 'grp':
        return strip_groups(e[2])
    if k == 'cat':
        xs = []
        for x in e[1]:
            y = strip_groups(x)
            xs += list(y[1]) if y[0] == 'cat' else [y]
        return xs[0] if len(xs) == 1 else ('cat', tuple(xs))
    if k == 'alt':
        return ('alt', tuple(strip_groups(x) for x in e[1]))
    if k == 'rep':
        return ('rep', strip_groups(e[1])) + tuple(e[2:])
    return e


@itnext('matches')
def _matchesnext(I, it, back):
    re, t, rest, st = it.a
    if back:
        raise Unknown('matches from the back')
    if st is not None or rest[0] in ('lit', 'cat') or I.word(rest) is not None:
        # literal / compound text: symbolic matcher over positions
        w = I.word(rest)
        src = ('lit', w) if w is not None else rest
        if st is None:
            st = (src, 0, rest == t)
            wt = I.word(t)
            if rest != t and wt is not None and w is not None and wt.endswith(w):
                st = (('lit', wt), len(wt) - len(w), True)
        m = Matcher(I, st[0])
        g = m.search(re.a[1], st[1])
        if g is None:
            return None, X('matches', (re, t, ('lit', ''), (('lit', ''), 0, True)))
        a, b = m.span
        if a == b:
            raise Unknown('empty match')
        at = (('at', st[0], a), ('at', st[0], b)) if st[2] else ()
        I.lastgroups = dict(g)
        return mk_match(I, g[0], t, *at), X('matches', (re, t, rest, (st[0], b, st[2])))
    # unknown text: runs of character classes that cover it without gaps
    if I.in_lang(rest, L.EPS):
        return None, X('matches', (re, t, ('lit', ''), None))
    brs = [strip_groups(b) for b in L.branches(strip_groups(re.a[1]))]
    runs = [class_run(b) for b in brs]
    if any(r is None or r[1] != 1 for r in runs):
        raise Unknown('matches on an unknown text')
    for i, (cs, mn) in enumerate(runs):
        if I.in_lang(rest, L.L_chars(cs) + L.ALL):
            r = I.f.get_lang(rest)
            I.lastgroups = group_of(L.branches(re.a[1]), i)
            if r <= L.L_chars(cs).star():
                # the run is the whole rest
                return mk_match(I, rest, t), X('matches', (re, t, ('lit', ''), None))
            if I.in_lang(rest, L.L_chars(cs).star()):
                return mk_match(I, rest, t), X('matches', (re, t, ('lit', ''), None))
            return mk_match(I, ('run', rest, cs), t), X('matches', (re, t, ('norun', rest, cs), None))
    # a gap: skip to the first character some branch accepts
    anycs = ()
    for cs, _ in runs:
        anycs = L.cs_or(anycs, cs)
    gap = L.cs_neg(anycs)
    if I.in_lang(rest, L.L_chars(gap).star()):
        return None, X('matches', (re, t, ('lit', ''), None))
    return _matchesnext(I, X('matches', (re, t, ('norun', rest, gap), None)), back)


def group_of(brs, i):
    """the group that is all of a branch, () for none, None if not known"""
    if i >= len(brs):
        return None
    b = brs[i]
    if b[0] == 'grp':
        return None if any_group(b[2]) else b[1]
    return None if any_group(b) else ()


@model('regex::re_unicode::Regex::captures_iter')
def _capiter(I, fn, args, dty):
    it = _finditer(I, fn, args, dty)
    return X('capsiter', (it, it.a[1]))


@itnext('capsiter')
def _capsnext(I, it, back):
    inner, t = it.a
    I.lastgroups = None
    m, nxt = _matchesnext(I, inner, back)
    if m is None:
        return None, X('capsiter', (nxt, t))
    g = I.lastgroups
    if g is None:
        raise Unknown('groups of a match')
    if not isinstance(g, dict):
        whole = m.a[0]
        g = {0: whole} if g == () else {0: whole, g: whole}
    return X('captures', (tuple(sorted(g.items())), t)), X('capsiter', (nxt, t))


class Matcher:
    """leftmost-first matching of an expression on a text of literals and holes.

    Every character of the hole must be treated alike by each class of the expression (otherwise
    the text is split by a fork), so a hole behaves as one repeated symbol of unknown length >= 1;
    a position inside a hole is never a match boundary, or the result is unknown."""

    def __init__(self, I, t):
        self.I = I
        self.sym = []                 # ('c', char) | ('h', term, charset)
        for x in (t[1] if t[0] == 'cat' else (t,)):
            if x[0] == 'lit':
                self.sym += [('c', c) for c in x[1]]
            else:
                if I.in_lang(x, L.EPS):
                    continue
                self.sym.append(('h', x, I.f.get_lang(x).alphabet()))
        self.span = None

    def offset(self, i):
        k = sum(len(s[1].encode()) for s in self.sym[:i] if s[0] == 'c')
        return self.I.blensum(tuple(s[1] for s in self.sym[:i] if s[0] != 'c'), k)

    def text(self, a, b):
        return cat([('lit', s[1]) if s[0] == 'c' else s[1] for s in self.sym[a:b]])

    def accepts(self, cs, s):
        if s[0] == 'c':
            return L.cs_has(cs, ord(s[1]))
        inside = L.cs_and(s[2], cs)
        if not inside:
            return False
        if not L.cs_and(s[2], L.cs_neg(cs)):
            return True
        raise Unknown('a hole mixes characters')

    def m(self, e, i, g, k):
        """match e at i, continue with k(i, groups); positions are symbol indices; a hole is consumed
        by a class repetition or not at all"""
        t = e[0]
        if t == 'cs':
            if i < len(self.sym) and self.accepts(e[1], self.sym[i]):
                if self.sym[i][0] == 'h':
                    raise Unknown('one character of a hole')
                return k(i + 1, g)
            return None
        if t == 'cat':
            def step(j, i, g):
                if j == len(e[1]):
                    return k(i, g)
                return self.m(e[1][j], i, g, lambda i2, g2: step(j + 1, i2, g2))
            return step(0, i, g)
        if t == 'alt':
            for x in e[1]:
                r = self.m(x, i, g, k)
                if r is not None:
                    return r
            return None
        if t == 'grp':
            return self.m(e[2], i, g, lambda j, g2: k(j, dict(g2, **{}) if False else {**g2, e[1]: (i, j)}))
        if t == '^':
            return k(i, g) if i == 0 else None
        if t == '$':
            return k(i, g) if i == len(self.sym) else None
        if t == 'rep':
            x, lo, hi, greedy = e[1], e[2], e[3], e[4]
            y = strip_groups(x)
            if y[0] == 'cs':
                # class repetition: positions reachable, longest first
                ends = [i]
                j = i
                while j < len(self.sym) and (hi is None or j - i < hi or self.sym[j][0] == 'h') and self.accepts(y[1], self.sym[j]):
                    if self.sym[j][0] == 'h' and hi is not None:
                        raise Unknown('bounded repetition over a hole')
                    j += 1
                    ends.append(j)
                # a hole has at least one character, and a repetition may not stop inside one
                if lo > 1 and any(s[0] == 'h' for s in self.sym[i:j]):
                    raise Unknown('counted repetition over a hole')
                ends = [p for p in ends if p - i >= lo]
                seq = reversed(ends) if greedy else ends
                for n, p in enumerate(seq):
                    if n and greedy and self.sym[p][0] == 'h' or not greedy and p > i and self.sym[p - 1][0] == 'h':
                        # stopping inside the hole would have been tried before
                        r = k(p, g)
                        if r is not None:
                            raise Unknown('match boundary inside a hole')
                        continue
                    r = k(p, g)
                    if r is not None:
                        return r
                return None

            def again(n, i, g):
                def one():
                    return self.m(x, i, g, lambda j, g2: again(n + 1, j, g2) if j > i else None)
                if hi is not None and n >= hi:
                    return k(i, g)
                if n < lo:
                    return one()
                if greedy:
                    r = one()
                    return r if r is not None else k(i, g)
                r = k(i, g)
                return r if r is not None else one()
            return again(0, i, g)
        raise Unknown('matcher: ' + t)

    def search(self, ast, start):
        for i in range(start, len(self.sym) + 1):
            r = self.m(ast, i, {}, lambda j, g: (i, j, g))
            if r is not None:
                a, b, g = r
                self.span = (a, b)
                out = {n: self.text(x, y) for n, (x, y) in g.items()}
                out[0] = self.text(a, b)
                return out
        return None


# ---- UniCase
@model('unicase::UniCase::<S>::new', 'unicase::UniCase::<S>::unicode', 'unicase::UniCase::<S>::ascii', 'unicase::ascii::<impl unicase::Ascii<S>>::new')
def _ucnew(I, fn, args, dty):
    return X('unicase', (I.text(args[0]), fn['path'].endswith(('::ascii', 'Ascii<S>>::new'))))


ASCII = L.L_chars(((0, 0x7F),)).star()


def ucmp(I, a, b, asc=False):
    """UniCase order: case folded, then as texts"""
    if a == b:
        return 0
    if asc and not (I.f.get_lang(a) <= ASCII and I.f.get_lang(b) <= ASCII):
        x, y = case_term(I, a, 'lower', True), case_term(I, b, 'lower', True)
        return 0 if I.str_eq(x, y) else I.str_cmp(x, y)
    wa, wb = fold_word(I, a), fold_word(I, b)
    if wa is not None and wb is not None:
        x, y = wa.casefold(), wb.casefold()
        return (x > y) - (x < y)
    x, y = ('rk', 'u', a), ('rk', 'u', b)
    s1, s2 = I.rank(a), I.rank(b)
    if I.f.le(s1, 0, s2, 0) and I.f.le(s2, 0, s1, 0):
        return 0
    for t, w, s in ((a, wb, 1), (b, wa, -1)):
        if w is not None:
            if w == '':
                return 0 if I.in_lang(t, L.EPS) else s
            if I.in_lang(t, fold_lang(w)):
                return 0
            r = 1 if I.le(Lin(('rk', 'u', ('lit', w.casefold())), 1), Lin(('rk', 'u', t), 0)) else -1
            if r < 0:
                I.f.add_le(('rk', 'u', t), 0, ('rk', 'u', ('lit', w.casefold())), -1)
            return r * s
    if (I.f.get_lang(a) & fold_close(I.f.get_lang(b))).is_empty():
        if I.le(Lin(x, 1), Lin(y, 0)):
            return -1
        I.f.add_le(y, 1, x, 0)
        return 1
    r = I.cmpi(Lin(x, 0), Lin(y, 0))
    return r


def fold_word(I, t):
    """the text up to case, if that is determined"""
    w = I.word(t)
    if w is not None:
        return w
    ws = I.f.get_lang(t).finite(200)
    if ws:
        ws = {x.casefold() for x in ws}
        if len(ws) == 1:
            return ws.pop()
    return None


def fold_lang(w):
    r = L.EPS
    for c in w:
        r = r + L.L_chars(L.cs_fold(L.cs_of(c)))
    return r


def fold_close(l):
    return L.hom_class_fold(l)


def ucargs(I, args):
    x, y = I.deref_all(args[0]).a, I.deref_all(args[1]).a
    return ucmp(I, x[0], y[0], x[1] and y[1])


@method('core::cmp::PartialEq::eq', 'unicase::UniCase')
@method('core::cmp::PartialEq::eq', 'unicase::Ascii')
def _uceq(I, fn, args, dty):
    return ucargs(I, args) == 0


@method('core::cmp::PartialOrd::partial_cmp', 'unicase::UniCase')
@method('core::cmp::PartialOrd::partial_cmp', 'unicase::Ascii')
def _ucpc(I, fn, args, dty):
    return opt(dty, I.ordering(ucargs(I, args)))


@method('core::cmp::Ord::cmp', 'unicase::UniCase')
@method('core::cmp::Ord::cmp', 'unicase::Ascii')
def _ucc(I, fn, args, dty):
    return I.ordering(ucargs(I, args))


# ------------------------------------------------------------------ repodata
@model('std::fs::read_to_string')
def _readfile(I, fn, args, dty):
    I.notes.append(('io', 'read', I.where()))
    if I.atom(('file-readable', 0)):
        return Adt(dty, 0, (Str(('sv', 'file')),))
    return Adt(dty, 1, (X('ioerr', ()),))


@model('serde_json::de::from_str', 'serde_json::de::from_slice')
def _fromjson(I, fn, args, dty):
    ty = I.p.types[dty]['args'][0]
    I.notes.append(('json', I.text(args[0]), ty))
    if I.atom(('json-ok', I.text(args[0]), ty)):
        return Adt(dty, 0, (Sym(('json', I.text(args[0])), ty),))
    return Adt(dty, 1, (X('jsonerr', ()),))


@method('serde::de::Error::custom', 'serde_json::error::Error')
def _jsoncustom(I, fn, args, dty):
    return X('jsonerr', ('custom',))


MODELS = Models()


@method('core::iter::traits::iterator::Iterator::next', 'core::iter::adapters::GenericShunt')
def _shuntnext(I, fn, args, dty):
    r = I.force(args[0])
    v = I.getf(r)
    ity = I.p.types[fn['self']]['args']
    ity = [a for a in ity if isinstance(a, int)][0]
    st = Stepper(I, v.fs[0], ity)
    ok, x = st.next()
    if not ok:
        I.set(r, Adt(v.ty, v.v, (st.cell.v,) + tuple(v.fs[1:])))
        return Adt(dty, 0, ())
    I.set(r, Adt(v.ty, v.v, (st.cell.v,) + tuple(v.fs[1:])))
    x = I.force(x)
    go, val = try_out(I, None, x)
    if go:
        return Adt(dty, 1, (val,))
    slot = I.force(v.fs[1])
    fields = dict(I.p.types[fn['self']]['v'][0]['f'])
    rty = I.p.types[fields['residual']]['e']
    inner = I.p.types[rty]['args'][0]
    I.set(slot, Adt(rty, 1, (Adt(inner, x.v, x.fs),)))
    return Adt(dty, 0, ())


from . import models2  # noqa: E402,F401
