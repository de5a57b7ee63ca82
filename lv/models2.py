"""More library models: bytes of texts, maps and sets, sorting, text iterators, integer methods."""
import re as _re

from . import lang as L
from . import models as M
from .facts import RANGES
from .interp import Adt, BoxV, Cell, Chr, Cut, Dyn, Lin, Panic, Ref, Seq, Str, Tup, UNIT, Unknown, X, lit, ref
from .models import (AS, DIT, FORCE_TRAITS, IT, METHODS, PATHS, S, TRAITS, Stepper, after, before, case_term, cat, first_char,
                     hom, intr, into_items, it_next, itnext, method, model, opt, pattern, trim_term, val_cmp, val_eq)


def boom(I, msg):
    raise Panic(msg, (I.where(), 0))


# ------------------------------------------------------------------ integers
@intr('integer_min', 'integer_max')
def _imin(I, fn, args, dty):
    a, b = I.force(args[0]), I.force(args[1])
    r = I.le(a, b)
    return (a if r else b) if 'min' in fn['path'] else (b if r else a)


INTS = ['i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize']


def num(name, kinds=INTS):
    def deco(f):
        for k in kinds:
            PATHS['core::num::<impl %s>::%s' % (k, name)] = f
        return f
    return deco


@num('is_positive')
def _ispos(I, fn, args, dty):
    return I.lt(0, I.force(args[0]))


@num('is_negative')
def _isneg(I, fn, args, dty):
    return I.lt(I.force(args[0]), 0)


@num('checked_neg')
def _cneg(I, fn, args, dty):
    r, ov = I.arith('Sub', 0, I.force(args[0]), I.p.types[dty]['args'][0]) if isinstance(I.force(args[0]), Lin) else (-I.force(args[0]), None)
    if ov is None:
        lo, hi = I.int_range(I.p.types[dty]['args'][0])
        ov = not lo <= r <= hi
    return opt(dty, None if ov else r)


@num('checked_abs')
def _cabs(I, fn, args, dty):
    a = I.force(args[0])
    return _cneg(I, fn, [a], dty) if I.lt(a, 0) else opt(dty, a)


@num('abs_diff')
def _absdiff(I, fn, args, dty):
    a, b = I.force(args[0]), I.force(args[1])
    if I.lt(a, b):
        a, b = b, a
    return a - b if isinstance(a, int) and isinstance(b, int) else I.arith('Sub', a, b, dty)[0]


def negated(I, a, ty):
    return (-a, None) if isinstance(a, int) else I.arith('Sub', 0, a, ty)


@num('abs')
def _abs(I, fn, args, dty):
    a = I.force(args[0])
    if not I.lt(a, 0):
        return a
    lo, hi = I.int_range(dty)
    if I.eqi(a, lo):
        boom(I, 'attempt to negate with overflow')
    return negated(I, a, dty)[0]


@num('wrapping_abs')
def _wabs(I, fn, args, dty):
    a = I.force(args[0])
    lo, hi = I.int_range(dty)
    return a if not I.lt(a, 0) or I.eqi(a, lo) else negated(I, a, dty)[0]


@num('saturating_abs')
def _sabs(I, fn, args, dty):
    a = I.force(args[0])
    lo, hi = I.int_range(dty)
    return a if not I.lt(a, 0) else hi if I.eqi(a, lo) else negated(I, a, dty)[0]


@num('unsigned_abs')
def _uabs(I, fn, args, dty):
    a = I.force(args[0])
    return a if not I.lt(a, 0) else negated(I, a, dty)[0]


@num('wrapping_neg')
def _wneg(I, fn, args, dty):
    a = I.force(args[0])
    lo, hi = I.int_range(dty)
    if isinstance(a, int):
        return I.wrap(-a, I.p.types[dty])
    if lo == 0:
        raise Unknown('wrapping negation')
    return a if I.eqi(a, lo) else negated(I, a, dty)[0]


def _two(name, f):
    @num(name)
    def g(I, fn, args, dty):
        a, b = I.force(args[0]), I.force(args[1])
        if not (isinstance(a, int) and isinstance(b, int)):
            raise Unknown(name)
        return f(I, a, b, dty)


def _fits(I, r, dty):
    if r is None:
        return opt(dty, None)
    lo, hi = I.int_range(I.p.types[dty]['args'][0])
    return opt(dty, r if lo <= r <= hi else None)


def _trunc(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def _sat(I, r, dty):
    lo, hi = I.int_range(dty)
    return max(lo, min(hi, r))


_two('checked_pow', lambda I, a, b, d: _fits(I, a ** b, d))
_two('checked_div', lambda I, a, b, d: _fits(I, _trunc(a, b) if b else None, d))
_two('checked_rem', lambda I, a, b, d: _fits(I, a - b * _trunc(a, b) if b else None, d))
_two('saturating_mul', lambda I, a, b, d: _sat(I, a * b, d))
_two('saturating_pow', lambda I, a, b, d: _sat(I, a ** b, d))
_two('wrapping_pow', lambda I, a, b, d: I.wrap(a ** b, I.p.types[d]))
for _o, _fo in (('add', lambda a, b: a + b), ('sub', lambda a, b: a - b), ('mul', lambda a, b: a * b)):
    def _ovf(I, fn, args, dty, _o=_o):
        return I.checked(_o.capitalize(), I.force(args[0]), I.force(args[1]), fn['self'])
    num('overflowing_' + _o)(_ovf)


@num('rem_euclid')
def _reme(I, fn, args, dty):
    a, b = I.force(args[0]), I.force(args[1])
    if I.eqi(b, 0):
        boom(I, 'attempt to calculate the remainder with a divisor of zero')
    if isinstance(a, int) and isinstance(b, int):
        lo, hi = I.int_range(dty)
        if a == lo and b == -1 and lo < 0:
            boom(I, 'attempt to calculate the remainder with overflow')
        return a % abs(b)
    return I.opaque_int('rem_euclid', a, b, dty)


@num('div_euclid')
def _dive(I, fn, args, dty):
    a, b = I.force(args[0]), I.force(args[1])
    if I.eqi(b, 0):
        boom(I, 'attempt to divide by zero')
    if isinstance(a, int) and isinstance(b, int):
        r = a % abs(b)
        q = (a - r) // b
        lo, hi = I.int_range(dty)
        if q > hi:
            boom(I, 'attempt to divide with overflow')
        return q
    return I.opaque_int('div_euclid', a, b, dty)


@num('pow')
def _pow(I, fn, args, dty):
    a, b = I.force(args[0]), I.force(args[1])
    if isinstance(a, int) and isinstance(b, int):
        lo, hi = I.int_range(dty)
        if not lo <= a ** b <= hi:
            boom(I, 'attempt to multiply with overflow')
        return a ** b
    return I.opaque_int('pow', a, b, dty)


def byte_class(rs):
    def f(I, fn, args, dty):
        v = I.deref_all(args[0])
        if isinstance(v, int):
            return L.cs_has(rs, v) and v < 128
        if v.base[0] == 'ord' and v.k == 0 and v.base[2] == 'code':
            return I.in_lang(v.base[1], L.L_chars(rs))
        return any(I.le(a, v) and I.le(v, b) for a, b in rs)
    return f


for _n, _rs in M.ASCP.items():
    PATHS['core::num::<impl u8>::' + _n] = byte_class(_rs)


@model('core::num::<impl u8>::to_ascii_lowercase', 'core::num::<impl u8>::to_ascii_uppercase')
def _u8case(I, fn, args, dty):
    v = I.deref_all(args[0])
    w = 'lower' if 'lower' in fn['path'] else 'upper'
    if isinstance(v, int):
        return ord(chr(v).lower() if w == 'lower' else chr(v).upper()) if v < 128 else v
    if v.base[0] == 'ord' and v.k == 0 and v.base[2] == 'code':
        return Lin(('ord', case_term(I, v.base[1], w, True), 'code'), 0)
    if v.base[0] == 'ord' and v.k == 0 or v.base[:2] == ('op', 'byte'):
        return v
    raise Unknown(w + 'case byte')


@model('core::num::<impl u8>::eq_ignore_ascii_case')
def _u8eqic(I, fn, args, dty):
    g = dict(fn, path='to_ascii_lowercase')
    return I.eqi(_u8case(I, g, [args[0]], dty), _u8case(I, g, [args[1]], dty))


@method('core::convert::From::from', 'char')
def _charfrom(I, fn, args, dty):
    v = I.force(args[0])
    if isinstance(v, Chr):
        return v
    return Chr(('lit', chr(v))) if isinstance(v, int) else I.char_of(v)


@model('core::char::convert::<impl core::convert::From<u8> for char>::from')
def _charfrom8(I, fn, args, dty):
    return _charfrom(I, fn, args, dty)


@model('core::char::convert::from_u32', 'core::char::from_u32', 'core::char::methods::<impl char>::from_u32')
def _from32(I, fn, args, dty):
    v = I.force(args[0])
    if isinstance(v, int):
        return opt(dty, Chr(('lit', chr(v))) if v < 0xD800 or 0xDFFF < v <= 0x10FFFF else None)
    return opt(dty, I.char_of(v))


@model('core::char::convert::from_digit', 'core::char::from_digit', 'core::char::methods::<impl char>::from_digit')
def _fromdigit(I, fn, args, dty):
    v, r = I.force(args[0]), I.force(args[1])
    if not I.lt(v, r):
        return opt(dty, None)
    if isinstance(v, int):
        return opt(dty, Chr(('lit', '0123456789abcdefghijklmnopqrstuvwxyz'[v])))
    raise Unknown('from_digit')


for _n in ('Range', 'RangeInclusive', 'RangeFrom', 'RangeTo', 'RangeToInclusive'):
    def _mkr(n):
        def f(I, fn, args, dty):
            r = I.deref_all(args[0])
            x = I.get(I.force(args[1]))
            e = fn['args'][0]
            xs = [I.force(y) for y in r.fs]
            lo = xs[0] if n in ('Range', 'RangeInclusive', 'RangeFrom') else None
            hi = xs[1] if n in ('Range', 'RangeInclusive') else xs[0] if n != 'RangeFrom' else None
            le = (lambda a, b, s: val_cmp(I, a, b, e) <= -s) if I.p.types[e]['k'] not in ('int', 'uint', 'char') else \
                (lambda a, b, s: I.binop('Lt' if s else 'Le', a, b, None))
            if lo is not None and not le(lo, x, 0):
                return False
            return hi is None or le(x, hi, 0 if 'Inclusive' in n else 1)
        return f
    PATHS['core::ops::range::%s::<Idx>::contains' % _n] = _mkr(_n)


# ------------------------------------------------------------------ bytes of texts: a Str read as a byte slice
def byte_values(I, c):
    w = I.word(c)
    if w is not None:
        return tuple(w.encode())
    if I.in_lang(c, L.L_utf8(1)):
        return (Lin(('ord', c, 'code'), 0),)
    n = 2 if I.in_lang(c, L.L_utf8(2)) else 3 if I.in_lang(c, L.L_utf8(3)) else 4
    out = [Lin(('ord', c, 'lead'), 0)]
    for i in range(1, n):
        t = ('op', 'byte', c, i)
        RANGES.setdefault(t, (0x80, 0xBF))
        out.append(Lin(t, 0))
    return tuple(out)


@itnext('bytes')
def _bytesnext(I, it, back):
    pre, t, post = it.a
    if not back and pre:
        return pre[0], X('bytes', (pre[1:], t, post))
    if back and post:
        return post[-1], X('bytes', (pre, t, post[:-1]))
    if I.in_lang(t, L.EPS):
        if back and pre:
            return pre[-1], X('bytes', (pre[:-1], t, post))
        if not back and post:
            return post[0], X('bytes', (pre, t, post[1:]))
        return None, X('bytes', ((), ('lit', ''), ()))
    c, rest = first_char(I, t, back)
    bs = byte_values(I, c)
    if back:
        return bs[-1], X('bytes', (pre, rest, bs[:-1] + post))
    return bs[0], X('bytes', (pre + bs[1:], rest, post))


@model(S + 'bytes')
def _bytes(I, fn, args, dty):
    return X('bytes', ((), I.text(args[0]), ()))


@model(S + 'as_bytes', 'alloc::string::String::as_bytes', 'alloc::string::String::into_bytes')
def _asbytes(I, fn, args, dty):
    t = I.text(args[0])
    w = I.word(t)
    s = Seq(tuple(('i', b) for b in w.encode())) if w is not None else Str(t)
    return s if fn['path'].endswith('into_bytes') else ref(s)


def text_of_bytes(I, v):
    v = I.deref_all(v)
    if isinstance(v, Str):
        return v.t
    out = []
    raw = []

    def flush():
        if raw:
            try:
                out.append(('lit', bytes(raw).decode()))
            except UnicodeDecodeError:
                return False
            raw.clear()
        return True
    for b in I.items(v):
        b = I.force(b)
        if isinstance(b, int):
            raw.append(b)
            continue
        if not (b.base[0] == 'ord' and b.k == 0 and b.base[2] == 'code'):
            raise Unknown('text of bytes')
        if not flush():
            return None
        out.append(b.base[1])
    return cat(out) if flush() else None


@model('core::str::converts::from_utf8', 'alloc::string::String::from_utf8')
def _fromutf8(I, fn, args, dty):
    t = text_of_bytes(I, args[0])
    if t is None:
        e = I.p.types[dty]['args'][1]
        return Adt(dty, 1, (X('opaque', (('utf8error',), e)),))
    return Adt(dty, 0, (ref(Str(t)) if 'converts' in fn['path'] else Str(t),))


@model('core::str::converts::from_utf8_unchecked', 'alloc::string::String::from_utf8_unchecked')
def _fromutf8u(I, fn, args, dty):
    t = text_of_bytes(I, args[0])
    return ref(Str(t)) if 'converts' in fn['path'] else Str(t)


@model('alloc::string::String::from_utf8_lossy')
def _lossy(I, fn, args, dty):
    t = text_of_bytes(I, args[0])
    if t is None:
        raise Unknown('invalid UTF-8')
    return Adt(dty, 0, (ref(Str(t)),))


# ------------------------------------------------------------------ text iterators
WS = L.cs_class('s')


@model(S + 'split_whitespace', S + 'split_ascii_whitespace')
def _splitws(I, fn, args, dty):
    return X('splitws', (I.text(args[0]), L.cs_of(' \t\n\r\x0c') if 'ascii' in fn['path'] else WS))


@itnext('splitws')
def _splitwsnext(I, it, back):
    t, cs = it.a
    if back:
        raise Unknown('split_whitespace from the back')
    if I.in_lang(t, L.L_chars(cs).star()):
        return None, X('splitws', (('lit', ''), cs))
    t = strip_start(I, t, cs)
    if not I.in_lang(t, L.ALL + L.L_chars(cs) + L.ALL):
        return ref(Str(t)), X('splitws', (('lit', ''), cs))
    return ref(Str(before(I, t, cs, 'first'))), X('splitws', (after(I, t, cs, 'first'), cs))


def strip_start(I, t, cs):
    w = I.word(t)
    if w is not None:
        i = 0
        while i < len(w) and L.cs_has(cs, ord(w[i])):
            i += 1
        return ('lit', w[i:])
    if (I.f.get_lang(t) & (L.L_chars(cs) + L.ALL)).is_empty():
        return t
    return trim_term(I, t, 'start', cs)


@model(S + 'lines')
def _lines(I, fn, args, dty):
    t = I.text(args[0])
    w = I.word(t)
    if w is not None:
        xs = w.split('\n')
        if xs[-1] == '':
            xs.pop()
        else:
            xs[-1] += '\r' if xs[-1].endswith('\r') else ''
        return X('iter', (Seq(tuple(('i', lit(x[:-1] if x.endswith('\r') else x)) for x in xs)), 'val'))
    if I.in_lang(t, L.L_chars(L.cs_neg(L.cs_of('\n'))).star()):
        return X('iter', (Seq(() if I.in_lang(t, L.EPS) else (('i', ref(Str(t))),)), 'val'))
    raise Unknown('lines of a text')


@model(S + 'split_inclusive')
def _splitinc(I, fn, args, dty):
    p = pattern(I, args[1], args[0])
    if p[0] != 'chars':
        raise Unknown('split_inclusive at a text')
    return X('splitinc', (I.text(args[0]), p[1]))


def the_char(I, t, cs, w='first'):
    """the character of the set where a text is cut"""
    w = I.word(t)
    if sum(b - a + 1 for a, b in cs) == 1:
        return chr(cs[0][0])
    al = L.cs_and(I.f.get_lang(t).alphabet(), cs)
    if sum(b - a + 1 for a, b in al) == 1:
        return chr(al[0][0])
    raise Unknown('which character a text is cut at')


@itnext('splitinc')
def _splitincnext(I, it, back):
    t, cs = it.a
    if back:
        raise Unknown('split_inclusive from the back')
    if I.in_lang(t, L.EPS):
        return None, it
    if not I.in_lang(t, L.ALL + L.L_chars(cs) + L.ALL):
        return ref(Str(t)), X('splitinc', (('lit', ''), cs))
    a, c, r = cut_at(I, t, cs)
    return ref(Str(cat([a, c]))), X('splitinc', (r, cs))


def cut_at(I, t, cs):
    """(before, character, after) at the first character of a set"""
    w = I.word(t)
    if w is not None:
        i = next(k for k, c in enumerate(w) if L.cs_has(cs, ord(c)))
        return ('lit', w[:i]), ('lit', w[i]), ('lit', w[i + 1:])
    return before(I, t, cs, 'first'), ('lit', the_char(I, t, cs)), after(I, t, cs, 'first')


@model(S + 'matches', S + 'match_indices')
def _strmatches(I, fn, args, dty):
    t, p = I.text(args[0]), pattern(I, args[1], args[0])
    ind = fn['path'].endswith('indices')
    w = I.word(t)
    if p[0] == 'text':
        if w is None:
            if not I.in_lang(t, L.ALL + L.L_lit(p[1]) + L.ALL):
                return X('iter', (Seq(()), 'val'))
            raise Unknown('matches of a longer text')
        ms = [(m.start(), m.group()) for m in _re.finditer(_re.escape(p[1]), w)]
        return X('iter', (Seq(tuple(('i', Tup((len(w[:i].encode()), lit(x))) if ind else lit(x)) for i, x in ms)), 'val'))
    return X('strmatches', (t, 0, p[1], ind))


@itnext('strmatches')
def _strmatchesnext(I, it, back):
    t, off, cs, ind = it.a
    if back:
        raise Unknown('matches from the back')
    if not I.in_lang(t, L.ALL + L.L_chars(cs) + L.ALL):
        return None, X('strmatches', (('lit', ''), off, cs, ind))
    a, c, r = cut_at(I, t, cs)
    p = None
    if ind:
        u = M.usize_ty(I)
        p = off if I.in_lang(a, L.EPS) else I.arith('Add', I.blen(a), off, u)[0] if not (isinstance(off, int) and isinstance(I.blen(a), int)) else off + I.blen(a)
        n = len(c[1].encode())
        off = p + n if isinstance(p, int) else I.add(p, n)
    return (Tup((p, ref(Str(c)))) if ind else ref(Str(c))), X('strmatches', (r, off, cs, ind))


@model(S + 'make_ascii_lowercase', S + 'make_ascii_uppercase')
def _mkcase(I, fn, args, dty):
    r = I.force(args[0])
    I.set(r, Str(case_term(I, I.text(r), 'lower' if 'lower' in fn['path'] else 'upper', True)))
    return UNIT


@model('core::char::methods::<impl char>::to_lowercase', 'core::char::methods::<impl char>::to_uppercase')
def _chlower(I, fn, args, dty):
    c = I.deref_all(args[0])
    return X('chars', (case_term(I, c.t, 'lower' if 'lower' in fn['path'] else 'upper', False), 0, False))


@model('alloc::string::String::retain')
def _sretain(I, fn, args, dty):
    t = I.text(args[0])
    w = I.word(t)
    if w is not None:
        out = ''.join(c for c in w if I.force(I.callv(args[1], [Chr(('lit', c))])))
        I.set(args[0], Str(('lit', out)))
        return UNIT
    cs = M.closure_set(I, args[1])
    I.set(args[0], Str(without(I, t, cs)))
    return UNIT


def without(I, t, keep):
    """t without the characters outside a set"""
    gone = L.cs_and(I.f.get_lang(t).alphabet(), L.cs_neg(keep))
    if not gone:
        return t
    if I.in_lang(t, L.L_chars(keep).star()):
        return t
    if sum(b - a + 1 for a, b in gone) > 200:
        raise Unknown('removal of a large class')
    return hom(I, t, tuple((chr(c), '') for a, b in gone for c in range(a, b + 1)))


@model('alloc::string::String::remove')
def _sremove(I, fn, args, dty):
    t, i = I.text(args[0]), I.force(args[1])
    n = I.blen(t)
    if M.same(I, i, 0):
        a, b = ('lit', ''), t
    else:
        a = t if M.same(I, i, n) else M.cut_end(I, t, i, n)
        b = ('lit', '') if M.same(I, i, n) else M.cut_start(I, t, i, t)
    if a is None or b is None or I.in_lang(b, L.EPS):
        boom(I, 'cannot remove a char from the end of a string')
    c, r = first_char(I, b)
    I.set(args[0], Str(cat([a, r])))
    return Chr(c)


# ------------------------------------------------------------------ regex
@model('regex::re_unicode::escape', 'regex_syntax::escape')
def _reescape(I, fn, args, dty):
    t = I.text(args[0])
    return Str(hom(I, t, tuple((c, '\\' + c) for c in '\\.+*?()|[]{}^$#&-~')))


def spans(I, re, w):
    out, pos = [], 0
    m = M.Matcher(I, ('lit', w))
    while True:
        g = m.search(re.a[1], pos)
        if g is None:
            return out
        a, b = m.span
        if a == b:
            raise Unknown('empty match')
        out.append((a, b))
        pos = b


def single_class(e):
    e = M.strip_groups(e)
    r = M.class_run(e)
    return r[0] if r is not None and e[0] != 'rep' else None


@model('regex::re_unicode::Regex::split')
def _resplit(I, fn, args, dty):
    re, t = I.deref_all(args[0]), I.text(args[1])
    if re.kind != 'regex' or re.a[1] is None:
        raise Unknown('split at an opaque pattern')
    w = I.word(t)
    if w is not None:
        xs, p = [], 0
        for a, b in spans(I, re, w):
            xs.append(w[p:a])
            p = b
        xs.append(w[p:])
        return X('iter', (Seq(tuple(('i', lit(x)) for x in xs)), 'val'))
    cs = single_class(re.a[1])
    if cs is None:
        raise Unknown('split of an unknown text')
    return X('iter', (M.split_seq(I, t, cs), 'val'))


@model('regex::re_unicode::Regex::replace_all', 'regex::re_unicode::Regex::replace')
def _rereplace(I, fn, args, dty):
    re, t = I.deref_all(args[0]), I.text(args[1])
    if re.kind != 'regex' or re.a[1] is None:
        raise Unknown('replace of an opaque pattern')
    to = I.word(I.text(args[2]))
    if to is None or '$' in to:
        raise Unknown('replacement')
    w = I.word(t)
    if w is not None:
        out, p = '', 0
        for a, b in spans(I, re, w):
            out += w[p:a] + to
            p = b
            if not fn['path'].endswith('all'):
                break
        return Adt(dty, 1, (Str(('lit', out + w[p:])),))
    cs = single_class(re.a[1])
    if cs is None or not fn['path'].endswith('all') or sum(b - a + 1 for a, b in cs) > 200:
        raise Unknown('replace in an unknown text')
    return Adt(dty, 1, (Str(hom(I, t, tuple((chr(c), to) for a, b in cs for c in range(a, b + 1)))),))


@model('unicase::eq')
def _uceq(I, fn, args, dty):
    return M.ucmp(I, I.text(args[0]), I.text(args[1])) == 0


@model('unicase::eq_ascii')
def _uceqa(I, fn, args, dty):
    return M.ucmp(I, I.text(args[0]), I.text(args[1]), True) == 0


# ------------------------------------------------------------------ slices and vectors
def insertion(I, xs, cmp):
    out = []
    for x in xs:
        i = len(out)
        while i > 0 and cmp(out[i - 1], x) > 0:
            i -= 1
        out.insert(i, x)
    return out


SL = 'alloc::slice::<impl [T]>::'


@model(SL + 'sort', SL + 'sort_by', SL + 'sort_by_key', SL + 'sort_by_cached_key', 'core::slice::<impl [T]>::sort_unstable',
       'core::slice::<impl [T]>::sort_unstable_by', 'core::slice::<impl [T]>::sort_unstable_by_key')
def _sort(I, fn, args, dty):
    xs = I.items(I.deref_all(args[0]))
    e = I.p.types[fn['self']]['e']
    n = fn['path'].rsplit('::', 1)[1]
    if n.endswith('_key'):
        kt = fn['args'][1] if len(fn['args']) > 2 else None
        keys = [(I.callv(args[1], [ref(x)]), x) for x in xs]
        kt = [a for a in fn['args'] if isinstance(a, int)]
        kt = kt[1]
        if 'unstable' in n and len(xs) > 1:
            I.taint('unstable sort by key')
        ys = [x for _, x in insertion(I, keys, lambda a, b: val_cmp(I, a[0], b[0], kt))]
    elif n.endswith('_by'):
        ys = insertion(I, xs, lambda a, b: I.force(I.callv(args[1], [ref(a), ref(b)])).v - 1)
    else:
        ys = insertion(I, xs, lambda a, b: val_cmp(I, a, b, e))
    I.set(I.force(args[0]), Seq(tuple(('i', x) for x in ys)))
    return UNIT


@model('alloc::vec::Vec::<T, A>::dedup', 'alloc::vec::Vec::<T, A>::dedup_by_key', 'alloc::vec::Vec::<T, A>::dedup_by')
def _dedup(I, fn, args, dty):
    r = I.force(args[0])
    xs = I.items(I.getf(r))
    e = fn['args'][0]
    out = []
    key = None
    for x in xs:
        if fn['path'].endswith('key'):
            k = I.callv(args[1], [ref(x)])
            if out and val_eq(I, key, k, [a for a in fn['args'] if isinstance(a, int)][-1]):
                continue
            key = k
        elif fn['path'].endswith('by'):
            if out and I.force(I.callv(args[1], [ref(x), ref(out[-1])])):
                continue
        elif out and val_eq(I, out[-1], x, e):
            continue
        out.append(x)
    I.set(r, Seq(tuple(('i', x) for x in out)))
    return UNIT


@model('core::slice::<impl [T]>::rotate_left', 'core::slice::<impl [T]>::rotate_right')
def _rotate(I, fn, args, dty):
    xs = I.items(I.deref_all(args[0]))
    k = I.force(args[1])
    if not isinstance(k, int):
        raise Unknown('rotate')
    if k > len(xs):
        boom(I, 'assertion failed: mid <= self.len()')
    if fn['path'].endswith('right'):
        k = len(xs) - k
    I.set(I.force(args[0]), Seq(tuple(('i', x) for x in xs[k:] + xs[:k])))
    return UNIT


@model('core::slice::<impl [T]>::fill')
def _fill(I, fn, args, dty):
    n = len(I.items(I.deref_all(args[0])))
    I.set(I.force(args[0]), Seq(tuple(('i', args[1]) for _ in range(n))))
    return UNIT


@model('core::slice::<impl [T]>::get_mut')
def _getmut(I, fn, args, dty):
    r, i = I.force(args[0]), I.force(args[1])
    if not isinstance(i, (int, Lin)):
        raise Unknown('mutable subslice')
    if not I.lt(i, I.seq_len(I.getf(r))):
        return opt(dty, None)
    return opt(dty, Ref(r.cell, r.path + (('i', i),)))


@model('alloc::vec::from_elem')
def _fromelem(I, fn, args, dty):
    n = I.force(args[1])
    if isinstance(n, Lin):
        v = I.f.value(n.base)
        if v is None:
            return Seq((('f', args[0], n),)) if False else _unk('vec![_; n]')
        n = v + n.k
    return Seq(tuple(('i', args[0]) for _ in range(n)))


def _unk(s):
    raise Unknown(s)


@model('alloc::vec::Vec::<T, A>::resize')
def _resize(I, fn, args, dty):
    r, n = I.force(args[0]), I.force(args[1])
    s = I.getf(r)
    m = I.seq_len(s)
    if I.le(n, m):
        I.set(r, I.seq_slice(s, 0, n))
        return UNIT
    k = 0
    while I.lt(I.add(m, k) if k else m, n):
        k += 1
        if k > max(I.loops, 8):
            raise Cut('resize', True)
    I.set(r, Seq(s.segs + tuple(('i', args[2]) for _ in range(k))))
    return UNIT


@model('alloc::vec::Vec::<T, A>::into_boxed_slice')
def _intobox(I, fn, args, dty):
    return BoxV(Cell(I.force(args[0])))


@method('alloc::vec::spec_from_iter::SpecFromIter::from_iter')
def _specfrom(I, fn, args, dty):
    return Seq(tuple(('i', x) for x in into_items(I, args[0], fn['args'][-1])))


FORCE_TRAITS.add('alloc::vec::spec_from_iter::SpecFromIter::from_iter')


@method('core::array::equality::SpecArrayEq::spec_eq')
def _speceq(I, fn, args, dty):
    return M.seq_eq(I, I.deref_all(args[0]), I.deref_all(args[1]), fn['args'][0])


@model('alloc::boxed::convert::<impl core::convert::From<&str> for alloc::boxed::Box<str>>::from')
def _boxstr(I, fn, args, dty):
    return BoxV(Cell(Str(I.text(args[0]))))


_join0 = PATHS['alloc::slice::<impl [T]>::join']


@model('alloc::slice::<impl [T]>::join', 'alloc::slice::<impl [T]>::concat')
def _join(I, fn, args, dty):
    t = I.p.types[dty] if dty is not None else None
    if t is not None and t.get('path') == 'alloc::vec::Vec':
        segs = ()
        for i, x in enumerate(I.items(I.deref_all(args[0]))):
            if i and len(args) > 1:
                y = I.deref_all(args[1])
                segs += y.segs if isinstance(y, Seq) else (('i', y),)
            segs += I.deref_all(x).segs
        return Seq(segs)
    return _join0(I, fn, args, dty)


# ------------------------------------------------------------------ iterators
@model('core::iter::adapters::step_by::StepBy::<I>::new')
def _stepby(I, fn, args, dty):
    k = I.force(args[1])
    if not isinstance(k, int):
        raise Unknown('step_by')
    if k == 0:
        boom(I, 'assertion failed: step != 0')
    return X('stepby', (args[0], fn['args'][0], k, True))


@method(IT + 'next', 'core::iter::adapters::step_by::StepBy')
def _stepnext(I, fn, args, dty):
    v, ty, k, first = I.getf(args[0]).a
    st = Stepper(I, v, ty)
    ok, x = st.next()
    for _ in range(0 if first else k - 1):
        if not ok:
            break
        ok, x = st.next()
    I.set(args[0], X('stepby', (st.cell.v, ty, k, False)))
    return opt(dty, x if ok else None)


@method('core::iter::adapters::zip::ZipImpl::new')
def _zipnew(I, fn, args, dty):
    ts = [a for a in fn['args'] if isinstance(a, int)]
    return X('zip', (args[0], ts[0], args[1], ts[1]))


FORCE_TRAITS.add('core::iter::adapters::zip::ZipImpl::new')
PATHS['<core::iter::adapters::zip::Zip<A, B> as core::iter::adapters::zip::ZipImpl<A, B>>::new'] = _zipnew


@method(DIT + 'next_back', 'core::iter::adapters::zip::Zip')
def _zipback(I, fn, args, dty):
    z = I.getf(args[0])
    n, m = M.exact_len(I, z.a[0], z.a[1]), M.exact_len(I, z.a[2], z.a[3])
    if n is None or m is None:
        raise Unknown('zip from the back')
    a, b = Stepper(I, z.a[0], z.a[1], True), Stepper(I, z.a[2], z.a[3], True)
    k = 0
    while not I.eqi(n, m):
        if I.lt(m, n):
            a.next()
            n = I.add(n, -1)
        else:
            b.next()
            m = I.add(m, -1)
        k += 1
        if k > max(I.loops, 16):
            raise Cut('zip from the back', True)
    p, x = a.next()
    q, y = b.next() if p else (False, None)
    I.set(args[0], X('zip', (a.cell.v, z.a[1], b.cell.v, z.a[3])))
    return opt(dty, Tup((x, y)) if p and q else None)


@method('core::clone::Clone::clone', 'core::iter::adapters::zip::Zip', 'core::iter::adapters::step_by::StepBy')
def _zipclone(I, fn, args, dty):
    return I.getf(args[0])


def _boxiter(name):
    def f(I, fn, args, dty):
        b = I.getf(args[0])
        inner = b.cell.v if isinstance(b, BoxV) else I.getf(b) if isinstance(b, Ref) else b
        if isinstance(inner, Ref):
            inner = I.force(inner)
        d = b if isinstance(b, Dyn) else inner
        if isinstance(d, Dyn):
            ms = [f for f in (d.vt or ()) if f is not None and I.p.fns[f]['path'].rsplit('::', 1)[-1] == name]
            if len(ms) != 1:
                raise Unknown('boxed iterator')
            m = ms[0]
            return I.call(m, [d.ref] + list(args[1:]), dty)
        it = [a for a in fn['args'] if isinstance(a, int)][0]
        m = I.method(it, name)
        if m is None:
            raise Unknown('boxed iterator')
        return I.call(m, [Ref(b.cell, ())] + list(args[1:]), dty)
    return f


for _n, _m in ((IT + 'next', 'next'), (DIT + 'next_back', 'next_back')):
    METHODS[(_n, 'alloc::boxed::Box')] = _boxiter(_m)


# ------------------------------------------------------------------ maps and sets: sequences of pairs, or of keys, in insertion or key order
HM, BM = 'std::collections::hash::map::HashMap', 'alloc::collections::btree::map::BTreeMap'
HS, BS = 'std::collections::hash::set::HashSet', 'alloc::collections::btree::set::BTreeSet'


def maps(*names):
    def deco(f):
        for n in names:
            for p in (HM + '::<K, V, S, A>::', HM + '::<K, V, S>::', HM + '::<K, V>::', BM + '::<K, V, A>::', BM + '::<K, V>::', BM + '::<K, V, S>::'):
                PATHS[p + n] = f
        return f
    return deco


def sets(*names):
    def deco(f):
        for n in names:
            for p in (HS + '::<T, S, A>::', HS + '::<T, S>::', HS + '::<T>::', BS + '::<T, A>::', BS + '::<T>::'):
                PATHS[p + n] = f
        return f
    return deco


def is_tree(fn):
    return 'btree' in fn['path']


def keys_eq(I, a, b, ty):
    x, y = I.deref_all(a), I.deref_all(b)
    if isinstance(x, Str) and isinstance(y, Str):
        return I.str_eq(x.t, y.t)
    return val_eq(I, a, b, ty)


def owner(I, fn):
    """(key type) of the map or set a method is called on"""
    st = I.p.types[fn['self']] if fn.get('self') is not None else None
    if st is not None and st.get('args') and ('Map' in st['path'] or 'Set' in st['path']):
        return [a for a in st['args'] if isinstance(a, int)][0]
    return [a for a in fn['args'] if isinstance(a, int)][0]


def content(I, r):
    s = I.deref_all(r)
    if not isinstance(s, Seq):
        raise Unknown('map or set')
    return [I.force(x) for x in I.items(s)]


def find_key(I, fn, r, key, pair=True):
    kt = owner(I, fn)
    for i, x in enumerate(content(I, r)):
        if keys_eq(I, x.fs[0] if pair else x, key, kt):
            return i
    return None


def place(I, fn, xs, new, key, pair):
    """insert a new entry where it belongs"""
    if is_tree(fn):
        kt = owner(I, fn)
        i = 0
        while i < len(xs) and val_cmp(I, xs[i].fs[0] if pair else xs[i], key, kt) < 0:
            i += 1
        return xs[:i] + [new] + xs[i:], i
    return xs + [new], len(xs)


def seq(xs):
    return Seq(tuple(('i', x) for x in xs))


@maps('new', 'with_capacity')
@sets('new', 'with_capacity')
def _mnew(I, fn, args, dty):
    return Seq(())


@method('core::default::Default::default', HM, BM, HS, BS)
def _mdef(I, fn, args, dty):
    return Seq(())


def lookup(I, fn, args, pair=True):
    return find_key(I, fn, args[0], I.get(I.force(args[1])), pair)


@maps('get', 'get_mut')
def _mget(I, fn, args, dty):
    i = lookup(I, fn, args)
    if i is None:
        return opt(dty, None)
    r = base_ref(I, args[0])
    return opt(dty, Ref(r.cell, r.path + (('i', i), ('f', 1, None, None))))


def base_ref(I, r):
    r = I.force(r)
    while True:
        w = I.getf(r)
        if isinstance(w, Ref):
            r = w
        elif isinstance(w, BoxV):
            r = Ref(w.cell, ())
        else:
            return r


@maps('contains_key')
def _mhas(I, fn, args, dty):
    return lookup(I, fn, args) is not None


@sets('contains')
def _shas(I, fn, args, dty):
    return lookup(I, fn, args, False) is not None


@sets('get')
def _sget(I, fn, args, dty):
    i = lookup(I, fn, args, False)
    return opt(dty, None if i is None else ref(content(I, args[0])[i]))


@maps('insert')
def _mins(I, fn, args, dty):
    i = find_key(I, fn, args[0], args[1])
    xs = content(I, args[0])
    r = base_ref(I, args[0])
    if i is None:
        ys, _ = place(I, fn, xs, Tup((args[1], args[2])), args[1], True)
        I.set(r, seq(ys))
        return opt(dty, None)
    old = xs[i].fs[1]
    xs[i] = Tup((xs[i].fs[0], args[2]))
    I.set(r, seq(xs))
    return opt(dty, old)


@sets('insert', 'replace')
def _sins(I, fn, args, dty):
    i = find_key(I, fn, args[0], args[1], False)
    if i is not None:
        return False
    ys, _ = place(I, fn, content(I, args[0]), args[1], args[1], False)
    I.set(base_ref(I, args[0]), seq(ys))
    return True


@maps('remove', 'remove_entry')
@sets('remove', 'take')
def _mrem(I, fn, args, dty):
    pair = 'Map' in fn['path'].split('::<')[0] or '::map::' in fn['path']
    i = lookup(I, fn, args, pair)
    xs = content(I, args[0])
    if i is not None:
        I.set(base_ref(I, args[0]), seq(xs[:i] + xs[i + 1:]))
    if not pair:
        return i is not None if fn['path'].endswith('remove') else opt(dty, None if i is None else xs[i])
    if i is None:
        return opt(dty, None)
    return opt(dty, xs[i] if fn['path'].endswith('entry') else xs[i].fs[1])


@maps('len')
@sets('len')
def _mlen(I, fn, args, dty):
    return I.seq_len(I.deref_all(args[0]))


@maps('is_empty')
@sets('is_empty')
def _mempty(I, fn, args, dty):
    return I.eqi(I.seq_len(I.deref_all(args[0])), 0)


@maps('clear')
@sets('clear')
def _mclear(I, fn, args, dty):
    I.set(base_ref(I, args[0]), Seq(()))
    return UNIT


def calmly(I, v, ty):
    """the elements of an iterator, to be put where their order does not matter"""
    was, I.calm = I.calm, True
    try:
        return into_items(I, v, ty)
    finally:
        I.calm = was


@maps('keys', 'values', 'iter', 'values_mut', 'iter_mut', 'into_keys', 'into_values', 'drain')
@sets('iter', 'drain')
def _miter(I, fn, args, dty):
    n = fn['path'].rsplit('::', 1)[1]
    pair = '::map::' in fn['path']
    into = n.startswith('into')
    src = I.force(args[0]) if into else None
    xs = [I.force(x) for x in I.items(src)] if isinstance(src, Seq) else content(I, args[0])
    r = None if into else base_ref(I, args[0])
    out = []
    for i, x in enumerate(xs):
        at = (lambda j: Ref(r.cell, r.path + (('i', i), ('f', j, None, None)))) if r is not None else None
        if not pair:
            out.append(x if n == 'drain' else ref(x))
        elif n == 'keys':
            out.append(ref(x.fs[0]))
        elif n == 'into_keys':
            out.append(x.fs[0])
        elif n == 'into_values':
            out.append(x.fs[1])
        elif n in ('values', 'values_mut'):
            out.append(at(1))
        elif n == 'drain':
            out.append(x)
        else:
            out.append(Tup((ref(x.fs[0]), at(1))))
    if n == 'drain':
        I.set(r, Seq(()))
    return X('iter', (seq(out), 'val' if is_tree(fn) else 'unord'))


@method('core::iter::traits::collect::IntoIterator::into_iter', HM, BM, HS, BS)
def _minto(I, fn, args, dty):
    v = I.force(args[0])
    if not isinstance(v, Seq):
        return NotImplemented
    return X('iter', (v, 'val' if is_tree({'path': I.p.types[fn['self']]['path']}) else 'unord'))


def _mrefinto(I, fn, args, dty):
    t = I.p.types[fn['self']]
    p = I.p.types[t['e']]['path']
    return _miter(I, dict(fn, path=p + '::iter', self=t['e']), args, dty)


for _p in ("<&'a std::collections::hash::map::HashMap<K, V, S, A>", "<&'a std::collections::hash::map::HashMap<K, V, S>",
           "<&'a alloc::collections::btree::map::BTreeMap<K, V, A>", "<&'a std::collections::hash::set::HashSet<T, S, A>",
           "<&'a std::collections::hash::set::HashSet<T, S>", "<&'a alloc::collections::btree::set::BTreeSet<T, A>"):
    PATHS[_p + ' as core::iter::traits::collect::IntoIterator>::into_iter'] = _mrefinto


@method('core::iter::traits::collect::FromIterator::from_iter', HM, BM, HS, BS)
def _mfrom(I, fn, args, dty):
    p = I.p.types[fn['self']]['path']
    c = Cell(Seq(()))
    g = dict(fn, path=p + '::')
    for x in calmly(I, args[0], fn['args'][-1]):
        if 'Map' in p:
            x = I.force(x)
            _mins(I, g, [Ref(c, ()), x.fs[0], x.fs[1]], None)
        else:
            _sins(I, g, [Ref(c, ()), x], None)
    return c.v


@method('core::iter::traits::collect::Extend::extend', HM, BM, HS, BS)
def _mextend(I, fn, args, dty):
    p = I.p.types[fn['self']]['path']
    g = dict(fn, path=p + '::')
    for x in calmly(I, args[1], fn['args'][-1]):
        if 'Map' in p:
            x = I.force(x)
            _mins(I, g, [args[0], x.fs[0], x.fs[1]], None)
        else:
            _sins(I, g, [args[0], x], None)
    return UNIT


@method('core::ops::index::Index::index', HM, BM)
def _mindex(I, fn, args, dty):
    i = lookup(I, fn, args)
    if i is None:
        boom(I, 'key not found')
    r = base_ref(I, args[0])
    return Ref(r.cell, r.path + (('i', i), ('f', 1, None, None)))


@maps('entry')
def _mentry(I, fn, args, dty):
    return X('entry', (base_ref(I, args[0]), find_key(I, fn, args[0], args[1]), args[1], dict(fn)))


def entries(*names):
    def deco(f):
        for n in names:
            for p in ("std::collections::hash::map::Entry::<'a, K, V>::", "std::collections::hash::map::Entry::<'a, K, V, A>::",
                      "alloc::collections::btree::map::entry::Entry::<'a, K, V, A>::"):
                PATHS[p + n] = f
        return f
    return deco


@entries('or_insert', 'or_insert_with', 'or_default', 'or_insert_with_key')
def _orins(I, fn, args, dty):
    e = I.force(args[0])
    r, i, k, f = e.a
    n = fn['path'].rsplit('::', 1)[1]
    if i is None:
        if n == 'or_insert':
            v = args[1]
        elif n == 'or_insert_with':
            v = I.callv(args[1], [])
        elif n == 'or_insert_with_key':
            v = I.callv(args[1], [ref(k)])
        else:
            t = I.p.types[I.p.types[dty]['e']]
            if t['k'] in ('int', 'uint'):
                v = 0
            elif t['k'] == 'bool':
                v = False
            elif t.get('path') == 'alloc::string::String':
                v = Str(('lit', ''))
            elif t.get('path') in ('alloc::vec::Vec', HM, BM, HS, BS):
                v = Seq(())
            else:
                raise Unknown('or_default')
        ys, i = place(I, f, content(I, r), Tup((k, v)), k, True)
        I.set(r, seq(ys))
    return Ref(r.cell, r.path + (('i', i), ('f', 1, None, None)))


@entries('and_modify')
def _andmod(I, fn, args, dty):
    e = I.force(args[0])
    r, i, k, f = e.a
    if i is not None:
        I.callv(args[1], [Ref(r.cell, r.path + (('i', i), ('f', 1, None, None)))])
    return e


@sets('union', 'intersection', 'difference', 'is_subset', 'is_superset', 'is_disjoint', 'symmetric_difference')
def _setops(I, fn, args, dty):
    a, b = content(I, args[0]), content(I, args[1])
    kt = owner(I, fn)
    n = fn['path'].rsplit('::', 1)[1]
    has = lambda xs, x: any(keys_eq(I, x, y, kt) for y in xs)
    if n == 'is_subset':
        return all(has(b, x) for x in a)
    if n == 'is_superset':
        return all(has(a, x) for x in b)
    if n == 'is_disjoint':
        return not any(has(b, x) for x in a)
    if n == 'union':
        out = a + [x for x in b if not has(a, x)]
    elif n == 'intersection':
        out = [x for x in a if has(b, x)]
    elif n == 'difference':
        out = [x for x in a if not has(b, x)]
    else:
        out = [x for x in a if not has(b, x)] + [x for x in b if not has(a, x)]
    if is_tree(fn):
        out = insertion(I, out, lambda x, y: val_cmp(I, x, y, kt))
    return X('iter', (Seq(tuple(('i', ref(x)) for x in out)), 'val' if is_tree(fn) else 'unord'))


@method('core::cmp::PartialEq::eq', HS, BS)
def _seteq(I, fn, args, dty):
    a, b = content(I, args[0]), content(I, args[1])
    kt = owner(I, fn)
    return len(a) == len(b) and all(any(keys_eq(I, x, y, kt) for y in b) for x in a)


def register(paths):
    for p in paths:
        METHODS[(IT + 'next', p)] = METHODS[(IT + 'next', 'core::slice::iter::Iter')]
        METHODS[(DIT + 'next_back', p)] = METHODS[(DIT + 'next_back', 'core::slice::iter::Iter')]


EXTRA = ('core::char::ToLowercase', 'core::char::ToUppercase', 'core::str::iter::SplitAsciiWhitespace',
         'std::collections::hash::map::Keys', 'std::collections::hash::map::Values', 'std::collections::hash::map::IterMut',
         'std::collections::hash::map::ValuesMut', 'std::collections::hash::map::IntoKeys', 'std::collections::hash::map::IntoValues',
         'std::collections::hash::set::Drain', 'std::collections::hash::set::Union', 'std::collections::hash::set::Intersection',
         'std::collections::hash::set::Difference', 'std::collections::hash::set::SymmetricDifference',
         'alloc::collections::btree::map::Iter', 'alloc::collections::btree::map::IntoIter', 'alloc::collections::btree::map::Keys',
         'alloc::collections::btree::map::Values', 'alloc::collections::btree::map::IterMut', 'alloc::collections::btree::map::ValuesMut',
         'alloc::collections::btree::set::Iter', 'alloc::collections::btree::set::IntoIter', 'alloc::collections::btree::set::Union',
         'alloc::collections::btree::set::Intersection', 'alloc::collections::btree::set::Difference')
M.ITERS = M.ITERS + EXTRA
register(EXTRA)


# ------------------------------------------------------------------ deques
VD = 'alloc::collections::vec_deque::VecDeque'
V = 'alloc::vec::Vec'
for (_tm, _p), _f in list(METHODS.items()):
    if _p == V and (_tm, VD) not in METHODS:
        METHODS[(_tm, VD)] = _f
METHODS[('core::iter::traits::collect::FromIterator::from_iter', VD)] = _specfrom


def deque(*names):
    def deco(f):
        for n in names:
            PATHS[VD + '::<T, A>::' + n] = PATHS[VD + '::<T>::' + n] = f
        return f
    return deco


@deque('new', 'with_capacity')
def _vdnew(I, fn, args, dty):
    return Seq(())


@deque('push_back', 'push_front')
def _vdpush(I, fn, args, dty):
    s = I.getf(args[0])
    x = (('i', args[1]),)
    I.set(args[0], Seq(s.segs + x if fn['path'].endswith('back') else x + s.segs))
    return UNIT


@deque('pop_back', 'pop_front')
def _vdpop(I, fn, args, dty):
    s = I.getf(args[0])
    r = I.pop_back(s) if fn['path'].endswith('back') else I.pop_front(s)
    if r is None:
        return opt(dty, None)
    I.set(args[0], r[1])
    return opt(dty, r[0])


@deque('front', 'back')
def _vdends(I, fn, args, dty):
    s = I.deref_all(args[0])
    r = I.pop_back(s) if fn['path'].endswith('back') else I.pop_front(s)
    return opt(dty, None if r is None else ref(r[0]))


for _n in ('len', 'is_empty'):
    PATHS[VD + '::<T, A>::' + _n] = PATHS['alloc::vec::Vec::<T, A>::' + _n]
PATHS[VD + '::<T, A>::iter'] = PATHS['core::slice::<impl [T]>::iter']
PATHS[VD + '::<T, A>::iter_mut'] = PATHS['core::slice::<impl [T]>::iter_mut']
PATHS[VD + '::<T, A>::get'] = PATHS['core::slice::<impl [T]>::get']
PATHS[VD + '::<T, A>::clear'] = _mclear
_contains0 = PATHS.get('core::slice::<impl [T]>::contains')
if _contains0:
    PATHS[VD + '::<T, A>::contains'] = _contains0
register(('alloc::collections::vec_deque::iter::Iter', 'alloc::collections::vec_deque::into_iter::IntoIter',
          'alloc::collections::vec_deque::iter_mut::IterMut'))
M.ITERS = M.ITERS + ('alloc::collections::vec_deque::iter::Iter', 'alloc::collections::vec_deque::into_iter::IntoIter',
                     'alloc::collections::vec_deque::iter_mut::IterMut')


# ------------------------------------------------------------------ odds and ends
for _p in ("<&'a mut alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
           "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a mut [T]>::into_iter",
           "core::array::<impl core::iter::traits::collect::IntoIterator for &'a mut [T; N]>::into_iter"):
    PATHS[_p] = PATHS['core::slice::<impl [T]>::iter_mut']

PATHS["core::fmt::Arguments::<'a>::from_str_nonconst"] = PATHS["core::fmt::Arguments::<'a>::from_str"]


@model("alloc::borrow::Cow::<'_, B>::into_owned", "alloc::borrow::Cow::<'_, B>::to_mut")
def _cowown(I, fn, args, dty):
    if fn['path'].endswith('to_mut'):
        r = I.force(args[0])
        c = I.getf(r)
        if c.v == 0:
            I.set(r, Adt(c.ty, 1, (I.deref_all(c.fs[0]),)))
        return Ref(r.cell, r.path + (('d', 1), ('f', 0, None, None)))
    c = I.force(args[0])
    if isinstance(c, Str):
        return c
    return c.fs[0] if c.v == 1 else I.deref_all(c.fs[0])


@model("<alloc::boxed::Box<F, A> as core::ops::function::Fn<Args>>::call", "<alloc::boxed::Box<F, A> as core::ops::function::FnMut<Args>>::call_mut",
       "<alloc::boxed::Box<F, A> as core::ops::function::FnOnce<Args>>::call_once")
def _boxcall(I, fn, args, dty):
    b = I.force(args[0])
    while isinstance(b, Ref):
        b = I.getf(b)
    a = args[1:]
    if len(a) == 1 and isinstance(a[0], Tup):
        a = list(a[0].fs)
    if isinstance(b, BoxV):
        v = I.force(b.cell.v)
        return I.callv(v if isinstance(v, Dyn) else Ref(b.cell, ()), a, dty)
    return I.callv(b, a, dty)


@model("regex::re_unicode::Match::<'t>::range")
def _mrange(I, fn, args, dty):
    st = PATHS["regex::re_unicode::Match::<'t>::start"]
    r = ref(I.force(args[0])) if not isinstance(args[0], Ref) else args[0]
    return Adt(dty, 0, (st(I, dict(fn, path='x::start'), [r], None), st(I, dict(fn, path='x::end'), [r], None)))


for _p in ('PartialEq<[U; N]> for &[T]', 'PartialEq<[U; N]> for [T]', 'PartialEq<[U]> for [T; N]', 'PartialEq<&[U]> for [T; N]',
           'PartialEq<[U; N]> for &mut [T]', 'PartialEq<&mut [U]> for [T; N]', 'PartialEq<[U; N]> for [T; N]', 'PartialEq for [T; N]'):
    for _n in ('eq', 'ne'):
        def _mkae(neg):
            def f(I, fn, args, dty):
                r = M.seq_eq(I, I.deref_all(args[0]), I.deref_all(args[1]), [a for a in fn['args'] if isinstance(a, int)][0])
                return (not r) if neg else r
            return f
        PATHS['core::array::equality::<impl core::cmp::%s>::%s' % (_p, _n)] = _mkae(_n == 'ne')


def cross_eq(p):
    """equality between different texts types or sequence types"""
    if p.startswith('alloc::string::<impl core::cmp::PartialEq<') and p.endswith(('::eq', '::ne')):
        return METHODS[('core::cmp::PartialEq::' + p[-2:], 'str')]
    if p.startswith(('alloc::vec::partial_eq::<impl core::cmp::PartialEq<', 'alloc::collections::vec_deque::partial_eq')) and p.endswith(('::eq', '::ne')):
        return PATHS['core::array::equality::<impl core::cmp::PartialEq for [T; N]>::' + p[-2:]]
    return None


M.cross_eq = cross_eq


@M.consuming('product')
def _product(I, st, args, dty, fn):
    t = 1
    while True:
        ok, x = st.next()
        if not ok:
            return t
        r = I.checked('Mul', t, I.deref_all(x), dty)
        if r.fs[1]:
            boom(I, 'attempt to multiply with overflow')
        t = r.fs[0]


@M.consuming('unzip')
def _unzip(I, st, args, dty, fn):
    a, b = [], []
    while True:
        ok, x = st.next()
        if not ok:
            break
        x = I.force(x)
        a.append(x.fs[0])
        b.append(x.fs[1])
    out = []
    for t, xs in zip(I.p.types[dty]['a'], (a, b)):
        t = I.p.types[t]
        if t.get('path') == V:
            out.append(seq(xs))
        elif t.get('path') == 'alloc::string::String':
            out.append(Str(cat([I.text(x) for x in xs])))
        else:
            raise Unknown('unzip into ' + t['s'])
    return Tup(tuple(out))


@model("<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::rposition")
def _rposition(I, fn, args, dty):
    st = Stepper(I, None, fn['self'], True)
    st.ref = I.force(args[0])
    n = M.exact_len(I, I.get(st.ref), fn['self'])
    while True:
        ok, x = st.next()
        if not ok:
            return opt(dty, None)
        n = I.add(n, -1)
        if I.force(I.callv(args[1], [x])):
            return opt(dty, n)


@intr('compare_bytes')
def _cmpbytes(I, fn, args, dty):
    a, b, n = I.deref_all(args[0]), I.deref_all(args[1]), I.force(args[2])
    cut = lambda x: x if I.eqi(I.seq_len(x), n) else I.seq_slice(x, 0, n)
    return M.seqs_cmp(I, cut(a), cut(b), [i for i, t in enumerate(I.p.types) if t['k'] == 'uint' and t['bits'] == 8][0])


_repl0 = PATHS[AS + 'replacen']


@model(AS + 'replacen')
def _replacen(I, fn, args, dty):
    t, p, n = I.text(args[0]), pattern(I, args[1], args[0]), I.force(args[3])
    to = I.text(args[2])
    if not isinstance(n, int):
        raise Unknown('replacen')
    w, v = I.word(t), I.word(to)
    if p[0] == 'text':
        if w is None:
            if not I.in_lang(t, L.ALL + L.L_lit(p[1]) + L.ALL):
                return Str(t)
            raise Unknown('replace of a longer text')
        if v is None:
            raise Unknown('replacement')
        return Str(('lit', w.replace(p[1], v, n)))
    out = []
    for _ in range(n):
        if not I.in_lang(t, L.ALL + L.L_chars(p[1]) + L.ALL):
            break
        w = I.word(t)
        if w is not None:
            i = next(k for k, c in enumerate(w) if L.cs_has(p[1], ord(c)))
            out += [('lit', w[:i]), to]
            t = ('lit', w[i + 1:])
        else:
            out += [before(I, t, p[1], 'first'), to]
            t = after(I, t, p[1], 'first')
    return Str(cat(out + [t]))


# ------------------------------------------------------------------ RegexBuilder
RXB = 'regex::re_builder::unicode::RegexBuilder::'
FLAGS = {'case_insensitive': 'i', 'multi_line': 'm', 'dot_matches_new_line': 's', 'swap_greed': 'U', 'ignore_whitespace': 'x', 'unicode': 'u'}


@model(RXB + 'new')
def _rxbnew(I, fn, args, dty):
    return X('rxb', (I.text(args[0]), ()))


def _rxbflag(name):
    def f(I, fn, args, dty):
        r = I.force(args[0])
        b = I.getf(r)
        on = I.force(args[1])
        fl = FLAGS.get(name)
        if not isinstance(on, bool) and fl is not None:
            raise Unknown('flag of an expression')
        if fl is None and name != 'octal':
            return r                 # limits on the size of an expression
        if fl is None:
            raise Unknown('octal expressions')
        fs = dict(b.a[1])
        fs[fl] = on
        I.set(r, X('rxb', (b.a[0], tuple(sorted(fs.items())))))
        return r
    return f


for _n in list(FLAGS) + ['octal', 'size_limit', 'dfa_size_limit', 'nest_limit']:
    PATHS[RXB + _n] = _rxbflag(_n)


@model(RXB + 'build')
def _rxbbuild(I, fn, args, dty):
    b = I.deref_all(args[0])
    t = b.a[0]
    on = ''.join(k for k, v in b.a[1] if v and k != 'u')
    off = ''.join(k for k, v in b.a[1] if not v and k == 'u')
    pre = '(?%s%s)' % (on, '-' + off if off else '') if on or off else ''
    u = cat((('lit', pre), t)) if pre else t
    r = M.regex_value(I, u, dty)
    I.compiled = I.compiled + [(u, r.v == 0)]
    if pre and r.v == 0:
        x = r.fs[0]
        return Adt(dty, 0, (X('regex', (x.a[0], x.a[1], t)),))
    return r
