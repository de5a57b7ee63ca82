"""Reading version texts."""
import re as _re
from ..check import prop, EXPL
from .util import *
from .order import version, parts_of, parse_hook, wrap_text, part_hooks

SEPS = '_.-'
D1 = L.L_chars(L.ADIGIT)
DIG = D1 + D1.star()
NOTSEP = L.cs_neg(L.cs_or(L.cs_of(SEPS + '!+'), L._cat('d')))
TXT = L.L_chars(NOTSEP) + L.L_chars(NOTSEP).star()
LOC = L.L_chars(L.cs_neg(L.cs_of('!+')))
LOC = LOC + LOC.star()
I16, I32 = L.L_int(-32768, 32767), L.L_int(-(1 << 31), (1 << 31) - 1)


def hole(I, name, l):
    t = ('sv', name)
    I.f.assume_lang(t, l)
    return t


def as_parts(I, v):
    """[(kind, payload)] of a sequence of parts"""
    out = []
    for x in I.items(I.deref_all(v)):
        x = I.deref_all(x)
        out.append((vname(I, x), I.force(x.fs[0]) if x.fs else None))
    return out


def part_text(I, v):
    """text kept in a text part"""
    v = I.deref_all(v)
    while isinstance(v, Adt) and len(v.fs) == 1:
        v = I.deref_all(v.fs[0])
    return I.text(v)


def differs(I, got, want):
    """None when got is the wanted part, a description when it is not; Unknown when that can not be told.
    want: ('Epoch', term) number read from the term; ('run', term) digit run; ('text', term); ('local', term); ('Empty',)"""
    k, p = got
    if want[0] == 'Empty':
        return None if k == 'Empty' else 'a %s part' % k
    t = want[1]
    if want[0] in ('Epoch', 'run'):
        kind = 'Epoch' if want[0] == 'Epoch' else 'Integer'
        if k == kind:
            w = I.word(t)
            if isinstance(p, int):
                if w is None:
                    l = I.f.get_lang(t)
                    ok = L.L_lit('0').star() + L.L_lit(str(p))
                    return None if l <= ok else 'the constant %d' % p
                return None if p == int(w) else 'the number %d' % p
            if isinstance(p, Lin):
                if p.base == ('int', t):
                    return None if p.k == 0 else 'the number plus %d' % p.k
                x = I.f.value(p.base)
                if x is not None and w is not None:
                    return None if x + p.k == int(w) else 'the number %d' % (x + p.k)
                raise Unknown('number of a part: %r' % (p.base,))
            raise Unknown('payload of a number')
        if k == 'Integer' and want[0] == 'Epoch' or k == 'Epoch':
            return 'a %s part' % k
        if want[0] == 'run' and k == 'PEP440String':
            return 'the text part %s' % show(I, t)
        return 'a %s part' % k
    kind = {'text': 'PEP440String', 'local': 'LexicographicString'}[want[0]]
    if k != kind:
        return 'a %s part' % k
    s = part_text(I, p)
    if s == t or I.word(s) is not None and I.word(s) == I.word(t):
        return None
    a, b = I.f.get_lang(s), I.f.get_lang(t)
    if (a & b).is_empty():
        return 'another text (%r for %r)' % (a.example(), b.example())
    base = {x for x in walk(s) if x[0] in ('sv', 'lit')} & {x for x in walk(t) if x[0] in ('sv', 'lit')}
    if s[0] in ('dropend', 'dropstart', 'takestart', 'takeend', 'case', 'hom', 'trim', 'strip') and s[1] == t or not base or s[0] == 'sv' or \
            s[0] == 'cat' and t in s[1]:
        return 'another text (%s for %s)' % (desc(s), desc(t))
    raise Unknown('text of a part: %r for %r' % (s, t))


def walk(t):
    yield t
    for x in t:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            yield from walk(x)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple) and y and isinstance(y[0], str):
                    yield from walk(y)


def desc(t):
    if t[0] == 'lit':
        return repr(t[1])
    if t[0] == 'sv':
        return '<%s>' % t[1]
    if t[0] == 'cat':
        return '+'.join(desc(x) for x in t[1])
    return '%s(%s)' % (t[0], desc(t[1]))


def skeleton(I, n, seps, start=0):
    """(text term, wanted parts) of a release: digit runs, text runs and separators in any arrangement of at most n tokens"""
    toks, want, prev = [], [], None
    for i in range(n):
        opts = ['end'] + [k for k in ('D', 'A') if k != prev] + list(seps)
        k = opts[I.choose(len(opts), ('token', i))]
        if k == 'end':
            break
        if k == 'D':
            t = hole(I, 'digits%d' % i, DIG)
            want.append(('run', t))
        elif k == 'A':
            t = hole(I, 'text%d' % i, TXT)
            want.append(('text', t))
        else:
            t = ('lit', k)
        toks.append(t)
        prev = k
    return toks, want


def judge(c, I, r, toks, want):
    t = '+'.join(desc(x) for x in toks)
    if not is_ok(I, r):
        return [('rejected:' + shape(toks), 'the version %s is rejected' % t)]
    got = as_parts(I, payload(I, r))
    if len(got) != len(want):
        return [('part-count:' + shape(toks), 'the version %s has %d parts, read as %d: %s' % (t, len(want), len(got), [k for k, _ in got]))]
    bad = []
    for g, w in zip(got, want):
        d = differs(I, g, w)
        if d:
            if w[0] == 'run' and d.startswith('the text part'):
                l = I.f.get_lang(w[1])
                if (l & I32).is_empty():
                    bad.append(('big-number-as-text', 'a digit run above the largest 32-bit number becomes a text part, e.g. ' + show(I, w[1])))
                    continue
            bad.append(('part:%s:%s' % (w[0], d.split('(')[0].strip()), 'in the version %s the %s %s becomes %s' % (
                t, {'run': 'digit run', 'text': 'text', 'local': 'local label', 'Epoch': 'epoch', 'Empty': 'emptiness'}[w[0]],
                desc(w[1]) if len(w) > 1 else '', d)))
    return bad


def shape(toks):
    return ''.join('D' if x[0] == 'sv' and x[1].startswith('digits') else 'A' if x[0] == 'sv' and x[1].startswith('text') else
                   'L' if x[0] == 'sv' and x[1].startswith('local') else 'E' if x[0] == 'sv' else x[1] for x in toks)[:24]


def text_of_toks(toks):
    from ..models import cat
    return cat(toks)


EXPL['C12'] = ('The parser is run on every arrangement (to the stated length) of digit runs, text runs and separators, with or without epoch and local '
               'label; the runs are arbitrary members of regular languages, so each path covers every content. The parts must be exactly the runs, in '
               'order, the local label last and the epoch first.')


@prop('C12')
def c12(c):
    A = c.anchors()
    f = A.fn('conda_parser')
    n = 5 if c.quick else 7

    def run(I):
        e = I.choose(2, 'epoch')
        loc = I.choose(3, 'local')
        toks, want = [], []
        if e:
            t = hole(I, 'epoch', I16)
            toks += [t, ('lit', '!')]
            want.append(('Epoch', t))
        a, b = skeleton(I, n - e - (loc > 1), '.')
        toks += a
        want += b
        if loc:
            toks.append(('lit', '+'))
        if loc == 2:
            t = hole(I, 'local', LOC)
            toks.append(t)
            want.append(('local', t))
        if not toks:
            want.append(('Empty',))
        r = I.call(f, [ref(Str(text_of_toks(toks)))])
        return [x for x in judge(c, I, r, toks, want) if x[0] != 'big-number-as-text']
    c.explore('every run becomes one part, in order, with its content', run, need=200)
    NUM = ['7', '42', '2020', '20200131', '123456789', '1234567890', '2147483647', '0000000001', '0' * 40 + '12', '0' * 300 + '3', '2147483648', '9' * 19, '18446744073709551616', '8' * 60]
    WORDS = ['b', 'rc', 'ABC', 'alpha', 'B' * 17, 'q' * 33, 'z' * 70, 'k' * 300, 'caf\u00e9', '\u00df\u4e2d', ' a ', '\t', '*', '=<>', 'a,b|c', '\u200b']

    LOCALS = ['A..B', '.', '__', 'Ubuntu-1', '0', '007', ' x ', '\u00e9\u4e2d', 'r' * 300, '*', '1_2_3.4', 'DEV']

    def run_long(I):
        """literal runs of many lengths and alphabets between short neighbours"""
        before = [(), ('A', 'x'), ('.',), ('D', '1', '.'), ('E', '-3', '!'), ('E', '+00012', '!')][I.choose(6, 'before')]
        k = I.choose(len(NUM) + len(WORDS), 'run')
        mid = ('D', NUM[k]) if k < len(NUM) else ('A', WORDS[k - len(NUM)])
        after = [(), ('.', 'D', '5'), ('_', 'A', 'w'), ('A' if mid[0] == 'D' else 'D', 'v' if mid[0] == 'D' else '6'), ('L', '1.b-2'), ('L', LOCALS[k % len(LOCALS)])][I.choose(6, 'after')]
        if before and before[0] == mid[0] == 'A':
            return []
        text, want, xs = '', [], list(before + mid + after)
        while xs:
            x = xs.pop(0)
            if x in SEPS:
                text += x
                continue
            w = xs.pop(0)
            text += {'L': '+'}.get(x, '') + w
            if x == 'E':
                text += xs.pop(0)
            want.append(({'A': 'text', 'D': 'run', 'L': 'local', 'E': 'Epoch'}[x], ('lit', w)))
        r = I.call(f, [lit(text)])
        return [('long-' + k, m) for k, m in judge(c, I, r, [('lit', text)], want) if k != 'big-number-as-text']
    c.explore('runs of any length and alphabet', run_long, loops=700, need=300)
    MANY = ['1a~', 'a1~', '1.~2', 'a.~b', '1_~a', '1-~3', '1.a.~x', '1a.~2b', '1a2b.~7', 'dev1post~', '.1~.', '1..~2', '1.2rc3.~9', 'a~', '0.~0']

    def run_many(I):
        """many runs"""
        n_ = (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 20, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 256, 257)[I.choose(32, 'size')]
        k = MANY[I.choose(len(MANY), 'kind')]
        i = k.index('~')
        body = k[:i] * n_ + k[i + 1:]
        pre, post = [('', ''), ('7!', ''), ('', '+l.8'), ('1!', '+' + 'ab.' * n_ + 'c')][I.choose(4, 'around')]
        want = [('Epoch', ('lit', pre[:-1]))] if pre else []
        for m in _re.finditer('([0-9]+)|([^0-9._-]+)', body):
            want.append(('run' if m.group(1) else 'text', ('lit', m.group(0))))
        if post:
            want.append(('local', ('lit', post[1:])))
        t = pre + body + post
        r = I.call(f, [lit(t)])
        short = t if len(t) < 60 else t[:30] + '...' + t[-20:]
        return [('many-' + k_.split(':')[0], m.replace(t, short)[:600]) for k_, m in judge(c, I, r, [('lit', t)], want) if k_ != 'big-number-as-text'][:2]
    c.explore('many runs', run_many, loops=3000, need=300, seconds=100 if c.quick else 400)
    c.note('local labels and runs are non-empty; more than %d tokens are not enumerated' % n)


EXPL['C13'] = ('As C12, over all three separators in every arrangement, leading, trailing and repeated; and on digit runs with any number of leading zeros. '
               'Digit runs above the 32-bit range are a known finding.')


@prop('C13')
def c13(c):
    A = c.anchors()
    f = A.fn('conda_parser')

    def run(I):
        toks, want = skeleton(I, 4 if c.quick else 6, SEPS)
        if not want:
            return []
        r = I.call(f, [ref(Str(text_of_toks(toks)))])
        return judge(c, I, r, toks, want)
    c.explore('the three separators only separate', run, need=150)
    P = c.prog()
    cmp_ = A.method('Version', 'compare_version')
    pf = A.method('Version', 'parse')
    frm = A.trait('FromStr::from_str', 'Version')

    def run2(I):
        """leading zeros do not change a number: 0*n against n"""
        k = ['0', '1', '7', '10', '255', '2147483647'][I.choose(6, 'number')]
        t = hole(I, 'digits', L.L_lit('0').star() + L.L_lit(k))
        a = I.call(frm, [ref(Str(t))])
        b = I.call(frm, [lit(k)])
        if not (is_ok(I, a) and is_ok(I, b)):
            return [('zeros-rejected', 'a number with leading zeros is rejected')]
        x = vname(I, I.call(cmp_, [ref(payload(I, a)), ref(payload(I, b))]))
        return [] if x == 'Eq' else [('zeros:' + k, 'the number %s with leading zeros compares %s with itself' % (k, x))]
    c.explore('leading zeros do not change a number', run2, need=6)

    def run3(I):
        """numeric order of runs"""
        s, t = hole(I, 'digits1', DIG & I32), hole(I, 'digits2', DIG & I32)
        a, b = I.call(frm, [ref(Str(s))]), I.call(frm, [ref(Str(t))])
        if not (is_ok(I, a) and is_ok(I, b)):
            return [('number-rejected', 'a number is rejected')]
        x = vname(I, I.call(cmp_, [ref(payload(I, a)), ref(payload(I, b))]))
        p, q = as_parts(I, I.call(A.method('Version', 'parts'), [ref(payload(I, a))])), as_parts(I, I.call(A.method('Version', 'parts'), [ref(payload(I, b))]))
        if len(p) != 1 or p[0][0] != 'Integer' or len(q) != 1 or q[0][0] != 'Integer':
            return [('number-kind', 'a digit run inside the 32-bit range is read as %s' % (p,))]
        want = {-1: 'Lt', 0: 'Eq', 1: 'Gt'}[I.cmpi(p[0][1], q[0][1])]
        return [] if x == want else [('number-order', 'two numbers compare %s, not %s' % (x, want))]
    c.explore('numbers compare by value', run3, need=3)


EXPL['C11'] = ('The parser is run on an arbitrary text. The texts of the paths that accept form regular languages; each must lie inside the accepted '
               'grammar (at most one epoch mark with a 16-bit number before it, at most one local mark), and each path that rejects must lie outside it.')


@prop('C11')
def c11(c):
    A = c.anchors()
    f = A.fn('conda_parser')
    frm = A.trait('FromStr::from_str', 'Version')
    free = L.L_chars(L.cs_neg(L.cs_of('!+'))).star()
    allowed = (L.EPS | (I16 + L.L_lit('!'))) + free + (L.EPS | (L.L_lit('+') + free))

    def mk(fid, what):
        def run(I):
            t = ('sv', 'text')
            ok = is_ok(I, I.call(fid, [ref(Str(t))]))
            l = I.f.get_lang(t)
            if ok and not l <= allowed:
                return [('accepts', '%s accepts %r' % (what, (l - allowed).example()))]
            if not ok and not (l & allowed).is_empty():
                return [('rejects', '%s rejects %r' % (what, (l & allowed).example()))]
            return []
        return run
    for fid, what in ((f, 'the parser'), (frm, 'reading a version')):
        c.explore('%s accepts exactly texts with at most one epoch mark after a number and one local mark' % what, mk(fid, what), loops=1 if c.quick else 2, need=10,
                  seconds=60 if c.quick else 300)

    def run2(I):
        """reject paths on longer compounds"""
        toks = []
        n = 3 + I.choose(3, 'marks')
        for i in range(n):
            k = I.choose(4, ('tok', i))
            toks.append([('lit', '!'), ('lit', '+'), ('lit', '1'), ('lit', 'a')][k])
        w = ''.join(x[1] for x in toks)
        ok = is_ok(I, I.call(frm, [lit(w)]))
        if ok != allowed.has(w):
            return [('text:' + w, '%r is %s' % (w, 'accepted' if ok else 'rejected'))]
        return []
    c.explore('short texts of marks, digits and letters', run2, need=100)


EXPL['C08'] = ('Every way to build a version from a text is run on an arbitrary text with an uninterpreted parser (a function from texts to parts or an error): the '
               'stored text must be the very same text term, the parts exactly the parser\'s, the error the parser\'s, and the accessors must agree with each other.')


@prop('C08')
def c08(c):
    A = c.anchors()
    P = c.prog()
    V = A.adt('Version')
    h = parse_hook(c)
    frm, pa, frs = A.trait('From::from', 'Version'), A.method('Version', 'parse'), A.trait('FromStr::from_str', 'Version')
    ast, parts, part, cnt = (A.method('Version', m) for m in ('as_str', 'parts', 'part', 'part_count'))
    t = ('sv', 'text')

    def keeps(I, v, how):
        bad = []
        s = I.text(I.call(ast, [ref(v)]))
        if s != t:
            if s[0] in ('sv', 'lit', 'trim', 'case', 'hom', 'cat', 'dropend', 'dropstart', 'strip', 'takestart', 'takeend', 'piece', 'piece-', 'after', 'before'):
                if not (I.f.get_lang(t) <= L.EPS and I.f.get_lang(s) <= L.EPS):
                    bad.append(('text:' + how, 'a version made by %s answers another text: %s' % (how, desc(s))))
            else:
                raise Unknown('stored text %r' % (s,))
        ps = I.deref_all(I.call(parts, [ref(v)]))
        want = Seq((('v', ('cparts', t), elty(), 0, Lin(('len', ('cparts', t)), 0)),))
        if isinstance(ps, Seq) and I.key(ps) != I.key(want):
            bad.append(('parts:' + how, 'a version made by %s does not hold the parts of its parser' % how))
        n = I.call(cnt, [ref(v)])
        m = I.seq_len(ps)
        if not I.eqi(n, m):
            bad.append(('count:' + how, 'the number of parts answered is not the number of parts'))
        return bad

    def elty():
        for name, ty in P.types[V]['v'][0]['f']:
            if P.types[ty].get('path') == 'alloc::vec::Vec':
                return P.types[ty]['args'][0]
        raise Unknown('no part list')

    def via(how, call):
        def run(I):
            try:
                r = call(I)
            except Panic:
                return []           # From<&str> panics on a malformed text, by its signature
            r = I.force(r)
            if P.types[r.ty]['path'].endswith('Result'):
                if not is_ok(I, r):
                    if I.f.atoms.get(('parses', t)) is True:
                        return [('error:' + how, '%s fails where the parser succeeds' % how)]
                    e = peel(I, I.deref_all(r).fs[0])
                    w = Sym(('perr', t), e.ty) if isinstance(e, (Sym, Adt)) else None
                    if w is None:
                        raise Unknown('error value')
                    if isinstance(e, Sym) and e.t == ('perr', t):
                        return []
                    if I.key(I.force(e)) != I.key(I.force(w)):
                        return [('error-value:' + how, '%s does not answer the error of the parser' % how)]
                    return []
                r = payload(I, r)
            if I.f.atoms.get(('parses', t)) is not True:
                return [('accepts:' + how, '%s answers a version where the parser fails' % how)]
            return keeps(I, r, how)
        return run
    PT = P.types[A.argty(pa, 1)]['e']

    def parser_fn(I):
        from ..models import PATHS  # noqa: F401
        ty = [i for i, x in enumerate(P.types) if x and x['k'] == 'fndef' and x['path'].split('::')[-1] == 'conda_parser']
        if not ty:
            f = A.fn('conda_parser')
            return Dyn(ref(X('pyfn', (lambda I, args, dty: I.call(f, args, P.fns[f]['locals'][0]),))), None, None)
        return Dyn(ref(Fnd(ty[0])), ty[0], None)
    from ..interp import Fnd
    c.explore('From<&str> keeps the text', via('From<&str>', lambda I: I.call(frm, [ref(Str(t))])), h, need=2)
    c.explore('FromStr keeps the text', via('FromStr', lambda I: I.call(frs, [ref(Str(t))])), h, need=2)
    c.explore('Version::parse keeps the text', via('Version::parse', lambda I: I.call(pa, [ref(Str(t)), parser_fn(I)])), h, need=2)
    cl = A.trait('Clone::clone', 'Version')

    def run2(I):
        v = Sym(('sv', 'v'), V)
        w = I.force(I.call(cl, [ref(v)]))
        a, b = I.text(I.call(ast, [ref(v)])), I.text(I.call(ast, [ref(w)]))
        bad = []
        if a != b:
            bad.append(('clone-text', 'a copy of a version answers another text'))
        if I.key(parts_of(c, I, v)) != I.key(parts_of(c, I, w)):
            bad.append(('clone-parts', 'a copy of a version has other parts'))
        return bad
    c.explore('a copy keeps text and parts', run2, loops=3, need=1)

    def run3(I):
        v = Sym(('sv', 'v'), V)
        i = I.force(Sym(('sv', 'index'), A.argty(part, 1)))
        r = I.call(part, [ref(v), i])
        n = I.seq_len(parts_of(c, I, v))
        inside = I.lt(i, n)
        if is_ok(I, r) != inside:
            return [('part-bounds', 'the part at an index %s is %s' % ('inside' if inside else 'outside', 'answered' if is_ok(I, r) else 'an error'))]
        if inside:
            x = peel(I, I.deref_all(r).fs[0])
            y = peel(I, I.seq_get(parts_of(c, I, v), i))
            kx, ky = (z.t if isinstance(z, Sym) else I.key(z) for z in (x, y))
            if kx != ky:
                return [('part-at', 'the part at an index is not the part there')]
        return []
    c.explore('the part at an index is the part there, or an error outside', run3, need=2)
    dp = A.trait('Display::fmt', 'Version')

    def run4(I):
        v = Sym(('sv', 'v'), V)
        s = shown(c, I, dp, v)
        a = I.text(I.call(ast, [ref(v)]))
        if s == a:
            return []
        if s[0] in ('sv', 'lit', 'cat', 'trim', 'f'):
            return [('display', 'a version is displayed as %s' % (s,))]
        from .spec import same_text
        return [] if same_text(I, s, a) else [('display', 'a version is displayed as %s' % (s,))]
    if dp is not None:
        c.explore('a version is displayed as its text', run4, need=1)


def shown(c, I, fid, v):
    from ..models import new_formatter
    cell = new_formatter(False)
    I.call(fid, [ref(v), Ref(cell, ())])
    return cell.v.a[0]


EXPL['C09'] = ('The parser and the constructors that answer a Result are run on an arbitrary text; no path may reach a panic (an unwrap of a failure, an '
               'index out of range, an overflow, a slice inside a character).')


# a character before a tilde is repeated; texts of SPLIT are repeated but for the last character
SIZES = (3, 5, 8, 9, 10, 11, 16, 19, 20, 21, 32, 33, 64, 65, 100, 127, 128, 255, 256, 257, 300)
SPLIT = ('1.1', 'a1a', '\u00e9.1', '1_-9')
LONG = ('0~', '9~', '1.0~', '1a~', 'A~', '\u00e9~', '\u4e2d~.1', '1+~'.replace('+~', '+x~'), '0~!1', '.~', '1-~1', ' ~1', '\t~', '*~', '1.7~rc', '\U0001f600~') + SPLIT



def grown(k, n):
    if k in SPLIT:
        return k[:-1] * n + k[-1]
    i = k.find('~')
    return k if i < 0 else k[:i - 1] + k[i - 1] * n + k[i + 1:]


@prop('C09')
def c09(c):
    A = c.anchors()
    f = A.fn('conda_parser')
    frs = A.trait('FromStr::from_str', 'Version')

    def guard(call):
        def run(I):
            try:
                r = call(I)
                if is_ok(I, r) and I.choose(1) == 0:
                    pass
            except Panic as e:
                return [('panic:%s' % e.msg.split('(')[0].strip()[:60], 'reading the text %s panics: %s (in %s)' % (show(I, ('sv', 'text')), e.msg, e.where[0] if isinstance(e.where, tuple) else e.where))]
            return []
        return run
    c.explore('reading an arbitrary text never panics', guard(lambda I: I.call(f, [ref(Str(('sv', 'text')))])), loops=1 if c.quick else 2, need=10,
              seconds=80 if c.quick else 500)
    c.explore('FromStr on an arbitrary text never panics', guard(lambda I: I.call(frs, [ref(Str(('sv', 'text')))])), loops=1, need=10, seconds=60)

    def run2(I):
        toks = []
        n = 5 if c.quick else 6
        anyc = L.L_chars(L.ANY)
        for i in range(n):
            k = I.choose(7, ('tok', i))
            if k == 0:
                break
            toks.append([None, ('lit', '!'), ('lit', '+'), ('lit', '.'), 'D', 'A', ('lit', '\u00e9')][k])
        toks = [hole(I, 'digits%d' % i, DIG) if x == 'D' else hole(I, 'text%d' % i, TXT) if x == 'A' else x for i, x in enumerate(toks)]
        try:
            I.call(frs, [ref(Str(text_of_toks(toks)))])
        except Panic as e:
            return [('panic:%s' % e.msg.split('(')[0].strip()[:60], 'reading the version %s panics: %s' % ('+'.join(desc(x) for x in toks), e.msg))]
        return []
    c.explore('FromStr on compounds of marks and runs never panics', run2, need=300)

    def run_long(I):
        n = SIZES[I.choose(len(SIZES), 'size')]
        k = LONG[I.choose(len(LONG), 'kind')]
        if len(k) > 3 and n > 300 or k in SPLIT and n > 700:
            raise Infeasible()
        t = grown(k, n)
        try:
            I.call(frs, [lit(t)])
        except Panic as e:
            return [('long-panic:%s' % e.msg.split('(')[0].strip()[:60], 'reading the version %s (%d characters) panics: %s' % (t if len(t) < 60 else t[:30] + '...' + t[-20:], len(t), e.msg))]
        return []
    c.explore('FromStr on long texts never panics', run_long, loops=9000, need=200, seconds=60 if c.quick else 300)
    # comparing and reading parts of any versions
    h, _, _ = part_hooks(c)
    cmp_, sw = A.method('Version', 'compare_version'), A.method('Version', 'startswith')
    for nm, m in (('comparing', cmp_), ('the prefix test', sw)):
        def run3(I, m=m, nm=nm):
            try:
                I.call(m, [ref(version(c, 'a')), ref(version(c, 'b'))])
            except Panic as e:
                return [('panic:%s:%s' % (nm, e.msg[:60]), '%s panics: %s' % (nm, e.msg))]
            return []
        c.explore('%s never panics' % nm, run3, h, loops=8, need=10)
        c.explore('%s never panics (real parts)' % nm, run3, {}, loops=1, need=10)
