"""Comparison of versions and of their parts."""
from ..check import prop, EXPL
from .util import *
from .tables import SIX, FLIP

OPORD = {'Lt': LT, 'Eq': EQ, 'Gt': GT}
NAMEORD = {-1: LT, 0: EQ, 1: GT}


def one_text():
    """The parts of a version are chosen independently of its text: two versions with the same text say nothing."""
    def own(t):
        """is a term the text of a version with parts of its own choice"""
        return t[0] == 'f' and t[1][0] == 'sv' and t[2] == 0 or t[0] == 'sv' and str(t[1]).startswith('text of ')

    def same(I, a, b):
        if own(a) and own(b):
            I.taint('two versions of the same text')

    def end(I):
        ws = [I.word(t) for t in list(I.f.lang) if own(t)]
        ws = [w for w in ws if w is not None]
        if len(set(ws)) < len(ws) or '' in ws:
            I.taint('two versions of the same text')
    return {'same-text': same, 'end': end}


def part_hooks(c, neutral=True, crate='libronda'):
    """The order of parts is taken as an arbitrary total preorder (C03 shows that it is one), and the neutral
    value of a part as an arbitrary function of the part (C04 shows which)."""
    A = c.anchors(crate)
    P = c.prog(crate)
    T = A.adt('VersionPart')

    def view(I, v):
        v = peel(I, v)
        return v.t if isinstance(v, Sym) else I.key(v)

    def forced(I, v):
        if v.ty == T:
            raise Unknown('the comparison looks into a part')
        return None

    def cmp3(I, args):
        a, b = (('rk', 'part', view(I, x)) for x in args[:2])
        return 0 if a == b else I.cmpi(Lin(a, 0), Lin(b, 0))

    def pcmp(I, fn, args, dty):
        return I.some(dty, I.ordering(cmp3(I, args)))

    def eq(I, fn, args, dty):
        return cmp3(I, args) == 0

    def neut(I, fn, args, dty):
        return Sym(('neut', view(I, args[0])), T)
    h, rs = one_text(), []
    for m, hk in (('PartialOrd::partial_cmp', pcmp), ('PartialEq::eq', eq)):
        try:
            rs.append(elsewhere(c, crate, lambda A: A.trait(m, 'VersionPart')))
        except Undecided:
            continue
        h[P.fns[rs[-1]]['path']] = hk
    h['force'] = forced
    g = [f for f in P.fns if A.mine(f) and f['self'] == T and f['path'].split('::')[-1] == 'get_empty']
    if neutral:
        for f in g:
            h[f['path']] = neut
    h = through(P, h, rs + [f['id'] for f in g if neutral])
    return h, cmp3, (lambda I, v: neut(I, None, [v], None)) if g and neutral else None


def parse_hook(c, crate='libronda'):
    """A text becomes an arbitrary sequence of parts, or an error: a function of the text."""
    A = c.anchors(crate)
    P = c.prog(crate)
    f = elsewhere(c, crate, lambda A: A.fn('conda_parser'))

    def h(I, fn, args, dty):
        t = I.text(args[0])
        long = getattr(I, 'longs', {}).get(t)
        if long is not None:
            return I.ok(dty, Seq(tuple(('i', p) for p in long)))
        if I.atom(('parses', t)):
            v = P.types[dty]['v']
            elty = [x for x in v if x['name'] == 'Ok'][0]['f'][0][1]
            return I.ok(dty, Sym(('cparts', t), elty))
        return I.err(dty, Sym(('perr', t), [x for x in P.types[dty]['v'] if x['name'] == 'Err'][0]['f'][0][1]))
    return {**inside(P, [f], lower(c, crate, ('VersionPart',)), 'the reading of a version'), **through(P, {P.fns[f]['path']: h}, [f])}


def lower(c, crate, names):
    """the functions of the layers below: those of these types"""
    A, P = c.anchors(crate), c.prog(crate)
    ts = {A.adt(n) for n in names}
    return [f['id'] for f in P.fns if A.mine(f) and f['self'] in ts]


def version(c, name):
    return Sym(('sv', name), c.anchors().adt('Version'))


def long_version(c, I, name, parts):
    """a version with these parts (to be used with parse_hook)"""
    t = ('sv', 'text of ' + name)
    if not hasattr(I, 'longs'):
        I.longs = {}
    I.longs[t] = list(parts)
    r = I.call(c.anchors().trait('FromStr::from_str', 'Version'), [ref(Str(t))])
    return payload(I, r)


def long_pair(c, I, lengths, cmp3, neut=None):
    """two long versions with their parts: alike to the stated length, or one of them all neutral beyond it"""
    T = c.anchors().adt('VersionPart')

    def sym(n):
        return Sym(('sv', n), T)
    n = lengths[I.choose(len(lengths), 'length')]
    head = [sym('p%d' % i) for i in range(n)]
    x, y = [sym('x0'), sym('x1')], [sym('y0'), sym('y1')]
    f = I.choose(7 if neut else 4, 'form')
    if f >= 4:
        for p in head:
            q = neut(I, ref(p))
            a, b = ('rk', 'part', p.t), ('rk', 'part', q.t)
            I.f.add_le(a, 0, b, 0)
            I.f.add_le(b, 0, a, 0)
        a, b = [(head + x[:1], []), ([], head + y[:1]), (head, [])][f - 4]
    else:
        a, b = [(head + x, head + y), (head + x[:1], head), (head, head + y[:1]), (head, head)][f]
    return long_version(c, I, 'a', a), long_version(c, I, 'b', b)


def short_pair(c, I):
    """two short versions of real parts, with their parts; (the same first part, or at most three parts in all, or at most two after a common beginning)"""
    T = c.anchors().adt('VersionPart')
    lead = LEADS[I.choose(len(LEADS), 'lead')]
    same, n, m = I.choose(2, 'first part'), I.choose(3, 'length'), I.choose(3, 'other length')
    if lead and (same or n + m > 2):
        raise Infeasible()
    pa = [Sym(('sv', 'a%d' % i), T) for i in range(n)]
    pb = [Sym(('sv', 'b%d' % i), T) for i in range(m)]
    if same:
        if not (n == m == 2):
            raise Infeasible()
        pb[0] = pa[0]
    elif n + m > 3:
        raise Infeasible()
    head = beginning(I, T, lead)
    pa, pb = head + pa, head + pb
    return long_version(c, I, 'a', pa), long_version(c, I, 'b', pb), pa, pb


def beginning(I, T, n, kinds=(('Integer', 1), ('Integer', 0), ('PEP440String', 'rc'), ('Integer', 2019))):
    out = []
    for i in range(n):
        k, v = kinds[i % len(kinds)]
        out.append(pep(I, T, ('lit', v)) if k == 'PEP440String' else Adt(T, I.p.variant(T, k), (v,)))
    return out


def led_pair(c, I):
    """two versions of real parts: a common beginning, then neutral parts on one side or neither, then one more part on one side, both or neither"""
    T = c.anchors().adt('VersionPart')
    pa = beginning(I, T, LEADS[I.choose(len(LEADS), 'lead')])
    pb = list(pa)
    zeros = beginning(I, T, (0, 1, 2, 5, 11)[I.choose(5, 'neutral parts')], (('Integer', 0), ('PEP440String', ''))[I.choose(2, 'kinds'):] + (('Integer', 0),))
    side = (pa, pb)[I.choose(2, 'longer side')]
    side += zeros
    k = I.choose(4, 'last parts')
    if k & 1:
        pa.append(Sym(('sv', 'a'), T))
    if k & 2:
        pb.append(Sym(('sv', 'b'), T))
    return long_version(c, I, 'a', pa), long_version(c, I, 'b', pb)


# common parts before the ones that may differ
LEADS = (0, 3, 4, 6, 9, 17, 33)


LENGTHS = (20, 40, 70, 135, 262)


def parts_of(c, I, v):
    """the sequence of parts of a version, through the public accessor"""
    return I.deref_all(I.call(c.anchors().method('Version', 'parts'), [ref(v)]))


def pop(I, s):
    """(first element or None, rest)"""
    return I.pop_front(s) or (None, s)


def ref_compare(c, I, x, y, cmp3, neut):
    for _ in range(I.loops + 4):
        a, x = pop(I, x)
        b, y = pop(I, y)
        if a is None and b is None:
            return EQ
        r = cmp3(I, [ref(a) if a is not None else ref(neut(I, ref(b))), ref(b) if b is not None else ref(neut(I, ref(a)))])
        if r:
            return NAMEORD[r]
    raise Cut('reference comparison', True)


EXPL['C01'] = ('compare_version is run on two arbitrary versions (sequences of any length over an arbitrary total preorder of parts) and, on '
               'the facts of each path, on the same two exchanged: the answers must mirror. Loops are followed to the stated bound; every '
               'path beyond it is a further round of the same loop over the same kind of state and is reported as recurrent.')


@prop('C01')
def c01(c):
    A = c.anchors()
    cmp_ = A.method('Version', 'compare_version')
    h, cmp3, neut = part_hooks(c)
    n = 12 if c.quick else 20

    def run(I):
        a, b = version(c, 'a'), version(c, 'b')
        x = vname(I, I.call(cmp_, [ref(a), ref(b)]))
        y = vname(I, I.call(cmp_, [ref(b), ref(a)]))
        bad = []
        if x not in OPORD:
            return [('answer:' + x, 'comparing two versions answers %s, which is not one of the three orderings' % x)]
        if y not in OPORD or FLIP[OPORD[x]] != OPORD[y]:
            bad.append(('mirror:%s/%s' % (x, y), 'a compared with b is %s, b compared with a is %s (a has %s parts, b %s)' % (
                x, y, plen(c, I, a), plen(c, I, b))))
        return bad
    c.explore('comparison is mirrored when its sides are exchanged', run, h, loops=n, need=20)
    if neut:
        def run4(I):
            a, b = long_pair(c, I, LENGTHS, cmp3, neut)
            x = vname(I, I.call(cmp_, [ref(a), ref(b)]))
            y = vname(I, I.call(cmp_, [ref(b), ref(a)]))
            return [] if OPORD.get(y) == FLIP.get(OPORD.get(x)) else [('mirror-long:%s/%s' % (x, y), 'long versions compare %s one way and %s the other (%s and %s parts)' % (
                x, y, plen(c, I, a), plen(c, I, b)))]
        c.explore('long versions: mirrored', run4, {**h, **parse_hook(c)}, loops=2 * max(LENGTHS) + 20, need=40, seconds=60 if c.quick else 300)

    def run2(I):
        a = version(c, 'a')
        x = vname(I, I.call(cmp_, [ref(a), ref(a)]))
        return [] if x == 'Eq' else [('reflexive:' + x, 'a version compared with itself is %s' % x)]
    c.explore('every version equals itself', run2, h, loops=n, need=3)
    c.explore('comparison is mirrored when its sides are exchanged (real parts)', run, one_text(), loops=1 if c.quick else 2, seconds=60 if c.quick else 400, need=20)
    def run5(I):
        a, b = led_pair(c, I)
        x = vname(I, I.call(cmp_, [ref(a), ref(b)]))
        y = vname(I, I.call(cmp_, [ref(b), ref(a)]))
        return [] if OPORD.get(y) == FLIP.get(OPORD.get(x)) else [('mirror-real:%s/%s' % (x, y), 'two versions of %s and %s parts compare %s one way and %s the other' % (
            plen(c, I, a), plen(c, I, b), x, y))]
    c.explore('mirrored after a common beginning (real parts)', run5, {**one_text(), **parse_hook(c)}, loops=60, need=100, seconds=60 if c.quick else 300)
    c.note('parts are totally preordered (decided by C03)')


def plen(c, I, v):
    s = parts_of(c, I, v)
    n = I.seq_len(s)
    return n if isinstance(n, int) else 'some'


EXPL['C02'] = ('compare_version is run on two arbitrary versions next to a reference: the first position that differs decides, and a version that '
               'has run out stands for the neutral value of the other side\'s part. Once with uninterpreted parts to a deep loop bound, once with '
               'the real parts (all kinds, all payloads) to a small one.')


@prop('C02')
def c02(c):
    A = c.anchors()
    P = c.prog()
    cmp_ = A.method('Version', 'compare_version')
    h, cmp3, neut = part_hooks(c)

    def mk(cmp3, neut, long=False):
        def run(I):
            a, b = long_pair(c, I, LENGTHS, cmp3, neut) if long else (version(c, 'a'), version(c, 'b'))
            x = vname(I, I.call(cmp_, [ref(a), ref(b)]))
            want = ref_compare(c, I, parts_of(c, I, a), parts_of(c, I, b), cmp3, neut)
            if OPORD.get(x) != want:
                return [('first-difference:%s/%s' % (x, want), 'comparison answers %s where the first part that differs (padding with '
                         'neutral parts) gives %s; a has %s parts, b %s' % (x, want, plen(c, I, a), plen(c, I, b)))]
            return []
        return run
    if neut:
        c.explore('the first differing part decides, with neutral padding (arbitrary parts)', mk(cmp3, neut), h, loops=12 if c.quick else 20, need=20)
        c.explore('long versions: the first differing part decides, with neutral padding', mk(cmp3, neut, True), {**h, **parse_hook(c)}, loops=2 * max(LENGTHS) + 20, need=60,
                  seconds=60 if c.quick else 300)
    pc = A.trait('PartialOrd::partial_cmp', 'VersionPart')
    T = A.adt('VersionPart')

    def real_cmp(I, args):
        r = I.call(pc, [ref(I.deref_all(args[0])), ref(I.deref_all(args[1]))])
        return {LT: -1, EQ: 0, GT: 1}[vname(I, payload(I, r))]

    def real_neut(I, v):
        return neutral_value(c, I, I.deref_all(v))
    c.explore('the first differing part decides, with neutral padding (real parts)', mk(real_cmp, real_neut), one_text(), loops=2,
              seconds=60 if c.quick else 300, need=20)

    def run3(I):
        a, b = led_pair(c, I)
        x = vname(I, I.call(cmp_, [ref(a), ref(b)]))
        want = ref_compare(c, I, parts_of(c, I, a), parts_of(c, I, b), real_cmp, real_neut)
        return [] if OPORD.get(x) == want else [('first-difference-real:%s/%s' % (x, want), 'comparing versions of %s and %s parts answers %s where the first part that differs gives %s' % (
            plen(c, I, a), plen(c, I, b), x, want))]
    c.explore('the first differing part decides after a common beginning (real parts)', run3, {**one_text(), **parse_hook(c)}, loops=60, need=100, seconds=60 if c.quick else 300)


def neutral_value(c, I, v):
    """the documented neutral value of the kind of v"""
    v = I.force(v)
    P = I.p
    fs = []
    for name, ty in P.types[v.ty]['v'][v.v]['f']:
        fs.append(neutral_of(I, ty))
    return Adt(v.ty, v.v, tuple(fs))


def neutral_of(I, ty):
    t = I.p.types[ty]
    if t['k'] in ('int', 'uint'):
        return 0
    if t.get('path') == 'alloc::string::String':
        return Str(('lit', ''))
    if t['k'] == 'adt' and len(t['v']) == 1:
        return Adt(ty, 0, tuple(neutral_of(I, f[1]) for f in t['v'][0]['f']))
    raise Unknown('neutral value of ' + t['s'])


EXPL['C03'] = ('The order of parts is run on two and on three arbitrary parts (every kind, every number, every text): each path fixes the kinds, '
               'regular languages for the texts and difference bounds for numbers and text ranks; the answer must exist, mirror, be reflexive, '
               'transitive, and agree with equality.')


@prop('C03')
def c03(c):
    A = c.anchors()
    T = A.adt('VersionPart')
    pc, eq = A.trait('PartialOrd::partial_cmp', 'VersionPart'), A.trait('PartialEq::eq', 'VersionPart')

    def cmp_(I, a, b):
        r = I.call(pc, [ref(a), ref(b)])
        return vname(I, payload(I, r)) if is_ok(I, r) else None

    def run(I):
        a, b = Sym(('sv', 'a'), T), Sym(('sv', 'b'), T)
        x = cmp_(I, a, b)
        k = '%s,%s' % (vname(I, a), vname(I, b))
        bad = []
        if x is None:
            return [('incomparable:' + k, 'parts of kinds %s can not be compared' % k)]
        y = cmp_(I, b, a)
        if y != FLIP[x]:
            bad.append(('mirror:' + k, 'parts of kinds %s compare %s one way and %s the other' % (k, x, y)))
        e = truth(I, I.call(eq, [ref(a), ref(b)]))
        if e != (x == EQ):
            bad.append(('equality:' + k, 'parts of kinds %s compare %s but equality says %s' % (k, x, e)))
        return bad
    c.explore('part order: total, mirrored, agreeing with equality', run, need=30)

    def run1(I):
        a = Sym(('sv', 'a'), T)
        x = cmp_(I, a, a)
        return [] if x == EQ else [('reflexive:' + vname(I, a), 'a part of kind %s compared with itself is %s' % (vname(I, a), x))]
    c.explore('part order: every part equals itself', run1, need=5)

    def run3(I):
        a, b, d = (Sym(('sv', n), T) for n in 'abd')
        x = cmp_(I, a, b)
        if x in (GT, None):
            return []
        y = cmp_(I, b, d)
        if y in (GT, None):
            return []
        z = cmp_(I, a, d)
        want = LT if LT in (x, y) else EQ
        if z != want:
            k = '%s,%s,%s' % (vname(I, a), vname(I, b), vname(I, d))
            return [('transitive:' + k, 'parts a, b, d of kinds %s: a %s b, b %s d, but a %s d' % (k, x, y, z))]
        return []
    c.explore('part order: transitive', run3, need=100)


RANK = ['Epoch', 'Integer', 'LexicographicString', 'PEP440String', 'Empty']

EXPL['C04'] = ('Part comparison is run on every pair of kinds with arbitrary payloads: between kinds the documented ranking must decide whatever the '
               'payloads, inside the numeric kinds the numbers, inside local parts the texts; and the value that stands for a missing part must be '
               'the zero or the empty text of the same kind.')


@prop('C04')
def c04(c):
    A = c.anchors()
    P = c.prog()
    T = A.adt('VersionPart')
    pc = A.trait('PartialOrd::partial_cmp', 'VersionPart')
    kinds = variants(P, T)

    def run(I):
        a, b = Sym(('sv', 'a'), T), Sym(('sv', 'b'), T)
        ka, kb = vname(I, a), vname(I, b)
        if ka == kb and ka not in ('Epoch', 'Integer', 'LexicographicString'):
            return []
        r = I.call(pc, [ref(a), ref(b)])
        x = vname(I, payload(I, r)) if is_ok(I, r) else None
        if ka != kb:
            if ka not in RANK or kb not in RANK:
                return []
            want = GT if RANK.index(ka) < RANK.index(kb) else LT
        else:
            p, q = payload(I, a), payload(I, b)
            want = NAMEORD[I.str_cmp(I.text(p), I.text(q)) if ka == 'LexicographicString' else I.cmpi(p, q)]
        if x != want:
            return [('rank:%s,%s' % (ka, kb), 'a part of kind %s against one of kind %s is %s, not %s' % (ka, kb, x, want))]
        return []
    c.explore('ranking between kinds, payload order inside them', run, need=25)
    VALS = {'Epoch': [-32768, -300, -256, -100, -2, -1, 0, 1, 2, 9, 10, 63, 64, 99, 100, 127, 128, 255, 256, 257, 512, 999, 1000, 1001, 1023, 1024, 2000, 4096, 9999, 10000, 20000, 32766, 32767],
            'Integer': [0, 1, 2, 9, 10, 63, 64, 99, 100, 101, 127, 128, 255, 256, 257, 512, 999, 1000, 1001, 1024, 4096, 9999, 10000, 19991231, 20200101, 32767, 32768, 65535, 65536, 65537, 100000,
                        1000000, 16777216, 16777217, 16777218, 999999999, 1000000000, 1 << 30, (1 << 31) - 2, (1 << 31) - 1]}

    def run5(I):
        """numbers written out"""
        k = ('Epoch', 'Integer')[I.choose(2, 'kind')]
        vs = VALS[k]
        i = I.choose(len(vs), 'a')
        bad = []
        for m in vs:
            r = I.call(pc, [ref(variant(P, T, k, vs[i])), ref(variant(P, T, k, m))])
            x = vname(I, payload(I, r)) if is_ok(I, r) else None
            want = NAMEORD[(vs[i] > m) - (vs[i] < m)]
            if x != want:
                bad.append(('numbers:%s' % k, 'a part %s(%d) against %s(%d) is %s, not %s' % (k, vs[i], k, m, x, want)))
        return bad[:1]
    if all(k in kinds for k in VALS):
        c.explore('numbers written out are ordered by value', run5, loops=60, need=50)
    TXTS = ['0', '1', '00', '1.0', '1.1', '10', '2', 'a', 'A', 'ab', 'aB', 'a.b', 'a-b', 'a_b', 'b', 'z', 'Z', '.', '-', '_', 'ubuntu', 'ubuntu.1', 'ubuntu1', 'ubuntu10', 'ubuntu.2', 'dev', 'post', 'é', 'e\u0301',
            'ß', 'ss', 'я', '中', '\U0001f600', ' ', 'a ', ' a', '1' * 20, '1' * 21, 'a' * 40 + 'b', 'a' * 40 + 'c']

    def lex(I, w):
        i = P.variant(T, 'LexicographicString')
        (name, ty), = P.types[T]['v'][i]['f']
        return Adt(T, i, (wrap_text(I, ty, ('lit', w)),))

    def run6(I):
        """local texts written out"""
        i = I.choose(len(TXTS), 'a')
        bad = []
        for m in TXTS:
            r = I.call(pc, [ref(lex(I, TXTS[i])), ref(lex(I, m))])
            x = vname(I, payload(I, r)) if is_ok(I, r) else None
            a, b = TXTS[i].encode(), m.encode()
            want = NAMEORD[(a > b) - (a < b)]
            if x != want:
                bad.append(('local-texts', 'a local label %r against %r is %s, not %s' % (TXTS[i], m, x, want)))
        return bad[:1]
    if 'LexicographicString' in kinds:
        c.explore('local texts written out are ordered by their characters', run6, loops=200, need=30)
    ty = [f['id'] for f in P.fns if f['local'] and f['self'] == T and f['path'].split('::')[-1] == 'get_empty']
    if ty:
        def run2(I):
            a = Sym(('sv', 'a'), T)
            r = I.deref_all(I.call(ty[0], [ref(a)]))
            want = neutral_value(c, I, a)
            if I.key(r) != I.key(want):
                return [('neutral:' + vname(I, a), 'the value standing for a missing part of kind %s is %s' % (vname(I, a), I.key(r)))]
            return []
        c.explore('the value of a missing part', run2, need=5)
    # observable form: against a version that has run out
    cmp_ = A.method('Version', 'compare_version')
    V = A.adt('Version')

    def run4(I):
        a = Sym(('sv', 'p'), T)
        x = vname(I, I.call(cmp_, [ref(mkversion(c, [a])), ref(mkversion(c, []))]))
        k = vname(I, a)
        if k in ('Epoch', 'Integer'):
            want = NAMEORD[I.cmpi(payload(I, a), 0)]
        elif k == 'LexicographicString':
            want = NAMEORD[I.str_cmp(I.text(payload(I, a)), ('lit', ''))]
        elif k == 'Empty':
            want = EQ
        else:
            return []
        return [] if OPORD.get(x) == want else [('missing:' + k, 'a version with one %s part against one without parts is %s, not %s' % (k, x, want))]
    c.explore('a missing part counts as zero or as the empty text', run4, need=8)


def mkversion(c, parts, text='x'):
    """a version with the given parts"""
    P = c.prog()
    V = c.anchors().adt('Version')
    fs = []
    for name, ty in P.types[V]['v'][0]['f']:
        t = P.types[ty]
        if t.get('path') == 'alloc::vec::Vec':
            fs.append(Seq(tuple(('i', p) for p in parts)))
        elif t.get('path') == 'alloc::string::String':
            fs.append(Str(('lit', text)))
        else:
            raise Unknown('field %s of a version' % name)
    return Adt(V, 0, tuple(fs))


EXPL['C05'] = ('Text parts are compared on two arbitrary texts: each path is a pair of regular languages. Texts containing "post" (any case) must outrank '
               'the absent qualifier, which outranks every other text, which outranks texts containing "dev"; texts of one of the outer classes are equal; '
               'spellings that differ only in case are equal and order alike.')


def pep(I, T, t):
    """a text part whose text is t"""
    i = I.p.variant(T, 'PEP440String')
    (name, ty), = I.p.types[T]['v'][i]['f']
    return Adt(T, i, (wrap_text(I, ty, t),))


def wrap_text(I, ty, t):
    k = I.p.types[ty]
    if k.get('path') == 'alloc::string::String':
        return Str(t)
    if k['k'] == 'adt' and len(k['v']) == 1 and len(k['v'][0]['f']) == 1:
        return Adt(ty, 0, (wrap_text(I, k['v'][0]['f'][0][1], t),))
    raise Unknown('text part of type ' + k['s'])


def fold(w):
    r = L.EPS
    for ch in w:
        r = r + L.L_chars(L.cs_fold(L.cs_of(ch)))
    return r


@prop('C05')
def c05(c):
    A = c.anchors()
    T = A.adt('VersionPart')
    pc = A.trait('PartialOrd::partial_cmp', 'VersionPart')
    post = L.ALL + fold('post') + L.ALL
    dev = L.ALL + fold('dev') + L.ALL
    SHORT = L.L_chars(L.cs_neg(L.cs_of('\u017f'))).star()

    def cls(I, t):
        if I.in_lang(t, post):
            return 3
        if I.in_lang(t, L.EPS):
            return 2
        return 0 if I.in_lang(t, dev) else 1
    CN = ['dev', 'other', 'none', 'post']

    def run(I):
        s, t = ('sv', 's'), ('sv', 't')
        for w in (s, t):
            # the long s is a letter some case mappings take for an s, and others do not
            I.f.assume_lang(w, SHORT)
        r = I.call(pc, [ref(pep(I, T, s)), ref(pep(I, T, t))])
        x = vname(I, payload(I, r)) if is_ok(I, r) else None
        a, b = cls(I, s), cls(I, t)
        if a == b == 1:
            return []
        want = NAMEORD[(a > b) - (a < b)]
        if x != want:
            return [('qualifier:%s/%s' % (CN[a], CN[b]), 'the qualifier %s (%s) against %s (%s) is %s, not %s' % (
                show(I, s), CN[a], show(I, t), CN[b], x, want))]
        return []
    c.explore('post outranks none outranks others outrank dev', run, need=9)
    Q = [t.get('path') for t in c.prog().types if t and t['k'] == 'adt' and t.get('local') and t.get('path', '').endswith('PEP440String')]
    if Q:
        # the qualifier's own equality, where it has a type of its own
        try:
            qc, qe = A.trait('PartialOrd::partial_cmp', 'PEP440String'), A.trait('PartialEq::eq', 'PEP440String')
        except Missing:
            qc = None

        def run3(I):
            q = [payload(I, pep(I, T, t)) for t in (('sv', 's'), ('sv', 't'))]
            r = I.call(qc, [ref(q[0]), ref(q[1])])
            x = vname(I, payload(I, r)) if is_ok(I, r) else None
            e = truth(I, I.call(qe, [ref(q[0]), ref(q[1])]))
            return [] if e == (x == 'Equal') else [('qualifier-equal:%s' % x, 'two qualifier texts compare %s, but == between them answers %s' % (x, e))]
        if qc is not None:
            c.explore('qualifier texts are equal exactly when neither is less', run3, need=9)
    words = ['a', 'alpha', 'b', 'beta', 'c', 'rc', 'z', 'Ab', 'é', 'жа']
    for i, u in enumerate(words):
        for w in words[i:]:
            def run2(I, u=u, w=w):
                s, t = ('sv', 's'), ('sv', 't')
                I.f.assume_lang(s, fold(u))
                I.f.assume_lang(t, fold(w))
                r = I.call(pc, [ref(pep(I, T, s)), ref(pep(I, T, t))])
                x = vname(I, payload(I, r)) if is_ok(I, r) else None
                a, b = u.lower(), w.lower()
                want = NAMEORD[(a > b) - (a < b)]
                if x != want:
                    return [('case:%s/%s' % (u, w), 'in some spelling %s against %s is %s, not %s' % (u, w, x, want))]
                return []
            c.explore('every spelling of %s against every spelling of %s' % (u, w), run2, need=1)
    SAME = ['a', 'A', 'ß', 'straße', 'İ', 'ı', 'ﬁ', 'ǅ', 'ς', 'Σ', 'é', 'É', 'я', 'Я', '中', '\U0001f600', ' ', '1', '\u0345', 'ŉ', 'ẞ', '-', 'K', 'Å', 'abc' * 20, 'DEV', 'Post', 'rc', '\u00a0']

    def run5(I):
        w = SAME[I.choose(len(SAME), 'text')]
        r = I.call(pc, [ref(pep(I, T, ('lit', w))), ref(pep(I, T, ('lit', w)))])
        x = vname(I, payload(I, r)) if is_ok(I, r) else None
        return [] if x == 'Equal' else [('itself:%s' % w, 'the qualifier %s against itself is %s' % (w, x))]
    c.explore('a written-out text is equal to itself', run5, loops=200, need=20)


EXPL['C06'] = ('compare_to_version, ==, the derived orderings and compare_str are run after compare_version on the same two arbitrary versions and the facts '
               'of the path: each must answer exactly what the three-way comparison says, read as "self op other".')


@prop('C06')
def c06(c):
    A = c.anchors()
    P = c.prog()
    cmp_, cto = A.method('Version', 'compare_version'), A.method('Version', 'compare_to_version')
    O = A.adt('CompOp')
    h, cmp3, neut = part_hooks(c)
    hp = dict(h)
    hp.update(parse_hook(c))
    n = 6 if c.quick else 14
    for o in SIX:
        def run(I, o=o):
            a, b = version(c, 'a'), version(c, 'b')
            x = vname(I, I.call(cmp_, [ref(a), ref(b)]))
            y = truth(I, I.call(cto, [ref(a), ref(b), ref(variant(P, O, o))]))
            want = OPORD.get(x) in SIX[o]
            return [] if y == want else [('operator:%s:%s' % (o, x), 'a compares %s with b, but "a %s b" is %s' % (x, o, y))]
        c.explore('operator %s agrees with the three-way comparison' % o, run, h, loops=n, need=20)
    pcm, eq = A.trait('PartialOrd::partial_cmp', 'Version'), A.trait('PartialEq::eq', 'Version')

    def run2(I):
        a, b = version(c, 'a'), version(c, 'b')
        x = vname(I, I.call(cmp_, [ref(a), ref(b)]))
        bad = []
        e = truth(I, I.call(eq, [ref(a), ref(b)]))
        if e != (x == 'Eq'):
            bad.append(('eq:' + x, 'a compares %s with b, but a == b is %s' % (x, e)))
        r = I.call(pcm, [ref(a), ref(b)])
        y = vname(I, payload(I, r)) if is_ok(I, r) else None
        if y != OPORD.get(x):
            bad.append(('partial_cmp:' + x, 'a compares %s with b, but their partial ordering is %s' % (x, y)))
        return bad
    c.explore('== and the partial ordering agree with the three-way comparison', run2, h, loops=n, need=20)
    def run6(I):
        a, b, pa, pb = short_pair(c, I)
        x = vname(I, I.call(cmp_, [ref(a), ref(b)]))
        bad = []
        for o in SIX:
            if truth(I, I.call(cto, [ref(a), ref(b), ref(variant(P, O, o))])) != (OPORD.get(x) in SIX[o]):
                bad.append(('real-operator:%s:%s' % (o, x), 'a (%s) compares %s with b (%s), but "a %s b" says otherwise' % (
                    ' '.join(vname(I, p) for p in pa), x, ' '.join(vname(I, p) for p in pb), o)))
        if truth(I, I.call(eq, [ref(a), ref(b)])) != (x == 'Eq'):
            bad.append(('real-eq:' + x, 'a compares %s with b, but == says otherwise' % x))
        r = I.call(pcm, [ref(a), ref(b)])
        if not is_ok(I, r) or vname(I, payload(I, r)) != OPORD.get(x):
            bad.append(('real-partial_cmp:' + x, 'a compares %s with b, but their partial ordering says otherwise' % x))
        return bad
    c.explore('the operators agree with the three-way comparison on real parts', run6, parse_hook(c), loops=8, need=100)
    for nm in ('lt', 'le', 'gt', 'ge', 'ne'):
        tm = 'PartialOrd::' + nm if nm != 'ne' else 'PartialEq::ne'
        try:
            f = A.trait(tm, 'Version')
        except Exception:
            continue  # the standard definition in terms of the above

        def run3(I, nm=nm, f=f):
            a, b = version(c, 'a'), version(c, 'b')
            x = vname(I, I.call(cmp_, [ref(a), ref(b)]))
            y = truth(I, I.call(f, [ref(a), ref(b)]))
            want = OPORD.get(x) in SIX[nm.capitalize()]
            return [] if y == want else [('%s:%s' % (nm, x), 'a compares %s with b, but %s is %s' % (x, nm, y))]
        c.explore('%s agrees with the three-way comparison' % nm, run3, h, loops=n, need=20)
    frm = A.trait('From::from', 'Version')
    cs, cts = A.method('Version', 'compare_str'), A.method('Version', 'compare_to_str')

    def textcall(I, f):
        try:
            return f()
        except Panic:
            return None

    def run4(I):
        a, t = version(c, 'a'), ('sv', 't')
        b = textcall(I, lambda: I.call(frm, [ref(Str(t))]))
        if b is None:
            return []
        x = vname(I, I.call(cmp_, [ref(a), ref(b)]))
        bad = []
        y = vname(I, I.call(cs, [ref(a), ref(Str(t))]))
        if x != y:
            bad.append(('compare_str:' + x, 'a compares %s with the parsed text and %s with the text' % (x, y)))
        return bad
    c.explore('comparing with a text is comparing with its version', run4, hp, loops=n, need=10)

    def run5(I):
        a, t = version(c, 'a'), ('sv', 't')
        op = Sym(('sv', 'op'), O)
        b = textcall(I, lambda: I.call(frm, [ref(Str(t))]))
        if b is None or vname(I, op) in ('Compatible', 'Incompatible'):
            return []
        x = truth(I, I.call(cto, [ref(a), ref(b), ref(op)]))
        y = truth(I, I.call(cts, [ref(a), ref(Str(t)), ref(op)]))
        return [] if x == y else [('compare_to_str:' + vname(I, op), '"a %s version" is %s, "a %s text" is %s' % (vname(I, op), x, vname(I, op), y))]
    c.explore('every operator applied to a text is that operator applied to its version', run5, hp, loops=n, need=10)


EXPL['C07'] = ('The prefix test is run on two arbitrary versions next to a reference: every part of the prefix equals the part at its position, and the prefix '
               'is not longer. Its negation and the operators that name it must agree.')


@prop('C07')
def c07(c):
    A = c.anchors()
    P = c.prog()
    sw, cto = A.method('Version', 'startswith'), A.method('Version', 'compare_to_version')
    O = A.adt('CompOp')
    h, cmp3, neut = part_hooks(c)
    n = 12 if c.quick else 20

    def want(I, a, b):
        x, y = parts_of(c, I, a), parts_of(c, I, b)
        for _ in range(I.loops + 4):
            q, y = pop(I, y)
            if q is None:
                return True
            p, x = pop(I, x)
            if p is None or cmp3(I, [ref(p), ref(q)]) != 0:
                return False
        raise Cut('reference prefix', True)

    def run(I):
        a, b = version(c, 'a'), version(c, 'b')
        x = truth(I, I.call(sw, [ref(a), ref(b)]))
        w = want(I, a, b)
        if x != w:
            return [('prefix:%s' % x, 'the prefix test answers %s, but the parts say %s (%s parts, prefix %s parts)' % (
                x, w, plen(c, I, a), plen(c, I, b)))]
        return []
    c.explore('the prefix test compares every part of the prefix', run, h, loops=n, need=10)

    def run3(I):
        a, b = long_pair(c, I, LENGTHS, cmp3)
        x = truth(I, I.call(sw, [ref(a), ref(b)]))
        w = want(I, a, b)
        return [] if x == w else [('prefix-long:%s' % x, 'on long versions the prefix test answers %s, but the parts say %s (%s parts, prefix %s parts)' % (x, w, plen(c, I, a), plen(c, I, b)))]
    c.explore('long versions: the prefix test compares every part', run3, {**h, **parse_hook(c)}, loops=2 * max(LENGTHS) + 20, need=30, seconds=60 if c.quick else 300)
    eq = A.trait('PartialEq::eq', 'VersionPart')

    def run4(I):
        a, b, pa, pb = short_pair(c, I)
        n, m = len(pa), len(pb)
        x = truth(I, I.call(sw, [ref(a), ref(b)]))
        w = n >= m and all([truth(I, I.call(eq, [ref(p), ref(q)])) for p, q in zip(pa, pb)])
        if x != w:
            return [('prefix-parts:%s' % ','.join(vname(I, p) for p in pa[:m] + pb), 'the prefix test answers %s where comparing the parts (%s against %s) gives %s' % (
                x, ' '.join(vname(I, p) for p in pa), ' '.join(vname(I, p) for p in pb), w))]
        return []
    c.explore('the prefix test on real parts', run4, parse_hook(c), loops=8, need=100)
    for o, neg in (('StartsWith', False), ('NotStartsWith', True)):
        def run2(I, o=o, neg=neg):
            a, b = version(c, 'a'), version(c, 'b')
            y = truth(I, I.call(cto, [ref(a), ref(b), ref(variant(P, O, o))]))
            w = want(I, a, b) != neg
            return [] if y == w else [('operator:%s' % o, 'operator %s answers %s where the parts say %s' % (o, y, w))]
        c.explore('operator %s is the prefix test%s' % (o, ', negated' if neg else ''), run2, h, loops=n, need=10)
