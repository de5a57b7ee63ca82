"""Compound specifications."""
from ..check import prop, EXPL
from .util import *
from .order import version, parts_of, parse_hook, part_hooks, lower
from .parser import hole, desc, text_of_toks
from .spec import spec_from, tree_from, spec_m, member_hook, same_text

MEMB = L.L_chars(L.cs_neg(L.cs_or(L.cs_of('()|,^$'), L.SPACE)))
MEMB = MEMB + MEMB.star()


def fields(c, ty):
    return [n for n, _ in c.prog().types[ty]['v'][0]['f']]


def node(c, I, v):
    """('leaf', text term) | (combinator name, [nodes]) of a tree or member"""
    A = c.anchors()
    P = c.prog()
    CT, VT = A.adt('ConstraintTree'), A.adt('VersionSpecOrConstraintTree')
    v = I.deref_all(v)
    if v.ty == CT:
        n = fields(c, CT)
        comb = vname(I, v.fs[n.index('combinator')])
        return comb, [node(c, I, x) for x in I.items(I.deref_all(v.fs[n.index('parts')]))]
    if v.ty == VT:
        k = vname(I, v)
        if k == 'ConstraintTree':
            return node(c, I, v.fs[0])
        return leaf(c, I, v.fs[0])
    raise Unknown('not a tree')


def leaf(c, I, x):
    x = peel(I, x)
    return 'leaf', I.text(I.call(spec_m(c, 'get_spec'), [ref(x)]))


def want_leaf(c, I, t):
    return 'leaf', I.text(I.call(spec_m(c, 'get_spec'), [ref(Sym(('spec', t), c.anchors().adt('VersionSpec')))]))


class Bad(Exception):
    pass


def reference(toks, mk):
    """the tree of a token list (members are ('m', x)); Bad when malformed"""
    pos = 0

    def peek():
        return toks[pos] if pos < len(toks) else None

    def atom():
        nonlocal pos
        t = peek()
        if t is None:
            raise Bad
        if t == '(':
            pos += 1
            r = orr()
            if peek() != ')':
                raise Bad
            pos += 1
            return r
        if isinstance(t, tuple):
            pos += 1
            return mk(t[1])
        raise Bad

    def chain(op, sub, name):
        nonlocal pos
        xs = [sub()]
        while peek() == op:
            pos += 1
            xs.append(sub())
        if len(xs) == 1:
            return xs[0]
        out = []
        for x in xs:
            if x[0] == name:
                out += x[1]
            else:
                out.append(x)
        return name, out

    def andd():
        return chain(',', atom, 'And')

    def orr():
        return chain('|', andd, 'Or')
    r = orr()
    if pos != len(toks):
        raise Bad
    return r


def pick(I, n, blanks):
    """(tokens for the reference, text parts)"""
    toks, parts = [], []
    forms = ['(', ')', '|', ',', 'M']
    for i in range(n):
        k = I.choose(len(forms) + 1, ('tok', i))
        if k == 0:
            break
        x = forms[k - 1]
        if x == 'M':
            if toks and isinstance(toks[-1], tuple):
                raise Infeasible()
            m = ('sv', 'member%d' % i)
            I.f.assume_lang(m, MEMB)
            toks.append(('m', m))
            parts.append(m)
        else:
            toks.append(x)
            parts.append(('lit', x))
        if blanks and I.choose(2, ('blank', i)):
            parts.append(('lit', ' '))
    return toks, parts


HUGE = [','.join('M' * 24), '|'.join('M' * 24), ','.join(['(M|M)'] * 12), '|'.join(['M,M'] * 12), '(' * 20 + 'M' + ')' * 20,
        ''.join('M%s(' % ',|'[i % 2] for i in range(12)) + 'M' + ')' * 12]

HUGE += [','.join('M' * 9) + '|' + ','.join('M' * 9), '|'.join('M' * 9) + ',' + '|'.join('M' * 9), '|'.join(['M'] * 8 + ['M,M']), '|'.join(['M,M,M', 'M'] * 8), ','.join(['(M|M)', 'M'] * 8),
         ','.join('M' * 11) + ',(' + '|'.join('M' * 11) + '),M', '(' * 9 + 'M' + ''.join(',|'[i % 2] + 'M)' for i in range(9)) + '|M,M',
         'M' + ''.join(',(M|(M' for i in range(7)) + '))' * 7 + ',M|M', '|'.join(['(M,M|M)'] * 9) + ',M', ','.join('M' * 60), '|'.join(['M,M'] * 40),
         'M|(' * 9 + 'M|M,M' + ')' * 9, 'M,(' * 11 + 'M,M|M,M|M' + '),M' * 11, 'M|(' * 8 + 'M,M|M' + '|M,M)' * 8]


def spoil(I, toks, parts):
    """a long arrangement with one token dropped, doubled or put in; None where nothing is to be spoilt"""
    kind = I.choose(5, 'spoilt')
    if kind == 0:
        return None
    n = len(toks)
    at = [0, n // 3, n // 2, n - 2, n - 1][I.choose(5, 'at')]
    want = {1: lambda x: isinstance(x, tuple), 2: lambda x: x in (',', '|'), 3: lambda x: x in ('(', ')'), 4: lambda x: True}[kind]
    while at < n and not want(toks[at]):
        at += 1
    if at == n:
        raise Infeasible()
    new = {1: [], 2: [toks[at]] * 2, 3: [], 4: [toks[at], ')'] if isinstance(toks[at], tuple) else [toks[at], '(']}[kind]
    toks = toks[:at] + new + toks[at + 1:]
    out = []
    for x in toks:
        out.append(x[1] if isinstance(x, tuple) else ('lit', x))
    return toks, out


def pick_huge(I):
    """(tokens, text parts, is a member refused) of a long well-formed arrangement"""
    toks, parts, s = [], [], HUGE[I.choose(len(HUGE), 'text')]
    bad = [None, 0, s.count('M') - 1][I.choose(3, 'refused')]
    for i, ch in enumerate(s):
        if ch == 'M':
            m = ('sv', 'member%d' % i)
            I.f.assume_lang(m, MEMB)
            I.f.atoms[('member', m)] = s[:i].count('M') != bad
            toks.append(('m', m))
            parts.append(m)
        else:
            toks.append(ch)
            parts.append(('lit', ch))
    return toks, parts, bad is not None


def shape(toks):
    return ''.join('M' if isinstance(x, tuple) else x for x in toks)


def flat(n):
    if n[0] == 'leaf':
        return [n[1]]
    return [y for x in n[1] for y in flat(x)]


def draw(n):
    if n[0] == 'leaf':
        return 'M'
    return n[0] + '[' + ' '.join(draw(x) for x in n[1]) + ']'


def members_ok(I):
    return all(v for k, v in I.f.atoms.items() if k[0] == 'member')


def treeify_of(c):
    return c.anchors().fn('treeify')


EXPL['C20'] = ('Every arrangement (to the stated length) of parentheses, commas, bars and members is read, where the members are arbitrary texts that an uninterpreted reader accepts or not. Arrangements '
               'a reference grammar refuses, and those with a refused member, must be errors; all others must be accepted.')


@prop('C20')
def c20(c):
    h = member_hook(c)
    for f, what, n in ((treeify_of(c), 'tree', 5 if c.quick else 7), (tree_from(c), 'general specification', 4 if c.quick else 6)):
        def run(I, f=f, what=what, n=n):
            toks, parts = pick(I, n, False)
            if what != 'tree' and not any(x in ('(', ')', '|', ',') for x in toks):
                return []
            try:
                ok = is_ok(I, I.call(f, [ref(Str(text_of_toks(parts)))]))
            except Panic as e:
                return [('panic:' + shape(toks), 'reading %s panics: %s' % (shape(toks), e.msg))]
            try:
                reference(toks, lambda m: ('leaf', m))
                good = True
            except Bad:
                good = False
            if ok and not good:
                return [('accepts:' + shape(toks), 'the malformed arrangement %s is read as a %s' % (shape(toks), what))]
            if ok and not members_ok(I):
                return [('member:' + shape(toks), 'the arrangement %s with a malformed member is read as a %s' % (shape(toks), what))]
            if not ok and good and members_ok(I):
                return [('rejects:' + shape(toks), 'the well-formed arrangement %s is rejected' % shape(toks))]
            return []
        c.explore('a %s is read exactly from well-formed arrangements' % what, run, h, loops=14, need=500, seconds=100 if c.quick else 800)
    def run3(I):
        f = (treeify_of(c), tree_from(c))[I.choose(2, 'kind')]
        toks, parts, bad = pick_huge(I)
        sp = None if bad else spoil(I, toks, parts)
        if sp:
            toks, parts = sp
            try:
                reference(toks, lambda m: ('leaf', m))
                return []
            except Bad:
                pass
        ok = is_ok(I, I.call(f, [ref(Str(text_of_toks(parts)))]))
        want = not bad and not sp
        return [] if ok == want else [('long:%s' % shape(toks)[:40], 'the long %s arrangement %s%s is %s' % (
            'well-formed' if not sp else 'malformed', shape(toks), ' with a refused member' if bad else '', 'read' if ok else 'rejected'))]
    c.explore('very long arrangements', run3, h, loops=400, need=20 * len(HUGE), seconds=200 if c.quick else 500)
    A = c.anchors()
    fv = A.trait('TryFrom::try_from', 'ConstraintTree', 'Vec')
    CT = A.adt('ConstraintTree')
    P = c.prog()

    def run2(I):
        """from a list of texts: combinator first"""
        n = I.choose(4, 'length')
        xs = []
        first = ('sv', 'first')
        if n:
            xs.append(first)
        xs += [('sv', 'member%d' % i) for i in range(n - 1)]
        for x in xs[1:]:
            I.f.assume_lang(x, MEMB)
        vty = A.argty(fv, 0)
        try:
            r = I.call(fv, [Seq(tuple(('i', ref(Str(x))) for x in xs))])
        except Panic as e:
            return [('list-panic', 'a tree made from a list of texts panics: %s' % e.msg)]
        ok = is_ok(I, r)
        comb = None
        if n:
            w = {',': 'And', '|': 'Or'}
            for k in w:
                if I.in_lang(first, L.L_lit(k)):
                    comb = w[k]
        if comb is None:
            return [('list-combinator', 'a list without a combinator is read as a tree')] if ok else []
        if ok != members_ok(I):
            return [('list-member', 'a list %s malformed member is %s' % ('without' if not ok else 'with a', 'read as a tree' if ok else 'rejected'))]
        if not ok:
            return []
        got = node(c, I, payload(I, r))
        want = comb, [want_leaf(c, I, x) for x in xs[1:]]
        return [] if got == want else [('list-tree', 'a list of texts becomes %s, not %s' % (draw(got), draw(want)))]
    c.explore('a list of texts becomes the tree of its combinator and members', run2, h, loops=6, need=8)


EXPL['C30'] = ('Every well-formed arrangement (to the stated length) of parentheses, commas, bars and arbitrary members, also with blanks between, is read; the tree must be the one a reference grammar gives '
               '(comma binds tighter, neighbours under one operator form one group, members in the order written).')


@prop('C30')
def c30(c):
    h = member_hook(c)
    for f, what, n, bl in ((treeify_of(c), 'tree', 6 if c.quick else 8, False), (treeify_of(c), 'tree', 4 if c.quick else 5, True),
                           (tree_from(c), 'general specification', 5 if c.quick else 7, False)):
        def run(I, f=f, what=what, n=n, bl=bl):
            toks, parts = pick(I, n, bl)
            if what != 'tree' and not any(x in ('(', ')', '|', ',') for x in toks):
                return []
            try:
                want = reference(toks, lambda m: want_leaf(c, I, m))
            except Bad:
                return []
            return compare(c, I, f, toks, parts, want, what)
        c.explore('%s%s: precedence, grouping, order' % (what, ' with blanks' if bl else ''), run, h, loops=16, need=10, seconds=60 if c.quick else 800)
    longer = ['M|M,M|M', 'M,M|M,M', '(M|M),M', 'M,(M|M),M', '(M,M)|(M,M)', '((M|((M|M),M),M|M))|M', 'M|(M|M)|M', '(M,M),(M,M)', 'M,(M,M|M),M', '(M|M),(M|M)', 'M|M|M|M|M', 'M,M,M,M,M',
              '((M))', '((M),(M))', 'M,(M|(M,(M|M)))', '(((M|M)|M)|M),M', 'M|M,(M|M),M|M']

    def run3(I):
        s = longer[I.choose(len(longer), 'text')]
        toks, parts = [], []
        for i, ch in enumerate(s):
            if ch == 'M':
                m = ('sv', 'member%d' % i)
                I.f.assume_lang(m, MEMB)
                toks.append(('m', m))
                parts.append(m)
            else:
                toks.append(ch)
                parts.append(('lit', ch))
        return compare(c, I, treeify_of(c), toks, parts, reference(toks, lambda m: want_leaf(c, I, m)), 'tree')
    def run4(I):
        toks, parts, bad = pick_huge(I)
        if bad:
            return []
        return compare(c, I, treeify_of(c), toks, parts, reference(toks, lambda m: want_leaf(c, I, m)), 'tree')
    c.explore('very long compounds', run4, h, loops=400, need=len(HUGE))
    c.explore('longer compounds', run3, h, loops=24, need=2 * len(longer))


def compare(c, I, f, toks, parts, want, what):
    r = I.call(f, [ref(Str(text_of_toks(parts)))])
    if not is_ok(I, r):
        if members_ok(I):
            return [('rejects:' + shape(toks), 'the well-formed arrangement %s is rejected' % shape(toks))]
        return []
    got = node(c, I, payload(I, r))
    if got[0] == 'None' and len(got[1]) == 1:
        got = got[1][0]
    if got == want:
        return []
    g, w = flat(got), flat(want)
    if g != w:
        if sorted(map(repr, g)) == sorted(map(repr, w)):
            return [('order:' + shape(toks), 'the members of %s come out in another order' % shape(toks))]
        if len(g) == len(w):
            raise Unknown('member texts')
        return [('members:' + shape(toks), 'reading %s gives %d members of %d' % (shape(toks), len(g), len(w)))]
    return [('tree:' + shape(toks), 'reading %s gives %s, not %s' % (shape(toks), draw(got), draw(want)))]


# ------------------------------------------------------------------ trees made by hand
def skeleton(I, depth, width, key, none=True):
    """'leaf' key | (combinator, [children]); every tree to the given depth and width is one path"""
    kids = [('leaf', None)]
    if depth:
        kids += [(k, n) for k in ('And', 'Or') for n in range(width + 1)] + ([('None', 1)] if none else [])
    k, n = kids[I.choose(len(kids), ('node', key))]
    if k == 'leaf':
        return 'leaf', key
    return k, [skeleton(I, depth - 1, width, key + (i,), none) for i in range(n)]


def build(c, s, name='t'):
    """the value (of the member type) of a skeleton"""
    A = c.anchors()
    P = c.prog()
    VT, VS = A.adt('VersionSpecOrConstraintTree'), A.adt('VersionSpec')
    if s[0] == 'leaf':
        return Adt(VT, P.variant(VT, 'VersionSpec'), (Sym(('sv', 'spec-%s%s' % (name, '.'.join(map(str, s[1])))), VS),))
    return Adt(VT, P.variant(VT, 'ConstraintTree'), (btree(c, s, name),))


def btree(c, s, name='t'):
    A = c.anchors()
    P = c.prog()
    CT = A.adt('ConstraintTree')
    CB = A.adt('Combinator')
    fs = {'combinator': variant(P, CB, s[0]), 'parts': Seq(tuple(('i', build(c, x, name)) for x in s[1]))}
    ns = fields(c, CT)
    if set(ns) != set(fs):
        raise Unknown('a tree has other fields')
    return Adt(CT, 0, tuple(fs[n] for n in ns))


def sk(s):
    return 'spec' if s[0] == 'leaf' else '%s[%s]' % (s[0], ' '.join(sk(x) for x in s[1]))


def accept_hook(c):
    """whether a single specification accepts a version is an uninterpreted function of both"""
    P = c.prog()

    def k(I, v):
        v = peel(I, v)
        return v.t if isinstance(v, Sym) else I.key(v)

    def hk(I, fn, args, dty):
        return I.atom(('accepts', k(I, args[0]), k(I, args[1])))
    f = spec_m(c, 'test_match_version')
    low = lower(c, 'libronda', ('VersionPart', 'Version')) + [c.anchors().fn('conda_parser')]
    return {**inside(P, [f], low, 'the matching of a specification'), **through(P, {P.fns[f]['path']: hk}, [f])}


EXPL['C18'] = ('Trees of every shape to the stated depth and width are matched against an arbitrary version, where each leaf accepts it or not; the answer must be the conjunction or disjunction of the leaves\' '
               'answers. A tree over any number of members is matched too, with an uninterpreted answer per member.')


@prop('C18')
def c18(c):
    A = c.anchors()
    P = c.prog()
    VT, CT = A.adt('VersionSpecOrConstraintTree'), A.adt('ConstraintTree')
    h = {**accept_hook(c), **parse_hook(c)}
    frs = A.trait('FromStr::from_str', 'Version')
    leafm = spec_m(c, 'test_match_version')

    def want(I, s, x, v):
        """x: value of the member type"""
        if s[0] == 'leaf':
            return truth(I, I.call(leafm, [ref(x.fs[0]), ref(v)]))
        t = x.fs[0]
        xs = I.items(t.fs[fields(c, CT).index('parts')])
        rs = [want(I, a, b, v) for a, b in zip(s[1], xs)]
        return rs[0] if s[0] == 'None' else all(rs) if s[0] == 'And' else any(rs)

    def run(I):
        s = skeleton(I, 2, 2 if c.quick else 3, ())
        x = build(c, s)
        v = version(c, 'v')
        ty = I.choose(2, 'type') if s[0] != 'leaf' else 0
        m, o = (spec_m(c, 'test_match_version', 'VersionSpecOrConstraintTree'), x) if ty == 0 else (spec_m(c, 'test_match_version', 'ConstraintTree'), x.fs[0])
        got = truth(I, I.call(m, [ref(o), ref(v)]))
        w = want(I, s, x, v)
        return [] if got == w else [('eval:%s' % sk(s), '%s %s a version that it should %s' % (sk(s), 'accepts' if got else 'rejects', 'reject' if got else 'accept'))]
    c.explore('the answer of a tree follows from those of its members', run, h, loops=8, need=400, budget=None if c.quick else 3000000, seconds=60 if c.quick else 800)

    def run2(I):
        s = skeleton(I, 1, 2, ())
        x = build(c, s)
        t = ('sv', 'text')
        r = I.call(frs, [ref(Str(t))])
        if not is_ok(I, r):
            return []
        v = payload(I, r)
        bad = []
        for adt, o in (('VersionSpecOrConstraintTree', x),) + ((('ConstraintTree', x.fs[0]),) if s[0] != 'leaf' else ()):
            a = truth(I, I.call(spec_m(c, 'test_match', adt), [ref(o), ref(Str(t))]))
            b = truth(I, I.call(spec_m(c, 'test_match_version', adt), [ref(o), ref(v)]))
            if a != b:
                bad.append(('text:%s' % adt, 'matching a text and matching the version read from it differ for %s' % sk(s)))
        return bad
    c.explore('matching a text is matching the version read from it', run2, h, loops=8, need=20)

    mt = spec_m(c, 'test_match_version', 'VersionSpecOrConstraintTree')
    ct = spec_m(c, 'test_match_version', 'ConstraintTree')

    def k(I, v):
        v = peel(I, v)
        return v.t if isinstance(v, Sym) else I.key(v)

    def member(I, fn, args, dty):
        x = peel(I, args[0])
        if not isinstance(x, Sym):
            return NotImplemented
        return I.atom(('accepts', x.t, k(I, args[1])))
    h3 = through(P, {**h, P.fns[mt]['path']: member, P.fns[ct]['path']: member}, [mt, ct])

    def run3(I):
        v = version(c, 'v')
        CB = A.adt('Combinator')
        comb = ('And', 'Or')[I.choose(2, 'combinator')]
        ns = fields(c, CT)
        lt = P.types[CT]['v'][0]['f'][ns.index('parts')][1]
        ps = Sym(('sv', 'members'), lt)
        t = Adt(CT, 0, tuple(variant(P, CB, comb) if n == 'combinator' else ps for n in ns))
        got = truth(I, I.call(ct, [ref(t), ref(v)]))
        xs = [val for key, val in I.f.atoms.items() if key[0] == 'accepts']
        # the walk stops early only at a member that settles the answer
        settled = (comb == 'And' and not all(xs)) or (comb == 'Or' and any(xs))
        if settled:
            ok = got == (comb == 'Or')
        else:
            n = I.seq_len(I.deref_all(ps))
            ok = got == (comb == 'And') and I.cmpi(n, len(xs)) == 0
        return [] if ok else [('any-width:%s' % comb, 'a tree of %d members under %s answers %s' % (len(xs), comb, got))]
    def run4(I):
        v = version(c, 'v')
        comb, n, deep = ('And', 'Or')[I.choose(2, 'combinator')], (20, 70, 140, 262)[I.choose(4, 'width')], I.choose(2, 'nested')
        at = [None, 0, 1, n // 3, n - 2, n - 1][I.choose(6, 'odd member')]
        if deep:
            n = min(n, 40)
            at = at if at is None else min(at, n - 1)
            s = 'leaf', (n - 1,)
            for i in range(n - 2, -1, -1):
                s = comb, ([('leaf', (i,)), s] if i % 2 else [s, ('leaf', (i,))])
        else:
            s = comb, [('leaf', (i,)) for i in range(n)]
        x = build(c, s)
        for i in range(n):
            I.f.atoms[('accepts', ('sv', 'spec-t%d' % i), v.t)] = (comb == 'And') != (i == at)
        m, o = (mt, x) if I.choose(2, 'type') == 0 else (ct, x.fs[0])
        got = truth(I, I.call(m, [ref(o), ref(v)]))
        w = (comb == 'And') != (at is not None)
        return [] if got == w else [('wide:%s' % comb, 'a tree of %d members under %s %s a version that member %s alone decides the other way' % (
            n, comb, 'accepts' if got else 'rejects', at))]
    c.explore('wide and deep trees', run4, h, loops=600, need=96)
    c.explore('trees of any number of members', run3, h3, loops=4 if c.quick else 10, need=10)


EXPL['C19'] = ('Every pair of trees to the stated depth and width with arbitrary leaves is compared, in the types of members and of trees; equality must be equality of shapes, combinators and leaf texts. '
               'Copies are compared with their originals.')


def same_shape(c, I, s, t, x, y):
    """reference equality of two skeletons (splits on leaf texts)"""
    if (s[0] == 'leaf') != (t[0] == 'leaf'):
        return False
    if s[0] == 'leaf':
        return I.str_eq(leaf(c, I, x.fs[0])[1], leaf(c, I, y.fs[0])[1])
    if s[0] != t[0] or len(s[1]) != len(t[1]):
        return False
    i = fields(c, c.anchors().adt('ConstraintTree')).index('parts')
    return all(same_shape(c, I, a, b, p, q) for a, b, p, q in zip(s[1], t[1], I.items(x.fs[0].fs[i]), I.items(y.fs[0].fs[i])))


@prop('C19')
def c19(c):
    A = c.anchors()
    P = c.prog()
    eqs = {n: A.trait('PartialEq::eq', n) for n in ('VersionSpecOrConstraintTree', 'ConstraintTree', 'VersionSpec')}
    nes = {}
    for n in eqs:
        try:
            nes[n] = A.trait('PartialEq::ne', n)
        except Exception:
            pass

    def pair(I, d, w, near):
        s = skeleton(I, d, w, (0,))
        t = skeleton(I, d, w, (1,)) if not near else alter(I, s, (1,))
        return s, t

    def alter(I, s, key):
        """the same tree with new leaves and at most one place changed"""
        k = I.choose(4, ('alter', key))
        if s[0] == 'leaf':
            return [('leaf', key), ('And', [('leaf', key + (0,))]), ('Or', []), ('leaf', key)][k] if k < 3 else ('leaf', key)
        kids = [relabel(x, key + (i,)) for i, x in enumerate(s[1])]
        if k == 1:
            return {'And': 'Or', 'Or': 'And', 'None': 'And'}[s[0]], kids
        if k == 2:
            return s[0], kids + [('leaf', key + (9,))]
        if k == 3 and kids:
            i = I.choose(len(kids), ('which', key))
            kids[i] = alter(I, s[1][i], key + (i,))
        return s[0], kids

    def relabel(s, key):
        return ('leaf', key) if s[0] == 'leaf' else (s[0], [relabel(x, key + (i,)) for i, x in enumerate(s[1])])

    def mk(d, w, near):
        def run(I):
            s, t = pair(I, d, w, near)
            x, y = build(c, s), build(c, t)
            bad = []
            want = same_shape(c, I, s, t, x, y)
            forms = [('VersionSpecOrConstraintTree', x, y)]
            if s[0] == t[0] == 'leaf':
                forms.append(('VersionSpec', x.fs[0], y.fs[0]))
            if s[0] != 'leaf' and t[0] != 'leaf':
                forms.append(('ConstraintTree', x.fs[0], y.fs[0]))
            for n, a, b in forms:
                got = truth(I, I.call(eqs[n], [ref(a), ref(b)]))
                if got != want:
                    bad.append(('eq:%s:%s:%s' % (n, sk(s), sk(t)), '%s and %s are %s though their contents are %s' % (sk(s), sk(t), 'equal' if got else 'different', 'equal' if want else 'different')))
                if n in nes and truth(I, I.call(nes[n], [ref(a), ref(b)])) == want:
                    bad.append(('ne:%s' % n, '!= answers the same as =='))
            return bad
        return run
    c.explore('pairs of small trees', mk(1, 3 if c.quick else 4, False), loops=8, need=100)
    c.explore('pairs of nested trees that differ in at most one place', mk(2, 2 if c.quick else 3, True), loops=8, need=500, seconds=60 if c.quick else 400)
    c.explore('pairs of nested trees', mk(2, 1 if c.quick else 2, False), loops=8, need=300, seconds=60 if c.quick else 400)

    def copies(I):
        s = skeleton(I, 2, 2, ())
        x = build(c, s)
        bad = []
        forms = [('VersionSpecOrConstraintTree', x)] + ([('VersionSpec', x.fs[0])] if s[0] == 'leaf' else [('ConstraintTree', x.fs[0])])
        for n, a in forms:
            y = I.call(A.trait('Clone::clone', n), [ref(a)])
            if not truth(I, I.call(eqs[n], [ref(a), ref(y)])):
                bad.append(('copy:%s' % n, 'a copy of %s differs from it' % sk(s)))
            b = y if n == 'VersionSpecOrConstraintTree' else None
            if b is not None and node(c, I, b) != node(c, I, a):
                bad.append(('copy-shape:%s' % n, 'a copy of %s has another shape' % sk(s)))
        return bad
    c.explore('a copy equals its original', copies, loops=8, need=100)


EXPL['C21'] = ('Every tree to the stated depth and width, with arbitrary leaf texts, is written out; the text must be the reference text: members joined in order by the tree\'s sign, nested trees of several '
               'members in parentheses, an error when some tree has no member.')


def spine(I, depth, key):
    """a deep tree with at most one nested tree per level"""
    if not depth:
        return 'leaf', key
    k = ('And', 'Or')[I.choose(2, ('op', key))]
    f = I.choose(4 if depth < 3 else 3, ('form', key))
    if f == 3:
        return k, [('leaf', key + (0,)), ('leaf', key + (1,))]
    sub = spine(I, depth - 1, key + (5,))
    return k, [[sub], [('leaf', key + (0,)), sub], [sub, ('leaf', key + (0,))]][f]


def wide(I):
    """a tree of many members, some of them nested"""
    k, n, f = ('And', 'Or')[I.choose(2, 'op')], (20, 70, 140)[I.choose(3, 'width')], I.choose(2, 'form')
    other = 'Or' if k == 'And' else 'And'
    return k, [('leaf', (i,)) if not f or i % 7 else (other, [('leaf', (i, 0)), ('leaf', (i, 1))]) for i in range(n)]


class NoMember(Exception):
    pass


def text_ref(c, I, s, x, nested):
    if s[0] == 'leaf':
        return [leaf(c, I, x.fs[0])[1]]
    xs = I.items(x.fs[0].fs[fields(c, c.anchors().adt('ConstraintTree')).index('parts')])
    if not s[1]:
        raise NoMember
    if len(s[1]) == 1:
        return text_ref(c, I, s[1][0], xs[0], nested)
    out = []
    for i, (a, b) in enumerate(zip(s[1], xs)):
        if i:
            out.append(('lit', ',' if s[0] == 'And' else '|'))
        out += text_ref(c, I, a, b, True)
    return [('lit', '(')] + out + [('lit', ')')] if nested else out


@prop('C21')
def c21(c):
    A = c.anchors()
    un = A.fn('untreeify')

    def mk(d, w):
        def run(I):
            s = wide(I) if w < 0 else skeleton(I, d, w, ()) if w else spine(I, d, ())
            x = build(c, s)
            try:
                want = text_of_toks(text_ref(c, I, s, x, False))
            except NoMember:
                want = None
            bad = []
            r = I.call(un, [ref(x)])
            ok = is_ok(I, r)
            if ok != (want is not None):
                return [('error:%s' % sk(s), 'writing %s out is %s' % (sk(s), 'an error' if not ok else 'no error though a tree in it has no member'))]
            if not ok:
                return []
            if not same_text(I, I.text(payload(I, r)), want):
                bad.append(('text:%s' % sk(s), '%s is written %s, not %s' % (sk(s), desc(I.text(payload(I, r))), desc(want))))
            forms = [('VersionSpecOrConstraintTree', x)] + ([('VersionSpec', x.fs[0])] if s[0] == 'leaf' else [('ConstraintTree', x.fs[0])])
            for n, o in forms:
                for m in ('get_spec', 'raw_value'):
                    try:
                        f = spec_m(c, m, n)
                    except Exception:
                        continue
                    if not same_text(I, I.text(I.call(f, [ref(o)])), want):
                        bad.append(('%s:%s:%s' % (m, n, sk(s)), 'the text of %s (%s) is not that of its members' % (sk(s), m)))
            return bad
        return run
    c.explore('nested trees', mk(2, 3 if c.quick else 4), loops=10, need=1000)
    c.explore('wide trees', mk(1, 5 if c.quick else 9), loops=12, need=10)
    c.explore('very wide trees', mk(0, -1), loops=600, need=8)
    c.explore('deep trees', mk(4 if c.quick else 5, 0), loops=10, need=500, seconds=60 if c.quick else 400)
    if not c.quick:
        c.explore('deep wide trees', mk(3, 2), loops=10, need=1000, seconds=400)


# ------------------------------------------------------------------ display and debug
EXPL['C26'] = ('Every Display and Debug implementation of the crate is run on arbitrary values (trees: every shape to the stated depth and width, member-less ones included), in plain and alternate form: it must '
               'return success, without panic and without recursion on the same value. The debug text of specifications and trees must contain their texts.')


def contains(t, x):
    from .parser import walk
    if t == x or x in list(walk(t)):
        return True
    if x[0] == 'cat':
        for y in walk(t):
            if y[0] == 'cat' and any(y[1][i:i + len(x[1])] == x[1] for i in range(len(y[1]))):
                return True
    return False


@prop('C26')
def c26(c):
    A = c.anchors()
    P = c.prog()
    CT, VT = A.adt('ConstraintTree'), A.adt('VersionSpecOrConstraintTree')
    fmts = [f for f in P.fns if f['local'] and f.get('tm') in ('core::fmt::Debug::fmt', 'core::fmt::Display::fmt') and f.get('blocks') and f['self'] is not None
            and P.types[f['self']]['k'] == 'adt']
    if not fmts:
        c.violation('anchor:fmt', 'no Debug or Display implementation is left')
    for f in fmts:
        name = P.types[f['self']]['path'].split('::')[-1]
        kind = f['tm'].split('::')[-2]

        def run(I, f=f, name=name, kind=kind):
            alt = bool(I.choose(2, 'alternate'))
            x = None
            if f['self'] in (CT, VT):
                s = skeleton(I, 2, 2 if c.quick else 3, ())
                if f['self'] == CT and s[0] == 'leaf':
                    raise Infeasible()
                x = build(c, s)
                v = x if f['self'] == VT else x.fs[0]
                what = '%s' % sk(s)
            else:
                v = Sym(('sv', 'value'), f['self'])
                what = 'a %s' % name
            fm = ref(X('formatter', (('lit', ''), alt)))
            try:
                r = I.call(f['id'], [ref(v), fm])
            except Panic as e:
                return [('panic:%s:%s' % (name, kind), '%s of %s panics: %s' % (kind, what, e.msg))]
            except Cut as e:
                if not e.recurrent and str(e).startswith('recursion of'):
                    return [('endless:%s:%s' % (name, kind), '%s of %s does not end: %s' % (kind, what, e))]
                raise
            if not is_ok(I, r):
                return [('error:%s:%s' % (name, kind), '%s of %s answers an error' % (kind, what))]
            out = I.getf(fm).a[0]
            if x is None:
                return []
            want = []
            try:
                whole = text_of_toks(text_ref(c, I, s, x, False))
                want = [whole] if not alt else [leaf_text for leaf_text in leaves(c, I, s, x)]
            except NoMember:
                pass
            for w in want:
                if not contains(out, w):
                    return [('text:%s:%s:%s' % (name, kind, 'alt' if alt else 'plain'), 'the debug text of %s does not contain %s' % (what, desc(w)))]
            return []
        c.explore('%s of %s' % (kind, name), run, loops=3, budget=2000 if c.quick else 20000, seconds=15 if c.quick else 60, need=1)

    from .parser import LONG, SIZES, grown
    frs = A.trait('FromStr::from_str', 'Version')
    sf = spec_from(c)
    by = {}
    for f in fmts:
        by.setdefault(P.types[f['self']]['path'].split('::')[-1], []).append(f)

    def shown(I, what, f, v, t):
        kind = f['tm'].split('::')[-2]
        fm = ref(X('formatter', (('lit', ''), bool(I.choose(2, 'alternate')))))
        try:
            if not is_ok(I, I.call(f['id'], [ref(v), fm])):
                return [('error:%s:%s' % (what, kind), '%s of the %s %s answers an error' % (kind, what, t))]
        except Panic as e:
            return [('panic:%s:%s' % (what, kind), '%s of the %s %s panics: %s' % (kind, what, t, e.msg))]
        return []

    def run_long(I):
        n = SIZES[I.choose(len(SIZES), 'size')]
        t = grown(LONG[I.choose(len(LONG), 'kind')], n)
        what = ('Version', 'VersionSpec')[I.choose(2, 'what')]
        fs = by.get(what, [])
        if not fs or what == 'VersionSpec' and n > 140:
            return []
        try:
            r = I.call(frs, [lit(t)]) if what == 'Version' else I.call(sf, [ref(Str(('lit', '>=' + t)))])
        except Panic:
            return []           # C09 and C10
        if not is_ok(I, r):
            return []
        f = fs[I.choose(len(fs), 'impl')]
        return shown(I, what, f, payload(I, r), '%s (%d characters)' % (t if len(t) < 50 else t[:30] + '...' + t[-15:], len(t)))
    c.explore('texts of long versions and specifications', run_long, loops=9000, need=200, seconds=100 if c.quick else 300)


def leaves(c, I, s, x):
    if s[0] == 'leaf':
        return [leaf(c, I, x.fs[0])[1]]
    xs = I.items(x.fs[0].fs[fields(c, c.anchors().adt('ConstraintTree')).index('parts')])
    return [t for a, b in zip(s[1], xs) for t in leaves(c, I, a, b)]
