"""Reading and matching specifications."""
from ..check import prop, EXPL
from .util import *
from .order import version, parts_of, parse_hook, part_hooks, lower
from .parser import hole, walk, desc, text_of_toks, D1, DIG, I16

ANYC = L.L_chars(L.ANY)
NSC = L.L_chars(L.cs_neg(L.SPACE))
NS = NSC + NSC.star()
RX = (L.L_lit('^') + L.ALL) & (L.ALL + L.L_lit('$'))
BADRX = ((L.L_lit('^') + L.ALL) | (L.ALL + L.L_lit('$'))) - RX
REST = L.ALL - RX - BADRX
OPCH = L.L_chars(L.cs_of('=<>!~'))
OPS = REST & (OPCH + L.ALL)
STAR = L.L_lit('*')
NONOP = REST - OPS - STAR
GLOB = NONOP & (L.ALL + L.L_lit('*') + L.ALL + L.L_chars(L.cs_neg(L.cs_of('*'))) + L.ALL)
PFX = (NONOP - GLOB) & (L.ALL + L.L_lit('*'))
AT = (NONOP - GLOB - PFX) & (L.ALL + L.L_lit('@') + L.ALL)
BARE = NONOP - GLOB - PFX - AT
CLASSES = [('a regular expression', RX), ('half a regular expression', BADRX), ('an operator specification', OPS), ('the lone star', STAR), ('a glob', GLOB), ('a prefix', PFX),
           ('a text with @', AT), ('a bare version', BARE)]
OPER = {}
for _o in ('==', '!=', '<=', '>=', '~='):
    OPER[_o] = L.L_lit(_o) + NS
_two = L.EMPTY
for _o in OPER:
    _two = _two | OPER[_o]
for _o in ('<', '>', '='):
    OPER[_o] = (L.L_lit(_o) + NS) - _two
OPSOK = L.EMPTY
for _o in OPER:
    OPSOK = OPSOK | (OPER[_o] & OPS)
OPSOK = OPSOK - (L.L_lit('~=') + L.ALL + L.L_lit('.*'))
OPSBAD = OPS - OPSOK
# operands of the skeletons: no blank, first and last character ordinary
_mid = L.L_chars(L.cs_neg(L.cs_or(L.cs_of('*^$()|,@'), L.SPACE)))
_end = L.L_chars(L.cs_neg(L.cs_or(L.cs_of('*^$()|,@=<>!~.'), L.SPACE)))
OPND = _end | (_end + _mid.star() + _end)


def spec_from(c):
    return c.anchors().trait('TryFrom::try_from', 'VersionSpec', '&str')


def tree_from(c):
    return c.anchors().trait('TryFrom::try_from', 'VersionSpecOrConstraintTree', '&str')


def spec_m(c, name, adt='VersionSpec'):
    return c.anchors().trait('Spec::' + name, adt)


def free(z):
    while z[0] == 'f':
        z = z[1]
    return z[0] == 'sv'


def same_text(I, s, t):
    """is the text s the text t, for all the values they may have; Unknown when that can not be told"""
    if s == t:
        return True
    a, b = I.word(s), I.word(t)
    if a is not None and b is not None:
        return a == b
    l, m = I.f.get_lang(s), I.f.get_lang(t)
    if (l & m).is_empty():
        return False
    if s[0] in ('dropend', 'dropstart', 'takestart', 'takeend', 'strip') and t in list(walk(s[1])):
        return False
    if s[0] in ('case', 'hom', 'trim') and s[1] == t:
        return False
    x, y = s[1] if s[0] == 'cat' else (s,), t[1] if t[0] == 'cat' else (t,)
    hs, ht = [z for z in x if z[0] != 'lit'], [z for z in y if z[0] != 'lit']
    if all(free(z) for z in hs + ht) and x != y:
        if hs == ht or all(I.f.get_lang(z) == L.ALL for z in hs + ht):
            return False
    raise Unknown('text %r for %r' % (s, t))


def classify(I, t):
    for name, l in CLASSES:
        if I.in_lang(t, l):
            return name
    raise Unknown('class')


def operands(I):
    return [(k[1], v) for k, v in I.f.atoms.items() if k[0] == 'parses']


FREE = L.L_chars(L.cs_neg(L.cs_of('!+'))).star()
VERSIONS = (L.EPS | (I16 + L.L_lit('!'))) + FREE + (L.EPS | (L.L_lit('+') + FREE))


def outcome(I, cls, t, ok):
    """problem with accepting or rejecting, or None"""
    op = operands(I)
    rx = I.compiled
    if cls == 'half a regular expression':
        return 'is accepted' if ok else None
    if cls == 'an operator specification' and I.in_lang(t, OPSBAD):
        return 'is accepted though its operator or operand is not one' if ok else None
    if cls in ('the lone star', 'a text with @'):
        return None if ok else 'is rejected'
    if cls in ('a regular expression', 'a glob'):
        if not rx:
            if op and all(v for _, v in op) != ok or not op and not ok:
                return 'is rejected whether or not its expression is well formed' if not ok else 'is accepted'
            raise Unknown('no expression is compiled')
        if ok != all(v for _, v in rx):
            return 'is accepted with a malformed expression' if ok else 'is rejected with a well-formed expression'
        return None
    if not op:
        if rx:
            return 'is read as a pattern'
        if not ok:
            return 'is rejected without reading its version'
        if cls == 'a bare version' and not I.f.get_lang(t) <= VERSIONS:
            return 'is accepted though it may be no version, as %r is none' % (I.f.get_lang(t) - VERSIONS).example()
        raise Unknown('no version is read')
    if ok != all(v for _, v in op):
        return 'is accepted though its version is malformed' if ok else 'is rejected though its version is well formed'
    return None


EXPL['C15'] = ('A specification is read from an arbitrary text, with an uninterpreted version parser and regular-expression compiler; each path is a regular language of texts. On each path '
               'the class of the text (decided by regular languages written down from the documentation) must give the path\'s outcome.')


@prop('C15')
def c15(c):
    h = parse_hook(c)
    t = ('sv', 'text')
    P = c.prog()
    for f, what in ((spec_from(c), 'specification'), (tree_from(c), 'general specification')):
        def run(I, f=f, what=what):
            if what != 'specification':
                I.f.assume_lang(t, L.L_chars(L.cs_neg(L.cs_of('()|,'))).star())
            r = I.call(f, [ref(Str(t))])
            ok = is_ok(I, r)
            cls = classify(I, t)
            w = outcome(I, cls, t, ok)
            return [] if w is None else [('%s:%s:%s' % (what.split()[0], cls, 'ok' if ok else 'err'), 'the text %s is %s and %s' % (show(I, t), cls, w))]
        c.explore('a %s is accepted or rejected by its class' % what, run, h, loops=3, need=30)
    test = spec_m(c, 'test_match_version')
    asr = c.anchors().method('Version', 'as_str')
    star = spec_from(c)

    def run2(I):
        """the special forms: star and texts with @"""
        v = version(c, 'v')
        if I.choose(2) == 0:
            r = I.call(star, [lit('*')])
            if not is_ok(I, r):
                return [('star', 'the lone star is rejected')]
            return [] if truth(I, I.call(test, [ref(payload(I, r)), ref(v)])) else [('star', 'the lone star rejects a version')]
        I.f.assume_lang(t, AT)
        r = I.call(star, [ref(Str(t))])
        if not is_ok(I, r):
            return [('at', 'a text with @ is rejected')]
        got = truth(I, I.call(test, [ref(payload(I, r)), ref(v)]))
        want = I.str_eq(I.text(I.call(asr, [ref(v)])), t)
        return [] if got == want else [('at', 'a text with @ %s another text than itself' % ('accepts' if got else 'rejects itself or'))]
    hh, _, _ = part_hooks(c)
    c.explore('the star accepts everything, a text with @ itself', run2, {**h, **hh}, loops=3, need=3)
    c.note('the matching of the other forms is decided by C14 and C17')


EXPL['C16'] = ('A specification is read from an arbitrary text as for C15; on each accepting path its exactness and exact value are asked for and compared with the class of the text. '
               'The same for trees of any combinator with arbitrary members.')


@prop('C16')
def c16(c):
    h = parse_hook(c)
    t = ('sv', 'text')
    P = c.prog()
    for f, adt in ((spec_from(c), 'VersionSpec'), (tree_from(c), 'VersionSpecOrConstraintTree')):
        ex, ev = spec_m(c, 'is_exact', adt), spec_m(c, 'exact_value', adt)
        gs = spec_m(c, 'get_spec', adt)

        def run(I, f=f, ex=ex, ev=ev, gs=gs, adt=adt):
            if adt != 'VersionSpec':
                I.f.assume_lang(t, L.L_chars(L.cs_neg(L.cs_of('()|,'))).star())
            r = I.call(f, [ref(Str(t))])
            if not is_ok(I, r):
                return []
            s = payload(I, r)
            got = truth(I, I.call(ex, [ref(s)]))
            cls = classify(I, t)
            want = cls in ('a bare version', 'a text with @') or cls == 'an operator specification' and I.in_lang(t, OPER['=='])
            bad = []
            if got != want:
                bad.append(('exact:%s' % cls, '%s such as %s is %sexact' % (cls, show(I, t), '' if got else 'not ')))
            if not same_text(I, I.text(I.call(gs, [ref(s)])), t):
                bad.append(('text', 'a specification answers another text than it was read from'))
            o = I.deref_all(I.call(ev, [ref(s)]))
            has = vname(I, o) == 'Some'
            if has != got:
                bad.append(('exact-value', 'a specification that is %sexact answers %s exact value' % ('' if got else 'not ', 'an' if has else 'no')))
            elif has and not same_text(I, I.text(I.force(o.fs[0])), t):
                bad.append(('exact-value', 'the exact value of a specification is not its text'))
            return bad
        c.explore('exactness follows the class of the text (%s)' % adt, run, h, loops=3, need=15)
    CT = c.anchors().adt('ConstraintTree')
    ex = spec_m(c, 'is_exact', 'ConstraintTree')
    ev = spec_m(c, 'exact_value', 'ConstraintTree')

    def run2(I):
        v = Sym(('sv', 'tree'), CT)
        bad = []
        if truth(I, I.call(ex, [ref(v)])):
            bad.append(('tree-exact', 'a compound specification is exact'))
        if vname(I, I.call(ev, [ref(v)])) == 'Some':
            bad.append(('tree-exact-value', 'a compound specification answers an exact value'))
        return bad
    c.explore('compound specifications are never exact', run2, h, need=1)


EXPL['C14'] = ('Specifications are made of every operator, an arbitrary operand text and an optional ".*"; the operand\'s version and the version matched are arbitrary part sequences over an arbitrary '
               'total preorder. Matching must answer what comparing the version with the operand\'s version answers.')
FORMS = [(o, s) for o in ('==', '!=', '<', '<=', '>', '>=', '=') for s in ('', '.*')] + [('', ''), ('', '.*'), ('', '*'), ('', '**'), ('', '.**'), ('', '***'), ('', '..*')]


TAILS = ('', '*', '.', '**', '.*', '.*.*')


def meaning(o, s):
    """set of orderings (of the version against the operand), or prefix / not prefix"""
    if o == '':
        return 'eq' if s == '' else 'prefix'
    if o == '=':
        return 'prefix'
    if o == '!=' and s:
        return 'notprefix'
    return {'==': 'eq', '!=': 'ne', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge'}[o]


ACC = {'eq': 'Eq', 'ne': 'Lt Gt', 'lt': 'Lt', 'le': 'Lt Eq', 'gt': 'Gt', 'ge': 'Gt Eq'}


OPERANDS = ['1', '0', '1.', '.1', '1..2', '1+a', '1+a.', '1+a-', '1+.', '1-', '1_', '1a', 'a', 'A', '2!1', '2!1+b', '1rc', '1.dev', 'v1', '1.0', '1.0.0', '01', '1-2', '1_2', '1.2.3.4.5.6.7.8.9.10.11.12',
            '9' * 30, 'a' * 40, '1.' * 40 + '1', '1+' + 'x' * 50, '\u00e9', '\u4e2d', '1:2', '1/2', '1%', '"1"', "'1'", '1#', '1&2', '1;', '1?', '[1]', '{1}', '1\\', '1=2', '1<2', '1>2', '1!=', '1~', '1*2', '*.1', '*1', '**',
            '1@2', '-1', '-', '.', '_', '+a', '!', '1!', '1+', '1!+a', 'x.y.z', '1.X']


@prop('C14')
def c14(c):
    A = c.anchors()
    h = parse_hook(c)
    hh, _, _ = part_hooks(c)
    hooks = {**h, **hh}
    frs = A.trait('FromStr::from_str', 'Version')
    cmp_, sw = A.method('Version', 'compare_version'), A.method('Version', 'startswith')
    n = 3 if c.quick else 8
    for f, adt in ((spec_from(c), 'VersionSpec'), (tree_from(c), 'VersionSpecOrConstraintTree')):
        test = spec_m(c, 'test_match_version', adt)

        def judge(I, f, test, o, s, x, light=False):
            t = text_of_toks([('lit', o), x, ('lit', s)])
            r = I.call(f, [ref(Str(t))])
            what = '%sX%s' % (o, s)
            for a, _ in operands(I):
                if not same_text(I, a, x):
                    return [('operand:' + what, 'the operand of %s is read as %s' % (what, desc(a)))]
            w = I.call(frs, [ref(Str(x))])
            if is_ok(I, r) != is_ok(I, w):
                return [('accept:' + what, '%s is %s though its operand is %s' % (what, 'accepted' if is_ok(I, r) else 'rejected', 'malformed' if is_ok(I, r) else 'well formed'))]
            if light or not is_ok(I, r):
                return []
            v, x = version(c, 'v'), payload(I, w)
            got = truth(I, I.call(test, [ref(payload(I, r)), ref(v)]))
            m = meaning(o, s)
            if m in ACC:
                k = vname(I, I.call(cmp_, [ref(v), ref(x)]))
                want = k in ACC[m].split()
                why = 'compares %s with X' % k
            else:
                p = truth(I, I.call(sw, [ref(v), ref(x)]))
                want = p == (m == 'prefix')
                why = 'starts with X' if p else 'does not start with X'
            return [] if got == want else [('match:' + what, '%s %s a version that %s' % (what, 'accepts' if got else 'rejects', why))]

        def run(I, f=f, test=test, adt=adt):
            o, s = FORMS[I.choose(len(FORMS), 'form')]
            x = hole(I, 'operand', OPND)
            k = I.choose(len(TAILS) + 1 if s else 5, "end") if o else I.choose(2, "end") * len(TAILS)
            if k == len(TAILS) or o and not s and k == 4:
                x = text_of_toks([('lit', '.'), x])
            elif o:
                # only one ".*" is the mark
                x = text_of_toks([x, ('lit', TAILS[k])])
            return judge(I, f, test, o, s, x)
        def run_lit(I, f=f, test=test):
            """operands written out"""
            o, s = FORMS[I.choose(len(FORMS), 'form')]
            x = OPERANDS[I.choose(len(OPERANDS), 'operand')]
            if not o and (x[0] in '=<>!~' or not s and '@' in x) or x.endswith('.*') or not o and s and x[-1] in '.*' or not o and x.endswith('*') or not o and '*' in x:
                raise Infeasible()
            return judge(I, f, test, o, s, ('lit', x), True)
        c.explore('%s: operands written out' % adt, run_lit, hooks, loops=400, need=100, seconds=60 if c.quick else 200)
        c.explore('%s: operator, operand and matching' % adt, run, hooks, loops=n, need=100, seconds=100 if c.quick else 500)

    tm = spec_m(c, 'test_match')
    tv = spec_m(c, 'test_match_version')

    def run2(I):
        """matching a text"""
        x, y = hole(I, 'operand', OPND), ('sv', 'text')
        o, s = FORMS[I.choose(len(FORMS), 'form')]
        r = I.call(spec_from(c), [ref(Str(text_of_toks([('lit', o), x, ('lit', s)])))])
        if not is_ok(I, r):
            return []
        w = I.call(frs, [ref(Str(y))])
        if not is_ok(I, w):
            return []              # a malformed text can not be matched, by the signature
        a = truth(I, I.call(tm, [ref(payload(I, r)), ref(Str(y))]))
        b = truth(I, I.call(tv, [ref(payload(I, r)), ref(payload(I, w))]))
        return [] if a == b else [('text:%sX%s' % (o, s), 'matching a text and matching its version differ for %sX%s' % (o, s))]
    c.explore('matching a text is matching its version', run2, hooks, loops=2, need=60)
    c.note('operands begin and end with an ordinary character and contain no blank, star, @ or operator mark at their ends')


EXPL['C17'] = ('Globs are enumerated (to the stated length) and matched against a version with an arbitrary text: each path fixes the regular language the text is in, which must be inside or outside the '
               'glob\'s language as the answer says. Regular-expression specifications must hand the specification\'s own text to the matcher, and the version\'s text to be matched.')


@prop('C17')
def c17(c):
    A = c.anchors()
    h = parse_hook(c)
    f = spec_from(c)
    test = spec_m(c, 'test_match_version')
    asr = A.method('Version', 'as_str')
    P = c.prog()
    LINE = L.L_chars(L.cs_neg(L.cs_of('\n'))).star()
    toks = ['1', '.', 'b', '*', '+', '-', '!', '_']

    def run(I):
        g = ''
        n = 4 if c.quick else 5
        for i in range(n):
            k = I.choose(len(toks) + 1, ('tok', i))
            if k == 0:
                break
            g += toks[k - 1]
        if not GLOB.has(g):
            return []
        return judge(I, g)

    def judge(I, g):
        lang = L.EPS
        for ch in g:
            lang = lang + (LINE if ch == '*' else L.L_lit(ch))
        r = I.call(f, [lit(g)])
        if not is_ok(I, r):
            return [('rejected:' + g, 'the glob %r is rejected' % g)]
        v = version(c, 'v')
        got = truth(I, I.call(test, [ref(payload(I, r)), ref(v)]))
        t = I.text(I.call(asr, [ref(v)]))
        I.f.assume_lang(t, LINE)
        want = I.in_lang(t, lang)
        return [] if got == want else [('glob:%s' % g, 'the glob %r %s the version %s' % (g, 'accepts' if got else 'rejects', show(I, t)))]
    c.explore('a glob accepts exactly the versions whose whole text it describes', run, h, need=500)
    more = ['1.2.*.4', '2*rc1', '1.*.*.9', '2.0+*.x', '10*-3_b', '*1', '**1', '1**2', '*.*.1', '1!2.*b', 'A*z', '1.' * 12 + '*.5', '*.1' * 11, '1+' * 10 + '*3', '*' + 'a' * 300, '*'.join('abcdefghijklmnop'), '**.' * 9 + '7', '1.*' + '0' * 70]

    def run3(I):
        return judge(I, more[I.choose(len(more), 'glob')])
    c.explore('longer globs', run3, h, need=2 * len(more))

    def run2(I):
        t = ('sv', 'text')
        I.f.assume_lang(t, RX)
        r = I.call(f, [ref(Str(t))])
        if not is_ok(I, r):
            return []
        v = version(c, 'v')
        got = truth(I, I.call(test, [ref(payload(I, r)), ref(v)]))
        vt = I.text(I.call(asr, [ref(v)]))
        at = [(k, b) for k, b in I.f.atoms.items() if k[0] == 'is_match']
        if len(at) != 1:
            raise Unknown('no single match')
        (_, rt, tx), b = at[0]
        bad = []
        if got != b:
            bad.append(('regex-answer', 'a regular expression %s a version it %s' % ('accepts' if got else 'rejects', 'matches' if b else 'does not match')))
        if not same_text(I, tx, vt):
            bad.append(('regex-subject', 'a regular expression is matched against something else than the version text'))
        if not same_text(I, rt, t):
            bad.append(('regex-pattern', 'the expression matched is not the specification text'))
        return bad
    c.explore('a regular expression is matched against the version text', run2, h, need=2)
    pats = [r'^1\.7\.[0-9]+$', '^.*$', '^[^1].*$', '^$', r'^1\.7\.1$', '^(1|2)\\.0$', '^a$', '^1.2$', r'^\d+!1$', '^1' + r'\.0' * 40 + '$', '^' + 'x' * 300 + '.$', '^(' + '|'.join('v%d' % i for i in range(30)) + ')$']

    def run4(I):
        p = pats[I.choose(len(pats), 'pattern')]
        r = I.call(f, [lit(p)])
        if not is_ok(I, r):
            return [('regex-rejected:' + p, 'the regular expression %r is rejected' % p)]
        v = version(c, 'v')
        got = truth(I, I.call(test, [ref(payload(I, r)), ref(v)]))
        t = I.text(I.call(asr, [ref(v)]))
        want = I.in_lang(t, L.regex_search(p))
        return [] if got == want else [('regex:' + p, 'the regular expression %r %s the version %s' % (p, 'accepts' if got else 'rejects', show(I, t)))]
    c.explore('regular expressions accept exactly the texts they describe', run4, h, need=12)


EXPL['C10'] = ('Specifications are read from an arbitrary text (each path is a regular language) and from arrangements of members, commas, bars and parentheses; no path may panic. Accepted forms with '
               'arbitrary operands are matched against an arbitrary version; no path may panic, except the listed finding.')


@prop('C10')
def c10(c):
    A = c.anchors()
    h = parse_hook(c)
    hh, _, _ = part_hooks(c)
    t = ('sv', 'text')

    def key(e):
        return 'panic:%s' % e.msg.split('(')[0].strip()[:60]
    for f, what in ((spec_from(c), 'specification'), (tree_from(c), 'general specification')):
        def run(I, f=f, what=what):
            if what != 'specification':
                I.f.assume_lang(t, L.L_chars(L.cs_neg(L.cs_of('()|,'))).star())
            try:
                is_ok(I, I.call(f, [ref(Str(t))]))
            except Panic as e:
                return [('read:' + key(e), 'reading the %s %s panics: %s (in %s)' % (what, show(I, t), e.msg, e.where[0]))]
            return []
        c.explore('reading an arbitrary %s never panics' % what, run, h, loops=3, need=30)
    MEMB = L.L_chars(L.cs_neg(L.cs_or(L.cs_of('()|,^$'), L.SPACE)))
    MEMB = MEMB + MEMB.star()
    forms = ['(', ')', '|', ',', ' ', 'M', '^', '$']
    ty = A.fn('treeify')
    for fid, what in ((tree_from(c), 'general specification'), (ty, 'tree')):
        def run3(I, fid=fid, what=what):
            toks, prev = [], None
            n = 4 if c.quick else 5
            for i in range(n):
                k = I.choose(len(forms) + 1, ('tok', i))
                if k == 0:
                    break
                x = forms[k - 1]
                if x == 'M':
                    if prev == 'M':
                        raise Infeasible()
                    toks.append(('sv', 'member%d' % i))
                    I.f.assume_lang(toks[-1], MEMB)
                else:
                    toks.append(('lit', x))
                prev = x
            if not toks:
                return []
            try:
                is_ok(I, I.call(fid, [ref(Str(text_of_toks(toks)))]))
            except Panic as e:
                return [('compound:' + key(e), 'reading the %s %s panics: %s (in %s)' % (what, '+'.join(desc(x) for x in toks), e.msg, e.where[0]))]
            return []
        c.explore('reading a compound %s never panics' % what, run3, {**h, **member_hook(c)}, loops=12, need=1000, seconds=100 if c.quick else 800)
    test = spec_m(c, 'test_match_version')
    allforms = FORMS + [('~=', '')]

    def run2(I):
        o, s = allforms[I.choose(len(allforms), 'form')]
        x = hole(I, 'operand', OPND)
        r = I.call(spec_from(c), [ref(Str(text_of_toks([('lit', o), x, ('lit', s)])))])
        if not is_ok(I, r):
            return []
        try:
            truth(I, I.call(test, [ref(payload(I, r)), ref(version(c, 'v'))]))
        except Panic as e:
            return [('match:%sX%s' % (o, s), 'matching %sX%s panics: %s (in %s)' % (o, s, e.msg, e.where[0]))]
        return []
    c.explore('matching an accepted specification never panics', run2, {**h, **hh}, loops=3, need=100)

    def run4(I):
        """every accepted text"""
        f = spec_from(c)
        r = I.call(f, [ref(Str(t))])
        if not is_ok(I, r):
            return []
        cls = classify(I, t)
        if cls == 'an operator specification':
            o = [k for k in sorted(OPER) if I.in_lang(t, OPER[k])]
            cls = '%sX' % o[0] if o else cls
        try:
            truth(I, I.call(test, [ref(payload(I, r)), ref(version(c, 'v'))]))
        except Panic as e:
            return [('match:%s' % cls, 'matching the specification %s panics: %s (in %s)' % (show(I, t), e.msg, e.where[0]))]
        return []
    c.explore('matching whatever was accepted never panics', run4, {**h, **hh}, loops=2, need=50)

    DEEP = [lambda n: '(' * n + '1' + ')' * n, lambda n: '1|(' * n + '1' + ')' * n, lambda n: '1,(2|(' * (n // 2) + '1' + '))' * (n // 2), lambda n: '(' * n, lambda n: ')' * n,
            lambda n: '|' * n, lambda n: ',' * n, lambda n: '1,' * n + '1', lambda n: '1|' * n + '2', lambda n: ' ' * n + '1', lambda n: '1|2,' * n + '3', lambda n: '(1)' * n, lambda n: '(1|2),' * n + '4',
            lambda n: '1' + ')' * n, lambda n: '^1$,' * n + '2', lambda n: '^' * n, lambda n: '(\u00e9' * n, lambda n: '1' + ',(' * n]
    NS = (9, 17, 33, 64, 66, 101, 129)

    def run5(I):
        n = NS[I.choose(len(NS), 'size')]
        x = DEEP[I.choose(len(DEEP), 'kind')](n)
        fid, what = ((tree_from(c), 'general specification'), (ty, 'tree'))[I.choose(2, 'as')]
        try:
            is_ok(I, I.call(fid, [ref(Str(('lit', x)))]))
        except Panic as e:
            return [('compound:' + key(e), 'reading the %s %s (%d characters) panics: %s (in %s)' % (what, x if len(x) < 50 else x[:30] + '...' + x[-15:], len(x), e.msg, e.where[0]))]
        return []

    def always(I, fn, args, dty):
        vs = {x['name']: x['f'][0][1] for x in P.types[dty]['v']}
        return I.ok(dty, Sym(('spec', I.text(args[0])), vs['Ok']))
    P = c.prog()
    hk = {**h, **member_hook(c)}
    for k_ in list(hk):
        if getattr(hk[k_], '__name__', '') == 'hk':
            hk[k_] = always
    c.explore('reading long and deep compounds never panics', run5, hk, loops=4000, need=60, seconds=120 if c.quick else 400)
    OPS = ('', '==', '!=', '<', '<=', '>', '>=', '~=', '=', '^')
    TXT_ = ('1~', '9~', '1.~1', '1.0~', 'a~', '\u00e9~', '*~', '1.*~', '.~', '1~.*', 'a~*', '*.~', '1~$', '=~', '<~1', '1.~*', '\u4e2d~.1', '1 ~', '1!~1', '1+~1', '-~', '1~+x')

    def run6(I):
        n = (1, 3, 8, 10, 17, 33, 65, 129)[I.choose(8, 'size')]
        o = OPS[I.choose(len(OPS), 'operator')]
        k = TXT_[I.choose(len(TXT_), 'kind')]
        x = o + k[:k.index('~') - 1] + k[k.index('~') - 1] * n + k[k.index('~') + 1:]
        try:
            is_ok(I, I.call(spec_from(c), [ref(Str(('lit', x)))]))
        except Panic as e:
            return [('read:' + key(e), 'reading the specification %s (%d characters) panics: %s (in %s)' % (x if len(x) < 50 else x[:30] + '...' + x[-15:], len(x), e.msg, e.where[0]))]
        return []
    c.explore('reading long specifications never panics', run6, loops=2000, need=1000, seconds=100 if c.quick else 400)


def member_hook(c):
    """reading a single specification is an uninterpreted function of the text"""
    P = c.prog()
    f = spec_from(c)

    def hk(I, fn, args, dty):
        t = I.text(args[0])
        vs = {x['name']: x['f'][0][1] for x in P.types[dty]['v']}
        if I.atom(('member', t)):
            return I.ok(dty, Sym(('spec', t), vs['Ok']))
        return I.err(dty, Sym(('specerr', t), vs['Err']))
    low = lower(c, 'libronda', ('VersionPart', 'Version')) + [c.anchors().fn('conda_parser')]
    hooks = {**inside(P, [f], low, 'the reading of a specification'), **through(P, {P.fns[f]['path']: hk}, [f])}
    try:
        cl = c.anchors().trait('Clone::clone', 'VersionSpec')
    except Exception:
        return hooks

    def ck(I, fn, args, dty):
        """a copy of an unread specification is that specification (copies are compared by C19)"""
        x = peel(I, args[0])
        return x if isinstance(x, Sym) else NotImplemented
    hooks[P.fns[cl]['path']] = ck
    return hooks
