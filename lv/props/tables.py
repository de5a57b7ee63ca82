"""Operator tables: names, signs, inversion, flipping, orderings."""
from ..check import prop, EXPL
from .util import *

SIGNS = {'Eq': '==', 'Ne': '!=', 'Lt': '<', 'Le': '<=', 'Ge': '>=', 'Gt': '>', 'StartsWith': '=',
         'NotStartsWith': '!=startswith', 'Compatible': '~=', 'Incompatible': '!~='}
NAMES = {k: k.lower() for k in SIGNS}
# what an operator says about "self op other", as the set of orderings it holds for
SIX = {'Eq': {EQ}, 'Ne': {LT, GT}, 'Lt': {LT}, 'Le': {LT, EQ}, 'Ge': {EQ, GT}, 'Gt': {GT}}
FLIP = {LT: GT, GT: LT, EQ: EQ}
PAIRS = {'StartsWith': 'NotStartsWith', 'NotStartsWith': 'StartsWith', 'Compatible': 'Incompatible', 'Incompatible': 'Compatible'}


def op_by(pred):
    return [k for k, s in SIX.items() if s == pred]


EXPL['C22'] = ('The sign and name tables are evaluated on every operator, and the two recognisers on an arbitrary text: each path '
               'through a recogniser is a regular language of inputs, which must lie inside the padded (and, for names, case-folded) '
               'sign of the operator it answers; the paths that answer an error must exclude every sign.')


@prop('C22')
def c22(c):
    A = c.anchors()
    P = c.prog()
    T = A.adt('CompOp')
    ops = variants(P, T)
    for what, table, get, rec in (('sign', SIGNS, 'sign', 'from_sign'), ('name', NAMES, 'name', 'from_name')):
        fget, frec = A.method('CompOp', get), A.method('CompOp', rec)

        def run(I):
            op = Sym(('sv', 'op'), T)
            t = I.text(I.call(fget, [ref(op)]))
            o = vname(I, op)
            w = I.word(t)
            bad = []
            if o in table and w != table[o]:
                bad.append(('%s-text:%s' % (what, o), 'the %s of %s is %r, documented as %r' % (what, o, w, table[o])))
            r = I.call(frec, [lit(w)])
            if not is_ok(I, r) or vname(I, payload(I, r)) != o:
                bad.append(('%s-roundtrip:%s' % (what, o), 'the %s %r of %s is read back as %s' % (
                    what, w, o, vname(I, payload(I, r)) if is_ok(I, r) else 'an error')))
            return bad
        c.explore('%s of every operator is read back as that operator' % what, run, need=len(ops))

        def run2(I):
            t = ('sv', 'text')
            r = I.call(frec, [ref(Str(t))])
            l = I.f.get_lang(t)
            if is_ok(I, r):
                o = vname(I, payload(I, r))
                good = padded(o)
                if not (l <= good):
                    return [('%s-accepts:%s' % (what, o), '%s accepts %r as %s' % (rec, (l - good).example(), o))]
                return []
            bad = []
            for o in ops:
                x = l & padded(o)
                if not x.is_empty():
                    bad.append(('%s-rejects:%s' % (what, o), '%s rejects %r, which is %s' % (rec, x.example(), o)))
            return bad

        def padded(o):
            s = table.get(o, o)
            return WS + (L.L_lit(s) if what == 'sign' else L.case_pre(L.L_lit(s), 'lower')) + WS
        c.explore('%s recogniser: every text is read as the operator whose %s it is, or rejected' % (what, what), run2, need=len(ops) + 1, loops=40)
    # orderings
    fo, fr = A.method('CompOp', 'from_ord'), A.method('CompOp', 'ord')
    OT = A.argty(fo, 0)

    def run3(I):
        o = Sym(('sv', 'ord'), OT)
        op = I.call(fo, [o])
        n = vname(I, o)
        bad = []
        want = {LT: 'Lt', EQ: 'Eq', GT: 'Gt'}[n]
        if vname(I, op) != want:
            bad.append(('from_ord:' + n, 'the ordering %s becomes the operator %s' % (n, vname(I, op))))
        b = I.call(fr, [ref(op)])
        if not is_ok(I, b) or vname(I, payload(I, b)) != n:
            bad.append(('ord-roundtrip:' + n, 'the ordering %s is not read back from its operator' % n))
        return bad
    c.explore('orderings and their operators convert both ways', run3, need=3)

    def run4(I):
        op = Sym(('sv', 'op'), T)
        r = I.call(fr, [ref(op)])
        o = vname(I, op)
        want = {'Lt': LT, 'Eq': EQ, 'Gt': GT}.get(o)
        got = vname(I, payload(I, r)) if is_ok(I, r) else None
        if want != got:
            return [('ord:' + o, 'the ordering of %s is %s, documented as %s' % (o, got, want))]
        return []
    c.explore('only the three strict operators have an ordering', run4, need=len(ops))
    ff = A.method('CompOp', 'factor')

    def run5(I):
        op = Sym(('sv', 'op'), T)
        r = I.force(I.call(ff, [ref(op)]))
        o = vname(I, op)
        want = {'Lt': -1, 'Le': -1, 'Gt': 1, 'Ge': 1}.get(o, 0)
        return [] if r == want else [('factor:' + o, 'the factor of %s is %r, documented as %d' % (o, r, want))]
    c.explore('factor has the sign of the comparison', run5, need=len(ops))


EXPL['C23'] = ('Inversion and flipping are evaluated on every operator and composed: the meaning of an operator is the set of orderings '
               'it accepts; inverting must give the complement, flipping the mirror image, and both must undo themselves.')


@prop('C23')
def c23(c):
    A = c.anchors()
    P = c.prog()
    T = A.adt('CompOp')
    n = len(variants(P, T))
    inv = {m: A.method('CompOp', m) for m in ('invert', 'as_inverted')}
    flip = {m: A.method('CompOp', m) for m in ('flip', 'as_flipped')}
    opp = {m: A.method('CompOp', m) for m in ('opposite', 'as_opposite')}

    def app(I, m, f, v):
        byref = P.types[A.argty(f, 0)]['k'] == 'ref'
        return I.call(f, [ref(v) if byref else v])

    def want_inv(o):
        return op_by({LT, EQ, GT} - SIX[o])[0] if o in SIX else PAIRS[o]

    def want_flip(o):
        return op_by({FLIP[x] for x in SIX[o]})[0] if o in SIX else o

    def want_opp(o):
        return {'Eq': 'Ne', 'Ne': 'Eq'}.get(o) or (want_flip(o) if o in SIX else PAIRS[o])
    for group, want, what in ((inv, want_inv, 'complement'), (flip, want_flip, 'mirror image'), (opp, want_opp, 'documented opposite')):
        for m, f in group.items():
            def run(I, m=m, f=f):
                op = Sym(('sv', 'op'), T)
                r = app(I, m, f, op)
                o, x = vname(I, op), vname(I, r)
                bad = []
                if x != want(o):
                    bad.append(('%s:%s' % (m, o), '%s of %s is %s, the %s is %s' % (m, o, x, what, want(o))))
                b = vname(I, app(I, m, f, r))
                if b != o:
                    bad.append(('%s-twice:%s' % (m, o), '%s twice turns %s into %s' % (m, o, b)))
                return bad
            c.explore('%s gives the %s and undoes itself' % (m, what), run, need=n)
    # the inversion negates the comparison: shared with C06 through the accepted orderings
