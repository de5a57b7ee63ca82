"""Helpers shared by the rules."""
from ..interp import (Adt, Sym, Str, Chr, Lin, Seq, Ref, Tup, Clo, X, Dyn, BoxV, Cell, V, ref, lit, Panic, Cut, Unknown, Infeasible, UNIT)
import re
from ..check import Missing, Undecided
from .. import lang as L
from ..interp import explore, Interp, Path
from ..models import MODELS

LT, EQ, GT = 'Less', 'Equal', 'Greater'
WS = L.L_chars(L.SPACE).star()


def vname(I, v):
    """variant name of an enum value"""
    v = I.deref_all(v)
    return I.p.types[v.ty]['v'][v.v]['name']


def variant(P, ty, name, *fs):
    return Adt(ty, P.variant(ty, name), fs)


def variants(P, ty):
    return [v['name'] for v in P.types[ty]['v']]


def is_ok(I, v):
    return vname(I, v) in ('Ok', 'Some')


def payload(I, v, i=0):
    v = I.deref_all(v)
    return I.force(v.fs[i])


def text_of(I, v):
    """text term of a str/String value"""
    return I.text(v)


def truth(I, v):
    """settled truth value (splits the path if needed)"""
    v = I.force(v)
    if isinstance(v, Ref):
        v = I.getf(v)
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return bool(v)
    raise Unknown('not a truth value: %r' % (v,))


def ordname(I, v):
    return vname(I, v)


def show(I, t):
    """an example of the texts a term may be"""
    l = I.f.get_lang(t)
    e = l.example()
    return repr(e)


def peel(I, v):
    """the value behind references, not expanded"""
    while True:
        if isinstance(v, Sym):
            if I.p.types[v.ty]['k'] not in ('ref', 'ptr'):
                return v
            v = I.force(v)
        elif isinstance(v, (Ref, Dyn, BoxV)):
            v = I.get(v)
        else:
            return v


# ------------------------------------------------------------------ boundaries
# A rule about one layer takes the layer below as an uninterpreted function, by a hook at its public function. The
# code may enter that layer past the public function: through a function it merely hands its arguments to (hooked
# alike), or elsewhere inside (what such a path shows is then not relied on).

def _unify(pat, t, out):
    if isinstance(pat, tuple) and len(pat) == 2 and pat[0] == '?arg':
        if pat[1] in out and out[pat[1]] != t:
            return False
        out[pat[1]] = t
        return True
    if isinstance(pat, tuple):
        return isinstance(t, tuple) and len(t) == len(pat) and all(_unify(a, b, out) for a, b in zip(pat, t))
    return pat == t


def _term(I, v):
    v = peel(I, v)
    return v.t if isinstance(v, (Sym, Str)) else None


_fwd = {}


def forwards(P, fid):
    """(g, [term of g's k-th argument over f's arguments], is the result of f that of g wrapped) if f hands over to g"""
    k = (id(P), fid)
    if k in _fwd:
        return _fwd[k]
    _fwd[k] = None
    f = P.fns[fid]
    if not f.get('blocks') or not f.get('locals'):
        return None
    own = (f['path'].lstrip('<').split('::')[0], f['local'])
    calls = []

    def local(I, g, args, dty):
        fn = P.fns[g]
        if g == fid or fn['closure'] or not fn.get('blocks') or not (fn['local'] or fn['path'].lstrip('<').startswith(('ronda::', 'libronda::'))):
            return NotImplemented
        I.fcalls = getattr(I, 'fcalls', []) + [(g, [_term(I, a) for a in args])]
        return Sym(('?ret', len(I.fcalls)), dty if dty is not None else fn['locals'][0])

    def run(I):
        r = I.call(fid, [Sym(('?arg', i), f['locals'][i + 1]) for i in range(f['argc'])])
        calls.append(getattr(I, 'fcalls', []))
        v, w = peel(I, r), False
        if isinstance(v, Adt) and len(v.fs) == 1 and I.p.types[v.ty]['k'] == 'adt':
            v, w = peel(I, v.fs[0]), True
        return isinstance(v, Sym) and v.t == ('?ret', 1), w
    try:
        rs = list(explore(P, MODELS, run, {'local': local}, 2, 4))
    except Exception:
        return None
    if len(rs) != 1 or rs[0].kind != 'ret' or not rs[0].exact or not rs[0].val[0] or len(calls[0]) != 1:
        return None
    g, ts = calls[0][0]
    out = {}
    seen = set()

    def holes(t):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == '?arg':
                seen.add(t[1])
            else:
                for x in t:
                    holes(x)
    for t in ts:
        if t is None:
            return None
        holes(t)
    if seen != set(range(f['argc'])) or len(ts) != f['argc']:
        return None
    _fwd[k] = (g, ts, rs[0].val[1])
    return _fwd[k]


def through(P, hooks, roots):
    """the hooks, also at the functions to which the hooked ones hand over"""
    hooks = dict(hooks)
    for fid in roots:
        h = hooks.get(P.fns[fid]['path'])
        for _ in range(4):
            w = forwards(P, fid) if h else None
            if w is None or P.fns[w[0]]['path'] in hooks:
                break
            g, ts, wrap = w
            dt = P.fns[fid]['locals'][0]

            def hook(I, fn, args, dty, h=h, ts=ts, wrap=wrap, dt=dt, ffn=P.fns[fid]):
                vals = [None] * len(ts)
                for t, a in zip(ts, args):
                    if len(t) == 2 and t[0] == '?arg':
                        vals[t[1]] = a
                        continue
                    b = {}
                    x = _term(I, a)
                    if x is None or not _unify(t, x, b) or len(b) != 1:
                        I.taint('a part of an argument')
                        return NotImplemented
                    (i, u), = b.items()
                    ty = ffn['locals'][i + 1]
                    while I.p.types[ty]['k'] == 'ref':
                        ty = I.p.types[ty]['e']
                    vals[i] = ref(Sym(u, ty))
                r = h(I, ffn, vals, dt)
                if r is NotImplemented:
                    return r
                return payload(I, r) if wrap else r
            hooks[P.fns[g]['path']] = hook
            fid, h = g, hook
    return hooks


def elsewhere(c, crate, find):
    """the function found in the library, as another crate sees it: itself, or what it hands over to"""
    try:
        return find(c.anchors(crate))
    except Missing:
        if crate == 'libronda':
            raise
    L0, P = c.prog(), c.prog(crate)
    fid = find(c.anchors())
    tops = {f['path'].split('::')[0] for f in L0.fns if f['local'] and f['path'][0] not in '<&['}

    def path(f):
        return re.sub(r'(?<![\w:])(%s)::' % '|'.join(sorted(tops)), r'ronda::\1::', f['path'])
    for _ in range(4):
        w = forwards(L0, fid)
        if w is None:
            break
        ident = [('?arg', i) for i in range(len(w[1]))] == list(w[1])
        if not ident or w[2]:
            break
        fid = w[0]
        c2 = [f['id'] for f in P.fns if f['path'] == path(L0.fns[fid]) and f.get('blocks')]
        if len(c2) == 1:
            return c2[0]
    raise Undecided('%s is not used by %s' % (L0.fns[fid]['path'], crate))


_calls = {}


def calls(P, i):
    """functions called, named or (closures) made by a body"""
    k = (id(P), i)
    if k not in _calls:
        from .effects import Graph
        out = list(Graph(P, lambda f: False).callees(i))
        for t in P.fns[i].get('locals') or ():
            d = P.types[t]
            while d and d['k'] in ('ref', 'ptr'):
                d = P.types[d['e']]
            if d and d['k'] == 'closure' and isinstance(d.get('inst'), int):
                out.append(d['inst'])
        _calls[k] = out
    return _calls[k]


def inside(P, roots, outer, what):
    """marks for the functions inside a layer (reached from its public functions, not from the layers below)"""
    def reach(fs, stop=()):
        seen, st = set(fs), list(fs)
        while st:
            for j in calls(P, st.pop()):
                if j not in seen and j not in stop:
                    seen.add(j)
                    st.append(j)
        return seen
    low = reach(outer)
    return {('inside', P.fns[i]['path']): 'inside ' + what for i in reach(roots, low) - set(roots) - low
            if P.fns[i].get('blocks') and (P.fns[i]['local'] or P.fns[i]['path'].lstrip('<').startswith(('ronda::', 'libronda::')))}
