"""Abstract interpreter of the exported MIR.

Values are abstract (regular languages, difference bounds, enum partitions); a branch whose
condition the facts of the path do not settle splits the path. The exploration of the splits is by
decision prefixes: a path is a list of decisions, and the alternatives not taken are queued.
"""
import json
from . import lang as L
from .facts import Facts, Infeasible, Z, RANGES, BASELANG, OPS


class Panic(Exception):
    def __init__(self, msg, where):
        Exception.__init__(self, msg)
        self.msg, self.where = msg, where


class Unknown(Exception):
    pass


class Cut(Exception):
    """a loop went round more often than the bound with an undetermined condition"""

    def __init__(self, where, recurrent):
        Exception.__init__(self, where)
        self.where, self.recurrent = where, recurrent


# ------------------------------------------------------------------ values
class V:
    __slots__ = ()

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, ', '.join(repr(getattr(self, s)) for s in self.__slots__))


def vclass(name, *fields):
    src = 'class %s(V):\n    __slots__ = %r\n    def __init__(self, %s):\n' % (name, fields, ', '.join(fields))
    for f in fields:
        src += '        self.%s = %s\n' % (f, f)
    ns = {'V': V}
    exec(src, ns)
    return ns[name]


Lin = vclass('Lin', 'base', 'k')          # integer base + k
Chr = vclass('Chr', 't')                  # one-character text t, as a char
Str = vclass('Str', 't')                  # str or String
Adt = vclass('Adt', 'ty', 'v', 'fs')
Tup = vclass('Tup', 'fs')
Clo = vclass('Clo', 'ty', 'fs')
Fnd = vclass('Fnd', 'ty')
FnPtr = vclass('FnPtr', 'fn')
Sym = vclass('Sym', 't', 'ty')            # unknown value named t
Seq = vclass('Seq', 'segs')               # ('i', value) | ('v', term, elty, lo, hi)
BoxV = vclass('BoxV', 'cell')
Ref = vclass('Ref', 'cell', 'path')
Dyn = vclass('Dyn', 'ref', 'ty', 'vt')    # fat pointer to a trait object
Bytes = vclass('Bytes', 'b')
X = vclass('X', 'kind', 'a')              # library object: kind, tuple of components


class Cell:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Cell(%r)' % (self.v,)


UNINIT = X('uninit', ())
UNIT = Tup(())
WRAP = ('core::mem::maybe_uninit::MaybeUninit', 'core::mem::manually_drop::ManuallyDrop',
        'core::mem::maybe_dangling::MaybeDangling')


def ref(v):
    return Ref(Cell(v), ())


def lit(s):
    return ref(Str(('lit', s)))


# ------------------------------------------------------------------ program
class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.types = d['types']
        self.fns = d['fns']
        self.tables = {int(k): v for k, v in d['tables'].items()}
        self.by_path = {}
        for i, f in enumerate(self.fns):
            self.by_path.setdefault(f['path'], []).append(i)
            f['id'] = i
        self.adt_by_path = {}
        for i, t in enumerate(self.types):
            if t and t['k'] == 'adt':
                self.adt_by_path.setdefault(t['path'], []).append(i)
        self.ref_of = {}
        for i, t in enumerate(self.types):
            if t and t['k'] == 'ref' and not t.get('mut'):
                self.ref_of.setdefault(t['e'], i)

    def ty_named(self, s):
        for i, t in enumerate(self.types):
            if t and t['s'] == s:
                return i
        return None

    def kind(self, ty):
        return self.types[ty]['k']

    def tpath(self, ty):
        t = self.types[ty]
        return t.get('path', t['k']) if t['k'] == 'adt' else t['k']

    def variant(self, ty, name):
        for i, v in enumerate(self.types[ty]['v']):
            if v['name'] == name:
                return i
        raise Unknown('no variant %s of %s' % (name, self.types[ty]['s']))

    def fn(self, path, **kw):
        """the unique function with this path"""
        c = self.by_path.get(path, [])
        for k, v in kw.items():
            c = [i for i in c if self.fns[i].get(k) == v]
        return c[0] if c else None

    def impl(self, tm, selfs):
        """implementation of trait method tm for the type printed as selfs"""
        for i, f in enumerate(self.fns):
            if f['tm'] == tm and f['self'] is not None and self.types[f['self']]['s'] == selfs:
                return i
        return None


class Path:
    """decisions of one path"""

    def __init__(self, prefix):
        self.prefix = prefix
        self.trail = []
        self.why = []

    def choose(self, n, why=None):
        i = len(self.trail)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trail.append((c, n))
        self.why.append(why)
        return c


class Limits:
    paths = 20000
    loops = 4
    steps = 2000000
    deadline = None


INTK = ('int', 'uint')


# integers that count things in memory
SIZES = ('len', 'blen', 'nsplit', 'charlen', 'count', 'blensum', 'mstart', 'mend')
MEASURES = ('blen', 'blensum', 'charlen', 'nsplit', 'count')


def leaves(t):
    """the unknown texts a text term, or a tuple of them, is made of"""
    if not isinstance(t, tuple) or not t or t[0] == 'lit':
        return frozenset()
    if not isinstance(t[0], str):
        return frozenset().union(*map(leaves, t))
    if t[0] == 'cat':
        return leaves(t[1])
    if t[0] in OPS:
        return leaves(t[1])
    return frozenset((t,))


def cancel(a, b):
    """two texts without what they begin and end with alike"""
    x, y = ([(list(p[1]) if p[0] == 'lit' else p) for p in (t[1] if t[0] == 'cat' else (t,))] for t in (a, b))
    for i in (0, -1):
        while x and y:
            p, q = x[i], y[i]
            if isinstance(p, list) and not p:
                x.pop(i)
            elif isinstance(q, list) and not q:
                y.pop(i)
            elif isinstance(p, list) and isinstance(q, list):
                if p[i] != q[i]:
                    break
                p.pop(i)
                q.pop(i)
            elif p == q:
                x.pop(i)
                y.pop(i)
            else:
                break
    return tuple(joined([('lit', ''.join(p)) if isinstance(p, list) else p for p in t]) for t in (x, y))


def joined(ps):
    ps = [p for p in ps if p != ('lit', '')]
    return ps[0] if len(ps) == 1 else ('cat', tuple(ps)) if ps else ('lit', '')


class Interp:
    def __init__(self, prog, path, models, hooks=None, loops=4):
        self.p = prog
        self.path = path
        self.f = Facts()
        self.models = models
        self.hooks = hooks or {}
        self.loops = loops
        self.depth = 0
        self.steps = 0
        self.stack = []
        self.notes = []
        self.statics = {}
        self.used = set()
        self.cuts = []

    # ---------------------------------------------------------- decisions
    def taint(self, why):
        self.f.taint(why)

    def choose(self, n, why=None):
        return self.path.choose(n, why)

    def norm(self, a):
        if isinstance(a, bool):
            return (Z, int(a))
        if isinstance(a, int):
            return (Z, a)
        if isinstance(a, Lin):
            return (a.base, a.k)
        if isinstance(a, Sym):
            return self.norm(self.force(a))
        raise Unknown('not an integer: %r' % (a,))

    def pair(self, a, b):
        """two integers as x + kx and y + ky, a difference of two taken apart where the comparison allows it"""
        x, kx = self.norm(a)
        y, ky = self.norm(b)
        if x[0] == 'diff':
            p, q = x[1], x[2]
            if y == Z:
                return p, kx, q, ky
            if y == p:
                return Z, kx, q, ky
            if y[0] == 'diff' and y[1] == p:
                return y[2], kx, q, ky
            if y[0] == 'diff' and y[2] == q:
                return p, kx, y[1], ky
        elif y[0] == 'diff':
            p, q = y[1], y[2]
            if x == Z:
                return q, kx, p, ky
            if x == p:
                return q, kx, Z, ky
        return x, kx, y, ky

    def opq(self, *bases):
        """a decision about the result of an operation the domains do not follow is not exact"""
        for x in bases:
            if x[0] == 'op':
                self.taint('integer operation %s' % x[1])
            if x[0] == 'diff':
                self.taint('integer operation Sub')
        if len(bases) == 2 and bases[0][0] in MEASURES and bases[1][0] in MEASURES and bases[0] != bases[1] \
                and leaves(bases[0][1]) & leaves(bases[1][1]):
            self.taint('measures of texts that share parts')

    def chars_of(self, a, b):
        """the characters whose codes a and b are, if they are the plain codes of two unknown ones"""
        if isinstance(a, Lin) and isinstance(b, Lin) and a.base[0] == 'ord' and b.base[0] == 'ord':
            if a.k == b.k and a.base[2] == b.base[2] == 'code':
                return a.base[1], b.base[1]
            if a.base != b.base:
                self.taint('bytes of two characters')
        return None

    def le(self, a, b, c=0):
        """decide a <= b + c"""
        cc = self.chars_of(a, b)
        if cc and c in (0, -1):
            return self.str_cmp(*cc) <= c
        x, kx, y, ky = self.pair(a, b)
        r = self.f.le(x, kx, y, ky, c)
        if r is not None:
            return r
        self.opq(x, y)
        if self.choose(2, ('le', x, kx, y, ky, c)) == 0:
            self.f.add_le(x, kx, y, ky, c)
            return True
        self.f.add_le(y, ky, x, kx, -c - 1)
        return False

    def lt(self, a, b):
        return self.le(a, b, -1)

    def eqi(self, a, b):
        cc = self.chars_of(a, b)
        if cc:
            return self.str_eq(*cc)
        x, kx, y, ky = self.pair(a, b)
        if x == Z and y == Z:
            return kx == ky
        p, q = self.f.le(x, kx, y, ky), self.f.le(y, ky, x, kx)
        if p is False or q is False:
            return False
        if p and q:
            return True
        self.opq(x, y)
        if self.choose(2, ('eq', x, kx, y, ky)) == 0:
            self.f.add_le(x, kx, y, ky)
            self.f.add_le(y, ky, x, kx)
            return True
        if p:
            self.f.add_le(x, kx, y, ky, -1)
        elif q:
            self.f.add_le(y, ky, x, kx, -1)
        elif self.choose(2, ('lt', x, kx, y, ky)) == 0:
            self.f.add_le(x, kx, y, ky, -1)
        else:
            self.f.add_le(y, ky, x, kx, -1)
        return False

    def cmpi(self, a, b):
        """-1, 0, 1"""
        cc = self.chars_of(a, b)
        if cc:
            return self.str_cmp(*cc)
        x, kx, y, ky = self.pair(a, b)
        p, q = self.f.le(x, kx, y, ky), self.f.le(y, ky, x, kx)
        if p is False:
            return 1
        if q is False:
            return -1
        if p and q:
            return 0
        self.opq(x, y)
        opts = []
        if p is None or q is None:
            opts = [-1, 0, 1]
            if p:
                opts = [-1, 0]
            if q:
                opts = [0, 1]
        r = opts[self.choose(len(opts), ('cmp', x, kx, y, ky))]
        if r <= 0:
            self.f.add_le(x, kx, y, ky, -1 if r else 0)
        if r >= 0:
            self.f.add_le(y, ky, x, kx, -1 if r else 0)
        return r

    def atom(self, key):
        """decide an opaque boolean"""
        a = self.f.atoms
        if key not in a:
            a[key] = self.choose(2, key) == 0
        return a[key]

    def in_lang(self, t, l):
        """decide whether text t is a member of l"""
        c = self.f.get_lang(t)
        if c <= l:
            return True
        if (c & l).is_empty():
            return False
        if self.choose(2, ('in', t, l)) == 0:
            self.f.assume_lang(t, l)
            return True
        self.f.assume_lang(t, ~l)
        return False

    def word(self, t):
        """the text, if it is determined"""
        if t[0] == 'lit':
            return t[1]
        l = self.f.get_lang(t)
        w = l.finite(2)
        if w is not None and len(w) == 1:
            return w[0]
        return None

    def rank(self, t, sort='s'):
        return ('rk', sort, t)

    def str_eq(self, a, b):
        if a == b:
            return True
        wa, wb = self.word(a), self.word(b)
        if wa is not None and wb is not None:
            return wa == wb
        if wb is not None:
            return self.in_lang(a, L.L_lit(wb))
        if wa is not None:
            return self.in_lang(b, L.L_lit(wa))
        la, lb = self.f.get_lang(a), self.f.get_lang(b)
        if (la & lb).is_empty():
            return False
        if 'cat' in (a[0], b[0]):
            x, y = cancel(a, b)
            if (x, y) != (a, b):
                return self.str_eq(x, y)
            x, y = (list(t[1]) if t[0] == 'cat' else [t] for t in (a, b))
            if sorted(repr(t) for t in x if t[0] != 'lit') == sorted(repr(t) for t in y if t[0] != 'lit') \
                    and sum(len(t[1]) for t in x if t[0] == 'lit') != sum(len(t[1]) for t in y if t[0] == 'lit'):
                return False
        return self.str_cmp(a, b) == 0

    def str_cmp(self, a, b):
        r = self.str_cmp1(a, b)
        if r == 0 and a != b:
            h = self.hooks.get('same-text')
            if h is not None:
                h(self, a, b)
        return r

    def str_cmp1(self, a, b):
        if a == b:
            return 0
        wa, wb = self.word(a), self.word(b)
        if wa is not None and wb is not None:
            x, y = wa.encode(), wb.encode()
            return (x > y) - (x < y)
        for (t, w, s) in ((a, wb, 1), (b, wa, -1)):
            if w is None:
                continue
            if w == '':
                return 0 if self.in_lang(t, L.EPS) else s
            if self.in_lang(t, L.L_lit(w)):
                return 0
            below = L.before(w)
            return -s if self.in_lang(t, below) else s
        for s, t in ((a, b), (b, a)):
            if s[0] == 'trim' and s[1] == t:
                from . import models
                if self.in_lang(t, models.trim_lang(s[2], s[3])):
                    return 0
        if leaves(a) & leaves(b):
            self.taint('comparison of texts that share parts')
        x, y = self.rank(a), self.rank(b)
        la, lb = self.f.get_lang(a), self.f.get_lang(b)
        if (la & lb).is_empty() and self.f.le(x, 0, y, 0) is not False and self.f.le(y, 0, x, 0) is not False:
            if self.le(Lin(x, 0), Lin(y, -1)):
                return -1
            self.f.add_le(y, 0, x, -1)
            return 1
        r = self.cmpi(Lin(x, 0), Lin(y, 0))
        if r == 0:
            m = la & lb
            self.f.assume_lang(a, m)
            self.f.assume_lang(b, m)
        return r

    # ---------------------------------------------------------- symbolic values
    def mk(self, t, ty):
        return Sym(t, ty)

    def int_range(self, ty):
        t = self.p.types[ty]
        if t['k'] == 'int':
            return -(1 << (t['bits'] - 1)), (1 << (t['bits'] - 1)) - 1
        if t['k'] == 'uint':
            return 0, (1 << t['bits']) - 1
        if t['k'] == 'char':
            return 0, 0x10FFFF
        if t['k'] == 'bool':
            return 0, 1
        return None

    def force(self, v):
        if not isinstance(v, Sym):
            return v
        t = self.p.types[v.ty]
        k = t['k']
        if k == 'bool':
            return self.atom(v.t)
        if k in INTK:
            RANGES.setdefault(v.t, self.int_range(v.ty))
            return Lin(v.t, 0)
        if k == 'char':
            BASELANG.setdefault(v.t, L.L_chars(L.ANY))
            return Chr(v.t)
        if k == 'str':
            return Str(v.t)
        if k in ('ref', 'ptr'):
            return ref(Sym(v.t, t['e']))
        if k == 'tuple':
            return Tup(tuple(Sym(('f', v.t, 0, i), a) for i, a in enumerate(t['a'])))
        if k == 'slice':
            return Seq((('v', v.t, t['e'], 0, Lin(('len', v.t), 0)),))
        if k == 'array':
            return Seq(tuple(('i', Sym(('el', v.t, i), t['e'])) for i in range(t['n'])))
        if k == 'adt':
            p = t['path']
            if p == 'alloc::string::String':
                return Str(v.t)
            if p == 'alloc::vec::Vec':
                return Seq((('v', v.t, t['args'][0], 0, Lin(('len', v.t), 0)),))
            if p == 'alloc::boxed::Box':
                return BoxV(Cell(Sym(('box', v.t), t['args'][0])))
            if p == 'core::fmt::Formatter':
                return X('formatter', (('lit', ''), None))
            if p in WRAP:
                return self.force(Sym(v.t, t['args'][0]))
            h = self.hooks.get('force')
            if h:
                r = h(self, v)
                if r is not None:
                    return r
            if t['kind'] == 'enum' and t['v']:
                i = self.f.var.get(v.t)
                if i is None:
                    i = self.choose(len(t['v']), ('variant', v.t, v.ty))
                    self.f.var[v.t] = i
                return Adt(v.ty, i, tuple(Sym(('f', v.t, i, j), f[1]) for j, f in enumerate(t['v'][i]['f'])))
            if t['kind'] == 'struct' and (t.get('local') or p.startswith('core::') or t.get('open')):
                return Adt(v.ty, 0, tuple(Sym(('f', v.t, 0, j), f[1]) for j, f in enumerate(t['v'][0]['f'])))
        return X('opaque', (v.t, v.ty))

    def key(self, v):
        """structural key of a value"""
        if isinstance(v, (int, bool, str)):
            return v
        if isinstance(v, Sym):
            i = self.f.var.get(v.t)
            if i is not None and self.p.kind(v.ty) == 'adt':
                return self.key(self.force(v))
            k = self.p.types[v.ty]
            if k['k'] in INTK or k['k'] == 'bool' or k['k'] == 'str' or k.get('path') == 'alloc::string::String':
                return self.key(self.force(v)) if k['k'] != 'bool' or v.t in self.f.atoms else ('sym', v.t)
            if k.get('path') == 'alloc::vec::Vec':
                return self.key(self.force(v))
            if k['k'] in ('ref', 'ptr'):
                return ('&', self.key(Sym(v.t, k['e'])))
            if k.get('kind') == 'struct' and k.get('local'):
                return self.key(self.force(v))
            return ('sym', v.t)
        if isinstance(v, Lin):
            w = self.f.value(v.base)
            return w + v.k if w is not None else ('lin', v.base, v.k)
        if isinstance(v, Str):
            w = self.word(v.t)
            return ('str', ('lit', w) if w is not None else v.t)
        if isinstance(v, Chr):
            return ('chr', v.t)
        if isinstance(v, Adt):
            return ('adt', v.v, tuple(self.key(x) for x in v.fs))
        if isinstance(v, Tup):
            return ('tup', tuple(self.key(x) for x in v.fs))
        if isinstance(v, Clo):
            return ('clo', v.ty, tuple(self.key(x) for x in v.fs))
        if isinstance(v, Fnd):
            return ('fnd', v.ty)
        if isinstance(v, FnPtr):
            return ('fnptr', v.fn)
        if isinstance(v, Seq):
            out = []
            for s in v.segs:
                if s[0] == 'i':
                    out.append(('i', self.key(s[1])))
                else:
                    lo, hi = self.key(s[3]), self.key(s[4])
                    if isinstance(lo, int) and isinstance(hi, int):
                        out += [('i', self.key(self.elem(s, i))) for i in range(lo, hi)]
                    elif lo != hi:
                        out.append(('v', s[1], lo, hi))
            return ('seq', tuple(out))
        if isinstance(v, Ref):
            return ('&', self.key(self.load(v.cell, v.path)))
        if isinstance(v, Dyn):
            return ('dyn', self.key(v.ref))
        if isinstance(v, BoxV):
            return ('box', self.key(v.cell.v))
        if isinstance(v, Bytes):
            return ('bytes', v.b)
        if isinstance(v, X):
            return ('x', v.kind, tuple(self.key(x) if isinstance(x, V) else x for x in v.a))
        if isinstance(v, tuple):
            return tuple(self.key(x) for x in v)
        if v is None:
            return None
        raise Unknown('key of %r' % (v,))

    # ---------------------------------------------------------- sequences
    def elem(self, seg, i):
        """value of element i (int or Lin) of a view"""
        _, term, elty, lo, hi = seg
        if isinstance(i, Lin):
            w = self.f.value(i.base)
            if w is not None:
                i = w + i.k
        if term[0] == 'split':
            if isinstance(i, int):
                return ref(Str(self.piece(term[1], term[2], i)))
            if i.base == ('nsplit', term[1], term[2]):
                return ref(Str(self.piece(term[1], term[2], -i.k - 1, True)))
            raise Unknown('piece index')
        if term[0] == 'map':
            # ('map', inner view, function id, tag)
            raise Unknown('mapped view')
        return Sym(('el', term, i if isinstance(i, int) else ('lin', i.base, i.k)), elty)

    def piece(self, t, cs, i, back=False):
        n = self.f.value(('nsplit', t, cs))
        if n == 1:
            return t
        if back and n is not None:
            return self.piece(t, cs, n - 1 - i)
        w = self.word(t)
        if w is not None:
            ps, cur = [], ''
            for c in w:
                if L.cs_has(cs, ord(c)):
                    ps.append(cur)
                    cur = ''
                else:
                    cur += c
            ps.append(cur)
            return ('lit', ps[-1 - i] if back else ps[i])
        if t[0] == 'cat':
            ps = self.cat_pieces(t, cs, back)
            if i < len(ps) - 1 or i == len(ps) - 1 and ps[-1] is not None:
                return ps[i]
        return ('piece-' if back else 'piece', t, cs, i)

    def cat_pieces(self, t, cs, back=False):
        """pieces of a concatenation from its start (end), as far as its separators are known; None stands for the rest"""
        from .models import cat
        no = L.L_chars(L.cs_neg(cs)).star()
        out, cur = [], []
        put = (lambda x: cur.insert(0, x)) if back else cur.append
        for x in reversed(t[1]) if back else t[1]:
            if x[0] == 'lit':
                run = ''
                for c in reversed(x[1]) if back else x[1]:
                    if L.cs_has(cs, ord(c)):
                        if run:
                            put(('lit', run))
                        out.append(cat(list(cur)))
                        del cur[:]
                        run = ''
                    else:
                        run = c + run if back else run + c
                if run:
                    put(('lit', run))
            elif self.f.get_lang(x) <= no:
                put(x)
            else:
                return out + [None]
        return out + [cat(list(cur))]

    # a Str in the place of a sequence is the bytes of the text
    def byte_pop(self, s, back):
        from .models2 import byte_values, first_char
        if self.in_lang(s.t, L.EPS):
            return None
        c, rest = first_char(self, s.t, back)
        bs = byte_values(self, c)
        if len(bs) > 1:
            raise Unknown('bytes of a text that is not ASCII')
        return bs[0], Str(rest)

    def byte_slice(self, s, a, b):
        from . import models as M
        n = self.blen(s.t)
        t = s.t
        if b is not None and not M.same(self, b, n):
            t = M.cut_end(self, t, b, n)
        if t is not None and not M.same(self, a, 0):
            t = ('lit', '') if b is not None and M.same(self, a, b) else M.cut_start(self, t, a, s.t)
        if t is None:
            raise Unknown('bytes of a part of a character')
        return Str(t)

    def seq_len(self, s):
        if isinstance(s, Str):
            return self.blen(s.t)
        k, bases = 0, []
        for g in s.segs:
            if g[0] == 'i':
                k += 1
            else:
                (a, ka), (b, kb) = self.norm(g[4]), self.norm(g[3])
                k += ka - kb
                for x, sg in ((a, 1), (b, -1)):
                    if x != Z:
                        w = self.f.value(x)
                        if w is not None:
                            k += sg * w
                        elif sg < 0 and x in bases:
                            bases.remove(x)
                        else:
                            bases.append(x if sg > 0 else ('neg', x))
        if not bases:
            return k
        if len(bases) == 1 and bases[0][0] != 'neg':
            return Lin(bases[0], k)
        raise Unknown('length of a compound sequence')

    def add(self, a, k):
        if isinstance(a, Lin):
            return Lin(a.base, a.k + k)
        return a + k

    def pop_front(self, s):
        """(item, rest) or None"""
        if isinstance(s, Str):
            return self.byte_pop(s, False)
        segs = s.segs
        while segs:
            g = segs[0]
            if g[0] == 'i':
                return g[1], Seq(segs[1:])
            if self.lt(g[3], g[4]):
                return self.elem(g, g[3]), Seq((('v', g[1], g[2], self.add(g[3], 1), g[4]),) + segs[1:])
            segs = segs[1:]
        return None

    def pop_back(self, s):
        if isinstance(s, Str):
            return self.byte_pop(s, True)
        segs = s.segs
        while segs:
            g = segs[-1]
            if g[0] == 'i':
                return g[1], Seq(segs[:-1])
            if self.lt(g[3], g[4]):
                i = self.add(g[4], -1)
                return self.elem(g, i), Seq(segs[:-1] + (('v', g[1], g[2], g[3], i),))
            segs = segs[:-1]
        return None

    def seq_get(self, s, i):
        """element i; the caller has checked the bound"""
        if isinstance(i, Lin):
            w = self.f.value(i.base)
            if w is not None:
                i = w + i.k
        if isinstance(s, Str):
            n = self.blen(s.t)
            back = isinstance(i, Lin) and isinstance(n, Lin) and i.base == n.base and i.k < n.k
            if not isinstance(i, int) and not back:
                raise Unknown('symbolic index')
            for k in range((n.k - i.k if back else i + 1)):
                r = self.byte_pop(s, back)
                if r is None:
                    raise Unknown('index out of range')
                x, s = r
            return x
        segs = s.segs
        if isinstance(i, int):
            while segs:
                g = segs[0]
                if g[0] == 'i':
                    if i == 0:
                        return g[1]
                    i -= 1
                    segs = segs[1:]
                    continue
                n = self.seq_len(Seq((g,)))
                if self.lt(i, n):
                    return self.elem(g, self.add(g[3], i))
                n = self.seq_len(Seq((g,)))
                if not isinstance(n, int):
                    raise Unknown('index beyond a view of unknown length')
                i -= n
                segs = segs[1:]
            raise Unknown('index out of range')
        if len(segs) == 1 and segs[0][0] == 'v' and segs[0][3] == 0:
            return self.elem(segs[0], i)
        raise Unknown('symbolic index')

    def seq_slice(self, s, a, b):
        """s[a..b], bounds checked by the caller"""
        if isinstance(s, Str):
            return self.byte_slice(s, a, b)
        out = s
        if isinstance(a, int):
            for _ in range(a):
                r = self.pop_front(out)
                if r is None:
                    raise Unknown('slice start')
                out = r[1]
        else:
            if len(s.segs) == 1 and s.segs[0][0] == 'v':
                g = s.segs[0]
                if g[3] == 0:
                    out = Seq((('v', g[1], g[2], a, g[4]),))
                else:
                    raise Unknown('slice')
            else:
                raise Unknown('slice')
        if b is not None:
            n = self.seq_len(s)
            x, kx = self.norm(n)
            y, ky = self.norm(b)
            if x == y:
                for _ in range(kx - ky):
                    r = self.pop_back(out)
                    out = r[1]
            elif isinstance(b, int) and isinstance(a, int):
                items = []
                for _ in range(b - a):
                    r = self.pop_front(out)
                    items.append(('i', r[0]))
                    out = r[1]
                out = Seq(tuple(items))
            elif len(s.segs) == 1 and s.segs[0][0] == 'v' and s.segs[0][3] == 0:
                g = out.segs[0]
                out = Seq((('v', g[1], g[2], g[3], b),))
            else:
                raise Unknown('slice end')
        return out

    def seq_set(self, s, i, v):
        if not isinstance(i, int):
            w = self.f.value(i.base) if isinstance(i, Lin) else None
            if w is None:
                raise Unknown('symbolic store')
            i = w + i.k
        items = self.items(s)
        items[i] = v
        return Seq(tuple(('i', x) for x in items))

    def items(self, s, bound=64):
        """all elements, forking on the length of views up to the loop bound"""
        out = []
        n = 0
        while True:
            views = any(g[0] == 'v' for g in s.segs)
            t0 = len(self.path.trail)
            r = self.pop_front(s)
            if r is None:
                return out
            out.append(r[0])
            s = r[1]
            if len(self.path.trail) > t0:
                n += 1
                if n > self.loops:
                    raise Cut('library loop over a sequence', True)

    # ---------------------------------------------------------- memory
    def load(self, cell, path):
        v = cell.v
        for st in path:
            v = self.proj(v, st)
        return v

    def proj(self, v, st):
        k = st[0]
        if k == 'd':
            v = self.force(v)
            if isinstance(v, Adt) and v.v != st[1]:
                raise Unknown('downcast to another variant')
            return v
        v = self.force(v)
        if k == 'f':
            if isinstance(v, (Adt, Tup, Clo)):
                return v.fs[st[1]]
            if isinstance(v, X) and v.kind == 'opaque':
                return Sym(('f', v.a[0], 0, st[1]), st[2])
            if isinstance(v, BoxV):
                return v
            raise Unknown('field of %r' % (v,))
        if k == 'i':
            if isinstance(v, (Seq, Str)):
                return self.seq_get(v, st[1])
            raise Unknown('index of %r' % (v,))
        if k == 'ci':
            n = self.seq_len(v)
            if st[3]:
                return self.seq_get(v, self.add(n, -st[1]))
            return self.seq_get(v, st[1])
        if k == 'ss':
            n = self.seq_len(v)
            return self.seq_slice(v, st[1], self.add(n, -st[2]) if st[3] else st[2])
        if k == 'b':
            if isinstance(v, BoxV):
                return v.cell.v
            raise Unknown('box')
        raise Unknown('projection ' + k)

    def store(self, cell, path, val):
        cell.v = self.put(cell.v, path, val) if path else val

    def put(self, v, path, val):
        if not path:
            return val
        st = path[0]
        k = st[0]
        if k == 'd':
            if isinstance(v, X) and v.kind == 'uninit':
                v = Adt(None, st[1], (UNINIT,) * 16)
            else:
                v = self.force(v)
            return self.put(v, path[1:], val)
        if k == 'f':
            if isinstance(v, X) and v.kind == 'uninit':
                n = st[1] + 1
                fs = [UNINIT] * max(n, 16)
                fs[st[1]] = self.put(UNINIT, path[1:], val)
                return Tup(tuple(fs)) if len(st) < 4 or st[3] is None else Adt(st[3], 0, tuple(fs))
            v = self.force(v)
            if isinstance(v, (Adt, Tup, Clo)):
                fs = list(v.fs)
                fs[st[1]] = self.put(fs[st[1]], path[1:], val)
                fs = tuple(fs)
                if isinstance(v, Adt):
                    return Adt(v.ty, v.v, fs)
                return Tup(fs) if isinstance(v, Tup) else Clo(v.ty, fs)
            raise Unknown('store into a field of %r' % (v,))
        v = self.force(v)
        if k == 'i':
            return self.seq_set(v, st[1], self.put(self.seq_get(v, st[1]), path[1:], val))
        if k == 'ci' and not st[3]:
            return self.seq_set(v, st[1], self.put(self.seq_get(v, st[1]), path[1:], val))
        if k == 'b':
            v.cell.v = self.put(v.cell.v, path[1:], val)
            return v
        raise Unknown('store through ' + k)

    def get(self, r):
        """value behind a reference"""
        if isinstance(r, Sym):
            r = self.force(r)
        if isinstance(r, Dyn):
            r = r.ref
        if isinstance(r, BoxV):
            return r.cell.v
        if not isinstance(r, Ref):
            raise Unknown('not a reference: %r' % (r,))
        return self.load(r.cell, r.path)

    def getf(self, r):
        return self.force(self.get(r))

    def deref_all(self, v):
        """value behind any number of references, expanded"""
        v = self.force(v)
        while isinstance(v, (Ref, Dyn, BoxV)):
            v = self.getf(v)
        return v

    def set(self, r, v):
        self.store(r.cell, r.path, v)

    def text(self, v):
        """string term of a &str / String / &String / Cow value"""
        v = self.deref_all(v)
        if isinstance(v, Adt) and v.fs and self.p.types[v.ty].get('path') == 'alloc::borrow::Cow':
            return self.text(v.fs[0])
        if isinstance(v, Str):
            return v.t
        if isinstance(v, Chr):
            return v.t
        raise Unknown('not a text: %r' % (v,))

    # ---------------------------------------------------------- construction
    def option(self, ty, v=None, some=True):
        if v is None and not some or v is None:
            return Adt(ty, 0, ())
        return Adt(ty, 1, (v,))

    def none(self, ty):
        return Adt(ty, 0, ())

    def some(self, ty, v):
        return Adt(ty, 1, (v,))

    def ok(self, ty, v):
        return Adt(ty, 0, (v,))

    def err(self, ty, v):
        return Adt(ty, 1, (v,))

    def ordering(self, r):
        if not hasattr(self.p, '_ord'):
            c = self.p.adt_by_path.get('core::cmp::Ordering') or [None]
            self.p._ord = c[0]
        return Adt(self.p._ord, r + 1, ())

    # ---------------------------------------------------------- constants
    def const(self, ty, c):
        t = self.p.types[ty]
        k = t['k']
        if 'int' in c:
            if k == 'bool':
                return bool(c['int'])
            if k == 'char':
                return Chr(('lit', chr(c['int'])))
            return c['int']
        if 'str' in c:
            return lit(c['str'])
        if 'bytes' in c:
            b = Seq(tuple(('i', x) for x in c['bytes']))
            return ref(b) if k in ('ref', 'ptr') else b
        if 'ref' in c:
            e = t.get('e')
            v = c['ref']
            if e is None:
                raise Unknown('const ref')
            return ref(self.const(e, v))
        if 'slice' in c or 'array' in c:
            xs = c.get('slice', c.get('array'))
            e = t.get('e')
            if k in ('ref', 'ptr'):
                e = self.p.types[e]['e']
                return ref(Seq(tuple(('i', self.const(e, x)) for x in xs)))
            return Seq(tuple(('i', self.const(e, x)) for x in xs))
        if 'tuple' in c:
            return Tup(tuple(self.const(a, x) for a, x in zip(t['a'], c['tuple'])))
        if 'adt' in c:
            vi = c['adt']
            if t['k'] == 'adt' and t['path'] in WRAP and len(c['f']) >= 1:
                pass
            return Adt(ty, vi, tuple(self.const(f[1], x) for f, x in zip(t['v'][vi]['f'], c['f'])))
        if 'zst' in c:
            if k == 'fndef':
                return Fnd(ty)
            if k == 'closure':
                return Clo(ty, ())
            if k == 'tuple':
                return UNIT
            if k == 'array':
                return Seq(())
            if k == 'adt':
                if t['kind'] == 'enum':
                    return Adt(ty, 0, ())
                return Adt(ty, 0, tuple(self.const(f[1], c) for f in t['v'][0]['f']))
            return UNIT
        if 'fn' in c:
            return FnPtr(c['fn'])
        if 'static' in c:
            s = c['static']
            if s not in self.statics:
                d = (self.p.d.get('statics') or {}).get(s)
                fixed = d and not d['mut'] and not d['tls'] and d['freeze'] and 'opaque' not in d['v']
                self.statics[s] = Cell(self.const(d['ty'], d['v']) if fixed else X('static', (s,)))
            return Ref(self.statics[s], ())
        if 'dangling' in c:
            return c['dangling']
        return X('opaque', (('const', json.dumps(c)), ty))

    # ---------------------------------------------------------- statements
    def run(self, fid, args):
        fn = self.p.fns[fid]
        self.used.add(fid)
        if self.depth > 300:
            raise Unknown('recursion too deep in ' + fn['path'])
        if sum(1 for x in self.stack if x is fn) > 8 + 2 * self.loops:
            raise Cut('recursion of ' + fn['path'], False)
        n = fn['argc']
        cells = [None] * len(fn['locals'])
        for i in range(len(cells)):
            cells[i] = Cell(UNINIT)
        if fn.get('closure') and len(args) == 2 and n > 2 and isinstance(args[1], Tup):
            args = [args[0]] + list(args[1].fs)
        k = fn.get('spread', -1)
        if k > 0 and len(args) > n and not fn.get('closure'):
            args = list(args[:k - 1]) + [Tup(tuple(args[k - 1:]))]
        if len(args) != n:
            if fn.get('closure') and len(args) == 2 and isinstance(args[1], Tup) and len(args[1].fs) == n - 1:
                args = [args[0]] + list(args[1].fs)
            else:
                raise Unknown('argument count of ' + fn['path'])
        for i, a in enumerate(args):
            cells[i + 1].v = a
        self.depth += 1
        self.stack.append(fn)
        try:
            return self.body(fn, cells)
        finally:
            self.depth -= 1
            self.stack.pop()

    def body(self, fn, cells):
        blocks = fn['blocks']
        locs = fn['locals']
        b = 0
        seen = {}
        while True:
            t0 = len(self.path.trail)
            s = seen.get(b)
            if s is None:
                seen[b] = [0, t0, 0, None]
            else:
                s[2] += 1
                if t0 > s[1]:
                    s[0] += 1
                    s[1] = t0
                    s[2] = 0
                    if s[0] > self.loops:
                        raise Cut('%s bb%d' % (fn['path'], b), s[3] == 'r')
                    if s[0] >= 2:
                        s[3] = 'r'
                elif s[2] > 5000:
                    raise Unknown('unbounded loop in ' + fn['path'])
            stmts, term = blocks[b]
            self.steps += len(stmts) + 1
            if self.steps > Limits.steps:
                raise Unknown('step limit')
            for st in stmts:
                k = st[0]
                if k == '=':
                    v = self.rvalue(fn, cells, st[2], st[1])
                    self.assign(fn, cells, st[1], v)
                elif k == 'sd':
                    cell, path, ty = self.place(fn, cells, st[1])
                    v = self.load(cell, path)
                    if isinstance(v, X) and v.kind == 'uninit':
                        v = Adt(ty, st[2], (UNINIT,) * 16)
                    v = self.force(v)
                    self.store(cell, path, Adt(ty, st[2], v.fs))
                elif k == 'cno':
                    raise Unknown('raw copy')
            k = term[0]
            if k == 'goto':
                b = term[1]
            elif k == 'switch':
                b = self.switch(fn, cells, term)
            elif k == 'ret':
                return cells[0].v
            elif k == 'call':
                v = self.callterm(fn, cells, term)
                if term[5] is None:
                    raise Unknown('diverging call returned in ' + fn['path'])
                self.assign(fn, cells, term[4], v)
                b = term[5]
            elif k == 'drop':
                b = term[2]
            elif k == 'assert':
                c = self.force(self.operand(fn, cells, term[1]))
                if bool(c) != bool(term[2]):
                    raise Panic(str(term[3]), (fn['path'], term[5] if len(term) > 5 else 0))
                b = term[4]
            elif k == 'unreachable':
                raise Unknown('unreachable reached in ' + fn['path'])
            elif k in ('resume', 'abort'):
                raise Unknown('unwinding')
            else:
                raise Unknown('terminator ' + k)

    def switch(self, fn, cells, term):
        v = self.force(self.operand(fn, cells, term[1]))
        targets, other, ty = term[2], term[3], term[4]
        if isinstance(v, (bool, int)):
            t = self.p.types[ty]
            n = int(v)
            if n < 0:
                n += 1 << t['bits']
            for x, b in targets:
                if x == n:
                    return b
            return other
        if isinstance(v, Lin):
            t = self.p.types[ty]
            for x, b in targets:
                if t['k'] == 'int' and x >= 1 << (t['bits'] - 1):
                    x -= 1 << t['bits']
                if self.eqi(v, x):
                    return b
            return other
        if isinstance(v, Chr):
            for x, b in targets:
                if self.in_lang(v.t, L.L_lit(chr(x))):
                    return b
            return other
        raise Unknown('switch on %r' % (v,))

    def place(self, fn, cells, p):
        """(cell, path, type)"""
        cell = cells[p[0]]
        ty = fn['locals'][p[0]]
        if len(p) == 1:
            return cell, (), ty
        path = ()
        types = self.p.types
        for st in p[1]:
            k = st[0]
            t = types[ty]
            if k == '*':
                v = self.load(cell, path)
                v = self.force(v)
                if isinstance(v, Dyn):
                    v = v.ref
                if isinstance(v, Ref):
                    cell, path = v.cell, v.path
                elif isinstance(v, BoxV):
                    cell, path = v.cell, ()
                elif isinstance(v, X) and v.kind == 'opaque':
                    cell, path = Cell(Sym(('deref', v.a[0]), t.get('e', t.get('args', [None])[0]))), ()
                else:
                    raise Unknown('deref of %r in %s' % (v, fn['path']))
                ty = t['e'] if 'e' in t else t['args'][0]
            elif k == 'f':
                if t['k'] == 'adt' and t['path'] in WRAP:
                    pass
                elif t['k'] == 'adt' and t['path'] == 'alloc::boxed::Box':
                    pass                              # the raw pointer inside: same object
                else:
                    path = path + (('f', st[1], st[2], ty if t['k'] == 'adt' else None),)
                ty = st[2]
            elif k == 'd':
                path = path + (('d', st[1]),)
            elif k == 'i':
                i = self.force(cells[st[1]].v)
                path = path + (('i', i),)
                ty = t.get('e')
            elif k == 'ci':
                path = path + (('ci', st[1], st[2], st[3]),)
                ty = t.get('e')
            elif k == 'ss':
                path = path + (('ss', st[1], st[2], st[3]),)
            elif k == 'oc':
                ty = st[1]
            else:
                raise Unknown('projection ' + k)
        return cell, path, ty

    def assign(self, fn, cells, p, v):
        if len(p) == 1:
            cells[p[0]].v = v
            return
        cell, path, _ = self.place(fn, cells, p)
        self.store(cell, path, v)

    def operand(self, fn, cells, o):
        if o[0] == 'k':
            return self.const(o[1], o[2])
        p = o[1]
        if len(p) == 1:
            v = cells[p[0]].v
        else:
            cell, path, _ = self.place(fn, cells, p)
            v = self.load(cell, path)
        return v

    def operand_ty(self, fn, cells, o):
        if o[0] == 'k':
            return o[1]
        return self.place(fn, cells, o[1])[2]

    def rvalue(self, fn, cells, r, dest):
        k = r[0]
        if k == 'use':
            return self.operand(fn, cells, r[1])
        if k in ('ref', 'reb', 'addr'):
            pl = r[-1] if isinstance(r[-1], list) else r[2]
            cell, path, ty = self.place(fn, cells, pl)
            if len(pl) > 1 and pl[1] and pl[1][-1][0] == '*':
                # reborrow keeps the metadata of a trait object
                c2, p2, t2 = self.place(fn, cells, [pl[0], pl[1][:-1]] if len(pl[1]) > 1 else [pl[0]])
                w = self.force(self.load(c2, p2))
                if isinstance(w, Dyn):
                    return w
            return Ref(cell, path)
        if k == 'disc':
            cell, path, ty = self.place(fn, cells, r[1])
            v = self.force(self.load(cell, path))
            d = self.disc(v, ty)
            t = self.p.types[fn['locals'][dest[0]]] if len(dest) == 1 or not dest[1] else None
            return self.wrap(d, t) if t and t['k'] in ('int', 'uint') and isinstance(d, int) else d
        if k == 'agg':
            kind = r[1]
            vals = tuple(self.operand(fn, cells, o) for o in r[2])
            kk = kind[0]
            if kk == 'tuple':
                return Tup(vals)
            if kk == 'array':
                return Seq(tuple(('i', v) for v in vals))
            if kk == 'adt':
                t = self.p.types[kind[1]]
                if t['path'] in WRAP:
                    return vals[-1] if vals else UNINIT
                return Adt(kind[1], kind[2], vals)
            if kk == 'closure':
                return Clo(kind[1], vals)
            raise Unknown('aggregate ' + kk)
        if k == 'bin':
            return self.binop(r[1], self.operand(fn, cells, r[2]), self.operand(fn, cells, r[3]),
                              self.operand_ty(fn, cells, r[2]))
        if k == 'chk':
            ty = self.operand_ty(fn, cells, r[2])
            a, b = self.force(self.operand(fn, cells, r[2])), self.force(self.operand(fn, cells, r[3]))
            return self.checked(r[1], a, b, ty)
        if k == 'un':
            v = self.force(self.operand(fn, cells, r[2]))
            if r[1] == 'Not':
                if isinstance(v, bool):
                    return not v
                ty = self.operand_ty(fn, cells, r[2])
                t = self.p.types[ty]
                return ~v if t['k'] == 'int' else (~v) & ((1 << t['bits']) - 1)
            if r[1] == 'Neg':
                if isinstance(v, int):
                    return -v
                return self.arith('Sub', 0, v, self.operand_ty(fn, cells, r[2]))[0]
            if r[1] == 'PtrMetadata':
                w = self.getf(v)
                if isinstance(w, Seq):
                    return self.seq_len(w)
                if isinstance(w, Str):
                    return self.blen(w.t)
                raise Unknown('metadata')
            raise Unknown('unary ' + r[1])
        if k == 'len':
            cell, path, ty = self.place(fn, cells, r[1])
            return self.seq_len(self.force(self.load(cell, path)))
        if k == 'cast':
            return self.cast(fn, cells, r)
        if k == 'rep':
            v = self.operand(fn, cells, r[1])
            if r[2] > 4096:
                raise Unknown('a long array of one value')
            return Seq((('i', v),) * r[2])
        raise Unknown('rvalue ' + k)

    def disc(self, v, ty):
        if isinstance(v, Adt):
            t = self.p.types[v.ty if v.ty is not None else ty]
            if t['k'] == 'adt' and t['kind'] == 'enum':
                d = t['v'][v.v]['disc']
                return d if d is not None else v.v
            return v.v
        if isinstance(v, X) and v.kind == 'opaque':
            t = self.p.types[ty]
            if t['k'] == 'adt' and t['kind'] == 'enum':
                return self.disc(self.force(Sym(v.a[0], ty)), ty)
        if isinstance(v, X) and v.kind == 'uninit':
            # an enum with one inhabited variant takes no storage and is never written
            t = self.p.types[ty]
            if t['k'] == 'adt' and t['kind'] == 'enum':
                live = [i for i, w in enumerate(t['v']) if not any(self.p.types[x]['k'] == 'never' or self.p.types[x]['s'] == 'std::convert::Infallible' for _, x in w['f'])]
                if len(live) == 1:
                    return self.disc(Adt(ty, live[0], ()), ty)
        raise Unknown('discriminant of %r' % (v,))

    def blensum(self, holes, k):
        """k plus the byte lengths of the texts"""
        if not holes:
            return k
        if len(holes) == 1:
            return Lin(('blen', holes[0]), k)
        t = ('blensum', holes)
        if t not in self.f.vset:
            RANGES.setdefault(t, (0, None))
            self.f.touch(t)
            for sub in (holes[:-1], holes[1:], holes[:1], holes[-1:]):
                b = self.blensum(sub, 0)
                rest = holes[len(sub):] if sub == holes[:len(sub)] else holes[:len(holes) - len(sub)]
                m = sum(1 for h in rest if not self.f.get_lang(h).has(''))
                self.f.add_le(b.base, b.k + m, t, 0)
        return Lin(t, k)

    def blen(self, t):
        w = self.word(t)
        if w is not None:
            return len(w.encode())
        if t[0] == 'cat':
            k, syms = 0, []
            for x in t[1]:
                w = self.word(x)
                if w is not None:
                    k += len(w.encode())
                else:
                    syms.append(x)
            return self.blensum(tuple(syms), k)
        if t[0] == 'strip':
            b = self.blen(t[1])
            return self.add(b, -len(t[3].encode()))
        if t[0] in ('dropend', 'dropstart'):
            return self.add(self.blen(t[1]), -t[2])
        if t[0] == 'trim':
            from . import models
            if self.in_lang(t[1], models.trim_lang(t[2], t[3])):
                return self.blen(t[1])
            b, r = self.blen(t[1]), Lin(('blen', t), 0)
            if isinstance(b, Lin):
                self.f.touch(r.base)
                self.f.add_le(r.base, 1, b.base, b.k)
            return r
        return Lin(('blen', t), 0)

    def binop(self, op, a, b, ty):
        a, b = self.force(a), self.force(b)
        num = lambda x: isinstance(x, (int, bool, Lin))
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') and all(isinstance(x, X) and x.kind == 'float' for x in (a, b)):
            a, b = a.a[0], b.a[0]
        if isinstance(a, Chr) or isinstance(b, Chr):
            return self.chr_cmp(op, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and op in ('Eq', 'Ne'):
            return op == 'Eq'
        if not (num(a) and num(b)):
            raise Unknown('%s of %r and %r' % (op, a, b))
        if op == 'Eq':
            return self.eqi(a, b)
        if op == 'Ne':
            return not self.eqi(a, b)
        if op == 'Lt':
            return self.lt(a, b)
        if op == 'Le':
            return self.le(a, b)
        if op == 'Gt':
            return self.lt(b, a)
        if op == 'Ge':
            return self.le(b, a)
        if op == 'Cmp':
            return self.ordering(self.cmpi(a, b))
        t = self.p.types[ty]
        if isinstance(a, Lin) or isinstance(b, Lin):
            r, ov = self.arith(op, a, b, ty)
            return self.wrap_lin(r, ty) if ov else r
        r = self.conc(op, a, b)
        if t['k'] == 'bool':
            return bool(r)
        return self.wrap(r, t)

    def wrap(self, r, t):
        if t['k'] == 'uint':
            return r & ((1 << t['bits']) - 1)
        if t['k'] == 'int':
            m = 1 << t['bits']
            r &= m - 1
            return r - m if r >= m >> 1 else r
        return r

    def conc(self, op, a, b):
        a, b = int(a), int(b)
        if op in ('Add', 'AddUnchecked'):
            return a + b
        if op in ('Sub', 'SubUnchecked'):
            return a - b
        if op in ('Mul', 'MulUnchecked'):
            return a * b
        if op == 'BitAnd':
            return a & b
        if op == 'BitOr':
            return a | b
        if op == 'BitXor':
            return a ^ b
        if op in ('Shl', 'ShlUnchecked'):
            return a << b
        if op in ('Shr', 'ShrUnchecked'):
            return a >> b
        if op == 'Div':
            q = abs(a) // abs(b)
            return q if (a < 0) == (b < 0) else -q
        if op == 'Rem':
            q = abs(a) % abs(b)
            return -q if a < 0 else q
        raise Unknown('operator ' + op)

    def arith(self, op, a, b, ty):
        """linear arithmetic: (value, overflowed)"""
        if op.startswith('Add'):
            if isinstance(a, int):
                a, b = b, a
            if not isinstance(b, int):
                w = self.f.value(b.base)
                if w is None:
                    w2 = self.f.value(a.base)
                    if w2 is None:
                        return self.opaque_op(op, a, b, ty)
                    a, b = b, w2 + a.k
                else:
                    b = w + b.k
            r = Lin(a.base, a.k + b)
        elif op.startswith('Sub'):
            if isinstance(b, Lin):
                if isinstance(a, Lin) and a.base == b.base:
                    r = a.k - b.k
                    lo, hi = self.int_range(ty)
                    return r, not lo <= r <= hi
                w = self.f.value(b.base)
                if w is None:
                    x, kx = self.norm(a)
                    lo, hi = self.int_range(ty)
                    r = Lin(('diff', x, b.base), kx - b.k)
                    if b.base[0] in ('diff', 'op') or x[0] in ('diff', 'op'):
                        return self.opaque_op(op, a, b, ty)
                    return r, not self.le(lo, r) or not self.le(r, hi)
                b = w + b.k
            if isinstance(a, int):
                lo, hi = self.int_range(ty)
                return a - b, not lo <= a - b <= hi
            r = Lin(a.base, a.k - b)
        elif op == 'BitAnd' and b == 1 or op == 'Rem' and b == 2:
            return (0 if self.atom(('even', a.base, a.k % 2)) else 1), False
        else:
            return self.opaque_op(op, a, b, ty)
        lo, hi = self.int_range(ty)
        if r.k < 0 and not self.le(lo, r):
            return r, True
        if r.k > 0 and r.base[0] not in SIZES and not self.le(r, hi):
            return r, True
        return r, False

    def wrap_lin(self, r, ty):
        """the value in range that an overflowed one wraps to"""
        if isinstance(r, int):
            return self.wrap(r, self.p.types[ty])
        lo, hi = self.int_range(ty)
        m = hi - lo + 1
        return Lin(r.base, r.k - m) if self.le(hi + 1, r) else Lin(r.base, r.k + m)

    def span(self, a):
        x, k = self.norm(a)
        lo, hi = self.f.limits(x)
        if hi is None and x[0] in SIZES:
            hi = 1 << 48
        if x == Z:
            lo = hi = 0
        return None if lo is None else lo + k, None if hi is None else hi + k

    def opaque_op(self, op, a, b, ty):
        """result of an operation the domains do not follow, and whether it overflows"""
        r = self.opaque_int(op, a, b, ty)
        o = op[:3]
        if o not in ('Add', 'Sub', 'Mul'):
            return r, False
        (p, q), (u, v) = self.span(a), self.span(b)
        lo, hi = self.int_range(ty)
        if None not in (p, q, u, v):
            ends = [p + u, q + v] if o == 'Add' else [p - v, q - u] if o == 'Sub' else [p * u, p * v, q * u, q * v]
            if lo <= min(ends) and max(ends) <= hi:
                return r, False
        self.taint('overflow of %s' % op)
        return r, self.atom(('overflow', op, self.key(a), self.key(b)))

    def opaque_int(self, op, a, b, ty):
        t = ('op', op, self.key(a), self.key(b))
        RANGES.setdefault(t, self.int_range(ty))
        return Lin(t, 0)

    def checked(self, op, a, b, ty):
        if isinstance(a, Lin) or isinstance(b, Lin):
            r, ov = self.arith(op, a, b, ty)
            return Tup((self.wrap_lin(r, ty) if ov else r, ov))
        r = self.conc(op, a, b)
        w = self.wrap(r, self.p.types[ty])
        return Tup((w, w != r))

    def chr_cmp(self, op, a, b):
        def term(x):
            if isinstance(x, Chr):
                return x.t
            raise Unknown('char comparison')
        ta, tb = term(a), term(b)
        if op in ('Eq', 'Ne'):
            r = self.str_eq(ta, tb)
            return r if op == 'Eq' else not r
        wa, wb = self.word(ta), self.word(tb)
        if wa is not None and wb is not None:
            x, y = ord(wa), ord(wb)
            return {'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op]
        if wb is not None:
            y = ord(wb)
            cs = {'Lt': (0, y - 1), 'Le': (0, y), 'Gt': (y + 1, L.MAXC), 'Ge': (y, L.MAXC)}[op]
            return self.in_lang(ta, L.L_chars((cs,)))
        if wa is not None:
            return self.chr_cmp({'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}[op], b, a)
        raise Unknown('char comparison')

    def cast(self, fn, cells, r):
        kind, o, to, frm = r[1], r[2], r[3], r[4]
        v = self.force(self.operand(fn, cells, o))
        if kind.startswith('ReifyFnPointer') or kind.startswith('ClosureFnPointer'):
            return FnPtr(r[5]['fn'])
        if kind == 'Unsize':
            if len(r) > 5 and 'vt' in r[5]:
                if isinstance(v, BoxV):
                    return Dyn(Ref(v.cell, ()), r[5]['for'], tuple(r[5]['vt']))
                return Dyn(v, r[5]['for'], tuple(r[5]['vt']))
            return v
        if kind == 'IntToInt':
            tt = self.p.types[to]
            if isinstance(v, Chr):
                w = self.word(v.t)
                if tt['k'] in INTK and w is not None:
                    return self.wrap(ord(w), tt)
                v = Lin(('ord', v.t, 'code'), 0)
            if tt['k'] == 'char' and isinstance(v, Lin):
                return self.char_of(v)
            if isinstance(v, (int, bool)):
                if tt['k'] == 'char':
                    return Chr(('lit', chr(int(v))))
                return self.wrap(int(v), tt)
            lo, hi = self.int_range(to)
            if self.le(lo, v) and self.le(v, hi):
                return v
            # reduced modulo the size of the type: by one turn at most, or to an unknown remainder
            m = hi - lo + 1
            for k in (m, -m):
                w = Lin(v.base, v.k + k)
                if self.le(lo, w) and self.le(w, hi):
                    return w
            return self.opaque_int('cast', v, 0, to)
        if kind == 'IntToFloat':
            # exact up to the size of the mantissa; beyond it the least number that is rounded stands for itself
            if isinstance(v, bool):
                raise Unknown('cast ' + kind)
            n = 1 << (24 if self.p.types[to]['s'] == 'f32' else 53)
            if isinstance(v, int) and abs(v) <= n or isinstance(v, Lin) and self.le(-n, v) and self.le(v, n):
                return X('float', (v,))
            for w, x in ((n + 1, n), (-n - 1, -n)):
                if self.eqi(v, w):
                    return X('float', (x,))
            raise Unknown('rounding of an arbitrary number')
        if kind == 'FloatToFloat' and isinstance(v, X) and v.kind == 'float' and self.p.types[to]['s'] == 'f64':
            return v
        if kind in ('PtrToPtr', 'Transmute', 'BoxDerefTransmute', 'MutToConstPointer', 'ArrayToPointer',
                    'PointerExposeAddress', 'PointerWithExposedProvenance'):
            tt = self.p.types[to]
            if tt['k'] in ('ptr', 'ref') and isinstance(v, (Ref, Dyn, BoxV)):
                return v
            if isinstance(v, BoxV):
                return Ref(v.cell, ())
            if kind == 'Transmute' and tt['k'] == 'adt' and tt['path'] in WRAP:
                return v
            if isinstance(v, (Ref, Dyn)):
                return X('opaque', (('addr', id(v.cell) if isinstance(v, Ref) else 0), to))
            return X('opaque', (('cast', self.key(v)), to))
        raise Unknown('cast ' + kind)

    def char_of(self, v):
        if v.base[0] == 'ord' and v.k == 0 and v.base[2] == 'code':
            return Chr(v.base[1])
        n = self.f.value(v.base)
        if n is not None:
            return Chr(('lit', chr(n + v.k)))
        if v.base[0] == 'ord' and v.k == 32 and self.in_lang(v.base[1], L.L_chars(((65, 90),))):
            return Chr(('lower', v.base[1]))
        if v.base[0] == 'ord' and v.k == -32 and self.in_lang(v.base[1], L.L_chars(((97, 122),))):
            return Chr(('upper', v.base[1]))
        raise Unknown('integer to char')

    # ---------------------------------------------------------- calls
    def callterm(self, fn, cells, term):
        args = [self.operand(fn, cells, a) for a in term[3]]
        dty = self.place(fn, cells, term[4])[2]
        self.site = (fn, term[6])
        if term[1] is None:
            f = self.force(self.operand(fn, cells, term[2]))
            return self.callv(f, args, dty)
        tg = self.p.fns[term[1]]
        if tg.get('closure') and len(args) == 2 and tg.get('argc') == 2 and tg.get('blocks'):
            # arguments of closure calls travel as a tuple
            a = args[1]
            if isinstance(a, Tup) and len(a.fs) == 1:
                args = [args[0], a.fs[0]]
        return self.call(term[1], args, dty)

    compiled = []               # expressions compiled on the path, and whether each is well formed
    calm = False                # the order in which elements come does not matter to who asks for them

    def callv(self, f, args, dty=None):
        """call a function value with separate arguments"""
        if self.calm:
            self.calm = False
            try:
                return self.callv(f, args, dty)
            finally:
                self.calm = True
        f = self.force(f)
        if isinstance(f, FnPtr):
            return self.call(f.fn, args, dty)
        if isinstance(f, Fnd):
            i = self.p.types[f.ty].get('inst')
            if i is None:
                raise Unknown('unresolved function item')
            return self.call(i, args, dty)
        if isinstance(f, Clo):
            i = self.p.types[f.ty].get('inst')
            if i is None:
                raise Unknown('unresolved closure')
            fn = self.p.fns[i]
            selfty = self.p.types[fn['locals'][1]] if fn.get('locals') and fn['argc'] >= 1 else None
            me = f
            if selfty is not None and selfty['k'] == 'ref':
                me = ref(f)
            return self.call(i, [me] + list(args), dty)
        if isinstance(f, Ref):
            w = self.getf(f)
            if isinstance(w, Clo):
                i = self.p.types[w.ty].get('inst')
                return self.call(i, [f] + list(args), dty)
            return self.callv(w, args, dty)
        if isinstance(f, Dyn):
            w = self.getf(f.ref)
            return self.callv(f.ref if isinstance(w, Clo) else w, args, dty)
        if isinstance(f, X) and f.kind == 'pyfn':
            return f.a[0](self, args, dty)
        raise Unknown('call of %r' % (f,))

    def call(self, fid, args, dty=None):
        fn = self.p.fns[fid]
        h = self.hooks.get(fn['path'])
        if h is not None:
            r = h(self, fn, args, dty)
            if r is not NotImplemented:
                self.used.add(fid)
                return r
        elif fn.get('local') or fn.get('blocks'):
            w = self.hooks.get(('inside', fn['path']))
            if w is not None:
                self.taint(w)
            lh = self.hooks.get('local')
            if lh is not None:
                r = lh(self, fid, args, dty)
                if r is not NotImplemented:
                    return r
        m = self.models.lookup(self.p, fn)
        if m is not None:
            if dty is None and fn.get('locals'):
                dty = fn['locals'][0]
            if dty is None:
                dty = fn.get('ret')
            self.used.add(fid)
            r = m(self, fn, args, dty)
            if r is not NotImplemented:
                return r
        if fn.get('blocks'):
            return self.run(fid, args)
        if fn.get('ctor', -1) >= 0:
            ty = dty if dty is not None else fn.get('ret')
            if ty is not None:
                return Adt(ty, fn['ctor'], tuple(args))
        raise Unknown('no model of ' + fn['path'] + ((' for ' + self.p.types[fn['self']]['s']) if fn['self'] is not None else ''))

    def method(self, ty, name):
        t = self.p.tables.get(ty)
        return None if t is None else t.get(name)

    def where(self):
        for fn in reversed(self.stack):
            if fn.get('local'):
                return fn['path']
        return self.stack[-1]['path'] if self.stack else '?'


# ------------------------------------------------------------------ exploration
class Result:
    __slots__ = ('kind', 'val', 'exact', 'interp', 'trail', 'why')

    def __init__(self, kind, val, interp):
        self.kind, self.val, self.interp = kind, val, interp
        self.exact = not interp.f.inexact
        self.trail = [c for c, _ in interp.path.trail]


def explore(prog, models, run, hooks=None, loops=4, limit=20000, prefix=(), deadline=None):
    """run(interp) on every path; yields Result(kind in ret/panic/cut/unknown)"""
    import time
    stack = [list(prefix)]
    n = 0
    while stack:
        pre = stack.pop()
        p = Path(pre)
        it = Interp(prog, p, models, hooks, loops)
        try:
            r = Result('ret', run(it), it)
        except Infeasible:
            r = None
        except Panic as e:
            r = Result('panic', e, it)
        except Cut as e:
            r = Result('cut', e, it)
        except Unknown as e:
            r = Result('unknown', str(e), it)
        except L.Unsupported as e:
            r = Result('unknown', 'regex: %s' % e, it)
        base = [c for c, _ in p.trail]
        for i in range(len(p.trail) - 1, len(pre) - 1, -1):
            c, k = p.trail[i]
            for alt in range(k - 1, c, -1):
                stack.append(base[:i] + [alt])
        if r is not None:
            n += 1
            yield r
        if n >= limit or (deadline and time.time() > deadline):
            if stack:
                it.notes.append('limit')
                yield Result('unknown', 'path limit reached', it)
            return
