"""Regular languages over Unicode, as minimal DFAs, and the regex syntax of the `regex` crate.

This is the string domain of the analyser: the set of texts a string may be on a path is a regular
language, predicates on strings split it, string operations map it.
"""
import unicodedata
from functools import lru_cache

MAXC = 0x10FFFF
SUR = (0xD800, 0xDFFF)


# ---------------------------------------------------------------- character sets
def cs_norm(rs):
    rs = sorted((a, b) for a, b in rs if a <= b)
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return tuple(out)


def cs_neg(rs):
    out, p = [], 0
    for a, b in cs_norm(list(rs) + [SUR]):
        if p <= a - 1:
            out.append((p, a - 1))
        p = b + 1
    if p <= MAXC:
        out.append((p, MAXC))
    return tuple(out)


def cs_and(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        x, y = a[i]
        u, v = b[j]
        lo = x if x > u else u
        hi = y if y < v else v
        if lo <= hi:
            out.append((lo, hi))
        if y < v:
            i += 1
        else:
            j += 1
    return tuple(out)


def cs_or(a, b):
    return cs_norm(list(a) + list(b))


def cs_of(s):
    return cs_norm([(ord(c), ord(c)) for c in s])


def cs_has(cs, c):
    return any(a <= c <= b for a, b in cs)


ANY = cs_neg(())


@lru_cache(None)
def _cat(pred):
    out, start = [], None
    f = {'d': lambda c: unicodedata.category(c) == 'Nd',
         's': lambda c: c in '\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006'
                             '\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000',
         'w': lambda c: c.isalnum() or c == '_' or unicodedata.category(c) in ('Mn', 'Mc', 'Me', 'Pc'),
         'alpha': lambda c: c.isalpha(),
         'num': lambda c: c.isnumeric(),
         'alnum': lambda c: c.isalnum(),
         'upper': lambda c: c.isupper(),
         'lower': lambda c: c.islower(),
         'ctl': lambda c: unicodedata.category(c) == 'Cc'}[pred]
    for i in range(0, 0x110000):
        if SUR[0] <= i <= SUR[1]:
            ok = False
        else:
            ok = f(chr(i))
        if ok and start is None:
            start = i
        elif not ok and start is not None:
            out.append((start, i - 1))
            start = None
    if start is not None:
        out.append((start, MAXC))
    return tuple(out)


SPACE = tuple((ord(c), ord(c)) for c in
              '\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006'
              '\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000')
SPACE = cs_norm(SPACE)
ADIGIT = ((0x30, 0x39),)


def cs_class(name):
    if name == 's':
        return SPACE
    return _cat(name)


@lru_cache(None)
def _fold_table():
    t = {}
    groups = {}
    for i in range(0x110000):
        if SUR[0] <= i <= SUR[1]:
            continue
        c = chr(i)
        f = c.casefold()
        if len(f) == 1 and (f != c or c.lower() != c or c.upper() != c):
            groups.setdefault(f, set()).add(i)
            groups[f].add(ord(f))
    for g in groups.values():
        for i in g:
            t[i] = g
    return t


def cs_fold(cs):
    """simple case folding closure of a character set"""
    t = _fold_table()
    out = list(cs)
    for a, b in cs:
        if b - a > 0x2000:
            continue
        for i in range(a, b + 1):
            for j in t.get(i, ()):
                out.append((j, j))
    return cs_norm(out)


# ---------------------------------------------------------------- automata
class NFA:
    def __init__(self):
        self.n = 0
        self.eps = []
        self.edges = []

    def new(self):
        self.eps.append([])
        self.edges.append([])
        self.n += 1
        return self.n - 1

    def embed(self, lang):
        """copy a DFA; returns (start, [accepting states])"""
        m = [self.new() for _ in lang.delta]
        cl = lang.class_sets()
        for i, row in enumerate(lang.delta):
            for c, t in enumerate(row):
                if t >= 0:
                    self.edges[m[i]].append((cl[c], m[t]))
        if not m:
            return self.new(), []
        return m[0], [m[i] for i in lang.acc]

    def dfa(self, start, acc):
        starts = start if isinstance(start, (list, set, tuple)) else [start]
        acc = set(acc)
        for x, es in enumerate(self.edges):
            if len(es) > 1:
                by = {}
                for cs, t in es:
                    by.setdefault(t, []).append(cs)
                self.edges[x] = [(c[0] if len(c) == 1 else cs_norm([r for q in c for r in q]), t)
                                 for t, c in by.items()]
        # atomic intervals
        pts = {0}
        for es in self.edges:
            for cs, _ in es:
                for a, b in cs:
                    pts.add(a)
                    pts.add(b + 1)
        pts.discard(MAXC + 1)
        bps = sorted(pts)
        k = len(bps)
        import bisect
        sig = [set() for _ in range(k)]
        eid = 0
        per = []
        for es in self.edges:
            l = []
            for cs, t in es:
                for a, b in cs:
                    i = bisect.bisect_left(bps, a)
                    while i < k and bps[i] <= b:
                        sig[i].add(eid)
                        i += 1
                l.append((eid, t))
                eid += 1
            per.append(l)
        classes, cls = {}, []
        rep = []
        for i in range(k):
            f = frozenset(sig[i])
            if f not in classes:
                classes[f] = len(classes)
                rep.append(f)
            cls.append(classes[f])
        nc = len(rep)
        of_edge = [[] for _ in range(eid)]
        for c, f in enumerate(rep):
            for e in f:
                of_edge[e].append(c)

        def close(s):
            s = set(s)
            st = list(s)
            while st:
                x = st.pop()
                for y in self.eps[x]:
                    if y not in s:
                        s.add(y)
                        st.append(y)
            return frozenset(s)
        s0 = close(starts)
        ids = {s0: 0}
        rows = []
        todo = [s0]
        accs = set()
        i = 0
        while i < len(todo):
            s = todo[i]
            if s & acc:
                accs.add(i)
            tg = [set() for _ in range(nc)]
            for x in s:
                for e, t in per[x]:
                    for c in of_edge[e]:
                        tg[c].add(t)
            row = []
            for c in range(nc):
                if not tg[c]:
                    row.append(-1)
                    continue
                q = close(tg[c])
                if q not in ids:
                    ids[q] = len(todo)
                    todo.append(q)
                row.append(ids[q])
            rows.append(row)
            i += 1
        return Lang.make(bps, cls, rows, accs)


_intern = {}


class Lang:
    """minimal partial DFA; start state 0; no state = empty language"""
    __slots__ = ('bps', 'cls', 'delta', 'acc', 'key', '_cs', '_h')

    @staticmethod
    def make(bps, cls, rows, acc):
        n = len(rows)
        nc = len(rows[0]) if rows else 0
        # co-reachable
        rev = [[] for _ in range(n)]
        for i, r in enumerate(rows):
            for t in r:
                if t >= 0:
                    rev[t].append(i)
        live = set(acc)
        st = list(acc)
        while st:
            x = st.pop()
            for y in rev[x]:
                if y not in live:
                    live.add(y)
                    st.append(y)
        if 0 not in live:
            key = ('empty',)
            l = _intern.get(key)
            if l is None:
                l = Lang()
                l.bps, l.cls, l.delta, l.acc, l.key, l._cs = (0,), (0,), (), frozenset(), key, None
                _intern[key] = l
            return l
        rows = [[t if t in live else -1 for t in r] for r in rows]
        part = {i: (1 if i in acc else 0) for i in live}
        while True:
            sigs, new = {}, {}
            for i in live:
                s = (part[i], tuple(part[t] if t >= 0 else -1 for t in rows[i]))
                if s not in sigs:
                    sigs[s] = len(sigs)
                new[i] = sigs[s]
            if len(sigs) == len(set(part.values())):
                part = new
                break
            part = new
        # columns: merge equal classes, intervals: merge neighbours; canonical numbering by BFS
        repst = {}
        for i in sorted(live):
            repst.setdefault(part[i], i)
        cols = {}
        for c in range(nc):
            cols[c] = tuple(part[rows[repst[p]][c]] if rows[repst[p]][c] >= 0 else -1 for p in sorted(repst))
        ivs = []
        for b, c in zip(bps, cls):
            if ivs and ivs[-1][1] == cols[c]:
                continue
            ivs.append((b, cols[c]))
        seen = {}
        ncls = []
        for b, col in ivs:
            if col not in seen:
                seen[col] = len(seen)
            ncls.append(seen[col])
        nbps = tuple(b for b, _ in ivs)
        colsl = [None] * len(seen)
        for col, i in seen.items():
            colsl[i] = col
        ps = sorted(repst)
        pidx = {p: i for i, p in enumerate(ps)}
        order = {part[0]: 0}
        q = [part[0]]
        i = 0
        nrows = []
        while i < len(q):
            p = q[i]
            row = []
            for c in range(len(colsl)):
                t = colsl[c][pidx[p]]
                if t >= 0 and t not in order:
                    order[t] = len(q)
                    q.append(t)
                row.append(order[t] if t >= 0 else -1)
            nrows.append(tuple(row))
            i += 1
        nacc = frozenset(order[part[a]] for a in acc if a in live and part[a] in order)
        key = (nbps, tuple(ncls), tuple(nrows), nacc)
        l = _intern.get(key)
        if l is None:
            l = Lang()
            l.bps, l.cls, l.delta, l.acc, l.key, l._cs = nbps, tuple(ncls), tuple(nrows), nacc, key, None
            _intern[key] = l
        return l

    def class_sets(self):
        if self._cs is None:
            n = max(self.cls) + 1
            out = [[] for _ in range(n)]
            for i, c in enumerate(self.cls):
                hi = self.bps[i + 1] - 1 if i + 1 < len(self.bps) else MAXC
                out[c].append((self.bps[i], hi))
            self._cs = [cs_norm(x) for x in out]
        return self._cs

    def is_empty(self):
        return not self.delta

    def step(self, q, ch):
        import bisect
        i = bisect.bisect_right(self.bps, ch) - 1
        return self.delta[q][self.cls[i]]

    def has(self, s):
        if not self.delta:
            return False
        q = 0
        for c in s:
            q = self.step(q, ord(c))
            if q < 0:
                return False
        return q in self.acc

    def _prod(self, o, accf, total):
        if total or True:
            pts = sorted(set(self.bps) | set(o.bps))
        import bisect
        pairs, cls = {}, []
        for p in pts:
            a = self.cls[bisect.bisect_right(self.bps, p) - 1]
            b = o.cls[bisect.bisect_right(o.bps, p) - 1]
            if (a, b) not in pairs:
                pairs[(a, b)] = len(pairs)
            cls.append(pairs[(a, b)])
        pl = sorted(pairs, key=pairs.get)
        s0 = (0 if self.delta else -1, 0 if o.delta else -1)
        ids = {s0: 0}
        q = [s0]
        rows, acc = [], set()
        i = 0
        while i < len(q):
            x, y = q[i]
            if accf(x in self.acc, y in o.acc):
                acc.add(i)
            row = []
            for a, b in pl:
                t = (self.delta[x][a] if x >= 0 else -1, o.delta[y][b] if y >= 0 else -1)
                if t not in ids:
                    ids[t] = len(q)
                    q.append(t)
                row.append(ids[t])
            rows.append(row)
            i += 1
        return Lang.make(pts, cls, rows, acc)

    def __and__(self, o):
        return _op('and', self, o)

    def __or__(self, o):
        return _op('or', self, o)

    def __sub__(self, o):
        return _op('sub', self, o)

    def __add__(self, o):
        return _op('cat', self, o)

    def __invert__(self):
        return ALL - self

    def __le__(self, o):
        return (self - o).is_empty()

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def star(self):
        return _star(self)

    def example(self):
        """a shortest member, printable if possible"""
        if not self.delta:
            return None
        cl = self.class_sets()

        def pick(cs):
            for pref in ((0x61, 0x7a), (0x30, 0x39), (0x21, 0x7e), (0x20, 0x20)):
                for a, b in cs:
                    lo, hi = max(a, pref[0]), min(b, pref[1])
                    if lo <= hi:
                        return chr(lo)
            return chr(cs[0][0])
        seen = {0: ''}
        q = [0]
        i = 0
        while i < len(q):
            s = q[i]
            if s in self.acc:
                return seen[s]
            for c, t in enumerate(self.delta[s]):
                if t >= 0 and t not in seen:
                    seen[t] = seen[s] + pick(cl[c])
                    q.append(t)
            i += 1
        return None

    def finite(self, limit=64):
        """the words, in length order, if there are at most `limit`; else None"""
        out = []
        cl = self.class_sets()
        if not self.delta:
            return []
        # cyclic?
        color = {}

        def cyc(s):
            color[s] = 1
            for t in self.delta[s]:
                if t >= 0:
                    if color.get(t) == 1:
                        return True
                    if t not in color and cyc(t):
                        return True
            color[s] = 2
            return False
        if cyc(0):
            return None
        q = [(0, '')]
        i = 0
        while i < len(q):
            s, w = q[i]
            if s in self.acc:
                out.append(w)
            for c, t in enumerate(self.delta[s]):
                if t < 0:
                    continue
                for a, b in cl[c]:
                    if b - a > limit:
                        return None
                    for ch in range(a, b + 1):
                        q.append((t, w + chr(ch)))
            if len(q) > 8 * limit:
                return None
            i += 1
        return out if len(out) <= limit else None

    def alphabet(self):
        """characters that occur in some member"""
        out = []
        cl = self.class_sets()
        for r in self.delta:
            for c, t in enumerate(r):
                if t >= 0:
                    out += list(cl[c])
        return cs_norm(out)

    def __repr__(self):
        e = self.example()
        return 'Lang(%d states, e.g. %r)' % (len(self.delta), e)


@lru_cache(None)
def _op(o, a, b):
    if o == 'and':
        return a._prod(b, lambda x, y: x and y, False)
    if o == 'or':
        return a._prod(b, lambda x, y: x or y, True)
    if o == 'sub':
        return a._prod(b, lambda x, y: x and not y, True)
    n = NFA()
    s1, a1 = n.embed(a)
    s2, a2 = n.embed(b)
    for x in a1:
        n.eps[x].append(s2)
    return n.dfa(s1, a2)


@lru_cache(None)
def _star(a):
    n = NFA()
    s1, a1 = n.embed(a)
    s0 = n.new()
    n.eps[s0].append(s1)
    for x in a1:
        n.eps[x].append(s0)
    return n.dfa(s0, [s0])


@lru_cache(None)
def L_chars(cs):
    n = NFA()
    a, b = n.new(), n.new()
    n.edges[a].append((cs, b))
    return n.dfa(a, [b])


@lru_cache(None)
def L_lit(s):
    n = NFA()
    a = n.new()
    cur = a
    for c in s:
        b = n.new()
        n.edges[cur].append((((ord(c), ord(c)),), b))
        cur = b
    return n.dfa(a, [cur])


def L_lits(ss):
    r = EMPTY
    for s in ss:
        r = r | L_lit(s)
    return r


EMPTY = Lang.make([0], [0], [[-1]], set())
EPS = L_lit('')
ALL = _star(L_chars(ANY))
NONEMPTY = ALL - EPS


@lru_cache(None)
def L_power(l, n):
    r = EPS
    for _ in range(n):
        r = r + l
    return r


@lru_cache(None)
def L_utf8(nbytes):
    """texts of exactly nbytes bytes"""
    if nbytes == 0:
        return EPS
    if nbytes < 0:
        return EMPTY
    r = EMPTY
    for k, cs in ((1, ((0, 0x7f),)), (2, ((0x80, 0x7ff),)),
                  (3, cs_and(ANY, ((0x800, 0xffff),))), (4, ((0x10000, MAXC),))):
        if nbytes >= k:
            r = r | (L_chars(cs) + L_utf8(nbytes - k))
    return r


@lru_cache(None)
def L_utf8_atleast(n):
    r = ALL
    for i in range(n):
        r = r - L_utf8(i)
    return r


# ---- quotients and images
@lru_cache(None)
def rquot(l, m):
    """{u : exists w in m, uw in l}"""
    if l.is_empty() or m.is_empty():
        return EMPTY
    # states of l from which some word of m is accepted
    good = set()
    for q in range(len(l.delta)):
        sub = Lang.make(l.bps, l.cls, _reroot(l, q)[0], _reroot(l, q)[1])
        if not (sub & m).is_empty():
            good.add(q)
    return Lang.make(l.bps, l.cls, [list(r) for r in l.delta], good)


def _reroot(l, q):
    order = [q] + [i for i in range(len(l.delta)) if i != q]
    pos = {s: i for i, s in enumerate(order)}
    rows = [[pos[t] if t >= 0 else -1 for t in l.delta[s]] for s in order]
    return rows, {pos[a] for a in l.acc}


@lru_cache(None)
def lquot(m, l):
    """{w : exists u in m, uw in l}"""
    if l.is_empty() or m.is_empty():
        return EMPTY
    # states reachable in l by words of m
    import bisect
    pts = sorted(set(l.bps) | set(m.bps))
    pl = set()
    for p in pts:
        pl.add((l.cls[bisect.bisect_right(l.bps, p) - 1], m.cls[bisect.bisect_right(m.bps, p) - 1]))
    seen = {(0, 0)}
    st = [(0, 0)]
    good = set()
    while st:
        x, y = st.pop()
        if y in m.acc:
            good.add(x)
        for a, b in pl:
            t = (l.delta[x][a], m.delta[y][b])
            if t[0] >= 0 and t[1] >= 0 and t not in seen:
                seen.add(t)
                st.append(t)
    n = NFA()
    m2 = [n.new() for _ in l.delta]
    cl = l.class_sets()
    for i, row in enumerate(l.delta):
        for c, t in enumerate(row):
            if t >= 0:
                n.edges[m2[i]].append((cl[c], m2[t]))
    if not good:
        return EMPTY
    return n.dfa([m2[g] for g in good], [m2[a] for a in l.acc])


@lru_cache(None)
def factors(l, pre, post):
    """{w : exists u in pre, v in post, uwv in l}"""
    return rquot(lquot(pre, l), post)


@lru_cache(None)
def hom(l, mapping):
    """image under a per-character substitution: mapping = ((char, text), ...), other chars unchanged"""
    import bisect
    n = NFA()
    m = [n.new() for _ in l.delta]
    cl = l.class_sets()
    md = dict(mapping)
    rest = cs_neg(cs_of(''.join(md)))
    by_class = {}
    for ch, tx in md.items():
        by_class.setdefault(l.cls[bisect.bisect_right(l.bps, ord(ch)) - 1], []).append((ch, tx))
    for i, row in enumerate(l.delta):
        for c, t in enumerate(row):
            if t < 0:
                continue
            r = cs_and(cl[c], rest)
            if r:
                n.edges[m[i]].append((r, m[t]))
            for ch, tx in by_class.get(c, ()):
                if True:
                    cur = m[i]
                    for x in tx[:-1]:
                        nn = n.new()
                        n.edges[cur].append((cs_of(x), nn))
                        cur = nn
                    if tx:
                        n.edges[cur].append((cs_of(tx[-1]), m[t]))
                    else:
                        n.eps[cur].append(m[t])
    if not m:
        return EMPTY
    return n.dfa(m[0], [m[a] for a in l.acc])


@lru_cache(None)
def hom_pre(l, mapping):
    """preimage under the substitution"""
    if l.is_empty():
        return EMPTY
    n = NFA()
    m = [n.new() for _ in l.delta]
    cl = l.class_sets()
    md = dict(mapping)
    rest = cs_neg(cs_of(''.join(md)))
    for i, row in enumerate(l.delta):
        for c, t in enumerate(row):
            if t >= 0:
                r = cs_and(cl[c], rest)
                if r:
                    n.edges[m[i]].append((r, m[t]))
        for ch, tx in md.items():
            q = i
            for x in tx:
                q = l.step(q, ord(x))
                if q < 0:
                    break
            if q >= 0:
                n.edges[m[i]].append((cs_of(ch), m[q]))
    return n.dfa(m[0], [m[a] for a in l.acc])


@lru_cache(None)
def _case_tables(which):
    t = {}
    for i in range(0x110000):
        if SUR[0] <= i <= SUR[1]:
            continue
        c = chr(i)
        d = c.lower() if which == 'lower' else c.upper()
        if d != c:
            t[c] = d
    return t


@lru_cache(None)
def case_map(which, ascii_only=False):
    if ascii_only:
        if which == 'lower':
            return tuple((chr(i), chr(i + 32)) for i in range(65, 91))
        return tuple((chr(i + 32), chr(i)) for i in range(65, 91))
    return tuple(sorted(_case_tables(which).items()))


def case_pre(l, which, ascii_only=False):
    """texts whose case mapping is in l (exact for languages over few characters)"""
    return hom_pre(l, case_map(which, ascii_only))


# ---------------------------------------------------------------- int parsing
@lru_cache(None)
def L_int(lo, hi):
    """texts that `str::parse` accepts for an integer type with this range"""
    def dec(n):  # canonical decimals <= n, plus leading zeros
        s = str(n)
        d = L_chars(ADIGIT)
        r = EMPTY
        for k in range(1, len(s)):
            r = r | L_power(d, k)
        # same length, lexicographically <=
        pre = ''
        for i, c in enumerate(s):
            if c > '0':
                r = r | (L_lit(pre) + L_chars(((0x30, ord(c) - 1),)) + L_power(d, len(s) - i - 1))
            pre += c
        r = r | L_lit(s)
        return L_lit('0').star() + r
    r = (L_lit('+') | EPS) + dec(hi)
    if lo < 0:
        r = r | (L_lit('-') + dec(-lo))
    return r


# ---------------------------------------------------------------- regex syntax
class Unsupported(Exception):
    pass


class RegexError(Exception):
    pass


class _P:
    """AST: ('cs',set) ('cat',[..]) ('alt',[..]) ('rep',e,min,max,greedy) ('grp',n,e) ('^',) ('$',) ('hole',x)"""

    def __init__(self, toks, flags=frozenset()):
        self.t = toks
        self.i = 0
        self.ng = 0
        self.names = {}

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def alt(self, fl):
        alts = []
        e, fl = self.cat(fl)
        alts.append(e)
        while self.peek() == '|':
            self.i += 1
            e, fl = self.cat(fl)
            alts.append(e)
        return alts[0] if len(alts) == 1 else ('alt', tuple(alts))

    def cat(self, fl):
        out = []
        while True:
            c = self.peek()
            if c is None or c == '|' or c == ')':
                return ('cat', tuple(out)), fl
            if c == '(' and self.t[self.i + 1:self.i + 2] == ['?']:
                j = self.i + 2
                s = ''
                while j < len(self.t) and isinstance(self.t[j], str) and self.t[j] in 'imsuxU-':
                    s += self.t[j]
                    j += 1
                if j < len(self.t) and self.t[j] == ')':
                    self.i = j + 1
                    fl = self.setflags(fl, s)
                    continue
            a = self.atom(fl)
            if isinstance(a, tuple) and a[0] == 'lits':
                a = a[1]
            out.append(self.quant(a))

    @staticmethod
    def setflags(fl, s):
        on = True
        f = set(fl)
        for c in s:
            if c == '-':
                on = False
            elif c in 'mxU':
                raise Unsupported('flag ' + c)
            elif on:
                f.add(c)
            else:
                f.discard(c)
        return frozenset(f)

    def quant(self, a):
        while True:
            c = self.peek()
            if c == '*':
                r = (0, None)
            elif c == '+':
                r = (1, None)
            elif c == '?':
                r = (0, 1)
            elif c == '{':
                j = self.i + 1
                s = ''
                while j < len(self.t) and self.t[j] != '}':
                    if not isinstance(self.t[j], str):
                        raise Unsupported('hole in repetition')
                    s += self.t[j]
                    j += 1
                if j >= len(self.t):
                    raise RegexError('unclosed {')
                try:
                    if ',' in s:
                        lo, hi = s.split(',')
                        r = (int(lo), int(hi) if hi.strip() else None)
                    else:
                        r = (int(s), int(s))
                except ValueError:
                    raise RegexError('bad repetition')
                self.i = j
            else:
                return a
            self.i += 1
            greedy = True
            if self.peek() == '?':
                greedy = False
                self.i += 1
            if a[0] == 'hole':
                raise Unsupported('quantified hole')
            a = ('rep', a, r[0], r[1], greedy)

    def ch(self, c, fl):
        cs = cs_of(c)
        if 'i' in fl:
            cs = cs_fold(cs)
        return ('cs', cs)

    def atom(self, fl):
        c = self.t[self.i]
        if not isinstance(c, str):
            self.i += 1
            return ('hole', c)
        if c == '(':
            self.i += 1
            g = None
            if self.peek() == '?':
                self.i += 1
                c2 = self.peek()
                if c2 == ':':
                    self.i += 1
                    g = -1
                elif c2 == 'P' or c2 == '<':
                    if c2 == 'P':
                        self.i += 1
                    if self.peek() != '<':
                        raise RegexError('bad group')
                    self.i += 1
                    nm = ''
                    while self.peek() not in ('>', None):
                        nm += self.t[self.i]
                        self.i += 1
                    self.i += 1
                    self.ng += 1
                    g = self.ng
                    self.names[nm] = g
                else:
                    s = ''
                    while self.peek() is not None and self.peek() in 'imsuxU-':
                        s += self.t[self.i]
                        self.i += 1
                    if self.peek() != ':':
                        raise RegexError('bad group flags')
                    self.i += 1
                    fl = self.setflags(fl, s)
                    g = -1
            if g is None:
                self.ng += 1
                g = self.ng
            e = self.alt(fl)
            if self.peek() != ')':
                raise RegexError('unclosed group')
            self.i += 1
            return ('grp', g, e) if g > 0 else e if e[0] != 'hole' else ('cat', (e,))
        if c == '[':
            return self.klass(fl)
        if c in '*+?':
            raise RegexError('nothing to repeat')
        self.i += 1
        if c == '{':
            raise RegexError('repetition operator missing expression')
        if c == '.':
            return ('cs', ANY if 's' in fl else cs_neg(cs_of('\n')))
        if c == '^':
            return ('^',)
        if c == '$':
            return ('$',)
        if c == '\\':
            return self.esc(fl)
        return self.ch(c, fl)

    def esc(self, fl, incls=False):
        c = self.peek()
        if c is None:
            raise RegexError('trailing backslash')
        if not isinstance(c, str):
            raise Unsupported('escaped hole')
        self.i += 1
        if c in 'dDsSwW':
            cs = cs_class(c.lower())
            return ('cs', cs if c.islower() else cs_neg(cs))
        if c in 'nrt':
            return self.ch({'n': '\n', 'r': '\r', 't': '\t'}[c], fl)
        if c == 'A':
            return ('^',)
        if c == 'z':
            return ('$',)
        if c in 'bB' and not incls and self.peek() != '{':
            return (c,)
        if c in 'bBpPxuU':
            raise Unsupported('\\' + c)
        if c.isalnum():
            raise RegexError('unknown escape \\' + c)
        return self.ch(c, fl)

    def klass(self, fl):
        self.i += 1
        neg = False
        if self.peek() == '^':
            neg = True
            self.i += 1
        cs = ()
        first = True
        while True:
            c = self.peek()
            if c is None:
                raise RegexError('unclosed class')
            if not isinstance(c, str):
                raise Unsupported('hole in class')
            if c == ']' and not first:
                self.i += 1
                break
            first = False
            if c == '[':
                if self.t[self.i + 1:self.i + 2] == [':']:
                    j = self.i + 2
                    nm = ''
                    while j < len(self.t) and self.t[j] != ':':
                        nm += self.t[j]
                        j += 1
                    tbl = {'digit': ((48, 57),), 'alpha': ((65, 90), (97, 122)), 'alnum': ((48, 57), (65, 90), (97, 122)),
                           'space': cs_of('\t\n\x0b\x0c\r '), 'upper': ((65, 90),), 'lower': ((97, 122),),
                           'punct': ((33, 47), (58, 64), (91, 96), (123, 126)), 'word': ((48, 57), (65, 90), (95, 95), (97, 122))}
                    if nm not in tbl:
                        raise Unsupported(nm)
                    self.i = j + 2
                    cs = cs_or(cs, tbl[nm])
                    continue
                sub = self.klass(fl)
                cs = cs_or(cs, sub[1])
                continue
            if c in '&~-' and self.t[self.i + 1:self.i + 2] == [c]:
                raise Unsupported('class set operation')
            self.i += 1
            if c == '\\':
                a = self.esc(fl, True)
                if a[0] != 'cs':
                    raise RegexError('bad escape in class')
                one = a[1]
                single = one[0][0] if len(one) == 1 and one[0][0] == one[0][1] else None
            else:
                one = cs_of(c)
                single = ord(c)
            if self.peek() == '-' and self.t[self.i + 1:self.i + 2] not in ([']'], []):
                self.i += 1
                d = self.t[self.i]
                self.i += 1
                if d == '\\':
                    a = self.esc(frozenset(), True)
                    d = chr(a[1][0][0])
                if single is None or ord(d) < single:
                    raise RegexError('bad range')
                one = ((single, ord(d)),)
            cs = cs_or(cs, one)
        if 'i' in fl:
            cs = cs_fold(cs)
        if neg:
            cs = cs_neg(cs)
        return ('cs', cs)


def parse_regex(toks):
    """toks: a str, or a list mixing characters and hole objects. Returns (ast, ngroups, names)"""
    p = _P(list(toks))
    e = p.alt(frozenset())
    if p.i != len(p.t):
        raise RegexError('unopened group')
    return e, p.ng, p.names


def ast_lang(e, hole=None):
    """language of an AST without anchors"""
    k = e[0]
    if k == 'cs':
        return L_chars(e[1])
    if k == 'cat':
        r = EPS
        for x in e[1]:
            r = r + ast_lang(x, hole)
        return r
    if k == 'alt':
        r = EMPTY
        for x in e[1]:
            r = r | ast_lang(x, hole)
        return r
    if k == 'grp':
        return ast_lang(e[2], hole)
    if k == 'rep':
        l = ast_lang(e[1], hole)
        r = L_power(l, e[2])
        if e[3] is None:
            return r + l.star()
        for _ in range(e[3] - e[2]):
            pass
        opt = l | EPS
        return r + L_power(opt, e[3] - e[2])
    if k == 'hole' and hole:
        return hole(e[1])
    raise Unsupported(k)


# assertions inside an expression are letters of their own, erased again once it is known where they hold
MARK = {'^': 0xD800, '$': 0xD801, 'b': 0xD802, 'B': 0xD803}


def _marked(e):
    """the expression with its assertions as letters"""
    k = e[0]
    if k in MARK:
        return ('cs', ((MARK[k], MARK[k]),))
    if k in ('cat', 'alt'):
        return (k, tuple(_marked(x) for x in e[1]))
    if k == 'grp':
        return (k, e[1], _marked(e[2]))
    if k == 'rep':
        return (k, _marked(e[1])) + tuple(e[2:])
    return e


def _asserts(e):
    k = e[0]
    return (k in MARK or k in ('cat', 'alt') and any(_asserts(x) for x in e[1])
            or k == 'grp' and _asserts(e[2]) or k == 'rep' and _asserts(e[1]))


@lru_cache(None)
def _valid_marks():
    """texts with assertion letters only where the assertions hold"""
    n = NFA()
    sets = [frozenset(x) for x in ('we', 'wne', 'ne', 'w', 'n', 'e', 'wn', '')]
    st = {(p, s): n.new() for p in '^wn' for s in sets}
    word = cs_class('w')
    cls = {'w': cs_and(ANY, word), 'n': cs_and(ANY, cs_neg(word))}
    acc = []
    for (p, s), q in st.items():
        if 'e' in s:
            acc.append(q)
        for x in 'wn':
            if x in s:
                n.edges[q].append((cls[x], st[x, frozenset('wne')]))
        m = {'$': 'e', 'b': 'ne' if p == 'w' else 'w', 'B': 'w' if p == 'w' else 'ne'}
        if p == '^':
            m['^'] = 'wne'
        for k, to in m.items():
            n.edges[q].append((((MARK[k], MARK[k]),), st[p, s & frozenset(to)]))
    return n.dfa(st['^', frozenset('wne')], acc)


def _search_marked(e, hole):
    l = (ALL + ast_lang(_marked(e), hole) + ALL) & _valid_marks()
    return hom(l, tuple((chr(m), '') for m in MARK.values()))


def _strip(e, side):
    """(anchored, e') : remove a leading '^' (side 0) / trailing '$' (side 1) of a branch"""
    if e == ('^',) and side == 0 or e == ('$',) and side == 1:
        return True, ('cat', ())
    if e[0] == 'cat' and e[1]:
        xs = list(e[1])
        i = 0 if side == 0 else -1
        an, x = _strip(xs[i], side)
        if an:
            xs[i] = x
            # ^^ is allowed
            return True, ('cat', tuple(xs))
        # an empty element may hide an anchor
        if xs[i] == ('cat', ()):
            an, r = _strip(('cat', tuple(xs[1:] if side == 0 else xs[:-1])), side)
            return an, r
        return False, e
    if e[0] == 'grp':
        an, x = _strip(e[2], side)
        return an, ('grp', e[1], x)
    if e[0] == 'alt':
        rs = [_strip(x, side) for x in e[1]]
        if all(r[0] for r in rs):
            return True, ('alt', tuple(r[1] for r in rs))
    return False, e


def branches(e):
    if e[0] == 'alt':
        r = []
        for x in e[1]:
            r += branches(x)
        return r
    if e[0] == 'cat' and len(e[1]) == 1:
        return branches(e[1][0])
    if e[0] == 'grp':
        return [('grp', e[1], b) for b in branches(e[2])]
    return [e]


def search_lang(e, hole=None):
    """texts in which the expression matches somewhere"""
    r = EMPTY
    for b in branches(e):
        a, b2 = _strip(b, 0)
        z, b3 = _strip(b2, 1)
        if _asserts(b3):
            r = r | _search_marked(b, hole)
            continue
        l = ast_lang(b3, hole)
        r = r | ((EPS if a else ALL) + l + (EPS if z else ALL))
    return r


@lru_cache(None)
def regex_search(pat):
    e, _, _ = parse_regex(pat)
    return search_lang(e)


@lru_cache(None)
def before(w):
    """texts smaller than w (byte order of UTF-8 is code point order)"""
    r = EMPTY
    for i, c in enumerate(w):
        r = r | L_lit(w[:i])
        if ord(c) > 0:
            r = r | (L_lit(w[:i]) + L_chars(cs_and(ANY, ((0, ord(c) - 1),))) + ALL)
    return r


@lru_cache(None)
def hom_class_fold(l):
    """closure of a language under per-character simple case folding"""
    n = NFA()
    m = [n.new() for _ in l.delta]
    cl = l.class_sets() if l.delta else []
    for i, row in enumerate(l.delta):
        for c, t in enumerate(row):
            if t >= 0:
                n.edges[m[i]].append((cs_fold(cl[c]), m[t]))
    if not m:
        return EMPTY
    return n.dfa(m[0], [m[a] for a in l.acc])
