"""Path facts: difference bounds on integers (and on ranks in total preorders), regular languages of
strings, enum variants and opaque boolean atoms. There is no solver: every query is answered by the
closure of the stored facts."""
from . import lang as L

Z = ('zero',)
RANGES = {}          # int term -> (lo, hi)
BASELANG = {}        # text term -> language of the values it may have


def lead_byte(c):
    return c if c < 0x80 else 0xC0 | c >> 6 if c < 0x800 else 0xE0 | c >> 12 if c < 0x10000 else 0xF0 | c >> 18


# integers that are increasing functions of a character
ORDS = {'code': lambda c: c, 'lead': lead_byte}


def least(good):
    """least code point satisfying a predicate that stays true"""
    lo, hi = 0, L.MAXC + 1
    while lo < hi:
        m = (lo + hi) // 2
        if m > L.MAXC or good(m):
            hi = m
        else:
            lo = m + 1
    return lo


class Infeasible(Exception):
    pass


class Facts:
    def __init__(self):
        self.d = {}
        self.vars = []
        self.vset = set()
        self.var = {}
        self.lang = {}
        self.atoms = {}
        self.inexact = []

    # ---- integers
    def touch(self, x):
        if x == Z or x in self.vset:
            return
        self.vars.append(x)
        self.vset.add(x)
        r = RANGES.get(x)
        if r is None:
            r = (0, None) if x[0] in ('len', 'blen', 'nsplit', 'count', 'charlen') else None
        if r:
            if r[1] is not None:
                self._add(x, Z, r[1])
            if r[0] is not None:
                self._add(Z, x, -r[0])

    def bound(self, x, y):
        """least c with x - y <= c, or None"""
        if x == y:
            return 0
        self.touch(x)
        self.touch(y)
        return self.d.get((x, y))

    def _add(self, x, y, c):
        d = self.d
        old = d.get((x, y))
        if old is not None and old <= c:
            return
        back = d.get((y, x))
        if back is not None and back + c < 0:
            raise Infeasible()
        vs = [Z] + self.vars
        left = [(u, 0 if u == x else d.get((u, x))) for u in vs]
        right = [(v, 0 if v == y else d.get((y, v))) for v in vs]
        left = [(u, a) for u, a in left if a is not None]
        right = [(v, a) for v, a in right if a is not None]
        for u, a in left:
            for v, b in right:
                if u == v:
                    continue
                n = a + c + b
                o = d.get((u, v))
                if o is None or n < o:
                    d[(u, v)] = n

    def add_le(self, x, kx, y, ky, c=0):
        """assume x+kx <= y+ky+c"""
        c = c + ky - kx
        if x == y:
            if c < 0:
                raise Infeasible()
            return
        self.touch(x)
        self.touch(y)
        self._add(x, y, c)
        for t in (x, y):
            self.push_int(t)

    def le(self, x, kx, y, ky, c=0):
        """True / False / None: x+kx <= y+ky+c"""
        c = c + ky - kx
        if x == y:
            return c >= 0
        for t in (x, y):
            self.pull_int(t)
        b = self.bound(x, y)
        if b is not None and b <= c:
            return True
        b = self.bound(y, x)
        if b is not None and b < -c:
            return False
        return None

    def value(self, x):
        if x[0] == 'diff':
            b, c = self.bound(x[1], x[2]), self.bound(x[2], x[1])
            return b if b is not None and c is not None and b == -c else None
        self.pull_int(x)
        b, c = self.bound(x, Z), self.bound(Z, x)
        if b is not None and c is not None and b == -c:
            return b
        return None

    def limits(self, x):
        if x[0] == 'diff':
            b, c = self.bound(x[1], x[2]), self.bound(x[2], x[1])
            return (None if c is None else -c, b)
        self.pull_int(x)
        b, c = self.bound(x, Z), self.bound(Z, x)
        return (None if c is None else -c, b)

    # integers that measure texts: piece counts and byte lengths
    MAXN = 6

    def measure(self, t):
        """function n -> language of the texts measuring exactly n"""
        if t[0] == 'nsplit':
            seg = L.L_chars(L.cs_neg(t[2])).star()
            sep = L.L_chars(t[2])
            return (lambda n: L.EMPTY if n < 1 else L.L_power(seg + sep, n - 1) + seg), 1
        if t[0] == 'blen':
            return (lambda n: L.EMPTY if n < 0 else L.L_utf8(n)), 0
        if t[0] == 'charlen':
            return (lambda n: L.EMPTY if n < 0 else L.L_power(L.L_chars(L.ANY), n)), 0
        return None, 0

    def pull_int(self, t):
        """bounds implied by the language of the measured text"""
        if t[0] == 'int':
            l = string_lang(self, t[1])
            w = l.example()
            try:
                k = int(w)
            except (ValueError, TypeError):
                return
            if k >= 0 and l <= int_text(k, k):
                self.touch(t)
                self._add(t, Z, k)
                self._add(Z, t, -k)
            return
        if t[0] == 'ord':
            cs = string_lang(self, t[1]).alphabet()
            if cs:
                self.touch(t)
                self._add(t, Z, ORDS[t[2]](cs[-1][1]))
                self._add(Z, t, -ORDS[t[2]](cs[0][0]))
            return
        m, lo = self.measure(t)
        if m is None:
            return
        self.touch(t)
        l = string_lang(self, t[1])
        n = lo
        acc = L.EMPTY
        while n <= self.MAXN and (l & m(n)).is_empty():
            n += 1
        self._add(Z, t, -n)
        k = n
        rest = l
        while k <= self.MAXN:
            rest = rest - m(k)
            if rest.is_empty():
                self._add(t, Z, k)
                break
            k += 1

    def push_int(self, t):
        """the language of the measured text, given the bounds"""
        if t[0] == 'int':
            b, c = self.bound(t, Z), self.bound(Z, t)
            if b is not None and c is not None and c <= 0 and b < 1 << 70:
                assume_lang(self, t[1], int_text(-c, b))
            return
        if t[0] == 'ord':
            b, c = self.bound(t, Z), self.bound(Z, t)
            f = ORDS[t[2]]
            lo, hi = least(lambda x: f(x) >= (0 if c is None else -c)), least(lambda x: b is not None and f(x) > b) - 1
            assume_lang(self, t[1], L.L_chars(((lo, hi),)) if lo <= hi else L.EMPTY)
            return
        m, lo = self.measure(t)
        if m is None:
            return
        b, c = self.bound(t, Z), self.bound(Z, t)
        a = lo if c is None else max(lo, -c)
        if b is not None and b <= self.MAXN + 2:
            l = L.EMPTY
            for n in range(a, b + 1):
                l = l | m(n)
            assume_lang(self, t[1], l)
        elif a > lo:
            if a > self.MAXN + 2:
                a = self.MAXN + 2
            l = L.ALL
            for n in range(lo, a):
                l = l - m(n)
            assume_lang(self, t[1], l)

    def taint(self, why):
        if why not in self.inexact:
            self.inexact.append(why)

    def get_lang(self, t):
        return string_lang(self, t)

    def assume_lang(self, t, l):
        assume_lang(self, t, l)


INT_TEXT = {}


def int_text(lo, hi):
    """texts `str::parse` reads as a number lo..hi (0 <= lo)"""
    r = INT_TEXT.get((lo, hi))
    if r is None:
        r = L.L_int(0, hi)
        if lo > 0:
            r = r - L.L_int(0, lo - 1)
        elif lo == 0:
            r = r | (L.L_lit('-') + L.L_lit('0') + L.L_lit('0').star())
        INT_TEXT[(lo, hi)] = r
    return r


# ------------------------------------------------------------------ string terms
# ('sv', name)             input text
# ('lit', s)
# ('cat', (t...))
# ('trim', t, side, set)   side in 'both','start','end'; characters of the set removed
# ('piece', t, set, i)     i-th piece (from the start) between characters of the set
# ('piece-', t, set, i)    i-th piece from the end
# ('dropend', t, k) ('dropstart', t, k) ('takestart', t, k) ('takeend', t, k)   k bytes
# ('strip', t, side, s)    t without the literal prefix/suffix s
# ('after', t, set, w)     text after the first/last character of the set (w: 'first'/'last')
# ('before', t, set, w)
# ('hom', t, mapping)      per-character substitution
# ('case', t, which, ascii)
# ('sub', t, lang)         some factor of t, member of lang
# ('run', t, cs, first)    longest prefix of t inside cs ; ('norun', t, cs) the text after it
# ('chat', t, i) the i-th character; ('ctail', t, i) the text after the first i characters
def string_lang(f, t):
    own = f.lang.get(t)
    d = derived_lang(f, t)
    if own is None:
        return d
    return own & d


def derived_lang(f, t):
    k = t[0]
    if k == 'lit':
        return L.L_lit(t[1])
    if k == 'cat':
        r = L.EPS
        for x in t[1]:
            r = r + string_lang(f, x)
        return r
    op = OPS.get(k)
    if op is not None:
        return op[0](string_lang(f, t[1]), t)
    if k == 'dec':
        return L_DEC
    return BASELANG.get(t, L.ALL)


L_DEC = (L.EPS | L.L_lit('-')) + L.L_chars(L.ADIGIT) + L.L_chars(L.ADIGIT).star()


def assume_lang(f, t, l):
    cur = string_lang(f, t)
    new = cur & l
    if new.is_empty():
        raise Infeasible()
    if new is cur:
        return
    k = t[0]
    if k == 'lit':
        return
    f.lang[t] = new
    op = OPS.get(k)
    if op is not None:
        assume_lang(f, t[1], op[1](new, t))
    elif k == 'cat':
        # push to each component, given the others
        ls = [string_lang(f, x) for x in t[1]]
        for i, x in enumerate(t[1]):
            if x[0] == 'lit':
                continue
            pre, post = L.EPS, L.EPS
            for j, y in enumerate(ls):
                if j < i:
                    pre = pre + y
                elif j > i:
                    post = post + y
            assume_lang(f, x, L.factors(new, pre, post))


def _trim_img(l, t):
    side, cs = t[2], t[3]
    c = L.L_chars(cs).star()
    nc = L.L_chars(L.cs_neg(cs))
    r = l
    if side in ('both', 'start'):
        r = L.lquot(c, r) & (L.EPS | (nc + L.ALL))
    if side in ('both', 'end'):
        r = L.rquot(r, c) & (L.EPS | (L.ALL + nc))
    return r


def _trim_pre(l, t):
    side, cs = t[2], t[3]
    c = L.L_chars(cs).star()
    nc = L.L_chars(L.cs_neg(cs))
    m = l
    if side in ('both', 'start'):
        m = m & (L.EPS | (nc + L.ALL))
    if side in ('both', 'end'):
        m = m & (L.EPS | (L.ALL + nc))
    if side in ('both', 'start'):
        m = c + m
    if side in ('both', 'end'):
        m = m + c
    return m


def _piece_ctx(t):
    cs, i = t[2], t[3]
    seg = L.L_chars(L.cs_neg(cs)).star()
    sep = L.L_chars(cs)
    if t[0] == 'piece':
        return seg, L.L_power(seg + sep, i), L.EPS | (sep + L.ALL)
    return seg, L.EPS | (L.ALL + sep), L.L_power(sep + seg, i)


def _piece_img(l, t):
    seg, pre, post = _piece_ctx(t)
    return L.factors(l, pre, post) & seg


def _piece_pre(l, t):
    seg, pre, post = _piece_ctx(t)
    return pre + (l & seg) + post


def _cut(t):
    cs, w = t[2], t[3]
    no = L.L_chars(L.cs_neg(cs)).star()
    c = L.L_chars(cs)
    return (no, c, L.ALL) if w == 'first' else (L.ALL, c, no)


def _before_img(l, t):
    a, c, b = _cut(t)
    return L.rquot(l, c + b) & a


def _before_pre(l, t):
    a, c, b = _cut(t)
    return (l & a) + c + b


def _after_img(l, t):
    a, c, b = _cut(t)
    return L.lquot(a + c, l) & b


def _after_pre(l, t):
    a, c, b = _cut(t)
    return a + c + (l & b)


def _run_img(l, t):
    c = L.L_chars(t[2])
    n = L.L_chars(L.cs_neg(t[2]))
    return L.rquot(l, L.EPS | (n + L.ALL)) & c.star()


def _run_pre(l, t):
    c = L.L_chars(t[2])
    n = L.L_chars(L.cs_neg(t[2]))
    return (l & c.star()) + (L.EPS | (n + L.ALL))


def _norun_img(l, t):
    c = L.L_chars(t[2])
    n = L.L_chars(L.cs_neg(t[2]))
    return L.lquot(c.star(), l) & (L.EPS | (n + L.ALL))


def _norun_pre(l, t):
    c = L.L_chars(t[2])
    n = L.L_chars(L.cs_neg(t[2]))
    return c.star() + (l & (L.EPS | (n + L.ALL)))


_A = L.L_chars(L.ANY)
OPS = {
    'trim': (_trim_img, _trim_pre),
    'piece': (_piece_img, _piece_pre),
    'piece-': (_piece_img, _piece_pre),
    'dropend': (lambda l, t: L.rquot(l, L.L_utf8(t[2])), lambda l, t: l + L.L_utf8(t[2])),
    'dropstart': (lambda l, t: L.lquot(L.L_utf8(t[2]), l), lambda l, t: L.L_utf8(t[2]) + l),
    'takestart': (lambda l, t: L.rquot(l, L.ALL) & L.L_utf8(t[2]), lambda l, t: (l & L.L_utf8(t[2])) + L.ALL),
    'takeend': (lambda l, t: L.lquot(L.ALL, l) & L.L_utf8(t[2]), lambda l, t: L.ALL + (l & L.L_utf8(t[2]))),
    'strip': (lambda l, t: L.lquot(L.L_lit(t[3]), l) if t[2] == 'start' else L.rquot(l, L.L_lit(t[3])),
              lambda l, t: L.L_lit(t[3]) + l if t[2] == 'start' else l + L.L_lit(t[3])),
    'before': (_before_img, _before_pre),
    'after': (_after_img, _after_pre),
    'hom': (lambda l, t: L.hom(l, t[2]), lambda l, t: L.hom_pre(l, t[2])),
    'case': (lambda l, t: L.hom(l, L.case_map(t[2], t[3])), lambda l, t: L.case_pre(l, t[2], t[3])),
    # a factor that is a member of a language (a regex match)
    'sub': (lambda l, t: L.factors(l, L.ALL, L.ALL) & t[2], lambda l, t: L.ALL + (l & t[2]) + L.ALL),
    'run': (_run_img, _run_pre),
    'norun': (_norun_img, _norun_pre),
    'chat': (lambda l, t: L.factors(l, L.L_power(_A, t[2]), L.ALL) & _A, lambda l, t: L.L_power(_A, t[2]) + (l & _A) + L.ALL),
    'ctail': (lambda l, t: L.lquot(L.L_power(_A, t[2]), l), lambda l, t: L.L_power(_A, t[2]) + l),
}
