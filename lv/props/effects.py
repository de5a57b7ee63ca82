"""What the code can touch besides its arguments, and what its types are made of."""
import re

from ..check import prop, EXPL, Missing

# library paths whose use makes an answer depend on, or change, something besides the arguments
DENY = [
    ('std::env::', 'the environment'),
    ('std::time::', 'the clock'),
    ('std::thread::', 'threads or thread-local state'),
    ('std::process::', 'processes'),
    ('std::net::', 'the network'),
    ('std::os::', 'the operating system'),
    ('std::io::stdio::', 'the standard streams'),
    ('std::io::stdin', 'the standard streams'),
    ('std::io::stdout', 'the standard streams'),
    ('std::io::stderr', 'the standard streams'),
    ('std::panic::set_hook', 'the panic hook'),
    ('std::panic::take_hook', 'the panic hook'),
    ('std::panicking::set_hook', 'the panic hook'),
    ('std::panicking::take_hook', 'the panic hook'),
    ('std::backtrace::', 'the environment'),
    ('std::hash::random::RandomState::hash_one', 'random hashing'),
    ('std::sync::mpsc::', 'threads'),
    ('std::sync::barrier::', 'threads'),
    ('rand::', 'randomness'), ('rand_core::', 'randomness'), ('getrandom::', 'randomness'),
    ('chrono::', 'the clock'), ('libc::', 'the operating system'),
]
FILE_READ = re.compile(r'^(std::fs::(read|read_to_string|File::open|File::open_buffered|File::metadata|metadata|exists)$|'
                       r'<?(&?std::fs::File|std::io::buffered::)|std::io::buffered::bufreader::|std::io::(Read|BufRead)::|std::io::impls::|std::io::error::|std::io::default_read|'
                       r'<std::io::error::|std::io::cursor|std::io::util|std::io::copy|std::io::Bytes|<std::io::(Bytes|Take|Lines|Split|Chain))')
HASH_ITER = re.compile(r'hash_(map|set)::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|Difference|Union|Intersection|SymmetricDifference|ExtractIf)\b|'
                       r'collections::hash::(map|set)::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|Difference|Union|Intersection|SymmetricDifference|ExtractIf)\b')
ORDER_FREE = {'any', 'all', 'count', 'max', 'min', 'sum', 'product', 'len', 'map', 'filter', 'cloned', 'copied', 'filter_map', 'flat_map', 'chain', 'inspect', 'into_iter',
              'iter', 'by_ref', 'flatten', 'size_hint', 'is_empty', 'clone', 'drop', 'fuse', 'values', 'keys', 'drain', 'difference', 'union', 'intersection'}
ORDER_KEEPING = re.compile(r'(Vec::<T, A>::(push|insert|extend)|String::(push|push_str|insert)|::extend$|::extend_one|write_fmt|write_str)')
LAZY = ('lazy_static::lazy::Lazy', 'std::sync::lazy_lock::LazyLock', 'std::sync::once_lock::OnceLock', 'once_cell::sync::Lazy', 'once_cell::sync::OnceCell', 'once_cell::imp::OnceCell')
CELLS = ('core::cell::Cell', 'core::cell::RefCell', 'core::cell::UnsafeCell', 'core::cell::SyncUnsafeCell', 'core::sync::atomic::', 'std::sync::mutex::Mutex', 'std::sync::rwlock::RwLock',
         'std::sync::poison::mutex::Mutex', 'std::sync::poison::rwlock::RwLock', 'std::sync::poison::', 'std::sync::nonpoison::', 'std::sync::reentrant_lock', 'parking_lot::', 'std::sync::mpsc::',
         'core::cell::lazy', 'crossbeam')
SEALED = ('regex::', 'regex_syntax::', 'aho_corasick::', 'std::collections::hash::', 'alloc::collections::')
PYGEN = re.compile(r'(::create_instance::|::PyInit_)(.*::)?(MODULE_DEF|TYPE_OBJECT|INIT_ACTIVE|METHOD_DEF)$')


def where(f):
    return '%s (%s:%s)' % (f['path'], f.get('file'), f.get('line'))


class Graph:
    def __init__(self, P, mine):
        self.P, self.mine = P, mine
        self.local = [f['id'] for f in P.fns if mine(f)]
        self.edges = {}

    def callees(self, i):
        """functions called or named by a body"""
        if i in self.edges:
            return self.edges[i]
        P, f = self.P, self.P.fns[i]
        out = []
        for stmts, term in f.get('blocks') or ():
            if term[0] == 'call':
                if isinstance(term[1], int):
                    out.append(term[1])
                for a in term[3]:
                    if a[0] == 'k':
                        out += self.named(a[1])
            for s in stmts:
                out += self.consts(s)
        for t in f.get('locals') or ():
            out += self.named(t)
        for t in f.get('args') or ():
            if isinstance(t, int):
                out += self.named(t)
        self.edges[i] = list(dict.fromkeys(out))
        return self.edges[i]

    def named(self, t):
        t = self.P.types[t]
        if t and t['k'] == 'fndef' and isinstance(t.get('inst'), int):
            return [t['inst']]
        return []

    def consts(self, s):
        out = []
        if isinstance(s, list):
            if len(s) == 3 and s[0] == 'k' and isinstance(s[1], int):
                out += self.named(s[1])
            for x in s:
                out += self.consts(x)
        elif isinstance(s, dict):
            if isinstance(s.get('fn'), int):
                out.append(s['fn'])
        return out

    def reach(self):
        """{function: (caller, ...)} for everything reachable from the local functions"""
        back = {i: None for i in self.local}
        st = list(self.local)
        while st:
            i = st.pop()
            for j in self.callees(i):
                if j not in back:
                    back[j] = i
                    st.append(j)
        return back

    def chain(self, back, i):
        out = []
        while i is not None and len(out) < 12:
            out.append(i)
            i = back[i]
        return [self.P.fns[x] for x in reversed(out)]


def cells(P, ty, seen=None, trail=()):
    """paths to interior mutability inside a type"""
    seen = set() if seen is None else seen
    if ty in seen or ty is None:
        return []
    seen.add(ty)
    t = P.types[ty]
    if not t:
        return []
    k = t['k']
    if k in ('ref', 'ptr', 'slice', 'array'):
        return cells(P, t['e'], seen, trail)
    if k == 'tuple':
        return [c for x in t['a'] for c in cells(P, x, seen, trail)]
    if k != 'adt':
        return []
    p = t['path']
    if p.startswith(CELLS):
        return [trail + (t['s'],)]
    out = []
    lib = p.startswith(('core::', 'alloc::', 'std::'))
    if p.startswith(SEALED) or lib or p.startswith(LAZY):
        for a in t['args']:
            if isinstance(a, int):
                out += cells(P, a, seen, trail)
        return out
    for v in t['v']:
        for n, x in v['f']:
            out += cells(P, x, seen, trail + ('%s.%s' % (p, n),))
    return out


EXPL['C24'] = ('Effect analysis of both crates: every static item is classified by type, mutability and thread-locality, and every function of the compiled '
               'program reachable from any function of the crate (calls, function values and closures included) is compared with a list of library functions that '
               'read or change something besides their arguments; order-sensitive use of hash-ordered iteration and address-to-number conversions are looked for.')


@prop('C24', crates=('libronda', 'ronda-py'))
def c24(c):
    for cr in ('libronda', 'ronda-py'):
        P = c.prog(cr)
        A = c.anchors(cr)
        core = cr == 'libronda'
        # statics
        n = 0
        for name, s in sorted(P.d['statics'].items()):
            if not s['local']:
                continue
            n += 1
            t = P.types[s['ty']]
            if not core and PYGEN.search(name):
                continue
            short = re.sub(r'^.*?(\w+)( as .*)?$', r'\1', name.split('>::')[0]) if name.startswith('<') else name
            if s['mut']:
                c.violation('static:%s' % short, 'mutable static %s: %s' % (name, t['s']))
            elif s['tls']:
                c.violation('static:%s' % short, 'thread-local static %s: %s keeps state between calls' % (name, t['s']))
            elif not s['freeze']:
                inner = cells(P, s['ty'])
                if not t.get('path', '').startswith(LAZY):
                    c.violation('static:%s' % short, 'static %s: %s can change after it is made' % (name, t['s']))
                elif inner:
                    c.violation('static:%s' % short, 'static %s: %s holds changeable state (%s)' % (name, t['s'], '; '.join(' > '.join(x) for x in inner[:2])))
            elif t['k'] == 'adt' and cells(P, s['ty']):
                c.violation('static:%s' % short, 'static %s: %s holds changeable state' % (name, t['s']))
            elif t['k'] == 'ptr' and t.get('mut'):
                c.violation('static:%s' % short, 'static %s is a mutable pointer' % name)
        c.fact('no static of %s holds state that calls can change' % cr, not any(k.startswith('static:') for k in c.viol), n)
        # effects
        G = Graph(P, A.mine if not core else (lambda f: f['local']))
        back = G.reach()
        readers = {f['id'] for f in P.fns if A.mine(f) and f['path'].split('::')[-1] == 'read_repodata' or f['path'].startswith('repodata::')}
        bad = 0
        for i in sorted(back):
            f = P.fns[i]
            p = f['path']
            q = p.lstrip('<&')
            what = next((w for d, w in DENY if p.startswith(d) or q.startswith(d)), None)
            ch = G.chain(back, i)
            mine = [x for x in ch if A.mine(x)]
            by = mine[-1] if mine else ch[0]
            if what is None and (p.startswith('std::fs::') or p.startswith('std::io::') or q.startswith(('std::fs::', 'std::io::'))):
                if FILE_READ.match(p) and (p.startswith('std::io::error') or p.startswith('<std::io::error') or all(x['id'] in readers or 'repodata' in x['path'] for x in callers(G, back, i, A))):
                    continue
                what = 'files' if not FILE_READ.match(p) else 'a file, outside read_repodata'
            if what is None:
                continue
            if not core and by['path'].startswith('cpython::'):
                continue
            bad += 1
            c.violation('effect:%s' % p, '%s touches %s: %s' % (where(by), what, ' -> '.join(x['path'] for x in ch)))
        c.fact('no function of %s reaches the environment, clock, randomness, streams, threads, processes or files (reading the repodata file aside)' % cr, not bad, len(back))
        # order of hash iteration, addresses
        h = 0
        for i in G.local:
            f = P.fns[i]
            if core or f['local']:
                h += hash_order(c, P, f)
                if core:
                    h += addresses(c, P, f)
        c.fact('no function of %s lets hash order or addresses reach an answer' % cr, not h, len(G.local))
        # a value set once must not depend on who came first
        for i in G.local:
            f = P.fns[i]
            for stmts, term in f.get('blocks') or ():
                if term[0] == 'call' and isinstance(term[1], int):
                    g = P.fns[term[1]]
                    m = re.match(r'(std::sync::once_lock::OnceLock|once_cell::\w+::OnceCell).*::(get_or_init|set|get_or_try_init|try_insert)$', g['path'])
                    if m and first_comes(P, f, term, m.group(2)):
                        c.violation('once:%s' % f['path'], '%s fixes a static value from its own arguments on the first call' % where(f))
        c.used |= {P.fns[i]['path'] for i in G.local}
    c.note('external crates (serde, serde_json, regex, unicase, lazy_static, cpython) have no effects of their own beyond what they are called for')


def callers(G, back, i, A):
    """local functions that reach a function without another local function between"""
    rev = {}
    for a in back:
        for b in G.callees(a):
            rev.setdefault(b, set()).add(a)
    out, st, seen = [], [i], {i}
    while st:
        x = st.pop()
        if x != i and A.mine(G.P.fns[x]):
            out.append(G.P.fns[x])
            continue
        for y in rev.get(x, ()):
            if y not in seen:
                seen.add(y)
                st.append(y)
    return out


def first_comes(P, f, term, how):
    """whether the value put into a static cell is made from something the caller has"""
    t = None
    r = term[3][0]
    if r[0] in ('m', 'c'):
        t = P.types[f['locals'][r[1][0]]]
    if how in ('set', 'try_insert'):
        return bool(f['argc'])
    a = term[3][1]
    ty = f['locals'][a[1][0]] if a[0] in ('m', 'c') else a[1]
    k = P.types[ty]
    # a cell inside a value, filled from that value, is no hidden state
    return k['k'] == 'closure' and bool(k['caps']) and not of_argument(f, r)


def of_argument(f, r):
    """whether an operand is derived from an argument by projections only (one step of copies)"""
    n = r[1][0]
    for _ in range(8):
        if 1 <= n <= f['argc']:
            return True
        for stmts, _t in f['blocks']:
            for s in stmts:
                if s[0] == '=' and s[1] == [n] and s[2][0] in ('ref', 'use', 'reb') and isinstance(s[2][-1], list):
                    o = s[2][-1]
                    n = o[1][0] if o and o[0] in ('m', 'c') else o[0] if o and isinstance(o[0], int) else n
    return False


def hash_order(c, P, f):
    n = 0
    keeps = any(t[0] == 'call' and isinstance(t[1], int) and ORDER_KEEPING.search(P.fns[t[1]]['path']) for _, t in f.get('blocks') or ())
    for stmts, term in f.get('blocks') or ():
        if term[0] != 'call' or not isinstance(term[1], int) or not term[3]:
            continue
        g = P.fns[term[1]]
        a = term[3][0]
        ty = f['locals'][a[1][0]] if a[0] in ('m', 'c') else a[1]
        s = P.types[ty]['s']
        if not HASH_ITER.search(s):
            continue
        nm = g['path'].split('::')[-1]
        if nm in ORDER_FREE:
            continue
        if nm == 'next' and not keeps:
            continue
        if nm in ('collect', 'from_iter', 'extend', 'for_each', 'fold'):
            ret = P.types[f['locals'][term[4][0]]]['s']
            if re.search(r'(HashMap|HashSet|BTreeMap|BTreeSet)<', ret) or nm == 'for_each' and not keeps:
                continue
        n += 1
        c.violation('hash-order:%s:%s' % (f['path'], nm), '%s uses the order in which a hash table is walked (%s on %s)' % (where(f), nm, s))
    return n


def addresses(c, P, f):
    n = 0
    for stmts, term in f.get('blocks') or ():
        for s in stmts:
            if s[0] == '=' and s[2][0] == 'cast' and s[2][1].startswith('PointerExpose'):
                n += 1
                c.violation('address:%s' % f['path'], '%s turns an address into a number' % where(f))
        if term[0] == 'call' and isinstance(term[1], int) and re.search(r'fmt::(Pointer|pointer_fmt)|::addr$|expose_provenance', P.fns[term[1]]['path']):
            n += 1
            c.violation('address:%s' % f['path'], '%s uses an address (%s)' % (where(f), P.fns[term[1]]['path']))
    return n


SHARED = ('Version', 'VersionPart', 'CompOp', 'Combinator', 'ConstraintTree', 'VersionSpecOrConstraintTree')

EXPL['C25'] = ('Type-structure query on the compiled crate: the public value types, and every type of the crate they are made of, must be Send, Sync and (the '
               'public ones) Clone according to the compiler\'s trait solver; no field reaches interior mutability or a reference count shared between copies of changeable state; '
               'no function of the crate turns shared access into exclusive access.')


@prop('C25')
def c25(c):
    P, A = c.prog(), c.anchors()
    by = {a['ty']: a for a in P.d['adts'] if a['ty'] is not None}
    todo, parts = [A.adt(n) for n in SHARED], []
    pub = list(todo)
    while todo:
        t = todo.pop()
        if t in parts:
            continue
        parts.append(t)
        todo += inside(P, t, set())
    for t in sorted(parts):
        a = by.get(t)
        if a is None:
            continue
        for tr in ('send', 'sync') + (('clone',) if t in pub else ()):
            if a[tr] is False:
                c.violation('%s:%s' % (tr, a['path']), 'the type %s is no longer %s' % (a['path'], {'send': 'Send', 'sync': 'Sync', 'clone': 'Clone'}[tr]))
        for x in cells(P, t):
            c.violation('cell:%s' % a['path'], 'the type %s can be changed through shared access: %s' % (a['path'], ' > '.join(x)))
    c.fact('public value types and what they are made of are Send, Sync, Clone and free of interior mutability', not c.viol, 3 * len(parts), [P.types[t]['path'] for t in parts])
    n = 0
    for f in P.fns:
        if not f['local']:
            continue
        n += 1
        for stmts, term in f.get('blocks') or ():
            for s in stmts:
                if s[0] == '=' and s[2][0] == 'cast' and s[2][4] is not None:
                    a, b = P.types[s[2][4]], P.types[s[2][3]]
                    if b['k'] in ('ptr', 'ref') and b.get('mut') and a['k'] in ('ptr', 'ref') and not a.get('mut') and a.get('e') is not None and s[2][1] in ('PtrToPtr', 'Transmute'):
                        c.violation('mut-cast:%s' % f['path'], '%s turns shared access (%s) into exclusive access (%s)' % (where(f), a['s'], b['s']))
            if term[0] == 'call' and isinstance(term[1], int):
                g = P.fns[term[1]]
                if g['path'].endswith('::cast_mut'):
                    c.violation('mut-cast:%s' % f['path'], '%s turns shared access into exclusive access (%s)' % (where(f), g['path']))
    c.fact('no function turns shared access into exclusive access', not any(k.startswith('mut-cast') for k in c.viol), n)
    c.used |= {P.types[t]['path'] for t in parts}


def inside(P, t, seen):
    """local types a type is made of"""
    if t in seen or t is None:
        return []
    seen.add(t)
    k = P.types[t]
    out = []
    if k['k'] in ('ref', 'ptr', 'slice', 'array'):
        out += step(P, k['e'], seen)
    elif k['k'] == 'tuple':
        for x in k['a']:
            out += step(P, x, seen)
    elif k['k'] == 'adt':
        for a in k['args']:
            if isinstance(a, int):
                out += step(P, a, seen)
        if k.get('local'):
            for v in k['v']:
                for _, x in v['f']:
                    out += step(P, x, seen)
    return out


def step(P, x, seen):
    k = P.types[x]
    return [x] if k and k['k'] == 'adt' and k.get('local') else inside(P, x, seen)
