"""The Python binding."""
from ..check import prop, EXPL, Missing
from .util import *
from .order import part_hooks, parse_hook, OPORD
from .tables import SIX

CR = 'ronda-py'


class Binding:
    """The methods of the Python class, called the way the binding's generated code calls them. What the
    generated code itself does (argument conversion, storing the data of an object) is taken at its word: an object
    holds the data it was created with, and its accessors give out that data."""

    def __init__(self, c):
        self.c, self.P, self.A = c, c.prog(CR), c.anchors(CR)
        P = self.P
        cl = [i for i, t in enumerate(P.types) if t and t['k'] == 'adt' and t.get('local') and
              any(f['self'] == i and f['path'].endswith('::__richcmp__') for f in P.fns)]
        if len(cl) != 1:
            raise Missing('Python class with comparison operators (%d found)' % len(cl))
        self.ty = cl[0]
        self.ms = {f['path'].split('::')[-1]: f['id'] for f in P.fns if f['self'] == self.ty and f['local'] and not f['tm'] and f.get('blocks')}
        self.h = {'force': None}
        h, self.cmp3, self.neut = part_hooks(c, crate=CR)
        self.h = h
        self.h.update(parse_hook(c, CR))
        self.data = {}

        def create(I, fn, args, dty):
            t = ('py', len(self.data))
            self.data[t] = [(v, I) for v in args[1:]]
            return I.ok(dty, Sym(t, self.ty))
        self.h[P.fns[self.method('create_instance')]['path']] = create
        for nm, i in self.ms.items():
            f = P.fns[i]
            ts = f['locals'][1:f['argc'] + 1]
            r = P.types[f['locals'][0]]
            if len(ts) == 2 and r['k'] == 'ref' and P.types[ts[0]]['k'] == 'ref':
                self.h[f['path']] = self.accessor(r['e'])
        for f in P.fns:
            if f['path'].startswith('cpython::err::PyErr::'):
                self.h[f['path']] = self.raised

    def raised(self, I, fn, args, dty):
        if self.P.types[dty].get('path') != 'cpython::err::PyErr':
            raise Unknown('exception')
        return Sym(('pyerr',), dty)

    def method(self, nm):
        if nm not in self.ms:
            raise Missing('Python method ' + nm)
        return self.ms[nm]

    def accessor(self, ty):
        P = self.P
        create = P.fns[self.method('create_instance')]
        ts = create['locals'][2:create['argc'] + 1]

        def h(I, fn, args, dty):
            v = peel(I, args[0])
            d = self.data.get(v.t) if isinstance(v, Sym) else None
            k = [i for i, t in enumerate(ts) if t == ty]
            if d is None or len(k) != 1:
                raise Unknown('data of a Python object')
            return ref(d[k[0]][0])
        return h

    def py(self, fid, i=None):
        P = self.P
        f = P.fns[fid]
        for t in f['locals'][1:f['argc'] + 1]:
            if P.types[t].get('path') == 'cpython::python::Python':
                return Sym(('gil',), t)
        raise Missing('interpreter argument of ' + f['path'])

    def call(self, I, nm, slf, *args):
        """the method's result"""
        fid = self.method(nm)
        f = self.P.fns[fid]
        if f['argc'] != 2 + len(args):
            raise Missing('arguments of Python method %s' % nm)
        return I.call(fid, [slf, self.py(fid)] + list(args))

    def new(self, I, t):
        """the object made from a text, or None when an exception is raised"""
        fid = self.method('__new__')
        cls = Sym(('cls',), self.P.fns[fid]['locals'][1])
        r = self.call(I, '__new__', cls, ref(Str(t)))
        return peel(I, I.deref_all(r).fs[0]) if is_ok(I, r) else None

    def reset(self):
        self.data.clear()

    def lib(self, nm):
        return self.A.method('Version', nm)

    def version(self, I, o):
        """the library's version an object holds"""
        V = self.A.adt('Version')
        return self.accessor(V)(I, None, [o], None)


def compare(B, I, a, b):
    """the library's three-way comparison"""
    try:
        f = B.lib('compare_version')
        return OPORD.get(vname(I, I.call(f, [a, b])))
    except Missing:
        r = I.call(B.P.tables[B.A.adt('Version')]['pcmp'], [a, b])
        return vname(I, payload(I, r)) if is_ok(I, r) else None


EXPL['C28'] = ('The Python class is built from two arbitrary texts through its own constructor, its comparison method is run with each of the six '
               'operators, and the answer is compared with the library\'s three-way comparison of the same two versions on the facts of the path.')


@prop('C28', crates=('ronda-py',))
def c28(c):
    B = Binding(c)
    P = c.prog(CR)
    fid = B.method('__richcmp__')
    opty = P.fns[fid]['locals'][P.fns[fid]['argc']]
    if P.types[opty].get('path') != 'cpython::py_class::CompareOp':
        raise Missing('operator argument of the comparison method')
    n = 5 if c.quick else 12
    for o in sorted(SIX):
        def run(I, o=o):
            B.reset()
            a = B.new(I, ('sv', 'a'))
            b = B.new(I, ('sv', 'b'))
            if a is None or b is None:
                return []
            try:
                r = B.call(I, '__richcmp__', ref(a), ref(b), variant(P, opty, o))
            except Panic as e:
                return [('panic:' + o, 'the operator %s panics: %s' % (o, e.msg))]
            if not is_ok(I, r):
                return [('raises:' + o, 'the operator %s raises an exception for two versions' % o)]
            y = truth(I, payload(I, r))
            x = compare(B, I, B.version(I, a), B.version(I, b))
            if y != (x in SIX[o]):
                return [('operator:%s:%s' % (o, x), 'the library compares a with b as %s, but Python\'s operator %s answers %s' % (x, o, y))]
            return []
        c.explore('Python operator %s answers what the library\'s comparison says' % o, run, B.h, loops=n, crate=CR, need=20)
    c.note('the code the cpython crate generates passes operands and operator to the comparison method unchanged')


EXPL['C29'] = ('The constructor of the Python class is run on an arbitrary text: it answers an object exactly when the library reads the text and an '
               'exception otherwise; on the object, the text conversions and the library\'s namesakes of the other methods are run and compared.')


@prop('C29', crates=('ronda-py',))
def c29(c):
    B = Binding(c)
    P = c.prog(CR)
    n = 5 if c.quick else 12
    t = ('sv', 't')

    def run(I):
        B.reset()
        try:
            o = B.new(I, t)
        except Panic as e:
            return [('panic:__new__', 'making a version from a text aborts: %s' % e.msg)]
        good = I.atom(('parses', t))
        if o is not None and not good:
            return [('accepted', 'a text the library refuses makes a version')]
        if o is None and good:
            return [('refused', 'a text the library reads raises an exception')]
        if o is None:
            return []
        bad = []
        for nm in ('__repr__', '__str__'):
            if nm not in B.ms:
                if nm == '__repr__':
                    bad.append(('repr', 'the class does not say how it is shown'))
                continue
            try:
                r = B.call(I, nm, ref(o))
            except Panic as e:
                bad.append(('panic:' + nm, '%s aborts: %s' % (nm, e.msg)))
                continue
            if not is_ok(I, r):
                bad.append(('raises:' + nm, '%s raises an exception' % nm))
                continue
            x = I.text(payload(I, r))
            if x != t and not same(I, x, t):
                a, b = I.f.get_lang(x), I.f.get_lang(t)
                if nm == '__repr__' and '__str__' in B.ms and x[0] == 'cat' and t in x[1]:
                    continue
                bad.append(('text:' + nm, '%s answers %s for the text %s' % (nm, a.example(), b.example())))
        return bad
    c.explore('a Python version is made exactly from the texts the library reads, and shows its text', run, B.h, loops=n, crate=CR, need=2)

    def run2(I):
        B.reset()
        try:
            o = B.new(I, t)
        except Panic as e:
            return [('panic:__new__', 'making a version from a text aborts: %s' % e.msg)]
        return []
    h = {k: v for k, v in B.h.items() if k not in parse_hook(c, CR)}
    c.explore('making a version from any text never aborts (the real reader)', run2, h, loops=2, crate=CR, need=2, seconds=40 if c.quick else 300)
    from .effects import Graph
    G = Graph(P, B.A.mine)
    roots = [f['id'] for f in P.fns if f['local'] and f['path'].split('::')[-1].startswith('PyInit_')]
    if not roots:
        raise Missing('initializer of the Python module')
    seen, st = set(roots), list(roots)
    while st:
        for j in G.callees(st.pop()):
            if j not in seen:
                seen.add(j)
                st.append(j)
    made = [f for f in P.fns if f['id'] in seen and (B.ty in (f.get('args') or ()) if not f['local'] else
                                                     f['self'] == B.ty and f['path'].split('::')[-1] in ('add_to_module', 'initialize', 'type_object'))]
    if not made:
        c.violation('module:class', 'the initializer of the Python module (%s) does not put the class into the module' % P.fns[roots[0]]['path'])
    c.fact('the initializer of the Python module reaches the making of the class', bool(made), len(seen))
    V = B.A.adt('Version')
    for nm in sorted(B.ms):
        lib = [f['id'] for f in P.fns if f['self'] == V and not f['tm'] and f['path'].split('::')[-1] == nm and f.get('blocks')]
        f = P.fns[B.ms[nm]]
        ts = f['locals'][3:f['argc'] + 1]
        if len(lib) != 1 or P.fns[B.ms[nm]]['path'] in B.h or nm.startswith('__'):
            continue
        if [P.types[x].get('e') for x in ts] != [B.ty] * (P.fns[lib[0]]['argc'] - 1):
            continue

        def run3(I, nm=nm, lib=lib, k=len(ts)):
            B.reset()
            os = [B.new(I, ('sv', 'abcdef'[i])) for i in range(k + 1)]
            if None in os:
                return []
            try:
                r = B.call(I, nm, ref(os[0]), *[ref(x) for x in os[1:]])
            except Panic as e:
                return [('panic:' + nm, 'the Python method %s aborts: %s' % (nm, e.msg))]
            if not is_ok(I, r):
                return [('raises:' + nm, 'the Python method %s raises an exception' % nm)]
            y = truth(I, payload(I, r))
            x = truth(I, I.call(lib[0], [B.version(I, o) for o in os]))
            return [] if x == y else [('method:' + nm, 'the library\'s %s answers %s and the Python method %s' % (nm, x, y))]
        c.explore('the Python method %s answers what the library\'s does' % nm, run3, B.h, loops=n, crate=CR, need=10)


def same(I, x, t):
    a, b = I.word(x), I.word(t)
    return a is not None and a == b
