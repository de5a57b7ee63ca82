"""Reading repodata."""
import json as _json
from ..check import prop, EXPL
from .util import *
from .order import parse_hook

SHAPE = {'Repodata': ['info', 'packages', 'packages.conda', 'repodata_version', 'removed'],
         'RepodataInfo': ['subdir'],
         'Record': ['build', 'build_number', 'depends', 'md5', 'name', 'sha256', 'size', 'timestamp', 'version']}
FIELD = {'packages.conda': 'packages_conda'}
FILE = ('sv', 'content of the file')


class Run:
    """one document being read: what is in it and what goes wrong"""

    def __init__(self, I, shapes=None):
        self.I = I
        self.fault = None          # the one thing that fails
        self.gone = []             # required fields the document lacks
        self.borrow = None         # a text was asked for in a form only some documents have
        self.raw = False           # the file was read as bytes
        self.ended = None          # has the rest of the document been looked at
        self.shapes = shapes or SHAPE
        self.n = 0
        self.odd = False
        self.sizes = {}            # entries of the document's tables

    def fails(self, what):
        if self.fault is None and self.I.choose(2, ('fault', what)):
            self.fault = what
            return True
        return False

    def keys(self, name, path):
        """the keys of an object in the document"""
        I = self.I
        ks = list(self.shapes.get(name) or [])
        if name == 'HashMap':
            self.sizes[path] = I.choose(3, ('entries', path))
            return ['entry%d' % i for i in range(self.sizes[path])]
        if name not in self.shapes:
            raise Unknown('document of ' + name)
        if self.odd:
            return ks
        k = I.choose(4, ('object', path))
        if k == 1:
            self.odd = True
            ks.reverse()
        elif k == 2:
            self.odd = True
            self.gone.append(path + (ks.pop(I.choose(len(ks), ('missing', path))),))
            if I.choose(2, ('missing and other', path)):
                ks.append('a key of nobody')
        elif k == 3:
            self.odd = True
            ks.insert((0, len(ks))[I.choose(2, ('unknown', path))], 'a key of nobody')
        return ks


def sess(I):
    s = getattr(I, 'repo', None)
    if s is None:
        s = I.repo = Run(I)
    return s


def hooks_for(c):
    P = c.prog()

    def err(I, dty, why):
        e = [v for v in P.types[dty]['v'] if v['name'] == 'Err'][0]['f'][0][1]
        return I.err(dty, Sym(('err', why), e))

    def find(tm, ty, like=None):
        s = P.types[ty]['s']
        import re
        n = re.sub(r"'\w+", "'_", s)
        fs = [f for f in P.fns if f['tm'] == tm and f['self'] is not None and f.get('blocks') and re.sub(r"'\w+", "'_", P.types[f['self']]['s']) == n]
        return fs[0] if fs else None

    def local(ty):
        t = P.types[ty]
        return t['k'] == 'adt' and t.get('local')

    def read(I, ty, path, dty, de=None):
        """Result<T, E> (of type dty) of reading the value at path"""
        s = sess(I)
        t = P.types[ty]
        if local(ty):
            f = find('serde::de::Deserialize::deserialize', ty)
            if f is None:
                raise Unknown('reading a ' + t['s'])
            return I.call(f['id'], [de or X('de', (path,))])
        if s.fails(('value', path)):
            return err(I, dty, path)
        if t['k'] == 'ref':
            s.borrow = path
            if I.atom(('escaped', path)):
                return err(I, dty, path)
        return I.ok(dty, Sym(('json', path), ty) if t['k'] != 'ref' else Str(('json', path)))

    def payty(dty, name='Ok'):
        return [v for v in P.types[dty]['v'] if v['name'] == name][0]['f'][0][1]

    def de_of(I, v):
        v = peel(I, v)
        if isinstance(v, X) and v.kind in ('de', 'mapkey'):
            return v
        if isinstance(v, X) and v.kind in ('missing',):
            return v
        raise Unknown('deserializer')

    def lib_deserialize(I, fn, args, dty):
        d = de_of(I, args[0])
        dty = dty or fn['locals'][0]
        return read(I, fn['self'], d.a[0], dty)

    def struct(I, fn, args, dty):
        """deserialize_struct / deserialize_map (de, [name, fields,] visitor)"""
        s = sess(I)
        d = de_of(I, args[0])
        path = d.a[0]
        if s.fails(('object', path)):
            return err(I, dty, path)
        vt = [a for a in fn['args'] if isinstance(a, int)][-1]
        f = find('serde::de::Visitor::visit_map', vt)
        if f is None:
            raise Unknown('visitor of ' + P.types[vt]['s'])
        name = P.types[payty(dty)]['path'].split('::')[-1] if P.types[payty(dty)]['k'] == 'adt' else '?'
        if I.choose(2, ('form', path)) and name in s.shapes:
            s.odd = True
            g = find('serde::de::Visitor::visit_seq', vt)
            ks = list(s.shapes[name])
            cut = I.choose(len(ks) + 1, ('cut', path))
            s.gone += [path + (k,) for k in ks[cut:]]
            r = I.call(g['id'], [args[-1], ref(X('seqaccess', (path, ref(tuple_of(ks[:cut])), None)))])
        else:
            r = I.call(f['id'], [args[-1], ref(X('mapaccess', (path, ref(tuple_of(s.keys(name, path))))))])
        if is_ok(I, r) and s.fails(('end of object', path)):
            return err(I, dty, path)
        return r

    def tuple_of(ks):
        return X('keys', (tuple(ks), 0))

    def access(I, v, kind):
        v = peel(I, v)
        if isinstance(v, X) and v.kind == kind:
            return v
        raise Unknown(kind)

    def next_key(I, fn, args, dty):
        s = sess(I)
        m = access(I, args[0], 'mapaccess')
        path, kr = m.a
        k = I.getf(kr)
        ks, i = k.a
        if s.fails(('key', path, i)):
            return err(I, dty, path)
        oty = payty(dty)
        if i >= len(ks):
            return I.ok(dty, I.none(oty))
        I.set(kr, X('keys', (ks, i + 1)))
        kt = payty(oty, 'Some')
        if local(kt):
            f = find('serde::de::Deserialize::deserialize', kt)
            r = I.call(f['id'], [X('mapkey', (ks[i],))])
            if not is_ok(I, r):
                return err(I, dty, path)
            return I.ok(dty, I.some(oty, payload(I, r)))
        return I.ok(dty, I.some(oty, Str(('lit', ks[i]))))

    def next_value(I, fn, args, dty):
        m = access(I, args[0], 'mapaccess')
        path, kr = m.a
        ks, i = I.getf(kr).a
        return read(I, payty(dty), path + (ks[i - 1],), dty)

    def next_element(I, fn, args, dty):
        s = sess(I)
        path, kr, _ = access(I, args[0], 'seqaccess').a
        ks, i = I.getf(kr).a
        oty = payty(dty)
        if i >= len(ks):
            return I.ok(dty, I.none(oty))
        I.set(kr, X('keys', (ks, i + 1)))
        t = payty(oty, 'Some')
        rty = next((f['locals'][0] for f in [find('serde::de::Deserialize::deserialize', t)] if f), None)
        r = read(I, t, path + (ks[i],), rty if rty is not None else dty) if rty is not None else None
        if r is None:
            if s.fails(('value', path + (ks[i],))):
                return err(I, dty, path)
            return I.ok(dty, I.some(oty, Sym(('json', path + (ks[i],)), t)))
        if not is_ok(I, r):
            return err(I, dty, path)
        return I.ok(dty, I.some(oty, payload(I, r)))

    def ident(I, fn, args, dty):
        d = de_of(I, args[0])
        vt = [a for a in fn['args'] if isinstance(a, int)][-1]
        f = find('serde::de::Visitor::visit_str', vt)
        if f is None or d.kind != 'mapkey':
            raise Unknown('identifier')
        key = Str(('lit', d.a[0]))
        if d.a[0] == 'a key of nobody':
            # any text that is not one of the keys that a document has
            key = Str(('sv', d.a[0]))
            for ks in sess(I).shapes.values():
                for k in ks:
                    I.f.assume_lang(key.t, ~L.L_lit(k))
        return I.call(f['id'], [args[1], ref(key)])

    def missing(I, fn, args, dty):
        t = P.types[payty(dty)]
        if t['k'] == 'adt' and t['path'] == 'core::option::Option':
            return I.ok(dty, I.none(payty(dty)))
        return err(I, dty, 'missing field')

    def mkerr(I, fn, args, dty):
        return Sym(('err', fn['path']), dty)

    def top(I, fn, args, dty):
        """from_str, from_slice, from_reader"""
        s = sess(I)
        src = args[0]
        v = peel(I, src)
        if isinstance(v, X) and v.kind == 'file':
            if s.fails(('read',)):
                return err(I, dty, 'read')
        else:
            t = I.text(src)
            if t[0] == 'lit':
                try:
                    _json.loads(t[1])
                except ValueError:
                    return err(I, dty, 'syntax')
                raise Unknown('a fixed document')
            if t[0] == 'trim' and t[1] == FILE:
                if not L.L_chars(t[3]) <= L.L_chars(L.cs_of(' \t\r\n')):
                    s.fails(('text around the document that is no blank',))
            elif t != FILE:
                raise Unknown('a document that is not the file')
            if s.raw and 'slice' in fn['path'] and s.fails(('encoding',)):
                return err(I, dty, 'encoding')
        r = read(I, payty(dty), (), dty)
        if is_ok(I, r) and s.fails(('rest of the file',)):
            return err(I, dty, 'trailing')
        s.ended = True
        return r

    def same_path(I, v):
        t = I.text(v)
        if t != ('sv', 'path'):
            raise Unknown('another path')

    def ioerr(I, dty):
        return err(I, dty, 'io')

    def slurp(I, fn, args, dty):
        s = sess(I)
        same_path(I, args[0])
        if s.fails(('open',)):
            return ioerr(I, dty)
        return I.ok(dty, Str(FILE))

    def slurp_raw(I, fn, args, dty):
        r = slurp(I, fn, args, dty)
        sess(I).raw = True
        return r

    def utf8(I, fn, args, dty):
        s = sess(I)
        if not s.raw or I.text(args[0]) != FILE:
            return NotImplemented
        bad = s.fails(('encoding',))
        if 'lossy' in fn['path']:
            return NotImplemented
        return err(I, dty, 'encoding') if bad else NotImplemented

    def fopen(I, fn, args, dty):
        s = sess(I)
        same_path(I, args[0])
        if s.fails(('open',)):
            return ioerr(I, dty)
        return I.ok(dty, X('file', ()))

    def through(I, fn, args, dty):
        return args[-1]

    def readinto(I, fn, args, dty):
        s = sess(I)
        v = peel(I, args[0])
        if not (isinstance(v, X) and v.kind == 'file'):
            return NotImplemented
        if s.fails(('read',)):
            return ioerr(I, dty)
        s.raw = s.raw or fn['path'].endswith('read_to_end')
        b = I.force(args[1])
        w = I.getf(b)
        I.set(b, Str(text_cat(I.text(w), FILE)))
        return I.ok(dty, Sym(('sv', 'bytes read'), payty(dty)))

    def text_cat(a, b):
        return b if a == ('lit', '') else ('cat', (a, b))

    def dnew(I, fn, args, dty):
        s = sess(I)
        v = peel(I, args[0])
        if not (isinstance(v, X) and v.kind == 'file') and I.text(args[0]) != FILE:
            raise Unknown('a document that is not the file')
        if s.ended is None:
            s.ended = False
        return X('de', ((),))

    def dend(I, fn, args, dty):
        s = sess(I)
        s.ended = True
        if s.fails(('rest of the file',)):
            return err(I, dty, 'trailing')
        return I.ok(dty, UNIT)
    def is_map(ty):
        return P.types[ty]['k'] == 'adt' and P.types[ty]['path'] == 'std::collections::hash::map::HashMap'

    def entries(I, v):
        """the entries of a table: those put in, or those of the document"""
        w = peel(I, v)
        if isinstance(w, Sym):
            w = I.force(w)
        if isinstance(w, X) and w.kind == 'hmap':
            return w.a[0]
        if isinstance(w, X) and w.kind == 'opaque' and w.a[0][0] == 'json':
            path, ty = w.a[0][1], w.a[1]
            kt, vt = P.types[ty]['args'][:2]
            s = sess(I)
            if path not in s.sizes:
                s.sizes[path] = I.choose(3, ('entries', path))
            return Seq(tuple(('i', Tup((Str(('json', path + ('name%d' % i,))), Sym(('json', path + ('entry%d' % i,)), vt)))) for i in range(s.sizes[path])))
        raise Unknown('table')

    def map_into(I, fn, args, dty):
        return X('iter', (entries(I, args[0]), 'val'))

    def map_drain(I, fn, args, dty):
        r = map_into(I, fn, args, dty)
        I.set(args[0], X('hmap', (Seq(()),)))
        return r

    def map_refs(I, fn, args, dty):
        return X('iter', (Seq(tuple(('i', Tup((ref(I.force(x).fs[0]), ref(I.force(x).fs[1])))) for x in I.items(entries(I, args[0])))), 'val'))

    def map_new(I, fn, args, dty):
        return X('hmap', (Seq(()),))

    def map_insert(I, fn, args, dty):
        s = entries(I, args[0])
        I.set(args[0], X('hmap', (Seq(s.segs + (('i', Tup((args[1], args[2]))),)),)))
        return X('opaque', (('previous', 0), dty))

    def map_from(I, fn, args, dty):
        from ..models import _fromiter
        return X('hmap', (_fromiter(I, fn, args, dty),))

    def map_len(I, fn, args, dty):
        return len(I.items(entries(I, args[0])))

    def same_key(I, a, b):
        x, y = I.text(a), I.text(b)
        return x == y or I.str_eq(x, y)

    def map_find(I, fn, args, dty):
        es = I.items(entries(I, args[0]))
        for i, e in enumerate(es):
            if same_key(I, I.force(e).fs[0], args[1]):
                return es, i
        return es, None

    def map_remove(I, fn, args, dty):
        es, i = map_find(I, fn, args, dty)
        if i is not None:
            I.set(args[0], X('hmap', (Seq(tuple(('i', e) for j, e in enumerate(es) if j != i)),)))
        return I.none(dty) if i is None else I.some(dty, I.force(es[i]).fs[1])

    def map_get(I, fn, args, dty):
        es, i = map_find(I, fn, args, dty)
        return I.none(dty) if i is None else I.some(dty, ref(I.force(es[i]).fs[1]))

    def map_has(I, fn, args, dty):
        return map_find(I, fn, args, dty)[1] is not None

    def map_retain(I, fn, args, dty):
        out = []
        for e in I.items(entries(I, args[0])):
            k, v = I.force(e).fs
            cell = ref(v)
            if I.force(I.callv(args[1], [ref(k), cell])):
                out.append(('i', Tup((k, I.get(cell)))))
        I.set(args[0], X('hmap', (Seq(tuple(out)),)))
        return UNIT

    def map_clear(I, fn, args, dty):
        I.set(args[0], X('hmap', (Seq(()),)))
        return UNIT

    def map_empty(I, fn, args, dty):
        return not I.items(entries(I, args[0]))

    def map_keys(I, fn, args, dty):
        es = [I.force(e).fs for e in I.items(entries(I, args[0]))]
        nm = fn['path'].split('::')[-1]
        k = 1 if 'values' in nm else 0
        return X('iter', (Seq(tuple(('i', e[k] if nm.startswith('into') else ref(e[k])) for e in es)), 'val'))

    def map_extend(I, fn, args, dty):
        from ..models import _fromiter
        es = I.items(entries(I, args[0]))
        for e in I.items(_fromiter(I, fn, [args[1]], dty)):
            k = I.force(e).fs[0]
            es = [x for x in es if not same_key(I, I.force(x).fs[0], k)] + [e]
        I.set(args[0], X('hmap', (Seq(tuple(('i', e) for e in es)),)))
        return UNIT

    def stream(I, fn, args, dty):
        return X('dstream', (ref(X('keys', ((), 0))),))

    def stream_next(I, fn, args, dty):
        s = sess(I)
        v = peel(I, args[0])
        if not (isinstance(v, X) and v.kind == 'dstream'):
            raise Unknown('stream of documents')
        n = I.getf(v.a[0]).a[1]
        I.set(v.a[0], X('keys', ((), n + 1)))
        rty = payty(dty, 'Some')
        if n == 0:
            if s.fails(('an empty file',)):
                return I.none(dty)
            return I.some(dty, read(I, payty(rty), (), rty))
        s.ended = True
        return I.some(dty, err(I, rty, 'trailing')) if n == 1 and s.fails(('rest of the file',)) else I.none(dty)

    def from_value(I, fn, args, dty):
        s = sess(I)
        v = peel(I, args[0])
        t = v.t if isinstance(v, Sym) else v.a[0] if isinstance(v, X) and v.kind == 'opaque' else None
        if t is None or t[0] != 'json':
            raise Unknown('value')
        if s.fails(('value', t[1])):
            return err(I, dty, t[1])
        return I.ok(dty, Sym(t, payty(dty)))

    def next_entry(I, fn, args, dty):
        s = sess(I)
        path, kr = access(I, args[0], 'mapaccess').a
        ks, i = I.getf(kr).a
        if s.fails(('key', path, i)):
            return err(I, dty, path)
        oty = payty(dty)
        if i >= len(ks):
            return I.ok(dty, I.none(oty))
        I.set(kr, X('keys', (ks, i + 1)))
        tup = payty(oty, 'Some')
        kt, vt = P.types[tup]['a']
        f = find('serde::de::Deserialize::deserialize', vt) if local(vt) else None
        r = read(I, vt, path + (ks[i],), f['locals'][0] if f else dty) if f else None
        if f is None:
            if s.fails(('value', path + (ks[i],))):
                return err(I, dty, path)
            val = Sym(('json', path + (ks[i],)), vt)
        else:
            if not is_ok(I, r):
                return err(I, dty, path)
            val = payload(I, r)
        return I.ok(dty, I.some(oty, Tup((Str(('json', path + ('name' + ks[i][5:],))), val))))
    MAPS = {'remove': map_remove, 'get': map_get, 'contains_key': map_has, 'retain': map_retain, 'clear': map_clear, 'is_empty': map_empty, 'keys': map_keys, 'values': map_keys,
            'into_keys': map_keys, 'into_values': map_keys}
    h = parse_hook(c)
    for f in P.fns:
        p = f['path']
        last = p.split('::')[-1]
        if f['local']:
            continue
        if p.startswith('serde::de::impls::') and f['tm'] == 'serde::de::Deserialize::deserialize' or p.startswith('<serde::de::ignored_any'):
            if last == 'deserialize':
                h[p] = lib_deserialize
        elif f['crate'] in ('serde', 'serde_json'):
            if f['tm'] in ('serde::de::Deserializer::deserialize_struct', 'serde::de::Deserializer::deserialize_map'):
                h[p] = struct
            elif f['tm'] == 'serde::de::Deserializer::deserialize_identifier':
                h[p] = ident
            elif last in ('next_key', 'next_value', 'next_element', 'next_entry') and (f['tm'] or '').startswith('serde::de::'):
                h[p] = {'next_entry': next_entry, 'next_key': next_key, 'next_value': next_value, 'next_element': next_element}[last]
            elif p == 'serde_json::value::from_value':
                h[p] = from_value
            elif p == 'serde::private::de::missing_field':
                h[p] = missing
            elif (f['tm'] or '').startswith('serde::de::Error::'):
                h[p] = mkerr
            elif p in ('serde_json::de::from_str', 'serde_json::de::from_slice', 'serde_json::de::from_reader'):
                h[p] = top
            elif p.startswith('serde_json::de::Deserializer::<') and last in ('from_str', 'from_slice', 'from_reader'):
                h[p] = dnew
            elif p.startswith('serde_json::de::Deserializer::<') and last == 'into_iter':
                h[p] = stream
            elif 'StreamDeserializer' in p and f['tm'] == 'core::iter::traits::iterator::Iterator::next':
                h[p] = stream_next
            elif p.startswith('serde_json::de::Deserializer::<') and last == 'end':
                h[p] = dend
        elif f['self'] is not None and is_map(f['self']) and f['tm'] in ('core::iter::traits::collect::IntoIterator::into_iter', 'core::iter::traits::collect::FromIterator::from_iter',
                                                                         'core::default::Default::default'):
            h[p] = {'into_iter': map_into, 'from_iter': map_from, 'default': map_new}[last]
        elif p.startswith('std::collections::hash::map::HashMap::<') and last in ('new', 'with_capacity', 'insert', 'iter', 'drain', 'len'):
            h[p] = {'insert': map_insert, 'iter': map_refs, 'drain': map_drain, 'len': map_len}.get(last, map_new)
        elif p.startswith('std::collections::hash::map::HashMap::<') and last in MAPS:
            h[p] = MAPS[last]
        elif f['self'] is not None and is_map(f['self']) and f['tm'] == 'core::iter::traits::collect::Extend::extend':
            h[p] = map_extend
        elif p == 'std::fs::read_to_string':
            h[p] = slurp
        elif p == 'std::fs::read':
            h[p] = slurp_raw
        elif p in ('core::str::converts::from_utf8', 'alloc::string::String::from_utf8', 'alloc::string::String::from_utf8_lossy'):
            h[p] = utf8
        elif p == 'std::fs::File::open':
            h[p] = fopen
        elif 'BufReader' in p and last in ('new', 'with_capacity'):
            h[p] = through
        elif f['tm'] in ('std::io::Read::read_to_string', 'std::io::Read::read_to_end'):
            h[p] = readinto
    return h


def judge(c, I, r, name, vals):
    """problems of a read; vals(value): [(path, value)] of its fields"""
    s = sess(I)
    ok = is_ok(I, r)
    bad_version = any(k[0] == 'parses' and not v for k, v in I.f.atoms.items())
    if ok:
        if s.fault is not None:
            return [('fault:%s:%s' % (name, fl(s.fault)), 'a %s is answered although reading it failed at %s' % (name, fl(s.fault)))]
        if s.gone:
            return [('missing:%s:%s' % (name, '.'.join(s.gone[0])), 'a %s is answered although the document has no %s' % (name, '.'.join(s.gone[0])))]
        if bad_version:
            return [('version:%s' % name, 'a %s is answered although its version is malformed' % name)]
        if s.ended is False:
            return [('trailing:%s' % name, 'the rest of the file after the document is never looked at')]
        return [x for x in (one(c, I, name, p, v) for p, v in vals(payload(I, r))) if x]
    if s.fault is None and not s.gone and not bad_version:
        if s.borrow is not None and not I.f.atoms.get(('escaped', s.borrow)):
            raise Unknown('refused without a cause')
        why = 'only because a text is written with escapes (%s)' % '.'.join(s.borrow) if s.borrow else 'although nothing is wrong with it'
        return [('refused:%s' % name, 'a %s is refused %s' % (name, why))]
    return []


def fl(x):
    return ' '.join('.'.join(map(str, y)) if isinstance(y, tuple) else str(y) for y in x)


def one(c, I, name, path, v):
    t = c.prog().types
    w = peel(I, v)
    if isinstance(w, Sym) and w.t == ('json', path) or isinstance(w, X) and w.kind == 'opaque' and w.a[0] == ('json', path):
        return None
    if isinstance(w, X) and w.kind == 'hmap':
        n = sess(I).sizes.get(path)
        got = []
        for x in I.items(w.a[0]):
            k, v = I.force(x).fs
            kp = I.text(k)
            if kp[0] == 'json' and len(kp[1]) == len(path) + 1 and kp[1][:-1] != path:
                return 'entries:%s:%s' % (name, '.'.join(path)), 'the table %s is answered with an entry of %s' % ('.'.join(path), '.'.join(kp[1][:-1]))
            if kp[0] != 'json' or kp[1][:-1] != path:
                raise Unknown('table entry')
            ep = path + ('entry' + kp[1][-1][4:],)
            y = peel(I, v)
            if isinstance(y, Adt):
                pass
            elif not (isinstance(y, Sym) and y.t == ('json', ep)):
                raise Unknown('table value')
            got.append(ep)
        if n is not None and sorted(got) != [path + ('entry%d' % i,) for i in range(n)]:
            return 'entries:%s:%s' % (name, '.'.join(path)), 'of %d entries of %s, %d are answered' % (n, '.'.join(path), len(got))
        return None
    if isinstance(w, X) and w.kind == 'opaque':
        return 'value:%s:%s' % (name, '.'.join(path)), 'the field %s of a %s is not the document\'s value' % ('.'.join(path), name)
    if isinstance(w, Adt) and t[w.ty].get('local') and t[w.ty]['path'].split('::')[-1] == 'Version':
        tx = I.text(I.call(c.anchors().method('Version', 'as_str'), [ref(w)]))
        if tx == ('json', path):
            return None
        return 'value:%s:%s' % (name, '.'.join(path)), 'the version of a %s is read from another text than the document\'s' % name
    if isinstance(w, (Str, Lin)) and (w.t if isinstance(w, Str) else w.base) == ('json', path) and (isinstance(w, Str) or w.k == 0):
        return None
    if isinstance(w, Seq) and ('json', path) in [x[1] for x in w.segs if x[0] != 'i'] and len(w.segs) == 1:
        return None
    if isinstance(w, Adt) and t[w.ty].get('local'):
        return None                     # its own fields are listed
    if isinstance(w, (Sym, Str, Lin, int, Seq)):
        return 'value:%s:%s' % (name, '.'.join(path)), 'the field %s of a %s is not the document\'s value' % ('.'.join(path), name)
    raise Unknown('value of %s: %r' % ('.'.join(path), w))


EXPL['C27'] = ('The compiler-expanded readers of Repodata, RepodataInfo and Record and read_repodata are run on every document shape up to one deviation (a required field missing, keys reordered, unknown keys, '
               'array form) and with at most one failure at any point (opening, reading, any key, any value, the end of an object or of the file): an answer is only allowed when nothing failed, and its fields must be the document\'s values.')


@prop('C27')
def c27(c):
    A = c.anchors()
    P = c.prog()
    h = hooks_for(c)
    RD, RC, RI = A.adt('Repodata'), A.adt('Record'), A.adt('RepodataInfo')

    def flds(v, ty, name, base=()):
        ns = [n for n, _ in P.types[ty]['v'][0]['f']]
        for k in SHAPE[name]:
            f = FIELD.get(k, k)
            if f not in ns:
                raise Unknown('no field ' + f)
            yield base + (k,), v.fs[ns.index(f)]

    def vals_repo(I, v):
        v = I.deref_all(v)
        out = list(flds(v, RD, 'Repodata'))
        info = I.deref_all(out[0][1])
        return out[1:] + list(flds(info, RI, 'RepodataInfo', ('info',)))
    rr = A.fn('read_repodata')

    def run(I):
        I.repo = Run(I)
        try:
            r = I.call(rr, [Str(('sv', 'path'))])
        except Panic as e:
            return [('panic:read_repodata', 'reading repodata panics: %s (%s)' % (e.msg, fl(I.repo.fault or ('no failure',))))]
        return judge(c, I, r, 'Repodata', lambda v: vals_repo(I, v))
    c.explore('a repodata file is answered only when it was read completely', run, h, loops=14, need=60)
    for ty, name in ((RC, 'Record'), (RI, 'RepodataInfo'), (RD, 'Repodata')):
        fs = [f for f in P.fns if f['tm'] == 'serde::de::Deserialize::deserialize' and f['self'] == ty and f.get('blocks') and 'serde_json::de' in P.types[f['locals'][1]]['s']
              or f['tm'] == 'serde::de::Deserialize::deserialize' and f['self'] == ty and f.get('blocks') and 'serde_json::Deserializer' in P.types[f['locals'][1]]['s']]
        if not fs:
            c.violation('anchor:%s' % name, 'reading repodata does not read any %s' % name)
            continue

        def run2(I, f=fs[0], ty=ty, name=name):
            I.repo = Run(I)
            try:
                r = I.call(f['id'], [X('de', ((),))])
            except Panic as e:
                return [('panic:%s' % name, 'reading a %s panics: %s' % (name, e.msg))]
            vals = (lambda v: vals_repo(I, v)) if ty == RD else (lambda v: list(flds(I.deref_all(v), ty, name)))
            return judge(c, I, r, name, vals)
        c.explore('a %s is answered only when all of it was read' % name, run2, h, loops=24, need=10)
    pk = [(n, t) for n, t in P.types[RD]['v'][0]['f'] if n in ('packages', 'packages_conda')]
    ok = all(P.types[t]['k'] == 'adt' and RC in P.types[t].get('args', []) for _, t in pk)
    c.fact('the package tables hold Record values, so every record of the file goes through the reader above', ok, len(pk), [P.types[t]['s'] for _, t in pk])
    c.note('serde_json answers an error for every malformed document, and its readers of maps, lists, texts and numbers read every entry or answer an error')
