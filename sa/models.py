"""Models of the standard-library functions the crate calls, on abstract values.

A model takes (I, st, a, c): interpreter, state, argument terms, call description;
it returns (value, state) or None when no execution continues.
"""
import re
import struct
from terms import *
import terms

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


class Und(Exception):
    pass


_norm = {}


def norm(path, trait=None):
    """candidate model names for an external path, most specific first"""
    key = (path, trait)
    if key in _norm:
        return _norm[key]
    p = path
    out = []
    m = re.search(r'::([A-Za-z_0-9]+)$', p)
    name = m.group(1) if m else p
    head = p[:m.start()] if m else ''
    selfs = None
    tr = (trait or '').split('<')[0].split('::')[-1]
    mm = re.search(r'<impl (.*)>$', head)
    m2 = re.match(r'^<(.*)>$', head)
    if mm:
        body = mm.group(1)
        if ' for ' in body:
            t, s = body.split(' for ', 1)
            tr = tr or t.split('<')[0].split('::')[-1]
            selfs = s
        else:
            selfs = body
    elif m2:
        body = m2.group(1)
        if ' as ' in body:
            s, t = body.split(' as ', 1)
            selfs = s
            tr = tr or t.split('<')[0].split('::')[-1]
        else:
            selfs = body
    else:
        selfs = re.sub(r'::<.*>$', '', head)
    s = selfs.strip()
    s = re.sub(r"^&('[a-z]+ )?(mut )?", '', s)
    if s.startswith('['):
        s = 'slice'
    s = re.sub(r'<.*', '', s).split('::')[-1]
    out.append(s + '::' + name)
    if tr:
        out.append(tr + '::' + name)
    out.append('*::' + name)
    _norm[key] = out
    return out


# ------------------------------------------------------------------ helpers
def mkmap(kind, items):
    l = [kind]
    for k, v in items:
        l += [k, v]
    return terms._mk('map', *l)


def entries(m):
    return list(zip(m.a[1::2], m.a[2::2]))


def klt(a, b):
    """order of two keys: TRUE/FALSE diagram, or opaque"""
    if a is b:
        return FALSE
    if a in RANK and b in RANK:
        return B(RANK[a] < RANK[b])
    if a.op == 'str' and b.op == 'str':
        return B(a.a[0] < b.a[0])
    if a.op == 'tuple' and b.op == 'tuple' or (a.op == 'adt' and b.op == 'adt'):
        if a.op == 'adt':
            if a.a[1] != b.a[1]:
                return B(a.a[1] < b.a[1])
            xs, ys = a.a[2:], b.a[2:]
        else:
            xs, ys = a.a, b.a
        r = FALSE
        for x, y in reversed(list(zip(xs, ys))):
            r = or_(klt(x, y), and_(eq(x, y), r))
        return r
    if _isint(a) and _isint(b):
        return lt(a, b)
    return strlt(a, b)


def _isint(t):
    return t.op in ('k', 'lin', 'len', 'wrap', 'bits') or TYPEOF.get(t, ('?',))[0] == 'int'


def strlt(a, b):
    def f(a, b):
        if a is b:
            return FALSE
        if a.op == 'str' and b.op == 'str':
            return B(a.a[0] < b.a[0])
        if a in RANK and b in RANK:
            return B(RANK[a] < RANK[b])
        if a.id < b.id:
            return lit(terms._mk('slt', a, b))
        return and_(not_(lit(terms._mk('slt', b, a))), not_(eq(a, b)))
    return lift(f, a, b)


def deep(I, st, k):
    """a key: references inside are looked through"""
    v = I.loadd(st, k)

    def f(v):
        if v.op == 'tuple':
            return tup(*[deep(I, st, x) for x in v.a])
        if v.op == 'adt' and len(v.a) > 2:
            return adt(v.a[0], v.a[1], *[deep(I, st, x) for x in v.a[2:]])
        return v
    return lift(f, v)


def refmap(I, st, r):
    """[(guard state, ref to map, map value)] for a reference to a map"""
    v = I.loadd(st, r)
    while r.op == 'ref' and I.load(st, r).op == 'ref':
        r = I.load(st, r)
    return r, v


def perleaf(I, st, v, fn):
    """run fn(leaf, state) for every alternative of v, join the results"""
    v = restrict(v, st.pc)
    if v.op != 'ite':
        if v is DEAD:
            return None
        return fn(v, st)
    s1, s0 = I.branch(st, lit(v.a[0]))
    outs = []
    if s1 is not None:
        outs.append(perleaf(I, s1, v.a[1], fn))
    if s0 is not None:
        outs.append(perleaf(I, s0, v.a[2], fn))
    return I.joinv(outs)


def panic(I, st, kind, detail=None):
    I.panics.append((st.pc, kind, I.frames[-1] if I.frames else '', I.cursp, detail))
    return None


def split_some(I, st, v, key='Option', var=1):
    """(state where v is the variant, payload, state where it is not)"""
    nv = NVAR[key]
    c = isv(v, var, nv)
    s1, s0 = I.branch(st, c)
    return s1, s0


def payload(v, st, key, var, i=0):
    return restrict(fld(v, key, var, i), st.pc)


# ------------------------------------------------------------------ identities
def ident(I, st, a, c):
    return a[0], st


for _n in ('Deref::deref', 'DerefMut::deref_mut', 'Vec::as_slice', 'Vec::as_mut_slice', 'String::as_str',
           'str::as_bytes', 'String::as_bytes', 'slice::as_slice', 'Borrow::borrow', 'BorrowMut::borrow_mut',
           'AsRef::as_ref', 'AsMut::as_mut', 'hint::must_use', 'String::into_bytes', 'String::into_boxed_str',
           'Vec::into_boxed_slice', 'String::as_mut_str', 'Box::new', 'Box::leak', 'Box::into_raw', 'Box::from_raw', 'Rc::new',
           'Arc::new', 'Cell::new', 'RefCell::new', 'slice::into_vec', 'array::as_slice', 'GenericArray::as_slice',
           'Box::pin', 'Cow::into_owned', 'Cow::from', 'Wrapping', 'hint::black_box', 'convert::identity',
           'str::as_str', 'slice::as_ref', 'str::as_ref', 'Path::new', 'bool::clone', 'Option::as_deref', 'Option::as_deref_mut',
           'array::from', 'BufWriter::new', 'Vec::leak'):
    MODELS[_n] = ident


@model('Clone::clone', 'ToOwned::to_owned', 'slice::to_vec', 'str::to_string', 'String::to_string', 'str::to_owned',
       'slice::to_owned', 'Option::cloned', 'Option::copied', 'String::from', 'Vec::from', 'str::into_string', 'str::into')
def m_clone(I, st, a, c):
    v = I.load(st, a[0])
    n = c['n']
    if n in ('cloned', 'copied'):
        def f(x):
            if x.op == 'adt' and x.a[1] == 1:
                return some(I.loadd(st, x.a[2]))
            return x
        return lift(f, a[0]), st
    if v.op == 'ref':
        v = I.loadd(st, v)
    return v, st


@model('Into::into', 'From::from', 'TryInto::try_into', 'TryFrom::try_from')
def m_into(I, st, a, c):
    v = a[0]
    to = c.get('ret')
    tryk = c['n'] in ('try_into', 'try_from')
    if tryk:
        to_t = I.F.types[to]
        to = to_t['a'][0] if to_t['k'] == 'adt' and to_t['a'] else None
        if to is None:
            return opq('try_from'), st
    # conversions with an impl in the crate
    want = I.F.selfkey(to) if to is not None else None
    im = None
    argk = I.F.tystr(c['argty'][0]) if c.get('argty') else ''
    for k2 in I.F.impls:
        if k2['trait'].split('<')[0] == ('std::convert::TryFrom' if tryk else 'std::convert::From') and I.F.selfkey(k2['self']) == want:
            it = [x for x in k2['items'] if x[2] == ('try_from' if tryk else 'from')]
            if it:
                f = I.F.fns.get(it[0][1])
                if f and I.F.tystr(f['body']['locals'][1][0]) == argk:
                    im = f
    if im is not None:
        return I.run(im, [v], st)
    if tryk:
        t = I.F.tyof(to)
        v = I.loadd(st, v)
        if t[0] == 'int' and v.op != 'opq':
            lo, hi = INT_RANGE[t[1]]
            okc = and_(le(K(lo), v), le(v, K(hi)))
            return ite(okc, ok(v), err(adt('core::num::error::TryFromIntError', 0, UNIT))), st
        return (ok(v) if t[0] != 'int' else opq('try_from')), st
    if I.F.types[to]['k'] == 'prim':
        t = I.F.tyof(to)
        if t[0] == 'float':
            fr = I.F.tyof(c['argty'][0]) if c.get('argty') else None
            if fr and fr[0] == 'int':
                return I.i2f(t[1], v), st
            return I.f2f(fr[1] if fr else 'f32', t[1], v), st
        if t[0] == 'int':
            fr = I.F.tyof(c['argty'][0]) if c.get('argty') else None
            if fr == ('bool',):
                return ite(asb(v), K(1), K(0)), st
            return wrap(t[1], v), st
    if want in ('alloc::string::String', 'alloc::vec::Vec', 'alloc::boxed::Box'):
        return I.loadd(st, v), st
    if want == 'Option' and not argk.startswith('Option'):
        if c.get('argty') and I.F.types[c['argty'][0]]['k'] == 'param' and all(l.op == 'adt' and l.a[0] == 'Option' for l in leaves(v)):
            return v, st
        return some(v), st
    if want and c.get('argty') and I.F.selfkey(c['argty'][0]) == want:
        return v, st
    return app('into:%s' % want, I.loadd(st, v)), st


# ------------------------------------------------------------------ sequences
@model('Vec::new', 'String::new', 'Vec::with_capacity', 'String::with_capacity', 'Vec::default', 'String::default')
def m_newseq(I, st, a, c):
    return EMPTY, st


@model('Vec::push', 'String::push', 'VecDeque::push_back')
def m_push(I, st, a, c):
    x = a[1]
    if c['p'].endswith('String::push'):
        pass
    I.store(st, a[0], lambda old: append(old, [e_(x)]))
    return UNIT, st


@model('Vec::extend_from_slice', 'String::push_str', 'Vec::append', 'Extend::extend', 'Vec::extend', 'String::extend')
def m_extend(I, st, a, c):
    v = I.loadd(st, a[1])
    if any(x.op == 'map' for x in leaves(I.loadd(st, a[0]))):
        xs, st = (v, st) if v.op == 'seq' else collect_items(I, st, into_iter(I, st, a[1]))

        def more(xs, s):
            for x in segs_of(xs):
                if x.op != 'e':
                    raise Und('a map extended with a symbolic sequence')
                p = x.a[0]
                if p.op == 'ref':
                    p = I.loadd(s, p)
                if p.op != 'tuple':
                    p = tup(fld(p, 'tuple', 0, 0), fld(p, 'tuple', 0, 1))
                y = I.loadd(s, p.a[1]) if p.a[1].op == 'ref' and I.loadd(s, p.a[1]).op in ('k', 'lin', 'sym') else p.a[1]
                r, m = refmap(I, s, a[0])
                res = perleaf(I, s, m, lambda m, s2: (map_insert(I, s2, m, deep(I, s2, p.a[0]), y)[0], s2))
                s = res[1]
                I.store(s, r, res[0])
            return UNIT, s
        return perleaf(I, st, xs, more)
    if v.op in ('iter', 'adt', 'map', 'ref') or (v.op == 'ite' and any(l.op in ('iter', 'adt') for l in leaves(v))):
        it = into_iter(I, st, a[1])
        acc = collect_items(I, st, it)
        xs, st = acc
        I.store(st, a[0], lambda old: append_any(I, st, old, xs))
        return UNIT, st
    cur = I.loadd(st, a[0])
    if cur.op == 'map':
        raise Und('extend map')
    I.store(st, deref1(I, st, a[0]), lambda old: append(old, segs_of(v)))
    if c['n'] == 'append':
        I.store(st, a[1], EMPTY)
    return UNIT, st


def append_any(I, st, old, xs):
    """extend with a collected sequence of items (elements may be references to Copy values)"""
    ys = []
    for s in segs_of(xs):
        if s.op == 'e' and s.a[0].op == 'ref':
            s = e_(I.loadd(st, s.a[0]))
        ys.append(s)
    return append(old, ys)


def deref1(I, st, r):
    while r.op == 'ref' and I.load(st, r).op == 'ref':
        r = I.load(st, r)
    return r


@model('Vec::clear', 'String::clear', 'BTreeMap::clear', 'HashMap::clear', 'VecDeque::clear')
def m_clear(I, st, a, c):
    I.store(st, a[0], lambda old: lift(lambda o: mkmap(o.a[0], []) if o.op == 'map' else EMPTY, old))
    return UNIT, st


@model('Vec::len', 'String::len', 'slice::len', 'str::len', 'BTreeMap::len', 'HashMap::len', 'VecDeque::len')
def m_len(I, st, a, c):
    return I.length(I.loadd(st, a[0])), st


@model('ExactSizeIterator::len', 'Iterator::count')
def m_itlen(I, st, a, c):
    v = I.loadd(st, a[0]) if a[0].op == 'ref' else a[0]
    ls = leaves(v)
    if ls and all(x.op == 'str_chars' for x in ls):
        def f(x):
            s = x.a[0]
            if s.op == 'str':
                return K(len(s.a[0].decode('utf-8', 'replace')) if isinstance(s.a[0], bytes) else len(s.a[0]))
            t = terms._mk('nchars', s)
            TYPEOF.setdefault(t, ('int', 'usize'))
            return t
        return lift(f, v), st
    it = into_iter(I, st, a[0])
    xs, st = collect_items(I, st, it)
    return I.length(xs), st


@model('Vec::is_empty', 'String::is_empty', 'slice::is_empty', 'str::is_empty', 'BTreeMap::is_empty', 'HashMap::is_empty', 'VecDeque::is_empty')
def m_isempty(I, st, a, c):
    return eq(I.length(I.loadd(st, a[0])), K(0)), st


@model('Error::kind')
def m_kind(I, st, a, c):
    e = I.loadd(st, a[0])

    def f(x):
        if x.op != 'sym' or not str(x.a[0]).startswith('ioerror'):
            return terms._mk('opq', 'kind of an error', x)
        ks = sym('kind of ' + str(x.a[0]), ('int', 'u8'))
        terms.BOUND[ks] = (0, 41)
        r = adt('ErrorKind', 41)
        for j in range(40, -1, -1):
            r = ite(eq(ks, K(j)), adt('ErrorKind', j), r)
        return r
    return lift(f, e), st


@model('Vec::capacity', 'String::capacity')
def m_capacity(I, st, a, c):
    return opq('capacity'), st


@model('Vec::reserve', 'String::reserve', 'Vec::shrink_to_fit', 'Vec::reserve_exact')
def m_nop(I, st, a, c):
    return UNIT, st


@model('vec::from_elem')
def m_from_elem(I, st, a, c):
    n = unbits(a[1]) or a[1]
    def f(n):
        if isk(n) and 0 <= n.a[0] <= 4096:
            return terms._mk('seq', *([e_(a[0])] * n.a[0]))
        return terms._mk('repeat', a[0], n)
    return lift(f, n), st


@model('Vec::resize')
def m_resize(I, st, a, c):
    def g(old):
        def f(o, n):
            L = length(o)
            if isk(L) and isk(n):
                if n.a[0] <= L.a[0]:
                    return slice_(o, K(0), n)
                return append(o, [e_(a[2])] * (n.a[0] - L.a[0]))
            if o is EMPTY:
                return terms._mk('repeat', a[2], n)
            return terms._mk('resize', o, n, a[2])
        return lift(f, old, a[1])
    I.store(st, a[0], g)
    return UNIT, st


@model('Vec::truncate', 'String::truncate')
def m_truncate(I, st, a, c):
    def g(old):
        def f(o, n):
            L = length(o)
            if isk(L) and isk(n):
                return slice_(o, K(0), n) if n.a[0] <= L.a[0] else o
            if L is n:
                return o
            if o.op == 'seq':
                # truncate at a segment boundary
                r = slice_(o, K(0), n)
                if r.op != 'slice':
                    return r
            return terms._mk('trunc', o, n)
        return lift(f, old, a[1])
    I.store(st, a[0], g)
    return UNIT, st


@model('Vec::remove', 'VecDeque::remove')
def m_remove(I, st, a, c):
    old = I.loadd(st, a[0])
    r = deref1(I, st, a[0])

    def f(o, s):
        n = unbits(a[1]) or a[1]
        ss = segs_of(o)
        if isk(n) and n.a[0] < len(ss) and all(x.op == 'e' for x in ss[:n.a[0] + 1]):
            x = ss[n.a[0]].a[0]
            I.store(s, r, seq(ss[:n.a[0]] + ss[n.a[0] + 1:]))
            return x, s
        if isk(n) and all(x.op == 'e' for x in ss):
            return panic(I, s, 'remove out of bounds')
        raise Und('Vec::remove at a symbolic position')
    return perleaf(I, st, old, f)


@model('Vec::insert')
def m_vinsert(I, st, a, c):
    def g(old):
        def f(o):
            n = unbits(a[1]) or a[1]
            ss = segs_of(o)
            if isk(n) and n.a[0] <= len(ss) and all(x.op == 'e' for x in ss[:n.a[0]]):
                return seq(ss[:n.a[0]] + [e_(a[2])] + ss[n.a[0]:])
            return opq('Vec::insert')
        return lift(f, old)
    I.store(st, a[0], g)
    return UNIT, st


@model('Vec::pop', 'VecDeque::pop_back', 'VecDeque::pop_front')
def m_pop(I, st, a, c):
    front = c['n'] == 'pop_front'
    old = I.loadd(st, a[0])

    def f(o, s):
        ss = segs_of(o)
        if not ss:
            return NONE, s
        x = ss[0 if front else -1]
        if x.op != 'e':
            raise Und('pop of a symbolic sequence')
        I.store(s, a[0], seq(ss[1:] if front else ss[:-1]))
        return some(x.a[0]), s
    return perleaf(I, st, old, f)


@model('Vec::drain', 'mem::take', 'Vec::split_off')
def m_take(I, st, a, c):
    if c['n'] == 'take':
        v = I.load(st, a[0])
        t = c.get('ret')
        I.store(st, a[0], I.default(t, st))
        return v, st
    if c['n'] == 'drain':
        v = I.loadd(st, a[0])
        if a[1].op == 'adt' and a[1].a[0].endswith('RangeFull'):
            I.store(st, a[0], lambda o: lift(lambda o: mkmap(o.a[0], []) if o.op == 'map' else EMPTY, o))
            return into_iter_val(I, st, v), st
        if a[1].op == 'adt' and not any(l.op == 'map' for l in leaves(v)):
            L = I.length(v)
            lo, hi = range_bounds(I, st, a[1], L)
            st = I.require(st, and_(le(lo, hi), le(hi, L)), 'drain: range out of bounds')
            if st is None:
                return None
            part = slice_(v, lo, hi)
            I.store(st, a[0], append(slice_(v, K(0), lo), segs_of(slice_(v, hi, L))))
            return into_iter_val(I, st, part), st
    if c['n'] == 'split_off':
        v = I.loadd(st, a[0])
        if not any(l.op == 'map' for l in leaves(v)):
            L = I.length(v)
            n = unbits(a[1]) or a[1]
            st = I.require(st, le(n, L), 'split_off: out of bounds')
            if st is None:
                return None
            I.store(st, a[0], lambda o: slice_(v, K(0), n))
            return slice_(v, n, L), st
    raise Und('drain')


@model('HashMap::drain')
def m_hdrain(I, st, a, c):
    v = I.loadd(st, a[0])
    I.store(st, a[0], lambda o: lift(lambda o: mkmap(o.a[0], []), o))
    return into_iter_val(I, st, v), st


@model('mem::replace')
def m_replace(I, st, a, c):
    v = I.load(st, a[0])
    I.store(st, a[0], a[1])
    return v, st


@model('mem::swap')
def m_swap(I, st, a, c):
    x, y = I.load(st, a[0]), I.load(st, a[1])
    I.store(st, a[0], y)
    I.store(st, a[1], x)
    return UNIT, st


@model('mem::drop', 'mem::forget')
def m_drop(I, st, a, c):
    return UNIT, st


@model('Option::take')
def m_otake(I, st, a, c):
    v = I.load(st, a[0])
    I.store(st, a[0], NONE)
    return v, st


@model('Option::replace', 'Option::insert', 'Option::get_or_insert_with', 'Option::get_or_insert')
def m_oreplace(I, st, a, c):
    v = I.load(st, a[0])
    if c['n'] == 'replace':
        I.store(st, a[0], some(a[1]))
        return v, st
    sub_ = I.subref(a[0], ('f', 1, 0, 'Option'))
    if c['n'] == 'insert':
        I.store(st, a[0], some(a[1]))
        return sub_, st
    s1, s0 = split_some(I, st, v)
    outs = []
    if s1 is not None:
        outs.append((sub_, s1))
    if s0 is not None:
        if c['n'] == 'get_or_insert':
            r = (a[1], s0)
        else:
            r = I.callfn(a[1], [], s0)
        if r is not None:
            I.store(r[1], a[0], some(r[0]))
            outs.append((sub_, r[1]))
    return I.joinv(outs)


def elem_ref(I, st, r, i):
    return I.subref(r, ('i', i))


@model('slice::get', 'Vec::get', 'slice::get_mut', 'slice::first', 'slice::last', 'Vec::first', 'Vec::last',
       'slice::last_mut', 'slice::first_mut', 'VecDeque::get', 'VecDeque::back', 'VecDeque::front')
def m_get(I, st, a, c):
    v = I.loadd(st, a[0])
    r = deref1(I, st, a[0])
    L = I.length(v)
    n = c['n']
    if n.startswith('first') or n == 'front':
        i = K(0)
    elif n.startswith('last') or n == 'back':
        i = sub(L, K(1))
    else:
        i = a[1]
        if i.op == 'adt':
            lo, hi = range_bounds(I, st, i, L)
            good = and_(le(lo, hi), le(hi, L))
            return ite(good, some(I.subref(r, ('sl', lo, hi))), NONE), st
    if n.startswith('last') or n == 'back':
        good = not_(eq(L, K(0)))
    else:
        good = lt(i, L)
    good = restrict(good, st.pc)
    if good is FALSE:
        return NONE, st
    if L.op == 'ite' and n.startswith('last'):
        # the index depends on the alternative
        def f(v2, i2):
            return some(I.subref(r, ('i', i2))) if not (isk(i2) and i2.a[0] < 0) else NONE
        return lift(lambda i2: f(v, i2), i), st
    return ite(good, some(I.subref(r, ('i', i))), NONE), st


def range_bounds(I, st, r, L):
    k = r.a[0].split('::')[-1]
    if k == 'Range':
        return r.a[2], r.a[3]
    if k == 'RangeFrom':
        return r.a[2], L
    if k == 'RangeTo':
        return K(0), r.a[2]
    if k == 'RangeFull':
        return K(0), L
    if k == 'RangeInclusive':
        return r.a[2], add(r.a[3], K(1))
    if k == 'RangeToInclusive':
        return K(0), add(r.a[2], K(1))
    raise Und('range')


@model('RangeInclusive::new')
def m_rinc(I, st, a, c):
    return adt('core::ops::range::RangeInclusive', 0, a[0], a[1], FALSE), st


@model('Index::index', 'IndexMut::index_mut')
def m_index(I, st, a, c):
    v = I.loadd(st, a[0])
    r = deref1(I, st, a[0])
    mv = leaves(v)
    if any(l.op == 'map' for l in mv):
        o = m_mapget(I, st, [a[0], a[1]], {'n': 'get'})
        return m_expect(I, o[1], [o[0], STR('index')], c)
    L = I.length(v)
    if a[1].op == 'adt':
        lo, hi = range_bounds(I, st, a[1], L)
        good = and_(le(lo, hi), le(hi, L))
        for k in (lo, hi):
            if v in RANK and isk(k) and k.a[0] > 0:
                good = and_(good, lit(terms._mk('charb', v, k)))
        res = I.subref(r, ('sl', lo, hi))
    else:
        good = lt(a[1], L)
        res = I.subref(r, ('i', a[1]))
    st = I.require(st, good, 'index out of bounds')
    if st is None:
        return None
    return res, st


@model('slice::iter', 'slice::iter_mut', 'Vec::iter', 'Vec::iter_mut', 'BTreeMap::iter', 'BTreeMap::iter_mut', 'HashMap::iter',
       'HashMap::iter_mut', 'Option::iter', 'VecDeque::iter')
def m_iter(I, st, a, c):
    return into_iter(I, st, deref1(I, st, a[0])), st


@model('IntoIterator::into_iter')
def m_into_iter(I, st, a, c):
    return into_iter(I, st, a[0]), st


@model('BTreeMap::keys', 'HashMap::keys', 'BTreeMap::into_keys', 'HashMap::into_keys')
def m_keys(I, st, a, c):
    v = I.loadd(st, a[0])
    return lift(lambda v: terms._mk('iter', *[k for k, _ in ordered(I, v)]) if v.op == 'map' else opq('keys'), v), st


@model('BTreeMap::values', 'HashMap::values', 'BTreeMap::values_mut', 'HashMap::values_mut', 'BTreeMap::into_values', 'HashMap::into_values')
def m_values(I, st, a, c):
    r = deref1(I, st, a[0])
    v = I.loadd(st, a[0])

    def f(v):
        if v.op != 'map':
            return opq('values')
        if c['n'] == 'into_values':
            return terms._mk('iter', *[x for _, x in ordered(I, v)])
        es = entries(v)
        js = horder(I, v)
        return terms._mk('iter', *[I.subref(r, ('mv', j)) for j in js])
    return lift(f, v), st


def horder(I, v):
    """positions in the order of iteration: hash maps have none of their own, I.hash_rev picks one"""
    es = entries(v)
    js = list(range(len(es)))
    if v.a[0] == 'hash' and I.hash_rev:
        if I.hash_rev in ('asc', 'desc'):
            js.sort(key=lambda j: str(RANK.get(es[j][0], terms.show(es[j][0]))), reverse=I.hash_rev == 'desc')
        else:
            js.reverse()
    return js


def ordered(I, v):
    es = entries(v)
    return [es[j] for j in horder(I, v)]


def into_iter(I, st, x):
    """iterator over an owned value, a reference, or an iterator"""
    def f(x):
        if x.op == 'ref':
            v = I.load(st, x)
            if v.op == 'ref':
                return into_iter(I, st, v)
            return lift(lambda v: by_ref(I, st, x, v), v)
        return into_iter_val(I, st, x)
    return lift(f, x)


def alts_split(v, pc, limit=64):
    """a sequence with conditional parts as a diagram over plain sequences"""
    alts = [x for x in segs_of(v) if x.op == 'alt']
    if not alts or len(alts) > 12:
        return v
    n = [0]

    def go(i, pre, pc):
        ss = segs_of(v)
        while i < len(ss) and ss[i].op != 'alt':
            pre = pre + [ss[i]]
            i += 1
        if i == len(ss):
            n[0] += 1
            if n[0] > limit:
                raise Und('too many alternatives of a sequence')
            return seqval(pre)
        c = lit(ss[i].a[0]) if ss[i].a[0].op != 'ite' else ss[i].a[0]
        outs = []
        for d, w in ((c, ss[i].a[1]), (not_(c), ss[i].a[2])):
            p = and_(pc, d)
            if p is FALSE:
                outs.append(None)
                continue
            outs.append(lift(lambda w2: go(i + 1, pre + list(segs_of(w2)), p), alts_split(w, p, limit)))
        if outs[0] is None:
            return outs[1] if outs[1] is not None else DEAD
        if outs[1] is None:
            return outs[0]
        return ite(c, outs[0], outs[1])
    return go(0, [], pc)


def by_ref(I, st, r, v):
    if v.op == 'map':
        es = entries(v)
        js = horder(I, v)
        return terms._mk('iter', *[tup(es[j][0], I.subref(r, ('mv', j))) for j in js])
    if v.op in ('seq', 'arr', 'str', 'be', 'le'):
        def one(w):
            ss = segs_of(w)
            if any(s.op != 'e' for s in ss):
                return adt('SymIt', 0, r, K(0))
            return terms._mk('iter', *[I.subref(r, ('i', K(j))) for j in range(len(ss))])
        return lift(one, alts_split(v, st.pc))
    if v.op == 'adt' and v.a[0] == 'Option':
        return terms._mk('iter', *([I.subref(r, ('f', 1, 0, 'Option'))] if v.a[1] == 1 else []))
    if v.op in ('iter',) or (v.op == 'adt' and v.a[0] in ITADTS):
        return adt('RefIt', 0, r)          # an iterator used by mutable reference
    if v.op == 'adt' and v.a[0].startswith('core::ops::range'):
        return adt('RefIt', 0, r)
    return adt('SymIt', 0, r, K(0))


def into_iter_val(I, st, v):
    def f(v):
        if v.op == 'map':
            return terms._mk('iter', *[tup(k, x) for k, x in ordered(I, v)])
        if v.op in ('seq', 'arr', 'str', 'be', 'le'):
            def one(w):
                ss = segs_of(w)
                if any(s.op != 'e' for s in ss):
                    return adt('SymIt', 0, v, K(0))
                return terms._mk('iter', *[s.a[0] for s in ss])
            return lift(one, alts_split(v, st.pc))
        if v.op == 'adt' and v.a[0] == 'Option':
            return terms._mk('iter', *([v.a[2]] if v.a[1] == 1 else []))
        return v
    return lift(f, v)


ITADTS = {'MapIt', 'FilterIt', 'FilterMapIt', 'EnumIt', 'ZipIt', 'TakeIt', 'SkipIt', 'ChainIt', 'ClonedIt', 'RefIt', 'StepIt',
          'TakeWhileIt', 'SkipWhileIt', 'InspectIt', 'PeekIt', 'FlatIt', 'RevRange', 'SymIt', 'ScanIt'}


def nxt(I, st, r):
    """advance the iterator at place r: (item, state if there is one, state if exhausted)"""
    v = I.load(st, r)
    if v.op == 'ref':
        return nxt(I, st, v)
    v = restrict(v, st.pc)
    if v.op == 'ite':
        s1, s0 = I.branch(st, lit(v.a[0]))
        hs, ns = [], None
        for s, w in ((s1, v.a[1]), (s0, v.a[2])):
            if s is None:
                continue
            I.store(s, r, w)
            it, h, n = nxt(I, s, r)
            if h is not None:
                hs.append((it, h))
            ns = I.merge(ns, n)
        j = I.joinv(hs)
        if j is None:
            return None, None, ns
        return j[0], j[1], ns
    if v.op == 'iter':
        if not v.a:
            return None, None, st
        I.store(st, r, terms._mk('iter', *v.a[1:]))
        return v.a[0], st, None
    if v.op != 'adt':
        raise Und('iteration over an unknown value')
    k = v.a[0]
    sub_ = lambda i: I.subref(r, ('f', 0, i, k))
    if k == 'core::ops::range::Range':
        lo, hi = v.a[2], v.a[3]
        s1, s0 = I.branch(st, lt(lo, hi))
        if s1 is not None:
            I.store(s1, sub_(0), add(lo, K(1)))
        return lo, s1, s0
    if k == 'core::ops::range::RangeInclusive':
        lo, hi, ex = v.a[2], v.a[3], v.a[4]
        s1, s0 = I.branch(st, and_(not_(asb(ex)), le(lo, hi)))
        if s1 is not None:
            I.store(s1, sub_(0), add(lo, K(1)))
        return lo, s1, s0
    if k == 'core::ops::range::RangeFrom':
        I.store(st, sub_(0), add(v.a[2], K(1)))
        return v.a[2], st, None
    if k == 'RefIt':
        return nxt(I, st, v.a[2])
    if k == 'SymIt':
        raise Und('iteration over a sequence of unknown length')
    if k in ('MapIt', 'InspectIt'):
        it, h, n = nxt(I, st, sub_(0))
        if h is None:
            return None, None, n
        if k == 'InspectIt':
            loc = I.newloc(h, it)
            o = I.callfn(I.load(h, sub_(1)), [I.ref(loc)], h, sub_(1))
            return it, (o[1] if o else None), n
        o = I.callfn(I.load(h, sub_(1)), [it], h, sub_(1))
        if o is None:
            return None, None, n
        return o[0], o[1], n
    if k == 'ClonedIt':
        it, h, n = nxt(I, st, sub_(0))
        return (I.loadd(h, it) if h is not None else None), h, n
    if k == 'EnumIt':
        it, h, n = nxt(I, st, sub_(0))
        if h is not None:
            i = I.load(h, sub_(1))
            I.store(h, sub_(1), add(i, K(1)))
            it = tup(i, it)
        return it, h, n
    if k in ('FilterIt', 'FilterMapIt'):
        hs, ns = [], None
        todo = st
        for _ in range(200):
            it, h, n = nxt(I, todo, sub_(0))
            ns = I.merge(ns, n)
            if h is None:
                break
            if k == 'FilterIt':
                loc = I.newloc(h, it)
                o = I.callfn(I.load(h, sub_(1)), [I.ref(loc)], h, sub_(1))
                if o is None:
                    break
                y, s2 = o
                s1, todo = I.branch(s2, asb(y))
                if s1 is not None:
                    hs.append((it, s1))
            else:
                o = I.callfn(I.load(h, sub_(1)), [it], h, sub_(1))
                if o is None:
                    break
                s1, todo = split_some(I, o[1], o[0])
                if s1 is not None:
                    hs.append((payload(o[0], s1, 'Option', 1), s1))
            if todo is None:
                break
        j = I.joinv(hs)
        return (j[0], j[1], ns) if j else (None, None, ns)
    if k == 'ZipIt':
        it, h, n = nxt(I, st, sub_(0))
        if h is None:
            return None, None, n
        it2, h2, n2 = nxt(I, h, sub_(1))
        return (tup(it, it2) if h2 is not None else None), h2, I.merge(n, n2)
    if k == 'ChainIt':
        it, h, n = nxt(I, st, sub_(0))
        if n is None:
            return it, h, None
        it2, h2, n2 = nxt(I, n, sub_(1))
        j = I.joinv([x for x in ((it, h), (it2, h2)) if x[1] is not None])
        return (j[0], j[1], n2) if j else (None, None, n2)
    if k == 'TakeIt':
        n_ = v.a[3]
        s1, s0 = I.branch(st, lt(K(0), n_))
        if s1 is None:
            return None, None, s0
        I.store(s1, sub_(1), sub(n_, K(1)))
        it, h, n = nxt(I, s1, sub_(0))
        return it, h, I.merge(s0, n)
    if k == 'SkipIt':
        n_ = v.a[3]
        if isk(n_):
            cur = st
            ns = None
            for _ in range(n_.a[0]):
                it, cur, n = nxt(I, cur, sub_(0))
                ns = I.merge(ns, n)
                if cur is None:
                    return None, None, ns
            I.store(cur, sub_(1), K(0))
            it, h, n = nxt(I, cur, sub_(0))
            return it, h, I.merge(ns, n)
        raise Und('skip by a symbolic count')
    if k == 'StepIt':
        it, h, n = nxt(I, st, sub_(0))
        if h is None:
            return None, None, n
        step = v.a[3]
        cur, extra = h, None
        res = []
        for _ in range((step.a[0] if isk(step) else 1) - 1):
            _, c2, n2 = nxt(I, cur, sub_(0))
            cur = I.merge(c2, n2)
        return it, cur, n
    if k == 'TakeWhileIt':
        if v.a[4] is TRUE:
            return None, None, st
        it, h, n = nxt(I, st, sub_(0))
        if h is None:
            return None, None, n
        loc = I.newloc(h, it)
        o = I.callfn(I.load(h, sub_(1)), [I.ref(loc)], h, sub_(1))
        s1, s0 = I.branch(o[1], asb(o[0]))
        if s0 is not None:
            I.store(s0, sub_(2), TRUE)
        return it, s1, I.merge(n, s0)
    if k == 'SkipWhileIt':
        if v.a[4] is TRUE:
            return nxt(I, st, sub_(0))
        hs, ns = [], None
        todo = st
        for _ in range(200):
            it, h, n = nxt(I, todo, sub_(0))
            ns = I.merge(ns, n)
            if h is None:
                break
            loc = I.newloc(h, it)
            o = I.callfn(I.load(h, sub_(1)), [I.ref(loc)], h, sub_(1))
            todo, s0 = I.branch(o[1], asb(o[0]))
            if s0 is not None:
                I.store(s0, sub_(2), TRUE)
                hs.append((it, s0))
            if todo is None:
                break
        j = I.joinv(hs)
        return (j[0], j[1], ns) if j else (None, None, ns)
    if k == 'PeekIt':
        pk = v.a[3]

        def done(p, s):
            I.store(s, sub_(1), adt('Option', 0))
            if p.op == 'adt' and p.a[1] == 1:
                return p.a[2]
            return None
        if pk.op == 'adt' and pk.a[1] == 0:
            return nxt(I, st, sub_(0))
        # something has been peeked: it is Option<Option<item>>
        inner = payload(pk, st, 'Option', 1)
        I.store(st, sub_(1), NONE)
        s1, s0 = split_some(I, st, inner)
        return (payload(inner, s1, 'Option', 1) if s1 is not None else None), s1, s0
    if k == 'RevRange':
        lo, hi = v.a[2], v.a[3]
        s1, s0 = I.branch(st, lt(lo, hi))
        x = sub(hi, K(1))
        if s1 is not None:
            I.store(s1, sub_(1), x)
        return x, s1, s0
    if k == 'FlatIt':
        # fields: outer, current
        hs, ns = [], None
        todo = st
        for _ in range(200):
            it, h, n = nxt(I, todo, sub_(1))
            if h is not None:
                hs.append((it, h))
            if n is None:
                todo = None
                break
            o, h2, n2 = nxt(I, n, sub_(0))
            ns = I.merge(ns, n2)
            if h2 is None:
                todo = None
                break
            fn = I.load(h2, sub_(2))
            if fn is not UNIT:
                q = I.callfn(fn, [o], h2, sub_(2))
                if q is None:
                    break
                o, h2 = q
            I.store(h2, sub_(1), into_iter(I, h2, o))
            todo = h2
        j = I.joinv(hs)
        return (j[0], j[1], ns) if j else (None, None, ns)
    # an iterator type of the crate
    key = I.F.trait_impl.get(('core::iter::traits::iterator::Iterator::next', k))
    if key and key in I.F.fns:
        o = I.run(key, [r], st)
        if o is None:
            return None, None, None
        s1, s0 = split_some(I, o[1], o[0])
        return (payload(o[0], s1, 'Option', 1) if s1 is not None else None), s1, s0
    raise Und('iterator ' + k)


def drain(I, st, it, body):
    """body(item, state) -> state, for every item; returns the state afterwards"""
    loc = ('it', I.fresh_id())
    st.mem[loc] = it
    r = I.ref(loc)
    done = None
    cur = st
    for _ in range(600):
        x, h, n = nxt(I, cur, r)
        done = I.merge(done, n)
        if h is None:
            if done is not None:
                done.mem.pop(loc, None)
            return done
        cur = body(x, h)
        if cur is None:
            if done is not None:
                done.mem.pop(loc, None)
            return done
    raise Und('iteration not bounded by the abstract state')


def collect_items(I, st, it):
    loc = ('acc', I.fresh_id())
    st.mem[loc] = EMPTY

    def body(x, s):
        s.mem[loc] = append(s.mem[loc], [e_(x)])
        return s
    s = drain(I, st, it, body)
    if s is None:
        raise Und('collect never finishes')
    v = s.mem.pop(loc)
    return v, s


@model('Iterator::next')
def m_next(I, st, a, c):
    x, h, n = nxt(I, st, a[0])
    outs = []
    if h is not None:
        outs.append((some(x), h))
    if n is not None:
        outs.append((NONE, n))
    return I.joinv(outs)


@model('Iterator::map')
def m_map(I, st, a, c):
    return adt('MapIt', 0, into_iter(I, st, a[0]), a[1]), st


@model('Iterator::filter')
def m_filter(I, st, a, c):
    return adt('FilterIt', 0, into_iter(I, st, a[0]), a[1]), st


@model('Iterator::filter_map')
def m_filtermap(I, st, a, c):
    return adt('FilterMapIt', 0, into_iter(I, st, a[0]), a[1]), st


@model('Iterator::flat_map', 'Iterator::flatten')
def m_flat(I, st, a, c):
    return adt('FlatIt', 0, into_iter(I, st, a[0]), terms._mk('iter'), a[1] if len(a) > 1 else UNIT), st


@model('Iterator::inspect')
def m_inspect(I, st, a, c):
    return adt('InspectIt', 0, into_iter(I, st, a[0]), a[1]), st


@model('Iterator::enumerate')
def m_enum(I, st, a, c):
    return adt('EnumIt', 0, into_iter(I, st, a[0]), K(0)), st


@model('Iterator::cloned', 'Iterator::copied')
def m_itcloned(I, st, a, c):
    return adt('ClonedIt', 0, into_iter(I, st, a[0])), st


@model('Iterator::zip')
def m_zip(I, st, a, c):
    return adt('ZipIt', 0, into_iter(I, st, a[0]), into_iter(I, st, a[1])), st


@model('Iterator::chain')
def m_chain(I, st, a, c):
    return adt('ChainIt', 0, into_iter(I, st, a[0]), into_iter(I, st, a[1])), st


@model('Iterator::take')
def m_ittake(I, st, a, c):
    return adt('TakeIt', 0, into_iter(I, st, a[0]), a[1]), st


@model('Iterator::skip')
def m_skip(I, st, a, c):
    return adt('SkipIt', 0, into_iter(I, st, a[0]), a[1]), st


@model('Iterator::step_by')
def m_stepby(I, st, a, c):
    return adt('StepIt', 0, into_iter(I, st, a[0]), a[1]), st


@model('Iterator::take_while')
def m_takewhile(I, st, a, c):
    return adt('TakeWhileIt', 0, into_iter(I, st, a[0]), a[1], FALSE), st


@model('Iterator::skip_while')
def m_skipwhile(I, st, a, c):
    return adt('SkipWhileIt', 0, into_iter(I, st, a[0]), a[1], FALSE), st


@model('Iterator::peekable')
def m_peekable(I, st, a, c):
    return adt('PeekIt', 0, into_iter(I, st, a[0]), NONE), st


@model('Peekable::peek', 'Peekable::peek_mut')
def m_peek(I, st, a, c):
    v = I.load(st, a[0])
    r = a[0]
    f1 = I.subref(r, ('f', 0, 1, 'PeekIt'))
    cur = I.load(st, f1)
    if cur is NONE:
        x, h, n = nxt(I, st, I.subref(r, ('f', 0, 0, 'PeekIt')))
        outs = []
        if h is not None:
            outs.append((some(x), h))
        if n is not None:
            outs.append((NONE, n))
        o, st = I.joinv(outs)
        I.store(st, f1, some(o))
    item = I.load(st, I.subref(f1, ('f', 1, 0, 'Option')))
    res = lift(lambda o: o if o.op != 'adt' or o.a[1] == 0 else
               some(I.subref(I.subref(f1, ('f', 1, 0, 'Option')), ('f', 1, 0, 'Option'))), item)
    return res, st


@model('Iterator::rev', 'Iterator::by_ref')
def m_rev(I, st, a, c):
    if c['n'] == 'by_ref':
        return adt('RefIt', 0, a[0]), st
    return revit(I, into_iter(I, st, a[0])), st


def revit(I, it):
    def f(v):
        if v.op == 'iter':
            return terms._mk('iter', *reversed(v.a))
        if v.op == 'adt':
            k = v.a[0]
            if k == 'core::ops::range::Range':
                return adt('RevRange', 0, v.a[2], v.a[3])
            if k == 'core::ops::range::RangeInclusive':
                return adt('RevRange', 0, v.a[2], add(v.a[3], K(1)))
            if k in ('MapIt', 'FilterIt', 'FilterMapIt', 'ClonedIt'):
                l = list(v.a)
                l[2] = f(l[2])
                return terms._mk('adt', *l)
            if k == 'EnumIt' and v.a[2].op == 'iter':
                return terms._mk('iter', *reversed([tup(add(v.a[3], K(i)), x) for i, x in enumerate(v.a[2].a)]))
            if k == 'ChainIt':
                return adt('ChainIt', 0, f(v.a[3]), f(v.a[2]))
            if k == 'ZipIt' and v.a[2].op == v.a[3].op == 'iter' and len(v.a[2].a) == len(v.a[3].a):
                return adt('ZipIt', 0, f(v.a[2]), f(v.a[3]))
            if k == 'RevRange':
                return adt('core::ops::range::Range', 0, v.a[2], v.a[3])
        raise Und('rev')
    return lift(f, it)


@model('Iterator::for_each')
def m_foreach(I, st, a, c):
    loc = I.newloc(st, a[1])

    def body(x, s):
        o = I.callfn(I.load(s, I.ref(loc)), [x], s, I.ref(loc))
        return o[1] if o else None
    s = drain(I, st, into_iter(I, st, a[0]), body)
    return (UNIT, s) if s is not None else None


@model('Iterator::try_for_each', 'Iterator::try_fold')
def m_tryfor(I, st, a, c):
    fold = c['n'] == 'try_fold'
    fl = I.newloc(st, a[2] if fold else a[1])
    acc = I.newloc(st, a[1] if fold else UNIT)
    key = I.F.selfkey(c['ret'])
    early = []

    def body(x, s):
        args = ([I.load(s, I.ref(acc))] if fold else []) + [x]
        o = I.callfn(I.load(s, I.ref(fl)), args, s, I.ref(fl))
        if o is None:
            return None
        v, s = o
        var = 0 if key in ('Result', 'CF') else 1
        s1, s0 = split_some(I, s, v, key, var)
        if s0 is not None:
            early.append((rewrap(v, s0, key), s0))
        if s1 is not None:
            s1.mem[acc] = payload(v, s1, key, var)
        return s1

    def rewrap(v, s, key):
        if key == 'Result':
            return err(payload(v, s, 'Result', 1))
        if key == 'Option':
            return NONE
        return v
    s = drain(I, st, into_iter(I, st, a[0]), body)
    outs = list(early)
    if s is not None:
        x = I.load(s, I.ref(acc))
        outs.append(((ok(x) if key == 'Result' else some(x) if key == 'Option' else adt('CF', 0, x)), s))
    return I.joinv(outs)


@model('Iterator::fold')
def m_fold(I, st, a, c):
    fl = I.newloc(st, a[2])
    acc = I.newloc(st, a[1])

    def body(x, s):
        o = I.callfn(I.load(s, I.ref(fl)), [I.load(s, I.ref(acc)), x], s, I.ref(fl))
        if o is None:
            return None
        o[1].mem[acc] = o[0]
        return o[1]
    s = drain(I, st, into_iter(I, st, a[0]), body)
    return (s.mem[acc], s) if s is not None else None


@model('Iterator::sum', 'Iterator::product')
def m_sum(I, st, a, c):
    t = I.F.tyof(c['ret'])
    prod = c['n'] == 'product'
    acc = I.newloc(st, K(1 if prod else 0) if t[0] == 'int' else FL(t[1], 0))

    def body(x, s):
        cur = s.mem[acc]
        v = I.loadd(s, x)
        if t[0] == 'int':
            s.mem[acc] = mul(cur, v) if prod else add(cur, v)
        else:
            s.mem[acc] = I.fop('fmul' if prod else 'fadd', t[1], cur, v)
        return s
    s = drain(I, st, into_iter(I, st, a[0]), body)
    return (s.mem[acc], s) if s is not None else None


@model('Iterator::any', 'Iterator::all', 'Iterator::position', 'Iterator::find', 'Iterator::find_map')
def m_search(I, st, a, c):
    n = c['n']
    fl = I.newloc(st, a[1])
    early = []
    cnt = [0]

    def body(x, s):
        if n == 'find':
            l = I.newloc(s, x)
            arg = I.ref(l)
        else:
            arg = x
        o = I.callfn(I.load(s, I.ref(fl)), [arg], s, I.ref(fl))
        if o is None:
            return None
        y, s = o
        if n == 'find_map':
            s1, s0 = split_some(I, s, y)
            if s1 is not None:
                early.append((y, s1))
            return s0
        s1, s0 = I.branch(s, asb(y))
        if n == 'all':
            if s0 is not None:
                early.append((FALSE, s0))
            return s1
        if s1 is not None:
            early.append(({'any': TRUE, 'position': some(K(cnt[0])), 'find': some(x)}[n], s1))
        cnt[0] += 1
        return s0
    s = drain(I, st, a[0] if a[0].op == 'ref' and False else (adt('RefIt', 0, a[0]) if a[0].op == 'ref' else a[0]), body)
    outs = list(early)
    if s is not None:
        outs.append(({'any': FALSE, 'all': TRUE}.get(n, NONE), s))
    return I.joinv(outs)


@model('Iterator::last', 'Iterator::nth')
def m_last(I, st, a, c):
    if c['n'] == 'nth':
        if not isk(a[1]):
            raise Und('nth')
        s, ns, x = st, None, None
        for _ in range(a[1].a[0] + 1):
            x, s, n = nxt(I, s, a[0])
            ns = I.merge(ns, n)
            if s is None:
                return (NONE, ns)
        return I.joinv([(some(x), s)] + ([(NONE, ns)] if ns is not None else []))
    acc = I.newloc(st, NONE)

    def body(x, s):
        s.mem[acc] = some(x)
        return s
    s = drain(I, st, into_iter(I, st, a[0]), body)
    return s.mem[acc], s


@model('Iterator::max', 'Iterator::min')
def m_itmax(I, st, a, c):
    acc = I.newloc(st, NONE)
    g = imax if c['n'] == 'max' else imin

    def body(x, s):
        cur = s.mem[acc]
        v = I.loadd(s, x)
        s.mem[acc] = lift(lambda o: some(v) if o.a[1] == 0 else some(g(I.loadd(s, o.a[2]), v)), cur)
        return s
    s = drain(I, st, into_iter(I, st, a[0]), body)
    return s.mem[acc], s


@model('Iterator::size_hint')
def m_sizehint(I, st, a, c):
    return opq('size_hint'), st


@model('Iterator::collect', 'FromIterator::from_iter')
def m_collect(I, st, a, c):
    xs, st = collect_items(I, st, into_iter(I, st, a[0]))
    ret = c.get('ret')
    return build_collection(I, st, xs, ret)


def build_collection(I, st, xs, ret):
    t = I.F.types[ret]
    key = I.F.selfkey(ret)
    if key in ('alloc::vec::Vec', 'alloc::boxed::Box', 'alloc::collections::vec_deque::VecDeque'):
        return xs, st
    if key == 'alloc::string::String':
        out = []
        for s in segs_of(xs):
            if s.op != 'e':
                return opq('collect string'), st
            v = I.loadd(st, s.a[0])
            out += segs_of(v) if v.op in ('seq', 'str') else [splice(v)] if v.op != 'k' else segs_of(STR(chr(v.a[0])))
        return seqval(out), st
    if key in ('alloc::collections::btree::map::BTreeMap', 'std::collections::hash::map::HashMap'):
        kind = 'btree' if 'btree' in key else 'hash'

        def f(xs, s):
            m = mkmap(kind, [])
            for x in segs_of(xs):
                if x.op != 'e':
                    raise Und('collect of a symbolic sequence')
                p = x.a[0]
                if p.op != 'tuple':
                    p = tup(fld(p, 'tuple', 0, 0), fld(p, 'tuple', 0, 1))
                m, _ = map_insert(I, s, m, deep(I, s, p.a[0]), p.a[1])
            return m, s
        return perleaf(I, st, xs, f)
    if key in ('Result', 'Option'):
        inner = t['a'][0]

        def g(xs, s):
            oks, outs = [], []
            cur = s
            for x in segs_of(xs):
                if x.op != 'e':
                    raise Und('collect')
                v = x.a[0]
                gv = 0 if key == 'Result' else 1
                s1, s0 = split_some(I, cur, v, key, gv)
                if s0 is not None:
                    outs.append((err(payload(v, s0, 'Result', 1)) if key == 'Result' else NONE, s0))
                if s1 is None:
                    cur = None
                    break
                oks.append(e_(payload(v, s1, key, gv)))
                cur = s1
            if cur is not None:
                r = build_collection(I, cur, seq(oks), inner)
                if r is not None:
                    outs.append((ok(r[0]) if key == 'Result' else some(r[0]), r[1]))
            return I.joinv(outs)
        return perleaf(I, st, xs, g)
    if t['k'] == 'tuple' and not t['a']:
        return UNIT, st
    raise Und('collect into ' + key)


@model('slice::chunks', 'slice::windows', 'slice::chunks_exact')
def m_chunks(I, st, a, c):
    v = I.loadd(st, a[0])
    r = deref1(I, st, a[0])
    n = a[1]

    def f(v, n):
        L = length(v)
        if not (isk(L) and isk(n)) or n.a[0] <= 0:
            return adt('SymIt', 0, r, K(0))
        L, k = L.a[0], n.a[0]
        if c['n'] == 'windows':
            return terms._mk('iter', *[I.subref(r, ('sl', K(i), K(i + k))) for i in range(max(0, L - k + 1))])
        out = []
        for i in range(0, L, k):
            if c['n'] == 'chunks_exact' and i + k > L:
                break
            out.append(I.subref(r, ('sl', K(i), K(min(L, i + k)))))
        return terms._mk('iter', *out)
    return lift(f, v, n), st


@model('slice::contains')
def m_contains(I, st, a, c):
    v = I.loadd(st, a[0])
    x = I.loadd(st, a[1])
    r = FALSE
    if v.op == 'ite' or any(s.op != 'e' for s in segs_of(v)):
        return opq('contains'), st
    for s in segs_of(v):
        r = or_(r, eq(I.loadd(st, s.a[0]), x))
    return r, st


@model('slice::split_at', 'slice::split_at_mut')
def m_splitat(I, st, a, c):
    v = I.loadd(st, a[0])
    r = deref1(I, st, a[0])
    L = I.length(v)
    st = I.require(st, le(a[1], L), 'split_at out of bounds')
    if st is None:
        return None
    return tup(I.subref(r, ('sl', K(0), a[1])), I.subref(r, ('sl', a[1], L))), st


@model('slice::copy_from_slice', 'slice::clone_from_slice')
def m_copyfrom(I, st, a, c):
    v = I.loadd(st, a[1])
    r = a[0]
    if r.op == 'ref' and r.a[1] and r.a[1][-1][0] == 'sl':
        _, lo, hi = r.a[1][-1]
        base = I.ref(r.a[0], r.a[1][:-1])
        old = I.loadd(st, base)
        L = I.length(old)
        pre, post = slice_(old, K(0), lo), slice_(old, hi, L)
        I.store(st, base, seqval((segs_of(pre) if lo is not K(0) else []) + segs_of(v) + (segs_of(post) if hi is not L else [])))
        return UNIT, st
    I.store(st, r, v)
    return UNIT, st


@model('slice::fill')
def m_fill(I, st, a, c):
    I.store(st, a[0], lambda o: lift(lambda o: seq([e_(a[1])] * len(segs_of(o))) if all(s.op == 'e' for s in segs_of(o)) else opq('fill'), o))
    return UNIT, st


@model('slice::reverse')
def m_reverse(I, st, a, c):
    def g(o):
        ss = segs_of(o)
        if all(s.op == 'e' for s in ss):
            return seq(list(reversed(ss)))
        return opq('reverse')
    I.store(st, a[0], lambda o: lift(g, o))
    return UNIT, st


@model('slice::concat', 'slice::join')
def m_concat(I, st, a, c):
    v = I.loadd(st, a[0])

    def f(v):
        out = []
        ss = segs_of(v)
        for i, s in enumerate(ss):
            if s.op != 'e':
                return opq('concat')
            if i and len(a) > 1:
                out += segs_of(I.loadd(st, a[1]))
            out += segs_of(I.loadd(st, s.a[0]))
        return seqval(out)
    return lift(f, v), st


@model('slice::sort', 'slice::sort_unstable', 'slice::sort_by', 'slice::sort_by_key')
def m_sort(I, st, a, c):
    if c['n'] not in ('sort', 'sort_unstable'):
        raise Und('sort_by')

    def g(o, s):
        ss = segs_of(o)
        if any(x.op != 'e' for x in ss):
            raise Und('sort')
        items = [x.a[0] for x in ss]
        out = []
        for x in items:
            i = 0
            while i < len(out):
                l = klt(deep(I, s, x), deep(I, s, out[i]))
                if l is TRUE:
                    break
                if l is not FALSE:
                    raise Und('sort of incomparable keys')
                i += 1
            out.insert(i, x)
        I.store(s, a[0], seq([e_(x) for x in out]))
        return UNIT, s
    return perleaf(I, st, I.loadd(st, a[0]), g)


# ------------------------------------------------------------------ maps
@model('BTreeMap::new', 'BTreeMap::default')
def m_bnew(I, st, a, c):
    return mkmap('btree', []), st


@model('HashMap::new', 'HashMap::with_capacity', 'HashMap::default')
def m_hnew(I, st, a, c):
    return mkmap('hash', []), st


def map_find(I, st, m, k):
    """[(condition, index)] then the rest"""
    out = []
    rest = TRUE
    for j, (kk, _) in enumerate(entries(m)):
        e = restrict(eq(kk, k), st.pc)
        out.append((and_(rest, e), j))
        rest = and_(rest, not_(e))
    return out, rest


def map_insert(I, st, m, k, v):
    """(new map, old value option) for a map value"""
    found, rest = map_find(I, st, m, k)
    es = entries(m)
    kind = m.a[0]
    res, old = None, NONE
    # insertion of a new key
    if restrict(rest, st.pc) is not FALSE:
        i = len(es)
        if kind == 'btree':
            i = 0
            while i < len(es):
                l = restrict(klt(k, es[i][0]), st.pc)
                if l is TRUE:
                    break
                if l is not FALSE:
                    raise Und('order of two keys is unknown')
                i += 1
        res = mkmap(kind, es[:i] + [(k, v)] + es[i:])
    for cnd, j in reversed(found):
        cnd = restrict(cnd, st.pc)
        if cnd is FALSE:
            continue
        r2 = mkmap(kind, es[:j] + [(es[j][0], v)] + es[j + 1:])
        res = r2 if res is None else ite(cnd, r2, res)
        old = ite(cnd, some(es[j][1]), old)
    return res, old


@model('BTreeMap::insert', 'HashMap::insert')
def m_insert(I, st, a, c):
    k = deep(I, st, a[1])
    r, m = refmap(I, st, a[0])

    def f(m, s):
        if m.op != 'map':
            raise Und('insert into an unknown map')
        n, old = map_insert(I, s, m, k, a[2])
        I.store(s, r, n)
        return old, s
    return perleaf(I, st, m, f)


@model('BTreeMap::get', 'BTreeMap::get_mut', 'HashMap::get', 'HashMap::get_mut', 'BTreeMap::contains_key', 'HashMap::contains_key',
       'BTreeMap::get_key_value', 'HashMap::get_key_value')
def m_mapget(I, st, a, c):
    k = deep(I, st, a[1])
    r, m = refmap(I, st, a[0])
    n = c['n']

    def f(m, s):
        if m.op != 'map':
            raise Und('lookup in an unknown map')
        found, rest = map_find(I, s, m, k)
        es = entries(m)
        res = FALSE if n == 'contains_key' else NONE
        for cnd, j in reversed(found):
            ref = I.subref(r, ('mv', j))
            x = TRUE if n == 'contains_key' else some(tup(es[j][0], ref)) if n == 'get_key_value' else some(ref)
            res = ite(cnd, x, res)
        return res, s
    return perleaf(I, st, m, f)


@model('BTreeMap::remove', 'HashMap::remove')
def m_mapremove(I, st, a, c):
    k = deep(I, st, a[1])
    r, m = refmap(I, st, a[0])

    def f(m, s):
        found, rest = map_find(I, s, m, k)
        es = entries(m)
        res, old = m, NONE
        for cnd, j in reversed(found):
            if cnd is FALSE:
                continue
            res = ite(cnd, mkmap(m.a[0], es[:j] + es[j + 1:]), res)
            old = ite(cnd, some(es[j][1]), old)
        I.store(s, r, res)
        return old, s
    return perleaf(I, st, m, f)


@model('BTreeMap::retain', 'HashMap::retain', 'Vec::retain', 'Vec::retain_mut', 'VecDeque::retain')
def m_retain(I, st, a, c):
    fl = I.newloc(st, a[1])
    r, m = refmap(I, st, a[0])

    def f(m, s):
        if m.op == 'map':
            items = entries(m)
        elif all(x.op == 'e' for x in segs_of(m)):
            items = [(None, x.a[0]) for x in segs_of(m)]
        else:
            raise Und('retain on a sequence of unknown length')
        kept = []
        for k, v in items:
            lv = I.newloc(s, v)
            args = [I.ref(lv)] if k is None else [k if k.op == 'ref' else I.ref(I.newloc(s, k)), I.ref(lv)]
            o = I.callfn(I.load(s, I.ref(fl)), args, s, I.ref(fl))
            if o is None:
                return None
            y, s = o
            kept.append((restrict(asb(y), s.pc), k, I.load(s, I.ref(lv))))
        if sum(g not in (TRUE, FALSE) for g, k, v in kept) > 6:
            raise Und('retain with too many undecided elements')

        def make(i, acc):
            if i == len(kept):
                return mkmap(m.a[0], acc) if m.op == 'map' else seq([terms._mk('e', v) for k, v in acc])
            g, k, v = kept[i]
            return ite(g, make(i + 1, acc + [(k, v)]) if g is not FALSE else EMPTY, make(i + 1, acc) if g is not TRUE else EMPTY)
        I.store(s, r, make(0, []))
        return UNIT, s
    return perleaf(I, st, m, f)


@model('Vec::dedup', 'Vec::dedup_by_key', 'Vec::dedup_by')
def m_dedup(I, st, a, c):
    fl = I.newloc(st, a[1]) if len(a) > 1 else None
    r, m = refmap(I, st, a[0])

    def call(s, args):
        o = I.callfn(I.load(s, I.ref(fl)), args, s, I.ref(fl))
        if o is None:
            raise Und('dedup: a comparison that does not return')
        return o

    def f(m, s):
        if m.op == 'map' or not all(x.op == 'e' for x in segs_of(m)) or len(segs_of(m)) > 6:
            raise Und('dedup of such a sequence')
        vs = [x.a[0] for x in segs_of(m)]
        if c['n'] == 'dedup_by_key':
            ks = []
            for v in vs:
                y, s = call(s, [I.ref(I.newloc(s, v))])
                ks.append(y)
        elif c['n'] == 'dedup':
            ks = vs
        same = {}
        for j in range(1, len(vs)):
            for i in range(j):
                if c['n'] == 'dedup_by':
                    y, s = call(s, [I.ref(I.newloc(s, vs[j])), I.ref(I.newloc(s, vs[i]))])
                    same[i, j] = asb(y)
                else:
                    same[i, j] = deepeq(I, s, I.ref(I.newloc(s, ks[i])), I.ref(I.newloc(s, ks[j])))

        def make(j, kept):
            if j == len(vs):
                return seq([terms._mk('e', vs[i]) for i in kept])
            g = restrict(same[kept[-1], j], s.pc) if kept else FALSE
            return ite(g, make(j + 1, kept) if g is not FALSE else EMPTY, make(j + 1, kept + [j]) if g is not TRUE else EMPTY)
        I.store(s, r, make(0, []))
        return UNIT, s
    return perleaf(I, st, m, f)


@model('BTreeMap::entry', 'HashMap::entry')
def m_entry(I, st, a, c):
    return adt('EntryIt', 0, deref1(I, st, a[0]), deep(I, st, a[1])), st


@model('Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_default', 'Entry::and_modify', 'Entry::or_insert_with_key')
def m_orinsert(I, st, a, c):
    en = a[0]
    r, k = en.a[2], en.a[3]
    n = c['n']

    def f(m, s):
        found, rest = map_find(I, s, m, k)
        outs = []
        cur = s
        for cnd, j in found:
            if cur is None:
                break
            s1, cur = I.branch(cur, cnd)
            if s1 is not None:
                ref = I.subref(r, ('mv', j))
                if n == 'and_modify':
                    o = I.callfn(a[1], [ref], s1)
                    if o is not None:
                        outs.append((en, o[1]))
                else:
                    outs.append((ref, s1))
        if cur is not None:
            if n == 'and_modify':
                outs.append((en, cur))
            else:
                if n == 'or_insert':
                    v = a[1]
                elif n == 'or_default':
                    t = I.F.types[c['ret']]
                    v = I.default(t['e'], cur)
                else:
                    o = I.callfn(a[1], [k] if n.endswith('key') else [], cur)
                    v, cur = o
                m2, _ = map_insert(I, cur, m, k, v)
                I.store(cur, r, m2)

                def g(mm, s2):
                    for j, (kk, _) in enumerate(entries(mm)):
                        if kk is k:
                            return I.subref(r, ('mv', j)), s2
                    raise Und('entry')
                outs.append(perleaf(I, cur, m2, g))
        return I.joinv(outs)
    return perleaf(I, st, I.loadd(st, r), f)


@model('BTreeMap::first_key_value', 'BTreeMap::last_key_value')
def m_firstkv(I, st, a, c):
    r, m = refmap(I, st, a[0])

    def f(m):
        es = entries(m)
        if not es:
            return NONE
        j = 0 if c['n'].startswith('first') else len(es) - 1
        return some(tup(es[j][0], I.subref(r, ('mv', j))))
    return lift(f, m), st


# ------------------------------------------------------------------ Option / Result
@model('Option::is_some', 'Option::is_none', 'Result::is_ok', 'Result::is_err')
def m_is(I, st, a, c):
    v = I.loadd(st, a[0])
    n = c['n']
    if n == 'is_some':
        return isv(v, 1, 2), st
    if n == 'is_none':
        return not_(isv(v, 1, 2)), st
    if n == 'is_err':
        return isv(v, 1, 2), st
    return not_(isv(v, 1, 2)), st


@model('Option::is_some_and', 'Option::is_none_or', 'Result::is_ok_and')
def m_issomeand(I, st, a, c):
    n = c['n']
    key, var = ('Result', 0) if n == 'is_ok_and' else ('Option', 1)
    s1, s0 = split_some(I, st, a[0], key, var)
    outs = []
    if s1 is not None:
        outs.append(I.callfn(a[1], [payload(a[0], s1, key, var)], s1))
    if s0 is not None:
        outs.append((B(n == 'is_none_or'), s0))
    return I.joinv(outs)


@model('Option::as_ref', 'Option::as_mut', 'Result::as_ref', 'Result::as_mut')
def m_asref(I, st, a, c):
    v = I.loadd(st, a[0])
    r = deref1(I, st, a[0])
    key = 'Result' if 'Result' in c['p'] else 'Option'

    def f(x):
        if x.op == 'adt' and len(x.a) > 2:
            return adt(key, x.a[1], I.subref(r, ('f', x.a[1], 0, key)))
        if x.op == 'adt':
            return x
        if key == 'Option':
            return ite(isv(x, 1, 2), some(I.subref(r, ('f', 1, 0, key))), NONE)
        return opq('as_ref')
    return lift(f, v), st


@model('Option::expect', 'Option::unwrap', 'Result::expect', 'Result::unwrap', 'Option::unwrap_unchecked')
def m_expect(I, st, a, c):
    v = a[0]
    p = c['p']
    key, var = ('Result', 0) if 'Result' in p and 'Option' not in p.split('Result')[-1] else ('Option', 1)
    if any(l.op == 'adt' for l in leaves(v)):
        ks = {l.a[0] for l in leaves(v) if l.op == 'adt'}
        if ks == {'Option'}:
            key, var = 'Option', 1
        elif ks == {'Result'}:
            key, var = 'Result', 0
    s1, s0 = split_some(I, st, v, key, var)
    if s0 is not None:
        panic(I, s0, 'unwrap of None/Err')
    if s1 is None:
        return None
    return payload(v, s1, key, var), s1


@model('Result::unwrap_err', 'Result::expect_err')
def m_unwraperr(I, st, a, c):
    s1, s0 = split_some(I, st, a[0], 'Result', 1)
    if s0 is not None:
        panic(I, s0, 'unwrap_err of Ok')
    return (payload(a[0], s1, 'Result', 1), s1) if s1 is not None else None


@model('Option::unwrap_or', 'Option::unwrap_or_else', 'Option::unwrap_or_default', 'Result::unwrap_or', 'Result::unwrap_or_else',
       'Result::unwrap_or_default')
def m_unwrapor(I, st, a, c):
    v = a[0]
    key, var = ('Result', 0) if c['p'].startswith('std::result') or 'Result' in c['p'] else ('Option', 1)
    s1, s0 = split_some(I, st, v, key, var)
    outs = []
    if s1 is not None:
        outs.append((payload(v, s1, key, var), s1))
    if s0 is not None:
        if c['n'] == 'unwrap_or':
            outs.append((a[1], s0))
        elif c['n'] == 'unwrap_or_default':
            outs.append((I.default(c['ret'], s0), s0))
        else:
            outs.append(I.callfn(a[1], [payload(v, s0, 'Result', 1)] if key == 'Result' else [], s0))
    return I.joinv(outs)


@model('Option::map', 'Option::map_or', 'Option::map_or_else', 'Option::and_then', 'Option::filter', 'Option::or', 'Option::or_else',
       'Option::ok_or', 'Option::ok_or_else', 'Option::xor', 'Option::and', 'Option::zip', 'Option::inspect')
def m_optmap(I, st, a, c):
    v, n = a[0], c['n']
    s1, s0 = split_some(I, st, v)
    outs = []
    if s1 is not None:
        x = payload(v, s1, 'Option', 1)
        if n == 'map':
            o = I.callfn(a[1], [x], s1)
            outs.append((some(o[0]), o[1]) if o else None)
        elif n in ('map_or', 'map_or_else'):
            outs.append(I.callfn(a[2], [x], s1))
        elif n == 'and_then':
            outs.append(I.callfn(a[1], [x], s1))
        elif n == 'filter':
            l = I.newloc(s1, x)
            o = I.callfn(a[1], [I.ref(l)], s1)
            if o:
                outs.append((ite(asb(o[0]), some(x), NONE), o[1]))
        elif n in ('or', 'or_else'):
            outs.append((v, s1))
        elif n in ('ok_or', 'ok_or_else'):
            outs.append((ok(x), s1))
        elif n == 'and':
            outs.append((a[1], s1))
        elif n == 'zip':
            outs.append((lift(lambda y: some(tup(x, y.a[2])) if y.op == 'adt' and y.a[1] == 1 else NONE, a[1]), s1))
        else:
            raise Und(n)
    if s0 is not None:
        if n in ('map', 'and_then', 'filter', 'and', 'zip'):
            outs.append((NONE, s0))
        elif n == 'map_or':
            outs.append((a[1], s0))
        elif n == 'map_or_else':
            outs.append(I.callfn(a[1], [], s0))
        elif n == 'or':
            outs.append((a[1], s0))
        elif n == 'or_else':
            outs.append(I.callfn(a[1], [], s0))
        elif n == 'ok_or':
            outs.append((err(a[1]), s0))
        elif n == 'ok_or_else':
            o = I.callfn(a[1], [], s0)
            outs.append((err(o[0]), o[1]) if o else None)
        else:
            raise Und(n)
    return I.joinv(outs)


@model('Result::map', 'Result::map_err', 'Result::and_then', 'Result::or_else', 'Result::ok', 'Result::err', 'Result::map_or',
       'Result::map_or_else', 'Result::and', 'Result::or')
def m_resmap(I, st, a, c):
    v, n = a[0], c['n']
    s1, s0 = split_some(I, st, v, 'Result', 0)
    outs = []
    if s1 is not None:
        x = payload(v, s1, 'Result', 0)
        if n == 'map':
            o = I.callfn(a[1], [x], s1)
            outs.append((ok(o[0]), o[1]) if o else None)
        elif n in ('map_err', 'or_else', 'or'):
            outs.append((ok(x), s1))
        elif n == 'and_then':
            outs.append(I.callfn(a[1], [x], s1))
        elif n == 'ok':
            outs.append((some(x), s1))
        elif n == 'err':
            outs.append((NONE, s1))
        elif n in ('map_or', 'map_or_else'):
            outs.append(I.callfn(a[2], [x], s1))
        elif n == 'and':
            outs.append((a[1], s1))
    if s0 is not None:
        x = payload(v, s0, 'Result', 1)
        if n in ('map', 'and_then', 'and'):
            outs.append((err(x), s0))
        elif n == 'map_err':
            o = I.callfn(a[1], [x], s0)
            outs.append((err(o[0]), o[1]) if o else None)
        elif n == 'or_else':
            outs.append(I.callfn(a[1], [x], s0))
        elif n == 'or':
            outs.append((a[1], s0))
        elif n == 'ok':
            outs.append((NONE, s0))
        elif n == 'err':
            outs.append((some(x), s0))
        elif n == 'map_or':
            outs.append((a[1], s0))
        elif n == 'map_or_else':
            outs.append(I.callfn(a[1], [x], s0))
    return I.joinv(outs)


@model('Try::branch')
def m_branch(I, st, a, c):
    v = a[0]
    key = I.F.selfkey(c['argty'][0]) if c.get('argty') else 'Result'

    def f(x):
        if x.op == 'adt':
            if x.a[0] == 'Option':
                return adt('CF', 0, x.a[2]) if x.a[1] == 1 else adt('CF', 1, NONE)
            if x.a[0] == 'CF':
                return x if x.a[1] == 0 else adt('CF', 1, x)
            return adt('CF', 0, x.a[2]) if x.a[1] == 0 else adt('CF', 1, x)
        if key == 'Option':
            return ite(isv(x, 1, 2), adt('CF', 0, fld(x, 'Option', 1, 0)), adt('CF', 1, NONE))
        return ite(isv(x, 1, 2), adt('CF', 1, err(fld(x, 'Result', 1, 0))), adt('CF', 0, fld(x, 'Result', 0, 0)))
    return fuse_(lift(f, v)), st


def fuse_(v):
    import interp
    return interp.fuse(v)


@model('FromResidual::from_residual', 'Try::from_output')
def m_fromres(I, st, a, c):
    v = a[0]
    if c['n'] == 'from_output':
        key = I.F.selfkey(c['ret'])
        return (ok(v) if key == 'Result' else some(v) if key == 'Option' else adt('CF', 0, v)), st

    def g(x, s):
        if x.op == 'adt' and x.a[0] == 'Result' and x.a[1] == 1:
            # error conversion through From
            ret = I.F.types[c['ret']] if c.get('ret') is not None else None
            if ret and ret['k'] == 'adt' and short_(ret) == 'Result':
                et = ret['a'][1]
                at = I.F.types[c['argty'][0]] if c.get('argty') else None
                if at and at['k'] == 'adt' and at['a'][1] != et:
                    o = m_into(I, s, [x.a[2]], {'n': 'into', 'ret': et, 'argty': [at['a'][1]], 'p': 'from'})
                    return (err(o[0]), o[1]) if o else None
            return x, s
        return x, s
    return perleaf(I, st, v, g)


def short_(t):
    from facts import short
    return short(t['key'])


# ------------------------------------------------------------------ comparisons
ORD = {-1: adt('Ordering', 0), 0: adt('Ordering', 1), 1: adt('Ordering', 2)}


def deepeq(I, st, a, b):
    a, b = I.loadd(st, a), I.loadd(st, b)

    def f(a, b):
        if a is b:
            return TRUE
        if a.op == b.op == 'adt':
            if a.a[1] != b.a[1] or len(a.a) != len(b.a):
                return FALSE
            r = TRUE
            for x, y in zip(a.a[2:], b.a[2:]):
                r = and_(r, deepeq(I, st, x, y))
            return r
        if a.op == b.op == 'tuple':
            r = TRUE
            for x, y in zip(a.a, b.a):
                r = and_(r, deepeq(I, st, x, y))
            return r
        if TYPEOF.get(a, ('?',))[0] == 'float' or TYPEOF.get(b, ('?',))[0] == 'float' or a.op == 'f':
            return I.feq(a, b)
        if a.op in ('seq', 'arr', 'str') and b.op in ('seq', 'arr', 'str') and a.op != b.op or (a.op == b.op == 'seq'):
            x, y = segs_of(a), segs_of(b)
            if all(s.op == 'e' for s in x + y):
                if len(x) != len(y):
                    return FALSE
                r = TRUE
                for p, q in zip(x, y):
                    r = and_(r, deepeq(I, st, p.a[0], q.a[0]))
                return r
            if isk(length(a)) and isk(length(b)) and length(a) is not length(b):
                return FALSE
        return eq(a, b)
    return lift(f, a, b)


@model('PartialEq::eq', 'PartialEq::ne', 'Option::eq')
def m_eq(I, st, a, c):
    key = None
    v = I.loadd(st, a[0])
    r = deepeq(I, st, a[0], a[1])
    return (r if c['n'] == 'eq' else not_(r)), st


@model('Ord::cmp', 'PartialOrd::partial_cmp', 'total_cmp')
def m_cmp(I, st, a, c):
    x, y = deep(I, st, a[0]), deep(I, st, a[1])
    if TYPEOF.get(x, ('?',))[0] == 'float':
        r = ite(I.flt(x, y), ORD[-1], ite(I.flt(y, x), ORD[1], ORD[0]))
    else:
        r = ite(klt(x, y), ORD[-1], ite(eq(x, y), ORD[0], ORD[1]))
    return (some(r) if c['n'] == 'partial_cmp' else r), st


@model('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def m_ord(I, st, a, c):
    x, y = deep(I, st, a[0]), deep(I, st, a[1])
    n = c['n']
    if x.op == 'loglevel' or y.op == 'loglevel':
        return B(I.logging), st
    if c.get('argty'):
        s = I.F.tystr(c['argty'][0])
        if 'Level' in s:
            return B(I.logging), st
    if TYPEOF.get(x, ('?',))[0] == 'float' or x.op == 'f':
        return {'lt': lambda: I.flt(x, y), 'le': lambda: I.fle(x, y), 'gt': lambda: I.flt(y, x), 'ge': lambda: I.fle(y, x)}[n](), st
    return {'lt': lambda: klt(x, y), 'le': lambda: not_(klt(y, x)), 'gt': lambda: klt(y, x), 'ge': lambda: not_(klt(x, y))}[n](), st


@model('Ord::max', 'Ord::min', 'cmp::max', 'cmp::min')
def m_max(I, st, a, c):
    x, y = a[0], a[1]
    if not (_isint(x) or _isint(y)) and x.op != 'ite' and y.op != 'ite':
        return opq('max'), st
    return (imax if c['n'] == 'max' else imin)(x, y), st


@model('Ord::clamp')
def m_clamp(I, st, a, c):
    return imin(imax(a[0], a[1]), a[2]), st


# ------------------------------------------------------------------ integers
def selfty(c):
    m = re.search(r'<impl ([a-z0-9]+)>::', c['p']) or re.search(r'(?:^|::)([iu](?:8|16|32|64|128|size))::', c['p'])
    return m.group(1) if m else None


@model('*::wrapping_add', '*::wrapping_sub', '*::wrapping_mul', '*::wrapping_neg', '*::wrapping_shl', '*::wrapping_shr')
def m_wrapping(I, st, a, c):
    t = selfty(c)
    n = c['n'][9:]
    if n == 'add':
        return I.binop('Add', a[0], a[1], ('int', t)), st
    if n == 'sub':
        return I.binop('Sub', a[0], a[1], ('int', t)), st
    if n == 'mul':
        return I.binop('Mul', a[0], a[1], ('int', t)), st
    if n == 'neg':
        return wrap(t, scale(a[0], -1)), st
    k = rem(a[1], K(WIDTH[t])) if isk(a[1]) else bitop('and', 'u32', a[1], K(WIDTH[t] - 1))
    return (shl if n == 'shl' else shr)(t, a[0], k), st


@model('*::overflowing_add', '*::overflowing_sub', '*::overflowing_mul', '*::checked_add', '*::checked_sub', '*::checked_mul',
       '*::saturating_add', '*::saturating_sub', '*::saturating_mul')
def m_overflowing(I, st, a, c):
    t = selfty(c)
    kind, op = c['n'].rsplit('_', 1)
    x, y = unbits(a[0]) or a[0], unbits(a[1]) or a[1]
    m = {'add': add, 'sub': sub, 'mul': mul}[op](x, y)
    lo, hi = INT_RANGE[t]
    under, over = lt(m, K(lo)), lt(K(hi), m)
    ov = or_(under, over)
    if kind == 'overflowing':
        return tup(wrap(t, m), ov), st
    if kind == 'checked':
        return ite(ov, NONE, some(m)), st
    return ite(over, K(hi), ite(under, K(lo), m)), st


@model('*::checked_div', '*::checked_rem')
def m_chkdiv(I, st, a, c):
    z = eq(a[1], K(0))
    return ite(z, NONE, some((div if c['n'].endswith('div') else rem)(a[0], a[1]))), st


@model('*::div_ceil')
def m_divceil(I, st, a, c):
    return div(add(a[0], sub(a[1], K(1))), a[1]), st


@model('*::rem_euclid', '*::div_euclid')
def m_euclid(I, st, a, c):
    if nonneg(a[0]) and nonneg(a[1]):
        return (rem if c['n'].startswith('rem') else div)(a[0], a[1]), st
    return app(c['n'], a[0], a[1]), st


@model('*::unsigned_abs', '*::abs', '*::wrapping_abs')
def m_abs(I, st, a, c):
    if I.F.tyof(c['ret'])[0] == 'float':
        return app('fabs', a[0]), st
    if c['n'] == 'unsigned_abs':
        t2 = I.F.tyof(c['ret'])[1]

        def f(x):
            if isk(x):
                return K(abs(x.a[0]))
            if nonneg(x):
                return x
            r = terms._mk('uabs', x)
            TYPEOF.setdefault(r, ('int', t2))
            return r
        return lift(f, a[0]), st
    r = ite(lt(a[0], K(0)), scale(a[0], -1), a[0])
    if c['n'] == 'abs':
        t = selfty(c)
        st = I.require(st, not_(eq(a[0], K(INT_RANGE[t][0]))), 'abs overflow')
        if st is None:
            return None
    if c['n'] == 'wrapping_abs':
        r = wrap(selfty(c), r)
    return r, st


@model('*::leading_zeros', '*::trailing_zeros', '*::count_ones', '*::leading_ones', '*::count_zeros', '*::ilog2')
def m_lz(I, st, a, c):
    t = selfty(c)
    w = WIDTH[t]
    n = c['n']

    def f(x):
        if x.op == 'bits':
            bs = list(x.a[2:])
            if n == 'leading_zeros':
                r = K(w)
                for i, b in enumerate(bs):
                    r = ite(b, K(w - 1 - i), r)
                return r
            if n == 'trailing_zeros':
                r = K(w)
                for i in range(w - 1, -1, -1):
                    r = ite(bs[i], K(i), r)
                return r
            return opq(n)
        if isk(x):
            u = x.a[0] & ((1 << w) - 1)
            if n == 'leading_zeros':
                return K(w - u.bit_length())
            if n == 'trailing_zeros':
                return K(w if u == 0 else (u & -u).bit_length() - 1)
            if n == 'ilog2':
                return K(u.bit_length() - 1)
            return K(bin(u).count('1') if n == 'count_ones' else w - bin(u).count('1'))
        if n == 'ilog2':
            return sub(K(w - 1), f2('lzcnt', x))
        return f2({'leading_zeros': 'lzcnt'}.get(n, n), x)

    def f2(nm, x):
        r = terms._mk(nm, w, modred(x, w))
        TYPEOF.setdefault(r, ('int', 'u8'))
        return r
    return lift(f, a[0]), st


@model('*::to_be_bytes', '*::to_le_bytes', '*::to_ne_bytes')
def m_tobe(I, st, a, c):
    m = re.search(r'<impl ([a-z0-9]+)>::', c['p'])
    t = m.group(1)
    if t in ('f32', 'f64'):
        n = 4 if t == 'f32' else 8

        def f(x):
            if x.op == 'f':
                return mkbe(n, K(x.a[1])) if c['n'] == 'to_be_bytes' else mkle(n, K(x.a[1]))
            b = terms._mk('fbits', t, x)
            TYPEOF.setdefault(b, ('int', 'u%d' % (8 * n)))
            return mkbe(n, b) if c['n'] == 'to_be_bytes' else mkle(n, b)
        return lift(f, a[0]), st
    n = WIDTH[t] // 8
    v = a[0]
    if c['n'] == 'to_be_bytes':
        r = mkbe(n, v)
    else:
        r = mkle(n, v)

    def g(r):
        if r.op in ('be', 'le') and r.a[1].op in ('k', 'bits') or r.op in ('be', 'le') and r.a[0] == 1:
            return seq(segs_of(r))
        return r
    return lift(g, r), st


@model('*::to_bits')
def m_tobits(I, st, a, c):
    t = selfty2(c)
    b = app('fbits', t, a[0])
    return b, st


def selfty2(c):
    m = re.search(r'<impl ([a-z0-9]+)>::', c['p'])
    return m.group(1) if m else None


@model('*::pow')
def m_pow(I, st, a, c):
    if isk(a[1]) and a[1].a[0] <= 8:
        r = K(1)
        for _ in range(a[1].a[0]):
            r = mul(r, a[0])
        return r, st
    if isk(a[0]) and a[0].a[0] == 2:
        return shl(selfty(c), K(1), a[1]), st
    return app('ipow', a[0], a[1]), st


@model('*::rotate_left', '*::rotate_right')
def m_rot(I, st, a, c):
    t = selfty(c)
    n = a[1]
    if c['n'] == 'rotate_right':
        n = sub(K(WIDTH[t]), n)
    return rotl(t, a[0], n), st


@model('*::is_power_of_two')
def m_ispow(I, st, a, c):
    return app_atom('atom', 'ispow2', a[0]), st


def app_atom(op, *xs):
    return atom(op, *xs) if all(isinstance(x, T) for x in xs) else lift(lambda *ys: lit(terms._mk(op, *([x for x in xs if not isinstance(x, T)] + list(ys)))), *[x for x in xs if isinstance(x, T)])


@model('*::signum')
def m_signum(I, st, a, c):
    return ite(lt(a[0], K(0)), K(-1), ite(eq(a[0], K(0)), K(0), K(1))), st


@model('*::is_negative', '*::is_positive')
def m_isneg(I, st, a, c):
    return (lt(a[0], K(0)) if c['n'] == 'is_negative' else lt(K(0), a[0])), st


@model('*::from_be_bytes', '*::from_le_bytes')
def m_frombe(I, st, a, c):
    t = selfty(c)
    v = I.loadd(st, a[0])

    def f(v):
        if v.op == ('be' if 'be' in c['n'] else 'le') and v.a[0] * 8 == WIDTH[t]:
            return wrap(t, v.a[1])
        ss = segs_of(v)
        if all(s.op == 'e' for s in ss) and len(ss) * 8 == WIDTH[t]:
            if 'le' in c['n']:
                ss = ss[::-1]
            r = K(0)
            for s in ss:
                r = add(scale(r, 256), s.a[0])
            return wrap(t, r)
        return opq(c['n'])
    return lift(f, v), st


# floats
@model('f64::ln', 'f64::sqrt', 'f64::floor', 'f64::ceil', 'f64::round', 'f64::exp', 'f64::log2', 'f64::log10', 'f64::abs', 'f32::abs', 'f64::trunc')
def m_fun(I, st, a, c):
    return I.ffun(c['n'], 'f64', a[0]), st


@model('f64::max', 'f64::min', 'f32::max', 'f32::min')
def m_fmax(I, st, a, c):
    t = selfty2(c) or 'f64'
    return I.fop('f' + c['n'], t, a[0], a[1]), st


@model('f64::powi', 'f64::powf')
def m_fpow(I, st, a, c):
    return I.fop(c['n'], 'f64', a[0], a[1]), st


@model('f64::is_nan', 'f32::is_nan')
def m_isnan(I, st, a, c):
    return not_(I.feq(a[0], a[0])), st


FMIN = {'f32': 2.0 ** -126, 'f64': 2.0 ** -1022}


@model('f64::is_infinite', 'f32::is_infinite', 'f64::is_finite', 'f32::is_finite', 'f64::is_normal', 'f32::is_normal', 'f64::is_subnormal', 'f32::is_subnormal')
def m_isinf(I, st, a, c):
    t = selfty2(c) or 'f64'
    inf, ninf = I.mkf(t, float('inf')), I.mkf(t, float('-inf'))
    lo, nlo, z = I.mkf(t, FMIN[t]), I.mkf(t, -FMIN[t]), I.mkf(t, 0.0)
    x = a[0]
    fin = and_(I.flt(ninf, x), I.flt(x, inf))
    r = {'is_infinite': lambda: or_(I.feq(x, inf), I.feq(x, ninf)), 'is_finite': lambda: fin,
         'is_normal': lambda: and_(fin, or_(I.fle(lo, x), I.fle(x, nlo))),
         'is_subnormal': lambda: and_(and_(I.flt(nlo, x), I.flt(x, lo)), not_(I.feq(x, z)))}[c['n']]()
    return r, st


@model('f64::is_sign_negative', 'f32::is_sign_negative', 'f64::is_sign_positive', 'f32::is_sign_positive')
def m_fsign(I, st, a, c):
    t = selfty2(c) or 'f64'
    n = 32 if t == 'f32' else 64

    def f(x):
        if x.op == 'f':
            return B(x.a[1] >> (n - 1) == 1)
        b = app('fbits', t, x)
        TYPEOF.setdefault(b, ('int', 'u%d' % n))
        return le(K(1 << (n - 1)), b)
    r = lift(f, a[0])
    return (r if c['n'] == 'is_sign_negative' else not_(r)), st


# ------------------------------------------------------------------ strings and formatting
@model('ToString::to_string')
def m_tostring(I, st, a, c):
    v = I.loadd(st, a[0])
    return display(I, st, v, c['argty'][0] if c.get('argty') else None), st


def isstr(I, ty):
    while ty is not None and I.F.types[ty]['k'] == 'ref':
        ty = I.F.types[ty]['e']
    if ty is None:
        return False
    return I.F.tystr(ty) in ('str', 'String')


def display(I, st, v, ty):
    """the text of a value: strings are themselves, numbers are decimal(v)"""
    def f(v):
        if v.op == 'str' or v.op == 'seq' or (ty is not None and isstr(I, ty)) or v in RANK:
            return v
        if isk(v) and _isint(v):
            return STR(str(v.a[0]))
        return terms._mk('disp', v)
    return lift(f, v)


@model('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex')
def m_argument(I, st, a, c):
    v = I.loadd(st, a[0])
    k = c['n'][4:]
    if k == 'display':
        return display(I, st, v, c['argty'][0] if c.get('argty') else None), st
    return lift(lambda v: terms._mk('fmt_' + k, v), v), st


@model('Arguments::new', 'Arguments::from_str', 'Arguments::new_const', 'Arguments::from_str_nonconst')
def m_arguments(I, st, a, c):
    v = I.loadd(st, a[0])
    if c['n'] != 'new':
        return v, st
    args = I.loadd(st, a[1])
    if v.op != 'arr' and v.op != 'str' and v.op != 'seq':
        return opq('fmt'), st
    bs = [s.a[0].a[0] for s in segs_of(v)]
    ass = [s.a[0] for s in segs_of(args)]
    out = []
    i = 0
    ai = 0
    plain = True
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out += [e_(K(x)) for x in bs[i:i + b]]
            i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            out += [e_(K(x)) for x in bs[i:i + n]]
            i += n
        else:
            opts = []
            idx = ai
            if b & 1:
                opts.append(bs[i:i + 4])
                i += 4
            if b & 2:
                opts.append(bs[i:i + 2])
                i += 2
            if b & 4:
                opts.append(bs[i:i + 2])
                i += 2
            if b & 8:
                idx = bs[i] | bs[i + 1] << 8
                i += 2
            x = I.loadd(st, ass[idx]) if idx < len(ass) else opq('fmt')
            if opts:
                x = terms._mk('fmtopt', repr((b, opts)), x)
            out += segs_of(x) if x.op in ('seq', 'str') else [splice(x)]
            ai = idx + 1
    return seqval(out), st


@model('fmt::format', 'fmt::format_inner')
def m_format(I, st, a, c):
    return a[0], st


def ctext(v):
    """the text of a constant string, else None"""
    if v.op == 'str':
        b = v.a[0]
    elif v.op == 'seq':
        if not all(x.op == 'e' and x.a[0].op == 'k' and 0 <= x.a[0].a[0] < 256 for x in segs_of(v)):
            return None
        b = bytes(x.a[0].a[0] for x in segs_of(v))
    else:
        return None
    if isinstance(b, str):
        return b
    try:
        return b.decode('utf-8')
    except UnicodeDecodeError:
        return None


def cpat(v):
    """a constant pattern: text, or a character"""
    if v.op == 'k' and 0 < v.a[0] < 0x110000 or v.op == 'k' and v.a[0] == 0:
        return chr(v.a[0])
    return ctext(v)


RSPACE = '\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000'


def trims(s, p, left, right):
    if not p:
        return s
    while left and s.startswith(p):
        s = s[len(p):]
    while right and s.endswith(p):
        s = s[:-len(p)]
    return s


def conststr(n, s, xs):
    """the value of a str method on a constant text with constant arguments, or None"""
    it = lambda l: terms._mk('iter', *l)
    chars = lambda t: it([K(ord(x)) for x in t])
    bpos = lambda i: K(len(s[:i].encode()))
    ch = lambda: it([K(ord(x)) for x in s])
    if n == 'trim':
        return STR(s.strip(RSPACE))
    if n == 'trim_start':
        return STR(s.lstrip(RSPACE))
    if n == 'trim_end':
        return STR(s.rstrip(RSPACE))
    if n == 'to_ascii_lowercase':
        return STR(''.join(x.lower() if x < '\x80' else x for x in s))
    if n == 'to_ascii_uppercase':
        return STR(''.join(x.upper() if x < '\x80' else x for x in s))
    if n == 'to_lowercase':
        return STR(s.lower())
    if n == 'to_uppercase':
        return STR(s.upper())
    if n == 'chars':
        return ch()
    if n == 'char_indices':
        return it([tup(bpos(i), K(ord(x))) for i, x in enumerate(s)])
    if n == 'split_whitespace':
        return it([STR(x) for x in s.split()])
    if n == 'lines':
        return it([STR(x[:-1] if x.endswith('\r') else x) for x in (s[:-1] if s.endswith('\n') else s).split('\n')] if s else [])
    if not xs:
        return None
    p = cpat(xs[-1] if n == 'splitn' else xs[0])
    if p is None:
        return None
    if n == 'replace':
        q = ctext(xs[1])
        return STR(s.replace(p, q)) if p and q is not None else None
    if n == 'trim_start_matches':
        return STR(trims(s, p, True, False))
    if n == 'trim_end_matches':
        return STR(trims(s, p, False, True))
    if n == 'trim_matches':
        return STR(trims(s, p, True, True)) if len(p) == 1 else None
    if n == 'strip_prefix':
        return some(STR(s[len(p):])) if s.startswith(p) else NONE
    if n == 'strip_suffix':
        return some(STR(s[:len(s) - len(p)])) if s.endswith(p) else NONE
    if not p:
        return None
    if n == 'split':
        return it([STR(x) for x in s.split(p)])
    if n == 'rsplit':
        return it([STR(x) for x in s.split(p)[::-1]])
    if n == 'splitn' and isk(xs[0]):
        return it([STR(x) for x in (s.split(p, xs[0].a[0] - 1) if xs[0].a[0] else [])])
    if n in ('split_once', 'rsplit_once'):
        if p not in s:
            return NONE
        x = s.split(p, 1) if n == 'split_once' else s.rsplit(p, 1)
        return some(tup(STR(x[0]), STR(x[1])))
    if n in ('find', 'rfind'):
        i = s.find(p) if n == 'find' else s.rfind(p)
        return some(bpos(i)) if i >= 0 else NONE
    return None


@model('str::trim_start_matches', 'str::replace', 'str::trim', 'str::trim_end', 'str::trim_start', 'str::to_lowercase', 'str::to_uppercase',
       'str::strip_prefix', 'str::split', 'str::lines', 'str::trim_matches', 'str::trim_end_matches', 'str::chars', 'str::bytes',
       'str::to_ascii_lowercase', 'str::to_ascii_uppercase', 'str::char_indices', 'str::split_whitespace', 'str::strip_suffix', 'str::rsplit',
       'str::splitn', 'str::split_once', 'str::rsplit_once', 'str::find', 'str::rfind')
def m_strfun(I, st, a, c):
    xs = [I.loadd(st, x) for x in a]
    if c['n'] == 'bytes':
        return into_iter(I, st, adt('ClonedIt', 0, into_iter(I, st, a[0]))), st
    s = ctext(xs[0])
    if s is not None:
        r = conststr(c['n'], s, xs[1:])
        if r is not None:
            return r, st
    if c['n'] in ('strip_suffix', 'splitn', 'rsplit', 'split_once', 'rsplit_once', 'find', 'rfind', 'char_indices', 'split_whitespace'):
        raise Und('%s of an unknown text' % c['n'])
    return app('str_' + c['n'], *xs), st


@model('str::contains', 'str::starts_with', 'str::ends_with', 'str::is_ascii')
def m_strtest(I, st, a, c):
    xs = [I.loadd(st, x) for x in a]
    n = c['n']

    def f(*ys):
        s = ctext(ys[0])
        if n == 'is_ascii':
            if s is not None:
                return B(s.isascii())
        else:
            if ys[0] is ys[1]:
                return TRUE
            p = cpat(ys[1])
            if s is not None and p is not None:
                return B(p in s if n == 'contains' else s.startswith(p) if n == 'starts_with' else s.endswith(p))
        return lit(terms._mk('atom', STR(n), *ys))
    return lift(f, *xs), st


@model('*::checked_abs')
def m_checked_abs(I, st, a, c):
    t = I.F.tystr(c['argty'][0]) if c.get('argty') else 'i32'
    w = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64}.get(t)
    if w is None:
        raise Und('checked_abs')
    low = K(-2**(w - 1))

    def f(x):
        if isk(x):
            return NONE if x is low else some(K(abs(x.a[0])))
        y = ite(lt(x, K(0)), terms.mul(K(-1), x) if hasattr(terms, 'mul') else terms.neg(x), x)
        return ite(eq(x, low), NONE, some(y))
    return lift(f, a[0]), st


CHARTEST = {'is_ascii': lambda x: x < '\x80', 'is_alphanumeric': str.isalnum, 'is_alphabetic': str.isalpha, 'is_numeric': str.isnumeric,
            'is_whitespace': lambda x: x in RSPACE, 'is_ascii_digit': lambda x: '0' <= x <= '9', 'is_uppercase': str.isupper, 'is_lowercase': str.islower,
            'is_ascii_alphanumeric': lambda x: x < '\x80' and x.isalnum(), 'is_ascii_alphabetic': lambda x: x < '\x80' and x.isalpha(),
            'is_ascii_uppercase': lambda x: 'A' <= x <= 'Z', 'is_ascii_lowercase': lambda x: 'a' <= x <= 'z', 'is_ascii_whitespace': lambda x: x in ' \t\n\x0c\r',
            'is_control': lambda x: x < ' ' or '\x7f' <= x <= '\x9f', 'is_ascii_control': lambda x: x < ' ' or x == '\x7f',
            'is_ascii_punctuation': lambda x: '!' <= x <= '~' and not x.isalnum(), 'is_ascii_graphic': lambda x: '!' <= x <= '~'}


@model(*['char::' + k for k in list(CHARTEST) + ['len_utf8', 'to_ascii_lowercase', 'to_ascii_uppercase']])
def m_char(I, st, a, c):
    x = I.loadd(st, a[0])
    if not isk(x):
        raise Und('char method on an unknown character')
    x = chr(x.a[0])
    n = c['n']
    if n in CHARTEST:
        return B(bool(CHARTEST[n](x))), st
    if n == 'len_utf8':
        return K(len(x.encode('utf-8', 'surrogatepass'))), st
    return K(ord((x.lower() if 'lower' in n else x.upper()) if x < '\x80' else x)), st


# ------------------------------------------------------------------ output
@model('Write::write_all')
def m_writeall(I, st, a, c):
    data = I.loadd(st, a[1])
    return sink_append(I, st, a[0], data, ok(UNIT))


@model('Write::write')
def m_write(I, st, a, c):
    data = I.loadd(st, a[1])
    return sink_append(I, st, a[0], data, None)


@model('Write::flush')
def m_flush(I, st, a, c):
    r = deref1(I, st, a[0])
    v = I.load(st, r)
    if v.op == 'adt' and v.a[0] == 'ShortSink':
        # log the flush
        I.store(st, r, adt('ShortSink', 0, append(v.a[2], [terms._mk('flushed')]), v.a[3]))
        e = isv(sym('flushresult'), 1, 2)
        return ite(e, err(sym('ioerror')), ok(UNIT)), st
    if v.op == 'adt' and v.a[0] == 'FailSink':
        return failing(I, st, r, v, EMPTY, ok(UNIT)), st
    return ok(UNIT), st


def failing(I, st, r, v, data, result):
    """a sink of which one operation fails"""
    k = v.a[3].a[0] if v.a[3].op == 'k' else None
    if k is None:
        raise Und('the number of operations on the sink so far')
    bad = I.failop is not None and (k == I.failop or I.failever and k > I.failop)
    if bad:
        result, data = err(sym('ioerror')), EMPTY
    I.store(st, r, adt('FailSink', 0, append(v.a[2], segs_of(data)), K(k + 1)))
    return result


def accepted(k):
    """how much the sink takes of the k-th buffer it is given"""
    n = sym('accepted%d' % k, ('int', 'usize'))
    terms.BOUND[n] = (0, 6)
    return n


def refused(k):
    return isv(sym('refused%d' % k), 1, 2)


def sink_append(I, st, target, data, result):
    r = deref1(I, st, target)
    v = I.load(st, r)

    def f(v, s):
        res = result
        if v.op == 'adt' and v.a[0] == 'Sink' and result is None and getattr(I, 'stingy', False):
            # takes no more than the first byte (or first few, where they are not known one by one)
            def g(data):
                ss = segs_of(data)[:1]
                I.store(s, r, adt('Sink', 0, v.a[2], append(v.a[3], ss)))
                return ok(length(seqval(ss)))
            return g(restrict(data, s.pc)) if restrict(data, s.pc).op != 'ite' else ok(length(data)), s
        elif v.op == 'adt' and v.a[0] == 'FailSink':
            return failing(I, s, r, v, data, ok(length(data)) if result is None else result), s
        elif v.op == 'adt' and v.a[0] == 'Sink':
            I.store(s, r, adt('Sink', 0, v.a[2], append(v.a[3], segs_of(data))))
        elif v.op == 'adt' and v.a[0] == 'ShortSink':
            # an arbitrary std::io::Write: log what it was given, the result is unknown
            k = v.a[3].a[0]
            if result is None:
                n = accepted(k)
                I.store(s, r, adt('ShortSink', 0, append(v.a[2], [terms._mk('gave', data, n)]), K(k + 1)))
                return ite(refused(k), err(sym('ioerror%d' % k)), ok(n)), s
            I.store(s, r, adt('ShortSink', 0, append(v.a[2], [terms._mk('gaveall', data)]), K(k + 1)))
            return ite(refused(k), err(sym('ioerror%d' % k)), ok(UNIT)), s
        elif v.op in ('seq', 'str', 'arr', 'be', 'le', 'sym', 'repeat', 'slice', 'over', 'app', 'trunc', 'resize'):
            I.store(s, r, append(v, segs_of(data)))
        elif v.op == 'ref':
            return sink_append(I, s, v, data, result)
        elif v.op == 'adt' and I.F.has(v.a[0], 'write'):
            # a sink of the program: what write_all does, if one call takes everything
            fn = I.F.find(v.a[0], 'write', 'Write')
            o = I.run(fn, [r, data], s)
            if o is None or result is None:
                return o
            w, s = o
            w = restrict(w, s.pc)
            if w.op != 'adt' or w.a[1] == 0 and w.a[2] is not length(data):
                raise Und('a write that may be short')
            return (ok(UNIT) if w.a[1] == 0 else w), s
        else:
            raise Und('write to ' + v.op)
        if res is None:
            res = ok(length(data))
        return res, s
    return perleaf(I, st, v, f)


@model('io::_print', 'io::_eprint', 'log::log', '__private_api::log', '__private_api::loc', 'log::max_level', 'log::logger', '__private_api::enabled')
def m_log(I, st, a, c):
    if c['n'] == 'max_level':
        return terms._mk('loglevel'), st
    return UNIT, st


@model('__private_api::enabled')
def m_logen(I, st, a, c):
    return FALSE, st


@model('intrinsics::discriminant_value')
def m_discr(I, st, a, c):
    v = I.loadd(st, a[0])
    t = I.F.types[c['argty'][0]]
    while t['k'] in ('ref', 'ptr'):
        ti = t['e']
        t = I.F.types[ti]
    return I.discr(v, ti), st


@model('mem::discriminant')
def m_mdiscr(I, st, a, c):
    return m_discr(I, st, a, c)


@model('panicking::panic', 'panicking::panic_fmt', 'panicking::assert_failed', 'panicking::panic_display', 'rt::begin_panic', 'panicking::unreachable_display',
       'panicking::panic_explicit', 'option::expect_failed', 'option::unwrap_failed', 'process::abort', 'process::exit', 'panicking::panic_nounwind',
       'panicking::panic_str_2015', 'panicking::unreachable_panic', 'panicking::assert_failed_inner')
def m_panic(I, st, a, c):
    msg = None
    for x in a:
        v = I.loadd(st, x)
        if v.op in ('str', 'seq'):
            msg = v
    return panic(I, st, 'panic', msg)


@model('panicking::todo_default_msg')
def m_todo(I, st, a, c):
    return UNIT, st


@model('Default::default')
def m_default(I, st, a, c):
    return I.default(c['ret'], st), st


@model('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')
def m_callonce(I, st, a, c):
    args = list(a[1].a) if a[1].op == 'tuple' else [a[1]]
    return I.callfn(I.loadd(st, a[0]), args, st, a[0] if a[0].op == 'ref' else None)


# ------------------------------------------------------------------ third-party and OS, uninterpreted
@model('Encoder::new')
def m_snapnew(I, st, a, c):
    return adt('snap', 0), st


@model('raw::max_compress_len')
def m_maxcomp(I, st, a, c):
    r = app('maxcomp', a[0])
    for l in leaves(r):
        TYPEOF.setdefault(l, ('int', 'usize'))
    return r, st


@model('Encoder::compress')
def m_compress(I, st, a, c):
    data = I.loadd(st, a[1])
    out = a[2]
    z = app('snappy', data)
    n = length(z)
    r = deref1(I, st, out)
    # the buffer's first n bytes become the compressed bytes
    old = I.loadd(st, r)
    I.store(st, r, lift(lambda z, o: terms._mk('over', z, o), z, old))
    return ok(n), st


@model('Encoder::compress_vec')
def m_compressvec(I, st, a, c):
    return ok(app('snappy', I.loadd(st, a[1]))), st


@model('crc32fast::hash')
def m_crc(I, st, a, c):
    r = app('crc32', I.loadd(st, a[0]))
    for l in leaves(r):
        TYPEOF.setdefault(l, ('int', 'u32'))
    return r, st


@model('Digest::digest')
def m_digest(I, st, a, c):
    return app('sha256', I.loadd(st, a[0])), st


@model('hex::encode')
def m_hex(I, st, a, c):
    return app('hex', I.loadd(st, a[0])), st


@model('File::create')
def m_create(I, st, a, c):
    p = I.loadd(st, a[0])
    return ite(isv(sym('create_result'), 1, 2), err(sym('create_error')), ok(adt('Sink', 0, K(0), EMPTY))), st


@model('io::copy')
def m_copy(I, st, a, c):
    src = I.loadd(st, a[0])
    n = length(src)
    o = sink_append(I, st, a[1], src, ok(n))
    if o is None:
        return None
    I.store(o[1], deref1(I, o[1], a[0]), EMPTY)
    return o


# ------------------------------------------------------------------ operator traits used through references
def _optype(I, c, i=0):
    ty = c['argty'][i] if c.get('argty') and i < len(c['argty']) else None
    while ty is not None and I.F.types[ty]['k'] in ('ref', 'ptr'):
        ty = I.F.types[ty]['e']
    return I.F.tyof(ty) if ty is not None else None


@model('Add::add', 'Sub::sub', 'Mul::mul', 'Div::div', 'Rem::rem', 'BitAnd::bitand', 'BitOr::bitor', 'BitXor::bitxor', 'Shl::shl',
       'Shr::shr')
def m_op(I, st, a, c):
    t = _optype(I, c)
    if t is None or t[0] not in ('int', 'float', 'bool'):
        return opq('operator'), st
    n = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'bitand': 'BitAnd', 'bitor': 'BitOr',
         'bitxor': 'BitXor', 'shl': 'Shl', 'shr': 'Shr'}[c['n']]
    x, y = I.loadd(st, a[0]), I.loadd(st, a[1])
    if t[0] == 'int' and n in ('Add', 'Sub', 'Mul'):
        v = I.binop(n + 'WithOverflow', x, y, t, st)
        if v.a[1] is not FALSE:
            st = I.require(st, not_(v.a[1]), 'overflow:' + n)
            if st is None:
                return None
        return v.a[0], st
    return I.binop(n, x, y, t), st


@model('AddAssign::add_assign', 'SubAssign::sub_assign', 'MulAssign::mul_assign', 'DivAssign::div_assign', 'BitOrAssign::bitor_assign',
       'BitAndAssign::bitand_assign', 'BitXorAssign::bitxor_assign', 'ShlAssign::shl_assign', 'ShrAssign::shr_assign')
def m_opassign(I, st, a, c):
    c2 = dict(c, n=c['n'][:-7])
    v, st = m_op(I, st, a, c2)
    I.store(st, a[0], v)
    return UNIT, st


@model('Not::not', 'Neg::neg')
def m_notneg(I, st, a, c):
    t = _optype(I, c)
    x = I.loadd(st, a[0])
    if c['n'] == 'not':
        if t == ('bool',):
            return not_(asb(x)), st
        if t and t[0] == 'int':
            return I.bnot(t[1], x), st
    elif t and t[0] == 'int':
        return scale(x, -1), st
    elif t and t[0] == 'float':
        return app('fneg', t[1], x), st
    return opq('operator'), st


# ---------------------------------------------------------------- byte sources
@model('Read::read_exact')
def m_read_exact(I, st, a, c):
    r = deref1(I, st, a[0])
    n = I.length(I.loadd(st, a[1]))
    if n.op != 'k':
        raise Und('read_exact of unknown size')

    def f(v, s):
        if v.op != 'adt' or v.a[0] != 'Source':
            raise Und('read from ' + v.op)
        segs = list(segs_of(v.a[2]))
        got = []
        while len(got) < n.a[0]:
            if not segs:
                I.store(s, r, adt('Source', 0, EMPTY))
                return err(terms._mk('ioerr', 'eof')), s
            if segs[0].op != 'e':
                raise Und('read of ' + segs[0].op)
            got.append(segs.pop(0))
        I.store(s, r, adt('Source', 0, seqval(segs)))
        I.store(s, a[1], seqval(got))
        return ok(UNIT), s
    return perleaf(I, st, I.load(st, r), f)


# ------------------------------------------------------------------ vec![a, b, ..]
@model('Box::new_uninit')
def m_newuninit(I, st, a, c):
    return adt('?', 0, UNIT, adt('?', 0, UNIT)), st


@model('box_assume_init_into_vec_unsafe', 'boxed::box_assume_init_into_vec_unsafe')
def m_boxvec(I, st, a, c):
    v = a[0]
    if v.op == 'ref':
        v = I.load(st, v)
    if v.op == 'adt' and len(v.a) == 4 and v.a[3].op == 'adt' and len(v.a[3].a) == 3:
        return v.a[3].a[2], st
    raise Und('vec! of ' + v.op)
