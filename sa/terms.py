"""Hash-consed value terms: the abstract domain of the value-numbering analysis.

A value is a term; two program values are congruent when their terms are the
same object.  Conditional values are multi-terminal decision diagrams over
boolean atoms ('ite' nodes, ordered by atom), integers are linear forms, byte
sequences are lists of segments.  Everything is normalised on construction.
"""
import sys
sys.setrecursionlimit(200000)


class T:
    __slots__ = ('op', 'a', 'id', 'opq', 'h')

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]
TYPEOF = {}          # side table: term -> MIR type (tuple), not part of identity
FRANK = {}           # float symbols of which no two are equal, in this order
RANK = {}            # key symbols assumed distinct, in this order
BOUND = {}           # symbol -> (lo, hi): interval a context restricts it to
ORIGIN = {}          # side table: term -> source span where it was created


def _mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _n[0] += 1
        t.id = _n[0]
        o = op in ('opq', 'havoc')
        h = 0
        if op in ('star', 'sum', 'lam'):
            h = 0
        for x in a:
            if isinstance(x, T):
                if x.opq:
                    o = True
                if x.h > h:
                    h = x.h
        if op in ('star', 'sum', 'lam'):
            h = a[0]
        t.opq = o
        t.h = h
        _tab[k] = t
    return t


# ------------------------------------------------------------------ constants
def K(n):
    return _mk('k', int(n))


DEAD = _mk('dead')
TRUE = _mk('k', True, 'b')
FALSE = _mk('k', False, 'b')
UNIT = _mk('tuple')


def B(b):
    return TRUE if b else FALSE


def STR(b):
    if isinstance(b, str):
        b = b.encode()
    return _mk('str', b)


def FL(ty, bits):
    return _mk('f', ty, bits)


def isk(t):
    return t.op == 'k' and len(t.a) == 1


def isbool(t):
    return t is TRUE or t is FALSE


def sym(name, ty=None):
    t = _mk('sym', name)
    if ty is not None:
        TYPEOF.setdefault(t, ty)
    return t


_fresh = [0]


def fresh(name, ty=None):
    _fresh[0] += 1
    return sym('%s#%d' % (name, _fresh[0]), ty)


def opq(why):
    _fresh[0] += 1
    return _mk('opq', why, _fresh[0])


# ------------------------------------------------------------------ decision diagrams
INT_RANGE = {'u8': (0, 2**8 - 1), 'u16': (0, 2**16 - 1), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1),
             'usize': (0, 2**64 - 1), 'u128': (0, 2**128 - 1),
             'i8': (-2**7, 2**7 - 1), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1),
             'i64': (-2**63, 2**63 - 1), 'isize': (-2**63, 2**63 - 1), 'i128': (-2**127, 2**127 - 1)}
WIDTH = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64,
         'usize': 64, 'isize': 64, 'u128': 128, 'i128': 128}


def lit(atom):
    """boolean value of an atom"""
    return _mk('ite', atom, TRUE, FALSE)


def asb(t):
    if t.op == 'ite' or isbool(t):
        return t
    if t.op == 'dead':
        return FALSE
    return lit(t)


def _family(atom):
    if atom.op == 'isv':
        return ('isv', atom.a[0])
    if atom.op == 'eq' and atom.a[1].op in ('k', 'str'):
        return ('eq', atom.a[0])
    return None


_cof = {}


def _drop_family(t, fam, keep):
    """t under the assumption that no atom of the family except keep holds"""
    if t.op != 'ite':
        return t
    key = (t, fam, keep)
    r = _cof.get(key)
    if r is not None:
        return r
    x, hi, lo = t.a
    f = _family(x)
    if f == fam and x is not keep:
        r = _drop_family(lo, fam, keep)
    else:
        h2 = _drop_family(hi, fam, keep)
        l2 = _drop_family(lo, fam, keep)
        r = t if (h2 is hi and l2 is lo) else (h2 if h2 is l2 else _mk('ite', x, h2, l2))
    _cof[key] = r
    return r


def _node(x, hi, lo):
    f = _family(x)
    if f is not None:
        hi = _drop_family(hi, f, x)
    if hi is lo:
        return hi
    if hi is DEAD:
        return lo
    if lo is DEAD:
        return hi
    return _mk('ite', x, hi, lo)


_itec = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    # a value that no execution reads (wrong variant, behind a failed check) is a don't-care
    if a is DEAD:
        return b
    if b is DEAD:
        return a
    if c is DEAD:
        return DEAD
    if c.op != 'ite':
        c = lit(c)
    if a is TRUE and b is FALSE:
        return c
    key = (c, a, b)
    r = _itec.get(key)
    if r is not None:
        return r
    v = c.a[0]
    if a.op == 'ite' and a.a[0].id < v.id:
        v = a.a[0]
    if b.op == 'ite' and b.a[0].id < v.id:
        v = b.a[0]
    c1, c0 = cof(c, v)
    a1, a0 = cof(a, v)
    b1, b0 = cof(b, v)
    r = _node(v, ite(c1, a1, b1), ite(c0, a0, b0))
    _itec[key] = r
    return r


def cof(t, v):
    if t.op == 'ite' and t.a[0] is v:
        return t.a[1], t.a[2]
    return t, t


def and_(a, b):
    return ite(a, b, FALSE)


def or_(a, b):
    return ite(a, TRUE, b)


def not_(a):
    return ite(a, FALSE, TRUE)


_resc = {}


def restrict(t, care):
    """t simplified under the assumption care (both diagrams)"""
    if care is TRUE or care is FALSE or t.op != 'ite':
        return t
    key = (t, care)
    r = _resc.get(key)
    if r is not None:
        return r
    v = care.a[0]
    if v.id < t.a[0].id:
        c1, c0 = care.a[1], care.a[2]
        if c1 is FALSE:
            r = restrict(t, c0)
        elif c0 is FALSE:
            f = _family(v)
            tt = _drop_family(t, f, v) if f else t
            r = restrict(tt, c1)
        else:
            r = restrict(t, or_(c1, c0))
    else:
        x, hi, lo = t.a
        c1, c0 = cof(care, x)
        if c1 is FALSE:
            r = restrict(lo, c0)
        elif c0 is FALSE:
            r = restrict(hi, c1)
        else:
            h2, l2 = restrict(hi, c1), restrict(lo, c0)
            r = _node(x, h2, l2)
    _resc[key] = r
    return r


class Blowup(Exception):
    pass


LIFT_LIMIT = 4000


def lift(f, *args):
    """apply f to ite-free arguments, pushing conditionals outwards"""
    if DEAD in args:
        return DEAD
    if all(x.op != 'ite' for x in args):
        return f(*args)
    memo = {}
    cnt = [0]

    def go(xs):
        v = None
        for x in xs:
            if x.op == 'ite' and (v is None or x.a[0].id < v.id):
                v = x.a[0]
        if v is None:
            return DEAD if DEAD in xs else f(*xs)
        if xs in memo:
            return memo[xs]
        cnt[0] += 1
        if cnt[0] > LIFT_LIMIT:
            raise Blowup()
        hi = go(tuple(cof(x, v)[0] for x in xs))
        lo = go(tuple(cof(x, v)[1] for x in xs))
        r = ite(lit(v), hi, lo)
        memo[xs] = r
        return r
    try:
        return go(tuple(args))
    except Blowup:
        return opq('blowup')


def leaves(t, cond=TRUE):
    """(guard, leaf) pairs of a diagram"""
    out = []
    seen = {}

    def go(t):
        if t in seen:
            return
        seen[t] = 1
        if t.op == 'ite':
            go(t.a[1])
            go(t.a[2])
        else:
            out.append(t)
    go(t)
    return out


def atoms_of(t):
    out = []
    seen = set()

    def go(t):
        if t in seen or t.op != 'ite':
            return
        seen.add(t)
        if t.a[0] not in out:
            out.append(t.a[0])
        go(t.a[1])
        go(t.a[2])
    go(t)
    return out


# ------------------------------------------------------------------ aggregates
def adt(key, var, *fs):
    return _mk('adt', key, var, *fs)


def tup(*fs):
    if not fs:
        return UNIT
    return _mk('tuple', *fs)


def some(x):
    return adt('Option', 1, x)


NONE = adt('Option', 0)


def ok(x):
    return adt('Result', 0, x)


def err(x):
    return adt('Result', 1, x)


NVAR = {'Option': 2, 'Result': 2, 'CF': 2, 'Ordering': 3, 'Cow': 2, 'Bound': 3, 'Entry': 2}


def fld(v, key, var, i, ty=None):
    def f(v):
        if v.op == 'adt':
            if v.a[0] == key and v.a[1] == var and len(v.a) > 2 + i:
                return v.a[2 + i]
            if v.a[1] != var:
                return _mk('dead')
            return v.a[2 + i] if len(v.a) > 2 + i else opq('fld')
        if v.op in ('tuple', 'clo') and i < len(v.a) - (1 if v.op == 'clo' else 0):
            return v.a[i + (1 if v.op == 'clo' else 0)]
        if v.op == 'dead':
            return v
        if v.op == 'ref':
            return opq('fld of ref')
        t = _mk('fld', v, key, var, i)
        if ty is not None:
            TYPEOF.setdefault(t, ty)
        return t
    return lift(f, v)


def isv(v, k, nvar, key=None):
    """boolean: the enum value v is variant k"""
    def f(v):
        if v.op == 'adt':
            return B(v.a[1] == k)
        if v.op == 'dead':
            return FALSE
        if nvar and k == nvar - 1 and nvar > 1:
            r = TRUE
            for j in range(nvar - 1):
                r = and_(r, not_(lit(_mk('isv', v, j))))
            return r
        if nvar == 1:
            return TRUE
        return lit(_mk('isv', v, k))
    return lift(f, v)


# ------------------------------------------------------------------ integers
def _lin_parts(t):
    if t.op == 'k':
        return int(t.a[0]), {}
    if t.op == 'lin':
        d = {}
        for i in range(1, len(t.a), 2):
            d[t.a[i]] = t.a[i + 1]
        return t.a[0], d
    return 0, {t: 1}


def _lin(c, d):
    it = sorted(((t, k) for t, k in d.items() if k != 0), key=lambda x: x[0].id)
    if not it:
        return K(c)
    if c == 0 and len(it) == 1 and it[0][1] == 1:
        return it[0][0]
    fl = []
    for t, k in it:
        fl += [t, k]
    return _mk('lin', c, *fl)


def unbits(t):
    """a bit vector as an integer term (when it is one)"""
    if t.op == 'bits':
        n = 0
        w, sg = t.a[0], t.a[1]
        for i, b in enumerate(t.a[2:]):
            if b is TRUE:
                n |= 1 << i
            elif b is not FALSE:
                return None
        if sg and n >> (w - 1) & 1:
            n -= 1 << w
        return K(n)
    return t


def add(a, b):
    if a.op == 'k' and b.op == 'k':
        return K(a.a[0] + b.a[0])
    def f(a, b):
        if a.op == 'bits' or b.op == 'bits':
            r = bits_add(a, b)
            if r is not None:
                return r
        c1, d1 = _lin_parts(a)
        c2, d2 = _lin_parts(b)
        d = dict(d1)
        for t, k in d2.items():
            d[t] = d.get(t, 0) + k
        return _lin(c1 + c2, d)
    return lift(f, a, b)


def scale(a, k):
    def f(a):
        c, d = _lin_parts(a)
        return _lin(c * k, {t: x * k for t, x in d.items()})
    return lift(f, a)


def sub(a, b):
    return add(a, scale(b, -1))


def _mono(t):
    return list(t.a) if t.op == 'mul' else [t]


def mul(a, b):
    def f(a, b):
        c1, d1 = _lin_parts(a)
        c2, d2 = _lin_parts(b)
        d = {}
        c = c1 * c2

        def acc(t, k):
            d[t] = d.get(t, 0) + k
        for t, k in d1.items():
            if c2:
                acc(t, k * c2)
        for t, k in d2.items():
            if c1:
                acc(t, k * c1)
        for t1, k1 in d1.items():
            for t2, k2 in d2.items():
                m = _mk('mul', *sorted(_mono(t1) + _mono(t2), key=lambda x: x.id))
                acc(m, k1 * k2)
        return _lin(c, d)
    return lift(f, a, b)


def nonneg(t):
    if t.op == 'k':
        return t.a[0] >= 0
    if t.op in ('len', 'size', 'uvarlen', 'pos', 'band', 'bit', 'uabs', 'nchars'):
        return True
    if t.op == 'b' or t.op == 'idx':
        return True
    if t.op == 'bits':
        return not t.a[1] or t.a[-1] is FALSE
    if t.op == 'wrap':
        return t.a[0][0] == 'u'
    if t.op in ('div', 'rem', 'shr', 'imax', 'imin'):
        return all(nonneg(x) for x in t.a if isinstance(x, T))
    if t.op == 'sum':
        return nonneg(t.a[2])
    if t.op == 'lin':
        return t.a[0] >= 0 and all(t.a[i] > 0 if isinstance(t.a[i], int) else nonneg(t.a[i])
                                   for i in range(1, len(t.a)))
    if t.op == 'mul':
        return all(nonneg(x) for x in t.a)
    ty = TYPEOF.get(t)
    if ty and ty[0] == 'int' and ty[1][0] == 'u':
        return True
    return False


def small(t):
    """provably below 2^31 under the stated assumption that no buffer, string or
    collection handled at once reaches 2^31 elements"""
    if t.op == 'k':
        return -2**31 < t.a[0] < 2**31
    if t.op in ('len', 'size', 'uvarlen'):
        return True
    if t.op == 'lin':
        return abs(t.a[0]) < 2**20 and all(abs(x) < 1024 if isinstance(x, int) else small(x) for x in t.a[1:])
    if t.op == 'sum':
        return small(t.a[2])
    if t.op in ('div', 'rem', 'shr', 'imax', 'imin'):
        return small(t.a[0])
    return False


def rng(t):
    if t.op == 'k':
        return (t.a[0], t.a[0])
    if t in BOUND:
        return BOUND[t]
    if t.op == 'wrap':
        return INT_RANGE[t.a[0]]
    if t.op == 'uvarlen':
        return (1, 5)
    if t.op == 'len' and t.a[0].op == 'snappy':
        return (1, 2**31 - 1)
    if t.op in ('imin', 'imax'):
        rs = [rng(x) for x in t.a]
        if all(rs):
            f = min if t.op == 'imin' else max
            return (f(r[0] for r in rs), f(r[1] for r in rs))
    if t.op == 'div' and t.a[1].op == 'k' and t.a[1].a[0] > 0 or t.op == 'shr' and len(t.a) == 2 and t.a[1].op == 'k':
        d = t.a[1].a[0] if t.op == 'div' else 2**t.a[1].a[0]
        r = rng(t.a[0])
        if r and r[0] >= 0:
            return (r[0] // d, r[1] // d)
    if small(t):
        r = (0, 2**31 - 1) if nonneg(t) else (-2**31, 2**31 - 1)
        if t.op == 'lin':
            lo = hi = t.a[0]
            for i in range(1, len(t.a), 2):
                q, k = rng(t.a[i]), t.a[i + 1]
                if q is None:
                    return r
                lo += min(q[0] * k, q[1] * k)
                hi += max(q[0] * k, q[1] * k)
            return (max(lo, r[0]), min(hi, r[1]))
        return r
    if t.op in ('bits',):
        w = t.a[0]
        if t.a[1]:
            while w > 1 and t.a[w] is t.a[1 + w]:       # copies of the sign
                w -= 1
            return (0 if t.a[1 + w] is FALSE else -2**(w - 1), 2**(w - 1) - 1)
        while w and t.a[1 + w] is FALSE:
            w -= 1
        return (0, 2**w - 1)
    if t.op == 'lzcnt':
        r = rng(t.a[1])
        w = t.a[0]
        if r and r[0] >= 0 and r[1] < 2**w:
            return (w - r[1].bit_length(), w - r[0].bit_length())
        return (0, w)
    ty = TYPEOF.get(t)
    if ty and ty[0] == 'int':
        return INT_RANGE[ty[1]]
    if t.op in ('pos', 'sumlen'):
        return (0, 2**63 - 1)
    if t.op == 'bval':
        return (0, 1)
    if t.op in ('band', 'rem', 'shr', 'imin', 'imax', 'div'):
        try:
            rs = [rng(x) for x in t.a if isinstance(x, T)]
            if t.op == 'rem' and t.a[1].op == 'k' and t.a[1].a[0] > 0:
                m = t.a[1].a[0] - 1
                return (0 if rs[0] and rs[0][0] >= 0 else -m, m)
            if t.op in ('shr', 'div') and rs[0] and rs[0][0] >= 0:
                return (0, rs[0][1])
            if t.op == 'band':
                ms = [x.a[0] for x in t.a if isinstance(x, T) and x.op == 'k' and x.a[0] >= 0]
                if ms:
                    return (0, min(ms))
            if t.op in ('imin', 'imax') and all(rs):
                f = min if t.op == 'imin' else max
                return (f(r[0] for r in rs), f(r[1] for r in rs))
        except Exception:
            pass
    if t.op == 'lin':
        lo = hi = t.a[0]
        for i in range(1, len(t.a), 2):
            r = rng(t.a[i])
            if r is None:
                return None
            k = t.a[i + 1]
            lo += min(r[0] * k, r[1] * k)
            hi += max(r[0] * k, r[1] * k)
        return (lo, hi)
    return None


def wrap(ty, t):
    """t reduced into the range of integer type ty"""
    w = WIDTH[ty]

    def f(t):
        if t.op == 'bits':
            bs = list(t.a[2:])
            if len(bs) < w:
                bs += [bs[-1] if t.a[1] else FALSE] * (w - len(bs))
            return bits(w, ty[0] == 'i', bs[:w])
        if t.op == 'k':
            n = t.a[0] & ((1 << w) - 1)
            if ty[0] == 'i' and n >> (w - 1):
                n -= 1 << w
            return K(n)
        r = rng(t)
        lo, hi = INT_RANGE[ty]
        if r and r[0] >= lo and r[1] <= hi:
            return t
        t = modred(t, w)
        if t.op == 'k':
            return wrap(ty, t)
        r = rng(t)
        if r and r[0] >= lo and r[1] <= hi:
            return t
        return _mk('wrap', ty, t)
    return lift(f, t)


def modred(t, w):
    """canonical representative of t modulo 2^w (inner wraps of at least w bits dropped)"""
    M = 1 << w
    if t.op == 'wrap' and WIDTH[t.a[0]] >= w:
        return modred(t.a[1], w)
    if t.op == 'k':
        return K(t.a[0] % M)
    if t.op == 'bits' and t.a[0] >= w:
        return bits(w, False, list(t.a[2:2 + w]))
    if t.op == 'lin':
        c, d = _lin_parts(t)
        out = K(0)
        for x, k in d.items():
            out = add(out, scale(modred(x, w), k))
        c2, d2 = _lin_parts(out)
        d2 = {x: (k % M if k % M <= M // 2 else k % M - M) for x, k in d2.items()}
        return _lin((c + c2) % M, d2)
    if t.op == 'mul':
        r = K(1)
        for x in t.a:
            r = mul(r, modred(x, w))
        if r.op == 'lin':
            c2, d2 = _lin_parts(r)
            d2 = {x: (k % M if k % M <= M // 2 else k % M - M) for x, k in d2.items()}
            return _lin(c2 % M, d2)
        return r
    return t


def _bv(t, w):
    return modred(t, w)


def bitop(op, ty, a, b):
    w = WIDTH[ty]

    def f(a, b):
        if a.op == 'bits' or b.op == 'bits':
            x, y = tobits(a, w, ty), tobits(b, w, ty)
            if x is not None and y is not None:
                g = {'and': and_, 'or': or_, 'xor': lambda p, q: ite(p, not_(q), q)}[op]
                return bits(w, ty[0] == 'i', [g(p, q) for p, q in zip(x, y)])
        if a.op == 'k' and b.op == 'k':
            m = (1 << w) - 1
            p, q = a.a[0] & m, b.a[0] & m
            n = {'and': p & q, 'or': p | q, 'xor': p ^ q}[op]
            return wrap(ty, K(n))
        p, q = _bv(a, w), _bv(b, w)
        m = (1 << w) - 1
        for x, y, orig in ((p, q, b), (q, p, a)):
            if x.op == 'k':
                n = x.a[0]
                if op == 'and' and n == 0:
                    return K(0)
                if op == 'and' and n == m:
                    return orig
                if op in ('or', 'xor') and n == 0:
                    return orig
                if op == 'and' and (n & (n + 1)) == 0:
                    r = rng(orig)
                    if r and r[0] >= 0:
                        if r[1] <= n:
                            return orig
                        return rem(orig, K(n + 1))
        if p is q:
            return K(0) if op == 'xor' else a
        # a rotation written as two shifts
        if op in ('or', 'xor') or op == 'add':
            r = _as_rot(p, q, w) or _as_rot(q, p, w)
            if r is not None:
                return wrap(ty, r)
        args = []
        for x in (p, q):
            if x.op == 'b' + op and x.a[0] == w:
                args += list(x.a[1:])
            else:
                args.append(x)
        args.sort(key=lambda x: x.id)
        if op == 'xor':
            o = []
            for x in args:
                if o and o[-1] is x:
                    o.pop()
                else:
                    o.append(x)
            args = o
            if not args:
                return K(0)
            if len(args) == 1:
                return wrap(ty, args[0])
        if op in ('and', 'or'):
            args = [x for i, x in enumerate(args) if i == 0 or args[i - 1] is not x]
        t = _mk('b' + op, w, *args)
        if op == 'and' and any(x.op == 'k' for x in args):
            return t
        return wrap(ty, _mkbt(t, w))
    return lift(f, a, b)


def _mkbt(t, w):
    TYPEOF.setdefault(t, ('int', 'u%d' % w))
    return t


def _as_rot(p, q, w):
    # p = x << n  (x * 2^n mod 2^w), q = x >> (w-n) logical
    if q.op == 'shr' and q.a[1].op == 'k':
        n = w - q.a[1].a[0]
        x = q.a[0]
        if 0 < n < w and modred(scale(modred(x, w), 1 << n), w) is p:
            t = _mk('rotl', w, modred(x, w), n)
            return _mkbt(t, w)
    return None


def rotl(ty, a, n):
    w = WIDTH[ty]

    def f(a, n):
        if n.op == 'k':
            k = n.a[0] % w
            if a.op == 'k':
                m = a.a[0] & ((1 << w) - 1)
                return wrap(ty, K((m << k) | (m >> (w - k))))
            if a.op == 'bits':
                bs = list(a.a[2:])
                return bits(w, ty[0] == 'i', bs[-k:] + bs[:-k] if k else bs)
            if k == 0:
                return a
            return wrap(ty, _mkbt(_mk('rotl', w, modred(a, w), k), w))
        return _mk('rotlv', w, a, n)
    return lift(f, a, n)


def shl(ty, a, n):
    w = WIDTH[ty]

    def f(a, n):
        if n.op == 'bits':
            n = unbits(n) or n
        if n.op == 'k':
            k = n.a[0]
            if k < 0 or k >= w:
                return DEAD
            if a.op == 'bits':
                bs = list(a.a[2:])
                return bits(w, ty[0] == 'i', ([FALSE] * k + bs)[:w])
            return wrap(ty, scale(a, 1 << k))
        if a.op == 'k' and a.a[0] == 1:
            return _mk('pow2', ty, n)
        return _mk('shlv', ty, a, n)
    return lift(f, a, n)


def shr(ty, a, n):
    w = WIDTH[ty]

    def f(a, n):
        if n.op == 'bits':
            n = unbits(n) or n
        if n.op == 'k':
            k = n.a[0]
            if k < 0 or k >= w:
                return DEAD
            if k == 0:
                return a
            if a.op == 'bits':
                bs = list(a.a[2:])
                top = bs[-1] if ty[0] == 'i' else FALSE
                return bits(w, ty[0] == 'i', bs[k:] + [top] * k)
            if a.op == 'k':
                return K(a.a[0] >> k)
            if nonneg(a):
                if a.op == 'shr':
                    return shr(ty, a.a[0], K(k + a.a[1].a[0])) if a.a[1].op == 'k' else _mk('shr', a, n)
                a2 = a.a[1] if (a.op == 'wrap' and WIDTH[a.a[0]] == w and a.a[1].op != 'lin') and rngu(a.a[1], w) else a
                return _mkbt(_mk('shr', a2, n), w)
            return _mk('sar', ty, a, n)
        return _mk('shrv', ty, a, n)
    return lift(f, a, n)


def rngu(t, w):
    r = rng(t)
    return r is not None and r[0] >= 0 and r[1] < (1 << w)


def div(a, b):
    def f(a, b):
        if a.op == 'k' and b.op == 'k' and b.a[0] != 0:
            q = abs(a.a[0]) // abs(b.a[0])
            return K(q if (a.a[0] < 0) == (b.a[0] < 0) else -q)
        if b.op == 'k' and b.a[0] == 1:
            return a
        if b.op == 'k' and b.a[0] > 0 and nonneg(a):
            n = b.a[0]
            # exact parts of a linear form
            if a.op == 'lin':
                c, d = _lin_parts(a)
                if all(k % n == 0 for k in d.values()):
                    return _lin(c // n, {t: k // n for t, k in d.items()})
            # (x - x % n) / n  ==  x / n
            if a.op == 'lin':
                c, d = _lin_parts(a)
                for t, k in list(d.items()):
                    if k == -1 and t.op == 'rem' and t.a[1] is b:
                        d2 = dict(d)
                        del d2[t]
                        rest = _lin(c, d2)
                        if rest is t.a[0]:
                            return div(rest, b)
            if n & (n - 1) == 0:
                return shr('u64', a, K(n.bit_length() - 1))
        return _mk('div', a, b)
    return lift(f, a, b)


def rem(a, b):
    def f(a, b):
        if a.op == 'k' and b.op == 'k' and b.a[0] != 0:
            q = abs(a.a[0]) % abs(b.a[0])
            return K(-q if a.a[0] < 0 else q)
        if b.op == 'k' and b.a[0] == 1:
            return K(0)
        if a.op == 'bits' and b.op == 'k' and b.a[0] > 0 and b.a[0] & (b.a[0] - 1) == 0 and nonneg(a):
            k = b.a[0].bit_length() - 1
            bs = list(a.a[2:])
            return bits(a.a[0], a.a[1], bs[:k] + [FALSE] * (len(bs) - k))
        if b.op == 'k' and b.a[0] > 0 and a.op == 'lin' and nonneg(a):
            c, d = _lin_parts(a)
            n = b.a[0]
            if all(k % n == 0 for k in d.values()):
                return K(c % n)
        return _mk('rem', a, b)
    return lift(f, a, b)


def neg(a):
    return scale(a, -1)


def imax(a, b):
    def f(a, b):
        if a.op == 'k' and b.op == 'k':
            return K(max(a.a[0], b.a[0]))
        if a is b:
            return a
        xs = []
        for t in (a, b):
            xs += list(t.a) if t.op == 'imax' else [t]
        ks = [t.a[0] for t in xs if t.op == 'k']
        xs = sorted(set(t for t in xs if t.op != 'k'), key=lambda t: t.id)
        if ks:
            m = max(ks)
            if not (m <= 0 and all(nonneg(t) for t in xs)):
                xs = [K(m)] + xs
        return xs[0] if len(xs) == 1 else _mk('imax', *xs)
    return lift(f, a, b)


def imin(a, b):
    def f(a, b):
        if a.op == 'k' and b.op == 'k':
            return K(min(a.a[0], b.a[0]))
        if a is b:
            return a
        return _mk('imin', *sorted((a, b), key=lambda t: t.id))
    return lift(f, a, b)


def gt0(L):
    """L > 0 for an integer linear form"""
    def f(L):
        L = unbits(L) or L
        if L.op == 'k':
            return B(L.a[0] > 0)
        r = rng(L)
        if r:
            if r[0] > 0:
                return TRUE
            if r[1] <= 0:
                return FALSE
        c, d = _lin_parts(L)
        if len(d) >= 2:
            # a compressed block never exceeds the bound the compressor announces
            for t, k in d.items():
                if t.op == 'maxcomp':
                    for u, m in d.items():
                        if u.op == 'len' and u.a[0].op == 'snappy' and m == -k and length(u.a[0].a[0]) is t.a[0]:
                            r = rng(_lin(c, {x: y for x, y in d.items() if x not in (t, u)}))
                            if r and k > 0 and r[0] > 0:
                                return TRUE
                            if r and k < 0 and r[1] <= 0:
                                return FALSE
        its = sorted(d.items(), key=lambda x: x[0].id)
        from math import gcd
        g = 0
        for _, k in its:
            g = gcd(g, abs(k))
        if g > 1:
            # g*S + c > 0  <=>  S > -c/g  <=> S + ceil-ish
            d = {t: k // g for t, k in d.items()}
            c = -((-c) // g)  # ceil(c/g): S > -c/g <=> S >= floor(-c/g)+1
            c = -(((-c * g + (c * g - c * g)) // g)) if False else c
            its = sorted(d.items(), key=lambda x: x[0].id)
        lead = its[0][1]
        if lead < 0:
            # L > 0  <=>  not (1 - L > 0)
            return not_(gt0(_lin(1 - c, {t: -k for t, k in d.items()})))
        if len(its) == 1 and lead == 1 and c == 0 and nonneg(its[0][0]):
            return not_(eq(its[0][0], K(0)))
        if len(its) == 1 and lead == 1 and c > 0 and nonneg(its[0][0]):
            return TRUE
        return lit(_mk('gt0', _lin(c, d)))
    return lift(f, L)


def lt(a, b):
    def f(a, b):
        if (a.op == 'bits' or b.op == 'bits'):
            r = bits_lt(a, b)
            if r is not None:
                return r
        return gt0(sub(b, a))
    return lift(f, a, b)


def le(a, b):
    return not_(lt(b, a))


def eq(a, b):
    def f(a, b):
        if a is b:
            return TRUE
        if isbool(a) or isbool(b):
            if isbool(a) and isbool(b):
                return B(a is b)
        if a.op == 'adt' and b.op == 'adt':
            if a.a[1] != b.a[1]:
                return FALSE
            r = TRUE
            for x, y in zip(a.a[2:], b.a[2:]):
                r = and_(r, eq(x, y))
            return r
        if a.op == 'tuple' and b.op == 'tuple':
            r = TRUE
            for x, y in zip(a.a, b.a):
                r = and_(r, eq(x, y))
            return r
        for x, y in ((a, b), (b, a)):
            if x.op == 'adt' and y.op not in ('adt', 'tuple', 'k', 'lin'):
                nv = NVAR.get(x.a[0])
                if nv:
                    r = isv(y, x.a[1], nv)
                    for i, z in enumerate(x.a[2:]):
                        r = and_(r, eq(z, fld(y, x.a[0], x.a[1], i)))
                    return r
        if a in RANK and b in RANK:
            return B(RANK[a] == RANK[b])
        if a.op == 'str' and b.op == 'str':
            return B(a.a[0] == b.a[0])
        if a.op == 'f' and b.op == 'f':
            return _mkatom('feq', a, b)
        if a.op == 'bits' or b.op == 'bits':
            w = (a if a.op == 'bits' else b).a[0]
            ty = ('i' if (a if a.op == 'bits' else b).a[1] else 'u') + str(w)
            x, y = tobits(a, w, ty), tobits(b, w, ty)
            if x is not None and y is not None:
                r = TRUE
                for p, q in zip(x, y):
                    r = and_(r, ite(p, q, not_(q)))
                return r
        num = lambda t: t.op in ('k', 'lin', 'len', 'size', 'wrap', 'pos', 'sum', 'mul', 'shr', 'rem', 'div') or \
            (TYPEOF.get(t, ('?',))[0] == 'int')
        if num(a) or num(b):
            d = sub(a, b)
            if d.op == 'k':
                return B(d.a[0] == 0)
            r = rng(d)
            if r and (r[0] > 0 or r[1] < 0):
                return FALSE
            c, m = _lin_parts(d)
            its = sorted(m.items(), key=lambda x: x[0].id)
            if its[0][1] < 0:
                c, m = -c, {t: -k for t, k in m.items()}
                its = [(t, -k) for t, k in its]
            if len(its) == 1:
                k = its[0][1]
                if c % k:
                    return FALSE
                return lit(_mk('eq', its[0][0], K(-c // k)))
            return lit(_mk('eq', _lin(c, m), K(0)))
        if b.id < a.id and not b.op == 'str' or a.op == 'str':
            a, b = b, a
        return lit(_mk('eq', a, b))
    return lift(f, a, b)


def _mkatom(op, *a):
    return lit(_mk(op, *a))


def atom(op, *a):
    """lifted boolean atom"""
    return lift(lambda *xs: lit(_mk(op, *xs)), *a)


def app(op, *a):
    """lifted uninterpreted application; non-term arguments come first as strings"""
    pre = [x for x in a if not isinstance(x, T)]
    xs = [x for x in a if isinstance(x, T)]
    return lift(lambda *ys: _mk(op, *(pre + list(ys))), *xs)


# ------------------------------------------------------------------ bit vectors
def bits(w, signed, bs):
    return _mk('bits', w, bool(signed), *bs)


def symbits(name, ty):
    w = WIDTH[ty]
    s = sym(name)
    return bits(w, ty[0] == 'i', [lit(_mk('bit', s, i)) for i in range(w)])


def tobits(t, w, ty):
    if t.op == 'bits':
        bs = list(t.a[2:])
        if len(bs) < w:
            bs += [bs[-1] if t.a[1] else FALSE] * (w - len(bs))
        return bs[:w]
    if t.op == 'k':
        n = t.a[0] & ((1 << w) - 1)
        return [B(n >> i & 1) for i in range(w)]
    return None


def bits_not(ty, t):
    w = WIDTH[ty]
    b = tobits(t, w, ty)
    return bits(w, ty[0] == 'i', [not_(x) for x in b])


def bits_add(a, b):
    """addition of bit vectors: constants, or operands with disjoint possible bits"""
    x = unbits(a)
    y = unbits(b)
    if x is not None and y is not None and x.op != 'bits' and y.op != 'bits':
        return add(x, y)
    v = a if a.op == 'bits' else b
    w, sg = v.a[0], v.a[1]
    ty = ('i' if sg else 'u') + str(w)
    p, q = tobits(a, w, ty), tobits(b, w, ty)
    if p is None or q is None:
        return None
    carry = FALSE
    out = []
    for s, t in zip(p, q):
        xr = ite(s, not_(t), t)
        out.append(ite(xr, not_(carry), carry))
        carry = or_(and_(s, t), and_(carry, xr))
        if bdd_size(carry) > 400:
            return None
    return bits(w, sg, out)


def bdd_size(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen or x.op != 'ite':
            continue
        seen.add(x)
        if len(seen) > 1000:
            return 1000
        st += [x.a[1], x.a[2]]
    return len(seen)


def bits_lt(a, b):
    v = a if a.op == 'bits' else b
    w, sg = v.a[0], v.a[1]
    ty = ('i' if sg else 'u') + str(w)
    p, q = tobits(a, w, ty), tobits(b, w, ty)
    if p is None or q is None:
        return None
    if sg:
        p[-1], q[-1] = q[-1], p[-1]
    r = FALSE
    for s, t in zip(p, q):  # from LSB to MSB
        e = ite(s, t, not_(t))
        r = ite(e, r, and_(not_(s), t))
    return r


# ------------------------------------------------------------------ sequences
def e_(v):
    return _mk('e', v)


def splice(s):
    return _mk('splice', s)


EMPTY = _mk('seq')


def segs_of(v):
    """segments of a sequence-like value"""
    if v.op == 'seq':
        return list(v.a)
    if v.op == 'arr':
        return [e_(x) for x in v.a]
    if v.op == 'str':
        return [e_(K(b)) for b in v.a[0]]
    if v.op == 'be':
        n, x = v.a
        if x.op == 'k':
            return [e_(K((x.a[0] >> (8 * (n - 1 - i))) & 255)) for i in range(n)]
        if x.op == 'bits':
            bs = tobits(x, n * 8, 'u64')
            return [e_(bits(8, False, bs[8 * (n - 1 - i):8 * (n - i)])) for i in range(n)]
        if n == 1:
            return [e_(x)]
        return [v]
    if v.op == 'le':
        n, x = v.a
        if x.op == 'k':
            return [e_(K((x.a[0] >> (8 * i)) & 255)) for i in range(n)]
        if n == 1:
            return [e_(x)]
        return [v]
    if v.op == 'ite':
        return [alt(v.a[0], segs_of(v.a[1]), segs_of(v.a[2]))]
    return [splice(v)]


def mkbe(n, x):
    return lift(lambda x: _mk('be', n, modredk(x, n)), x)


def modredk(x, n):
    # bytes of x: signedness is irrelevant
    if x.op == 'wrap' and WIDTH[x.a[0]] == 8 * n:
        return x.a[1] if x.a[1].op not in ('lin', 'mul') else _mk('wrap', 'u%d' % (8 * n), x.a[1])
    return x


def mkle(n, x):
    return lift(lambda x: _mk('le', n, x), x)


def altc(c, A, B_):
    """segments for a conditional with a diagram condition"""
    if c is TRUE:
        return list(A)
    if c is FALSE:
        return list(B_)
    A, B_ = list(A), list(B_)
    if A == B_:
        return A
    pre, post = [], []
    while A and B_ and A[0] is B_[0]:
        pre.append(A.pop(0))
        B_.pop(0)
    while A and B_ and A[-1] is B_[-1]:
        post.insert(0, A.pop())
        B_.pop()
    return pre + [_mk('alt', c, _mk('seq', *A), _mk('seq', *B_))] + post


def alt(atomt, A, B_):
    r = altc(lit(atomt), A, B_)
    return r[0] if len(r) == 1 else splice(seq(r))


def seq(segs):
    out = []
    for s in segs:
        if s.op == 'splice':
            inner = s.a[0]
            if inner.op in ('seq', 'arr', 'str', 'be', 'le'):
                out += segs_of(inner) if inner.op != 'seq' else list(inner.a)
                continue
            if inner.op == 'ite':
                out.append(s)
                continue
        out.append(s)
    # canonicalise: flatten splices of seqs, merge adjacent alts on the same condition
    res = []
    for s in out:
        if s.op == 'star' and isk(s.a[1]) and s.a[1].a[0] == 0:
            continue
        if s.op == 'be' and (s.a[1].op in ('k', 'bits') or s.a[0] == 1):
            res += segs_of(s)
            continue
        if s.op == 'alt':
            if s.a[0] is TRUE:
                res += list(s.a[1].a)
                continue
            if s.a[0] is FALSE:
                res += list(s.a[2].a)
                continue
            if res and res[-1].op == 'alt' and res[-1].a[0] is s.a[0]:
                p = res.pop()
                res += altc(s.a[0], list(p.a[1].a) + list(s.a[1].a), list(p.a[2].a) + list(s.a[2].a))
                continue
            if s.a[1] is s.a[2]:
                res += list(s.a[1].a)
                continue
            # an ite element: alt(c,[e x],[e y]) -> e(ite(c,x,y))
            A, B_ = seq(s.a[1].a).a, seq(s.a[2].a).a
            if len(A) == len(B_) and A and all(x.op == 'e' and y.op == 'e' for x, y in zip(A, B_)):
                res += [e_(ite(s.a[0], x.a[0], y.a[0])) for x, y in zip(A, B_)]
                continue
            if len(A) == len(B_) and A and all(x.op == y.op and x.op in ('be', 'le', 'uvar') and x.a[:-1] == y.a[:-1] for x, y in zip(A, B_)):
                res += [_mk(x.op, *(x.a[:-1] + (ite(s.a[0], x.a[-1], y.a[-1]),))) for x, y in zip(A, B_)]
                continue
        res.append(s)
    # whole-sequence splice
    return _mk('seq', *res)


def seqval(segs):
    s = seq(segs)
    if len(s.a) == 1 and s.a[0].op == 'splice':
        return s.a[0].a[0]
    return s


def append(v, segs):
    """v ++ segs"""
    if v.op == 'ite':
        # distribute: keep as alternatives
        return seqval(altc_val(v) + list(segs))
    if v.op == 'seq' and len(v.a) > 40:
        # the front is in normal form already; only two conditionals side by side would be merged
        new = seq(segs).a
        if not new:
            return v
        if v.a[-1].op != 'alt' or new[0].op != 'alt':
            return longer(v, new)
    return seqval(segs_of(v) + list(segs))


LEN = {}


def longer(v, new):
    k = ('seq',) + v.a + new
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = 'seq'
        t.a = k[1:]
        _n[0] += 1
        t.id = _n[0]
        t.opq = v.opq or any(x.opq for x in new)
        t.h = max([v.h] + [x.h for x in new])
        _tab[k] = t
    if v in LEN and t not in LEN:
        r = LEN[v]
        for s in new:
            r = add(r, seglen(s))
        LEN[t] = r
    return t


def altc_val(v):
    if v.op == 'ite':
        return altc(lit(v.a[0]), altc_val(v.a[1]), altc_val(v.a[2]))
    return segs_of(v)


def seglen(s):
    if s.op == 'e':
        return K(1)
    if s.op in ('be', 'le'):
        return K(s.a[0])
    if s.op == 'uvar':
        return uvarlen(s.a[0])
    if s.op == 'splice':
        return length(s.a[0])
    if s.op == 'alt':
        return ite(s.a[0], length(s.a[1]), length(s.a[2]))
    if s.op == 'star':
        h, n, body = s.a
        return mksum(n, T_b(h), length(body))
    return _mk('len', s)


def uvarlen(x):
    def f(x):
        if x.op == 'k':
            n = x.a[0] & 0xffffffff
            k = 1
            while n >= 128:
                n >>= 7
                k += 1
            return K(k)
        return _mk('uvarlen', x)
    return lift(f, x)


def length(v):
    def f(v):
        if v.op == 'seq':
            if v in LEN:
                return LEN[v]
            r = K(0)
            for s in v.a:
                r = add(r, seglen(s))
            if len(v.a) > 40:
                LEN[v] = r
            return r
        if v.op == 'arr':
            return K(len(v.a))
        if v.op == 'str':
            return K(len(v.a[0]))
        if v.op in ('be', 'le'):
            return K(v.a[0])
        if v.op == 'slice':
            return sub(v.a[2], v.a[1])
        if v.op == 'repeat':
            return v.a[1]
        if v.op == 'over':
            return length(v.a[1])
        return _mk('len', v)
    return lift(f, v)


def slice_(v, a, b):
    """bytes a..b of v"""
    def f(v, a, b):
        if a is K(0) and b is length(v):
            return v
        if v.op == 'over' and a is K(0) and b is length(v.a[0]):
            return v.a[0]
        if v.op in ('seq', 'arr', 'str', 'be') and a.op == 'k':
            ss = segs_of(v)
            # cut at segment boundaries when the offsets match
            pos = K(0)
            i = 0
            while i <= len(ss) and pos is not a:
                if i == len(ss):
                    break
                pos = add(pos, seglen(ss[i]))
                i += 1
            if pos is a:
                st = i
                j = i
                while j <= len(ss) and pos is not b:
                    if j == len(ss):
                        break
                    pos = add(pos, seglen(ss[j]))
                    j += 1
                if pos is b:
                    return seqval(ss[st:j])
        elif v.op in ('seq',):
            ss = segs_of(v)
            pos = K(0)
            i = 0
            while i < len(ss) and pos is not a:
                pos = add(pos, seglen(ss[i]))
                i += 1
            if pos is a:
                st = i
                while i < len(ss) and pos is not b:
                    pos = add(pos, seglen(ss[i]))
                    i += 1
                if pos is b:
                    return seqval(ss[st:i])
        return _mk('slice', v, a, b)
    return lift(f, v, a, b)


def index(v, i, ty=None):
    def f(v, i):
        i2 = unbits(i)
        if i2 is not None:
            i = i2
        if v.op == 'arr' and i.op == 'k' and 0 <= i.a[0] < len(v.a):
            return v.a[i.a[0]]
        if v.op == 'str' and i.op == 'k' and 0 <= i.a[0] < len(v.a[0]):
            return K(v.a[0][i.a[0]])
        if v.op in ('be', 'seq') and i.op == 'k':
            n = i.a[0]
            for s in segs_of(v):
                if s.op == 'e':
                    if n == 0:
                        return s.a[0]
                    n -= 1
                else:
                    break
        if v.op == 'seq' and len(v.a) == 1 and v.a[0].op == 'star' and len(v.a[0].a[2].a) == 1 \
                and v.a[0].a[2].a[0].op == 'e':
            s = v.a[0]
            return subst(s.a[2].a[0].a[0], {T_b(s.a[0]): i})
        if v.op == 'repeat':
            return v.a[0]
        if v.op == 'slice':
            return index(v.a[0], add(v.a[1], i), ty)
        if v.op == 'dead':
            return v
        if v.op == 'upd' and v.a[1] is i:
            return v.a[2]
        t = _mk('index', v, i)
        if ty is not None:
            TYPEOF.setdefault(t, ty)
        return t
    return lift(f, v, i)


def update(v, i, x):
    def f(v, i):
        i2 = unbits(i)
        if i2 is not None:
            i = i2
        if v.op == 'arr' and i.op == 'k' and 0 <= i.a[0] < len(v.a):
            l = list(v.a)
            l[i.a[0]] = x
            return _mk('arr', *l)
        if v.op in ('seq', 'str', 'be') and i.op == 'k':
            ss = segs_of(v)
            if all(s.op == 'e' for s in ss[:i.a[0] + 1]) and i.a[0] < len(ss):
                ss = list(ss)
                ss[i.a[0]] = e_(x)
                return seq(ss)
        if v.op == 'upd' and v.a[1] is i:
            v = v.a[0]
        return _mk('upd', v, i, x)
    return lift(f, v, i)


# ------------------------------------------------------------------ binders
def T_b(h):
    return _mk('b', h)


def _close(var, body):
    """name the bound variable by the height of the body"""
    body0 = body
    h = body.h + 1
    return h, subst(body0, {var: T_b(h)})


def mkstar(n, var, body):
    """segments body(var) for var = 0..n"""
    body = seq(list(body.a) if body.op == 'seq' else [body])
    if not body.a:
        return []
    if n.op == 'k' and n.a[0] <= 64:
        out = []
        for i in range(max(0, n.a[0])):
            out += list(subst(body, {var: K(i)}).a)
        return out
    # [v[i] for i in 0..len(v)] is v itself
    if len(body.a) == 1 and body.a[0].op == 'e':
        x = body.a[0].a[0]
        if x.op == 'index' and x.a[1] is var and not occurs(x.a[0], var) and n is length(x.a[0]):
            return segs_of(x.a[0])
    if n.op == 'ite':
        return altc(lit(n.a[0]), mkstar(n.a[1], var, body), mkstar(n.a[2], var, body))
    if len(body.a) == 1 and body.a[0].op == 'alt' and not body.a[0].a[2].a and not body.a[0].a[1].a:
        return []
    if not occurs(n, var) and all(s.op == 'e' and not occurs(s, var) for s in body.a) and len(body.a) == 1:
        return [splice(_mk('repeat', body.a[0].a[0], n))]
    h, b = _close(var, body)
    return [_mk('star', h, n, b)]


def mksum(n, var, body):
    if body.op == 'k':
        return scale(n, body.a[0])
    if not occurs(body, var):
        return mul(n, body)
    if n.op == 'k' and n.a[0] <= 64:
        r = K(0)
        for i in range(max(0, n.a[0])):
            r = add(r, subst(body, {var: K(i)}))
        return r

    def f(n, body):
        c, d = _lin_parts(body)
        r = scale(n, c)
        for t, k in d.items():
            if not occurs(t, var):
                r = add(r, scale(mul(n, t), k))
            else:
                h, b = _close(var, t)
                r = add(r, scale(_mk('sum', h, n, b), k))
        return r
    if n.op == 'ite':
        return lift(lambda n: mksum(n, var, body), n)
    if body.op == 'ite':
        if all(not occurs(a, var) for a in atoms_of(body)):
            return lift(lambda b: mksum(n, var, b), body)
        h, b = _close(var, body)
        return _mk('sum', h, n, b)
    return f(n, body)


def mklam(var, body):
    h, b = _close(var, body)
    return _mk('lam', h, b)


_occ = {}


def occurs(t, v):
    key = (t, v)
    r = _occ.get(key)
    if r is None:
        if t is v:
            r = True
        else:
            r = any(occurs(x, v) for x in t.a if isinstance(x, T))
        _occ[key] = r
    return r


def any_op(t, ops):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ops:
            return True
        st += [y for y in x.a if isinstance(y, T)]
    return False


def subst(t, m):
    memo = {}
    keys = set(m)

    def go(t):
        if t in keys:
            return m[t]
        r = memo.get(t)
        if r is not None:
            return r
        if not any(isinstance(x, T) for x in t.a):
            memo[t] = t
            return t
        if t.op in ('star', 'sum', 'lam'):
            # rename the binder apart, substitute, close again
            if not any(occurs(x, k) for k in keys for x in t.a if isinstance(x, T)):
                memo[t] = t
                return t
            h = t.a[0]
            v = fresh('bind')
            TYPEOF[v] = ('int', 'usize')
            body = subst(t.a[-1], {T_b(h): v}) if occurs(t.a[-1], T_b(h)) else t.a[-1]
            body = go(body)
            if t.op == 'star':
                n = go(t.a[1])
                r = seq(mkstar(n, v, body))
                r = r.a[0] if len(r.a) == 1 else splice(r)
            elif t.op == 'sum':
                r = mksum(go(t.a[1]), v, body)
            else:
                r = mklam(v, body)
        else:
            new = [go(x) if isinstance(x, T) else x for x in t.a]
            if all(x is y for x, y in zip(new, t.a)):
                r = t
            else:
                r = rebuild(t.op, new, t)
        memo[t] = r
        return r
    return go(t)


def rebuild(op, a, old=None):
    if op == 'ite':
        return ite(asb(a[0]), a[1], a[2])
    if op == 'lin':
        r = K(a[0])
        for i in range(1, len(a), 2):
            r = add(r, scale(a[i], a[i + 1]))
        return r
    if op == 'mul':
        r = K(1)
        for x in a:
            r = mul(r, x)
        return r
    if op == 'wrap':
        return wrap(a[0], a[1])
    if op in ('band', 'bor', 'bxor'):
        r = a[1]
        for x in a[2:]:
            r = bitop(op[1:], 'u%d' % a[0], r, x)
        return r
    if op == 'rotl':
        return rotl('u%d' % a[0], a[1], K(a[2]))
    if op == 'shr':
        return shr('u64', a[0], a[1])
    if op == 'div':
        return div(a[0], a[1])
    if op == 'rem':
        return rem(a[0], a[1])
    if op == 'gt0':
        return gt0(a[0])
    if op == 'eq':
        return eq(a[0], a[1])
    if op == 'isv':
        return lift(lambda v: B(v.a[1] == a[1]) if v.op == 'adt' else lit(_mk('isv', v, a[1])), a[0])
    if op == 'fld':
        return fld(*a)
    if op == 'len':
        return length(a[0])
    if op == 'uvarlen':
        return uvarlen(a[0])
    if op == 'seq':
        return seq(a)
    if op == 'alt':
        r = altc(a[0], list(a[1].a), list(a[2].a))
        return r[0] if len(r) == 1 else splice(seq(r))
    if op == 'slice':
        return slice_(*a)
    if op == 'index':
        t = index(a[0], a[1])
        if old in TYPEOF and t.op == 'index':
            TYPEOF.setdefault(t, TYPEOF[old])
        return t
    if op == 'upd':
        return update(*a)
    if op == 'be':
        return mkbe(*a)
    if op == 'le':
        return mkle(*a)
    if op == 'imax':
        r = a[0]
        for x in a[1:]:
            r = imax(r, x)
        return r
    if op == 'imin':
        return imin(*a)
    if op in REBUILD:
        return REBUILD[op](*a)
    if op in ('adt', 'tuple', 'clo', 'ref', 'e', 'splice', 'arr', 'uvar', 'repeat', 'iter'):
        if op == 'splice' and a[0].op == 'seq' and len(a[0].a) == 1:
            return a[0].a[0]
        if op == 'e' or op == 'splice' or op == 'arr' or op == 'uvar':
            return _mk(op, *a)
        return _mk(op, *a)
    ats = [x for x in a if isinstance(x, T) and x.op == 'ite']
    if op in ATOMS:
        xs = [x for x in a if isinstance(x, T)]
        pre = [x for x in a if not isinstance(x, T)]
        return lift(lambda *ys: lit(_mk(op, *(pre + list(ys)))), *xs)
    if ats:
        idx = [i for i, x in enumerate(a) if isinstance(x, T)]

        def f(*ys):
            b = list(a)
            for i, y in zip(idx, ys):
                b[i] = y
            return _mk(op, *b)
        return lift(f, *[a[i] for i in idx])
    t = _mk(op, *a)
    if old is not None and old in TYPEOF:
        TYPEOF.setdefault(t, TYPEOF[old])
    return t


REBUILD = {}
ATOMS = {'charb', 'flt', 'fle', 'feq', 'mhas', 'slt', 'exists', 'bit', 'atom'}


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if d > 14:
        return '...'
    s = lambda x: show(x, d + 1) if isinstance(x, T) else str(x)
    o, a = t.op, t.a
    if o == 'k':
        return str(a[0])
    if o == 'sym':
        return a[0]
    if o == 'str':
        return repr(a[0].decode(errors='replace'))
    if o == 'ite':
        if a[1] is TRUE and a[2] is FALSE:
            return s(a[0])
        if a[1] is FALSE and a[2] is TRUE:
            return '!' + s(a[0])
        return '(%s ? %s : %s)' % tuple(map(s, a))
    if o == 'lin':
        r = [str(a[0])] if a[0] else []
        for i in range(1, len(a), 2):
            r.append(('' if a[i + 1] == 1 else '%d*' % a[i + 1]) + s(a[i]))
        return '(' + ' + '.join(r) + ')'
    if o == 'adt':
        k = a[0].split('::')[-1]
        return '%s.%d{%s}' % (k, a[1], ', '.join(map(s, a[2:])))
    if o == 'tuple':
        return '(%s)' % ', '.join(map(s, a))
    if o == 'fld':
        return '%s.%s%d' % (s(a[0]), ('v%d.' % a[2]) if a[2] else '', a[3])
    if o == 'seq':
        return '[' + ' ; '.join(map(s, a)) + ']'
    if o == 'e':
        return s(a[0])
    if o == 'splice':
        return '*' + s(a[0])
    if o == 'star':
        return 'for b%d<%s %s' % (a[0], s(a[1]), s(a[2]))
    if o == 'sum':
        return 'sum(b%d<%s, %s)' % (a[0], s(a[1]), s(a[2]))
    if o == 'b':
        return 'b%d' % a[0]
    if o == 'bits':
        n = unbits(t)
        if n is not None:
            return s(n)
        return 'bits%d<%s>' % (a[0], ','.join(s(x) for x in reversed(a[2:])))
    if o == 'gt0':
        return '%s>0' % s(a[0])
    if o == 'eq':
        return '%s==%s' % (s(a[0]), s(a[1]))
    if o == 'isv':
        return '%s is#%d' % (s(a[0]), a[1])
    return '%s(%s)' % (o, ', '.join(map(s, a)))
