"""Evaluates terms under a valuation of their symbols.

Used only after the value-numbering analysis found two terms that ought to be
the same value but have different normal forms: a valuation on which they
differ is the witness that goes into the report.  When none is found the
obligation is reported as undecided, never as a violation.
"""
import random
import struct
import zlib
import hashlib
from terms import *
import terms


class EvalFail(Exception):
    pass


def wrapi(ty, x):
    lo, hi = INT_RANGE[ty]
    m = hi - lo + 1
    return (x - lo) % m + lo


def fval(w, bits):
    return struct.unpack('>f', struct.pack('>I', bits))[0] if w == 'f32' else struct.unpack('>d', struct.pack('>Q', bits))[0]


def round_f(w, x):
    if w == 'f32':
        import ctypes
        return ctypes.c_float(x).value
    return x


def fbits(w, x):
    if w == 'f32':
        return struct.unpack('>I', struct.pack('>f', x))[0]
    return struct.unpack('>Q', struct.pack('>d', x))[0]


NASTY = {'i64': [0, 1, -1, 2**63 - 1, -2**63, 2**31, -2**31 - 1, 127, 128, 255, 256, 5, 7, 1000003],
         'i32': [0, 1, -1, 2**31 - 1, -2**31, 127, 128, 255, 256, 5, 7, 65536],
         'u64': [0, 1, 127, 128, 255, 300, 16384, 2**32, 2**40, 2**63],
         'u32': [0, 1, 127, 128, 255, 300, 16383, 16384, 2**21, 2**28, 2**31, 2**32 - 1],
         'usize': [0, 1, 2, 3, 127, 128, 255, 300, 16384],
         'u8': [0, 1, 127, 128, 255], 'i8': [0, 1, -1, 127, -128], 'u16': [0, 1, 255, 256, 65535]}
NASTYF = [0.0, 1.0, -1.0, 0.5, -2.25, 1e10, -1e10, 3.0, 2.0 ** -10, -0.0]      # sums of these are exact in any order


SNAP = {}            # stand-in for compression in valuations: compressed -> plain


STRFN = {'str_trim': str.strip, 'str_trim_end': str.rstrip, 'str_trim_start': str.lstrip, 'str_to_lowercase': str.lower, 'str_to_uppercase': str.upper,
         'str_to_ascii_lowercase': lambda s: ''.join(c.lower() if c < '\x80' else c for c in s),
         'str_to_ascii_uppercase': lambda s: ''.join(c.upper() if c < '\x80' else c for c in s)}


class Ev:
    def __init__(self, seed, fixed=None, tys=None, consts=()):
        self.r = random.Random(seed)
        self.seed = seed
        self.v = dict(fixed or {})
        self.memo = {}
        self.bound = {}
        self.consts = [c for c in consts if isinstance(c, int)]
        self.texts = [c for c in consts if isinstance(c, bytes)]
        self.fconsts = [c for c in consts if isinstance(c, float)]
        self.names = None
        self.big = False

    def pick(self, t, ty):
        rnd = random.Random('%d/%s' % (self.seed, show(t)))
        if ty and ty[0] == 'int':
            lo, hi = INT_RANGE[ty[1]]
            k = rnd.random()
            if self.consts and k < 0.4:
                c = rnd.choice(self.consts) + rnd.choice((-1, 0, 1, 0))
                if lo <= c <= hi:
                    return c
            if k < 0.75:
                return rnd.choice(NASTY.get(ty[1], [0, 1]))
            if k < 0.9:
                return rnd.randint(max(lo, -300), min(hi, 300))
            return rnd.randint(lo, hi)
        if ty and ty[0] == 'float':
            if self.fconsts and rnd.random() < 0.5:
                c = round_f(ty[1], rnd.choice(self.fconsts))
                if abs(c) < 3.4e38:
                    return round_f(ty[1], c * rnd.choice((1.0, 1 - 2.0 ** -22, 1 + 2.0 ** -22, 1.0, 0.5)))
            return round_f(ty[1], rnd.choice(NASTYF + [rnd.randint(-100000, 100000) / 1024]))
        if ty and ty[0] == 'bool':
            return rnd.random() < 0.5
        if t.op == 'bit':
            return None
        return None

    def name(self, t):
        rnd = random.Random('%d/len/%s' % (self.seed, show(t)))
        k = RANK[t]
        n = rnd.choice([0, 0, 1, 3, 10, 57, 60, 64, 130, 300])
        if self.big and rnd.random() < 0.3:
            n = 66000
        end = rnd.choice([b'', b'', b'', b' ', b'\t', b'Z', b'.'])
        if self.texts and self.seed % 5 in (1, 2, 4):
            # texts the program looks for: at the beginning of all names, at the end of any, or as one of the names
            rs = random.Random(self.seed)
            c = rs.choice(self.texts)
            base = ('%06d' % k).encode()
            if self.seed % 5 == 1:
                return c + base
            if self.seed % 5 == 2:
                return base + rnd.choice([c, c, b''])
            k0 = RANK.get(sym(rs.choice(['d0', 's0', 's0', 's1', 'd1', 'x'])))
            if k0 is not None and c:
                return c if k == k0 else c + base if k > k0 else c[:-1] + bytes([max(c[-1] - 1, 1)]) + base
        if self.seed % 7 == 5 and t.a[0] in ('d0', 's0'):
            return b''              # the least of its kind may be empty
        if self.seed % 7 == 6 and t.a[0] == 'x':
            return b''              # and so may a name nobody declared
        if self.seed % 7 == 3 and k < 5000:
            return chr(0x4e00 + k).encode() + b'x' * n + end
        return ('%06d' % k).encode() + (b'x' * n if rnd.random() < 0.6 else '\u00e9'.encode() * (n // 2)) + end

    def ev(self, t):
        m = self.memo.get(t)
        if m is not None:
            return m
        r = self.ev1(t)
        if not self.bound:
            self.memo[t] = r
        return r

    def pattern(self, t):
        """the texts a pattern matches"""
        if t.op == 'k':
            return [chr(t.a[0]).encode()]
        if t.op == 'arr':
            return [q for y in t.a for q in self.pattern(y)]
        v = self.ev(t)
        if not isinstance(v, (bytes, tuple, list)):
            raise EvalFail('pattern')
        return [bytes(v)]

    def ev1(self, t):
        op, a = t.op, t.a
        if t in self.v:
            return self.v[t]
        if op == 'k':
            return a[0]
        if op == 'ite':
            c = self.ev(a[0])
            return self.ev(a[1] if c else a[2])
        if op == 'sym' or op in ('fld', 'accepted') or op == 'fresh':
            if t in RANK:
                return self.name(t)
            ty = TYPEOF.get(t)
            r = self.pick(t, ty)
            if t in terms.BOUND and isinstance(r, int):
                lo, hi = terms.BOUND[t]
                if not lo <= r <= hi:
                    r = lo + r % (hi - lo + 1)
            if r is None:
                if isinstance(t.a[0], str) and not ty:
                    if t.a[0].startswith('blob '):
                        rnd = random.Random('%d/%s' % (self.seed, show(t)))
                        return rnd.randbytes(rnd.choice([1, 130, 300, 17000, 70000]))
                    rnd = random.Random('%d/%s' % (self.seed, show(t)))
                    return bytes(rnd.randrange(97, 123) for _ in range(rnd.choice([0, 1, 2, 5, 70])))
                raise EvalFail('symbol ' + show(t))
            return r
        if op == 'bit':
            s = a[0]
            key = ('bitsof', s)
            if key not in self.v:
                rnd = random.Random('%d/%s' % (self.seed, show(s)))
                self.v[key] = rnd.choice([0, 1, 127, 128, 255, 300, 16383, 16384, 2**21, 2**28, 2**31, 2**32 - 1, 2**63, 2**64 - 1,
                                          rnd.getrandbits(64), rnd.getrandbits(rnd.randrange(1, 64)), rnd.getrandbits(64)])
            return bool(self.v[key] >> a[1] & 1)
        if op == 'bits':
            w = a[0]
            x = 0
            for i, b in enumerate(a[2:]):
                if self.ev(b):
                    x |= 1 << i
            if a[1] and x >> (w - 1) & 1:
                x -= 1 << w
            return x
        if op == 'lin':
            x = a[0]
            for i in range(1, len(a), 2):
                x += self.ev(a[i]) * a[i + 1]
            return x
        if op == 'mul':
            x = 1
            for y in a:
                x *= self.ev(y)
            return x
        if op == 'gt0':
            return self.ev(a[0]) > 0
        if op == 'slt':
            return self.order(self.ev(a[0])) < self.order(self.ev(a[1]))
        if op == 'eq':
            return self.ev(a[0]) == self.ev(a[1])
        if op == 'isv':
            if a[0].op == 'adt':
                return a[0].a[1] == a[1]
            return self.unint(t, 2) == 1
        if op == 'wrap':
            return wrapi(a[0], self.ev(a[1]))
        if op in ('imax', 'imin'):
            xs = [self.ev(x) for x in a]
            return max(xs) if op == 'imax' else min(xs)
        if op == 'div':
            x, y = self.ev(a[-2]), self.ev(a[-1])
            if y == 0:
                raise EvalFail('div by 0')
            q = abs(x) // abs(y)
            return q if (x < 0) == (y < 0) else -q
        if op == 'rem':
            x, y = self.ev(a[-2]), self.ev(a[-1])
            if y == 0:
                raise EvalFail('rem by 0')
            q = abs(x) % abs(y)
            return -q if x < 0 else q
        if op == 'zz':
            x = self.ev(a[0])
            return 2 * x if x >= 0 else -2 * x - 1
        if op == 'maxcomp':
            x = self.ev(a[0])
            return 32 + x + x // 6
        if op == 'uabs':
            return abs(self.ev(a[0]))
        if op in ('band', 'bor', 'bxor') and isinstance(a[0], int):
            x = None
            for y in a[1:]:
                z = self.ev(y) if isinstance(y, T) else y
                x = z if x is None else (x & z if op == 'band' else x | z if op == 'bor' else x ^ z)
            return x % (1 << a[0])
        if op in ('shr', 'sar') and len(a) >= 2:
            xs = [self.ev(x) if isinstance(x, T) else x for x in a if not isinstance(x, str)]
            return xs[0] >> xs[1]
        if op == 'pow2':
            return 1 << self.ev(a[0])
        if op == 'len':
            x = self.ev(a[0]) if a[0].op not in ('star', 'over') else self.seg(a[0])
            return len(x)
        if op in STRFN and len(a) == 1:
            try:
                return STRFN[op](bytes(self.ev(a[0])).decode('utf-8')).encode()
            except UnicodeDecodeError:
                raise EvalFail('utf-8')
        if op == 'nchars':
            return len(bytes(self.ev(a[0])).decode('utf-8', 'replace'))
        if op == 'uvarlen':
            n = self.ev(a[0]) & 0xffffffff
            k = 1
            while n >= 128:
                n >>= 7
                k += 1
            return k
        if op == 'f':
            return fval(a[0], a[1])
        if op == 'i2f':
            return round_f(a[0], float(self.ev(a[1])))
        if op == 'f2f':
            try:
                return round_f(a[0], self.ev(a[1]))
            except OverflowError:
                raise EvalFail('f2f')
        if op == 'f2i':
            x = self.ev(a[1])
            lo, hi = INT_RANGE[a[0]]
            return 0 if x != x else lo if x <= lo else hi if x >= hi else int(x)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fmax', 'fmin'):
            x, y = self.ev(a[1]), self.ev(a[2])
            try:
                z = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y,
                     'fmax': lambda: max(x, y), 'fmin': lambda: min(x, y)}[op]()
                return round_f(a[0], z)
            except (ZeroDivisionError, OverflowError):
                raise EvalFail('float')
        if op == 'fneg':
            return -self.ev(a[1])
        if op == 'flt':
            return self.ev(a[0]) < self.ev(a[1])
        if op == 'fle':
            return self.ev(a[0]) <= self.ev(a[1])
        if op == 'feq':
            return self.ev(a[0]) == self.ev(a[1])
        if op == 'fbits':
            return fbits(a[0], self.ev(a[1]))
        if op == 'str':
            return a[0]
        if op == 'atom':
            x = bytes(self.ev(a[1]))
            if a[0].a[0] == b'is_ascii':
                return all(c < 128 for c in x)
            p = self.pattern(a[2])
            if a[0].a[0] == b'contains':
                return any(q in x for q in p)
            f = {b'starts_with': bytes.startswith, b'ends_with': bytes.endswith}[a[0].a[0]]
            return any(f(x, q) for q in p)
        if op in ('str_trim_start_matches', 'str_trim_end_matches'):
            x, p = bytes(self.ev(a[0])), [q for q in self.pattern(a[1]) if q]
            again = True
            while again:
                again = False
                for q in p:
                    if op == 'str_trim_start_matches' and x.startswith(q):
                        x, again = x[len(q):], True
                    elif op == 'str_trim_end_matches' and x.endswith(q):
                        x, again = x[:-len(q)], True
            return x
        if op == 'str_replace':
            x, p, z = bytes(self.ev(a[0])), self.pattern(a[1]), bytes(self.ev(a[2]))
            for q in p:
                x = x.replace(q, z)
            return x
        if op == 'charb':
            x, i = self.ev(a[0]), self.ev(a[1])
            return not 0 < i < len(x) or x[i] & 0xc0 != 0x80
        if op in ('seq', 'be', 'le', 'arr', 'repeat'):
            if op == 'repeat':
                return self.pack([self.ev(a[0])] * self.ev(a[1]))
            out = []
            for s in (a if op == 'seq' else segs_of(t) if op == 'arr' else [t]):
                out += list(self.seg(s))
            return self.pack(out)
        if op == 'slice':
            x = self.ev(a[0])
            return x[self.ev(a[1]):self.ev(a[2])]
        if op == 'index':
            x = self.ev(a[0])
            i = self.ev(a[1])
            if not 0 <= i < len(x):
                raise EvalFail('index')
            return x[i]
        if op == 'upd':
            x = list(self.ev(a[0]))
            i = self.ev(a[1])
            if not 0 <= i < len(x):
                raise EvalFail('index')
            x[i] = self.ev(a[2])
            return self.pack(x)
        if op == 'adt':
            return ('adt',) + a[:2] + tuple(self.ev(x) for x in a[2:])
        if op == 'tuple':
            return ('tuple',) + tuple(self.ev(x) for x in a)
        if op == 'murmur':
            return self.unint(t, 2**32) - 2**31
        if op == 'crc32':
            return zlib.crc32(self.ev(a[0]))
        if op == 'snappy':
            x = self.ev(a[0])
            x = bytes(x)
            z = b'S%d:' % len(x) + hashlib.sha256(x).digest()[:3]
            SNAP[z] = x
            return z
        if op == 'b':
            if t in self.bound:
                return self.bound[t]
            raise EvalFail('bound variable')
        if op == 'sum':
            h, n, body = a
            b = T_b(h)
            old = self.bound.get(b)
            r = 0
            for i in range(self.ev(n)):
                self.bound[b] = i
                r += self.ev(body)
            if old is None:
                self.bound.pop(b, None)
            else:
                self.bound[b] = old
            return r
        if op in ('rotl',):
            xs = [self.ev(x) if isinstance(x, T) else x for x in a]
            if len(xs) == 3:
                w = WIDTH[xs[0]] if isinstance(xs[0], str) else xs[0]
                x = xs[1] % (1 << w)
                k = xs[2] % w
                return (x << k | x >> (w - k)) % (1 << w)
        if op in ('lzcnt', 'trailing_zeros', 'count_ones', 'count_zeros', 'leading_ones'):
            w = a[0]
            u = self.ev(a[1]) & ((1 << w) - 1)
            if op == 'lzcnt':
                return w - u.bit_length()
            if op == 'leading_ones':
                return w - (u ^ ((1 << w) - 1)).bit_length()
            if op == 'trailing_zeros':
                return w if u == 0 else (u & -u).bit_length() - 1
            n = bin(u).count('1')
            return n if op == 'count_ones' else w - n
        raise EvalFail('operation ' + op)

    def order(self, x):
        return x

    def pack(self, l):
        if all(isinstance(x, int) and not isinstance(x, bool) and -128 <= x <= 255 for x in l):
            return bytes(x & 255 for x in l)
        return tuple(l)

    def seg(self, s):
        op, a = s.op, s.a
        if op == 'e':
            return [self.ev(a[0])]
        if op in ('be', 'le'):
            x = self.ev(a[1]) % (1 << 8 * a[0])
            return list(x.to_bytes(a[0], 'big' if op == 'be' else 'little'))
        if op == 'uvar':
            n = self.ev(a[0]) & 0xffffffff
            out = []
            while n >= 128:
                out.append(n & 127 | 128)
                n >>= 7
            return out + [n]
        if op == 'splice':
            return list(self.ev(a[0]))
        if op == 'alt':
            return list(self.ev(a[1] if self.ev(a[0]) else a[2]))
        if op == 'star':
            h, n, body = a
            b = T_b(h)
            out = []
            for i in range(self.ev(n)):
                self.bound[b] = i
                out += list(self.ev(body))
            self.bound.pop(b, None)
            return out
        raise EvalFail('segment ' + op)

    def unint(self, t, n):
        key = (t.op,) + tuple(self.ev(x) if isinstance(x, T) else x for x in t.a)
        h = hashlib.sha256(('%d' % self.seed + repr(key)).encode()).digest()
        return int.from_bytes(h[:8], 'big') % n


class Huge(Ev):
    """valuations with long names and pages of many megabytes, whose contents are only looked at where they must be"""
    SIZES = [2**14 + 3, 2**16 + 9, 2**20 + 1, 2**24 + 5, 2**26 + 77, 2**28 + 3]

    def size(self, t, hi=2**28 + 3):
        rnd = random.Random('%d/huge/%s' % (self.seed, show(t)[:2000]))
        n = rnd.choice(self.SIZES) if rnd.random() < 0.8 else rnd.choice([1, 130, 300])
        return min(n, hi)

    def name(self, t):
        n = min(self.size(t), 2**21 + 7)
        return ('%06d' % RANK[t]).encode() + b'x' * n

    def ev1(self, t):
        if t.op == 'len' and t not in self.v:
            r = self.measure(t.a[0])
            b = terms.BOUND.get(t)
            if b and not b[0] <= r <= b[1]:
                raise EvalFail('bound')
            return r
        if t.op == 'sym' and t not in self.v and isinstance(t.a[0], str) and t.a[0].startswith('blob ') and not TYPEOF.get(t):
            return bytes(self.measure(t))
        return Ev.ev1(self, t)

    def measure(self, t):
        op, a = t.op, t.a
        if op == 'ite':
            return self.measure(a[1] if self.ev(a[0]) else a[2])
        if op in ('seq', 'arr'):
            return sum(self.segsize(s) for s in segs_of(t))
        if op == 'sym' and t in RANK:
            return len(self.ev(t))
        if op == 'sym' and isinstance(a[0], str) and a[0].startswith('blob '):
            b = terms.BOUND.get(length(t)) or terms.BOUND.get(length(seqval([splice(t)])))
            return self.size(t, b[1] if b else 2**28 + 3)
        if op == 'snappy':
            n = self.measure(a[0])
            return 5 + n * 7 // 8
        if op == 'star' or op == 'over':
            return self.segsize(t)
        return len(self.ev(t))

    def segsize(self, s):
        op, a = s.op, s.a
        if op == 'e':
            return 1
        if op in ('be', 'le'):
            return a[0]
        if op == 'splice':
            return self.measure(a[0])
        if op == 'alt':
            return self.measure(a[1] if self.ev(a[0]) else a[2])
        return len(self.seg(s))


def consts_in(*ts):
    out = set()
    seen = set()
    st = list(ts)
    while st:
        x = st.pop()
        if x in seen or not isinstance(x, T):
            continue
        seen.add(x)
        if len(seen) > 50000:
            break
        if x.op in ('gt0', 'eq') and isinstance(x.a[0], T):
            l = x.a[0]
            if l.op == 'lin':
                out.add(l.a[0])
                out.add(-l.a[0])
        if x.op == 'eq' and isinstance(x.a[1], T) and x.a[1].op == 'k' and isinstance(x.a[1].a[0], int):
            out.add(x.a[1].a[0])
        if x.op in ('atom', 'str_trim_start_matches', 'str_trim_end_matches', 'str_replace'):
            ys = list(x.a[2 if x.op == 'atom' else 1:])
            while ys:
                y = ys.pop()
                if y.op == 'k' and 0 < y.a[0] < 0x110000:
                    out.add(chr(y.a[0]).encode())
                elif y.op == 'str' and y.a[0]:
                    out.add(y.a[0])
                elif y.op == 'arr':
                    ys += y.a
        if x.op in ('eq', 'slt'):
            for y in x.a:
                if isinstance(y, T) and y.op == 'str' and y.a[0]:
                    out.add(y.a[0])
        if x.op in ('flt', 'fle', 'feq'):
            for y in x.a:
                if y.op == 'f':
                    v = fval(y.a[0], y.a[1])
                    if v == v:
                        out.add(float(v))
        st += [y for y in x.a if isinstance(y, T)]
    return sorted((c for c in out if not isinstance(c, int) or abs(c) < 2**64), key=lambda c: (isinstance(c, bytes), c))


def symbols(*ts):
    out = []
    seen = set()
    st = list(ts)
    while st:
        x = st.pop()
        if x in seen or not isinstance(x, T):
            continue
        seen.add(x)
        if x.op == 'sym':
            out.append(x)
        st += [y for y in x.a if isinstance(y, T)]
    return out


def differ(a, b, pc=TRUE, tries=400, norm=None):
    """a valuation (as text) under which a and b differ where pc holds; None if none was found.
    Second result: number of valuations on which both could be evaluated."""
    cs = consts_in(a, b, pc)
    syms = symbols(a, b, pc)
    n = 0
    for seed in range(tries + 40):
        e = Ev(seed, consts=cs) if seed < tries else Huge(seed, consts=cs)
        try:
            if pc is not TRUE and not e.ev(pc):
                continue
            x, y = e.ev(a), e.ev(b)
        except (EvalFail, OverflowError, RecursionError, TypeError, KeyError, IndexError):
            continue
        n += 1
        if norm:
            x, y = norm(x), norm(y)
        if x != y and not (x != x and y != y):
            w = []
            for s in syms[:12]:
                try:
                    v = e.ev(s)
                    w.append('%s=%s' % (show(s), (v if not isinstance(v, bytes) or len(v) < 24 else '<%d bytes>' % len(v))))
                except EvalFail:
                    pass
            return {'valuation': ', '.join(w), 'got': brief(x), 'expected': brief(y)}, n
    return None, n


PURE = {'f', 'k', 'fbits', 'fadd', 'fsub', 'fmul', 'f2f', 'i2f', 'fneg', 'fmax', 'fmin', 'lin', 'wrap', 'ite', 'flt', 'fle', 'feq', 'and', 'or', 'not'}


def constant_eq(a, b, norm=None):
    """two terms without unknowns have the same value"""
    seen, st = set(), [a, b]
    while st:
        x = st.pop()
        if x in seen or not isinstance(x, T):
            continue
        seen.add(x)
        if x.op not in PURE:
            return False
        st += list(x.a)
    try:
        e = Ev(0)
        x, y = e.ev(a), e.ev(b)
    except (EvalFail, OverflowError, RecursionError, TypeError, KeyError, IndexError):
        return False
    if norm:
        x, y = norm(x), norm(y)
    return x == y


def weak_orders(n):
    """rank vectors of all weak orderings of n items"""
    def go(i, ranks):
        if i == n:
            if sorted(set(ranks)) == list(range(len(set(ranks)))):
                yield tuple(ranks)
            return
        for r in range(n):
            yield from go(i + 1, ranks + [r])
    return list(go(0, []))


_wo = {}


def order_eq(a, b, limit=6):
    """True if a and b choose equal values under every ordering of the unknowns they compare;
    None when they are not built from comparisons of unknowns only."""
    names = {}

    def node(t):
        if t.op == 'sym':
            return names.setdefault(t, len(names))
        return None
    seen = {}

    def conv(t):
        if t in seen:
            return seen[t]
        if t.op == 'ite':
            x = t.a[0]
            c = None
            if x.op == 'gt0' and x.a[0].op == 'lin':
                k, d = terms._lin_parts(x.a[0])
                if len(d) == 2 and sorted(d.values()) == [-1, 1] and k in (0, 1):
                    p = [u for u, m in d.items() if m == 1][0]
                    q = [u for u, m in d.items() if m == -1][0]
                    if node(p) is not None and node(q) is not None:
                        c = ('gt' if k == 0 else 'ge', names[p], names[q])
            elif x.op == 'flt':
                if node(x.a[-1]) is not None and node(x.a[-2]) is not None:
                    c = ('gt', names[x.a[-1]], names[x.a[-2]])
            elif x.op == 'fle':
                if node(x.a[-1]) is not None and node(x.a[-2]) is not None:
                    c = ('ge', names[x.a[-1]], names[x.a[-2]])
            if c is None:
                raise KeyError
            r = (c, conv(t.a[1]), conv(t.a[2]))
        elif t.op == 'sym':
            r = node(t)
        elif t.op == 'fbits' and t.a[1].op == 'sym':
            r = node(t.a[1])
        else:
            raise KeyError
        seen[t] = r
        return r
    try:
        x, y = conv(a), conv(b)
    except KeyError:
        return None
    n = len(names)
    if n > limit or n == 0:
        return None
    if n not in _wo:
        _wo[n] = weak_orders(n)

    def val(t, rk):
        while isinstance(t, tuple):
            (o, p, q), hi, lo = t
            t = hi if (rk[p] > rk[q] or (o == 'ge' and rk[p] == rk[q])) else lo
        return rk[t]
    return all(val(x, rk) == val(y, rk) for rk in _wo[n])


def brief(x):
    s = x.hex() if isinstance(x, bytes) else repr(x)
    return s if len(s) < 120 else s[:117] + '...'
