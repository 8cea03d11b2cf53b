"""Procedure summaries used in composed analyses.

Each summary states what a function does in terms of one uninterpreted
operation; that the function's body really does that is its own obligation
(check P12 for the variable-length integers, P09 for the hash).  A summary is
installed only if the function is found with the expected shape; otherwise its
body is analysed like any other.
"""
from terms import *
import terms
import models
from facts import Missing


def uvar_segs(x):
    if x.op == 'k':
        n = x.a[0] & 0xffffffff
        out = []
        while n >= 128:
            out.append(e_(K(n & 127 | 128)))
            n >>= 7
        return out + [e_(K(n))]
    if x.op == 'ite':
        return altc(lit(x.a[0]), uvar_segs(x.a[1]), uvar_segs(x.a[2]))
    return [terms._mk('uvar', x)]


def write_var_u32(I, st, a, c):
    x = unbits(a[0]) or a[0]
    r = models.sink_append(I, st, a[1], seqval(uvar_segs(x)), ok(uvarlen(x)))
    return r


def size_var_u32(I, st, a, c):
    x = unbits(a[0]) or a[0]
    return uvarlen(x), st


def zz(x):
    def f(x):
        if x.op == 'k':
            return K(2 * x.a[0] if x.a[0] >= 0 else -2 * x.a[0] - 1)
        if nonneg(x):
            return scale(x, 2)
        t = terms._mk('zz', x)
        TYPEOF.setdefault(t, ('int', 'u32'))
        return t
    return lift(f, x)


def write_var_i32(I, st, a, c):
    return write_var_u32(I, st, [zz(unbits(a[0]) or a[0])] + list(a[1:]), c)


def size_var_i32(I, st, a, c):
    return uvarlen(zz(unbits(a[0]) or a[0])), st


def murmur_fixed(I, st, a, c):
    return K(0), st


def murmur(I, st, a, c):
    v = app('murmur', I.loadd(st, a[0]), a[1])
    TYPEOF.setdefault(v, ('int', 'i32'))
    return v, st


def shape(F, f, argtys, ret):
    b = f['body']
    return b['argc'] == len(argtys) and all(F.tystr(b['locals'][i + 1][0]) == t for i, t in enumerate(argtys)) and \
        F.tystr(b['locals'][0][0]) == ret


def install(I, *which):
    F = I.F
    done = []
    for n, sel, model, args, ret in (
            ('var', (None, 'write_var_u32'), write_var_u32, None, None),
            ('var', (None, 'size_var_u32'), size_var_u32, ['u32'], 'u8'),
            ('var', (None, 'write_var_i32'), write_var_i32, None, None),
            ('var', (None, 'size_var_i32'), size_var_i32, ['i32'], 'u8'),
            ('murmur_fixed', ('Murmur128', 'hash'), murmur_fixed, ['&str', 'i32'], 'i32'),
            ('murmur', ('Murmur128', 'hash'), murmur, ['&str', 'i32'], 'i32')):
        if n not in which:
            continue
        try:
            f = F.find(*sel)
        except Missing:
            continue
        if args is not None and not shape(F, f, args, ret):
            continue
        I.summaries[f['key']] = model
        done.append(f['key'])
    return done
