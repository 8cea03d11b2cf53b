"""Loads the MIR facts dumped by driver/mirdump.rs and resolves anchors."""
import json
import os

INTS = {'u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'usize', 'isize', 'u128', 'i128'}
SHORT = {'core::option::Option': 'Option', 'core::result::Result': 'Result',
         'core::ops::control_flow::ControlFlow': 'CF', 'core::cmp::Ordering': 'Ordering'}


class Missing(Exception):
    """an anchor the check needs is not in the analysed program"""


def short(key):
    if key in SHORT:
        return SHORT[key]
    if key.startswith('tsfile_writer'):
        return key.split('::')[-1]
    return key


class Facts:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d['crate']
        self.types = d['types']
        self.consts = d['consts']
        self.fns = {f['key']: f for f in d['fns']}
        self.adts = {}
        for a in d['adts']:
            self.adts[short(a['key'])] = a
        self.impls = d['impls']
        self.trait_impl = {}
        for im in d['impls']:
            st = self.selfkey(im['self'])
            for it in im['items']:
                self.trait_impl[(it[0], st)] = it[1]
                self.trait_impl.setdefault((im['trait'] + '::' + it[2], st), it[1])
        self.impl_of = {}
        for im in d['impls']:
            for it in im['items']:
                self.impl_of[it[1]] = (im['trait'], self.selfkey(im['self']))
        from collections import defaultdict
        self.by = defaultdict(list)
        for f in d['fns']:
            if 'iself' in f:
                self.by[(self.selfkey(f['iself']), f['name'])].append(f)
            elif f['kind'] == 'Fn':
                self.by[(None, f['name'])].append(f)

    def ty(self, i):
        return self.types[i]

    def selfkey(self, i):
        t = self.types[i]
        k = t['k']
        if k == 'adt':
            return short(t['key'])
        if k == 'prim':
            return t['n']
        if k in ('ref', 'ptr'):
            return '&' + self.selfkey(t['e'])
        if k == 'dyn':
            return 'dyn ' + t['p'].replace('dyn ', '').split('::')[-1].split('<')[0]
        if k == 'slice':
            return '[' + self.selfkey(t['e']) + ']'
        if k == 'param':
            return '?' + t['n']
        return k

    def tyof(self, i):
        """a small hashable description of a type"""
        t = self.types[i]
        k = t['k']
        if k == 'prim':
            n = t['n']
            if n in INTS:
                return ('int', n)
            if n in ('f32', 'f64'):
                return ('float', n)
            return (n,)
        if k == 'adt':
            return ('adt', short(t['key'])) + tuple(a for a in t['a'] if isinstance(a, int))
        if k in ('ref', 'ptr'):
            return ('ref', t['e'])
        if k in ('slice', 'array'):
            return ('slice', t['e'])
        if k == 'tuple':
            return ('tuple',) + tuple(t['a'])
        return (k,)

    def tystr(self, i, d=0):
        t = self.types[i]
        k = t['k']
        if d > 5:
            return '..'
        if k == 'adt':
            a = [self.tystr(x, d + 1) for x in t['a'] if isinstance(x, int)]
            return short(t['key']).split('::')[-1] + ('<' + ','.join(a) + '>' if a else '')
        if k == 'prim':
            return t['n']
        if k in ('ref', 'ptr'):
            return ('&mut ' if t.get('m') in (True, 'm') else '&') + self.tystr(t['e'], d + 1)
        if k in ('slice', 'array'):
            return '[' + self.tystr(t['e'], d + 1) + ']'
        if k == 'tuple':
            return '(' + ','.join(self.tystr(x, d + 1) for x in t['a']) + ')'
        if k == 'dyn':
            return t['p']
        if k == 'param':
            return t['n']
        return k

    def find(self, selfname, name, trait=None):
        """the method `name` of type selfname (None: a free function)"""
        c = self.by.get((selfname, name), [])
        if trait is not None:
            c = [f for f in c if (f.get('itrait') or '').split('::')[-1].split('<')[0] == trait]
        elif len(c) > 1:
            inh = [f for f in c if not f.get('itrait')]
            c = inh or c
        if len(c) != 1:
            raise Missing('%s::%s%s' % (selfname or '', name, '' if not c else ' (ambiguous)'))
        return c[0]

    def has(self, selfname, name):
        return bool(self.by.get((selfname, name)))

    def adt(self, name):
        if name not in self.adts:
            raise Missing('type ' + name)
        return self.adts[name]

    def variant(self, name, vname):
        a = self.adt(name)
        for i, v in enumerate(a['v']):
            if v['n'] == vname:
                return i
        raise Missing('%s::%s' % (name, vname))

    def fieldno(self, name, fname, var=0):
        a = self.adt(name)
        for i, f in enumerate(a['v'][var]['f']):
            if f[0] == fname:
                return i
        raise Missing('%s.%s' % (name, fname))
