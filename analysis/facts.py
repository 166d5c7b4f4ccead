"""Loading and indexing of the MIR facts written by the driver, and a pretty printer."""
import json, sys


class Fn:
    __slots__ = ('path', 'uid', 'kind', 'argc', 'span', 'locals', 'blocks', 'unsafe', 'pub', 'extends', 'self_ty',
                 'trait', 'name', 'derived', 'parent', 'crate', 'cache')

    def __init__(self, d, crate):
        self.crate = crate
        for k in self.__slots__[:-2]:
            setattr(self, k, d.get(k))
        self.cache = {}

    def __repr__(self):
        return '<fn %s>' % self.path


class Facts:
    def __init__(self):
        self.fns = {}
        self.bypath = {}
        self.types = {}
        self.adts = {}
        self.consts = {}
        self.impls = []
        self.closures = {}

    def load(self, file):
        d = json.load(open(file))
        for f in d['functions']:
            fn = Fn(f, d['crate'])
            self.fns[fn.uid] = fn
            self.bypath.setdefault(fn.path, []).append(fn)
            if fn.parent:
                self.closures.setdefault(fn.parent, []).append(fn)
        for k, v in d['types']:
            self.types.setdefault(k, v)
        for k, v in d['adts']:
            if v is not None:
                self.adts.setdefault(k, v)
        for c in d['consts']:
            self.consts[c['path']] = c
        for i in d['impls']:
            i['crate'] = d['crate']
            self.impls.append(i)
        return self

    def fn(self, path):
        l = self.bypath.get(path, [])
        return l[0] if len(l) == 1 else None


def pl(p):
    s = '_%d' % p[0]
    for e in p[1]:
        k = e[0]
        if k == 'd': s = '(*%s)' % s
        elif k == 'f': s += '.' + e[2]
        elif k == 'v': s += '@' + e[1]
        elif k == 'i': s += '[_%d]' % e[1]
        elif k == 'ci': s += '[%s%d]' % ('-' if e[3] else '', e[1])
        elif k == 's': s += '[%d..%s%d]' % (e[1], '-' if e[3] else '', e[2])
        else: s += '.?'
    return s


def op(o):
    if o[0] == 'c': return pl(o[1])
    if o[0] == 'm': return 'mv ' + pl(o[1])
    if o[0] == 'k': return 'K' + json.dumps(o[2]) + (':' + o[3] if len(o) > 3 and o[3] else '')
    if o[0] == 'fn': return callee(o[1])
    return o[0]


def callee(c):
    s = c['path']
    if c.get('res') and c['res'] != c['path']: s += ' => ' + c['res']
    if c.get('rkind') not in ('item', None): s += ' !' + c['rkind']
    return s + '<' + ', '.join(c.get('targs', [])) + '>'


def rv(r):
    k = r[0]
    if k == 'use': return op(r[1])
    if k == 'ref': return '&' + ('mut ' if r[1] else '') + pl(r[2])
    if k == 'rawptr': return '&raw ' + pl(r[2])
    if k == 'cast': return 'cast[%s] %s : %s <- %s' % (r[1], op(r[2]), r[3], r[4])
    if k == 'bin': return '%s(%s, %s)' % (r[1], op(r[2]), op(r[3]))
    if k == 'un': return '%s(%s)' % (r[1], op(r[2]))
    if k == 'discr': return 'discr ' + pl(r[1])
    if k == 'agg': return 'agg %s (%s)' % (r[1][:3], ', '.join(op(o) for o in r[2]))
    return str(r)


def dump(fn):
    print('fn', fn.path, fn.uid, 'argc', fn.argc, fn.span)
    for i, l in enumerate(fn.locals):
        print('  let _%d: %s %s' % (i, l[0], l[1] or ''))
    for i, b in enumerate(fn.blocks):
        if b['cl']: continue
        print(' bb%d:' % i)
        for s in b['s']:
            if s[0] == '=': print('    %s = %s' % (pl(s[1]), rv(s[2])))
            else: print('    ', s)
        t = b['t']
        if t[0] == 'call': print('    %s = call %s (%s) -> %s   [%s]' % (pl(t[3]), op(t[1]), ', '.join(op(a) for a in t[2]), t[4], b['sp']))
        elif t[0] == 'switch': print('    switch %s %s else %s' % (op(t[1]), t[2], t[3]))
        elif t[0] == 'drop': print('    drop %s -> %s' % (pl(t[1]), t[2]))
        elif t[0] == 'assert': print('    assert %s == %s %s -> %s' % (op(t[1]), t[2], t[3], t[4]))
        else: print('   ', t)


if __name__ == '__main__':
    F = Facts()
    import glob
    for f in glob.glob(sys.argv[1] + '/seam-*.json'): F.load(f)
    for u, f in F.fns.items():
        if sys.argv[2] in u or sys.argv[2] in f.path: dump(f)
