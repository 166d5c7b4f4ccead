"""Hash-consed value terms of the abstract domain."""


class Term:
    __slots__ = ('op', 'args', '_atoms', '_refs', 'n')

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        raise TypeError('terms are not picklable')


_tab = {}


def T(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t._atoms = None
        t._refs = None
        t.n = len(_tab)
        _tab[key] = t
    return t


def K(kind, val):
    return T('k', kind, val)


TRUE = K('bool', True)
FALSE = K('bool', False)
UNIT = T('agg', '()', None, (), ())


def kint(n): return K('int', n)
def kstr(s): return K('str', s)
def kbool(b): return TRUE if b else FALSE
def agg(adt, variant, names, vals): return T('agg', adt, variant, tuple(names), tuple(vals))
def tup(*vals): return T('agg', '()', None, tuple(str(i) for i in range(len(vals))), tuple(vals))


OPT, RES, CF = 'std::option::Option', 'std::result::Result', 'std::ops::ControlFlow'
def some(x): return agg(OPT, 'Some', ('0',), (x,))
NONE = agg(OPT, 'None', (), ())
def ok(x): return agg(RES, 'Ok', ('0',), (x,))
def err(x): return agg(RES, 'Err', ('0',), (x,))


def isk(t): return t.op == 'k'


def subterms(t):
    for a in t.args:
        if type(a) is Term:
            yield a
        elif type(a) is tuple:
            for b in a:
                if type(b) is Term:
                    yield b
                elif type(b) is tuple:
                    for c in b:
                        if type(c) is Term:
                            yield c


def within(t):
    """A term and everything it is made of (not what loop values take)."""
    seen, w = {t}, [t]
    while w:
        x = w.pop()
        if x.op in ('phi', 'ep', 'join', 'ctx'): continue
        for a in subterms(x):
            if a not in seen: seen.add(a); w.append(a)
    return seen


_E = frozenset()
ATOM = {'res', 'phi', 'ep', 'join'}


def atoms(t):
    """Unstable atoms (results of calls, loop values) a term mentions."""
    r = t._atoms
    if r is None:
        if t.op == 'ctx':
            r = _E
        else:
            s = set()
            if t.op in ATOM:
                s.add(t)
            if t.op not in ('phi', 'ep', 'join'):
                for a in subterms(t):
                    s |= atoms(a)
            r = frozenset(s) if s else _E
        t._atoms = r
    return r


def refs(t):
    """Roots of the references a value contains."""
    r = t._refs
    if r is None:
        if t.op == 'ref':
            r = frozenset([t.args[0]])
        elif t.op in ('ctx', 'L', 'H', 'phi', 'ep'):
            r = _E
        else:
            s = set()
            for a in subterms(t):
                s |= refs(a)
            r = frozenset(s) if s else _E
        t._refs = r
    return r


def subst(t, m, memo=None):
    """Replace terms by m (a dict)."""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r

    def go(a):
        if type(a) is Term:
            return subst(a, m, memo)
        if type(a) is tuple:
            return tuple(go(x) for x in a)
        return a
    n = tuple(go(a) for a in t.args) if t.op not in ('ctx', 'k') else t.args
    r = t if n == t.args else T(t.op, *n)
    memo[t] = r
    return r


# ---- sequences and strings -------------------------------------------------------
def seq(parts):
    """Concatenation of items ('i', x) and whole sequences ('s', x)."""
    out = []
    for k, x in parts:
        if k == 's' and x.op == 'seq':
            out.extend(x.args[0])
        else:
            out.append((k, x))
    if len(out) == 1 and out[0][0] == 's':
        return out[0][1]
    return T('seq', tuple(out))


EMPTYSEQ = T('seq', ())


def cat(parts):
    """String concatenation; adjacent literals are merged."""
    out = []
    for p in parts:
        if p.op == 'cat':
            for q in p.args[0]:
                _catpush(out, q)
        else:
            _catpush(out, p)
    if not out:
        return kstr('')
    if len(out) == 1:
        return out[0]
    return T('cat', tuple(out))


def _catpush(out, p):
    if p.op == 'k' and p.args[0] == 'char':
        p = kstr(p.args[1])
    if p.op == 'k' and p.args[0] == 'str':
        if p.args[1] == '':
            return
        if out and out[-1].op == 'k' and out[-1].args[0] == 'str':
            out[-1] = kstr(out[-1].args[1] + p.args[1])
            return
    out.append(p)


# ---- printing --------------------------------------------------------------------
def show(t, d=0):
    if type(t) is tuple:
        return '(' + ', '.join(show(x, d) for x in t) + ')'
    if type(t) is not Term:
        return str(t)
    if d > 30:
        return '…'
    o, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if o == 'k':
        if a[0] in ('str', 'char'):
            return repr(a[1])
        if a[0] == 'fn':
            return 'fn:' + str(a[1]).split('::')[-1]
        return str(a[1])
    if o == 'agg':
        name = a[0].split('::')[-1] if a[0] != '()' else ''
        if a[1] and a[1] != name:
            name = a[1]
        if not a[3]:
            return name or '()'
        if a[2] and not a[2][0].isdigit():
            return name + '{' + ', '.join('%s: %s' % (n, s(v)) for n, v in zip(a[2], a[3])) + '}'
        return name + '(' + ', '.join(s(v) for v in a[3]) + ')'
    if o == 'seq':
        return '[' + ', '.join(('..' if k == 's' else '') + s(x) for k, x in a[0]) + ']'
    if o == 'cat':
        return '"' + ' + '.join(s(x) for x in a[0]) + '"'
    if o == 'fld':
        return s(a[0]) + '.' + (a[1] + '.' if a[1] else '') + a[2]
    if o == 'elem':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if o == 'slice':
        return '%s[%s..%s]' % (s(a[0]), s(a[1]), s(a[2]))
    if o == 'call':
        return '%s(%s)' % (a[0].replace('std::', '').replace('core::', ''), ', '.join(s(x) for x in a[1]))
    if o == 'res':
        return '%s#%d(%s)' % (a[2].split('::')[-1], t.n % 1000, ', '.join(s(x) for x in a[3]))
    if o == 'phi':
        return 'φ%d<%s%s>' % (t.n % 10000, s(a[2]), ''.join('.' + str(p[-1]) for p in a[3]))
    if o == 'L':
        return '_%d' % a[1]
    if o == 'ctx':
        return 'ctx'
    if o == 'arg':
        return a[1]
    if o == 'ref':
        return '&' + s(a[0]) + ''.join('.' + (s(p[1]) if p[0] == 'e' else str(p[-1])) for p in a[1])
    if o == 'D':
        return '*' + s(a[0])
    if o in ('lt', 'eq'):
        return '(%s %s %s)' % (s(a[0]), '<' if o == 'lt' else '==', s(a[1]))
    if o == 'hole':
        return '{%s:%s%s}' % (s(a[1]), a[0], a[3] if a[3] else '')
    if o == 'clo':
        return 'closure'
    return '%s(%s)' % (o, ', '.join(s(x) for x in a))


def converted(v, to, of):
    """An integer, character or truth value as another type."""
    if v.op == 'k' and v.args[0] == 'int' and to == 'char': return K('char', chr(v.args[1]))
    if v.op == 'k' and v.args[0] == 'int':
        b = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64}.get(to)
        if b: return kint(v.args[1] & ((1 << b) - 1))
        return v
    if v.op == 'k' and v.args[0] == 'char': return kint(ord(v.args[1])) if v.args[1] else v
    if v.op == 'k' and v.args[0] == 'bool': return kint(int(v.args[1]))
    if to == of: return v
    return T('cast', to, v)
