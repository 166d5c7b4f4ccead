"""Comparison functions as decision tables: is it a total order, and of which keys?

A comparison is explored with two unknown items.  Each of its ends gives a row: conditions on
the first item alone, on the second alone, outcomes of comparisons of a value of one with a value
of the other, and the answer.  An item's class is the set of answers to the conditions asked of
one item; for every pair of classes the rows must amount to a lexicographic comparison of keys
(values of one item, determined by its own class) or to a fixed answer, and the fixed answers must
rank the classes.  That is sufficient for a total preorder whenever the keys' own comparisons are
(the `Ord` of library types; floats that are not NaN)."""
from itertools import permutations, product
from common import *

ORD = 'std::cmp::Ordering'
REV = {'Less': 'Greater', 'Equal': 'Equal', 'Greater': 'Less'}
PARTIAL_TOTAL = ('f64', 'f32')


class NotTotal(Exception):
    pass


def mentions(t, x):
    seen, w = set(), [t]
    while w:
        y = w.pop()
        if y is x: return True
        if id(y) in seen: continue
        seen.add(id(y))
        w += list(subterms(y))
    return False


def swap(t, a, b):
    """t with the two items exchanged (a -> b only: the result speaks about b where t spoke about a)."""
    memo = {}

    def go(x):
        if x is a: return b
        if type(x) is not Term: return tuple(go(y) for y in x) if type(x) is tuple else x
        if x not in memo: memo[x] = T(x.op, *[go(y) for y in x.args])
        return memo[x]
    return go(t)


class Table:
    def __init__(self, g, a, b):
        self.g, self.a, self.b, self.c = g, a, b, Canon(g)
        self.rows = []
        self.asked = {}     # condition on one item (as about a) -> values
        for x in g.exits:
            if x.info['kind'] == 'unreachable': continue
            if x.info['kind'] != 'return': raise NotTotal('the comparison can end with %s' % x.info['kind'])
            ua, ub, cmp_ = {}, {}, {}
            dead = False
            for t, (pos, vals) in x.info['facts'].items():
                ma, mb = mentions(t, a), mentions(t, b)
                key = lambda v: tuple(sorted(str(y.args[1]) for y in v))
                if ma and not mb: ua[t] = (pos, frozenset(map(str, (y.args[1] for y in vals))))
                elif mb and not ma: ub[swap(t, b, a)] = (pos, frozenset(map(str, (y.args[1] for y in vals))))
                elif ma and mb:
                    q = self.outcome(t)
                    if q is None: raise NotTotal('decides by %s' % self.c.show(t))
                    if q[0] == 'some':
                        # a comparison that gives no answer
                        if 'None' in {y.args[1] for y in vals} and pos and len(vals) == 1: cmp_[q[1]] = frozenset(['None'])
                        continue
                    names = {y.args[1] for y in vals}
                    if names <= {True, False}: s = {n for n in REV if q[2](n) in (names if pos else {True, False} - names)}
                    else: s = {n for n in REV if (n in names) == pos}
                    cmp_[q[1]] = cmp_.get(q[1], frozenset(REV)) & s
            v = x.info['value']
            if v.op == 'agg' and v.args[0] == ORD: ans = ('is', v.args[1])
            else:
                sign, q = +1, v
                while q.op == 'call' and q.args[0] in ('reverse', 'ordering_reverse'): sign, q = -sign, q.args[1][0]
                q = self.comparison(q)
                if q is None: raise NotTotal('answers %s' % self.c.show(v))
                ans = ('as', q, sign)
            self.rows.append((ua, ub, cmp_, ans, x))
        for ua, ub, _, _, _ in self.rows:
            for u in (ua, ub):
                for t, (pos, vals) in u.items(): self.asked.setdefault(t, set()).update(vals)

    def comparison(self, t):
        """(value of a, value of b, +1) or (value of a, value of b, -1) of a comparison of the two."""
        if t.op == 'fld' and t.args[0].op == 'call' and t.args[0].args[0] == 'partial_cmp': t = t.args[0]
        if t.op != 'call' or t.args[0] not in ('cmp', 'partial_cmp'): return None
        x, y = t.args[1]
        ax, bx, ay, by = mentions(x, self.a), mentions(x, self.b), mentions(y, self.a), mentions(y, self.b)
        if ax and by and not bx and not ay: return (t.args[0], x, swap(y, self.b, self.a), +1)
        if bx and ay and not ax and not by: return (t.args[0], y, swap(x, self.b, self.a), -1)
        return None

    def outcome(self, t):
        if t.op == 'discr' and t.args[1] == ORD:
            q = self.comparison(t.args[0])
            return q and ('ord', q)
        if t.op == 'discr' and t.args[0].op == 'call' and t.args[0].args[0] == 'partial_cmp':
            q = self.comparison(t.args[0])
            return q and ('some', q)
        if t.op in ('lt', 'eq'):
            q = self.comparison(T('call', 'cmp', (t.args[0], t.args[1])))
            return q and ('test', q, (lambda n: n == ('Less' if t.op == 'lt' else 'Equal')))
        return None

    def classes(self):
        keys = sorted(self.asked, key=repr)
        opts = []
        for k in keys:
            vals = set(self.asked[k])
            if vals <= {'True', 'False'}: vals = {'True', 'False'}
            if vals <= {'Ok', 'Err'}: vals = {'Ok', 'Err'}
            if vals <= {'Some', 'None'}: vals = {'Some', 'None'}
            opts.append(sorted(vals))
        n = 1
        for o in opts: n *= len(o)
        if n > 256: raise NotTotal('too many classes of items (%d)' % n)
        for vs in product(*opts): yield dict(zip(keys, vs))

    def fits(self, u, cls): return all((cls[t] in vals) == pos for t, (pos, vals) in u.items())

    def pair(self, A, B):
        """('rank', answer) or ('keys', ((kind, key of A, key of B, sign), ...)), None if impossible."""
        rows = [r for r in self.rows if self.fits(r[0], A) and self.fits(r[1], B)]
        if not rows: return None
        vars_ = {}
        for _, _, c, ans, _ in rows:
            for q in list(c) + ([ans[1]] if ans[0] == 'as' else []): vars_.setdefault(q[:3], None)
        vars_ = list(vars_)
        total = {}
        for v in vars_:
            total[v] = v[0] == 'cmp' or self.number(A, v[1]) and self.number(B, v[2])
        if len(vars_) > 4: raise NotTotal('too many comparisons')
        table = {}
        for outs in product(*[list(REV) + ([] if total[v] else ['None']) for v in vars_]):
            o = dict(zip(vars_, outs))
            def val(q): return o[q[:3]] if q[3] > 0 else REV.get(o[q[:3]], 'None')
            res = set()
            for _, _, c, ans, x in rows:
                if not all(val(q) in s for q, s in c.items()): continue
                if ans[0] == 'is': res.add(ans[1])
                else:
                    r = val(ans[1])
                    if r == 'None': continue
                    res.add(r if ans[2] > 0 else REV[r])
            if len(res) != 1: raise NotTotal('gives %s for one pair of items' % (sorted(res) or 'no answer'))
            if 'None' in outs: raise NotTotal('depends on a comparison that may have no answer: %s' % self.c.show(vars_[outs.index('None')][1]))
            table[outs] = res.pop()
        if not vars_: return ('rank', table[()])
        for n in range(0, len(vars_) + 1):
            for perm in permutations(range(len(vars_)), n):
                for signs in product((1, -1), repeat=n):
                    for last in (('Equal',) if n else tuple(REV)):
                        def lex(outs):
                            for i, s in zip(perm, signs):
                                if outs[i] != 'Equal': return outs[i] if s > 0 else REV[outs[i]]
                            return last
                        if all(lex(k) == v for k, v in table.items()):
                            if n == 0: return ('rank', last)
                            return ('keys', tuple((vars_[i][1], vars_[i][2], s) for i, s in zip(perm, signs)))
        raise NotTotal('is no lexicographic comparison: %s' % {k: v for k, v in table.items()})

    def number(self, cls, t):
        """A number that is known not to be NaN, of items of this class."""
        for q, v in cls.items():
            if q.op == 'call' and q.args[0].endswith('is_nan') and q.args[1][0] is t: return v == 'False'
        return not re.search(r'f64|f32', repr(t))

    def decide(self):
        """Classes in rank order: [(classes, keys)], or NotTotal."""
        cl = list(self.classes())
        pairs = {}
        for i, A in enumerate(cl):
            for j, B in enumerate(cl): pairs[i, j] = self.pair(A, B)
        live = [i for i in range(len(cl)) if pairs[i, i] is not None]
        name = lambda i: ', '.join('%s is %s' % (self.c.show(k), v) for k, v in cl[i].items()) or 'any item'
        own = {}
        for i in live:
            p = pairs[i, i]
            if p[0] == 'rank':
                if p[1] != 'Equal': raise NotTotal('items of one kind are always %s than each other (%s)' % (p[1], name(i)))
                own[i] = ()
            else:
                if any(x is not y for x, y, s in p[1]): raise NotTotal('compares different values of the two items (%s)' % name(i))
                own[i] = tuple((x, s) for x, y, s in p[1])
        grp = {i: None for i in live}
        below = {}
        for i in live:
            for j in live:
                p, r = pairs[i, j], pairs[j, i]
                if p is None or r is None: raise NotTotal('no answer for %s against %s' % (name(i), name(j)))
                if p[0] == 'rank' and p[1] != 'Equal':
                    if r != ('rank', REV[p[1]]): raise NotTotal('reversing the items does not reverse the answer (%s; %s)' % (name(i), name(j)))
                    below[i, j] = p[1]
                else:
                    ks = p[1] if p[0] == 'keys' else ()
                    if tuple((x, s) for x, y, s in ks) != own[i] or tuple((y, s) for x, y, s in ks) != own[j]:
                        raise NotTotal('items of different kinds are compared by other keys than items of one kind (%s; %s)' % (name(i), name(j)))
                    below[i, j] = 'Equal'
        for i in live:
            for j in live:
                for k in live:
                    a, b, c = below[i, j], below[j, k], below[i, k]
                    if a == 'Equal' and b == 'Equal' and c != 'Equal' or a == 'Equal' and b != c or b == 'Equal' and a != c and c != 'Equal' or a == b != c or (b == 'Equal' and a != c):
                        raise NotTotal('not transitive over %s; %s; %s' % (name(i), name(j), name(k)))
        rank = lambda i: sum(1 for j in live if below[j, i] == 'Less')
        out = {}
        for i in live: out.setdefault(rank(i), []).append(i)
        return [([cl[i] for i in out[r]], [own[i] for i in out[r]]) for r in sorted(out)]


def comparisons(g):
    """Sort events of one exploration: (node, place, kind, argument)."""
    for i in g.reach:
        for evs, m in g.nodes[i].out:
            for ev in evs:
                if ev[0] == 'sort': yield i, ev[1], ev[2], ev[3] if len(ev) > 3 else None
