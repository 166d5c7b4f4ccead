"""Canonical names of terms, languages of observable events, and language inclusion."""
import re
from terms import *
import terms

SHORT = [(re.compile(r"^.*::"), '')]


def short(n):
    n = re.sub(r'<[^<>]*>', '', n)
    n = re.sub(r'<[^<>]*>', '', n)
    return n.split('::')[-1].strip('>') or n


class Canon:
    """Names terms independently of contexts, locals and loop shapes."""

    def __init__(self, g, names=None):
        self.g = g
        self.e = g.engine
        self.memo = {}
        self.names = names or {}
        self.kinds = {}

    def phi(self, p):
        """('ind', starts, step) or ('acc', entries, backs) for a loop term."""
        r = self.kinds.get(p)
        if r: return r
        loc = (p.args[0], p.args[1])
        key = (p.args[2], p.args[3])
        info = self.g.loops.get(loc)
        ent, back = [], []
        if info:
            for rec in info['entry']:
                x = rec[0].get(key)
                if x is not None and x not in ent: ent.append(x)
            for rec in info['back']:
                x = rec[0].get(key)
                if x is not None and x not in back: back.append(x)
        steps = set()
        for b in back:
            if b is p: steps.add(0); continue
            d = self.e.sub(b, p)
            steps.add(d.args[1] if d.op == 'k' else None)
        if steps == {1} or steps == {-1}: r = ('ind', ent, list(steps)[0])
        else: r = ('acc', ent, back)
        self.kinds[p] = r
        return r

    def each(self, t, k, st):
        """Sequences and texts built by appending, or by setting every place in turn."""
        if len(k[1]) != 1: return None
        e0 = k[1][0]
        outs = set()
        fill = e0.op == 'call' and e0.args[0] == 'repeat'
        txt = e0 is kstr('') or e0.op == 'k' and e0.args[0] in ('str', 'char') or e0.op == 'cat'
        if not fill and not txt and not (e0.op == 'seq' and not e0.args[0]): return None
        for b in k[2]:
            if b is t: outs.add('-'); continue
            if fill:
                if not (b.op == 'with' and b.args[0] is t and b.args[1][0] == 'e' and self.show(b.args[1][1], st) == 'i'): return None
                outs.add(self.show(b.args[2], st))
            elif txt:
                if not (b.op == 'cat' and b.args[0][0] is t): return None
                outs.add(tuple(self.show(x, st) for x in b.args[0][1:]))
            else:
                x = self.whole(b, t, st)
                if x: outs.add('..' + x); continue
                if not (b.op == 'seq' and b.args[0] and b.args[0][0] == ('s', t)): return None
                outs.add(', '.join(('..' if q == 's' else '') + self.show(x, st) for q, x in b.args[0][1:]))
        if txt and e0 is not kstr(''):
            x = self.joined(t, k, outs)
            return '"%s + %s"' % (' + '.join(self.text(e0, st)), x) if x else None
        if txt:
            x = self.joined(t, k, outs)
            if x: return x
            outs = {x if type(x) is str else ' + '.join(x) for x in outs}
        return 'each{%s}' % ' | '.join(sorted(outs))

    def joined(self, t, k, outs):
        """Texts appended with a separator before each but the first."""
        if len(outs) != 2 or '-' in outs: return None
        x, y = sorted(outs, key=len)
        n = len(y) - len(x)
        if n < 1 or y[n:] != x: return None
        for rec in self.g.loops[t.args[:2]]['back']:
            b = rec[0].get(t.args[2:4])
            if b is None or not (b.op == 'cat' and b.args[0][0] is t): return None
            if not self.first_round(t, rec[1], len(b.args[0]) - 1 == len(x)): return None
        return 'join(each{%s}, %s)' % (' + '.join(x), y[0] if n == 1 else '"%s"' % ' + '.join(y[:n]))

    def text(self, t, stack):
        """The pieces of a text, as shown."""
        if t.op == 'cat': return [x for p in t.args[0] for x in self.text(p, stack)]
        s = self.show(t, stack)
        return [s[1:-1]] if t.op == 'phi' and t not in stack and re.match(r'"[^@].*"$', s) else [s]

    def first_round(self, t, facts, first):
        """Whether what is known says that this is the first round of the loop of t (or a later one)."""
        for u, v in facts.items():
            for p in [u] + [x for x in u.args if type(x) is Term]:
                if p.op != 'phi' or p.args[:2] != t.args[:2]: continue
                kind = self.phi(p)
                if kind[0] == 'ind' and kind[2] == 1 and kind[1] == [kint(0)]:
                    vals = {x.args[1] for x in v[1] if x.op == 'k'}
                    if u is p or u.op == 'eq' and kint(0) in u.args or u.op == 'lt' and u.args[0] is kint(0):
                        if u is p: r = True if v[0] and vals == {0} else False if (not v[0] and 0 in vals) or (v[0] and 0 not in vals) else None
                        else: r = (vals == {True}) == v[0] if vals in ({True}, {False}) else None
                        if u.op == 'lt' and r is not None: r = not r
                        if r is first: return True
                if u is p and kind[0] == 'acc' and len(kind[1]) == 1 and kind[1][0] in (TRUE, FALSE) and all(b in (TRUE, FALSE) and b is not kind[1][0] for b in kind[2]):
                    vals = {x.args[1] for x in v[1] if x.op == 'k'}
                    if vals not in ({True}, {False}): continue
                    if (((vals == {True}) == v[0]) == kind[1][0].args[1]) is first: return True
        return False

    def whole(self, q, t, stack):
        """The sequence a loop adds to t one item per round (that it runs to the end is for others to decide)."""
        if q.op != 'phi' or q in stack: return None
        k = self.phi(q)
        if k[0] != 'acc' or k[1] != [t]: return None
        outs = set()
        for b in k[2]:
            if not (b.op == 'seq' and len(b.args[0]) == 2 and b.args[0][0] == ('s', q) and b.args[0][1][0] == 'i'): return None
            x = b.args[0][1][1]
            if x.op != 'elem' or x.args[1].op != 'phi' or x.args[1].args[:2] != q.args[:2] or self.show(x.args[1], stack) != 'i': return None
            outs.add(self.show(x.args[0], stack))
        return outs.pop() if len(outs) == 1 else None

    def item(self, t, i, stack):
        """What the i-th item of a sequence built one item per round is."""
        if t.op != 'phi' or t in stack: return None
        k = self.phi(t)
        if k[0] != 'acc' or len(k[1]) != 1 or k[1][0].op != 'seq' or k[1][0].args[0]: return None
        outs = set()
        for b in k[2]:
            if not (b.op == 'seq' and len(b.args[0]) == 2 and b.args[0][0] == ('s', t) and b.args[0][1][0] == 'i'): return None
            outs.add(self.show(b.args[0][1][1], stack + (t,)))
        if len(outs) == 1 and i == 'i': return outs.pop()
        # a part of the item at the same place, whatever its kind
        ms = [re.fullmatch(r'(\w[\w.]*)\[i\]\.([A-Z]\w*)((?:\.\w+)*)', x) for x in outs]
        if not ms or None in ms or len({(m[1], m[3]) for m in ms}) != 1: return None
        kinds = sorted(m[2] for m in ms)
        return '%s[%s].%s%s' % (ms[0][1], i, kinds[0] if len(kinds) == 1 else '{%s}' % '|'.join(kinds), ms[0][3])

    def part(self, t, f, stack):
        """A sequence of records built one by one, seen through one field."""
        if t.op != 'phi' or t in stack: return None
        k = self.phi(t)
        if k[0] != 'acc' or len(k[1]) != 1 or k[1][0].op != 'seq' or k[1][0].args[0]: return None
        outs = set()
        for b in k[2]:
            if b is t: outs.add('-'); continue
            if not (b.op == 'seq' and len(b.args[0]) == 2 and b.args[0][0] == ('s', t) and b.args[0][1][0] == 'i'): return None
            x = b.args[0][1][1]
            if x.op != 'agg' or f not in x.args[2]: return None
            outs.add(self.show(x.args[3][x.args[2].index(f)], stack + (t,)))
        return 'each{%s}' % ' | '.join(sorted(outs))

    def mirrored(self, x, i, stack):
        d = {}
        self.linear(self.e.length(x), stack, d, 1); self.linear(i, stack, d, -1)
        d[''] = d.get('', 0) - 1
        return self.sumstr(d)

    def show(self, t, stack=()):
        if t in self.names: return self.names[t]
        if not stack:
            r = self.memo.get(t)
            if r is not None: return r
        r = self._show(t, stack)
        if not stack: self.memo[t] = r
        return r

    def linear(self, t, stack, d, sign):
        """Adds sign * t to d (printed term -> coefficient); loop counters are start +/- i."""
        if t.op == 'k' and t.args[0] == 'int': d[''] = d.get('', 0) + sign * t.args[1]
        elif t.op == 'add':
            self.linear(t.args[0], stack, d, sign); self.linear(t.args[1], stack, d, sign)
        elif t.op == 'sub':
            self.linear(t.args[0], stack, d, sign); self.linear(t.args[1], stack, d, -sign)
        elif t.op == 'phi' and t not in stack and self.phi(t)[0] == 'ind':
            k = self.phi(t)
            if len(k[1]) == 1 and not (k[1][0].op == 'phi' and self.phi(k[1][0])[0] == 'ind'): self.linear(k[1][0], stack + (t,), d, sign)
            else:
                x = '{%s}' % '|'.join(sorted(self.show(x, stack + (t,)) for x in k[1]))
                d[x] = d.get(x, 0) + sign
            d['i'] = d.get('i', 0) + sign * k[2]
        else:
            x = self.show(t, stack) if t.op != 'phi' or t in stack or self.phi(t)[0] != 'ind' else 'i?'
            d[x] = d.get(x, 0) + sign

    def sum(self, t, stack=()):
        d = {}
        self.linear(t, stack, d, 1)
        return self.sumstr(d)

    def sumstr(self, d):
        out = ''
        for x in sorted((x for x in d if x and d[x]), key=lambda x: (d[x] < 0, x)):
            c = d[x]
            out += ('+' if c > 0 and out else '-' if c < 0 else '') + ('%d*' % abs(c) if abs(c) != 1 else '') + x
        k = d.get('', 0)
        if k or not out: out += ('+' if k > 0 and out else '') + str(k)
        return out

    def _show(self, t, stack):
        s = lambda x: self.show(x, stack)
        o, a = t.op, t.args
        if o == 'k':
            if a[0] in ('str', 'char'): return repr(a[1])
            if a[0] == 'fn': return 'fn:' + short(str(a[1]).split('|')[0])
            if a[0] == 'bytes': return repr(bytes(a[1]))
            return str(a[1])
        if o == 'arg': return a[1]
        if o == 'phi':
            if t in stack: return '@%d' % (len(stack) - 1 - stack.index(t))
            k = self.phi(t)
            st = stack + (t,)
            if k[0] == 'ind': return self.sum(t, stack)
            m = self.each(t, k, st)
            if m: return m
            return 'fold{%s; %s}' % (' | '.join(sorted(self.show(x, st) for x in k[1])), ' | '.join(sorted(self.show(x, st) for x in k[2] if x is not t)))
        if o == 'agg':
            name = a[0].split('::')[-1] if a[0] != '()' else ''
            if a[1] and a[1] != name: name = (name + '::' if a[0].startswith('seam') else '') + a[1]
            if not a[3]: return name or '()'
            if a[2] and not a[2][0].isdigit():
                return name + '{' + ', '.join('%s: %s' % (n, s(v)) for n, v in zip(a[2], a[3])) + '}'
            return name + '(' + ', '.join(s(v) for v in a[3]) + ')'
        if o == 'seq': return '[' + ', '.join(('..' if k == 's' else '') + s(x) for k, x in a[0]) + ']'
        if o == 'cat': return '"' + ' + '.join(self.text(t, stack)) + '"'
        if o == 'fld':
            b = a[0]
            if b.op == 'elem' and b.args[0].op == 'call' and b.args[0].args[0] in ('sorted', 'reverse') and not a[1]:
                y, n = b.args[0], s(b.args[1])
                if y.args[0] == 'reverse': y, n = y.args[1][0], self.mirrored(y.args[1][0], b.args[1], stack)
                if y.op == 'call' and y.args[0] == 'sorted':
                    x = self.part(y.args[1][0], a[2], stack)
                    if x: return 'sorted(%s)[%s]' % (x, n)
            return s(b) + '.' + (a[1] + '.' if a[1] else '') + a[2]
        if o == 'elem':
            if a[0].op == 'call' and a[0].args[0] == 'reverse':
                # the i-th item from the end of a reversed sequence
                x = a[0].args[1][0]
                n = self.mirrored(x, a[1], stack)
                z = self.item(x, n, stack)
                return z if z else '%s[%s]' % (s(x), n)
            x = self.item(a[0], s(a[1]), stack)
            return x if x else '%s[%s]' % (s(a[0]), s(a[1]))
        if o == 'slice':
            hi = s(a[2])
            if a[2] is self.e.length(a[0]): hi = ''
            return '%s[%s..%s]' % (s(a[0]), s(a[1]), hi)
        if o == 'call': return '%s(%s)' % (a[0] if '::' not in a[0] else short(a[0]), ', '.join(s(x) for x in a[1]))
        if o == 'res': return '%s(%s)' % (short(a[2]), ', '.join(s(x) for x in a[3]))
        if o in ('add', 'sub'): return self.sum(t, stack)
        if o == 'len': return 'len(%s)' % s(a[0])
        if o == 'lt': return '(%s<%s)' % (s(a[0]), s(a[1]))
        if o == 'eq':
            x, y = s(a[0]), s(a[1])
            if a[1].op != 'k' and y < x: x, y = y, x
            return '(%s==%s)' % (x, y)
        if o == 'not': return '!' + s(a[0])
        if o in ('and', 'or'): return '(%s %s %s)' % (s(a[0]), o, s(a[1]))
        if o == 'in': return '(%s in {%s})' % (s(a[0]), ','.join(s(x) for x in a[1]))
        if o == 'isvar': return '(%s is %s)' % (s(a[0]), a[2])
        if o == 'discr': return 'kind(%s)' % s(a[0])
        if o == 'with':
            p = a[1]
            return '%s{%s:=%s}' % (s(a[0]), '[%s]' % s(p[1]) if p[0] == 'e' else '.' + p[2], s(a[2]))
        if o == 'ref':
            return '&' + s(a[0]) + ''.join('[%s]' % s(p[1]) if p[0] == 'e' else '.' + str(p[-1]) for p in a[1])
        if o in ('D', 'C', 'cell'): return '*' + s(a[0])
        if o == 'L': return '_local'
        if o == 'H': return '_tmp'
        if o == 'ep' or o == 'ctx': return o
        if o == 'hole': return '{%s:%s%s}' % (s(a[1]), a[0], ('%' + ','.join(s(x) if type(x) is Term else str(x) for x in a[3])) if a[3] else '')
        if o == 'clo': return 'closure'
        if o == 'undef': return 'undef'
        return '%s(%s)' % (o, ', '.join(s(x) if type(x) is Term else str(x) for x in a))


def strip(s):
    return s


def more(ev, c):
    """('more'|'end', sequence, index) of a loop test event."""
    _, a, b, val = ev
    d = {}
    c.linear(b, (), d, 1)
    c.linear(a, (), d, -1)
    ls = [x for x in d if x.startswith('len(') and d[x] == 1]
    if len(ls) != 1: return None
    x = ls[0]
    del d[x]
    return ('more' if val else 'end'), x[4:-1], c.sumstr({k: -v for k, v in d.items()})


# ---- languages ----------------------------------------------------------------------
class NFA:
    def __init__(self):
        self.trans = {}     # state -> [(label or None, state, origin)]
        self.start = 0
        self.accept = set()
        self.n = 0

    def new(self):
        self.n += 1
        return ('x', self.n)

    def add(self, a, label, b, origin=None):
        self.trans.setdefault(a, []).append((label, b, origin))

    def chain(self, cur, labels, end, at):
        """A path with the given (label, event)s; ('rounds', [labels ...]) stands for any number of rounds of them."""
        for k, (l, e) in enumerate(labels):
            nxt = self.new() if k < len(labels) - 1 else end
            if isinstance(l, tuple) and l[0] == 'rounds':
                loop = self.new()
                self.add(cur, None, loop, (at, e))
                for x in l[1]: self.chain(loop, [(y, e) for y in x], loop, at)
                self.add(loop, None, nxt, (at, e))
            else: self.add(cur, l, nxt, (at, e))
            cur = nxt
        if not labels: self.add(cur, None, end, (at, None))


def automaton(g, evmap, accept, canon=None, start=0):
    """The language of labels of the paths of a graph that end in accepted exits."""
    c = canon or Canon(g)
    n = NFA()
    n.start = start
    for i in g.reach:
        nd = g.nodes[i]
        for ev, m in nd.out:
            labels = []
            for e in ev:
                l = evmap(e, c)
                if l: labels.extend((x, e) for x in l)
            n.chain(i, labels, m, i)
    n.accept = {x.id for x in g.exits if accept(x, c)}
    # trim
    rev = {}
    for a, l in n.trans.items():
        for _, b, _ in l: rev.setdefault(b, set()).add(a)
    live, w = set(n.accept), list(n.accept)
    while w:
        x = w.pop()
        for y in rev.get(x, ()):
            if y not in live: live.add(y); w.append(y)
    n.live = live
    return n


class Spec:
    """Regular expressions over label patterns, compiled to an NFA."""

    def __init__(self): self.trans = {}; self.n = 0

    def new(self): self.n += 1; return self.n

    def add(self, a, p, b): self.trans.setdefault(a, []).append((p, b))


def lit(text): return ('seq',) + tuple(('sym', ('c', ch)) for ch in text)
def sym(p): return ('sym', p)
def cat_(*xs): return ('seq',) + xs
def alt(*xs): return ('alt',) + xs
def star(x): return ('star', x)
def opt(x): return ('alt', ('seq',), x)
def plus(x): return ('seq', x, ('star', x))


def compile_spec(r):
    sp = Spec()

    def go(r, a):
        k = r[0]
        if k == 'sym':
            b = sp.new(); sp.add(a, r[1], b); return b
        if k == 'seq':
            for x in r[1:]: a = go(x, a)
            return a
        if k == 'alt':
            b = sp.new()
            for x in r[1:]: sp.add(go(x, a), None, b)
            return b
        if k == 'star':
            s = sp.new(); sp.add(a, None, s)
            e = go(r[1], s); sp.add(e, None, s)
            return s
        raise Exception(k)
    sp.start = sp.new()
    sp.end = go(r, sp.start)
    return sp


def matches(p, label):
    if p is ANY: return True
    if callable(p): return p(label)
    if isinstance(p, re.Pattern): return isinstance(label, str) and p.fullmatch(label) is not None
    return p == label


ANY = object()


def closure(sp, S):
    S = set(S); w = list(S)
    while w:
        x = w.pop()
        for p, b in sp.trans.get(x, ()):
            if p is None and b not in S: S.add(b); w.append(b)
    return frozenset(S)


def included(nfa, spec):
    """None, or (trace, offending label, origin) for a word of nfa that spec lacks."""
    sp = compile_spec(spec)
    s0 = closure(sp, [sp.start])
    if nfa.start not in nfa.live: return None
    seen = {(nfa.start, s0): None}
    w = [(nfa.start, s0)]
    qi = 0
    while qi < len(w):
        cur = w[qi]; qi += 1
        a, S = cur
        if a in nfa.accept and sp.end not in S:
            return trace(seen, cur), '(end of output)', lastorigin(seen, cur), expected(sp, S)
        for label, b, origin in nfa.trans.get(a, ()):
            if b not in nfa.live: continue
            if label is None: S2 = S
            else:
                S2 = closure(sp, [y for x in S for p, y in sp.trans.get(x, ()) if p is not None and matches(p, label)])
                if not S2: return trace(seen, cur), label, origin, expected(sp, S)
            k = (b, S2)
            if k not in seen:
                seen[k] = (cur, label, origin)
                w.append(k)
    return None


def expected(sp, S):
    out = []
    for x in S:
        for p, _ in sp.trans.get(x, ()):
            if p is not None: out.append(p.pattern if isinstance(p, re.Pattern) else 'any' if p is ANY else getattr(p, '__name__', None) if callable(p) else p)
    return out


def trace(seen, k):
    out = []
    while seen[k]:
        k, l, o = seen[k]
        if l is not None: out.append(l)
    return out[::-1]


def lastorigin(seen, k):
    while seen[k]:
        k2, l, o = seen[k]
        if l is not None: return o
        k = k2
    return None


def words(tr):
    """Readable form of a trace: characters joined."""
    out = []
    for l in tr:
        if isinstance(l, tuple) and l[0] == 'c':
            if out and isinstance(out[-1], list): out[-1].append(l[1])
            else: out.append([l[1]])
        else: out.append(str(l))
    return ' '.join(repr(''.join(x)) if isinstance(x, list) else x for x in out)


def text_labels(t, c):
    """Label sequence of a piece of written text."""
    parts = t.args[0] if t.op == 'cat' else (t,)
    out = []
    for p in parts:
        if p.op == 'k' and p.args[0] in ('str', 'char'): out += [('c', ch) for ch in p.args[1]]
        else: out += rounds(p, c) or [c.show(p)]
    return out


def rounds(p, c):
    """A text that a loop has built piece by piece, written as a whole."""
    k = c.phi(p) if p.op == 'phi' else None
    if k is None or k[0] != 'acc' or len(k[1]) != 1 or not c.show(p).startswith(('fold{', 'each{')): return None
    if not all(b.op == 'cat' and b.args[0][0] is p for b in k[2]): return None
    saved, c.memo = c.memo, {}
    # inside its own loop the text itself is not looked at
    alts = [text_labels(T('cat', b.args[0][1:]), c) for b in k[2]]
    c.memo = saved
    return text_labels(k[1][0], c) + [('rounds', tuple(tuple(a) for a in alts))]


def is_ok(x, c=None):
    """Exits that may report success."""
    if x.info['kind'] != 'return': return False
    v = x.info['value']
    if v.op == 'agg' and v.args[0] == terms.RES: return v.args[1] == 'Ok'
    if v.op == 'agg' and v.args[0] == terms.OPT: return v.args[1] == 'Some'
    return True
