"""What messages say about a position: the parts of a message that show a Site."""
from reader import *

SITE = 'seam::parse::tokens::Site'


def fmts(ctx, trait='std::fmt::Display'):
    return [f for f in ctx.F.fns.values() if f.crate != 'models' and f.kind != 'closure' and f.path.endswith(' as %s>::fmt' % trait)]


class View:
    """The views of one site (a term) in one graph."""
    def __init__(self, g, c, S):
        self.g, self.c, self.S = g, c, S
        s = c.show(S)
        self.s = s
        self.off, self.bol, self.line, self.span, self.src, self.code = (s + '.' + k for k in ('bytes_from_start', 'bytes_from_start_of_line', 'line', 'bytes_span', 'source', 'source_code'))
        self.sol = '%s-%s' % (self.off, self.bol)
        self.pre = '%s[%s..%s]' % (self.code, self.sol, self.off)
        self.self_ = '%s[%s..%s+%s]' % (self.code, self.off, self.off, self.span)
        self.col = 'width(%s)+1' % self.pre
        self.colm = 'width(%s)' % self.pre

    def fields(self):
        return (self.off, self.bol, self.line, self.span, self.src, self.code)

    def mentions(self, t):
        s = self.c.show(t)
        return any(f in s for f in self.fields()) or re.search(re.escape(self.s) + r'(?![\w.])', s) is not None

    # ---- the end of the line -----------------------------------------------------
    def eol(self, t, facts):
        """t is the offset of the end of the line the site is on."""
        g, c = self.g, self.c
        e = g.engine
        ph = [x for x in subterms(t) if x.op == 'phi']
        if len(ph) == 1 and t is e.add(e.sub(t, ph[0]), ph[0]):
            ph = ph[0]
            rest = e.sub(t, ph)
            info = g.loops[(ph.args[0], ph.args[1])]
            key = (ph.args[2], ph.args[3])
            for rec in info['entry']:
                v = rec[0].get(key)
                if v is None or c.show(e.add(rest, v)) != self.off: return False
            for rec in info['back']:
                if rec[0].get(key) is not e.add(ph, kint(1)) or not self.passed(t, rec[1]): return False
            return self.stops(t, facts)
        if c.show(t) == 'len(%s)' % self.code and any(self.all_passed(f, t) for f, (pos, vals) in facts.items() if f.op == 'lt' and pos == (FALSE in vals)): return True
        for f, (pos, vals) in facts.items():
            if f.op == 'discr' and f.args[0].op == 'call' and f.args[0].args[0] == 'str_find':
                where, what = f.args[0].args[1][:2]
                if what.op != 'k' or what.args[1] != '\n' or where.op != 'slice' or c.show(where.args[0]) != self.code or c.show(where.args[1]) != self.off or where.args[2] is not T('len', where.args[0]): continue
                v = {x.args[1] for x in vals}
                some = v == {'Some'} if pos else v == {'None'}
                none = v == {'None'} if pos else v == {'Some'}
                d = e.sub(t, where.args[1])
                if some and d.op == 'fld' and d.args[0] is f.args[0] or none and t is where.args[2]: return True
        return False

    def all_passed(self, f, end):
        """A loop over what follows the site, without a line break on the way, has come to the end of the text."""
        g, c = self.g, self.c
        e = g.engine
        ph = f.args[0]
        if ph.op != 'phi' or len([x for x in subterms(f.args[1]) if x.op == 'phi']): return False
        rest = e.sub(end, f.args[1])
        info = g.loops[(ph.args[0], ph.args[1])]
        key = (ph.args[2], ph.args[3])
        at = e.add(ph, rest)
        return all(rec[0].get(key) is not None and c.show(e.add(rest, rec[0][key])) == self.off for rec in info['entry']) and \
            all(rec[0].get(key) is e.add(ph, kint(1)) and self.passed(at, rec[1]) for rec in info['back'])

    def passed(self, t, facts):
        """The character at t is known to be no line break."""
        for f, (pos, vals) in facts.items():
            if self.at(f, t): return not pos and any(v.args[1] in (10, '\n') for v in vals) or pos and not any(v.args[1] in (10, '\n') for v in vals)
        return False

    def at(self, f, t):
        s = self.c.show(f)
        i = self.c.show(t)
        return f.op != 'lt' and self.code in s and (s.endswith('[%s]' % i))

    def stops(self, t, facts):
        for f, (pos, vals) in facts.items():
            if f.op == 'lt' and f.args[0] is t and self.c.show(f.args[1]) == 'len(%s)' % self.code and pos and FALSE in vals: return True
            if self.at(f, t) and pos and {v.args[1] for v in vals} <= {10, '\n'}: return True
        return False

    # ---- parts of a message --------------------------------------------------------
    def tokens(self, t, facts):
        """(token, part) of what the written text t shows of the site, in order."""
        c = self.c
        for p in (t.args[0] if t.op == 'cat' else (t,)):
            if p.op == 'k': continue
            if p.op == 'hole':
                v, ty = p.args[1], p.args[2]
                for w in p.args[3] if type(p.args[3]) is tuple else ():
                    if type(w) is Term and self.mentions(w): yield self.mark(w), p
                if not self.mentions(v): continue
                s = c.show(v)
                if s == self.s and 'Site' in ty: yield from ((x, p) for x in ('source', 'line', 'column'))
                elif s == self.line: yield 'line', p
                elif s == self.col: yield 'column', p
                elif v.op == 'call' and len(v.args[1]) == 1: yield from self.tokens(v.args[1][0], facts)
                else: yield 'other', p
            elif not self.mentions(p): continue
            elif c.show(p) == self.src: yield 'source', p
            elif p.op == 'slice' and c.show(p.args[0]) == self.code:
                if c.show(p.args[1]) == self.sol and self.eol(p.args[2], facts): yield 'view', p
                elif c.show(p) == self.self_: yield 'text', p
                else: yield 'view:wrong', p
            elif p.op == 'call' and len(p.args[1]) == 1: yield from self.tokens(p.args[1][0], facts)
            elif p.op == 'call' and p.args[0] in ('repeat', 'str_repeat'): yield self.mark(p.args[1][1]), p
            else: yield 'other', p

    def mark(self, w):
        """A width: of what precedes the site in its line, of the site, or of what was printed before."""
        name = lambda w: 'width' if w.op == 'width' else short(w.args[0]) if w.op == 'call' else None
        while name(w) in ('width', 'min', 'max', 'from_usize'):
            if self.c.show(w) == self.colm: return 'mark'
            if self.c.show(w) == 'width(%s)' % self.self_: return 'length'
            w = w.args[0] if w.op == 'width' else w.args[1][0]
        return 'indent' if w.op in ('cat', 'k') else 'mark:wrong'


def spoken(g, c, view):
    """Event -> what the text it writes shows of the site, for the states it is written in."""
    out = {}
    for i in g.reach:
        for evs, m in g.nodes[i].out:
            for ev in evs:
                if ev[0] not in ('write', 'print', 'eprint'): continue
                text = ev[2] if ev[0] == 'write' else ev[1]
                per = {tuple(t for t, _ in view.tokens(text, f)) for f in known(g, i)}
                out[id(ev)] = per.pop() if len(per) == 1 else ('other',)
    return out


def known(g, i):
    """Facts known at a node (of each state it may be reached in)."""
    seen, w, out = {i}, [i], []
    while w:
        n = g.nodes[w.pop()]
        if n.state is not None: out.append(n.state.facts); continue
        for p in n.inn:
            if p not in seen: seen.add(p); w.append(p)
    return out
