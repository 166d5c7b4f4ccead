"""Cursor typestate: a dataflow analysis over the automaton of the token reader.

The reader walks a text with three cells: the byte offset, the byte offset inside the
current line and the line number.  For every abstract state of the automaton computed by
the engine this analysis keeps

  off, bol, line   the current values of the three cells (terms)
  byte             'B': the offset is on a character boundary, 'C': only known to be <= len
  below            the offset is known to be < len
  fin              the offset is known to be the end of the text
  lag              advance of the offset that the line offset has not followed yet
  pend, ps         the byte passed last and not accounted for yet (ps: the
                   characters it can be), and which halves of a line break
                   (line number, line offset) have been performed for it
  p3               whether three quotes begin there
  mode             where in the lexical grammar the text read so far ends
  snaps            triples (off, bol, line) known to belong together
  bounds           terms known to be character boundaries <= len
  rel              pairs (a, b, strict) of offsets known to satisfy a <= b or a < b
  last             the offset of the last character accounted for, and what it can be
  adv              loops in which the offset advanced since their head

and demands at every move of the cursor that the byte passed is inside the text, that a
line break is counted exactly when one is passed, and that what is passed continues the
token.  The result for each way out is used by the rules of S05, S06, S07, S01 and S02.
"""
from terms import *
from common import *

WS = frozenset('\n\r\t ')
DIG = frozenset('0123456789')
STOP = WS | frozenset('()"')
ASCII = frozenset(chr(i) for i in range(128))
CHAR = 1 << 20                      # the length of one character, as a step
REST = 'rest'                       # every character outside ASCII


def kind(s):
    """Kind of a symbol, number or keyword by its first character."""
    if s <= DIG | set('+-'): return 'Number'
    if s == {':'}: return 'Keyword'
    if not s & (DIG | set('+-:')): return 'Symbol'
    return None


class Z:
    __slots__ = ('off', 'bol', 'line', 'byte', 'below', 'fin', 'lag', 'pend', 'ps', 'p3', 'nl', 'pre', 'mode', 'snaps', 'bounds', 'rel', 'adv', 'last', 'seen')

    def __init__(self, **k):
        for n, v in k.items(): setattr(self, n, v)

    def but(self, **k):
        z = Z(**{n: getattr(self, n) for n in self.__slots__})
        for n, v in k.items(): setattr(z, n, v)
        return z

    def core(self):
        return (self.off, self.bol, self.line, self.byte, self.fin, self.lag, self.pend, self.ps, self.p3, self.nl, self.pre, self.mode, self.seen)

    def meet(self, o):
        return self.but(below=self.below and o.below, snaps=self.snaps & o.snaps, bounds=self.bounds & o.bounds,
                        rel=self.rel & o.rel, adv=self.adv & o.adv, last=self.last if self.last == o.last else
                        (self.last[0], self.last[1] | o.last[1]) if self.last and o.last and self.last[0] is o.last[0] else None)

    def key(self):
        return self.core() + (self.below, self.snaps, self.bounds, self.rel, self.adv, self.last)


class Cursor:
    def __init__(self, ctx, g, roles, text):
        self.ctx, self.g, self.e = ctx, g, g.engine
        self.roles = roles          # place term of a cell -> 'off' | 'bol' | 'line'
        self.cell = {r: T('C', p) for p, r in roles.items()}
        self.text = text
        self.len = self.e.length(text)
        self.bytes = T('call', 'as_bytes', (text,))
        self.bad = {}
        self.where = {}
        self.nf = {}
        self.cs = {}
        self.moves = 0
        self.via = {}
        self.judged = set()

    # ---- what the facts of a state say about the text at an offset -----------------------
    def tail(self, o): return T('slice', self.text, o, self.len)

    def first(self, facts, o):
        """Characters (ASCII or REST) the character or byte at offset o can be; None when
        nothing is there."""
        s = ASCII | {REST}
        h = T('elem', T('call', 'chars', (self.tail(o),)), kint(0))
        f = facts.get(h)
        if f:
            cs = frozenset((c.args[1] if ord(c.args[1]) < 128 else REST) for c in f[1] if c.op == 'k' and c.args[0] == 'char')
            s = s & cs if f[0] else s - (cs - {REST})
        b = T('elem', self.bytes, o)
        f = facts.get(b)
        if f:
            cs = frozenset((chr(c.args[1]) if c.args[1] < 128 else REST) for c in f[1] if c.op == 'k' and c.args[0] == 'int')
            s = s & cs if f[0] else s - (cs - {REST})
        for t, f in facts.items():
            if t.op == 'cast' and t.args[1] is b and t.args[0] == 'char':
                cs = frozenset((c.args[1] if ord(c.args[1]) < 128 else REST) for c in f[1] if c.op == 'k' and c.args[0] == 'char')
                s = s & cs if f[0] else s - (cs - {REST})
            elif t.op == 'lt' and f[0] and len(f[1]) == 1 and (t.args[0] is h or t.args[1] is h):
                x, y = t.args
                c = y if x is h else x
                if c.op == 'k' and c.args[0] == 'char' and ord(c.args[1]) < 128:
                    v = TRUE in f[1]
                    n = ord(c.args[1])
                    low = frozenset(chr(i) for i in (range(n) if x is h else range(n + 1)))   # below c / up to c
                    if x is h: s = s & low if v else s - low
                    else: s = s - low if v else s & low
            elif t.op == 'call' and t.args[0] == 'starts_with' and t.args[1][0] is self.tail(o) and t.args[1][1].op == 'k' and f[0]:
                p = t.args[1][1].args[1]
                if type(p) is str and p:
                    if f[1] == frozenset([TRUE]): s = s & {p[0] if ord(p[0]) < 128 else REST}
                    elif f[1] == frozenset([FALSE]) and len(p) == 1 and ord(p) < 128: s = s - {p}
        return s

    def isat(self, facts, o, pat):
        """Does the text at o start with pat: True, False or None."""
        for t, f in facts.items():
            if t.op == 'call' and t.args[0] == 'starts_with' and t.args[1][0] is self.tail(o) and f[0] and len(f[1]) == 1 and t.args[1][1].op == 'k' and t.args[1][1].args[1] == pat:
                return TRUE in f[1]
        s = self.first(facts, o)
        if pat[0] not in s: return False
        if len(pat) == 1 and len(s) == 1: return True
        return None

    def inside(self, facts, o):
        """True: o < len, False: o >= len, None: not known."""
        r = None
        t = T('lt', o, self.len)
        f = facts.get(t)
        if f and f[0] and len(f[1]) == 1: r = TRUE in f[1]
        for t in (T('eq', o, self.len), T('eq', self.len, o)):
            # (no offset is beyond the end)
            f = facts.get(t)
            if f and f[0] and len(f[1]) == 1:
                q = TRUE not in f[1]
                if r is not None and r != q: return 'none'
                r = q
        n = facts.get(T('len', T('call', 'chars', (self.tail(o),))))
        if n is None: n = facts.get(self.e.length(self.tail(o)))
        if n is not None:
            q = None
            if n[0] and n[1] == frozenset([kint(0)]): q = False
            elif (n[0] and kint(0) not in n[1]) or (not n[0] and kint(0) in n[1]): q = True
            if q is not None:
                if r is not None and r != q: return 'none'
                r = q
        for t, f in facts.items():
            if t.op == 'call' and t.args[0] == 'starts_with' and t.args[1][0] is self.tail(o) and f == (True, frozenset([TRUE])):
                if r is False: return 'none'
                r = True
        return r

    def feasible(self, facts, z):
        """Facts that no text satisfies."""
        if not self.first(facts, z.off): return False
        i = self.inside(facts, z.off)
        if i == 'none': return False
        if z.below and i is False: return False
        if z.fin and (z.below or i is True): return False
        if i is False and (T('elem', T('call', 'chars', (self.tail(z.off),)), kint(0)) in facts or facts.get(T('elem', self.bytes, z.off), (False,))[0]): return False
        if z.pend is not None:
            if not self.passed(facts, z): return False
        for t, f in facts.items():
            if t.op == 'call' and t.args[0] == 'is_char_boundary' and t.args[1][0] is self.text and f == (True, frozenset([FALSE])) and self.isbound(z, t.args[1][1]): return False
        if z.last is not None and not self.first(facts, z.last[0]) & z.last[1]: return False
        return True

    # ---- bookkeeping --------------------------------------------------------------------
    def report(self, kind, rule, node, msg):
        sp = self.ctx.span(self.g, node)
        self.bad.setdefault((kind, rule, sp and (sp[0], sp[1]) if isinstance(sp, (list, tuple)) else str(sp)), (msg, sp))

    def facts(self, i):
        r = self.nf.get(i)
        if r is None:
            n = self.g.nodes[i]
            if n.state is not None: r = n.state
            elif n.info is not None or not n.inn: r = False
            else: r = self.facts(n.inn[0])
            self.nf[i] = r
        return r

    def passed(self, facts, z):
        """Characters the byte that is pending can be."""
        return self.first(facts, z.pend) & z.ps

    # ---- lexical grammar ------------------------------------------------------------------
    # ('ws', W) white space since W; ('com', W) in a comment; ('id', W, X, esc, F) in a symbol,
    # number or keyword that began at X with a character of kind F; ('str', W, X, n, esc) in a string with n quotes;
    # ('end', W, X, s, n) after the last character of a token (a parenthesis out of s, or a string with n quotes);
    # ('back', z, facts) back at an earlier position after looking ahead; ('bad',) after a report
    def lex(self, mode, s, p3, x, node):
        """Where the text ends after one more character out of s (at offset x)."""
        k = mode[0]
        def bad(rule, msg):
            if node is None: return None
            self.report('lex', rule, node, msg)
            return ('bad',)
        if k == 'ws':
            if s <= WS: return mode
            if s == {';'}: return ('com', mode[1])
            if s & (WS | {';'}): return bad('white-space', 'passes a character before the token without knowing that it is white space or in a comment')
            if s <= {'(', ')'}: return ('end', mode[1], x, s, 0)
            if s == {'"'}: return ('str', mode[1], x, 1, False)
            if '"' in s or '(' in s or ')' in s or ('\\' in s and len(s) > 1): return bad('token-start', 'starts a token without knowing what kind of character it starts with')
            return ('id', mode[1], x, s == {'\\'}, kind(s))
        if k == 'com':
            if s == {'\n'}: return ('ws', x)
            if '\n' not in s: return mode
            return bad('comment-end', 'passes a character of a comment without knowing whether it ends the comment')
        if k == 'id':
            if mode[3]: return mode[:3] + (False, mode[4])
            if s & STOP: return bad('token-end', 'a symbol, number or keyword goes on over a character that may be white space, a parenthesis or a quote')
            if '\\' in s and len(s) > 1: return bad('escape', 'passes a character of a symbol, number or keyword without knowing whether it is a backslash')
            return mode[:3] + (s == {'\\'}, mode[4])
        if k == 'str':
            if mode[4]: return mode[:4] + (False,)
            if mode[3] == 1:
                if s == {'"'}: return ('end', mode[1], mode[2], frozenset('"'), mode[3])
                if '"' in s: return bad('string-end', 'passes a character of a string without knowing whether it is the closing quote')
            elif '"' in s and p3 is not False: return bad('string-end', 'passes a quote inside a triple-quoted string without knowing whether the string ends there')
            if '\\' in s and len(s) > 1: return bad('escape', 'passes a character of a string without knowing whether it is a backslash')
            return mode[:4] + (s == {'\\'},)
        if k == 'end': return bad('token-end', 'reads on after the end of the token')
        return mode

    def triple(self, mode, facts, x, node):
        """Three quotes at x passed at once."""
        if mode[0] == 'ws': return ('str', mode[1], x, 3, False)
        if mode[0] == 'str' and mode[3] == 3 and not mode[4]: return ('end', mode[1], mode[2], frozenset('"'), mode[3])
        if mode[0] != 'bad': self.report('lex', 'quotes', node, 'passes three quotes where no string begins or ends')
        return ('bad',)

    # ---- settling the byte passed last -------------------------------------------------------
    def settle(self, z, facts, node, force):
        """The state with the pending byte accounted for; None when it cannot be yet."""
        if z.pend is None: return z
        s = self.passed(facts, z)
        if not s: return z.but(pend=None, ps=None, p3=None, nl=(False, False))
        nl = s == {'\n'}
        if '\n' in s and not nl:
            # nothing follows: the line number is no longer used
            if z.byte == 'B' and (z.fin or self.inside(facts, z.off) is False) and z.nl == (False, False):
                return z.but(nl='stale') if force else None
            if force:
                self.report('line', 'line-break', node, 'moves on after a character that may be a line break without deciding whether to count it')
                return z.but(pend=None, ps=None, p3=None, nl=(False, False), mode=self.lex(z.mode, s, z.p3, z.pend, node))
            return None
        if nl and z.nl != (True, True):
            if z.byte == 'B' and (z.fin or self.inside(facts, z.off) is False) and z.nl == (False, False):
                return z.but(nl='stale') if force else None
            if force:
                self.report('line', 'line-break', node, 'passes a line break without counting the line and restarting the column')
            else: return None
        if not nl and z.nl not in ((False, False), 'stale'):
            if not force: return None
            self.report('line', 'line-break', node, 'counts a line break where none was passed')
        if z.lag:
            if not force: return None
            self.report('line', 'column', node, 'the column is not advanced together with the offset')
        m = self.lex(z.mode, s, z.p3, z.pend, node)
        return z.but(pend=None, ps=None, p3=None, nl=(False, False), lag=0, mode=m, last=(z.pend, s))

    def arrive(self, z, facts):
        """Learn from the facts of a state."""
        if z.pend is not None:
            z = z.but(ps=self.passed(facts, z))
            if z.p3 is None: z = z.but(p3=self.isat(facts, z.pend, '"""'))
            if z.ps <= ASCII: z = z.but(bounds=z.bounds | {z.pend, self.e.add(z.pend, kint(1))})
        i = self.inside(facts, z.off)
        if i is True and not z.below: z = z.but(below=True)
        if i is False and not z.fin: z = z.but(fin=True)
        if z.byte == 'C':
            f = facts.get(T('call', 'is_char_boundary', (self.text, z.off)))
            if (f and f == (True, frozenset([TRUE]))) or i is False or z.fin: z = z.but(byte='B')
            elif z.below and self.first(facts, z.off) <= ASCII and T('elem', self.bytes, z.off) in self.mentioned(facts): z = z.but(byte='B')
        if z.byte == 'C' and z.pend is not None and z.off is self.e.add(z.pend, kint(1)) and self.passed(facts, z) <= ASCII: z = z.but(byte='B')
        q = self.settled(z, facts)
        if q and z.pend is not None:
            m = self.lex(z.mode, self.passed(facts, z), z.p3, z.pend, None)
            if m is not None and m[0] != 'bad': z = z.but(pend=None, ps=None, p3=None, nl=(False, False), mode=m, last=(z.pend, self.passed(facts, z)))
        if q is not None and z.byte == 'B':
            z = z.but(snaps=z.snaps | {(z.off, z.bol, z.line)})
        if z.byte == 'B': z = z.but(bounds=z.bounds | {z.off})
        return z

    def mentioned(self, facts):
        out = set()
        for t in facts:
            out.add(t)
            if t.op == 'cast': out.add(t.args[1])
        return out

    def settled(self, z, facts):
        """Is the triple of cells right for the offset it holds."""
        if z.lag or z.lag is None or z.nl == 'stale' or z.pre != (False, False): return None
        if z.pend is None: return True
        s = self.passed(facts, z)
        if s == {'\n'}: return True if z.nl == (True, True) else None
        if '\n' in s: return None
        return True if z.nl == (False, False) else None

    def length(self, d, o):
        """A number of bytes, or CHAR for the length of the character at o."""
        if d.op == 'k' and d.args[0] == 'int': return d.args[1] if d.args[1] > 0 else None
        if d.op == 'call' and d.args[0].endswith('len_utf8') and d.args[1][0] is T('elem', T('call', 'chars', (T('slice', self.text, o, self.len),)), kint(0)): return CHAR

    def normal(self, facts, x, memo=None):
        """The term (or state) with the lengths of characters known to be ASCII put in."""
        memo = {} if memo is None else memo
        n = lambda a: self.normal(facts, a, memo)
        if type(x) is Z: return Z(**{k: n(getattr(x, k)) for k in Z.__slots__})
        if type(x) is tuple: return tuple(n(a) for a in x)
        if type(x) is frozenset: return frozenset(n(a) for a in x) if any(type(a) in (tuple, Term) for a in x) else x
        if type(x) is not Term or x.op in ('k', 'ctx', 'phi'): return x
        if x in memo: return memo[x]
        if x.op == 'call' and x.args[0].endswith('len_utf8') and x.args[1][0].op == 'elem':
            c = x.args[1][0].args[0]
            if c.op == 'call' and c.args[1][0].op == 'slice' and x.args[1][0].args[1] is kint(0) and self.first(facts, c.args[1][0].args[1]) <= ASCII:
                memo[x] = kint(1)
                return memo[x]
        a = tuple(n(y) for y in x.args)
        r = x if all(p is q for p, q in zip(a, x.args)) else self.e.add(*a) if x.op == 'add' else self.e.sub(*a) if x.op == 'sub' else x if a == x.args else T(x.op, *a)
        memo[x] = r
        return r

    # ---- moves -------------------------------------------------------------------------------
    def step(self, z, role, v, facts, node, loops):
        e = self.e
        self.moves += 1
        self.judged.add(('move' if role == 'off' else 'line', node))
        if role == 'off':
            self.judged.add(('lex', node))
            if v is z.off: return z
            d = e.sub(v, z.off)
            k = self.length(d, z.off)
            if k is None: return self.jump(z.but(off=v), facts, node, z)
            if z.lag is None: return self.jump(z.but(off=v), facts, node, z)
            ahead = min(z.lag, 0)
            z = z.but(lag=z.lag - ahead)
            n = self.settle_cont(z, facts, node)
            cont = n is None
            if cont: n = z
            o = z.off
            if z.pre[1]: ahead -= k
            if z.pre != (False, False) and not (k in (1, CHAR) and not cont): self.report('line', 'line-break', node, 'counts a line break where none is passed')
            adv = n.adv | loops
            rel = set(n.rel)
            rel.add((o, v, True))
            for a, b, s in n.rel:
                if b is o: rel.add((a, v, True))
            for b in n.bounds:
                if b is o: rel.add((b, v, True))
            n = n.but(off=v, adv=adv, rel=frozenset(rel), below=False, fin=False, lag=n.lag + ahead + k, pre=(False, False))
            if k in (1, CHAR):
                if cont and k == 1: return n.but(byte='C')
                inside = self.inside(facts, o)
                if not (inside is True or z.below):
                    self.report('move', 'end', node, 'moves past a position that may be the end of the text')
                s = self.first(facts, o)
                if z.nl == 'stale': self.report('line', 'line-break', node, 'moves on after a line break that was not counted')
                if k == CHAR and (z.byte != 'B' or cont): self.report('move', 'boundary', node, 'moves over a character from a position that may be inside one')
                return n.but(byte='B' if z.byte == 'B' and (k == CHAR or s <= ASCII) else 'C', pend=o, ps=s, p3=self.isat(facts, o, '"""'), nl=z.pre)
            for p in ('"' * k,):
                if k == 3 and self.isat(facts, o, p) is True:
                    if z.byte != 'B': self.report('move', 'boundary', node, 'moves three bytes from a position that may be inside a character')
                    return n.but(byte='B', pend=None, ps=None, p3=None, mode=self.triple(n.mode, facts, o, node))
            self.report('move', 'length', node, 'moves %d bytes without knowing that the text has these bytes' % k)
            return n.but(byte='C', pend=None, ps=None, p3=None, mode=('bad',))
        if z.lag is None: return self.jump(z.but(**{role: v}), facts, node, z)
        nl = z.nl if type(z.nl) is tuple else (False, False)
        after = z.pend is not None and self.passed(facts, z) == {'\n'}
        before = self.first(facts, z.off) == {'\n'} and self.settled(z.but(pre=(False, False)), facts)
        if role == 'bol':
            if v is kint(0) and after and not nl[1] and self.length(e.sub(z.off, z.pend), z.pend) in (1, CHAR): return z.but(bol=v, lag=0, nl=(nl[0], True))
            if v is kint(0) and before and not z.pre[1]: return z.but(bol=v, pre=(z.pre[0], True))
            if v is z.bol: return z
            d = e.sub(v, z.bol)
            k = self.length(d, z.off) or (z.pend is not None and self.length(d, z.pend))
            if k: return z.but(bol=v, lag=z.lag - k)
            if v is kint(0):
                self.report('line', 'column', node, 'restarts the column where no line break was passed')
                return z.but(bol=v, lag=0)
            return self.jump(z.but(bol=v), facts, node, z)
        if v is z.line: return z
        if e.sub(v, z.line) is kint(1):
            if after and not nl[0]: return z.but(line=v, nl=(True, nl[1]))
            if before and not z.pre[0]: return z.but(line=v, pre=(True, z.pre[1]))
            self.report('line', 'line-break', node, 'counts a line break twice' if after else 'counts a line where no line break was passed')
            return z.but(line=v)
        return self.jump(z.but(line=v), facts, node, z)

    def settle_cont(self, z, facts, node):
        """Settle before a move; None when the move is inside a character."""
        if z.byte == 'C':
            f = facts.get(T('call', 'is_char_boundary', (self.text, z.off)))
            if f and f == (True, frozenset([FALSE])):
                # the byte at the offset continues a character
                if z.pend is None or self.first(facts, z.pend) & {REST}: return None
        return self.settle(z, facts, node, True)

    def jump(self, z, facts, node, z0):
        """A cell is set to an unrelated value: allowed while restoring a known position."""
        if z.seen is None: z = z.but(seen=(z0.off, z0.fin, z0.below, self.first(facts, z0.off), z0.mode[0], self.settled(z0, facts)))
        for o, b, l in z.snaps:
            if z.off is o and z.bol is b and z.line is l:
                return z.but(byte='B', mode=('back',) + z.seen, seen=None, lag=0, pend=None, ps=None, p3=None, nl=(False, False), pre=(False, False), below=False, fin=False)
        if not any(z.off is o or z.bol is b or z.line is l for o, b, l in z.snaps):
            self.report('move', 'jump', node, 'sets the position to a place that is not known to be one')
        return z.but(lag=None, pend=None, ps=None, p3=None, nl=(False, False), pre=(False, False), byte='C', below=False, fin=False)

    # ---- fixpoint ----------------------------------------------------------------------------
    def run(self, start):
        g = self.g
        at = {0: {start.core(): start}}
        work = [0]
        inq = {0}
        n = 0
        while work:
            work.sort(reverse=True)
            i = work.pop(); inq.discard(i)
            n += 1
            if n > 400000: raise AnalysisError('cursor analysis does not settle')
            st = self.facts(i)
            src = g.nodes[i]
            for z in list(at.get(i, {}).values()):
                for evs, m in src.out:
                    for y in self.flow(z, src, st, evs, g.nodes[m]):
                        d = at.setdefault(m, {})
                        c = y.core()
                        o = d.get(c)
                        q = y if o is None else o.meet(y)
                        if o is None: self.via[m, c] = (i, z.core())
                        if o is None or q.key() != o.key():
                            d[c] = q
                            if len(d) > 24: raise AnalysisError('too many cursor states')
                            if m not in inq: work.append(m); inq.add(m)
        self.at = at
        return at

    def flow(self, z, src, st, evs, dst):
        facts = st.facts if st else {}
        loops = frozenset(st.loops) | ({src.loc} if src.loc in self.g.loops else set()) if st else frozenset()
        for ev in evs:
            if ev[0] == 'set' and ev[1] in self.roles:
                z = self.step(z, self.roles[ev[1]], ev[2], facts, src.id, loops)
                z = self.arrive(z, facts)
            elif ev[0] == 'utf8':
                v = ev[1]
                self.judged.add(('utf8', src.id))
                if v.args[0] is self.text and not self.span_ok(z, v.args[1], v.args[2]):
                    self.report('utf8', 'boundary', src.id, 'makes a string of bytes that may not begin and end at character boundaries')
        t = dst.state
        if t is None:
            if dst.info is not None:
                f2 = dst.info['facts']
                if not self.feasible(f2, z): return
                f = facts.get(T('call', 'is_char_boundary', (self.text, z.off)))
                yield self.arrive(z, f2)
            else: yield z
            return
        f2 = t.facts
        # a character known to have several bytes
        if z.pend is not None and z.ps != {REST}:
            f = f2.get(T('call', 'is_char_boundary', (self.text, self.e.add(z.pend, kint(1)))))
            if f and f == (True, frozenset([FALSE])) and z.off is self.e.add(z.pend, kint(1)) and z.byte == 'C': z = z.but(ps=z.ps & {REST})
        if not self.feasible(f2, z): return
        if dst.loc in self.g.loops: 
            z = self.head(z, src, st, dst, facts)
            if z is None: return
            if not self.feasible(f2, z): return
        z = self.arrive(z, f2)
        yield z

    def head(self, z, src, st, dst, facts):
        loc = dst.loc
        back = st is not None and (loc in st.loops or src.loc == loc)
        if back: self.judged.add(('loop', dst.id))
        if back and loc not in z.adv and not self.bounded(loc):
            self.report('loop', 'progress', dst.id, 'a loop goes round without moving forward')
        z = z.but(adv=z.adv - {loc})
        info = self.g.loops.get(loc, {'entry': [], 'back': []})
        phis = self.e.loop_atoms(loc)
        # names the target state gives to the values of this arrival
        recs = [r for r in info['entry'] + info['back'] if r[2] == src.id]
        ren = {}
        for ph in phis:
            v = dst.state.store.get(ph.args[2])
            x = self.e.get_path(v, ph.args[3]) if v is not None else None
            if x is not ph: continue
            vals = {r[0].get((ph.args[2], ph.args[3])) for r in recs}
            if len(vals) == 1 and None not in vals: ren[ph] = vals.pop()
        stale = lambda t: any(a.op == 'phi' and a.args[0] is loc[0] and a.args[1] == loc[1] for a in atoms(t))
        byval = {}
        for ph, x in ren.items(): byval.setdefault(x, []).append(ph)
        # a value and the value plus a constant
        def names(t):
            out = [] if stale(t) else [t]
            out += byval.get(t, [])
            return out
        def cur(role, x):
            v = self.e.read_root(dst.state, self.cell[role])
            return v
        snaps = frozenset((o2, b2, l2) for o, b, l in z.snaps for o2 in names(o) for b2 in names(b) for l2 in names(l))
        bounds = frozenset(o2 for o in z.bounds for o2 in names(o))
        rel = frozenset((a2, b2, s) for a, b, s in z.rel for a2 in names(a) for b2 in names(b) if a2 is not b2)
        eqs = set()
        for x, l in byval.items():
            n = names(x)
            for a in n:
                for b in n:
                    if a is not b: eqs.add((a, b, False))
        off, bol, line = cur('off', z.off), cur('bol', z.bol), cur('line', z.line)
        for role, new, old in (('off', off, z.off), ('bol', bol, z.bol), ('line', line, z.line)):
            if new is not old and new not in names(old):
                raise AnalysisError('lost the value of a cell at a loop head (%s)' % role)
        pend, nl, ps, p3, mode, lag = z.pend, z.nl, z.ps, z.p3, z.mode, z.lag
        if pend is not None and stale(pend):
            n = names(pend)
            if n: pend = n[0]
            else:
                y = self.settle(z, facts, src.id, True)
                pend, nl, ps, p3, mode, lag = None, y.nl, None, None, y.mode, y.lag
        last = z.last
        if last is not None and stale(last[0]):
            n = names(last[0])
            last = (n[0], last[1]) if n else None
        if any(type(x) is Term and stale(x) for x in mode):
            mode2 = []
            for x in mode:
                if type(x) is Term and stale(x):
                    n = names(x)
                    x = n[0] if n else None
                mode2.append(x)
            mode = tuple(mode2)
        return z.but(off=off, bol=bol, line=line, snaps=snaps, bounds=bounds, rel=rel | eqs, pend=pend, nl=nl, ps=ps, p3=p3, mode=mode, lag=lag, last=last)

    def bounded(self, loc):
        """The loop walks over a sequence."""
        for (root, path), flag in self.g.L.get(loc, {}).items():
            if path and path[-1][0] == 'lo':
                ph = T('phi', loc[0], loc[1], root, path, flag)
                b = [r[0].get((root, path)) for r in self.g.loops[loc]['back']]
                if b and all(x is not None and self.e.sub(x, ph).op == 'k' and self.e.sub(x, ph).args[1] > 0 for x in b): return True
        return False

    # ---- queries at exits ---------------------------------------------------------------------
    def le(self, z, a, b, strict=False):
        """a <= b (a < b) follows from the order of the moves."""
        if a is b: return not strict
        d = self.e.sub(b, a)
        if d.op == 'k' and d.args[0] == 'int': return d.args[1] > 0 if strict else d.args[1] >= 0
        lb, kb = self.e.lin(b)
        la, ka = self.e.lin(a)
        if all(lb.get(t, 0) >= la.get(t, 0) for t in set(la) | set(lb)) and (kb > ka or (kb == ka and not strict)): return True
        seen, work = {(a, False)}, [(a, False)]
        while work:
            x, s = work.pop()
            for p, q, r in z.rel:
                if p is x or (self.e.sub(p, x).op == 'k' and 0 <= self.e.sub(p, x).args[1]):
                    t = s or r or (p is not x and self.e.sub(p, x).args[1] > 0)
                    e = self.e.sub(b, q)
                    if e.op == 'k' and e.args[0] == 'int' and e.args[1] >= 0 and (t or e.args[1] > 0 or not strict): return True
                    if (q, t) not in seen:
                        seen.add((q, t)); work.append((q, t))
        return False

    def isbound(self, z, o):
        if o is self.len or (o.op == 'k' and o.args[1] == 0): return True
        return o in z.bounds

    def span_ok(self, z, a, b):
        return self.isbound(z, a) and self.isbound(z, b) and (b is self.len or self.le(z, a, b))
