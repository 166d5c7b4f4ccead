"""The tree mirrors the source text."""
from reader import *
import parsing

TECHNIQUE = 'cursor typestate against the lexical grammar (where tokens begin and end, their kind, text and white space); exact form of every tree the tree builder returns and justification of every error; simulation of escape removal against a two-state transducer'
NOTE = 'the escapes of strings are those of the descape crate'
MIN_OBLIGATIONS = 200

T0 = 'token(start).Ok.0'
LISTEND = 'fold{next(start); after(@0)}'
NODE = lambda k, v: 'Ok(ParseNode::%s(Node{value: %s, site: %s.site, leading_whitespace: %s.leading_whitespace}))' % (k, v, T0, T0)
# result, kind of the first token, where the reader is then
BUILT = {
    NODE('Number', 'escape_sanitize(%s.value)' % T0): ('Number', 'next(start)'),
    NODE('Symbol', 'escape_sanitize(%s.value)' % T0): ('Symbol', 'next(start)'),
    NODE('String', 'escape_string(%s.value, %s.site).Ok.0' % (T0, T0)): ('String', 'next(start)'),
    'Ok(ParseNode::Attribute{keyword: escape_sanitize(%s.value), node: expr(next(start)).Ok.0, site: %s.site, leading_whitespace: %s.leading_whitespace})' % (T0, T0, T0): ('Keyword', 'after(next(start))'),
    'Ok(ParseNode::List{nodes: each{expr(%s).Ok.0}, site: %s.site, end_token: token(%s).Ok.0, leading_whitespace: %s.leading_whitespace})' % (LISTEND, T0, LISTEND, T0): ('LParen', 'next(%s)' % LISTEND),
}


def check(ctx):
    ctx.attempt('tokens', 'consume', lambda: tokens(ctx))
    ctx.attempt('built', 'parse_expr', lambda: built(ctx))
    ctx.attempt('built', 'parse', lambda: whole(ctx))
    ctx.attempt('escapes', 'escape_sanitize', lambda: escapes(ctx))
    ctx.attempt('escapes', 'escape_string', lambda: strings(ctx))


def tokens(ctx):
    r = read_method(ctx, 'consume')
    r.cursor_rules(('lex',))
    def bad(k, rule, x, msg):
        if k == 'lex': ctx.violation(rule, 'consume', ctx.span(r.g, x.id), msg)
    n = consume_exits(ctx, r, bad, lambda x: ctx.ok('token', 'consume: way out %d' % x.id))
    ctx.floor('ways to end reading a token', n, 20)


def facts(c, x): return {c.show(t): (p, {str(v.args[1]) for v in vs}) for t, (p, vs) in x.info['facts'].items()}


def kinds(f, t):
    p = f.get('kind(%s.Ok.0.kind)' % t)
    if p is None: return set(KIND)
    return p[1] if p[0] else set(KIND) - p[1]


def built(ctx):
    g = parsing.explore(ctx, 'parse_expr')
    c = Canon(g)
    seen = set()
    for x in g.exits:
        sp = ctx.span(g, x.id)
        if x.info['kind'] != 'return': ctx.violation('built', 'parse_expr', sp, 'building the tree aborts'); continue
        f = facts(c, x)
        v = c.show(x.info['value'])
        if is_ok(x):
            b = BUILT.get(v)
            if not ctx.require(b is not None, 'built', 'parse_expr', 'builds something else than the text says: %s' % v[:400], sp): continue
            k, end = b
            seen.add(k)
            ctx.require(kinds(f, 'token(start)') == {k}, 'kind', 'parse_expr', 'a %s is made of tokens of kind %s' % (v[3:24], sorted(kinds(f, 'token(start)'))), sp)
            V = x.info['store'].get(parsing.VER)
            ctx.require(V is not None and c.show(V) == end, 'covered', 'parse_expr', 'after a %s the reader stands at %s instead of %s' % (k, c.show(V)[:80] if V is not None else None, end), sp)
            if k == 'Keyword':
                ctx.require(not (kinds(f, 'token(next(start))') & {'RParen'}), 'balance', 'parse_expr', 'a keyword may take a closing parenthesis for its value', sp)
            if k == 'LParen':
                ctx.require(kinds(f, 'token(%s)' % LISTEND) == {'RParen'} and f.get('eof(%s)' % LISTEND) == (True, {'False'}), 'balance', 'parse_expr', 'a list may end at something else than a closing parenthesis', sp)
        else:
            ctx.require(justified(f), 'error', 'parse_expr', 'an error is reported for a text that is none: %s (known: %s)' % (v[:120], sorted(f)[:8]), sp)
    for k in set(KIND) - {'RParen'}: ctx.require(k in seen, 'built', 'parse_expr', 'no tree is built of a %s' % k)
    inside(ctx, g, c)


def inside(ctx, g, c):
    """Every round of a list reads an expression that is no closing parenthesis."""
    n = 0
    for loc, info in g.loops.items():
        for rec in info['back']:
            n += 1
            f = {c.show(t): (p, {str(v.args[1]) for v in vs}) for t, (p, vs) in rec[1].items()}
            ctx.require(kinds(f, 'token(%s)' % LISTEND) == set(KIND) - {'RParen'}, 'balance', 'parse_expr', 'a list may go on after its closing parenthesis, or end before it', ctx.span(g, rec[2]))
    ctx.floor('rounds of lists', n, 1)


def justified(f):
    k = kinds(f, 'token(start)')
    if any(v == (True, {'Err'}) and re.match(r'kind\((?:token|expr|escape_string)\(', t) for t, v in f.items()): return True
    if k == {'RParen'}: return True
    if k == {'Keyword'} and (f.get('eof(next(start))') == (True, {'True'}) or kinds(f, 'token(next(start))') == {'RParen'}): return True
    if k == {'LParen'} and f.get('eof(%s)' % LISTEND) == (True, {'True'}): return True
    return False


def whole(ctx):
    g = parsing.explore(ctx, 'parse')
    c = Canon(g)
    n = 0
    for x in g.exits:
        sp = ctx.span(g, x.id)
        if x.info['kind'] != 'return': ctx.violation('built', 'parse', sp, 'building the tree aborts'); continue
        f = facts(c, x)
        v = c.show(x.info['value'])
        if is_ok(x):
            n += 1
            ctx.require(v == 'Ok(each{expr(fold{start; after(@0)}).Ok.0})', 'built', 'parse', 'the tree is not all expressions of the text in order: %s' % v[:300], sp)
            ctx.require(f.get('eof(fold{start; after(@0)})') == (True, {'True'}), 'covered', 'parse', 'the tree ends before the text ends', sp)
        else:
            ctx.require(any(t.startswith('kind(expr(') and p == (True, {'Err'}) for t, p in f.items()), 'error', 'parse', 'an error is reported for a text that is none: %s' % v[:200], sp)
    ctx.floor('trees of texts', n, 1)


def escapes(ctx):
    """Removing escapes: what is appended, character by character, against the two states
    'plain' and 'after a backslash'."""
    f = ctx.fn('seam::parse::parser::escape_sanitize')
    g = ctx.explore(f, opts={'keep': lambda t: True, 'decide': True}, nodeops=False)
    c, e = Canon(g), g.engine
    s = argn(f, 1)
    chars = T('call', 'chars', (s,))
    n = 0
    for x in g.exits:
        if x.info['kind'] == 'return' and x.info['value'] is s:
            ok = any('contains(' in c.show(t) and c.show(t).endswith("'\\\\')") and p and vs == frozenset([FALSE]) for t, (p, vs) in x.info['facts'].items())
            ctx.require(ok, 'escapes', 'escape_sanitize', 'the text is returned as it is although it may hold a backslash', ctx.span(g, x.id)); n += 1
    heads = {}
    for loc, info in g.loops.items():
        head = Head(ctx, g, c, loc, info, s)
        if head.idx is not None: heads[loc] = head
    ctx.require(len(heads) == 1, 'escapes', 'escape_sanitize', 'expected one loop over the characters, found %d' % len(heads))
    for loc, h in heads.items(): n += h.judge()
    ctx.floor('steps of escape removal', n, 3)


class Head:
    def __init__(self, ctx, g, c, loc, info, s):
        self.ctx, self.g, self.c, self.loc, self.info, self.e, self.s = ctx, g, c, loc, info, g.engine, s
        self.idx = self.out = None
        phis = {T('phi', loc[0], loc[1], r, p, fl): (r, p) for (r, p), fl in g.engine.L.get(loc, {}).items()}
        for ph, k in phis.items():
            ent = {rec[0].get(k) for rec in info['entry']}
            if ent == {kint(0)}: self.idx = ph, k
            elif all(x is not None and x.op == 'k' and x.args[1] == '' for x in ent): self.out = ph, k
        if self.idx is None: return
        if self.out is None: raise AnalysisError('no text is built from the characters')

    def heads(self, node):
        """Loop heads an edge of the loop leads to."""
        return [m for _, m in self.g.nodes[node].out]

    def origins(self, node):
        """Loop heads from which a node is reached without passing another."""
        seen, w, out = {node}, [node], set()
        while w:
            i = w.pop()
            if i in self.mode_of: out.add(i); continue
            for p in self.g.nodes[i].inn:
                if p not in seen: seen.add(p); w.append(p)
        return out

    def char(self, facts, p):
        """'\\', not '\\', or unknown: the character at p; None: past the end."""
        f = facts.get(self.term(p))
        if f is None: return 'any'
        have = {x.args[1] for x in f[1]}
        if f[0] and have == {'\\'}: return '\\'
        return 'other' if f[0] != ('\\' in have) else 'any'

    def term(self, p): return T('elem', T('call', 'chars', (self.s,)), p)

    def inside(self, facts, p):
        for t, (pos, vs) in facts.items():
            if t.op == 'lt' and t.args[0] is p and self.c.show(t.args[1]) == 'len(chars(%s))' % self.c.show(self.s):
                if pos and vs == frozenset([TRUE]): return True
                if pos and vs == frozenset([FALSE]): return False
        return None

    def step(self, mode, facts, j, outs, sp):
        """Simulates the characters from the head to j; the mode afterwards, or None after a report."""
        e, c = self.e, self.c
        d = e.sub(j, self.idx[0])
        if d.op != 'k' or d.args[0] != 'int' or d.args[1] < 0: self.ctx.violation('escapes', 'escape_sanitize', sp, 'the position does not advance by a known number of characters'); return None
        want = []
        for k in range(d.args[1]):
            p = e.add(self.idx[0], kint(k))
            if self.inside(facts, p) is False: break
            ch = self.char(facts, p)
            if mode == 'plain' and ch == 'any': self.ctx.violation('escapes', 'escape_sanitize', sp, 'a character is passed without looking for a backslash'); return None
            if mode == 'plain' and ch == '\\': mode = 'escaped'; continue
            want.append((p, ch)); mode = 'plain'
        good = len(want) == len(outs) and all(o is self.term(p) or (ch == '\\' and o.op == 'k' and o.args[1] == '\\') for o, (p, ch) in zip(outs, want))
        if not good:
            self.ctx.violation('escapes', 'escape_sanitize', sp, 'appends %s where the text stands for %s' % ([c.show(o)[:40] for o in outs], [c.show(self.term(p)) for p, _ in want]))
            return None
        return mode

    def outs(self, v):
        if v is self.out[0]: return []
        if v.op == 'cat' and v.args[0][0] is self.out[0]: return list(v.args[0][1:])
        raise AnalysisError('the text built so far is not kept: %s' % self.c.show(v)[:100])

    def judge(self):
        ctx, g, n = self.ctx, self.g, 0
        self.mode_of = {}
        for rec in self.info['entry']:
            for h in self.heads(rec[2]): self.mode_of[h] = 'plain'
        todo, done = list(self.info['back']), True
        while todo and done:
            done = False
            for rec in list(todo):
                m = self.mode_of.get(rec[3])
                if m is None: continue
                todo.remove(rec); done = True; n += 1
                raw, facts, sp = rec[0], rec[1], ctx.span(g, rec[2])
                j = raw[self.idx[1]]
                m2 = self.step(m, facts, j, self.outs(raw[self.out[1]]), sp)
                if m2 is None or self.inside(facts, j) is False: continue
                for h in self.heads(rec[2]):
                    if h not in self.mode_of: self.mode_of[h] = m2
                    ctx.require(self.mode_of[h] == m2, 'escapes', 'escape_sanitize', 'goes on as if %s backslash had been passed' % ('no' if m2 == 'escaped' else 'a'), sp)
        for x in g.exits:
            v = x.info['value']
            if x.info['kind'] != 'return': ctx.violation('escapes', 'escape_sanitize', ctx.span(g, x.id), 'removing escapes aborts'); continue
            if v is self.s: continue
            facts, sp = x.info['facts'], ctx.span(g, x.id)
            ends = [t.args[0] for t, (pos, vs) in facts.items() if t.op == 'lt' and self.inside(facts, t.args[0]) is False]
            n += 1
            if not ctx.require(len(ends) == 1, 'escapes', 'escape_sanitize', 'returns before the end of the text', sp): continue
            for h in self.origins(x.id): self.step(self.mode_of[h], facts, ends[0], self.outs(v), sp)
        return n


def strings(ctx):
    f = ctx.fn('seam::parse::parser::escape_string')
    g = ctx.explore(f, opts={'keep': lambda t: True})
    c = Canon(g)
    a, b = argn(f, 1), argn(f, 2)
    done = 'to_unescaped(%s)' % c.show(a)
    n = 0
    for x in g.exits:
        sp = ctx.span(g, x.id)
        if x.info['kind'] != 'return': ctx.violation('escapes', 'escape_string', sp, 'reading the escapes of a string aborts'); continue
        n += 1
        v, fs = c.show(x.info['value']), facts(c, x)
        k = fs.get('kind(%s)' % done)
        if is_ok(x): ctx.require(v == 'Ok(%s.Ok.0)' % done and k == (True, {'Ok'}), 'escapes', 'escape_string', 'the string is not the text without its escapes: %s' % v[:200], sp)
        else: ctx.require(k == (True, {'Err'}) and re.search(r'LexError\(.*, %s\)\)$' % re.escape(c.show(b)), v), 'escapes', 'escape_string', 'an error that is none, or without its position: %s' % v[:200], sp)
    ctx.floor('results of reading the escapes of a string', n, 2)
