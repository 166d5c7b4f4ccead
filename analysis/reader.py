"""The token reader (Lexer) judged by the cursor analysis: what every way through `consume`,
`peek` and `eof` does to the position, to the text and to the token it makes."""
from macros import *
from cursor import *

LEXER = 'seam::parse::lexer::Lexer'
CACHE = {}


def method(ctx, name): return ctx.fn(LEXER + '::' + name)


def entries(ctx):
    """Methods of the reader that the rest of the program calls."""
    names = set()
    for f in ctx.F.fns.values():
        if f.crate == 'models' or f.path.startswith('seam::parse::lexer::'): continue
        for b in f.blocks:
            t = b['t']
            if t[0] == 'call' and t[1][0] == 'fn':
                m = re.match(r'seam::parse::lexer::Lexer(?:<.*?>)?::(\w+)$', re.sub(r"::<'a>", '', t[1][1]['path']) if isinstance(t[1][1], dict) else '')
                if m: names.add(m.group(1))
    return names


class Reader:
    """One method of the reader under the cursor analysis."""
    def __init__(self, ctx, fn, anchors=None):
        self.ctx, self.fn = ctx, fn
        g = self.g = ctx.explore(fn, anchors=anchors or {}, opts={'keep': lambda t: True, 'peel': True, 'utf8': True}, limit=400, nodeops=False)
        self.c = Canon(g)
        cells = {}
        for i in g.reach:
            for evs, m in g.nodes[i].out:
                for e in evs:
                    if e[0] == 'set': cells[self.c.show(e[1])] = e[1]
        st = g.nodes[0].state
        init, _, _ = initial(ctx)
        values = {p: g.engine.read_root(st, T('C', p)) for p in cells.values()}
        indexes = set()
        for n in g.nodes:
            for t in n.state.facts if n.state else ():
                for a in subterms(t):
                    if a.op == 'slice' and a.args[2].op == 'len': indexes.add(a.args[1])
                    elif a.op in ('lt', 'eq') and a.args[1].op == 'len': indexes.add(a.args[0])
        roles, self.start = {}, {}
        for s, p in cells.items():
            i = init.get(s.split('.')[-1])
            rl = 'line' if i is kint(1) else 'off' if i is kint(0) and values[p] in indexes else 'bol' if i is kint(0) else None
            if rl is None: raise AnalysisError('%s is written by the reader and plays no known part' % s)
            roles[p] = rl
            self.start[rl] = values[p]
        src = {t for n in g.nodes if n.state for f in n.state.facts for t in texts(f)}
        if len(src) != 1: raise AnalysisError('not one text is read: %s' % ', '.join(self.c.show(t) for t in src)[:200])
        self.text = src.pop()
        C = self.C = Cursor(ctx, g, roles, self.text)
        o = self.start['off']
        C.run(Z(off=o, bol=self.start['bol'], line=self.start['line'], byte='B', below=False, fin=False, lag=0, pend=None, ps=None, p3=None,
                nl=(False, False), pre=(False, False), mode=('ws', o), snaps=frozenset(), bounds=frozenset([o]), rel=frozenset(), adv=frozenset(), last=None, seen=None))

    def cursor_rules(self, cats):
        """Reports of the cursor analysis of the given kinds."""
        ctx = self.ctx
        n = 0
        for (k, rule, where), (msg, sp) in self.C.bad.items():
            if k in cats: ctx.violation(rule, '%s:%s' % (self.fn.name, where[1] if isinstance(where, tuple) else where), sp, msg); n += 1
        for k, w in self.C.judged:
            if k in cats: ctx.ok(k, '%s: node %s' % (self.fn.name, w))
        return n

    def ends(self):
        """(exit, cursor states) of the ways out that some text takes."""
        for x in self.g.exits:
            zs = list(self.C.at.get(x.id, {}).values())
            if zs: yield x, zs


def texts(t):
    """Texts whose characters or bytes a fact speaks about."""
    out = set()
    for a in subterms(t):
        if a.op == 'slice' and a.args[2] is T('len', a.args[0]): out.add(a.args[0])
        elif a.op == 'call' and a.args[0] == 'as_bytes' and a.args[1][0].op != 'slice': out.add(a.args[1][0])
    return {x for x in out if x.op != 'call'}


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    if type(t) is not Term or t in seen: return
    seen.add(t)
    yield t
    for a in t.args:
        if type(a) is Term: yield from subterms(a, seen)
        elif type(a) is tuple:
            for b in a:
                if type(b) is Term: yield from subterms(b, seen)


def initial(ctx):
    """Values a new reader starts with."""
    if 'new' not in CACHE:
        f = method(ctx, 'new')
        g = ctx.explore(f, opts={'keep': lambda t: True}, nodeops=False)
        ret = [x for x in g.exits if x.info['kind'] == 'return']
        if len(ret) != 1 or ret[0].info['value'].op != 'agg': raise AnalysisError('a new reader can be made in several ways')
        v = ret[0].info['value']
        CACHE['new'] = dict(zip(v.args[2], v.args[3])), f, g
    return CACHE['new']


def read_method(ctx, name, anchors=None):
    k = ('reader', name)
    if k not in CACHE: CACHE[k] = Reader(ctx, method(ctx, name), anchors)
    return CACHE[k]


def part(v, *names):
    for n in names:
        if v is None or v.op != 'agg' or n not in v.args[2]: return None
        v = v.args[3][v.args[2].index(n)]
    return v


KIND = {'Symbol': 'id', 'Number': 'id', 'Keyword': 'id', 'String': 'end', 'LParen': 'end', 'RParen': 'end'}


def consume_exits(ctx, r, bad, good):
    """Judges what `consume` returns in every cursor state; bad(kind, rule, exit, msg)."""
    C, e, g = r.C, r.g.engine, r.g
    n = 0
    for x, zs in r.ends():
        if x.info['kind'] != 'return': continue
        v, facts = x.info['value'], x.info['facts']
        okv = v.op == 'agg' and v.args[1]
        for z in zs:
            n += 1
            z0, z, v = z, C.normal(facts, z), C.normal(facts, v)
            if okv == 'Ok': token_exit(r, x, z, part(v, '0'), bad, z0)
            elif okv == 'Err': error_exit(r, x, z, part(v, '0'), bad, z0)
            else: bad('lex', 'result', x, 'the result is neither a token nor an error: %s' % r.c.show(v)[:120])
            good(x)
    return n


def position(r, x, z, site, bad):
    """The position a token or an error is reported at is the position of a character passed."""
    o, b, l = (part(site, k) for k in ('bytes_from_start', 'bytes_from_start_of_line', 'line'))
    if (o, b, l) not in z.snaps:
        bad('line', 'position', x, 'the line, offset and offset in the line that are reported do not belong together')
        return None
    if part(site, 'source_code') is not r.text: bad('line', 'position', x, 'the text that is reported is not the text that is read')
    span = part(site, 'bytes_span')
    end = span is not None and r.g.engine.add(o, span)
    if not (o in z.bounds and span is not None and (end in z.bounds or end is z.off) and (r.C.le(z, o, end))):
        if not (span is not None and quotes(r, x, z, o, span)): bad('line', 'span', x, 'the part of the text that is reported does not begin and end at characters of the text')
    return o, b, l, span


def quotes(r, x, z, o, span):
    """The quotes that open the string of the error."""
    return z.mode[0] == 'str' and o is z.mode[2] and span is kint(z.mode[3])


def token_exit(r, x, z, tok, bad, z0):
    C, e = r.C, r.g.engine
    facts = x.info['facts']
    m = z.mode
    kind = part(tok, 'kind')
    kind = kind.args[1] if kind is not None and kind.op == 'agg' else None
    if m[0] == 'bad': return
    if z.byte != 'B' or not C.le(z, m[2] if len(m) > 2 else z.off, z.off, True): bad('move', 'progress', x, 'a token is returned without having read a character')
    if not C.settled(z0, facts): bad('line', 'line-break', x, 'the position is left without counting the last character')
    if m[0] not in ('id', 'end'): return bad('lex', 'token-end', x, 'a token ends where the text has not ended one')
    p = position(r, x, z, part(tok, 'site'), bad)
    W, X = m[1], m[2]
    if p:
        if p[0] is not X and not (C.le(z, p[0], X) and C.le(z, X, p[0])): bad('line', 'position', x, 'the token is reported at a place other than its first character')
        if e.add(p[0], p[3]) is not z.off: bad('line', 'span', x, 'the length that is reported is not the length of the token')
    want = m[4] if m[0] == 'id' else {'(': 'LParen', ')': 'RParen', '"': 'String'}.get(next(iter(m[3])) if len(m[3]) == 1 else None)
    if want is None: bad('lex', 'kind', x, 'the kind of the token does not follow from its first character')
    elif kind != want: bad('lex', 'kind', x, 'a token that begins like a %s is made a %s' % (want, kind))
    if m[0] == 'id':
        end = z.fin or C.inside(facts, z0.off) is False
        if m[3] and not end: bad('lex', 'escape', x, 'the character after a backslash is not part of the token')
        if not end and not C.first(facts, z0.off) <= STOP: bad('lex', 'token-end', x, 'the token ends although the next character may belong to it')
        lo, hi = (e.add(X, kint(1)) if want == 'Keyword' else X), z.off
    else:
        k = m[4]
        lo, hi = e.add(X, kint(k)), e.sub(z.off, kint(k))
    val = part(tok, 'value')
    if not isslice(r, val, lo, hi, z): bad('lex', 'value', x, 'the text of the token is not the text it was read from')
    ws = part(tok, 'leading_whitespace')
    if not isslice(r, ws, W, X, z) and not (empty(ws) and C.le(z, X, W) and C.le(z, W, X)):
        bad('lex', 'white-space-kept', x, 'the white space kept with the token is not the white space before it')


def empty(t): return t is not None and t.op == 'k' and t.args[1] == ''


def isslice(r, t, a, b, z):
    if t is None: return False
    same = lambda x, y: x is y or (r.C.le(z, x, y) and r.C.le(z, y, x))
    if t is T('slice', r.text, a, b): return True
    if t.op == 'slice' and t.args[0] is r.text and same(t.args[1], a) and same(t.args[2], b): return True
    return empty(t) and a is b


def error_exit(r, x, z, err, bad, z0):
    site = next((a for a in (err.args[3] if err is not None and err.op == 'agg' else ()) if a.op == 'agg' and 'bytes_span' in a.args[2]), None)
    if site is None: return bad('line', 'position', x, 'an error without a position')
    p = position(r, x, z, site, bad)
    if z.mode[0] == 'str':
        if p and p[0] is not z.mode[2]: bad('line', 'position', x, 'the error is not reported where the string begins')
        if not (z.fin or r.C.inside(x.info['facts'], z0.off) is False): bad('lex', 'unclosed', x, 'a string is reported unclosed although the text goes on')
    elif z.mode[0] != 'bad': bad('lex', 'error', x, 'an error is reported where the text is no unclosed string')


def panics(ctx, r, bad, good):
    """Ways out of the method that abort the program; the only one allowed is reading a
    token where nothing but white space is left (the callers' side of it is the rule `guard`)."""
    C = r.C
    n = 0
    for x, zs in r.ends():
        if x.info['kind'] == 'return': continue
        ex = x.info.get('extra') or (None,)
        for z in zs:
            n += 1
            good(x)
            k = ex[0]
            z0, z, ex = z, C.normal(x.info['facts'], z), C.normal(x.info['facts'], tuple(ex))
            if x.info['kind'] == 'unreachable' or x.info['kind'] == 'diverge': bad(x, 'ends in %s' % x.info['kind']); continue
            if k == 'assert' and ex[1] == 'bounds':
                if ex[2] is z.off and ex[3] is C.len and z.below: continue
                bad(x, 'an index that may be outside of the text')
            elif k == 'assert' and ex[1] == 'overflow':
                if ex[2] == 'Sub' and C.le(z, ex[4], ex[3]): continue
                if ex[2] == 'Add' and bounded_sum(r, ex[3], ex[4]): continue
                bad(x, 'a subtraction that may go below zero' if ex[2] == 'Sub' else 'a number that may get too big')
            elif k in ('slice', 'str-slice'):
                if C.span_ok(z, ex[2], ex[3]): continue
                bad(x, 'a part of the text that may not exist or may begin or end inside a character')
            elif k == 'panic' and z.mode[0] in ('ws', 'com') and (z.fin or C.inside(x.info['facts'], z0.off) is False): continue   # the callers do not read at the end
            else: bad(x, 'aborts: %s' % ' '.join(str(y) if not isinstance(y, Term) else r.c.show(y) for y in ex)[:120])
    return n


def bounded_sum(r, a, b):
    """Offsets and line numbers count characters of a text in memory."""
    return b.op == 'k' and b.args[0] == 'int' and 0 <= b.args[1] <= 16 or a.op == 'k' and a.args[0] == 'int' and 0 <= a.args[1] <= 16


def end_test(ctx, cats=()):
    """`eof` says yes exactly when no token is left, and moves nothing."""
    r = read_method(ctx, 'eof')
    r.cursor_rules(cats)
    C, n = r.C, {TRUE: 0, FALSE: 0}
    for x, zs in r.ends():
        if x.info['kind'] != 'return': continue
        v, sp = x.info['value'], ctx.span(r.g, x.id)
        if v not in n: ctx.violation('answer', 'eof', sp, 'the answer is neither yes nor no'); continue
        for z in zs:
            n[v] += 1
            back = z.mode[0] == 'back'
            off, fin, below, first, mode = z.mode[1:6] if back else (z.off, z.fin, z.below, C.first(x.info['facts'], z.off), z.mode[0])
            ctx.require(all(getattr(z, k) is r.start[k] for k in r.start), 'restored', 'eof', 'asking whether the text ends changes the position', sp)
            if not back and C.inside(x.info['facts'], off) is False: fin = True
            if v is TRUE: ctx.require(fin and mode in ('ws', 'com'), 'answer', 'eof', 'the end is announced before the end of the text', sp)
            else: ctx.require(below and not fin and mode == 'ws' and not (first & (WS | {';'})), 'answer', 'eof', 'a token is announced although there may be none', sp)
    for v in n: ctx.floor('answers %s' % v.args[1], n[v], 1)
