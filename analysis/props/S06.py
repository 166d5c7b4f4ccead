"""Reported lines and columns are where the text is."""
from reader import *
from sites import *
import parsing

TECHNIQUE = 'cursor typestate: dataflow over the automaton of the token reader (line breaks counted exactly once, offset in the line, positions that belong together); language of what every message says about a position; provenance of every position outside the reader'
NOTE = 'columns are display widths, as defined by the unicode-width crate'
MIN_OBLIGATIONS = 200

ERRORS = {'LexError': ('self.1',), 'ParseError': ('self.1',), 'ExpansionError': ('self.1',), 'GenerationError': ('self.site',)}


def check(ctx):
    ctx.attempt('lines', 'consume', lambda: lines(ctx))
    ctx.attempt('views', 'Site', lambda: views(ctx))
    for n in ('parse_expr',): ctx.attempt('copied', n, lambda: copied(ctx, n))
    ctx.attempt('made', 'Site', lambda: made(ctx))


def lines(ctx):
    r = read_method(ctx, 'consume')
    r.cursor_rules(('line',))
    def bad(k, rule, x, msg):
        if k == 'line': ctx.violation(rule, 'consume', ctx.span(r.g, x.id), msg)
    n = consume_exits(ctx, r, bad, lambda x: ctx.ok('position', 'consume: way out %d' % x.id))
    ctx.floor('ways to end reading a token', n, 20)
    init, f, _ = initial(ctx)
    ctx.require(set(r.C.roles.values()) == {'off', 'bol', 'line'}, 'cells', 'Lexer::new', 'a new reader does not start on line 1 at offset 0')


def views(ctx):
    fs = [f for f in fmts(ctx) if not f.derived]
    mk = re.compile(r'<seam::(?:\w+::)*(\w+)(?:<.*>)? as')
    n = 0
    for f in fs:
        name = mk.match(f.path)
        name = name.group(1) if name else None
        if name == 'Site': ctx.attempt('location', name, lambda: message(ctx, f, None)); n += 1
        elif name in ERRORS: ctx.attempt('location', name, lambda: message(ctx, f, ERRORS[name])); n += 1
    ctx.floor('messages that show a position', n, 5)
    g = invoke(ctx, 'log')
    c = g.canon
    v = [abbr(c.show(e[1])) for i in g.reach for evs, m in g.nodes[i].out for e in evs if e[0] == 'eprint']
    ctx.require(v and all('{site(node):display}' in t for t in v), 'location', '(%log ...)', 'the message does not say where the macro is called: %s' % v[:1])


def message(ctx, f, fields):
    g = ctx.explore(f, opts={'keep': lambda t: True})
    c = Canon(g)
    me = argn(f, 1)
    S = me if fields is None else T('fld', me, *fields) if False else site_term(g, c, me, fields)
    v = View(g, c, S)
    said = spoken(g, c, v)
    def ev(e, c):
        return said.get(id(e)) if e[0] in ('write', 'print', 'eprint') else None
    loc = cat_(sym('source'), sym('line'), sym('column'))
    spec = loc if fields is None else cat_(star(alt(sym('line'), sym('view'), sym('indent'))), opt(cat_(sym('mark'), opt(sym('length')))), loc)
    ctx.language('location', g, ev, spec, canon=c)


def site_term(g, c, me, fields):
    want = c.show(me) + fields[0][len('self'):]
    for n in g.nodes:
        for t in n.state.facts if n.state else ():
            for a in subterms(t):
                if c.show(a) == want: return a
    for i in g.reach:
        for evs, m in g.nodes[i].out:
            for e in evs:
                for y in e:
                    if type(y) is Term:
                        for a in subterms(y):
                            if c.show(a) == want: return a
    raise AnalysisError('the message does not show the position %s' % want)


def copied(ctx, name):
    """A node is at the position of its first token."""
    g = parsing.explore(ctx, name)
    c = Canon(g)
    n = 0
    for x in g.exits:
        v = x.info['value']
        if x.info['kind'] != 'return' or not is_ok(x): continue
        for a in subterms(v):
            if a.op == 'agg' and 'site' in a.args[2]:
                n += 1
                s = c.show(a.args[3][a.args[2].index('site')])
                ctx.require(s == 'token(start).Ok.0.site', 'copied', name, 'a node is reported at %s' % s[:120], ctx.span(g, x.id))
    ctx.floor('nodes built', n, 4)


def made(ctx):
    """Positions are made by the reader and copied by everything else."""
    n = 0
    for f in ctx.F.fns.values():
        if f.crate == 'models': continue
        home = f.path.startswith('seam::parse::lexer::')
        own = re.match(r'<?seam::parse::tokens::Site|seam::parse::tokens::UNKNOWN_SITE', f.path)
        for b in f.blocks:
            for s in b['s']:
                for w in writes(s, f):
                    n += 1
                    if w == 'make' and not own and not home: ctx.violation('made', f.path, b['sp'], 'a position is made up outside of the reader')
                    if w == 'change' and not home: ctx.violation('made', f.path, b['sp'], 'a position is changed')
            t = b['t']
            if t[0] == 'call' and t[1][0] == 'fn' and re.match(r"seam::parse::tokens::Site(?:::<'a>)?::new$", t[1][1]['path']) and not home:
                ctx.violation('made', f.path, b['sp'], 'a position is made up outside of the reader')
    ctx.floor('positions made', n, 1)


NAMES = {'bytes_from_start', 'bytes_from_start_of_line', 'bytes_span'}


def writes(s, f):
    """What a statement does with positions: makes one, or changes a part of one."""
    if s[0] != '=': return
    if s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] == SITE: yield 'make'
    for p in [s[1]] + ([s[2][2]] if s[2][0] == 'ref' and s[2][1] else []):
        if p[1] and p[1][-1][0] == 'f':
            n = p[1][-1][2]
            before = f.locals[p[0]][0] if not [q for q in p[1][:-1] if q[0] == 'f'] else [q for q in p[1][:-1] if q[0] == 'f'][-1][2]
            if n in NAMES or n in ('line', 'source_code', 'source') and ('Site' in before or before == 'site'): yield 'change'
