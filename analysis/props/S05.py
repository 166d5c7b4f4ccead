"""Tokens cover the text exactly and reading always advances."""
from reader import *
import itertools
import parsing

TECHNIQUE = 'cursor typestate: dataflow over the automaton of the token reader (offset alignment, bounds, progress of every loop and token, cells restored after looking ahead) and progress of the tree builder between its reads'
NOTE = 'the interface of the reader is taken from the calls the rest of the program makes to it'
MIN_OBLIGATIONS = 200
CATS = ('move', 'loop', 'utf8')


def check(ctx):
    ctx.attempt('moves', 'consume', lambda: token(ctx))
    ctx.attempt('end', 'eof', lambda: end_test(ctx, CATS))
    ctx.attempt('lookahead', 'peek', lambda: lookahead(ctx))
    ctx.attempt('interface', 'Lexer', lambda: interface(ctx))
    for n in ('parse', 'parse_expr'): ctx.attempt('rounds', n, lambda: rounds(ctx, n))


def report(ctx, r, kinds):
    def bad(k, rule, x, msg):
        if k in kinds: ctx.violation(rule, r.fn.name, ctx.span(r.g, x.id), msg)
    return bad


def token(ctx):
    r = read_method(ctx, 'consume')
    r.cursor_rules(CATS)
    n = consume_exits(ctx, r, report(ctx, r, ('move',)), lambda x: ctx.ok('progress', 'consume: way out %d' % x.id))
    ctx.floor('ways to end reading a token', n, 20)


def lookahead(ctx):
    """peek: the value `consume` gives, and every cell as it was."""
    f, k = method(ctx, 'peek'), method(ctx, 'consume')
    r = read_method(ctx, 'consume')
    cells = list(r.C.roles)
    g = ctx.explore(f, anchors={k.path: named('consume', havoc=True)}, opts={'keep': lambda t: True})
    c = Canon(g)
    show = {c.show(p): p for p in cells}
    start = {s: c.show(g.engine.read_root(g.nodes[0].state, T('C', p))) for s, p in show.items()}
    n = 0
    for x in g.exits:
        if x.info['kind'] != 'return': continue
        n += 1
        sp = ctx.span(g, x.id)
        ctx.require(c.show(x.info['value']) == 'consume(self)', 'lookahead', 'peek', 'what is looked at is not the next token: %s' % c.show(x.info['value'])[:120], sp)
    ctx.floor('ways out of peek', n, 1)
    def ev(e, c):
        if e[0] == 'call': return ['read'] if e[1] == 'consume' else ['call %s' % e[1]]
        if e[0] == 'set':
            s = c.show(e[1])
            if s not in show: return ['set another cell ' + s]
            return ['restore ' + s] if c.show(e[2]) == start[s] else ['move ' + s]
    orders = alt(*[cat_(*[sym('restore ' + s) for s in p]) for p in itertools.permutations(sorted(show))])
    ctx.language('lookahead', g, ev, cat_(star(alt(*[sym('restore ' + s) for s in show])), sym('read'), orders), accept=lambda x, c=None: x.info['kind'] == 'return', canon=c)


def interface(ctx):
    """Only reading a token moves the reader."""
    known = {'peek', 'new', 'get_source', 'consume', 'eof'}
    names = entries(ctx)
    ctx.require({'peek', 'consume', 'eof'} <= names, 'interface', 'Lexer', 'reading, looking ahead and the end test are not what the program uses: %s' % sorted(names))
    for n in sorted(names - {'peek', 'consume', 'eof', 'new'}):
        g = ctx.explore(method(ctx, n), opts={'keep': lambda t: True}, nodeops=False)
        moved = any(e[0] == 'set' for i in g.reach for evs, m in g.nodes[i].out for e in evs)
        ctx.require(not moved, 'interface', n, 'the reader is moved by something other than reading a token')


def rounds(ctx, name):
    """Between two rounds of a loop, and before an expression is read inside another, a token is read."""
    g = parsing.explore(ctx, name)
    c = Canon(g)
    V = parsing.VER
    start = T('arg', 0, 'start')
    for loc, info in g.loops.items():
        for rec in info['back']:
            raw = rec[0]
            v = [t for (root, path), t in raw.items() if root is V]
            ctx.require(v and all(t.op == 'call' and t.args[0] in ('next', 'after') for t in v), 'rounds', name, 'a round of the loop may read nothing: %s' % [c.show(t)[:80] for t in v], ctx.span(g, rec[2]))
    n = 0
    for i in g.reach:
        for evs, m in g.nodes[i].out:
            for e in evs:
                if e[0] == 'call' and e[1] == 'expr' and name != 'parse':
                    n += 1
                    ctx.require(e[2][0] is not start, 'rounds', name, 'an expression is read inside itself without reading anything first', ctx.span(g, i))
    for x in g.exits:
        if x.info['kind'] == 'return' and is_ok(x):
            v = x.info['store'].get(V)
            ctx.require(name == 'parse' or v is not None and v is not start, 'rounds', name, 'an expression is read without reading anything', ctx.span(g, x.id))
