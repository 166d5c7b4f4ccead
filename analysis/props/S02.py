"""Reading any text never crashes."""
from reader import *
import parsing

TECHNIQUE = 'cursor typestate: every panic, assertion, index, slice and arithmetic check reachable while reading a token or testing for the end is refuted from the state of the position; the tree builder never reads where the text may have ended'
NOTE = 'exhaustion of the stack and of memory excepted; offsets and line numbers are taken not to overflow, as texts fit into memory'
MIN_OBLIGATIONS = 300


def check(ctx):
    for n in ('consume', 'eof'): ctx.attempt('aborts', n, lambda: aborts(ctx, n))
    ctx.attempt('end', 'eof', lambda: end_test(ctx))
    ctx.attempt('aborts', 'peek', lambda: peek(ctx))
    for n in ('parse', 'parse_expr'): ctx.attempt('reads', n, lambda: builder(ctx, n))
    for n in ('escape_sanitize', 'escape_string'): ctx.attempt('aborts', n, lambda: plain(ctx, 'seam::parse::parser::' + n))
    for n in ('lexer::Lexer::new', 'lexer::Lexer::get_source', 'parser::Parser::new', 'parser::Parser::get_source'): ctx.attempt('aborts', n, lambda: plain(ctx, 'seam::parse::' + n))
    ctx.attempt('callers', 'Lexer', lambda: callers(ctx))


def aborts(ctx, name):
    r = read_method(ctx, name)
    n = panics(ctx, r, lambda x, msg: ctx.violation('aborts', name, ctx.span(r.g, x.id), msg), lambda x: ctx.ok('aborts', '%s: way out %d' % (name, x.id)))
    ctx.floor('checks while reading (%s)' % name, n, 10)


def nopanic(ctx, g, name):
    for x in g.exits:
        ex = x.info.get('extra') or ('',)
        ctx.require(x.info['kind'] == 'return', 'aborts', name, 'may abort: %s %s' % (x.info['kind'], ' '.join(str(y) for y in ex if not isinstance(y, Term))[:120]), ctx.span(g, x.id))


def peek(ctx):
    k = method(ctx, 'consume')
    nopanic(ctx, ctx.explore(method(ctx, 'peek'), anchors={k.path: named('consume')}), 'peek')


def plain(ctx, path):
    f = ctx.fn(path, optional=True)
    if f is not None: nopanic(ctx, ctx.explore(f), f.name)


def builder(ctx, name):
    """Nothing is read where the text may have ended, and nothing aborts."""
    seen = []
    def guard(what, ok, e, node):
        seen.append(what)
        ctx.require(ok, 'reads', name, '%s without knowing that the text goes on' % what, node_span(ctx, name, node))
    g = parsing.explore(ctx, name, guard)
    nopanic(ctx, g, name)
    ctx.floor('reads (%s)' % name, len(seen), 1 if name == 'parse' else 5)


def node_span(ctx, name, node):
    f = ctx.fn(parsing.PA + name)
    return f.span if f else None


def callers(ctx):
    """Only the tree builder reads tokens."""
    n = 0
    for f in ctx.F.fns.values():
        if f.crate == 'models': continue
        for i, c, b in calls_in(ctx.F, f, lambda c: re.match(r'seam::parse::(?:lexer::Lexer|parser::Parser)(?:::<.*?>)?::(?:consume|peek|eof|parse_expr)$', c['path'])):
            n += 1
            home = re.match(r'seam::parse::(?:lexer::Lexer|parser::Parser)', f.path)
            ctx.require(home, 'callers', f.path, 'reads from a text on its own: %s' % c['path'], b['sp'])
    ctx.floor('reads', n, 5)
