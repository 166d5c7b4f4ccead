"""What is not a macro passes through unchanged."""
from macros import *

TECHNIQUE = 'abstract interpretation of the expander per kind of node: exact shape of every result, path language of the recursion'
NOTE = 'expansion of a macro call itself is the subject of S16-S19 and S28'
MIN_OBLIGATIONS = 20

ANY = RX(r'Err\(.*')


def check(ctx):
    f = ctx.fn(EX + 'expand_node')
    if f is None: return
    node = param(f, 'ParseNode')
    for k in ('Number', 'String', 'Raw'):
        ctx.attempt('atom', k, lambda: same(ctx, f, node, k, None))
    ctx.attempt('atom', 'Symbol', lambda: same(ctx, f, node, 'Symbol', lambda e, st: symbol(e, st, node, False)))
    ctx.attempt('list', 'empty list', lambda: same(ctx, f, node, 'List', lambda e, st: fact(st, e.length(items(e, node)), kint(0))))
    for k in ('Symbol', 'Number', 'String', 'Raw', 'List', 'Attribute'): ctx.attempt('list', 'list headed by ' + k, lambda: lists(ctx, f, node, k))
    ctx.attempt('call', 'macro call', lambda: call(ctx, f, node))
    ctx.attempt('attribute', 'attribute', lambda: attribute(ctx, f, node))
    ctx.attempt('sequence', 'expand_nodes', lambda: sequence(ctx))
    ctx.attempt('document', 'expand', lambda: document(ctx))


def items(e, node): return e.field(node, 'List', 'nodes')


def symbol(e, st, n, macro):
    variant(st, n, PN, 'Symbol')
    fact(st, T('call', 'starts_with', (e.field(e.field(n, 'Symbol', '0'), None, 'value'), kstr('%'))), TRUE if macro else FALSE)


def same(ctx, f, node, kind, more_):
    def setup(e, st):
        variant(st, node, PN, kind)
        if more_: more_(e, st)
    g = scenario(ctx, 'expand_node', setup)
    if kind == 'List': outcomes(ctx, 'same', g, 'empty list', [RX(r'Ok\(\[(node|ParseNode::List\{nodes: (node\.List\.nodes|\[\]), site: node\.List\.site, end_token: node\.List\.end_token, leading_whitespace: node\.List\.leading_whitespace\})\]\)')])
    else: outcomes(ctx, 'same', g, kind, ['Ok([node])'])
    ctx.require(not calls_made(g), 'same', kind + ' is not evaluated', 'operations: %s' % sorted(calls_made(g)))


HEAD, TAIL = 'expand_node(self, node.List.nodes[0])', 'expand_node(self, node.List.nodes[i+1])'
ALL = 'expand_node(self, node.List.nodes[i])'
WHOLE = 'expand_nodes(self, node.List.nodes)'
REST = ', site: node.List.site, end_token: node.List.end_token, leading_whitespace: node.List.leading_whitespace'


def lists(ctx, f, node, kind):
    def setup(e, st):
        variant(st, node, PN, 'List')
        fact(st, e.length(items(e, node)), kint(0), positive=False)
        h = e.elem(st, items(e, node), kint(0))
        if kind == 'Symbol': symbol(e, st, h, False)
        else: variant(st, h, PN, kind)
    g = scenario(ctx, 'expand_node', setup)
    w = 'list headed by %s' % kind
    two = 'fold{%s.Ok.0; [..@0, ..%s.Ok.0]}' % (HEAD, TAIL)
    one = 'each{..%s.Ok.0}' % ALL
    rx = RX(r'Ok\(\[ParseNode::List\{nodes: (%s|%s|%s)%s\}\]\)' % tuple(re.escape(x) for x in (two, one, WHOLE + '.Ok.0', REST)))
    errs = RX(r'Err\((%s|%s|%s|%s)\.Err\.0\)' % tuple(re.escape(x) for x in (HEAD, TAIL, ALL, WHOLE)))
    outcomes(ctx, 'rebuilt', g, w, [rx, errs])
    seq = 'node.List.nodes'
    def ev(e, c):
        if e[0] == 'call': return ['%s(%s)' % (short(e[1]), ', '.join(c.show(x) for x in e[2]))]
        if e[0] == 'lt':
            m = more(e, c)
            if m and m[1] == seq: return [m[0]]
        return None
    ctx.language('children', g, ev, alt(cat_(sym(HEAD), star(cat_(sym('more'), sym(TAIL))), sym('end')),
                                        cat_(star(cat_(sym('more'), sym(ALL))), sym('end')),
                                        sym(WHOLE)), canon=g.canon)


def call(ctx, f, node):
    def setup(e, st):
        variant(st, node, PN, 'List')
        fact(st, e.length(items(e, node)), kint(0), positive=False)
        symbol(e, st, e.elem(st, items(e, node), kint(0)), True)
    g = scenario(ctx, 'expand_node', setup)
    cut = RX(r"expand_invocation\(self, node\.List\.nodes\[0\]\.atom\.0\.value\[1\.\.\], node, node\.List\.nodes\[1\.\.\](\{\[0\]:=with_ws\(node\.List\.nodes\[1\], ''\)\})?\)")
    outcomes(ctx, 'call', g, 'macro call', [cut])


def attribute(ctx, f, node):
    g = scenario(ctx, 'expand_node', lambda e, st: variant(st, node, PN, 'Attribute'))
    v = 'expand_node(self, node.Attribute.node)'
    new = 'Ok(%s.Ok.0{[0]:=ParseNode::Attribute{keyword: node.Attribute.keyword, node: %s.Ok.0[0], site: node.Attribute.site, leading_whitespace: node.Attribute.leading_whitespace}})' % (v, v)
    outcomes(ctx, 'attribute', g, 'attribute', [new, 'Err(%s.Err.0)' % v, E_('.*node\\.Attribute\\.keyword.*, node\\.Attribute\\.site')])


def sequence(ctx):
    g = scenario(ctx, 'expand_nodes')
    t = g.canon.show(param(g.fn, r'\[.*ParseNode'))
    x = 'expand_node(self, %s[i])' % t
    outcomes(ctx, 'sequence', g, 'expand_nodes', ['Ok(each{..%s.Ok.0})' % x, 'Err(%s.Err.0)' % x])
    def ev(e, c):
        if e[0] == 'call': return ['%s(%s)' % (short(e[1]), ', '.join(c.show(y) for y in e[2]))]
        if e[0] == 'lt':
            m = more(e, c)
            if m and m[1] == t: return [m[0]]
        return None
    ctx.language('sequence', g, ev, cat_(star(cat_(sym('more'), sym(x))), sym('end')), canon=g.canon)


def document(ctx):
    g = scenario(ctx, 'expand', extra={'seam::parse::parser::Parser::parse': named('parse', havoc=False)})
    p = 'parse(self.parser)'
    outcomes(ctx, 'document', g, 'expand', ['Ok(expand_nodes(self, %s.Ok.0).Ok.0)' % p, RX(r'Err\(.*expand_nodes\(self, parse\(self\.parser\)\.Ok\.0\)\.Err\.0.*'), RX(r'Err\((?:(?!expand_nodes).)*parse\(self\.parser\)\.Err\.0.*')])
