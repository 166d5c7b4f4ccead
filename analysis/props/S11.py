"""For each element whose content is another language, the abstract paths of the HTML node
writer that report success are included in the language where exactly that generator gets
exactly the children; plain elements get HTML; a style element with a string and more fails."""
from assemble import *

TECHNIQUE = 'abstract interpretation of MIR (value numbering); output-event automaton included in a regular language per embedded language'
NOTE = 'Sound over the modelled standard library for every list and letter case of the tag; that a generator instance writes its own language is decided by type (which generate is called).'
MIN_OBLIGATIONS = 9
GENERATOR = {'script': 'sexp', 'textarea': 'text', 'title': 'text', 'svg': 'xml', 'math': 'xml', 'style': 'css'}
FIRST = r'node\.List\.nodes\[i\+1\]'


def check(ctx):
    w = Writer(ctx, 'html')
    if w.fn is None: return
    for tag, k in GENERATOR.items():
        body = sym(R(r'gen-%s\(%s\)' % (k, REST)))
        if tag == 'style': body = alt(cat_(opt(lit('\n')), body), sym(R(FIRST + r'\.String\.0\.value')))
        w.named('<%s> is written by the %s generator' % (tag, k), [('one', [tag])], element(cat_(ANYTEST, body)))
    pre = r'node\.List\.end_token\.site\.source_code\[site\(%s\)\.bytes_from_start-len\(ws\(%s\)\)(\+1)?\.\.node\.List\.end_token\.site\.bytes_from_start\]' % (FIRST, FIRST)
    w.named('<pre> is the source text from its first child to its end', [('one', ['pre'])],
            element(cat_(ANYTEST, alt(sym(R(pre)), sym('node.List.end_token.leading_whitespace')))))
    for ws in ('', ' ', '  ', '\n ', '\t '):
        def spaced(e, st):
            list_setup(w.fn, name=[('one', ['pre'])])(e, st)
            fact(st, T('len', w.nodes), kint(2))
            x = T('elem', w.nodes, kint(1))
            variant(st, x, PN, 'Symbol')
            for t in (T('call', 'ws', (x,)), e.field(e.field(x, 'Symbol', '0'), None, 'leading_whitespace')):
                fact(st, t, kstr(ws))
                fact(st, T('len', t), kint(len(ws)))

        def go():
            g = ctx.explore(w.fn, w.ops, setup=spaced, opts={'unroll': True})
            n = r'node\.List\.nodes\[1\]'
            wst = r'(ws\(%s\)|%s\.Symbol\.0\.leading_whitespace)' % (n, n)
            start = r'(site\(%s\)|%s\.Symbol\.0\.site)\.bytes_from_start(-len\(%s\)%s|%s)' % (n, n, wst, r'\+1' if ws.startswith(' ') else '', re.escape('-%d' % (len(ws) - ws.startswith(' ')) if len(ws) > ws.startswith(' ') else ''))
            text = sym(R(r'node\.List\.end_token\.site\.source_code\[%s\.\.node\.List\.end_token\.site\.bytes_from_start\]' % start))
            ctx.language('<pre> starts after one space (%r before its first child)' % ws, g, w.ev, element(cat_(ANYTEST, text)), canon=Canon(g, w.names))
        ctx.attempt('<pre> starts after one space', w.fn.path, go)
    w.named('other elements are written as HTML', [('notfirst', '!'), ('not', VOID + SPECIAL)], element(CHILDREN))

    def style_extra(e, st):
        list_setup(w.fn, name=[('one', ['style'])])(e, st)
        s = T('elem', w.nodes, kint(1))
        variant(st, s, PN, 'String')
        fact(st, T('lt', kint(2), T('len', w.nodes)), TRUE)
        fact(st, T('len', w.nodes), kint(0), kint(1), kint(2), positive=False)
    w.never('a style element with a string and more is an error', style_extra)
