"""The escaping function is reduced to its loop summary: for each of the five characters the
appended text must be its entity, for all others the character itself, over the whole text in
order. Every written piece of text or attribute value of the HTML and XML writers must be the
result of that function (raw content: the value itself), values between quotes."""
from assemble import *

TECHNIQUE = 'loop-summary (per-character transfer) analysis of the escaper; output-event automaton of both writers included in a language of escaped pieces'
NOTE = 'Sound over the modelled standard library: decides the escaper for every character and each written value for every node shape; exempt pieces are named in the property.'
MIN_OBLIGATIONS = 16
ENT = {'<': '&lt;', '>': '&gt;', '&': '&amp;', '"': '&quot;', "'": '&apos;'}


def escaper(ctx, fn):
    g = ctx.explore(fn)
    rule = 'escaping replaces exactly the five characters'
    for v in {x.info['value'] for x in g.exits if x.info['kind'] == 'return'}:
        transfer(ctx, g, v, argn(fn, 1), ENT, rule, fn.path, fn.span)
        if v.op == 'call' and v.args[0] == 'str_replace': continue

        def ev(e, c):
            if e[0] == 'lt':
                m = more(e, c)
                return [m[0] + ' ' + m[2]] if m else None
        ctx.language('the whole text is escaped', g, ev, cat_(star(sym('more i')), sym('end i')))


def check(ctx):
    esc = ctx.fn('seam::assemble::escape_xml')
    if esc: ctx.attempt('escaping replaces exactly the five characters', esc.path, lambda: escaper(ctx, esc))
    for kind in ('html', 'xml'):
        w = Writer(ctx, kind)
        if w.fn is None: continue
        for k in ('Symbol', 'Number', 'String'):
            w.run('%s: %s escaped' % (kind, k), w.kind_of(k), cat_(opt(sym(R(r'node\.\w+\.0\.leading_whitespace'))), sym('esc(node.%s.0.value)' % k)))
        w.run('%s: raw content verbatim' % kind, w.kind_of('Raw'), cat_(opt(sym(R(r'node\.\w+\.0\.leading_whitespace'))), sym('node.Raw.0.value')))
        if kind == 'html':
            w.named('html: attribute values escaped and quoted', [('notfirst', '!'), ('not', VOID + SPECIAL)], element(CHILDREN, VALUE))
            for v in VOID[:1] + VOID[6:7]: w.named('html: attribute values of <%s> escaped and quoted' % v, [('one', [v])], void(VALUE))
            for s in SPECIAL:
                w.named('html: attribute values of <%s> escaped and quoted' % s, [('one', [s])],
                        element(cat_(ANYTEST, opt(lit('\n')), sym(R(r'(gen-\w+\(.*|node\.List\.end_token\..*|.*nodes\[i\+1\]\.String\.0\.value)'))), VALUE))
        else:
            w.named('xml: attribute values escaped and quoted', [('notfirst', '!?')], element(CHILDREN, VALUE))
