"""The CSS rule writer is explored for each class of rule head (each body-less at-rule, each
at-rule with nested rules, ordinary selectors); its successful paths are included in the
language of one rule: selectors in order, one block, properties in order. Values are reduced
to their returned text per node kind, and per class of head: functions, operators, others."""
from assemble import *

TECHNIQUE = 'abstract interpretation of MIR (value numbering, loop summaries); output-event automaton included in a regular language per rule class'
NOTE = 'Sound over the modelled standard library for every tree; the tables of at-rules, functions and operators are compared with the ones in this rule.'
MIN_OBLIGATIONS = 30
ONELINE = ['@charset', '@import', '@namespace']
NESTED = ['@counter-style', '@document', '@font-feature-values', '@keyframes', '@media', '@supports']
BLOCK = ['@font-face', '@page', '@property']
# what a quoted string has for the characters that would end it or not stand for themselves
ESCAPES = {'"': '\\"', '\\': '\\\\', '\n': '\\a ', '\r': '\\d ', '\x0c': '\\c '}
FUNCTIONS = '''attr blur brightness calc circle color contrast counter counters cubic-bezier drop-shadow ellipse format
 grayscale hsl hue-rotate hwb image inset invert lab lch linear-gradient matrix matrix3d opacity perspective polygon
 radial-gradient repeating-linear-gradient repeating-radial-gradient rgb rotate rotate3d rotateX rotateY rotateZ saturate sepia
 scale scale3d scaleX scaleY scaleZ skew skewX skewY symbols translate translate3d translateX translateY translateZ url var supports'''.split()
COMMA = ['rgba', 'hsla']
ATOMIC = ('Symbol', 'Number', 'String', 'Raw')
OPERATORS = ['+', '-', '*', '/']
ITER = re.compile(r'^(std::slice::Iter<.*ParseNode|&.*(\[seam::parse::parser::ParseNode|Vec<seam::parse::parser::ParseNode))')
N = T('arg', 0, 'nodes')


def value_fn(ctx):
    f = ctx.fn('seam::assemble::css::convert_value')
    return f


def rule_fn(ctx):
    l = ctx.F.bypath.get('seam::assemble::css::generate_css_rule', [])
    if len(l) == 1: return l[0]
    g = generate_fn(ctx, 'css')
    for _, c, _ in calls_in(ctx.F, g, lambda c: True):
        h = ctx.F.fns.get(c.get('ruid'))
        if h is not None and any(ITER.match(h.locals[i][0]) for i in range(1, h.argc + 1)): return h
    ctx.violation('missing:css rule writer', GEN['css'], g.span, 'no function writes one rule')


def rule_args(fn, n=N):
    out = []
    for i in range(1, fn.argc + 1):
        ty = fn.locals[i][0]
        if ITER.match(ty): out.append(agg('models::SliceIter', 'SliceIter', ('s', 'pos', 'end'), (n, kint(0), T('len', n))) if 'Iter<' in ty else n)
        else: out.append(argn(fn, i))
    return out


def check(ctx):
    rule, val = rule_fn(ctx), value_fn(ctx)
    if rule is None or val is None: return
    A = {val.path: pure_op('value')}
    names = dict(names_of(rule))
    names[N] = 'nodes'

    def ev(e, c):
        k = e[0]
        if k == 'write': return text_labels(e[2], c) if c.show(e[1]) in ('f', '*f') else ['elsewhere']
        if k == 'kind': return ['kind %s %s' % (c.show(e[1]), '|'.join(e[2]))]
        if k == 'lt':
            m = more(e, c)
            if m: return ['%s %s %s' % m]
            return ['%s %s to %s' % ('more' if e[3] else 'end', c.show(e[1]), c.show(e[2]))]
        if k == 'call':
            if e[1] == rule.path:
                for x in e[2]:
                    x = c.show(x)
                    if 'nodes' in x: return ['rule(%s)' % x]
                return ['rule?']
            return ['%s(%s)' % (short(e[1]), ', '.join(c.show(x) for x in e[2]))]
        if k in ('ext', 'print', 'eprint'): return ['effect ' + str(e[1])]

    def run(name, head, spec, why):
        def setup(e, st):
            fact(st, T('len', N), kint(0), positive=False)
            h = T('elem', N, kint(0))
            variant(st, h, PN, 'Symbol')
            t = T('fld', T('fld', h, 'Symbol', '0'), None, 'value')
            fact(st, t, *[kstr(x) for x in head[1]], positive=head[0])

        def go():
            g = ctx.explore(rule, A, args=rule_args(rule), setup=setup, opts={'kinds': PN})
            ctx.language(name, g, ev, spec, canon=Canon(g, names))
        ctx.attempt(name, rule.path, go)
    ANYT = star(sym(R(r'(more|end|kind) .*')))
    NAME = cat_(sym(R(r'nodes\[0\]\.(Symbol|\{Number\|Raw\|String\|Symbol\})\.0\.value')), lit(' '))
    HEAD = cat_(ANYT, NAME)
    ATOMS = r'(Symbol|Number|String|Raw|\{Number\|Raw\|String\|Symbol\})'
    idx = r'[^\]]*\+[^\]]*'
    # at-rules without a body
    node = r'nodes\[i\+1\]'
    arg_ = alt(cat_(lit('('), sym(R(node + r'\.Attribute\.keyword')), lit(': '), sym(R(r'value\(' + node + r'\.Attribute\.node\)\.Ok\.0')), lit(') ')),
               cat_(sym(R(r'value\(' + node + r'\)\.Ok\.0')), lit(' ')))
    nx = cat_(sym(R(r'more nodes i\+1')), star(sym(R(r'kind .*'))))
    fin = sym(R(r'end nodes (i\+1|1)'))
    for a in ONELINE:
        run('at-rule %s: arguments in order, then `;`' % a, (True, [a]), cat_(HEAD, star(cat_(nx, arg_)), fin, lit(';\n')), '')
    # at-rules with nested rules
    r = cat_(opt(sym(R(node + r'\.List\.leading_whitespace'))), sym(R(r'rule\(' + node + r'\.List\.nodes.*\)')))
    r = alt(r, cat_(opt(sym(R(node + r'\.List\.leading_whitespace'))), sym(R(r'rule\(SliceIter\{s: ' + node + r'\.List\.nodes, pos: 0, .*\)'))))
    islist = cat_(sym(R(r'more nodes i\+1')), star(sym(R(r'kind .*'))))
    for a in NESTED:
        spec = cat_(HEAD, star(cat_(nx, arg_)),
                    alt(cat_(fin, lit(';\n')),
                        cat_(islist, lit('{\n'), r, star(cat_(islist, r)), fin, lit('}'))))
        run('at-rule %s: one block around its rules' % a, (True, [a]), spec, '')
    # ordinary rules
    selectors = star(alt(cat_(sym(R(r'more .*')), star(sym(R(r'kind .*'))), sym(R(r'nodes\[' + idx + r'\]\.' + ATOMS + r'\.0\.value')), lit(' ')),
                         cat_(sym(R(r'more .*')), sym(R(r'kind nodes\[' + idx + r'\] (Attribute|List|Attribute\|List)')))))
    together = star(cat_(sym(R(r'nodes\[' + idx + r'\]\.' + ATOMS + r'\.0\.value')), lit(' ')))
    props = star(cat_(sym(R(r'more nodes .*')), sym(R(r'kind nodes\[.*\] Attribute')), lit('  '), sym(R(r'nodes\[' + idx + r'\]\.Attribute\.keyword')), lit(': '),
                      sym(R(r'value\(nodes\[' + idx + r'\]\.Attribute\.node\)\.Ok\.0')), lit(';\n')))
    END_ = plus(sym(R(r'end .*')))
    for name, head in [('rule %s' % b, (True, [b])) for b in BLOCK] + [('ordinary rule', (False, ONELINE + NESTED + BLOCK))]:
        body = cat_(lit('{\n'), props, END_, lit('}'))
        # the selectors may be collected first and written together
        run('%s: selectors, one block, properties' % name, head, alt(cat_(HEAD, selectors, END_, body), cat_(ANYT, sym(R(r'end .*')), NAME, together, body)), '')

    def nosel():
        def setup(e, st):
            fact(st, T('len', N), kint(0), positive=False)
            st.facts[T('discr', T('elem', N, kint(0)), PN)] = (True, frozenset([K('var', 'List'), K('var', 'Attribute')]))
        for nm, s in (('no selector', setup), ('empty rule', lambda e, st: fact(st, T('len', N), kint(0)))):
            g = ctx.explore(rule, A, args=rule_args(rule), setup=s)
            okx = [x for x in g.exits if is_ok(x)]
            ctx.require(not okx, 'a rule with %s is an error' % nm, rule.path, 'accepted', ctx.span(g, okx[0].id) if okx else None)
    ctx.attempt('a rule without selectors is an error', rule.path, nosel)

    def kinds():
        for ks in [(k,) for k in ATOMIC] + [(a, b) for a in ATOMIC for b in ATOMIC]:
            def setup(e, st):
                fact(st, T('len', N), kint(len(ks)))
                for i, k in enumerate(ks):
                    variant(st, T('elem', N, kint(i)), PN, k)
                    fact(st, T('fld', T('fld', T('elem', N, kint(i)), k, '0'), None, 'value'), kstr('ab'[i]))
            g = ctx.explore(rule, A, args=rule_args(rule), setup=setup, opts={'unroll': True})
            how = {('ok' if is_ok(x) else 'error') if x.info['kind'] == 'return' else x.info['kind'] for x in g.exits}
            ctx.require('ok' in how, 'selectors of every kind', '%s: a rule starting with %s' % (rule.path, ', '.join(ks)), 'ends with %s' % sorted(how), rule.span)
    ctx.attempt('selectors of every kind', rule.path, kinds)

    def top():
        gen = generate_fn(ctx, 'css')
        g = ctx.explore(gen, {rule.path: named('rule', havoc=False)})

        def ev(e, c):
            if e[0] == 'call' and e[1] == 'rule':
                for x in e[2]:
                    x = c.show(x)
                    if 'tree' in x: return ['rule(%s)' % x]
                return ['rule?']
            if e[0] == 'lt':
                m = more(e, c)
                return ['%s %s %s' % m] if m else None
            if e[0] == 'write': return text_labels(e[2], c)
        one = alt(sym(R(r'rule\(SliceIter\{s: self\.tree\[i\]\.List\.nodes, pos: 0, end: len\(self\.tree\[i\]\.List\.nodes\)\}\)')), sym(R(r'rule\(self\.tree\[i\]\.List\.nodes\)')))
        ctx.language('every top-level node is one rule', g, ev,
                     cat_(star(cat_(sym('more self.tree i'), opt(sym('self.tree[i].List.leading_whitespace')), one)), sym('end self.tree i')))
    ctx.attempt('every top-level node is one rule', GEN['css'], top)
    ctx.attempt('values', val.path, lambda: values(ctx, val))


def values(ctx, fn):
    node = argn(fn, 1)
    nodes = T('fld', node, 'List', 'nodes')
    h = T('elem', nodes, kint(0))
    A = {fn.path: pure_op('value')}
    quote = ctx.fn('seam::assemble::css::css_string', optional=True)
    if quote is not None:
        A[quote.path] = pure_op('quoted')

        def written():
            g = ctx.explore(quote)
            for x in g.exits:
                if x.info['kind'] == 'return': transfer(ctx, g, x.info['value'], argn(quote, 1), ESCAPES, 'strings read back as their text', quote.path, quote.span, '"')
        ctx.attempt('strings read back as their text', quote.path, written)
    hv = T('fld', T('call', 'value', (h,)), 'Ok', '0')

    def run(rule, setup, want):
        def go():
            g = ctx.explore(fn, A, setup=setup)
            c = Canon(g, {node: 'node'})
            okx = [x for x in g.exits if is_ok(x)]
            if want is not None: ctx.require(okx, rule, fn.path, 'never succeeds', fn.span)
            for x in okx:
                s = c.show(g.engine.field(x.info['value'], 'Ok', '0'))
                if 'quoted' in rule and 'fold{' in s:
                    k = x.info['value']
                    transfer(ctx, g, g.engine.field(k, 'Ok', '0'), T('fld', T('fld', node, rule.split()[1], '0'), None, 'value'), ESCAPES, 'strings read back as their text', fn.path, fn.span, '"')
                    continue
                ctx.require(want is not None and any(re.fullmatch(w, s) for w in want), rule, fn.path, 'gives %s' % s, ctx.span(g, x.id))
            if want is not None and any('each' in w for w in want):
                def ev(e, c):
                    if e[0] == 'lt':
                        m = more(e, c)
                        return ['%s %s' % (m[0], m[2])] if m and m[1] == 'node.List.nodes' else None
                ctx.language(rule + ' (every argument)', g, ev, cat_(star(sym(R(r'more .*'))), sym('end i+1')), canon=c)
        ctx.attempt(rule, fn.path, go)

    def kind(k):
        return lambda e, st: variant(st, node, PN, k)

    def head(pos, names):
        def setup(e, st):
            variant(st, node, PN, 'List')
            fact(st, T('len', nodes), kint(0), positive=False)
            st.facts[T('discr', T('call', 'value', (h,)), RES)] = (True, frozenset([K('var', 'Ok')]))
            fact(st, hv, *[kstr(n) for n in names], positive=pos)
        return setup
    for k in ('Symbol', 'Number', 'String'):
        run('value: %s kept, quoted when it has spaces' % k, kind(k), [r'node\.%s\.0\.value' % k, r'quoted\(node\.%s\.0\.value\)' % k])
    run('value: raw content verbatim', kind('Raw'), [r'node\.Raw\.0\.value'])
    run('value: an attribute is an error', kind('Attribute'), None)
    each = r'each\{value\(node\.List\.nodes\[i\+1\]\)\.Ok\.0\}'
    H = r'value\(node\.List\.nodes\[0\]\)\.Ok\.0'

    def args(d): return r'(trim\()?join\(%s, %s\)\)?' % (each, d)
    for f in FUNCTIONS: run('value: function %s is a call' % f, head(True, [f]), [r'"(%s|\'%s)(\'? \+ \'|)\(\' \+ %s \+ \'\)\'"' % (H, re.escape(f), args(r"'(, | )'"))])
    for f in COMMA: run('value: function %s is a call with commas' % f, head(True, [f]), [r'"%s \+ \'\(\' \+ %s \+ \'\)\'"' % (H, args("', '"))])
    for o in OPERATORS:
        run('value: %s is parenthesised infix' % o, head(True, [o]), [r'"\'\(\' \+ join\(%s, "\' \' \+ %s \+ \' \'"\) \+ \'\)\'"' % (each, H), r'"\'\(\' \+ join\(%s, \' %s \'\) \+ \'\)\'"' % (each, re.escape(o))])
    run('value: other lists are words', head(False, FUNCTIONS + COMMA + OPERATORS), [r'"%s \+ \' \' \+ %s"' % (H, args("' '"))])

    def spaces():
        # quoting happens exactly when some character is white space
        for k in ('Symbol', 'Number', 'String'):
            g = ctx.explore(fn, A, setup=kind(k))
            c = Canon(g, {node: 'node'})
            rule = 'value: %s quoted exactly when it has spaces' % k

            def ev(e, c):
                if e[0] == 'lt':
                    m = more(e, c)
                    return [m[0]] if m else None

            def quoted(x): return c.show(g.engine.field(x.info['value'], 'Ok', '0')) != 'node.%s.0.value' % k
            # the loop that writes the string, where it stands in the function itself, is no search
            writes = {(x.args[0], x.args[1]) for y in g.exits if is_ok(y) for x in subterms(g.engine.field(y.info['value'], 'Ok', '0')) if x.op == 'phi'}
            looped = [rec for loc, i in g.loops.items() if loc not in writes for rec in i['back']]
            if not looped:
                for x in [x for x in g.exits if is_ok(x)]:
                    ws = any('whitespace' in c.show(t) and p and TRUE in q for t, (p, q) in x.info['facts'].items())
                    ctx.require(ws == quoted(x), rule, fn.path, c.show(x.info['value']), ctx.span(g, x.id))
                continue
            for rec in looped:
                ws = [(p, q) for t, (p, q) in rec[1].items() if 'whitespace(' in c.show(t)]
                ctx.require(ws and all(p and FALSE in q for p, q in ws), rule + ': goes on after other characters', fn.path, 'a step does not test for white space', fn.span)
            ctx.language(rule + ': none', g, ev, cat_(star(sym('more')), sym('end')), accept=lambda x, c=None: is_ok(x) and not quoted(x))
            ctx.language(rule + ': some', g, ev, cat_(plus(sym('more')), opt(sym('end')) if writes else ('seq',)), accept=lambda x, c=None: is_ok(x) and quoted(x))
    ctx.attempt('value: quoting', fn.path, spaces)
