"""White space in HTML and XML output, decided on the abstract paths of both node writers, projected
to the white space, tags and children they write, per kind of node, end token and element class."""
from assemble import *

TECHNIQUE = 'abstract interpretation of MIR (value numbering); white space events of every path of the node writers included in a regular language, per element class and spacing of the end token'
NOTE = 'white space between attributes is decided by S08 and S09, that of text and source output by S13; the content of elements in other languages by S11'
MIN_OBLIGATIONS = 40
RAW = ['pre', 'style', 'script', 'math', 'svg', 'textarea', 'title']
VOIDS = ['area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'param', 'source', 'track', 'wbr']


class Every:
    def __contains__(self, x): return True


LEAD, END_, NL, SAME, KEPT, STRIPPED = 'leading white space', 'white space of the end', 'on a new line', 'on the same line', 'children', 'children, the first moved up'


def events(w):
    def ev(e, c):
        if e[0] == 'pred':
            t = e[1]
            if any(x.op == 'call' and x.args[0] == 'ws' for x in walk(t)) and any(x.op == 'k' and x.args[1] in ('\n', 10) for x in walk(t)):
                known = t.args[0] in ('str_contains', 'contains', 'starts_with', 'ends_with', 'any')
                return [(NL if e[2] else SAME) if known and t.args[0] in ('str_contains', 'contains', 'any') else 'other test of white space']
            return None
        out = []
        for l in w.ev(e, c) or ():
            if isinstance(l, tuple):
                if l[0] == 'c' and l[1] in '</': out.append(l[1])
            elif l == 'node.List.leading_whitespace': out.append(LEAD)
            elif l == 'node.List.end_token.leading_whitespace': out.append(END_)
            elif l.startswith('node(') or l.startswith('gen-'): out.append(STRIPPED if 'with_ws(' in l else KEPT)
            elif 'leading_whitespace' in l and 'Attribute' not in l and '.nodes[' not in l: out.append('white space ' + l)
        return out or None
    return ev


def walk(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in seen or x.op == 'ctx': continue
        seen.add(x)
        todo += terms.subterms(x)
    return seen


def spacing(t): return t.op == 'call' and any(x.op == 'call' and x.args[0] == 'ws' for x in walk(t))


def check(ctx):
    for kind in ('html', 'xml'):
        w = Writer(ctx, kind)
        if w.fn is None: continue
        for k in ('Symbol', 'Number', 'String', 'Raw'): ctx.attempt('text', w.fn.path, lambda: atom(ctx, w, kind, k))
        if kind == 'html':
            closed = [('elements', [('notfirst', '!?'), ('not', RAW + VOIDS)], True, False)] + \
                     [('`%s`' % t, [('one', [t])], False, t == 'style') for t in RAW if t != 'pre']
            open_ = [('declarations', [('first', '!')])] + [('`%s`' % t, [('one', [t])]) for t in VOIDS]
        else:
            closed = [('elements', [('notfirst', '!?'), ('not', ['style'])], True, False), ('`style`', [('one', ['style'])], True, True)]
            open_ = [('declarations', [('first', '!')]), ('instructions', [('first', '?')])]
        for what, name, strict, always in closed:
            for spaced in (True, False): ctx.attempt('spacing', w.fn.path, lambda: closing(ctx, w, kind, what, name, strict, always, spaced))
        if kind == 'html':
            for spaced in (True, False): ctx.attempt('spacing', w.fn.path, lambda: raw(ctx, w, spaced))
        for what, name in open_: ctx.attempt('spacing', w.fn.path, lambda: opening(ctx, w, kind, what, name))


def atom(ctx, w, kind, k):
    g = ctx.explore(w.fn, w.ops, setup=w.kind_of(k))
    n = r'node\.%s\.0\.' % k
    value = R(n + 'value' if k == 'Raw' else r'esc\(%svalue\)' % n)
    ctx.language('%s: white space before %s' % (kind, k.lower()), g, w.ev, cat_(sym(R(n + 'leading_whitespace')), sym(value)), canon=Canon(g, w.names))


def run(ctx, w, name, spaced=None):
    base = list_setup(w.fn, name=name)
    def setup(e, st):
        base(e, st)
        if w.kind == 'xml' and name[0][0] == 'one': fact(st, w.tag, *[kstr(n) for n in name[0][1]])
        if spaced is None: return
        end = T('fld', T('fld', w.node, 'List', 'end_token'), None, 'leading_whitespace')
        fact(st, T('len', end), kint(0), positive=not spaced)
    g = ctx.explore(w.fn, w.ops, setup=setup, opts={'preds': Every(), 'keep': spacing, 'apart': spacing})
    return g, Canon(g, w.names)


def closing(ctx, w, kind, what, name, strict, always, spaced):
    g, c = run(ctx, w, name, spaced)
    o, cl = cat_(sym(LEAD), sym('<')), cat_(sym('<'), sym('/'))
    some = lambda x: star(sym(x)) if strict else star(alt(sym(KEPT), sym(STRIPPED)))
    if spaced: kept = up = none = sym(END_)
    else: kept, up, none = sym(LEAD), sym(LEAD) if always else cat_(), sym(LEAD) if always else cat_()
    spec = alt(cat_(o, sym(NL), some(KEPT), kept, cl), cat_(o, sym(SAME), some(STRIPPED), up, cl), cat_(o, star(sym(KEPT)) if not strict else cat_(), none, cl))
    ctx.language('%s: white space of %s, %s' % (kind, what, 'spaced end' if spaced else 'end without space'), g, events(w), spec, canon=c)


def opening(ctx, w, kind, what, name):
    g, c = run(ctx, w, name)
    ctx.language('%s: white space of %s' % (kind, what), g, events(w), cat_(sym(LEAD), sym('<')), canon=c)


def raw(ctx, w, spaced):
    """Preformatted text is followed by its end tag: what stands before the closing parenthesis belongs to the text."""
    g, c = run(ctx, w, [('one', ['pre'])], spaced)
    e = events(w)
    def ev(x, c):
        if x[0] == 'write':
            return e(x, c)
        return None
    ctx.language('html: white space of `pre`, %s' % ('spaced end' if spaced else 'end without space'), g, ev, cat_(sym(LEAD), sym('<'), opt(sym(END_)), sym('<'), sym('/')), canon=c)
