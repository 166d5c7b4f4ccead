"""Shared parts of the output-generation properties (S08 to S14)."""
from common import *

AS = 'seam::assemble::'
KINDS = {'html': ('HTMLFormatter', 'generate_html_node'), 'xml': ('XMLFormatter', 'generate_xml_node'),
         'css': ('CSSFormatter', None), 'sexp': ('SExpFormatter', 'generate_node'), 'text': ('PlainTextFormatter', 'generate_node')}
GEN = {k: "<seam::assemble::%s::%s<'a> as seam::assemble::MarkupFormatter>::generate" % (k, v[0]) for k, v in KINDS.items()}
DOC = {k: g.replace('::generate', '::document') for k, g in GEN.items()}
FORMATTER = re.compile(r'^&mut dyn std::fmt::Write')
NODE = re.compile(r'^&(mut )?seam::parse::parser::ParseNode')
VOID = ['area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'param', 'source', 'track', 'wbr']
SPECIAL = ['pre', 'textarea', 'title', 'style', 'script', 'math', 'svg']


def generate_fn(ctx, kind): return ctx.fn(GEN[kind])


def node_fn(ctx, kind):
    """The function that writes one node: called by `generate` with a node."""
    g = generate_fn(ctx, kind)
    if g is None: return None
    name = KINDS[kind][1]
    l = [f for f in ctx.F.bypath.get("seam::assemble::%s::%s::<'a>::%s" % (kind, KINDS[kind][0], name), [])]
    if len(l) == 1: return l[0]
    work, seen = [g], set()
    while work:
        f = work.pop()
        if f.uid in seen: continue
        seen.add(f.uid)
        for _, c, _ in calls_in(ctx.F, f, lambda c: c.get('rkrate') == 'seam' or c.get('ruid', '').startswith('seam')):
            h = ctx.F.fns.get(c.get('ruid'))
            if h is None: continue
            if any(NODE.match(h.locals[i][0]) for i in range(1, h.argc + 1)) and any(FORMATTER.match(h.locals[i][0]) for i in range(1, h.argc + 1)): return h
        work += ctx.F.closures.get(f.uid, [])
    ctx.violation('missing:node-writer', GEN[kind], g.span, 'no function writes one node')
    return None


def names_of(fn):
    """Parameters named by type."""
    m = {}
    for i in range(1, fn.argc + 1):
        ty = fn.locals[i][0]
        a = argn(fn, i)
        if FORMATTER.match(ty): m[a] = 'f'
        elif NODE.match(ty): m[a] = 'node'
        elif 'Formatter' in ty and ty.startswith('&'): m[a] = 'self'
    return m


def ops(ctx, own, others=('html', 'xml', 'css', 'sexp', 'text')):
    """Named operations: the generators of the other formats, escaping, raw source text."""
    a = {AS + 'escape_xml': pure_op('esc')}
    for k in others:
        if k != own: a[GEN[k]] = named('gen-' + k, havoc=False)
    return a


def evmap_for(fn):
    names = names_of(fn)

    def ev(e, c):
        k = e[0]
        if k == 'write':
            s = c.show(e[1])
            if s not in ('f', '*f'): return ['write-to-other-place(%s)' % s]
            return text_labels(e[2], c)
        if k == 'call':
            n = e[1]
            args = e[2]
            if n.startswith('gen-'):
                if not any(c.show(x) == 'f' for x in args[1:]): return ['%s-elsewhere' % n]
                tree = c.e.field(args[0], None, 'tree') if args[0].op == 'agg' else args[0]
                return ['%s(%s)' % (n, c.show(tree))]
            shown = [c.show(x) for x in args]
            if n == fn.path:
                if 'f' not in shown: return ['node-elsewhere']
                i = [j for j in range(1, fn.argc + 1) if NODE.match(fn.locals[j][0])][0] - 1
                return ['node(%s)' % shown[i]]
            return ['%s(%s)' % (short(n), ', '.join(shown))]
        if k == 'lt':
            m = more(e, c)
            return ['%s %s %s' % m] if m else None
        if k in ('ext', 'print', 'eprint'): return ['effect ' + str(e[1])]
        return None
    return ev, names



R = re.compile
IDX = r'(?:\d+\*)?i\+1'
SEQ = r'node\.List\.nodes'
REST = SEQ + r'\[i\+1\.\.\](\{\[0\]:=with_ws\(node\.List\.nodes\[i\+1\], \'\'\)\})?'
M = sym(R(r'more ' + SEQ + r' (i\+1|1|0|i)'))
END = sym(R(r'end ' + SEQ + r' (i\+1|1|0|i)'))
CM = sym(R(r'more (' + SEQ + r' 2\*i\+1|' + REST + r' \d*i?)'))
CEND = sym(R(r'end (' + SEQ + r' (2\*i\+1|i\+1)|' + REST + r' \d*i?)'))
ANYLOOP = star(alt(M, END))
ANYTEST = star(alt(M, END, CM, CEND))
A_ = SEQ + r'\[%s\]\.Attribute\.' % IDX
WS = opt(sym(R(r'node\.List\.leading_whitespace')))
NAME = sym(R(r'((ascii_)?lower\()?node\.List\.nodes\[0\]\.Symbol\.0\.value\)?'))
ANYVALUE = r'(esc\()?%snode\.(Number|String|Symbol|Raw)\.0\.value\)?'
VALUE = r'(esc\(%snode\.(Number|String|Symbol)\.0\.value\)|%snode\.Raw\.0\.value)'


def attribute(value=None):
    """ keyword="value", after white space."""
    v = (value or ANYVALUE).replace('%s', A_)
    return cat_(ANYLOOP, alt(sym(('c', ' ')), sym(R(A_ + 'leading_whitespace'))), sym(R(A_ + 'keyword')), lit('="'), sym(R(v)), lit('"'))


# children: the rest of the list after the attributes, each once, in order, to the end
CH = r'node\((' + REST + r'\[i\]|' + SEQ + r'\[2\*i\+1\])\)'
CHILDREN = cat_(star(cat_(CM, sym(R(CH)))), CEND)
CLOSE = cat_(opt(sym(R(r'node\.List\.(end_token\.leading_whitespace|leading_whitespace)'))), lit('</'), NAME, lit('>'))
OPEN = cat_(WS, lit('<'), NAME)


def element(body, value=None):
    """An element whose attributes end the list (then only an optional body), or not."""
    at = star(attribute(value))
    return alt(cat_(OPEN, at, ANYLOOP, END, ANYLOOP, lit('>'), ANYTEST, opt(body), ANYTEST, CLOSE),
               cat_(OPEN, at, ANYLOOP, lit('>'), ANYLOOP, body, CLOSE))


def void(value=None):
    at = star(attribute(value))
    return alt(cat_(OPEN, at, ANYLOOP, END, ANYLOOP, lit('>'), ANYTEST), cat_(OPEN, at, ANYLOOP, lit('>'), ANYLOOP, CEND))


def list_setup(fn, head=None, name=None, more_facts=None):
    """Precondition: the node is a list headed by a symbol (with facts on its name)."""
    i = [j for j in range(1, fn.argc + 1) if NODE.match(fn.locals[j][0])][0]
    node = argn(fn, i)
    nodes = T('fld', node, 'List', 'nodes')
    h = T('elem', nodes, kint(0))
    tag = T('fld', T('fld', h, 'Symbol', '0'), None, 'value')

    def setup(e, st):
        variant(st, node, PN, 'List')
        fact(st, T('len', nodes), kint(0), positive=False)
        variant(st, h, PN, 'Symbol')
        fact(st, T('len', tag), kint(0), positive=False)
        if name: name_facts(e, st, tag, name)
    return setup


def lowers(tag):
    return [T('call', 'ascii_lower', (tag,)), T('call', 'lower', (tag,))]


def name_facts(e, st, tag, name):
    """name: ('one', consts): the lower-cased name is one of; ('not', consts); ('first', chars) / ('notfirst', chars)."""
    for n in name:
        k, cs = n
        if k in ('one', 'not'):
            for t in lowers(tag): fact(st, t, *[kstr(c) for c in cs], positive=(k == 'one'))
            if k == 'one':
                firsts = {c[0] for c in cs}
                first_facts(e, st, tag, firsts, True)
            else: fact(st, tag, *[kstr(c) for c in cs], positive=False)
        else: first_facts(e, st, tag, cs, k == 'first')


def first_facts(e, st, tag, cs, pos):
    for t in [tag] + lowers(tag):
        b = T('elem', T('call', 'as_bytes', (t,)), kint(0))
        merge(st, b, [kint(ord(c)) for c in cs], pos)
        merge(st, T('elem', T('call', 'chars', (t,)), kint(0)), [K('char', c) for c in cs], pos)
        for x in '!?':
            s = T('call', 'starts_with', (t, kstr(x)))
            if not pos and x in cs or pos and x not in cs: fact(st, s, FALSE)
            elif pos and list(cs) == [x]: fact(st, s, TRUE)


def merge(st, t, cs, pos):
    f = st.facts.get(t)
    n = frozenset(cs)
    if f is None: st.facts[t] = (pos, n)
    elif f[0] and pos: st.facts[t] = (True, f[1] & n)
    elif not f[0] and not pos: st.facts[t] = (False, f[1] | n)
    elif f[0]: st.facts[t] = (True, f[1] - n)
    else: st.facts[t] = (True, n - f[1])




def failed_step(x):
    """An exit that some called operation failed on."""
    e = K('var', 'Err')
    return any(t.op == 'discr' and t.args[0].op in ('res', 'call') and f == (True, frozenset([e])) for t, f in x.info['facts'].items())


class Writer:
    """The node writer of one format and the obligations on it."""

    def __init__(self, ctx, kind):
        self.ctx, self.kind = ctx, kind
        self.fn = node_fn(ctx, kind)
        if self.fn is None: return
        self.ev, self.names = evmap_for(self.fn)
        self.ops = ops(ctx, kind)
        i = [j for j in range(1, self.fn.argc + 1) if NODE.match(self.fn.locals[j][0])][0]
        self.node = argn(self.fn, i)
        self.nodes = T('fld', self.node, 'List', 'nodes')
        self.head = T('elem', self.nodes, kint(0))
        self.tag = T('fld', T('fld', self.head, 'Symbol', '0'), None, 'value')

    def run(self, rule, setup, spec, nofail=False, **kw):
        if self.fn is None: return
        def go():
            g = self.ctx.explore(self.fn, self.ops, setup=setup)
            if nofail:
                bad = [x for x in g.exits if x.info['kind'] == 'return' and not is_ok(x) and not failed_step(x)]
                self.ctx.require(not bad, rule + ' (never rejected)', self.fn.path, 'fails without a failed write', self.ctx.span(g, bad[0].id) if bad else None)
            self.ctx.language(rule, g, self.ev, spec, canon=Canon(g, self.names), **kw)
            return g
        return self.ctx.attempt(rule, self.fn.path, go)

    def named(self, rule, name, spec, **kw):
        return self.run(rule, list_setup(self.fn, name=name), spec, **kw)

    def kind_of(self, *kinds):
        def setup(e, st): st.facts[T('discr', self.node, PN)] = (True, frozenset(K('var', k) for k in kinds))
        return setup

    def never(self, rule, setup):
        def go():
            g = self.ctx.explore(self.fn, self.ops, setup=setup)
            okx = [x for x in g.exits if is_ok(x)]
            self.ctx.require(not okx, rule, self.fn.path, 'such a node is accepted', self.ctx.span(g, okx[0].id) if okx else None)
        if self.fn is not None: self.ctx.attempt(rule, self.fn.path, go)

    def bad_lists(self):
        def empty(e, st):
            variant(st, self.node, PN, 'List'); fact(st, T('len', self.nodes), kint(0))

        def nosym(e, st):
            variant(st, self.node, PN, 'List'); fact(st, T('len', self.nodes), kint(0), positive=False)
            st.facts[T('discr', self.head, PN)] = (True, frozenset(K('var', n) for n in ('Number', 'String', 'Raw', 'List', 'Attribute')))

        def noname(e, st):
            variant(st, self.node, PN, 'List'); fact(st, T('len', self.nodes), kint(0), positive=False)
            variant(st, self.head, PN, 'Symbol')
            fact(st, T('len', self.tag), kint(0))
        self.never('empty list is an error', empty)
        self.never('list headed by another kind is an error', nosym)
        self.never('empty name is an error', noname)

    def toplevel(self):
        """`generate` writes every top-level node once, in order."""
        g = generate_fn(self.ctx, self.kind)
        if g is None or self.fn is None: return
        rule = '%s: every top-level node once, in order' % self.kind

        def go():
            gr = self.ctx.explore(g, dict(self.ops, **{self.fn.path: named('node', havoc=False)}))

            def ev(e, c):
                if e[0] == 'call' and e[1] == 'node':
                    s = [c.show(x) for x in e[2]]
                    return ['node(%s)' % x for x in s if 'tree' in x] or ['node?']
                if e[0] == 'lt':
                    m = more(e, c)
                    return ['%s %s %s' % m] if m else None
                if e[0] in ('write', 'call'): return [e[0]]
            self.ctx.language(rule, gr, ev, cat_(star(cat_(sym('more self.tree i'), sym('node(self.tree[i])'))), sym('end self.tree i')))
        self.ctx.attempt(rule, g.path, go)


def flat(e, t):
    """Appended pieces as text or item terms."""
    out = []
    for k, x in t:
        if x.op == 'k' and x.args[0] == 'int': out.append(bytes([x.args[1]]))
        elif x.op == 'k' and x.args[0] == 'char': out.append(x.args[1].encode())
        elif x.op == 'k' and x.args[0] == 'str': out.append(x.args[1].encode())
        else: out.append(x)
    m = []
    for x in out:
        if isinstance(x, bytes) and m and isinstance(m[-1], bytes): m[-1] += x
        else: m.append(x)
    return m


def parts(t, p):
    """Pieces appended to the accumulator p, or None."""
    if t is p: return []
    if t.op == 'seq' and t.args[0] and t.args[0][0] == ('s', p): return list(t.args[0][1:])
    if t.op == 'cat' and t.args[0] and t.args[0][0] is p: return [('s', x) for x in t.args[0][1:]]
    if t.op in ('add', 'call') : return None
    return None


def transfer(ctx, g, v, src, table, rule, where, span, quote=''):
    """The text `v` of an exploration is `src` with each character replaced as the table says, the others kept,
    between quotes if there are any: decided per character on the summary of the loop that builds it."""
    c = Canon(g)
    t = v
    chain = []
    if quote:
        if t.op != 'cat' or t.args[0][-1] is not kstr(quote): return ctx.violation(rule, where, span, 'does not end with %s: %s' % (quote, c.show(v)))
        body = t.args[0][:-1]
        if body[0] is kstr(quote): body, quote = body[1:], ''
        if len(body) != 1: return ctx.violation(rule, where, span, 'is not built from the text in one pass: %s' % c.show(v))
        t = body[0]
    while t.op == 'call' and t.args[0] == 'str_replace':
        chain.append(t.args[1][1:]); t = t.args[1][0]
    if chain:
        good = t is src and not quote and all(x.op == 'k' for l in chain for x in l) and all(len(l[0].args[1]) == 1 for l in chain)
        if good:
            for ch in list(table) + list('a;#\u00e9'):
                r = ch
                for a, b in reversed(chain): r = r.replace(a.args[1], b.args[1])
                if r != table.get(ch, ch): good = False
        ctx.require(good, rule, where, 'replacements do not give what is defined: %s' % c.show(v), span)
        return
    while t.op == 'call' and t.args[0] in ('utf8', 'str', 'string'): t = t.args[1][0]
    if t.op != 'phi': return ctx.violation(rule, where, span, 'is not built from the text in one pass: %s' % c.show(v))
    kind, ent, back = c.phi(t)
    loc = (t.args[0], t.args[1]); key = (t.args[2], t.args[3])
    ok0 = all(x is kstr(quote) if quote else x.op in ('seq', 'cat') and not x.args[0] or x is kstr('') or x.op == 'k' and x.args[1] in ('', b'') for x in ent)
    ctx.require(kind == 'acc' and ok0, rule + ': start', where, 'starts from another text than %r: %s' % (quote, [c.show(x) for x in ent]), span)
    seen, default = {}, 0
    for rec in g.loops[loc]['back']:
        p = parts(rec[0].get(key), t)
        if p is None: ctx.violation(rule, where, span, 'rewrites what was written: %s' % c.show(rec[0].get(key))); continue
        p = flat(g.engine, p)
        item = None
        for q, f in rec[1].items():
            if q.op == 'elem' and q.args[0].op == 'call' and q.args[0].args[0] in ('as_bytes', 'chars') and q.args[0].args[1][0] is src and q.args[1].op == 'phi' and (q.args[1].args[0], q.args[1].args[1]) == loc: item = (q, f)
        if item is None:
            # no test on this path: every character
            item = (None, (False, frozenset()))
            its = [x for x in p if isinstance(x, Term)]
            if its: item = (its[0], item[1])
        q, (pos, cs) = item
        cs = {x.args[1] if x.args[0] == 'char' else chr(x.args[1]) for x in cs}
        if q is not None and c.show(q.args[1]) != 'i': ctx.violation(rule, where, span, 'reads %s' % c.show(q)); continue
        if pos:
            for ch in cs:
                want = table.get(ch, ch).encode()
                good = p == [want] or (ch not in table and p == [q])
                ctx.require(good, '%s: %r' % (rule, ch), where, '%r is written as %s' % (ch, p), span)
                seen[ch] = 1
        else:
            default = 1
            miss = [x for x in table if x not in cs]
            ctx.require(not miss and p == [q], rule + ': others', where, 'characters other than %s are written as %s' % (sorted(cs), [c.show(x) if isinstance(x, Term) else x for x in p]), span)
    ctx.require(default and all(x in seen for x in table), rule, where, 'a character is not handled', span)
