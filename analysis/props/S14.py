"""Every successful path of the whole-document generators returns known text around the body;
for HTML the text before and after it is checked against the tag searches known to have failed
on that path (added only when missing, opened wrappers closed in reverse order, body once);
XML starts with exactly one declaration; text, source and CSS output add nothing. The tag
search itself must inspect the head of each list at every level."""
from assemble import *

TECHNIQUE = 'abstract interpretation of MIR (value numbering): symbolic-constant text of each returned document checked against the path facts'
NOTE = 'Sound over the modelled standard library for every tree; that the search finds a tag is decided for its head comparison and recursion, per node.'
MIN_OBLIGATIONS = 20
TAG = re.compile(r'<(/?)(!?\??\w+)[^>]*>|<!--.*?-->', re.S)
WRAP = {'!doctype': 1, 'html': 1, 'head': 2, 'body': 2}


def body(e, st, c, args, t, blk, node, ev):
    loc = models.location(e, st, args[1])
    tree = e.resolve(st, args[0])
    d = T('discr', T('call', 'generated', (tree,)), RES)
    s2 = st.copy()
    if loc is not None: e.write(s2, loc[0], loc[1], models.cat([e.read(s2, *loc), T('call', 'body', (tree,))]))
    s2.facts[d] = (True, frozenset([K('var', 'Ok')]))
    st.facts[d] = (True, frozenset([K('var', 'Err')]))
    return e.done(s2, t, ok(UNIT)) + e.done(st, t, err(T('call', 'generation_error', (tree,))))


def search(e, st, c, args, t, blk, node, ev):
    a = [e.resolve(st, x) for x in args]
    tree = a[0]
    return e.done(st, t, T('call', 'search', tuple(a)))


def pieces(t):
    return list(t.args[0]) if t.op == 'cat' else [t]


def document(ctx, kind, setup=None):
    fn = ctx.fn(DOC[kind])
    if fn is None: return None
    a = {'seam::assemble::MarkupFormatter::generate': body}
    for k in GEN: a[GEN[k]] = body
    for f in ctx.F.fns.values():
        if f.path.endswith('SearchTree<\'a>>::search_node'): a[f.path] = search
    a["seam::parse::parser::SearchTree::search_node"] = search
    return fn, ctx.explore(fn, a, setup=setup)


def nesting(text):
    """Unclosed tags and whether the rest is balanced."""
    st = []
    for m in TAG.finditer(text):
        n = m.group(2)
        if n is None or n[0] in '!?': continue
        if m.group(1):
            if not st or st[-1] != n.lower(): return None
            st.pop()
        else: st.append(n.lower())
    return st


def is_empty_tree(g, x):
    for t, (p, s) in x.info['facts'].items():
        if t.op == 'len' and p and s == frozenset([kint(0)]) and Canon(g).show(t) == 'len(self.tree)': return True
    return False


def html(ctx):
    fn, g = document(ctx, 'html')
    c = Canon(g)
    OK = [x for x in g.exits if is_ok(x)]
    ctx.require(OK, 'html: documents are generated', fn.path, 'no document is ever returned', fn.span)
    n = 0
    for x in OK:
        v = g.engine.field(x.info['value'], 'Ok', '0')
        ps = pieces(v)
        sp = ctx.span(g, x.id)
        where = fn.path
        if is_empty_tree(g, x):
            good = v.op == 'k' and v.args[1].lower().startswith('<!doctype html>') and nesting(v.args[1]) == [] and all('<%s>' % w in v.args[1] for w in ('html', 'body'))
            ctx.require(good, 'html: an empty document gives the default page', where, 'returns %s' % c.show(v)[:200], sp)
            continue
        found = {}
        for t, (p, s) in x.info['facts'].items():
            if t.op == 'discr' and t.args[0].op == 'call' and t.args[0].args[0] == 'search':
                q = t.args[0].args[1]
                name = q[2].args[1] if q[2].op == 'k' else '?'
                okq = c.show(q[0]) == 'self.tree' and 'ListHead' in c.show(q[1]) and q[3] is TRUE and q[4].op == 'k' and q[4].args[1] >= WRAP.get(name, 99)
                ctx.require(okq, 'html: the search for `%s`' % name, where, 'searches %s' % c.show(t), sp)
                found[name] = (p, {y.args[1] for y in s})
        missing = {k for k, (p, s) in found.items() if p and s == {'None'}}
        present = {k for k, (p, s) in found.items() if p and s == {'Some'}}
        bodies = [i for i, q in enumerate(ps) if q.op == 'call' and q.args[0] == 'body']
        good = len(bodies) == 1 and all(q.op == 'k' for i, q in enumerate(ps) if i not in bodies)
        if not ctx.require(good, 'html: the body appears once', where, 'returns %s' % c.show(v)[:300], sp): continue
        b = bodies[0]
        pre, post = ''.join(q.args[1] for q in ps[:b]), ''.join(q.args[1] for q in ps[b + 1:])
        n += 1
        rule = 'html: missing wrapping [%s missing, %s present]' % (','.join(sorted(missing)), ','.join(sorted(present)))
        added = {m.group(2).lower() for m in TAG.finditer(pre) if m.group(2)}
        ctx.require(added <= missing, rule, where, 'adds %s' % sorted(added - missing), sp)
        if '!doctype' in missing: ctx.require('!doctype' in added, rule + ' doctype', where, 'no doctype added', sp)
        if {'!doctype', 'html'} <= missing:
            ctx.require('html' in added, rule + ' html', where, 'no html element added', sp)
            for k in ('head', 'body'):
                if k in missing: ctx.require(k in added, rule + ' ' + k, where, 'no %s element added' % k, sp)
        ctx.require(nesting(pre + post) == [], rule + ' closes what it opens', where, 'wrapping %r ... %r is not balanced' % (pre, post), sp)
        o = nesting(pre)
        ctx.require(o in ([], ['html'], ['html', 'body']), rule + ' wraps the body', where, 'body is inside %s' % o, sp)
        txt = TAG.sub('', pre + post)
        ctx.require(not txt.strip(), rule + ' adds only tags', where, 'adds text %r' % txt, sp)
    ctx.floor('html documents', n, 5)


def xml(ctx):
    fn, g = document(ctx, 'xml')
    c = Canon(g)
    for x in [x for x in g.exits if is_ok(x)]:
        v = g.engine.field(x.info['value'], 'Ok', '0')
        sp = ctx.span(g, x.id)
        ps = pieces(v)
        if is_empty_tree(g, x):
            ctx.require(v.op == 'k' and re.fullmatch(r'<\?xml [^<>]*\?>\s*', v.args[1]), 'xml: an empty document is a declaration', fn.path, 'returns %s' % c.show(v), sp)
            continue
        has = None
        for t, (p, s) in x.info['facts'].items():
            nm = c.show(t)
            if re.search(r"lower\(self\.tree\[0\]\.List\.nodes\[0\]\.Symbol\.0\.value\)", nm) and '?xml' in nm + str([c.show(y) for y in s]):
                val = (p and (TRUE in s or kstr('?xml') in s))
                has = val
        decl = ps[0].op == 'k' and re.match(r'<\?xml [^<>]*\?>\s*$', ps[0].args[1]) is not None
        bodies = [q for q in ps if q.op == 'call' and q.args[0] == 'body']
        ctx.require(len(bodies) == 1 and ps[-1] is bodies[0], 'xml: the body appears once', fn.path, 'returns %s' % c.show(v), sp)
        ctx.require(bool(has) != decl and len(ps) == (2 if decl else 1), 'xml: one declaration (own declaration: %s)' % has, fn.path, 'returns %s' % c.show(v), sp)


def own_declaration(ctx):
    """Exactly `?xml`, in any letter case, at the head of the first list is a declaration."""
    for head in ('?xml', '?XML', '?Xml', '?xml-stylesheet', '?xmlns', '?xm', '?php', '!xml', 'xml', 'p', ''):
        def setup(e, st):
            self = argn(ctx.F.bypath[DOC['xml']][0], 1)
            tree = e.field(self, None, 'tree')
            fact(st, T('len', tree), kint(0), positive=False)
            first = T('elem', tree, kint(0))
            variant(st, first, PN, 'List')
            nodes = e.field(first, 'List', 'nodes')
            fact(st, T('len', nodes), kint(0), positive=False)
            variant(st, T('elem', nodes, kint(0)), PN, 'Symbol')
            fact(st, e.field(e.field(T('elem', nodes, kint(0)), 'Symbol', '0'), None, 'value'), kstr(head))
        fn, g = document(ctx, 'xml', setup)
        oks = [x for x in g.exits if is_ok(x)]
        ctx.require(oks, 'xml: one declaration', 'document starting with (%s ...)' % head, 'is never written', fn.span)
        for x in oks:
            ps = pieces(g.engine.field(x.info['value'], 'Ok', '0'))
            added = ps[0].op == 'k'
            ctx.require(added != (head.lower() == '?xml'), 'xml: one declaration', 'document starting with (%s ...)' % head, 'a declaration is %sadded' % ('' if added else 'not '), ctx.span(g, x.id))


def plain(ctx, kind):
    fn, g = document(ctx, kind)
    c = Canon(g)
    for x in [x for x in g.exits if is_ok(x)]:
        v = g.engine.field(x.info['value'], 'Ok', '0')
        if is_empty_tree(g, x) and kind == 'css' and v.op == 'k': continue
        ctx.require(v.op == 'call' and v.args[0] == 'body' and c.show(v.args[1][0]) in ('self', '*self'), '%s: adds nothing' % kind, fn.path, 'returns %s' % c.show(v), ctx.span(g, x.id))


def fragment(ctx):
    f = ctx.fn('seam::assemble::MarkupFormatter::display')
    if f is None: return
    g = ctx.explore(f, {'seam::assemble::MarkupFormatter::generate': body})
    c = Canon(g)
    for x in [x for x in g.exits if is_ok(x)]:
        v = g.engine.field(x.info['value'], 'Ok', '0')
        ctx.require(v.op == 'call' and v.args[0] == 'body', 'fragment output adds nothing', f.path, 'returns %s' % c.show(v), ctx.span(g, x.id))
    over = [h.path for h in ctx.F.fns.values() if h.path.endswith('as seam::assemble::MarkupFormatter>::display')]
    ctx.require(not over, 'no format overrides fragment output', f.path, 'overridden by %s' % over)


def check(ctx):
    for k, r in (('html', html), ('xml', xml)): ctx.attempt(k + ': document', DOC[k], lambda: r(ctx))
    ctx.attempt('xml: own declaration', DOC['xml'], lambda: own_declaration(ctx))
    for k in ('css', 'sexp', 'text'): ctx.attempt(k + ': document', DOC[k], lambda: plain(ctx, k))
    ctx.attempt('fragment output adds nothing', 'display', lambda: fragment(ctx))
    ctx.attempt('search', 'search_node', lambda: searching(ctx))


def searching(ctx):
    """The head of every list is compared, ignoring case; lists are searched level by level."""
    fn = ctx.fn("<seam::parse::parser::ParseNode<'a> as seam::parse::parser::SearchTree<'a>>::search_node")
    tree = ctx.fn("<std::boxed::Box<[seam::parse::parser::ParseNode<'a>]> as seam::parse::parser::SearchTree<'a>>::search_node")
    if fn is None or tree is None: return
    A = {fn.path: search, tree.path: search, "seam::parse::parser::SearchTree::search_node": search}
    me = argn(fn, 1)
    nodes = T('fld', me, 'List', 'nodes')
    h = T('elem', nodes, kint(0))

    def lst(e, st):
        variant(st, me, PN, 'List')
        fact(st, T('len', nodes), kint(0), positive=False)
        variant(st, h, PN, 'Symbol')
        fact(st, argn(fn, 5), kint(0), positive=False)
        st.store[T('L', 0, 0)] = UNIT
    ST = 'seam::parse::parser::SearchType'
    args = [me, agg(ST, 'ListHead', (), ()), argn(fn, 3), TRUE, argn(fn, 5)]
    g = ctx.explore(fn, A, args=args, setup=lst)
    c = Canon(g)
    found = False
    for x in g.exits:
        if x.info['kind'] != 'return': continue
        v = x.info['value']
        s = c.show(v)
        found = found or s in ('Some(self)', 'Some(*self)')
        f = {c.show(t): (p, q) for t, (p, q) in x.info['facts'].items()}
        eqs = [(t, p) for t, (p, q) in f.items() if 'Symbol.0.value' in t and 'lower' in t and ('value)' in t)]
        iseq = any('==' in t and (p and TRUE in q) for t, (p, q) in f.items() if 'lower(self.List.nodes[0].Symbol.0.value)' in t and 'lower(%s)' % fn.locals[3][1] in t)
        if iseq: ctx.require(s in ('Some(self)', 'Some(*self)'), 'search: a matching head is found', fn.path, 'gives %s' % s, ctx.span(g, x.id))
        else: ctx.require(s.startswith('search(self.List.nodes') and s.endswith('-1)'), 'search: other lists are searched inside, one level less', fn.path, 'gives %s under %s' % (s, sorted(f)), ctx.span(g, x.id))
    ctx.require(found, 'search: a matching head is found', fn.path, 'no list is ever found', fn.span)
    # nothing but a list is found by its head
    for kind, want in [(k, r'None') for k in ('Symbol', 'Number', 'String', 'Raw')] + [('Attribute', r'search\(self\.Attribute\.node, .*-1\)'), ('List', r'search\(self\.List\.nodes, .*-1\)')]:
        for head in (('empty', 'List', 'Attribute') if kind == 'List' else (None,)):
            def other(e, st):
                variant(st, me, PN, kind)
                fact(st, argn(fn, 5), kint(0), positive=False)
                if head: fact(st, T('len', nodes), kint(0), positive=head == 'empty')
                if head and head != 'empty': variant(st, h, PN, head)
            g = ctx.explore(fn, A, args=args, setup=other)
            got = {Canon(g).show(x.info['value']) for x in g.exits if x.info['kind'] == 'return'}
            ctx.require(len(got) == 1 and re.fullmatch(want, min(got)), 'search: nothing but a list is found by its head', '%s %s' % (kind, head or ''), 'gives %s' % sorted(got), fn.span)
    g = ctx.explore(tree, A, args=[argn(tree, 1), agg(ST, 'ListHead', (), ()), argn(tree, 3), TRUE, argn(tree, 5)], setup=lambda e, st: fact(st, argn(tree, 5), kint(0), positive=False))
    c = Canon(g)

    def ev(e, c):
        if e[0] == 'lt':
            m = more(e, c)
            return ['%s %s %s' % m] if m else None
    last = re.compile(r'fold\{None; (search\(self\[i\],.*\))\}')
    if any(x.info['kind'] == 'return' and last.fullmatch(c.show(x.info['value'])) for x in g.exits):
        # the latest result is kept: the loop must end with the first that is something
        g = ctx.explore(tree, A, args=[argn(tree, 1), agg(ST, 'ListHead', (), ()), argn(tree, 3), TRUE, argn(tree, 5)],
                        setup=lambda e, st: fact(st, argn(tree, 5), kint(0), positive=False), opts={'kinds': OPT})
        c = Canon(g)

        def ev2(e, c):
            if e[0] == 'kind' and 'search(self[i]' in c.show(e[1]): return ['+'.join(e[2])]
            return ev(e, c)
        pre = star(cat_(sym('more self i'), sym('None')))
        ctx.language('search: every item is searched until one is found', g, ev2, cat_(pre, alt(sym('end self i'), cat_(sym('more self i'), sym('Some')))),
                     accept=lambda x, c=None: x.info['kind'] == 'return', canon=c)
        for x in g.exits:
            s = c.show(x.info['value']) if x.info['kind'] == 'return' else ''
            ctx.require(last.fullmatch(s) or re.match(r'search\(self\[i\]|Some\(search\(self\[i\],[^()]*\)\.Some\.0\)$|None$', s), 'search: the result is one of the items', tree.path, 'gives %s' % s)
        return
    ctx.language('search: every item is searched until one is found', g, ev, cat_(star(sym('more self i')), sym('end self i')),
                 accept=lambda x, c=None: x.info['kind'] == 'return' and x.info['value'] is NONE)
    ctx.require(any(x.info['kind'] == 'return' and x.info['value'] is not NONE for x in g.exits), 'search: an item that is found is returned', tree.path, 'never returns one', tree.span)
    for x in g.exits:
        if x.info['kind'] == 'return' and x.info['value'] is not NONE:
            s = c.show(x.info['value'])
            ctx.require(re.match(r'search\(self\[i\]|Some\(search\(self\[i\],[^()]*\)\.Some\.0\)$', s), 'search: the result is one of the items', tree.path, 'gives %s' % s)
            if s.startswith('search('):
                d = {k: v for k, v in x.info['facts'].items() if k.op == 'discr' and c.show(k.args[0]) == s}
                some = any(p and {str(q.args[1]) for q in vs} == {'Some'} for p, vs in d.values()) or any(not p and {str(q.args[1]) for q in vs} == {'None'} for p, vs in d.values())
                ctx.require(some, 'search: every item is searched until one is found', tree.path, 'the search ends at an item without a match', ctx.span(g, x.id))
