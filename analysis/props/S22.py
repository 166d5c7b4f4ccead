"""Macro results take the white space of the call."""
from macros import *
from props.S21 import items, symbol

TECHNIQUE = 'abstract interpretation: white space of the first node of every result, per macro and per kind of node; the accessors per variant'
NOTE = 'macros that return several nodes of their own (number, symbol, map ...) keep the white space of those nodes'
MIN_OBLIGATIONS = 30

SINGLE = 'raw string embed markdown date timestamp join concat format lambda list sort'.split()
INCLUDE = {'seam::parse::parser_for_file': named('parser_for_file', havoc=False), 'seam::parse::parser::Parser::parse': named('parse', havoc=False)}


def check(ctx):
    M = Macros(ctx)
    for k in ('Symbol', 'Number', 'String', 'Raw', 'List', 'Attribute'): ctx.attempt('accessors', k, lambda: accessors(ctx, k))
    f = ctx.fn(EX + 'expand_node')
    if f is None: return
    node = param(f, 'ParseNode')
    ctx.attempt('variable', 'variable use', lambda: variable(ctx, f, node))
    for n in (1, 2):
        for nl in ((None,) if n == 1 else (False, True)): ctx.attempt('call', 'first argument', lambda: call(ctx, f, node, n, nl))
    for name in ('ifdef', 'include'): ctx.attempt('first', M.where(name), lambda: first(ctx, M, name))
    for name in SINGLE: ctx.attempt('single', M.where(name), lambda: single(ctx, M, name))
    for name in ('reverse', 'sort'): ctx.attempt('spacing', M.where(name), lambda: spacing(ctx, M, name))


def accessors(ctx, k):
    for fn, w in (('leading_whitespace', None), ('set_leading_whitespace', 'new')):
        f = ctx.fn(PNF + fn)
        if f is None: return
        node = param(f, 'ParseNode')
        g = ctx.explore(f, setup=lambda e, st: variant(st, node, PN, k), nodeops=False, opts={'same': ATOM})
        c = Canon(g)
        own = '%s.%s.leading_whitespace' % (c.show(node), k if k in ('List', 'Attribute') else 'atom.0')
        for x in g.exits:
            if w is None:
                ctx.require(x.info['kind'] == 'return' and c.show(x.info['value']) == own, 'accessors', '%s of %s' % (fn, k), 'returns %s' % (c.show(x.info['value']) if x.info.get('value') is not None else x.info['kind']), x.info['span'])
        if w:
            p = [argn(f, i) for i in range(1, f.argc + 1) if argn(f, i) is not node][0]
            own = (k, 'leading_whitespace') if k in ('List', 'Attribute') else ('atom', 'leading_whitespace')
            for x in g.exits:
                st = {c.show(a): b for a, b in x.info['store'].items()}
                good = x.info['kind'] == 'return' and len(st) == 1 and all(b.op == 'with' and changed(b, node, p, k) for b in st.values())
                ctx.require(good, 'accessors', '%s of %s' % (fn, k), 'leaves %s' % {a: c.show(b) for a, b in st.items()}, x.info['span'])
    site_accessors(ctx, k)


def changed(b, node, p, k):
    """b is the node with only its own white space replaced by p."""
    base, path, v = b.args
    if base is not node: return False
    if path[:1] == ('f',) and path[1] == k and path[2] == 'leading_whitespace': return v is p
    # nested: the payload of the variant, with its white space replaced
    return path[:2] == ('f', k) and v.op == 'with' and v.args[1][0] == 'f' and v.args[1][2] == 'leading_whitespace' and v.args[2] is p and v.args[0].op == 'fld'


def variable(ctx, f, node):
    g = scenario(ctx, 'expand_node', lambda e, st: symbol(e, st, node, True))
    b = 'expand_nodes(self, get_variable(self, node.atom.0.value[1..]).Some.0.body).Ok.0'
    ws = '(?:node\\.atom\\.0\\.leading_whitespace|ws\\(node\\))'
    yes = RX(re.escape('Ok(%s{[0]:=with_ws(%s[0], ' % (b, b)) + ws + r'\)\}\)')
    outcomes(ctx, 'variable', g, 'variable use', ['Ok(%s)' % b, yes, RX('Err.*')], complete=False)
    empty(ctx, 'variable', g, 'variable use', b)


def empty(ctx, rule, g, where, b):
    """A result without adjusted white space is empty."""
    n = 0
    for x in g.exits:
        if not is_ok(x): continue
        s = shown(g, x)
        if '{[0]:=' in s: n += 1; continue
        if s == 'Ok([])': continue
        f = {g.canon.show(t): v for t, v in x.info['facts'].items()}
        l = f.get('len(%s)' % (b or re.sub(r'^Ok\((.*)\)$', r'\1', g.canon.show(x.info['value']))))
        ctx.require(l is not None and l[0] and {y.args[1] for y in l[1]} == {0}, rule, where, 'a result that may have nodes keeps its own white space: %s' % s[:300], x.info['span'])
    ctx.require(n > 0, rule, where, 'the white space of the use is never handed on')


def call(ctx, f, node, n, nl):
    def setup(e, st):
        variant(st, node, PN, 'List')
        fact(st, e.length(items(e, node)), kint(n))
        symbol(e, st, e.elem(st, items(e, node), kint(0)), True)
    g = scenario(ctx, 'expand_node', setup)
    head = 'expand_invocation(self, node.List.nodes[0].atom.0.value[1..], node, '
    want = head + ('node.List.nodes[1..]' if n == 1 or nl else "node.List.nodes[1..]{[0]:=with_ws(node.List.nodes[1], '')}") + ')'
    short_ = RX(re.escape(head) + r"(\[\]|\[.*\])\)")
    n_ = 0
    for x in g.exits:
        f = {g.canon.show(t): v for t, v in x.info['facts'].items()}
        has = f.get("str_contains(ws(node.List.nodes[1]), '\\n')")
        if nl is not None:
            if has is None:
                ctx.violation('first argument', 'macro call', x.info['span'], 'a call goes on without looking for a line break before the first argument')
                continue
            if has != (True, frozenset([TRUE if nl else FALSE])): continue
        n_ += 1
        s = shown(g, x)
        good = s == want
        if not good and n == 1: good = s == head + '[])'
        if not good and n == 2: good = s == head + ("[with_ws(node.List.nodes[1], '')])" if not nl else '[node.List.nodes[1]])')
        ctx.require(good, 'first argument', 'call with %d argument(s)%s' % (n - 1, '' if nl is None else ', on a new line' if nl else ', on the same line'), 'continues with %s' % s[:300], x.info['span'])
    ctx.floor('calls', n_, 1)


def first(ctx, M, name):
    g = M.get(name, extra=INCLUDE)
    w = M.where(name)
    ws = 'ws\\(node\\)'
    vals = set()
    for x in g.exits:
        if not is_ok(x): continue
        s = shown(g, x)
        m = re.fullmatch(r'Ok\((.*)\{\[0\]:=with_ws\((.*)\[0\], (.*?)\)\}\)', s)
        if '{[0]:=' in s:
            ctx.require(m and m.group(1) == m.group(2) and re.fullmatch(ws, m.group(3)), 'first', w, 'the first node of the result gets %s' % s[-120:], x.info['span'])
    empty(ctx, 'first', g, w, None)


def single(ctx, M, name):
    g = M.get(name)
    n = 0
    for x in g.exits:
        if not is_ok(x): continue
        s = shown(g, x)
        if s == 'Ok([])' and name == 'markdown': continue
        n += 1
        ctx.require(re.fullmatch(r'Ok\(\[ParseNode::\w+[({].*leading_whitespace: (ws\(node\)|node\.List\.leading_whitespace)\}\)?\]\)', s), 'single', M.where(name), 'does not carry the white space of the call: ...%s' % s[-160:], x.info['span'])
    ctx.floor(name, n, 1)


def spacing(ctx, M, name):
    g = M.get(name)
    n = 0
    for x in g.exits:
        if not is_ok(x): continue
        n += 1
        s = shown(g, x)
        ctx.require(re.search(r'each\{with_ws\(.*, ws\(@1\.List\.nodes\[i\]\)\)\}', s), 'spacing', M.where(name), 'items do not take the white space of their new position: %s' % s[:300], x.info['span'])
    ctx.floor(name, n, 1)
