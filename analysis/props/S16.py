"""Every built-in macro name runs its own implementation."""
from macros import *
from props.S21 import items, symbol
from props.S22 import INCLUDE

TECHNIQUE = 'abstract interpretation of the dispatch for every documented name and for an arbitrary other name: arguments declared, operations performed and form of the results'
NOTE = 'what each implementation does in detail is the subject of S17-S28; here only which one runs, on what'
MIN_OBLIGATIONS = 60

# what distinguishes the implementation: patterns found in (results and operations), patterns not found
S = lambda *a: tuple(a)
SIG = {
    'define': S(r'insert_variable\(self, params\[0\]'),
    'match': S(r'expand_node\(self, params\[0\]\)', r'bind\(clone\(self\)'),
    'ifdef': S(r'has_variable\(self, params\[0\]', r'expand_node\(self, params\[2\]\)'),
    'do': S(r'^result expand_nodes\(self, params\)$'),
    'get': S(r'split\(\$1', r'@2'),
    'raw': S(r'ParseNode::Raw\(', r'P\[i\]\.atom\.0\.value', r'!to_html'),
    'string': S(r'ParseNode::String\(', r'P\[i\]\.atom\.0\.value', r'!replace', r'!read_to_string|!var\('),
    'number': S(r'ParseNode::Number\(R\[i\]'),
    'symbol': S(r'ParseNode::Symbol\(R\[i\]'),
    'include': S(r'parse\(register_parser\(self, parser_for_file\(join\(self\.includes\[i\], P\[0\]'),
    'embed': S(r'read_to_string\(join\(self\.includes\[i\], P\[0\]'),
    'namespace': S(r'expand_nodes\(clone\(self\), params\)', r'insert '),
    'markdown': S(r'to_html_with_options\(\$1'),
    'yaml': S(r'new_from_str\(\$1', r'load\('), 'json': S(r'new_from_str\(\$1', r'load\('),
    'toml': S(r'parse<.*>?\(\$1\)|parse\(\$1\)', r'traverse_'),
    'glob': S(r'glob\(\$1\)'),
    'for': S(r'args\(node, params\)', r'bind\(clone\(self\), @1'),
    'sort': S(r'sorted\(', r'@1\.List', r'expand_invocation', r'!glob\('),
    'reverse': S(r'len\(@1\.List\.nodes\)-i-1'),
    'date': S(r'format\(.*\$1', r'!parse_from_str'),
    'timestamp': S(r'parse_from_str\(\$2, \$1\)'),
    'join': S(r'join\(each\{R\[i\]', r'\$1'),
    'concat': S(r'each\{R\[i\]\.atom\.0\.value\}', r'!join\('),
    'map': S(r'expand_invocation\(self, \$1, node, \[R\[i\]\]\)', r'!each\{- '),
    'filter': S(r'expand_invocation\(self, \$1, node, \[R\[i\]\]\)', r'each\{- '),
    'splat': S(r'P\[i\]\.List\.nodes'),
    'list': S(r'ParseNode::List\{nodes: P,'),
    'strip': S(r"with_ws\(P\[0\], ''\)"),
    'apply': S(r'^result expand_invocation\(self, \$1, node, R\)$'),
    'lambda': S(r'insert_variable\(self, .*site\(node\)'),
    'log': S(r'eprint'),
    'format': S(r'replace_positional|replace\('),
    'os/env': S(r'var\(P\[0\]\.atom\.0\.value\)'),
}
OWNSITE = 'raw string embed markdown date timestamp join concat lambda format'.split()


def check(ctx):
    M = Macros(ctx)
    for name in NAMES: ctx.attempt('runs', M.where(name), lambda: runs(ctx, M, name))
    ctx.attempt('other', 'any other name', lambda: other(ctx))
    f = ctx.fn(EX + 'expand_node')
    if f is None: return
    node = param(f, 'ParseNode')
    ctx.attempt('call', 'macro call', lambda: call(ctx, f, node))
    ctx.attempt('variable', 'variable use', lambda: variable(ctx, f, node))
    ctx.attempt('table', 'definitions', lambda: table(ctx))


def blob(g):
    out = sorted(calls_made(g))
    for i in g.reach:
        for evs, m in g.nodes[i].out:
            for ev in evs:
                if ev[0] in ('insert', 'eprint'): out.append('%s %s' % (ev[0], ' '.join(abbr(g.canon.show(y)) for y in ev[1:] if type(y) is Term)))
    for x in g.exits:
        if is_ok(x): out.append('result ' + shown(g, x))
    return out


def runs(ctx, M, name):
    g = M.get(name, extra=INCLUDE)
    b = blob(g)
    w = M.where(name)
    for p in SIG[name]:
        if p.startswith('!'): ctx.require(not any(re.search(p[1:], x) for x in b), 'runs', w, 'does what another macro does: %s' % p[1:])
        else: ctx.require(any(re.search(p, x) for x in b), 'runs', w, 'never does what it is named for (%s); it does: %s' % (p, '; '.join(b)[:400]))
    # definitions are not looked at, other macros run for this call
    for i in g.reach:
        for evs, m in g.nodes[i].out:
            for e in evs:
                if e[0] != 'call': continue
                h, a = short(e[1]), [abbr(g.canon.show(x)) for x in e[2]]
                if h in ('get_variable', 'has_variable'):
                    ctx.require(name == 'ifdef' and a[1].startswith('params[0]'), 'runs', w + ' itself', 'looks for a definition of %s' % a[1][:100], ctx.span(g, i))
                if h in ('expand_invocation', 'expand_macro', 'apply_macro', 'bind_list'):
                    pos = [y for x, y in zip(e[2], a) if y == 'node']
                    ctx.require(pos, 'location', w + ' calls', '%s is given another call: %s' % (h, ', '.join(a)[:200]), ctx.span(g, i))
    d = g.decl
    if name in DECL:
        ctx.require(set(d.pos) == set(DECL[name][0]) and (d.rest is None) == (DECL[name][1] is None), 'runs', w + ' arguments', 'declares %s' % sorted(map(str, d.pos)))
        ctx.require({tuple(abbr(g.canon.show(x)) for x in c)[0] for c in d.calls} == {'node'}, 'location', w, 'arguments are checked for another call')
    else: ctx.require(not d.calls, 'runs', w + ' arguments', 'declares arguments')
    if name in OWNSITE:
        for x in g.exits:
            if is_ok(x) and 'ParseNode' in shown(g, x):
                ctx.require(', site: site(node), ' in shown(g, x), 'location', w, 'the result is not located at the call: %s' % shown(g, x)[-200:], x.info['span'])


def other(ctx):
    f = ctx.fn(EX + 'expand_invocation')
    name = param(f, r'^&.*str$')
    g = ctx.explore(f, anchors=ops(ctx), setup=lambda e, st: fact(st, name, *[kstr(n) for n in NAMES], positive=False), opts={'same': ATOM}, limit=300)
    c = g.canon = Canon(g)
    n = c.show(name)
    v, sub, args = 'get_variable(self, %s)' % n, 'create_subcontext(self)', 'expand_nodes(self, params)'
    bind = 'bind_list(%s, node, %s.Some.0.params, %s.Ok.0)' % (sub, v, args)
    body = 'expand_nodes(%s, %s.Some.0.body)' % (sub, v)
    mine = r'(?:create_subcontext|clone)\(self\)'
    fix = lambda s: re.escape(abbr(s)).replace(re.escape(sub), mine)
    outcomes(ctx, 'other', g, 'any other name', [RX(r'Ok\(%s\.Ok\.0\)|%s' % (fix(body), fix(body))), RX(r'Err\(%s\.Err\.0\)|%s' % (fix(body), fix(body))), RX(r'Err\(%s\.Err\.0\)' % fix(bind)),
                                                 'Err(%s.Err.0)' % abbr(args), E_(r'.*%s.*, site\(node\)' % re.escape(n))], complete=False)
    ok_ = [x for x in g.exits if x.info['kind'] == 'return' and re.search(fix(body), c.show(x.info['value']))]
    ctx.require(ok_, 'other', 'any other name', 'the definition is never evaluated', f.span)
    none = [x for x in g.exits if x.info['kind'] == 'return' and re.fullmatch(r'Err\(ExpansionError\(.*%s.*, site\(node\)\)\)' % re.escape(n), c.show(x.info['value']))]
    ctx.require(none, 'other', 'undefined name', 'is never an error that names it', f.span)


def call(ctx, f, node):
    def setup(e, st):
        variant(st, node, PN, 'List')
        fact(st, e.length(items(e, node)), kint(0), positive=False)
        symbol(e, st, e.elem(st, items(e, node), kint(0)), True)
    g = scenario(ctx, 'expand_node', setup)
    outcomes(ctx, 'call', g, 'macro call', [RX(r'expand_invocation\(self, node\.List\.nodes\[0\]\.atom\.0\.value\[1\.\.\], node, .*\)')])


def variable(ctx, f, node):
    g = scenario(ctx, 'expand_node', lambda e, st: symbol(e, st, node, True))
    c = g.canon
    n = r'node\.atom\.0\.value\[1\.\.\]'
    v = 'get_variable(self, node.atom.0.value[1..])'
    here = r'(?:node\.atom\.0\.site|site\(node\))'
    body = 'expand_nodes(self, %s.Some.0.body)' % v
    named_ = E_(r'.*%s.*, %s' % (n, here))
    outcomes(ctx, 'variable', g, 'variable use', [RX(re.escape('Ok(%s.Ok.0' % body) + '.*'), RX(re.escape('Err(%s.Err.0)' % body)), named_])
    held = lambda x: {c.show(t): p for t, p in x.info['facts'].items()}
    for x in g.exits:
        if is_ok(x):
            l = held(x).get('len(%s.Some.0.params)' % v)
            ctx.require(l and l[0] and {y.args[1] for y in l[1]} == {0}, 'variable', 'variable use', 'a macro with parameters can be used as a variable', x.info['span'])
    # which errors: undefined, or with parameters
    gg = scenario(ctx, 'expand_node', lambda e, st: symbol(e, st, node, True), opts={'keep': lambda t: t.op == 'discr' and t.args[0].op == 'res' or t.op == 'len'})
    cc = gg.canon
    kinds = set()
    for x in gg.exits:
        if x.info['kind'] == 'return' and fits(named_, shown(gg, x)):
            h = {cc.show(t): p for t, p in x.info['facts'].items()}
            k = h.get('kind(%s)' % v)
            kinds |= {y.args[1] for y in k[1]} if k and k[0] else {'?'}
    ctx.require(kinds == {'None', 'Some'}, 'variable', 'undefined variable', 'errors that name the variable are given when it is %s' % sorted(kinds))


def table(ctx):
    """The operations that read and write definitions do so under the given name in this scope."""
    for fn in ('get_variable', 'has_variable', 'insert_variable'):
        f = ctx.fn(EX + fn)
        if f is None: continue
        g = ctx.explore(f)
        c = Canon(g)
        n = c.show(argn(f, 2))
        key = r'map_get\(\*?self\.definitions, %s\)' % n
        res = {c.show(x.info['value']) if x.info['kind'] == 'return' else x.info['kind'] for x in g.exits}
        if fn == 'insert_variable':
            good = all(x.info['kind'] == 'return' and {c.show(b) for b in x.info['store'].values()} == {'ins(*self.definitions, %s, %s)' % (n, c.show(argn(f, 3)))} for x in g.exits)
            ctx.require(good, 'table', fn, 'leaves %s' % [c.show(b) for x in g.exits for b in x.info['store'].values()], f.span)
            continue
        pats = {'get_variable': (r'Some\(%s\.Some\.0\)|%s' % (key, key), r'None|%s' % key), 'has_variable': (r'\(%s is Some\)|contains_key\(.*definitions, %s\)|True|False' % (key, n),) * 2}[fn]
        good = all(any(re.fullmatch(q, r) for q in pats) for r in res) and all(any(re.fullmatch(q, r) for r in res) for q in pats)
        if fn == 'has_variable' and res & {'True', 'False'}:
            for x in g.exits:
                k = {c.show(t): v for t, v in x.info['facts'].items()}
                k = [v for t, v in k.items() if re.fullmatch(r'kind\(%s\)' % key, t)]
                good = good and k and k[0][0] and {y.args[1] for y in k[0][1]} == {'Some' if c.show(x.info['value']) == 'True' else 'None'}
        ctx.require(good, 'table', fn, 'returns %s' % sorted(res), f.span)
        ctx.require(all(not x.info['store'] for x in g.exits), 'table', fn, 'changes the definitions', f.span)
