"""What every built-in macro is defined to do: its declared arguments, what it evaluates and in
which order, and the nodes it returns. Shared by the macro properties."""
from expand import *

LIT = 'Literal'
NAMES = ('define match ifdef do get raw string number symbol include embed namespace markdown yaml json toml glob for sort '
         'reverse date timestamp join concat map filter splat list strip apply lambda log format os/env').split()
ORDER = ('ascending', 'descending')

# ---- declared arguments: key -> (mandatory, kind, allowed values), rest ------------------------
DECL = {
    'get': ({1: (True, LIT, None), 2: (True, 'Any', None), 'separator': (False, LIT, None)}, None),
    'number': ({}, (LIT, None)), 'symbol': ({}, (LIT, None)), 'concat': ({}, (LIT, None)),
    'markdown': ({1: (True, 'String', None), 'only': (False, LIT, ('content', 'frontmatter')), 'separator': (False, LIT, None)}, None),
    'yaml': ({1: (True, 'String', None), 'separator': (False, LIT, None)}, None),
    'json': ({1: (True, 'String', None), 'separator': (False, LIT, None)}, None),
    'toml': ({1: (True, 'String', None), 'separator': (False, LIT, None)}, None),
    'glob': ({1: (True, LIT, None), 'type': (False, LIT, ('any', 'directory', 'file')),
              'sort': (False, LIT, ('created', 'modified', 'name', 'none', 'type')), 'order': (False, LIT, ORDER)}, None),
    'for': ({1: (True, 'Any', None), 2: (True, 'Symbol', ('in',)), 3: (True, 'List', None)}, ('Any', None)),
    'sort': ({1: (True, 'Any', None), 'order': (False, LIT, ORDER), 'key': (False, 'Symbol', None)}, None),
    'reverse': ({1: (True, 'List', None)}, None),
    'date': ({1: (True, LIT, None), 2: (False, 'Number', None), 'timezone': (False, 'Number', None)}, None),
    'timestamp': ({1: (True, LIT, None), 2: (True, LIT, None), 'timezone': (False, 'Number', None)}, None),
    'join': ({1: (True, LIT, None), 'trailing': (False, LIT, ('false', 'true'))}, (LIT, None)),
    'map': ({1: (True, 'Symbol', None)}, ('Any', None)),
    'filter': ({1: (True, 'Symbol', None)}, ('Any', None)),
    'apply': ({1: (True, 'Symbol', None)}, ('Any', None)),
    'lambda': ({1: (True, 'Any', None)}, ('Any', None)),
}
UNEXPANDED = ('for', 'lambda')      # parse their arguments as written
LAZY = ('define', 'match', 'ifdef', 'for', 'lambda', 'namespace')

P = 'expand_nodes(self, params).Ok.0'


def abbr(s):
    """Shorter names for what the tables mention again and again."""
    s = s.replace(P, 'P').replace('each{parsed().trailing[i]}', 'R').replace('parsed().trailing', 'R')
    s = re.sub(r'param\((\d|\'[a-z]+\')\)\.atom\.0\.value', r'$\1', s)
    s = re.sub(r'param\((\d|\'[a-z]+\')\)', r'@\1', s)
    return s


def node1(kind, value, site='site(node)', ws='ws(node)'):
    return 'Ok([ParseNode::%s(Node{value: %s, site: %s, leading_whitespace: %s})])' % (kind, value, site, ws)


WSED = lambda x: '%s{[0]:=with_ws(%s[0], ws(node))}' % (x, x)
Z = 'east_opt(local_minus_utc(offset(now()))).Some.0'
ZT = "east_opt(to_num(checked_round(checked_mul_int(B0($'timezone').Ok.0, 3600).Some.0).Some.0)).Some.0"
NOTZ = r'(?:(?!local_minus_utc).)*'
RX = re.compile
e1, e2 = 'expand_node(self, params[1]).Ok.0', 'expand_node(self, params[2]).Ok.0'
SP = 'P[i].List.nodes'
INV = 'expand_invocation(self, $1, node, [R[i]])'
UP, DOWN = 'i', r'len\(each\{(?:(?!leading_whitespace: \'\').)*?\}\)-i-1'
GLOB = r"sorted\(each\{- \| ParseNode::String\(Node\{value: to_string_lossy\(glob\(\$1\)\.Ok\.0\[i\]\.Ok\.0\), site: @1\.atom\.0\.site, leading_whitespace: ' '\}\)\}\)\[(?:%s|%s)\]" % (UP, DOWN)
GLOB = r'each\{%s(?: \| %s)?\}' % (GLOB, GLOB)       # in which direction: S26

# ---- results: name -> patterns of the values returned as success ------------------------------
RESULT = {
    'define': ['Ok([])'],
    'match': ['Ok([])', 'expand_nodes(clone(self), params[i+1].List.nodes[1..])'],
    'ifdef': ['Ok([])', 'Ok(%s)' % WSED(e1), 'Ok(%s)' % WSED(e2), 'Ok(%s)' % e1, 'Ok(%s)' % e2],
    'do': ['expand_nodes(self, params)'],
    'get': [RX(r'Ok\(\[fold\{@2; (?=.*@0\.List\.nodes\[(?:fold\{0; @1\+1\}\+)?i\]\.Attribute\.node)(?=.*@0\.List\.nodes\[parse<usize>\(split\(\$1, )(?:@0\.List\.nodes\[(?:(?:fold\{0; @1\+1\}\+)?i\]\.Attribute\.node|parse<usize>\(split\(\$1, (?:\'/\'|\$\'separator\')\)\[i\]\)\.Ok\.0\])(?: \| )?)+\}\]\)')],
    'raw': [node1('Raw', 'each{P[i].atom.0.leading_whitespace + P[i].atom.0.value}')],
    'string': [node1('String', 'each{P[i].atom.0.leading_whitespace + P[i].atom.0.value}')],
    'number': ['Ok(each{ParseNode::Number(R[i].atom.0)})'],
    'symbol': ['Ok(each{ParseNode::Symbol(R[i].atom.0)})'],
    'embed': [node1('String', 'read_to_string(join(self.includes[i], P[0].atom.0.value)).Ok.0')],
    'namespace': None,
    'markdown': ['Ok([])', RX(r'Ok\(\[ParseNode::Raw\(Node\{value: to_html_with_options\(\$1, Options\{.*\}\)\.Ok\.0, site: site\(node\), leading_whitespace: ws\(node\)\}\)\]\)')],
    'yaml': None, 'json': None, 'toml': None,
    'glob': [RX(r'Ok\(' + GLOB + r'\)'), RX(r'Ok\((?P<x>' + GLOB + r")\{\[0\]:=with_ws\((?P=x)\[0\], ''\)\}\)")],
    'for': ['Ok(each{..expand_nodes(clone(self), R).Ok.0})'],
    'sort': ['Ok([ParseNode::List{nodes: each{with_ws(sorted(each{@1.List.nodes[i]})[i], ws(@1.List.nodes[i]))}, site: @1.List.site, end_token: @1.List.end_token, leading_whitespace: ws(node)}])'],
    'reverse': [RX(r'Ok\(\[ParseNode::List\{nodes: each\{with_ws\(@1\.List\.nodes\[len\(@1\.List\.nodes\)-i-1\], ws\(@1\.List\.nodes\[i\]\)\)\}, site: (@1|P\[0\])\.List\.site, end_token: \1\.List\.end_token, leading_whitespace: \1\.List\.leading_whitespace\}\]\)')],
    'date': [RX(re.escape(node1('String', '{format(with_timezone(%s, %s), $1):display}')).replace('%s', '(?:%s)')
                .replace('(?:%s)', '(?:from_timestamp\\(parse<i64>\\(\\$2\\)\\.Ok\\.0, 0\\)\\.Some\\.0|now\\(\\))', 1)
                .replace('(?:%s)', '(?:%s|%s)' % (re.escape(Z), re.escape(ZT))))],
    'timestamp': [RX(re.escape(node1('Number', '{timestamp(earliest(from_local_datetime(%s, parse_from_str($2, $1).Ok.0)).Some.0):display}' % Z)).replace('earliest', '(?:earliest|latest|single)')),
                  RX(re.escape(node1('Number', '{timestamp(earliest(from_local_datetime(%s, parse_from_str($2, $1).Ok.0)).Some.0):display}' % ZT)).replace('earliest', '(?:earliest|latest|single)')),
                  node1('Number', '{timestamp(parse_from_str($2, $1).Ok.0):display}')],
    'join': [node1('String', 'join(each{R[i].atom.0.value}, $1)'), node1('String', '"join(each{R[i].atom.0.value}, $1) + $1"')],
    'concat': [node1('String', 'each{R[i].atom.0.value}')],
    'map': ['Ok(each{..%s.Ok.0})' % INV],
    'filter': [RX(r'Ok\(each\{- \| \.\.%s\.Ok\.0( \| %s\.Ok\.0\[0\])?\}\)' % (re.escape(INV), re.escape(INV)))],
    'splat': [re.compile(r'Ok\(each\{(?:\.\.%s \| )?\.\.%s\{\[0\]:=with_ws\(%s\[0\], P\[i\]\.List\.leading_whitespace\)\} \| P\[i\]\}\)' % ((re.escape(SP),) * 3))],
    'list': ['Ok([ParseNode::List{nodes: P, site: node.List.site, end_token: node.List.end_token, leading_whitespace: node.List.leading_whitespace}])'],
    'strip': ["Ok(P{[0]:=with_ws(P[0], '')})", 'Ok(P)'],
    'apply': ['expand_invocation(self, $1, node, R)'],
    'lambda': [RX(r'Ok\(\[ParseNode::Symbol\(Node\{value: .*site\(node\).*, site: site\(node\), leading_whitespace: ws\(node\)\}\)\]\)')],
    'log': ['Ok([])'],
    'format': [node1('String', 'text(fold{new(P[0].atom.0.value).Ok.0; upd(replace(@0, P[i+1].Attribute.keyword, P[i+1].Attribute.node.atom.0.value), 0) | upd(replace_positional(@0, P[i+1].atom.0.value), 0)}).Ok.0')],
    'os/env': [node1('String', 'var(P[0].atom.0.value).Ok.0', 'P[0].atom.0.site', 'P[0].atom.0.leading_whitespace')],
}


class Macros:
    """Explorations of the macros of one run, shared between rules."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}

    def get(self, name, **kw):
        k = (name, repr(sorted(kw.items(), key=lambda x: x[0])))
        if k not in self.memo:
            g = invoke(self.ctx, name, **kw)
            self.memo[k] = g
        return self.memo[k]

    def where(self, name): return '(%%%s ...)' % name


def fits(pat, s):
    return pat.fullmatch(s) is not None if isinstance(pat, re.Pattern) else pat == s


def results(ctx, rule, g, where, pats, more_ok=False):
    """Every successful result has one of the given forms, and every form occurs."""
    seen = set()
    good = True
    n = 0
    for x in g.exits:
        if not is_ok(x): continue
        n += 1
        s = abbr(g.canon.show(x.info['value']))
        hit = [i for i, p in enumerate(pats) if fits(p, s)]
        seen.update(hit)
        if not hit:
            good = False
            ctx.violation(rule, where, x.info['span'], 'returns %s; defined is one of: %s' % (s[:700], ' / '.join(p.pattern if isinstance(p, re.Pattern) else p for p in pats)[:900]))
    if good and n: ctx.ok(rule, where, '%d results' % n)
    for i, p in enumerate(pats):
        if i not in seen and n and not more_ok and good:
            ctx.violation(rule + ':missing', where, g.fn.span, 'no path returns %s' % (p.pattern if isinstance(p, re.Pattern) else p)[:700])
    if not n: ctx.violation(rule + ':missing', where, g.fn.span, 'no path reports success')
    return good


CALLS = ('expand_nodes', 'expand_node', 'expand_invocation', 'bind', 'bind_list', 'insert_variable', 'get_variable', 'has_variable',
         'register_parser', 'create_subcontext', 'remove_subcontext', 'clone', 'args')


def effects(seqs=(), calls=CALLS, outcome=()):
    """Event map: evaluations and bindings, and the rounds of the loops over the given sequences."""
    def f(ev, c):
        if ev[0] == 'call' and short(ev[1]) in calls:
            return [abbr('%s(%s)' % (short(ev[1]), ', '.join(c.show(x) for x in ev[2])))]
        if ev[0] == 'lt':
            m = more(ev, c)
            if m and abbr(m[1]) in seqs: return [(m[0], abbr(m[1]))]
        if ev[0] == 'is' and ev[1].op == 'res' and short(ev[1].args[2]) in outcome:
            return ['%s: %s' % (short(ev[1].args[2]), '|'.join(ev[2]))]
        if ev[0] == 'insert' and 'insert' in calls: return ['insert %s %s = %s' % tuple(abbr(c.show(x)) for x in ev[1:4])]
        return None
    return f


def loop(seq, *body):
    return cat_(star(cat_(sym(('more', seq)), *body)), sym(('end', seq)))


def fits_any(pats, s): return any(fits(p, abbr(s)) for p in pats)


def filled(n, c):
    """Sequences given one item in every round of one loop have one length."""
    if n.op != 'len': return None
    t = n.args[0]
    while t.op == 'call' and t.args[0] in ('sorted', 'reverse'): t = t.args[1][0]
    if t.op != 'phi': return None
    k = c.phi(t)
    if k[0] != 'acc' or len(k[1]) != 1 or k[1][0] is not EMPTYSEQ: return None
    if all(b.op == 'seq' and len(b.args[0]) == 2 and b.args[0][0] == ('s', t) and b.args[0][1][0] == 'i' for b in k[2]): return 'what loop %s of %s fills' % (t.args[1], id(t.args[0]))


def rounds(ctx, rule, g, where, early=()):
    """On successful paths, every loop over a sequence goes on to its end, from its first item."""
    def seen(ev, c):
        m = more(ev, c)
        if not m or not re.search(r'(?<![a-z])i\b', m[2]): return None
        return m[0], m[1] if fits_any(early, m[1]) else filled(ev[2], c) or m[1]
    seqs = set()
    for i in g.reach:
        for evs, m in g.nodes[i].out:
            for ev in evs:
                if ev[0] == 'lt':
                    m2 = seen(ev, g.canon)
                    if m2: seqs.add(m2[1])
    for s in sorted(seqs):
        if fits_any(early, s): continue
        def one(ev, c, s=s):
            m = seen(ev, c) if ev[0] == 'lt' else None
            return [m[0]] if m and m[1] == s else None
        spec = star(cat_(star(sym('more')), sym('end')))
        n = automaton(g, one, is_ok, g.canon)
        r = included(n, spec)
        if r is None: ctx.ok(rule, '%s: %s' % (where, abbr(s)))
        else: ctx.violation(rule, where, ctx.span(g, r[2][0]) if r[2] else g.fn.span, 'a successful run can leave the loop over %s before its end' % abbr(s))


# ---- scenarios: one function under assumptions, all of its outcomes ---------------------------
def scenario(ctx, fn, setup=None, extra=None, drop=(), opts=None, limit=200):
    """A function of the expander with every other expansion operation named."""
    f = ctx.fn(fn if '::' in fn else EX + fn)
    if f is None: raise AnalysisError('function %s not found' % fn)
    a = ops(ctx, drop=drop + (f.name,))
    a.update(extra or {})
    g = ctx.explore(f, anchors=a, setup=setup, limit=limit, opts=dict({'same': ATOM}, **(opts or {})))
    g.canon = Canon(g)
    return g


def param_of(g, ty):
    """The only parameter whose type mentions ty."""
    return param(g.fn, ty)


def param(f, ty):
    l = [argn(f, i) for i in range(1, f.argc + 1) if re.search(ty, f.locals[i][0])]
    if len(l) != 1: raise AnalysisError('%s has %d parameters of type %s' % (f.path, len(l), ty))
    return l[0]


def shown(g, x):
    return abbr(g.canon.show(x.info['value'])) if x.info.get('value') is not None else x.info['kind']


def outcomes(ctx, rule, g, where, pats, panics=False, complete=True):
    """Every way the function ends is one of the given ones, and each of them occurs."""
    seen = set()
    good = True
    for x in g.exits:
        if x.info['kind'] == 'unreachable': continue
        if x.info['kind'] != 'return':
            if not panics: continue
        s = shown(g, x)
        hit = [i for i, p in enumerate(pats) if fits(p, s)]
        seen.update(hit)
        if not hit:
            good = False
            ctx.violation(rule, where, x.info['span'], 'can end with %s; defined: %s' % (s[:600], ' / '.join(p.pattern if isinstance(p, re.Pattern) else p for p in pats)[:900]))
    for i, p in enumerate(pats):
        if i not in seen and good and complete:
            good = False
            ctx.violation(rule, where, g.fn.span, 'never ends with %s' % (p.pattern if isinstance(p, re.Pattern) else p)[:600])
    if good: ctx.ok(rule, where, '%d outcomes' % len(g.exits))
    return good


def calls_made(g, accept=None):
    """All operations on any path, as text."""
    out = {}
    for i in g.reach:
        for evs, m in g.nodes[i].out:
            for ev in evs:
                if ev[0] == 'call': out.setdefault(abbr('%s(%s)' % (short(ev[1]), ', '.join(g.canon.show(x) for x in ev[2]))), i)
    return out


def E_(rest): return RX(r'Err\(ExpansionError\((?:%s)\)\)' % rest)


def site_accessors(ctx, k):
    """The place of a node of kind k is its own."""
    for fn in ('site', 'owned_site'):
        f = ctx.fn(PNF + fn)
        node = param(f, 'ParseNode')
        g = ctx.explore(f, setup=lambda e, st: variant(st, node, PN, k), nodeops=False, opts={'same': ATOM})
        c = Canon(g)
        own = '%s.%s.site' % (c.show(node), k if k in ('List', 'Attribute') else 'atom.0')
        vals = {c.show(x.info['value']) for x in g.exits if x.info['kind'] == 'return'}
        ctx.require(vals == {own}, 'accessors', '%s of %s' % (fn, k), 'returns %s' % sorted(vals), f.span)
