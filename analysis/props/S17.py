"""Arguments are evaluated exactly once, and only when used."""
from macros import *
from props.S22 import INCLUDE

TECHNIQUE = 'path languages of the evaluation operations of every macro (automata inclusion over the abstract exploration)'
NOTE = 'a macro applied by name (apply, map, filter, the key of sort) is a call of its own, which evaluates what it is given'
MIN_OBLIGATIONS = 36

E1 = 'expand_nodes(self, params)'
A1, A0 = 'args(node, P)', 'args(node, params)'
rx = lambda s: sym(re.compile(s))
MORE = {
    'map': cat_(sym(E1), sym(A1), opt(loop('R')), loop('R', sym(INV))),
    'filter': cat_(sym(E1), sym(A1), opt(loop('R')), loop('R', sym(INV))),
    'apply': cat_(sym(E1), sym(A1), opt(loop('R')), sym('expand_invocation(self, $1, node, R)')),
    'sort': cat_(sym(E1), sym(A1), opt(loop('@1.List.nodes')), loop('@1.List.nodes', rx(r"expand_invocation\(self, ('do'|\$'key'), node, \[@1\.List\.nodes\[i\]\]\)"))),
}
SEQS = {'map': ('R',), 'filter': ('R',), 'apply': ('R',), 'sort': ('@1.List.nodes',)}
EVAL = ('expand_nodes', 'expand_node', 'expand_invocation', 'bind', 'bind_list', 'get_variable', 'has_variable', 'args', 'parse')


def check(ctx):
    M = Macros(ctx)
    eager = [n for n in NAMES if n not in LAZY and n != 'include']
    for name in eager: ctx.attempt('once', M.where(name), lambda: once(ctx, M, name))
    ctx.attempt('include', M.where('include'), lambda: include(ctx, M))
    for n in ('define', 'match', 'ifdef', 'for', 'lambda', 'namespace'):
        ctx.attempt('lazy', M.where(n), lambda: globals()[n + '_'](ctx, M))
    ctx.attempt('user', 'user macro', lambda: user(ctx))
    ctx.attempt('sequence', 'expand_nodes', lambda: sequence(ctx))


def lang(ctx, g, w, spec, seqs=(), calls=EVAL, outcome=()):
    n = len(ctx.obligations)
    ctx.language('evaluation ' + w, g, effects(seqs, calls, outcome), spec, canon=g.canon)


def once(ctx, M, name):
    g = M.get(name)
    spec = MORE.get(name) or cat_(sym(E1), opt(sym(A1)))
    lang(ctx, g, M.where(name), spec, SEQS.get(name, ()))


def include(ctx, M):
    g = M.get('include', extra=INCLUDE)
    def ev(e, c):
        if e[0] == 'call' and short(e[1]) in EVAL: return [abbr('%s(%s)' % (short(e[1]), ', '.join(c.show(x) for x in e[2])))]
        if e[0] == 'lt':
            m = more(e, c)
            if m and m[1].startswith('parse('): return [m[0]]
        return None
    tree = r'parse\(register_parser\(self, .*\)\.Ok\.0'
    each = cat_(star(cat_(sym('more'), rx(r'expand_node\(self, %s\[i\]\)' % tree))), sym('end'))
    ctx.language('evaluation (%include ...)', g, ev, cat_(sym(E1), rx(r'parse\(register_parser\(self, .*'), alt(each, rx(r'expand_nodes\(self, %s\)' % tree))), canon=g.canon)


def define_(ctx, M):
    f = ctx.fn(EX + 'expand_invocation')
    ps = param(f, r'\[.*ParseNode')
    for kind in ('Symbol', 'List'):
        g = invoke(ctx, 'define', setup=lambda e, st: variant(st, e.elem(st, ps, kint(0)), PN, kind))
        w = '(%%define %s ...)' % ('name' if kind == 'Symbol' else '(name ...)')
        calls = EVAL + ('insert_variable',)
        if kind == 'Symbol':
            v = 'insert_variable(self, params[0].atom.0.value, Macro{name: params[0].atom.0.value, params: [], body: expand_nodes(self, params[1..]).Ok.0})'
            lang(ctx, g, w, cat_(sym('expand_nodes(self, params[1..])'), sym(v)), calls=calls)
        else:
            n = 'params[0].List.nodes[0].atom.0.value'
            lang(ctx, g, w, sym('insert_variable(self, %s, Macro{name: %s, params: params[0].List.nodes[1..], body: params[1..]})' % (n, n)), calls=calls)


def lambda_(ctx, M):
    lang(ctx, M.get('lambda'), '(%lambda ...)', cat_(sym(A0), rx(r'insert_variable\(self, .*Macro\{name: .*, params: (\[@1\]( \| @1\.List\.nodes)?|@1\.List\.nodes( \| \[@1\])?|.*@1.*), body: R\}\)')), calls=EVAL + ('insert_variable',))


def ifdef_(ctx, M):
    g = M.get('ifdef')
    q = sym('has_variable(self, params[0].atom.0.value)')
    spec = cat_(q, alt(cat_(sym('has_variable: True'), sym('expand_node(self, params[1])')), cat_(sym('has_variable: False'), opt(sym('expand_node(self, params[2])')))))
    lang(ctx, g, '(%ifdef ...)', spec, outcome=('has_variable',))
    # nothing is evaluated instead of the alternative only when there is none
    for n in (2, 3):
        f = g.fn
        ps = param(f, r'\[.*ParseNode')
        h = invoke(ctx, 'ifdef', setup=lambda e, st: fact(st, e.length(ps), kint(n)))
        s = cat_(q, alt(cat_(sym('has_variable: True'), sym('expand_node(self, params[1])')), cat_(sym('has_variable: False'), sym('expand_node(self, params[2])')) if n == 3 else sym('has_variable: False')))
        lang(ctx, h, '(%%ifdef ...) with %d arguments' % n, s, outcome=('has_variable',))


def match_(ctx, M):
    g = M.get('match')
    b = 'bind(clone(self), expand_node(self, params[i+1].List.nodes[0]).Ok.0[0], expand_node(self, params[0]).Ok.0[0])'
    pre = cat_(sym(('more', 'params')), sym('expand_node(self, params[i+1].List.nodes[0])'), sym('clone(self)'), sym(b))
    spec = cat_(sym('expand_node(self, params[0])'), star(cat_(pre, sym('bind: Err'))),
                alt(sym(('end', 'params')), cat_(pre, sym('bind: Ok'), sym('expand_nodes(clone(self), params[i+1].List.nodes[1..])'))))
    lang(ctx, g, '(%match ...)', spec, ('params',), EVAL + ('clone',), ('bind',))


def for_(ctx, M):
    g = M.get('for')
    items = 'expand_nodes(self, @3.List.nodes).Ok.0'
    one = cat_(opt(sym('clone(self)')), sym('bind(clone(self), @1, %s[i])' % items), sym('bind: Ok'), sym('expand_nodes(clone(self), R)'))
    spec = cat_(sym(A0), sym('expand_nodes(self, @3.List.nodes)'), opt(sym('clone(self)')), loop(items, one))
    lang(ctx, g, '(%for ...)', spec, (items,), EVAL + ('clone',), ('bind',))


def namespace_(ctx, M):
    lang(ctx, M.get('namespace'), '(%namespace ...)', cat_(sym('clone(self)'), sym('expand_nodes(clone(self), params)')), (), EVAL + ('clone',))


def user(ctx):
    f = ctx.fn(EX + 'expand_invocation')
    if f is None: return
    name = param(f, r'^&.*str$')
    g = ctx.explore(f, anchors=ops(ctx), setup=lambda e, st: fact(st, name, *[kstr(n) for n in NAMES], positive=False), opts={'same': ATOM}, limit=300)
    g.canon = Canon(g)
    n = g.canon.show(name)
    v = 'get_variable(self, %s)' % n
    mine = r'(?:create_subcontext|clone)\(self\)'
    args, new, look = sym(E1), rx(mine), sym(v)
    bind = rx(r'bind_list\(%s, node, %s\.Some\.0\.params, P\)' % (mine, re.escape(v)))
    body = rx(r'expand_nodes\(%s, %s\.Some\.0\.body\)' % (mine, re.escape(v)))
    spec = cat_(alt(cat_(args, look), cat_(look, args)), new, bind, body, opt(sym('remove_subcontext(self)')))
    lang(ctx, g, 'user macro', spec, calls=EVAL + ('create_subcontext', 'clone', 'remove_subcontext'))


def sequence(ctx):
    g = scenario(ctx, 'expand_nodes')
    t = g.canon.show(param(g.fn, r'\[.*ParseNode'))
    lang(ctx, g, 'node sequence', loop(t, sym('expand_node(self, %s[i])' % t)), (t,))
