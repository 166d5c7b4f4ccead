"""Errors are reported where they are."""
from macros import *
import parsing
from props import S06

TECHNIQUE = 'abstract interpretation: place and nearest deciding condition of every error each macro can raise'
NOTE = 'an error about an argument may be reported at the call; which of the two is a matter of taste'
MIN_OBLIGATIONS = 300

# what an error can be about: the call, an argument, what evaluating one gave
ROOT = r"(?:node\b|params\[|param\(|expand_nodes\((?:clone\()?self\)?, params|expand_node\((?:clone\()?self\)?, params|expand_invocation\(self, |parsed\(\)\.trailing)"
# steps whose errors are passed on as they are
INNER = r'(?:expand_\w+|bind|bind_list|badargs|notgiven|check\w*|test|create_macro|get)\b'
# steps that are told which node their errors are about, and as which argument
CALLS = {'args': 0, 'bind_list': 1, 'expand_invocation': 2}
OWN = re.compile(r'^seam::parse::macros::(?:.*::)?(?:check_node|check|check_all|new|get|extract_\w+)$|::(?:bind|bind_list|create_macro|apply_macro|expand_macro|expand_node)$')
INCLUDE = {'seam::parse::parser_for_file': named('parser_for_file', havoc=False), 'seam::parse::parser::Parser::parse': named('parse', havoc=False)}


def nearest(g, nid, about):
    """The last decisions about an argument before an exit, on every path to it."""
    out, seen, todo = set(), {nid}, [nid]
    while todo:
        n = todo.pop()
        for p in set(g.nodes[n].inn):
            for ev, t in g.nodes[p].out:
                if t != n: continue
                d = [e for e in ev if e[0] in ('is', 'lt', 'kind', 'eq', 'given', 'pred') and about(e)]
                if d: out.add(d[-1])
                elif p not in seen:
                    seen.add(p)
                    todo.append(p)
    return out


def check(ctx):
    for k in ('Symbol', 'Number', 'String', 'Raw', 'List', 'Attribute'): ctx.attempt('accessors', k, lambda: site_accessors(ctx, k))
    # strings that are never closed are reported by the reader; every message shows the place it is given
    ctx.attempt('lines', 'consume', lambda: S06.lines(ctx))
    ctx.attempt('views', 'Site', lambda: S06.views(ctx))
    ctx.attempt('reading', 'parse_expr', lambda: reading(ctx))
    for f in sorted(ctx.F.fns.values(), key=lambda f: f.path):
        if re.match(r"(?:std::result::)?Result<.*ExpansionError<", f.locals[0][0]) and OWN.search(f.path): ctx.attempt('raised', f.path, lambda: helper(ctx, f))
    for name in sorted(NAMES): ctx.attempt('raised', '(%%%s ...)' % name, lambda: raised(ctx, name))


def subject(s):
    """What a place is the place of."""
    if s.startswith('site(') and s.endswith(')'): return s[5:-1]
    m = re.fullmatch(r'(.*?)(?:\.atom\.0|\.List|\.Attribute)?\.site', s)
    return m.group(1) if m else None


def reading(ctx):
    """What cannot be read is reported where its first token is."""
    g = parsing.explore(ctx, 'parse_expr')
    c = g.canon = Canon(g)
    n = 0
    for x in g.exits:
        if x.info['kind'] != 'return' or is_ok(x): continue
        s = c.show(x.info['value'])
        if re.fullmatch(r'Err\((?:From\()?(?:token|expr)\(.*\)\.Err\.0\)+', s): continue
        n += 1
        ctx.require(re.search(r'ParseError\((?s:.*), token\(start\)\.Ok\.0\.site\)+$', s) or re.fullmatch(r'Err\(From\(escape_string\(token\(start\)\.Ok\.0\.value, token\(start\)\.Ok\.0\.site\)\.Err\.0\)\)', s),
                    'reading', 'parse_expr', 'what begins at the first token is reported as %s' % s[:200], ctx.span(g, x.id))
    ctx.require(n, 'reading', 'parse_expr', 'nothing is reported')


def raised(ctx, name):
    kinds = lambda x, adt: adt in (PN, OPT, RES)
    o = {'kinds': kinds, 'eqs': True}
    if name == 'include': g = invoke(ctx, name, extra=INCLUDE, opts=o)
    else: g = invoke(ctx, name, opts=dict(o, keep=lambda t: t.op == 'discr'))
    judge(ctx, g, '(%%%s ...)' % name)


def helper(ctx, f):
    """What checks, extracts, binds or looks up an argument reports errors at what it was given."""
    kinds = lambda x, adt: adt in (PN, OPT, RES)
    a = {k: v for k, v in ops(ctx).items() if k != f.path}
    for h in ('check', 'check_all', 'check_node'):
        for q in ctx.F.fns.values():
            if q.path.startswith(MA) and q.path != f.path and q.path.endswith('::' + h): a[q.path] = named(h, havoc=False)
    g = ctx.explore(f, anchors=a, opts={'same': ATOM, 'kinds': kinds, 'eqs': True, 'keep': lambda t: t.op == 'discr'})
    g.canon = Canon(g)
    given = [f.locals[i][1] for i in range(1, f.argc + 1) if f.locals[i][1] and re.search(r'\b(?:ParseNode|ParseTree|Node|Site)\b', f.locals[i][0]) and f.locals[i][1] != 'self']
    if f.path.endswith('::bind'): given = given[-1:]   # it is the value that does not fit
    judge(ctx, g, f.path, r'(?:\b(?:%s)\b|\bself\.call_node\b)' % '|'.join(map(re.escape, given)),
          # the list whose items are bound, the call whose arguments are checked
          (f.locals[2][1],) if re.search('::(?:bind_list|new)$', f.path) else ('node', 'self.call_node'))


def judge(ctx, g, where, root=ROOT, whole=('node',)):
    c = g.canon
    # the call whose errors an inner step reports is this one, or the list it is given the items of
    for e in {e for n in g.nodes for ev, _ in n.out for e in ev if e[0] == 'call' and short(e[1]) in CALLS}:
        i = CALLS[short(e[1])]
        if len(e[2]) <= i: continue
        at = c.show(e[2][i])
        ctx.require(at in whole or at == 'node' or c.show(e[2][-1]).startswith(at + '.List.nodes'), 'passed', '%s calls %s' % (where, short(e[1])), 'errors are reported at %s, not at the call' % at[:120], g.fn.span)
    for x in g.exits:
        if x.info['kind'] != 'return' or is_ok(x): continue
        v = x.info['value']
        s = c.show(v)
        v = g.engine.field(v, 'Err', '0')
        if v.op != 'agg' and re.match(INNER, c.show(v)):
            ctx.require(True, 'inner', where, s)
            continue
        if v.op != 'agg' or v.args[1] != 'ExpansionError': raise AnalysisError('error not understood: %s' % s[:120])
        at, msg = c.show(v.args[3][1]), c.show(v.args[3][0])
        sub = subject(at)
        if sub is not None and sub.startswith('[]['): continue    # an item of an empty list: there is none
        span = ctx.span(g, x.id)
        what = '%s error %s' % (where, msg.strip('"\'')[:50])
        many = sub is None and 'site' in at and not at.startswith('Site')
        if many: sub = at
        if not ctx.require(sub is not None, 'place', what, 'reported at %s, which is no place in the call' % at[:120], span): continue
        ctx.require(re.search(root, sub), 'place', what, 'reported at %s, which is no part of the call' % at[:160], span)
        if many or sub in whole: continue
        ds = nearest(g, x.id, lambda e: any(type(y) is Term and re.search(root, c.show(y)) for y in e[1:]))
        for d in ds:
            t = [c.show(y) for y in d[1:] if type(y) is Term]
            about = any(sub in y or 'len(%s)' % base(sub) in y for y in t)
            ctx.require(about, 'subject', what, 'is decided by %s and reported at %s' % (' '.join(t)[:160], at[:100]), span)


def base(s):
    """The list something is an item of."""
    if not s.endswith(']'): return s
    i, d = len(s), 0
    while i:
        i -= 1
        d += {']': 1, '[': -1}.get(s[i], 0)
        if not d: break
    return s[:i] or s
