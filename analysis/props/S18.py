"""Bindings stay in their scope."""
from macros import *
from props.S22 import INCLUDE

TECHNIQUE = 'effect analysis: the scope every binding and definition of every macro goes to, copies of scopes, and the types that hold them'
NOTE = 'what is bound under which name is the subject of S19 and S27'
MIN_OBLIGATIONS = 60

DEFINES = {'define': RX(r'params\[0\].*'), 'lambda': RX(r'.*__lambda.*')}
LOADS = ('yaml', 'json', 'toml', 'markdown')
BIND = ('bind', 'bind_list')


def check(ctx):
    M = Macros(ctx)
    for name in NAMES: ctx.attempt('scope', M.where(name), lambda: scope(ctx, name, M.get(name, extra=INCLUDE)))
    ctx.attempt('fresh', '(%match ...)', lambda: fresh(ctx, M))
    ctx.attempt('scope', 'user macro', lambda: user(ctx))
    ctx.attempt('namespace', '(%namespace ...)', lambda: namespace(ctx, M))
    ctx.attempt('copy', 'clone', lambda: copy(ctx))
    ctx.attempt('subcontext', 'create_subcontext', lambda: subcontext(ctx))
    ctx.attempt('bind', 'bind', lambda: binds(ctx))
    ctx.attempt('owned', 'types', lambda: owned(ctx))


def scope(ctx, name, g):
    """Bindings go to copies only; definitions to this scope, and only where the macro defines."""
    w = '(%%%s ...)' % name if name else 'user macro'
    fresh = r'(?:clone|create_subcontext)\(self\)'
    n = 0
    for i in g.reach:
        for evs, m in g.nodes[i].out:
            for ev in evs:
                if ev[0] == 'call':
                    f = short(ev[1])
                    a = [g.canon.show(x) for x in ev[2]]
                    if f in BIND:
                        n += 1
                        ctx.require(re.fullmatch(fresh, a[0]), 'scope', '%s: %s' % (w, f), 'binds into %s' % a[0], ctx.span(g, i))
                    elif f == 'insert_variable':
                        ok_ = a[0] == 'self' and (name in LOADS or name in DEFINES and fits(DEFINES[name], a[1]))
                        ctx.require(ok_, 'scope', '%s: definition' % w, 'defines %s in %s' % (a[1][:100], a[0]), ctx.span(g, i))
                    elif f in ('get_variable', 'has_variable'):
                        ctx.require(a[0] == 'self', 'scope', '%s: lookup' % w, 'looks up in %s' % a[0], ctx.span(g, i))
                    elif f in ('clone', 'create_subcontext', 'remove_subcontext'):
                        ctx.require(a[0] == 'self', 'scope', '%s: copy' % w, 'copies %s' % a[0], ctx.span(g, i))
                elif ev[0] in ('insert', 'mut', 'set', 'push', 'pop', 'extend', 'ext'):
                    t = abbr(g.canon.show(ev[1])) if type(ev[1]) is Term else str(ev[1])
                    if 'definitions' in t:
                        good = name == 'namespace' and ev[0] == 'insert' and t.lstrip('*') == 'self.definitions'
                        good = good or (ev[0] == 'ext' and not any(type(x) is Term and 'definitions' in g.canon.show(x) and x.op != 'call' for x in ev[2:3]) and 'clone(self)' in t)
                        if ev[0] != 'ext': ctx.require(good, 'scope', '%s: %s' % (w, ev[0]), 'changes %s' % t[:200], ctx.span(g, i))
    # on exit only the scope of this context may have changed, and only as defined
    for x in g.exits:
        for a, b in x.info['store'].items():
            s = g.canon.show(a)
            if 'definitions' not in s: continue
            ctx.require(name == 'namespace' and s.lstrip('*') == 'self.definitions', 'scope', '%s: left behind' % w, 'changes %s' % s[:200], x.info['span'])
    ctx.ok('scope', w, '%d bindings' % n)
    if name in ('match', 'for') or name is None: ctx.floor('bindings of ' + w, n, 1)


def fresh(ctx, M):
    """What one pattern bound before it failed is not there for the next one."""
    g = M.get('match')
    def ev(e, c):
        if e[0] != 'call': return None
        f = short(e[1])
        if f in ('clone', 'create_subcontext'): return ['copy']
        return ['bind'] if f in BIND else None
    ctx.language('fresh', g, ev, cat_(star(cat_(plus(sym('copy')), sym('bind'))), star(sym('copy'))), canon=g.canon)


def user(ctx):
    f = ctx.fn(EX + 'expand_invocation')
    if f is None: return
    name = param(f, r'^&.*str$')
    g = ctx.explore(f, anchors=ops(ctx), setup=lambda e, st: fact(st, name, *[kstr(n) for n in NAMES], positive=False), opts={'same': ATOM}, limit=300)
    g.canon = Canon(g)
    scope(ctx, None, g)
    v = 'get_variable(self, %s)' % g.canon.show(name)
    bodies = [c for c in calls_made(g) if c.startswith('expand_nodes(') and '.body)' in c]
    ctx.require(bodies, 'scope', 'user macro: body', 'the body is never evaluated', f.span)
    for b in bodies: ctx.require(re.match(r'expand_nodes\((clone|create_subcontext)\(self\), ', b), 'scope', 'user macro: body', 'evaluates its body by %s' % b, f.span)


def namespace(ctx, M):
    g = M.get('namespace')
    c = g.canon
    ins, n = set(), 0
    for i in g.reach:
        for evs, m in g.nodes[i].out:
            for ev in evs:
                if ev[0] == 'insert': ins.add(tuple(c.show(x).lstrip('*') for x in ev[1:4]))
    e = 'expand_nodes(clone(self), params).Ok.0'
    ent = r'entries\(\*clone\(self\)\.definitions\)\[i\]'
    key = re.escape('"%s[0].atom.0.value + ' % e) + r"(?P<sep>'/'|%s\[[^ ]*\]\.Attribute\.node\.atom\.0\.value|fold\{'/'; (?:@0 \| )?%s\[[^ ]*\]\.Attribute\.node\.atom\.0\.value(?: \| @0)?\}) \+ %s\.0\"" % (re.escape(e), re.escape(e), ent)
    w = '(%namespace ...)'
    ctx.require(ins, 'namespace', w, 'exports nothing', g.fn.span)
    for t, k, v in ins:
        ctx.require(t == 'self.definitions', 'namespace', w, 'exports to %s' % t, g.fn.span)
        ctx.require(re.fullmatch(key, k), 'namespace', w, 'exports under the name %s' % k, g.fn.span)
        ctx.require(re.fullmatch(ent + r'\.1', v), 'namespace', w, 'exports the value %s' % v, g.fn.span)
    # every definition, once, on every successful path
    def ev(ev, c):
        if ev[0] == 'insert': return ['export']
        if ev[0] == 'lt':
            m = more(ev, c)
            if m and m[1].startswith('entries('): return [m[0]]
        return None
    ctx.language('namespace', g, ev, cat_(star(cat_(sym('more'), sym('export'))), sym('end')), canon=c)
    for x in g.exits:
        if not is_ok(x): continue
        s = c.show(x.info['value'])
        ctx.require(re.fullmatch(r'Ok\(each\{%s\[.*\]\}\)|Ok\(%s\[.*\.\.\]\)' % (re.escape(e), re.escape(e)), s), 'namespace', w + ' result', 'returns %s' % s[:300], x.info['span'])


def copy(ctx):
    f = ctx.fn(CLONE)
    if f is None: return
    g = ctx.explore(f)
    c = Canon(g)
    for x in g.exits:
        v = x.info['value']
        if x.info['kind'] != 'return' or v.op != 'agg':
            ctx.violation('copy', 'clone', x.info['span'], 'a copy of a scope is %s' % x.info['kind'])
            continue
        me = c.show(argn(f, 1))
        for n, y in zip(v.args[2], v.args[3]):
            ctx.require(re.fullmatch(r'\*?(%s\.)%s' % (re.escape(me), n), c.show(y)) or (n == 'subcontexts' and c.show(y) in ('[]', 'new([])', 'RefCell(new())')), 'copy', 'Expander.' + n, 'is %s in the copy' % c.show(y), x.info['span'])


def subcontext(ctx):
    for fn in ('create_subcontext', 'remove_subcontext'):
        f = ctx.fn(EX + fn, optional=True)
        if f is None: continue
        g = ctx.explore(f, anchors={CLONE: clone_ctx})
        c = Canon(g)
        for x in g.exits:
            if x.info['kind'] == 'unreachable': continue
            st = {c.show(a): c.show(b) for a, b in x.info['store'].items()}
            if fn == 'create_subcontext':
                good = x.info['kind'] == 'return' and c.show(x.info['value']).lstrip('*') == 'clone(self)' and list(st.values()) == ['[..*self.subcontexts, clone(self)]']
            else:
                good = x.info['kind'] == 'return' and all(a == '*self.subcontexts' and b == '*self.subcontexts[0..len(*self.subcontexts)-1]' for a, b in st.items())
            ctx.require(good, 'subcontext', fn, 'ends with %s, leaving %s' % (c.show(x.info['value']) if x.info.get('value') is not None else x.info['kind'], st), x.info['span'])


def binds(ctx):
    """Binding a pattern defines in the scope it is called on only."""
    for fn in ('bind', 'bind_list'):
        g = scenario(ctx, fn, limit=300)
        n = 0
        for c_, i in calls_made(g).items():
            m = re.match(r'(\w+)\(([^,]*)', c_)
            if m.group(1) in ('insert_variable', 'bind', 'bind_list'):
                n += 1
                ctx.require(m.group(2) == 'self', 'bind', fn, 'defines in %s' % m.group(2), ctx.span(g, i))
        ctx.floor('definitions of ' + fn, n, 2)


def owned(ctx):
    a = ctx.F.adts.get('seam::parse::expander::Expander')
    if not a: return ctx.violation('owned', 'Expander', None, 'type not found')
    fields = dict(a['variants'][0]['fields'])
    t = fields.get('definitions', '')
    ctx.require(re.match(r'std::cell::RefCell<std::collections::(hash_map::)?(Hash|BTree)Map<', t), 'owned', 'Expander.definitions', 'the definitions are not owned by their scope: %s' % t)
    inner = [k for k in fields if 'Rc<' in fields[k] and k != 'subparsers' and k != 'definitions']
    ctx.require(not inner, 'owned', 'Expander', 'shared state: %s' % inner)
    m = ctx.F.adts.get('seam::parse::expander::Macro')
    shared = [n for n, ty in m['variants'][0]['fields'] if re.search(r'RefCell|Cell<|Mutex|&mut', ty)]
    ctx.require(not shared, 'owned', 'Macro', 'a definition can be changed after it was shared: %s' % shared)
    for f in ctx.F.fns.values():
        if f.crate == 'models': continue
        for b in f.blocks:
            t = b['t']
            if t[0] == 'call' and t[1][0] == 'fn' and re.search(r'Rc::<.*>::(get_mut|make_mut|get_mut_unchecked)', t[1][1]['path'] if isinstance(t[1][1], dict) else str(t[1][1])):
                ctx.violation('owned', f.path, b['sp'], 'changes a shared definition in place')
