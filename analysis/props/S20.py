"""Built-in macros accept exactly what they declare."""
from macros import *
from panics import Linear

TECHNIQUE = 'abstract interpretation: argument declarations of every macro read off the compiled rules, exhaustive kind/value table of the argument checker, path language of the argument parser'
NOTE = 'declarations are compared with the documented table of each macro; the predicates Matching and Satisfying are not used by any macro'
MIN_OBLIGATIONS = 120

AP = MA + "ArgParser::<'params, 'rules, 'tree>::"
AT = MA + 'ArgType'
# macros without declared arguments: how many (expanded) arguments they take
ARITY = {'include': ('P', 1, 1), 'embed': ('P', 1, 1), 'os/env': ('P', 1, 1), 'format': ('P', 1, None), 'namespace': ('P', 1, None),
         'ifdef': ('params', 2, 3), 'match': ('params', 1, None), 'define': ('params', 1, None)}

# (macro, optional argument, where it is used, what is used without it)
USED = (
    ('date', 2, 'from_timestamp(parse<i64>($2).Ok.0', 'with_timezone(now()'),
    ('date', 'timezone', "($'timezone')", 'local_minus_utc(offset(now()))'),
    ('timestamp', 'timezone', "($'timezone')", 'local_minus_utc(offset(now()))'),
    ('sort', 'key', "$'key'", "'do'"),
    ('get', 'separator', "$'separator'", "'/'"),
)

ATOMIC = {'Symbol', 'Number', 'String', 'Raw'}
# (macro, argument, kinds it may have)
ACCEPTED = (
    ('raw', r'P\[i\]', ATOMIC), ('log', r'P\[i\]', ATOMIC), ('string', r'P\[i\]', ATOMIC),
    ('sort', r'expand_invocation\(.*\)\.Ok\.0\[0\]', ATOMIC),
    ('format', r'P\[0\]', {'String'}), ('format', r'P\[i\+1\]', ATOMIC | {'Attribute'}), ('format', r'P\[i\+1\]\.Attribute\.node', ATOMIC),
    ('ifdef', r'params\[0\]', ATOMIC), ('os/env', r'P\[0\]', ATOMIC),
    ('define', r'params\[0\]', {'Symbol', 'List'}), ('define', r'params\[0\]\.List\.nodes\[0\]', {'Symbol'}),
    ('lambda', '@1', {'Symbol', 'List'}), ('match', r'params\[i\+1\]', {'List'}),
)
# an error that follows from a failed step
FAILED = r'kind\((?!P\[|params\[|@)(?s:.*)\)=(?:Err|None)'


def check(ctx):
    M = Macros(ctx)
    for name in sorted(DECL): ctx.attempt('declared', M.where(name), lambda: declared(ctx, M, name))
    for name in sorted(DECL): ctx.attempt('received', M.where(name), lambda: received(ctx, name))
    for name in sorted(ARITY): ctx.attempt('arity', M.where(name), lambda: arity(ctx, M, name))
    for t in sorted(KINDS): ctx.attempt('checker', t, lambda: checker(ctx, t))
    for f in sorted((f for f in ctx.F.fns.values() if re.fullmatch(r'seam::parse::macros::extract_[a-z]+?(_ref)?', f.path)), key=lambda f: f.path):
        ctx.attempt('extracted', f.path, lambda: extracted(ctx, f))
    ctx.attempt('places', AP + 'new', lambda: places(ctx))
    for name in sorted({n for n, _, _ in ACCEPTED}): ctx.attempt('refused', M.where(name), lambda: refused(ctx, name))
    ctx.attempt('lookup', AP + 'get', lambda: lookup(ctx))
    for name, key in (('glob', 'type'), ('glob', 'sort'), ('glob', 'order'), ('sort', 'order'), ('markdown', 'only'), ('join', 'trailing')):
        for val in DECL[name][0][key][2] + (None,):
            ctx.attempt('handled', M.where(name), lambda: handled(ctx, name, key, val))
    for name, key, own, default in USED: ctx.attempt('used', M.where(name), lambda: used(ctx, name, key, own, default))


def declared(ctx, M, name):
    g = M.get(name)
    w = M.where(name)
    pos, rest = DECL[name]
    d = g.decl
    for k in sorted(set(pos) | set(d.pos), key=str):
        ctx.require(pos.get(k) == d.pos.get(k), 'declared', '%s argument %s' % (w, k), 'declared as %s, documented as %s (mandatory, kind, values)' % (d.pos.get(k), pos.get(k)))
    ctx.require(d.rest == rest, 'declared', w + ' remaining arguments', 'declared as %s, documented as %s' % (d.rest, rest))
    calls = {tuple(abbr(g.canon.show(x)) for x in c) for c in d.calls}
    want = ('node', 'params' if name in UNEXPANDED else 'P')
    ctx.require(calls == {want}, 'arguments', w, 'arguments checked are %s' % sorted(calls))
    # success is only reported after the arguments were accepted
    def ev(e, c):
        if e[0] == 'call' and e[1] == 'args': return ['args']
        return None
    ctx.language('accepted', g, ev, sym('args'))


def received(ctx, name):
    """The structure a macro reads its arguments from holds each of them in its declared place."""
    pos, rest = DECL[name]
    built = []
    def on(e, st, v):
        if 'number' in v.args[2] and 'rest' in v.args[2]: built.append((e.resolve(st, v), {k: T('discr', T('call', 'param', (kint(k) if isinstance(k, int) else kstr(k),)), PN) in st.facts for k in pos}))
    g = invoke(ctx, name, opts={'built': on})
    c, w = g.canon, '(%%%s ...)' % name
    inner = lambda kind: {'List': '.List.nodes', 'Any': ''}.get(kind, '.atom.0')
    for v, given in built:
        d = dict(zip(v.args[2], v.args[3]))
        num = d.pop('number')
        vals = {i: x for i, x in enumerate(num.args[3]) if i}
        r = d.pop('rest')
        vals.update(d)
        ctx.require(set(vals) <= set(pos) and all(k in vals for k in pos), 'received', w, 'arguments received are %s, declared are %s' % (sorted(map(str, vals)), sorted(map(str, pos))))
        for k, x in vals.items():
            if k not in pos: continue
            here = '@%s%s' % (k if isinstance(k, int) else "'%s'" % k, inner(pos[k][1]))
            want = here if pos[k][0] else 'Some(%s)' % here if given[k] else 'None'
            s = abbr(c.show(x))
            ctx.require(s == want, 'received', '%s argument %s' % (w, k), 'is %s, expected %s' % (s[:200], want), g.fn.span)
        s = abbr(c.show(r))
        ctx.require(s in (('[]', 'each{R[i]%s}' % inner(rest[0])) + (('R',) if rest[0] == 'Any' else ()) if rest else ('()', '[]')), 'received', w + ' remaining arguments', 'are %s' % s[:200], g.fn.span)


def arity(ctx, M, name):
    """Accepted numbers of arguments are exactly the documented ones."""
    seq, lo, hi = ARITY[name]
    for n in range(0, (hi or lo) + 2):
        good = n >= lo and (hi is None or n <= hi)
        g = bylen(ctx, name, seq, n)
        oks = [x for x in g.exits if is_ok(x)]
        w = '%s with %d argument%s' % (M.where(name), n, 's' * (n != 1))
        if good: ctx.require(oks, 'arity', w, 'is never accepted')
        else: ctx.require(not oks, 'arity', w, 'can be accepted', oks[0].info['span'] if oks else None)
    if name in ('include', 'embed', 'os/env'):
        for kind in sorted(ATOMIC):
            g = bylen(ctx, name, seq, 1, kind)
            ctx.require([x for x in g.exits if is_ok(x)], 'arity', '(%%%s <%s>)' % (name, kind.lower()), 'is never accepted')


def bylen(ctx, name, seq, n, kind=None):
    def fixed(e, st, c, args, t, blk, node, ev):
        # the expanded arguments are n nodes
        r = T('call', 'expanded', tuple(e.resolve(st, a) for a in args))
        v = e.field(r, 'Ok', '0')
        s2 = st.copy()
        fact(st, e.length(v), kint(n))
        if kind: variant(st, T('elem', v, kint(0)), PN, kind)
        variant(st, r, RES, 'Ok'); variant(s2, r, RES, 'Err')
        return e.done(st, t, r) + e.done(s2, t, r)
    def setup(e, st):
        if seq == 'params':
            fn = e.root
            for i in range(1, fn.argc + 1):
                if '[' in fn.locals[i][0] and 'ParseNode' in fn.locals[i][0]: fact(st, e.length(argn(fn, i)), kint(n))
    extra = {EX + 'expand_nodes': fixed} if seq == 'P' else {}
    extra['seam::parse::parser_for_file'] = named('parser_for_file', havoc=False)
    extra['seam::parse::parser::Parser::parse'] = named('parse', havoc=False)
    return invoke(ctx, name, extra=extra, setup=setup)


def checker(ctx, t):
    """A value of each kind, with and without a set of allowed values, is accepted exactly if it fits."""
    fn = ctx.fn(AT + "::<'tree>::check")
    if fn is None: return
    for kind in ('Symbol', 'Number', 'String', 'Raw', 'List', 'Attribute'):
        fits_ = kind in KINDS[t]
        for preds, val, want in [((), None, fits_)] + [(tuple('abcde'[:n]), v, fits_ and v != 'x') for n in (1, 2, 3, 5) for v in 'abcde'[:n] + 'x']:
            if preds and (kind in ('List', 'Attribute') or t in ('List', 'Any')): continue
            ps = T('seq', tuple(('i', agg(MA + 'ArgPredicate', 'Exactly', ('0',), (kstr(p),))) for p in preds))
            def setup(e, st):
                nd = [argn(fn, i) for i in range(1, fn.argc + 1) if 'ParseNode' in fn.locals[i][0]][0]
                variant(st, nd, PN, kind)
                if val: fact(st, e.field(e.field(nd, kind, '0'), None, 'value'), kstr(val))
            args = [agg(AT, t, ('0',), (ps,)) if 'ArgType' in fn.locals[i][0] else None for i in range(1, fn.argc + 1)]
            g = ctx.explore(fn, args=args, setup=setup, opts={'same': ATOM, 'unroll': True})
            got = {('ok' if is_ok(x) else 'error') if x.info['kind'] == 'return' else x.info['kind'] for x in g.exits}
            ctx.require(got == {'ok' if want else 'error'}, 'checker', '%s declared, %s %s given%s' % (t, kind, repr(val) if val else '', ', allowed %s' % (preds,) if preds else ''),
                        'ends with %s' % sorted(got), fn.span)


def extracted(ctx, fn):
    """Reading a value that was accepted succeeds, and yields what it holds."""
    t = re.search(r'extract_([a-z]+)', fn.path)[1].capitalize()
    if t not in KINDS: return
    nd = [argn(fn, i) for i in range(1, fn.argc + 1) if 'ParseNode' in fn.locals[i][0]][0]
    for kind in ('Symbol', 'Number', 'String', 'Raw', 'List', 'Attribute'):
        def setup(e, st): variant(st, nd, PN, kind)
        g = ctx.explore(fn, setup=setup, opts={'same': ATOM})
        rets = [x for x in g.exits if x.info['kind'] == 'return']
        got = {'ok' if is_ok(x) else 'error' for x in rets}
        w = '%s of a %s' % (fn.path.split('::')[-1], kind)
        ctx.require(got == {'ok' if kind in KINDS[t] else 'error'} and len(rets) == len(g.exits), 'extracted', w, 'ends with %s' % sorted(got), fn.span)
        if kind in KINDS[t]:
            vals = {re.sub(r'[&*]', '', Canon(g).show(x.info['value'])) for x in rets}
            want = r'Ok\(\w+\)' if t == 'Any' else r'Ok\((?:\w+\.List\.nodes|each\{\w+\.List\.nodes\[i\]\})\)' if t == 'List' else r'Ok\(\w+\.(?:atom|%s)\.0\)' % kind
            ctx.require(len(vals) == 1 and re.fullmatch(want, min(vals)), 'extracted', w, 'yields %s' % sorted(vals), fn.span)


def unwrap(e, st, c, args, t, blk, node, ev):
    v = e.resolve(st, args[0])
    return e.done(st, t, agg(MA + 'ArgPos', 'Int' if e.numeric(v) else 'Str', ('0',), (v,)))


def matchers(ctx):
    """Positions are matched as numbers, names as text."""
    n = 0
    for f in ctx.F.fns.values():
        if f.trait and f.trait.endswith('ArgMatcher') and f.name == 'unwrap':
            g = ctx.explore(f)
            c = Canon(g)
            vals = {c.show(x.info['value']) for x in g.exits}
            n += 1
            ty = f.locals[1][0].lstrip('&').split(' ')[-1]
            want = {'usize': {'ArgPos::Int(self)'}, 'str': {'ArgPos::Str(self)'}}.get(ty, {'self'})
            ctx.require(vals == want, 'matcher', f.path, 'is %s' % sorted(vals), f.span)
    ctx.floor('matchers', n, 2)


def places(ctx):
    matchers(ctx)
    fn = ctx.fn(AP + 'new')
    if fn is None: return
    ps = [argn(fn, i) for i in range(1, fn.argc + 1) if '[' in fn.locals[i][0]][0]
    anchors = {AT + "::<'tree>::check": named('check', havoc=False), MA + 'ArgMatcher::unwrap': unwrap}
    kinds = {'plain': ('Symbol', 'Number', 'String', 'Raw', 'List'), 'named': ('Attribute',)}
    hold = lambda t: t.op == 'discr' and t.args[1] == MA + 'Arg'
    keep = lambda t: hold(t) or t.op in ('lt', 'eq', 'sub') and not any(x.op == 'len' for x in within(t))
    for which, ks in kinds.items():
        def setup(e, st):
            e.kindof = lambda st, v, adt: (True, frozenset(K('var', k) for k in ks)) if adt == PN and v.op == 'elem' and v.args[0] is ps else None
        g = ctx.explore(fn, anchors=anchors, setup=setup, opts={'keep': keep})
        c = Canon(g)
        pn = c.show(ps)
        X, key = (pn + '[i]', 'i+1') if which == 'plain' else (pn + '[i].Attribute.node', pn + '[i].Attribute.keyword')
        pat = r'rules\.patterns\[i\]'

        def ev(e, c):
            if e[0] == 'is' and e[1].op == 'res':
                n = short(e[1].args[2])
                if n in ('call_value', 'check'): return ['%s(%s) %s' % (n, ', '.join(c.show(x) for x in e[1].args[3]), '|'.join(e[2]))]
            if e[0] == 'insert': return ['insert %s = %s' % (c.show(e[2]), c.show(e[3]))]
            if e[0] == 'push': return ['push %s' % c.show(e[2])]
            if e[0] == 'lt':
                m = more(e, c)
                if m and m[1] in (pn, 'rules.patterns'): return [m[0] + ' ' + m[1]]
            return None
        rx = lambda s: sym(re.compile(s))
        k = re.escape(key)
        one = cat_(sym('more ' + pn),
                   star(cat_(sym('more rules.patterns'), rx(r'call_value\(%s\.pattern, %s\) False' % (pat, k)))),
                   alt(cat_(sym('more rules.patterns'), rx(r'call_value\(%s\.pattern, %s\) True' % (pat, k)),
                            rx(r'check\(%s\.argument\.(Mandatory|Optional)\.0, %s\) Ok' % (pat, re.escape(X))), sym('insert %s = %s' % (key, X))),
                       cat_(sym('end rules.patterns'), sym('check(rules.trailing.Some.0, %s[i]) Ok' % pn), sym('push %s[i]' % pn))))
        count = opt(cat_(star(sym('more rules.patterns')), sym('end rules.patterns')))
        ctx.language('places:' + which, g, ev, cat_(star(one), sym('end ' + pn), count), canon=c)
        for x in g.exits:
            if not is_ok(x): continue
            v = x.info['value'].args[3][0]
            d = {n: c.show(y) for n, y in zip(v.args[2], v.args[3])}
            ins = 'fold{map(); ins(@0, %s, %s)}' % (key, X)
            want = {'positional': ins if which == 'plain' else 'map()', 'named': ins if which == 'named' else 'map()', 'trailing': 'each{- | %s[i]}' % pn}
            for f_, s in want.items():
                ctx.require(d.get(f_) == s, 'kept:' + which, 'ArgParser.' + f_, 'is %s, expected %s' % (d.get(f_), s), x.info['span'])
        ctx.attempt('counts:' + which, fn.path, lambda: counts(ctx, g, c, which, hold))


def counts(ctx, g, c, which, hold):
    """The counters compared at the end go up by one exactly for mandatory arguments / rules, and
    the macro is refused exactly when the first is smaller."""
    def takes(t, w): return [x for r in g.loops[(t.args[0], t.args[1])][w] for x in [r[0].get((t.args[2], t.args[3]))] if x is not None]
    def counter(t): return t.op == 'phi' and set(takes(t, 'entry')) == {kint(0)} and all(g.engine.sub(b, t) in (kint(0), kint(1)) for b in takes(t, 'back'))
    def given(t): return any(x.op == 'ins' for r in g.loops[(t.args[0], t.args[1])]['back'] for x in r[0].values())
    L = Linear(g)
    pairs, decided = set(), 0
    for x in g.exits:
        if x.info['kind'] != 'return': continue
        about = {a for t in x.info['facts'] if t.op in ('lt', 'eq', 'sub') and not any(y.op == 'len' for y in within(t)) and all(map(counter, atoms(t))) for a in atoms(t)}
        have = [a for a in about if given(a)]
        need = [a for a in about if not given(a)]
        if len(have) != 1 or len(need) != 1:
            ctx.require(not is_ok(x) and not about, 'counts:' + which, g.fn.path, 'mandatory arguments are not compared', x.info['span'])
            continue
        pairs.add((have[0], need[0]))
        decided += 1
        if is_ok(x): ctx.require(L.refutes(x.info['facts'], [L.diff(need[0], have[0], -1)]), 'counts:' + which, g.fn.path, 'accepted with less than the mandatory arguments', x.info['span'])
        else: ctx.require(L.refutes(x.info['facts'], [L.diff(have[0], need[0])]), 'counts:' + which, g.fn.path, 'refused with all of the mandatory arguments', x.info['span'])
    ctx.require(len(pairs) == 1, 'counts:' + which, g.fn.path, 'mandatory arguments are compared %d times' % len(pairs))
    for pair in pairs:
        for t in pair:
            info = g.loops[(t.args[0], t.args[1])]
            key = (t.args[2], t.args[3])
            ctx.require({x[0].get(key) for x in info['entry']} == {kint(0)}, 'counts:' + which, c.show(t), 'does not start at 0')
            seen = set()
            for rec in info['back']:
                x = rec[0].get(key)
                step = g.engine.sub(x, t)
                ks = {y.args[1] for tt, v in rec[1].items() if hold(tt) and v[0] for y in v[1]}
                man = 'Mandatory' in ks and len(ks) == 1
                seen.add(man)
                ctx.require(step is kint(1 if man else 0), 'counts:' + which, 'mandatory counter', 'changes by %s when the rule is %s' % (c.show(step), sorted(ks) or 'not matched'), g.fn.span)
            ctx.require(True in seen, 'counts:' + which, 'mandatory counter', 'mandatory arguments are never counted')
    bad = [x for x in g.exits if x.info['kind'] == 'panic']
    ctx.require(not [x for x in bad if 'overflow' not in str(x.info.get('extra'))], 'counts:' + which, 'panics', 'argument parsing can panic')


def lookup(ctx):
    for n in ('get', 'get_optional'):
        fn = ctx.fn(AP + n)
        if fn is None: continue
        for kind, mp in (('Int', 'positional'), ('Str', 'named')):
            def u(e, st, c, args, t, blk, node, ev): return e.done(st, t, agg(MA + 'ArgPos', kind, ('0',), (T('call', 'key', ()),)))
            g = ctx.explore(fn, anchors={MA + 'ArgMatcher::unwrap': u})
            c = Canon(g)
            vals = {c.show(x.info['value']) for x in g.exits if is_ok(x)}
            want = 'get(self.%s, key())' % mp
            good = all(want in v and not ('positional' in v and 'named' in v) for v in vals)
            ctx.require(vals and good, 'lookup', '%s by %s' % (n, 'position' if kind == 'Int' else 'name'), 'returns %s' % sorted(vals), fn.span)


def refused(ctx, name):
    """An argument of an accepted kind is refused only because a step failed or for what it contains."""
    g = invoke(ctx, name, opts={'keep': lambda t: t.op == 'discr'})
    terms = [(p, ks) for n, p, ks in ACCEPTED if n == name]
    seen = 0
    for x in g.exits:
        if x.info['kind'] != 'return' or is_ok(x): continue
        facts = [(abbr(g.canon.show(t)), p, {g.canon.show(v) if type(v) is Term else str(v) for v in q}) for t, (p, q) in x.info['facts'].items()]
        given, why = [], False
        for t, p, ks in facts:
            why = why or re.fullmatch(FAILED, '%s%s%s' % (t, '=' if p else '!=', ','.join(sorted(ks))))
            for pat, ok in terms:
                m = re.fullmatch(r'kind\((%s)\)' % pat, t)
                if not m or not p or not ks: continue
                arg = m.group(1)
                items = re.sub(r'0\]$', '', arg) if arg.endswith('.nodes[0]') else arg
                about = lambda s: s != t and (items in s or arg.startswith('expand_') and s == 'len(%s)' % re.sub(r'\[0\]$', '', arg))
                if not ks & ok: why = True
                elif not any(about(s) for s, _, _ in facts): given.append((arg, sorted(ks & ok)))
        seen += 1
        ctx.require(why or not given, 'refused', '(%%%s ...)' % name, 'refuses %s: %s' % (given, abbr(g.canon.show(x.info['value']))[:120]), ctx.span(g, x.id))
    ctx.require(seen, 'refused', '(%%%s ...)' % name, 'never refuses anything', g.fn.span)


def used(ctx, name, key, own, default):
    """A value that is given is used, and the default only if none was."""
    g = invoke(ctx, name)
    asked = "param(%s)" % (key if isinstance(key, int) else repr(key))
    def use(s):
        s = abbr(s)
        return (['own'] if own in s else []) + (['default'] if default in s and own not in s else [])
    def ev(e, c):
        if e[0] == 'given': return ['given' if e[2] else 'not given'] if c.show(e[1]) == asked else None
        if name == 'get' and e[0] == 'lt': return [x for y in e[1:3] for x in use(c.show(y))] or None
        if name == 'sort' and e[0] == 'call' and short(e[1]) == 'expand_invocation': return use(c.show(T('seq', tuple(('i', y) for y in e[2])))) or ['other']
        return None
    def spec(a, b): return cat_(sym(a), star(alt(sym(a), sym(b))))
    if name == 'get':
        # the value is fixed before the loop starts
        first = lambda a, b: cat_(sym(a), star(sym(a)), sym(b), star(alt(sym('own'), sym('default'))))
        return ctx.language('used', g, ev, alt(first('given', 'own'), first('not given', 'default')), canon=g.canon)
    if name == 'sort': return ctx.language('used', g, ev, alt(spec('given', 'own'), spec('not given', 'default')), canon=g.canon)
    for got, want in (('own', 'given'), ('default', 'not given')):
        acc = lambda x, c=None: is_ok(x) and use(g.canon.show(x.info['value'])) == [got]
        ctx.language('used', g, ev, spec(want, got), accept=acc, canon=g.canon)
    n = [x for x in g.exits if is_ok(x) and not use(g.canon.show(x.info['value']))]
    # a date that states its own time zone needs none
    ctx.require(all(name == 'timestamp' and 'timestamp(parse_from_str($2, $1)' in abbr(g.canon.show(x.info['value'])) for x in n), 'used', '(%%%s ...) %s' % (name, key), 'neither the value given nor the default is used', g.fn.span)


def handled(ctx, name, key, val):
    """Every declared value is handled: no path ends in unreachable code."""
    g = invoke(ctx, name, force={key: val})
    w = '(%%%s :%s %s)' % (name, key, val if val else 'not given')
    oks = [x for x in g.exits if is_ok(x)]
    ctx.require(oks, 'handled', w, 'is never accepted', g.fn.span)
    # a value nothing handles ends in unreachable code
    base = invoke(ctx, name, force={key: None})
    sig = lambda g: {(str(x.info.get('extra')), str(x.info['span'])) for x in g.exits if x.info['kind'] == 'panic' and 'unreachable' in str(x.info.get('extra'))}
    new = sig(g) - sig(base)
    ctx.require(not new, 'handled', w, 'the value is declared but ends in unreachable code: %s' % sorted(new)[:1])
    if name == 'markdown':
        res = {abbr(g.canon.show(x.info['value']))[:20] for x in oks}
        want = {'frontmatter': {'Ok([])'}}.get(val, {'Ok([ParseNode::Raw(N'})
        ctx.require(res == want, 'handled', w, 'returns %s' % sorted(res))
        loads = [1 for x in g.exits if x.info['kind'] == 'return' and 'to_mdast(' in g.canon.show(x.info['value'])]
        ctx.require(bool(loads) == (val != 'content'), 'handled', w, 'front matter is %sread' % ('' if loads else 'not '))
