"""Arguments bind to parameters completely and exactly."""
from macros import *

TECHNIQUE = 'abstract interpretation of pattern binding for every pair of kinds; path language and per-round transfer of the argument matching loop; facts that hold whenever it succeeds'
NOTE = 'which scope is bound is decided under S18'
MIN_OBLIGATIONS = 45

ALLK = ('Symbol', 'Number', 'String', 'Raw', 'List', 'Attribute')


def check(ctx):
    for p in ALLK:
        for v in ALLK: ctx.attempt('pattern', '%s against %s' % (v, p), lambda: pattern(ctx, p, v))
    ctx.attempt('list', 'bind_list', lambda: blist(ctx))
    for p, a in CASES: ctx.attempt('called', 'bind_list', lambda: called(ctx, p, a))
    for names in (), ('a',), ('&r',), ('&&r',), ('a', '&r', 'b'), ('&r', '&&s'), ('&&s', '&r'), ('&r', '&s'), ('&&r', '&&s'), ('&r', 'a', '&s'), ('&r', '&&s', '&t'), ('&&', '&'):
        ctx.attempt('declared', 'create_macro', lambda: parameters(ctx, names))


def parameters(ctx, names):
    """A definition is refused exactly if it has several parameters of one kind for what remains."""
    f = ctx.fn(EX + 'create_macro')
    if f is None: return
    ns = [i for i in range(1, f.argc + 1) if re.match(r'std::vec::Vec<.*ParseNode', f.locals[i][0])]
    if len(ns) != 1: raise AnalysisError('the parameters of create_macro are not known')
    nodes = [T('call', 'parameter', (kint(i),)) for i in range(len(names))]
    def setup(e, st):
        for n, v in zip(nodes, names):
            variant(st, n, PN, 'Symbol')
            fact(st, e.field(e.field(n, 'Symbol', '0'), None, 'value'), kstr(v))
    args = [T('seq', tuple(('i', n) for n in nodes)) if i in ns else None for i in range(1, f.argc + 1)]
    g = ctx.explore(f, args=args, setup=setup, anchors={EX + 'insert_variable': named('insert_variable', havoc=False)}, opts={'same': ATOM, 'unroll': True})
    w = 'defining (f %s)' % ' '.join(names)
    got = {('ok' if is_ok(x) else 'error') if x.info['kind'] == 'return' else x.info['kind'] for x in g.exits}
    rest = [n for n in names if n.startswith('&') and not n.startswith('&&')]
    good = len(rest) < 2 and len([n for n in names if n.startswith('&&')]) < 2
    ctx.require(got == {'ok' if good else 'error'}, 'declared', w, 'ends with %s' % sorted(got), f.span)


CASES = [(p, a) for p in ('', 'a', 'a b', '&r', 'a &r', '&r a', '&&s', '&r &&s', '&&s &r', 'a &r &&s', ':k', 'a :k', ':k a', 'a :k &r', 'a :k &&s', 'a b c', ':k :m', ':k a :m &r', '&&s :k &r a', 'a &r b &&s', '&r &t', '&&s &&t', 'a &r b &t')
         for a in ('', 'x', 'x y', 'x y z', ':k', ':m', 'x :k', ':k x', 'x :m', 'x :k y :m', ':k :m', ':m :k x y', 'x y z w', ':o x :k y z')]


def called(ctx, params, given):
    """A list of arguments is refused exactly if it does not fit the list of parameters."""
    f = ctx.fn(EX + 'bind_list')
    if f is None: return
    l = [i for i in range(1, f.argc + 1) if re.search(r'\[.*ParseNode', f.locals[i][0])]
    if len(l) != 2: raise AnalysisError('the lists matched by bind_list are not known')
    ps, vs = params.split(), given.split()
    setups, args = [], [None] * f.argc
    for i, side, names in ((l[0], 'parameter', ps), (l[1], 'argument', vs)):
        nodes = [T('call', side, (kint(j),)) for j in range(len(names))]
        args[i - 1] = T('seq', tuple(('i', n) for n in nodes))
        setups += list(zip(nodes, names))
    def setup(e, st):
        for n, v in setups:
            if v.startswith(':'):
                variant(st, n, PN, 'Attribute')
                fact(st, e.field(n, 'Attribute', 'keyword'), kstr(v[1:]))
            else:
                kind = 'Symbol' if n.args[0] == 'parameter' else 'Number'
                variant(st, n, PN, kind)
                fact(st, e.field(e.field(n, kind, '0'), None, 'value'), kstr(v))
    def fine(e, st, c, args, t, blk, node, ev):
        return e.done(st, t, agg(RES, 'Ok', ('0',), (UNIT,)), [('call', 'bind', tuple(e.resolve(st, x) for x in args), None)])
    g = ctx.explore(f, args=args, setup=setup, anchors={EX + 'insert_variable': named('insert_variable', havoc=False), EX + 'bind': fine}, opts={'same': ATOM, 'unroll': True})
    got = {('ok' if is_ok(x) else 'error') if x.info['kind'] == 'return' else x.info['kind'] for x in g.exits}
    kinds = lambda l: ([x for x in l if x[0] not in ':&'], [x for x in l if x[0] == ':'], [x for x in l if x.startswith('&&')], [x for x in l if x[0] == '&' and not x.startswith('&&')])
    (a, k, kr, r), (x, m, _, _) = kinds(ps), kinds(vs)
    good = len(r) < 2 and len(kr) < 2 and len(x) >= len(a) and (r or len(x) == len(a)) and (kr or set(m) <= set(k))
    w = 'matching (%s) with (%s)' % (params, given)
    ctx.require(got == {'ok' if good else 'error'}, 'called', w, 'ends with %s' % sorted(got), f.span)
    if not good or got != {'ok'}: return
    # what is bound to what
    c = Canon(g)
    show = lambda t: re.sub(r'(parameter|argument)\((\d+)\)', lambda m: ps[int(m.group(2))] if m.group(1) == 'parameter' else '<%s>' % vs[int(m.group(2))], c.show(t))
    bound = []
    for i in g.reach:
        for evs, _ in g.nodes[i].out:
            for e in evs:
                if e[0] != 'call': continue
                if e[1] == 'bind': bound.append('%s = %s' % (show(e[2][1]), show(e[2][2])))
                else:
                    d = re.fullmatch(r'insert_variable\(self, (.*), Macro\{name: (.*), params: \[\], body: (.*)\}\)', '%s(%s)' % (short(e[1]), ', '.join(show(x) for x in e[2])))
                    name = lambda s: re.sub(r'^(\S+)\.Attribute\.keyword$', r'\1', re.sub(r'^(&+)(\w+)\.atom\.0\.value\[(\d+)\.\.\]$', lambda m: m.group(2) if len(m.group(1)) == int(m.group(3)) else s, s)).strip("'")
                    bound.append('%s = %s' % (name(d.group(1)), d.group(3)) if d and name(d.group(1)) == name(d.group(2)) else str(d.groups() if d else e[1]))
    want = ['%s = <%s>' % q for q in zip(a, x)]
    for n in r: want.append('%s = [%s]' % (n[1:], ', '.join('<%s>' % q for q in x[len(a):])))
    for n in kr: want.append('%s = [%s]' % (n[2:], ', '.join('<%s>' % q for q in m if q not in k)))
    for n in k: want.append('%s = [%s.Attribute.node]' % (n, '<%s>' % n if n in m else n))
    ctx.require(sorted(bound) == sorted(want), 'called', w, 'binds %s instead of %s' % (sorted(bound), sorted(want)), f.span)


def pattern(ctx, p, v):
    f = ctx.fn(EX + 'bind')
    if f is None: return
    a, b = [argn(f, i) for i in range(1, f.argc + 1) if 'ParseNode' in f.locals[i][0]]
    def setup(e, st):
        variant(st, a, PN, p); variant(st, b, PN, v)
    g = scenario(ctx, 'bind', setup)
    A, B = g.canon.show(a), g.canon.show(b)
    w = 'binding %s to the pattern %s' % (v, p)
    ERR = E_('.*')
    calls = sorted(calls_made(g))
    strs = ('String', 'Raw')
    if p == 'Symbol':
        outcomes(ctx, 'pattern', g, w, ['Ok(())'])
        n = '%s.atom.0.value' % A
        want = RX(r'insert_variable\(self, %s, Macro\{name: .*, params: \[\], body: \[%s\]\}\)' % (re.escape(n), re.escape(B)))
        ctx.require(len(calls) == 1 and fits(want, calls[0]), 'pattern', w, 'performs %s' % calls)
        ctx.language('pattern', g, lambda e, c: ['def'] if e[0] == 'call' else None, sym('def'), canon=g.canon)
    elif p == 'List' and v == 'List':
        outcomes(ctx, 'pattern', g, w, ['bind_list(self, %s, %s.List.nodes, %s.List.nodes)' % (B, A, B)])
    elif p == 'Attribute' and v == 'Attribute':
        rec = 'bind(self, %s.Attribute.node, %s.Attribute.node)' % (A, B)
        outcomes(ctx, 'pattern', g, w, [rec, ERR])
        equal(ctx, g, w, {'(%s.Attribute.keyword==%s.Attribute.keyword)' % (A, B), '(%s.Attribute.keyword==%s.Attribute.keyword)' % (B, A)}, lambda s: s == rec)
    elif p == v == 'Number' or (p in strs and v in strs):
        outcomes(ctx, 'pattern', g, w, ['Ok(())', ERR])
        eqs = {'(%s.atom.0%s==%s.atom.0%s)' % (x, s, y, s) for x, y in ((A, B), (B, A)) for s in ('', '.value')}
        equal(ctx, g, w, eqs, lambda s: s == 'Ok(())')
        ctx.require(not calls, 'pattern', w, 'performs %s' % calls)
    else:
        outcomes(ctx, 'pattern', g, w, [ERR])
        ctx.require(not calls, 'pattern', w, 'performs %s' % calls)


def equal(ctx, g, w, eqs, good):
    for x in g.exits:
        if x.info['kind'] != 'return': continue
        s = shown(g, x)
        f = {g.canon.show(t): v for t, v in x.info['facts'].items()}
        h = [v for t, v in f.items() if t in eqs]
        want = TRUE if good(s) else FALSE
        ctx.require(h and h[0] == (True, frozenset([want])), 'pattern', w, 'ends with %s although the comparison %s' % (s[:80], 'was not made' if not h else 'differs'), x.info['span'])


# ---- lists of parameters ----------------------------------------------------------------------
def blist(ctx):
    f = ctx.fn(EX + 'bind_list')
    if f is None: return
    t0, t1 = [argn(f, i) for i in range(1, f.argc + 1) if re.search(r'\[.*ParseNode', f.locals[i][0])]
    hold = lambda t: True
    opts = {'preds': ('starts_with',), 'keep': hold, 'kinds': lambda x, adt: adt == PN or (x.op == 'call' and x.args[0] == 'map_get')}
    g = scenario(ctx, 'bind_list', opts=opts, limit=400)
    c = g.canon
    n0, n1 = c.show(t0), c.show(t1)
    num = r'(?:[^\[\]]|\[[^\]]*\])*?'
    def norm(s):
        for _ in range(3):
            s = re.sub(r'fold\{%s\[0\]; %s\[fold\{0 \| 1; @0\+1\}\]\}|%s\[fold\{0; @0\+1\}\]|%s\[i\]' % ((re.escape(n0),) * 4), 'L', s)
            s = re.sub(r'%s\[(?:fold\{0; @0\+1\})?(?:\+?i)?\]' % re.escape(n1), 'V', s)
        return s
    show = lambda t: norm(c.show(t))
    LM = 'fold{map(); ins(@0, L.Attribute.keyword, L.Attribute.node)}'
    ENT = r'entries\(%s\)\[i\]' % re.escape(LM)
    def body(b): return r', Macro\{name: .*, params: \[\], body: %s\}\)' % b
    DEFS = [('default', ENT + r'\.0' + body(r'\[%s\.1\]' % ENT)),
            ('given', ENT + r'\.0' + body(r'\[map_get\(.*ins\(@0, V\.Attribute\.keyword, V\).*, %s\.0\)\.Some\.0\.Attribute\.node\]' % ENT)),
            ('rest', r'fold\{; L\}\.atom\.0\.value\[1\.\.\]' + body(r'each\{- \| V\}')),
            ('kwrest', r'fold\{; L\}\.atom\.0\.value\[2\.\.\]' + body(r'each\{- \| map_get\(.*ins\(@0, V\.Attribute\.keyword, V\).*, V\.Attribute\.keyword\)\.Some\.0\}'))]
    def ev(e, c):
        if e[0] == 'call':
            s = '%s(%s)' % (short(e[1]), ', '.join(show(x) for x in e[2]))
            if s == 'bind(self, L, V)': return ['bind']
            for n, r in DEFS:
                if re.fullmatch(r'insert_variable\(self, ' + r, s): return ['define ' + n]
            return [s]
        if e[0] == 'is': return None
        if e[0] == 'insert':
            k, v = show(e[2]), show(e[3])
            if (k, v) == ('L.Attribute.keyword', 'L.Attribute.node'): return ['named parameter']
            if (k, v) == ('V.Attribute.keyword', 'V'): return ['named argument']
            return ['insert %s = %s' % (k, v)]
        if e[0] == 'push':
            v = show(e[2])
            if v == 'V': return ['further argument']
            if v.startswith('map_get'): return ['further named argument']
            return None
        if e[0] == 'remove_key':
            k = show(e[2])
            return ['take ' + ('parameter' if re.fullmatch(ENT + r'\.0', k) else 'argument' if k == 'V.Attribute.keyword' else k)]
        if e[0] == 'kind':
            s = show(e[1])
            if s in ('L', 'V'): return ['%s %s' % (s, 'attribute' if e[2] == ('Attribute',) else 'symbol' if e[2] == ('Symbol',) else 'other' if 'Symbol' not in e[2] else 'plain')]
            if s.startswith('map_get') and s.endswith(')'): return ['found' if e[2] == ('Some',) else 'absent']
            return None
        if e[0] == 'pred':
            s = show(e[1])
            m = re.fullmatch(r"starts_with\(L\.atom\.0\.value, '(&+)'\)", s)
            return ['%s %s' % (m.group(1), e[2])] if m else None
        if e[0] == 'lt':
            m = more(e, c)
            if not m: return None
            s = norm(m[1])
            if s == n1: return [m[0] + ' arguments']
            if s.startswith('entries('): return [m[0] + ' named']
            if s == n0: return [m[0] + ' parameters']
        return None
    s = sym
    named = cat_(s('L attribute'), s('named parameter'))
    # a symbol may be examined in either order of the two markers
    marker = alt(s('&& True'), cat_(s('& True'), s('&& True')), cat_(s('&& False'), s('& True')), cat_(s('& True'), s('&& False')))
    notmarked = alt(cat_(s('&& False'), s('& False')), s('& False'))
    given = cat_(s('more arguments'), s('V plain'), s('bind'))
    plain = alt(cat_(opt(s('L plain')), alt(cat_(s('L symbol'), notmarked), s('L other'))))
    # an argument that is passed over leaves the same parameter to be looked at again
    again = cat_(plain, s('more arguments'), s('V attribute'), s('named argument'))
    one = cat_(star(again), alt(named, cat_(opt(s('L plain')), s('L symbol'), marker), cat_(plain, given)))
    params = cat_(alt(cat_(), cat_(one, star(cat_(s('more parameters'), one)), s('end parameters'))))
    rest = cat_(star(cat_(s('more arguments'), alt(cat_(s('V attribute'), s('named argument')), cat_(s('V plain'), s('further argument'))))), s('end arguments'))
    defs = cat_(star(cat_(s('more named'), s('take parameter'), alt(cat_(s('found'), s('define given')), cat_(s('absent'), s('define default'))))), s('end named'))
    kw = cat_(star(cat_(s('more arguments'), alt(s('V plain'), cat_(s('V attribute'), s('take argument'), alt(s('absent'), cat_(s('found'), s('further named argument'))))))), s('end arguments'), s('define kwrest'))
    spec = cat_(params, rest, opt(s('define rest')), defs, opt(kw))
    ctx.language('matching', g, ev, spec, canon=c)
    transfer(ctx, g, c, t0, t1)
    succeeds(ctx, g, c, norm, ev)


def transfer(ctx, g, c, t0, t1):
    """Each round of the matching loop moves on by exactly what it used."""
    phi = lambda t: t.op == 'phi'
    found = 0
    for loc, info in g.loops.items():
        # the loop that looks at parameters one by one
        keys = {k for rec in info['back'] for k in rec[0]}
        cur = [k for k in keys if any(x[0].get(k) is not None and x[0][k].op == 'elem' and x[0][k].args[0] is t0 for x in info['entry'])]
        if len(cur) != 1: continue
        cur = cur[0]
        found += 1
        curphi = [t for rec in info['back'] for t in [rec[0].get(cur)] if t is not None and phi(t) and (t.args[2], t.args[3]) == cur]
        me = curphi[0] if curphi else None
        ctx.require(me is not None, 'round', 'bind_list', 'no round keeps its parameter while named arguments are skipped', g.fn.span)
        if me is None: continue
        idx = None
        for i in g.reach:
            for evs, m in g.nodes[i].out:
                for e in evs:
                    if e[0] == 'call' and short(e[1]) == 'bind' and e[2][2].op == 'elem' and e[2][2].args[0] is t1: idx = e[2][2].args[1]
        ctx.require(idx is not None and phi(idx), 'round', 'bind_list', 'the argument bound is not at the current place')
        if idx is None or not phi(idx): continue
        rk = (idx.args[2], idx.args[3])
        pk = [k for k in keys if k not in (cur, rk) and all(rec[0].get(k) is None or g.engine.sub(rec[0][k], phi_of(g, loc, k, rec, keys)).op == 'k' for rec in info['back']) and any('pos' in str(p) for p in k[1])]
        ctx.require({x[0].get(rk) for x in info['entry']} == {kint(0)}, 'round', 'first argument', 'matching does not start at the first argument', g.fn.span)
        ctx.require(len(pk) == 1, 'round', 'next parameter', '%d counters of parameters' % len(pk))
        for rec in info['back']:
            raw, facts = rec[0], rec[1]
            f = {t: v for t, v in facts.items()}
            kinds = lambda x: {y.args[1] for y in f[T('discr', x, PN)][1]} if T('discr', x, PN) in f else None
            kl, kv = kinds(me), kinds(T('elem', t1, idx))
            mark = any(t.op == 'call' and t.args[0] == 'starts_with' and v == (True, frozenset([TRUE])) for t, v in f.items() if t.op == 'call' and me in set(atoms(t)))
            dr = g.engine.sub(raw.get(rk, idx), idx)
            moved = raw.get(cur) is not me
            if raw.get(cur) is None: moved = True
            if kl == {'Attribute'} or mark: want, cls = (0, True), 'named parameter or & marker'
            elif kv == {'Attribute'}: want, cls = (1, False), 'named argument'
            else: want, cls = (1, True), 'positional argument'
            ctx.require(dr is kint(want[0]), 'round', cls, 'the place in the arguments changes by %s' % c.show(dr), g.fn.span)
            ctx.require(moved == want[1], 'round', cls, 'the parameter %s' % ('is left behind' if moved else 'is looked at again'), g.fn.span)
            if moved and raw.get(cur) is not None:
                good = raw[cur].op == 'elem' and raw[cur].args[0] is t0
                ctx.require(good, 'round', cls, 'goes on with %s' % c.show(raw[cur])[:200], g.fn.span)
                if good and len(pk) == 1:
                    p = phi_of(g, loc, pk[0], rec, keys)
                    ctx.require(raw[cur].args[1] is p and g.engine.sub(raw.get(pk[0], p), p) is kint(1), 'round', 'next parameter', 'parameters are not taken one after another', g.fn.span)
    ctx.floor('matching loops', found, 1)


def phi_of(g, loc, k, rec, keys):
    for i in g.loops[loc]['back']:
        v = i[0].get(k)
        for t in ([v] if v is not None else []):
            for a in atoms(t):
                if a.op == 'phi' and (a.args[0], a.args[1]) == loc and (a.args[2], a.args[3]) == k: return a
    return kint(0)


def succeeds(ctx, g, c, norm, ev):
    """Whenever matching succeeds, nothing is left over."""
    n = 0
    for x in g.exits:
        if not is_ok(x): continue
        n += 1
        f = {norm(c.show(t)): v for t, v in x.info['facts'].items()}
        zero = lambda v: v[0] and v[1] == frozenset([kint(0)])
        more_ = [v for t, v in f.items() if t == 'len(each{- | V})']
        left = [t for t, v in f.items() if t.startswith('len(') and 'ins(@0, V.Attribute.keyword, V)' in t and 'rem(' in t and zero(v)]
        ctx.require(left, 'complete', 'named arguments', 'succeeds although named arguments may be left over', x.info['span'])
        if not (more_ and zero(more_[0])):
            # the remaining positional arguments must have been bound
            n_ = automaton(g, ev, lambda y, c=None: y is x, c)
            anyl = sym(RX(r'(?!define rest$).*'))
            r = included(n_, cat_(star(anyl), sym('define rest'), star(anyl)))
            ctx.require(r is None, 'complete', 'positional arguments', 'succeeds although positional arguments may be left over', x.info['span'])
    ctx.floor('successful matches', n, 2)
