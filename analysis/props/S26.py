"""Sorting and listing use a consistent order."""
from macros import *
from order import Table, NotTotal, comparisons

TECHNIQUE = 'decision tables of the comparison functions, checked to be lexicographic comparisons of keys over ranked classes of items (antisymmetry, transitivity and totality follow); path language of the collecting loops'
NOTE = 'the order of library types (strings, paths, times, integers, floats that are not NaN) is taken to be total; items with equal keys stay in document order'
MIN_OBLIGATIONS = 40

META = {'std::fs::Metadata::' + n: pure_op(n) for n in ('is_dir', 'is_file', 'is_symlink', 'created', 'modified', 'accessed', 'len', 'file_type')}
PATH = 'glob($1).Ok.0[i].Ok.0'
MD = 'metadata(%s).Ok.0' % PATH
KEY = RX(r"expand_invocation\(self, (?:'do'|\$'key'), node, \[@1\.List\.nodes\[i\]\]\)\.Ok\.0\[0\]\.atom\.0\.value")
INT = r'parse<[iu](?:64|128)>\(%s\)\.Ok\.0|cast\(i(?:64|128), parse<f64>\(%s\)\.Ok\.0\)' % (KEY.pattern, KEY.pattern)
# what items of each class are compared by first, when ascending
GLOB = {'name': {None: (PATH, 1)}, 'type': {None: ('extension(%s)' % PATH, 1)},
        'created': {'Ok': ('created(%s).Ok.0' % MD, -1), 'Err': None}, 'modified': {'Ok': ('modified(%s).Ok.0' % MD, -1), 'Err': None}, 'none': {}, None: {}}
SORTS = r'::(sort|sort_unstable|sort_by|sort_by_key|sort_unstable_by|sort_unstable_by_key|sort_by_cached_key|max_by|min_by|max_by_key|min_by_key|select_nth_unstable\w*|is_sorted\w*)$'


def check(ctx):
    # every comparison in the program belongs to one of the macros decided here
    for f in ctx.F.fns.values():
        if f.crate == 'models': continue
        for i, c, b in calls_in(ctx.F, f, lambda c: re.search(SORTS, c['path'])):
            if natural(c): continue
            ctx.require(re.search(r'expand_(sort|glob)_macro', f.path) and re.search(r'::sort_by$', c['path']), 'sites', f.path, 'orders values by %s, which is not decided' % c['path'], b['sp'])
        if f.trait in ('std::cmp::Ord', 'std::cmp::PartialOrd') and not f.derived and f.name in ('cmp', 'partial_cmp'):
            ctx.attempt('order', f.path, lambda: decide(ctx, f.path, f, None, None, None, None))
    for o in ('ascending', 'descending', None):
        ctx.attempt('sort', '(%sort ...)', lambda: sort(ctx, o))
        for s in ('name', 'type', 'created', 'modified', 'none', None): ctx.attempt('glob', '(%glob ...)', lambda: glob(ctx, s, o))
    for t in ('file', 'directory', 'any', None): ctx.attempt('filter', '(%glob ...)', lambda: filters(ctx, t))
    ctx.attempt('items', '(%sort ...)', lambda: items(ctx))


def natural(c):
    """Orders text or numbers by the order of their type."""
    return re.search(r'::(sort|sort_unstable|is_sorted)$', c['path']) and all(re.fullmatch(r"(?:&(?:'\w+ )?)*(?:str|u\w+|i\w+|char|bool|std::string::String|std::path::PathBuf)", t) for t in c.get('targs') or ['?'])


def fill(t, a, v, e):
    """t with the item a replaced by what was collected."""
    memo = {}

    def go(x):
        if x is a: return v
        if type(x) is not Term: return tuple(go(y) for y in x) if type(x) is tuple else x
        if x not in memo:
            n = [go(y) for y in x.args]
            memo[x] = e.field(*n) if x.op == 'fld' else T(x.op, *n)
        return memo[x]
    return go(t)


def decide(ctx, where, fn, clo, g, force, item):
    """The rank list of one comparison, with its keys as text; None if it is no total order."""
    def setup(e, st):
        for k in (g.decl.pos if g else ()):
            if (force or {}).get(k) is not None: g.decl.param(e, st, kstr(k))
    args = [clo, None, None] if clo is not None else None
    h = ctx.explore(fn, args=args, anchors=META, setup=setup, opts={'same': ATOM, 'keep': lambda t: True})
    a, b = (argn(fn, 2), argn(fn, 3)) if clo is not None else (argn(fn, 1), argn(fn, 2))
    t = Table(h, a, b)
    try: d = t.decide()
    except NotTotal as x:
        ctx.violation('order', where, fn.span, 'the comparison is no total order: %s' % x)
        return None
    ctx.ok('order', where, '%d rows, %d ranks' % (len(t.rows), len(d)))
    if item is None: return d
    show = lambda x: abbr(g.canon.show(fill(x, a, item, g.engine)))
    return [({(show(k), v) for c in cls for k, v in c.items()}, [[(show(x), s) for x, s in k] for k in keys], cls) for cls, keys in d]


def collected(g):
    """The values pushed to lists that are sorted (aggregates of this program)."""
    out = []
    for i in g.reach:
        for evs, m in g.nodes[i].out:
            for ev in evs:
                if ev[0] == 'push' and ev[2].op in ('agg', 'with') and ev[2] not in out:
                    s = g.canon.show(ev[2])
                    if 'glob(' in s or 'expand_invocation(' in s: out.append(ev[2])
    return out


def table(ctx, where, g, force):
    l = list(comparisons(g))
    clos = {(k, a) for _, _, k, a in l}
    if not l: return None
    if len(clos) != 1: raise AnalysisError('%d different comparisons' % len(clos))
    kind, clo = clos.pop()
    it = [x for x in collected(g) if x.args[0] != PN] or collected(g)
    if kind != 'sort_by' or clo is None or clo.op != 'clo': raise AnalysisError('sorted by %s' % kind)
    fn = ctx.F.fns.get(str(clo.args[0]).split('|')[0])
    if not it: raise AnalysisError('the items compared are not known')
    res = [decide(ctx, where, fn, clo, g, force, x) for x in it]
    return res


def sort(ctx, o):
    force = {'order': o}
    g = invoke(ctx, 'sort', force=force)
    w = '(%%sort ...) %s' % (o or 'without order')
    sign = -1 if o == 'descending' else 1
    rs = table(ctx, w, g, force)
    if rs is None: return ctx.violation('sort', w, g.fn.span, 'does not sort')
    for r in rs:
        if r is None: continue
        # numbers equal as floats are told apart by their integers, and by nothing else
        further = [(t, sg) for c, keys, cls in r for k in keys for t, sg in k[1:]]
        ctx.require(all(sg == sign and re.fullmatch(INT, t) for t, sg in further), 'sort', w, 'compares further by %s' % further, g.fn.span)
        num = [i for i, (c, keys, cls) in enumerate(r) if all(k and re.fullmatch(r'parse<f64>\(%s\)\.Ok\.0' % KEY.pattern, k[0][0]) and k[0][1] == sign for k in keys)]
        txt = [i for i, (c, keys, cls) in enumerate(r) if all(k and fits(KEY, k[0][0]) and k[0][1] == sign for k in keys)]
        ctx.require(len(r) == 2 and num == [0 if sign > 0 else 1] and txt == [1 if sign > 0 else 0], 'sort', w, 'compares by %s' % [keys for c, keys, cls in r], g.fn.span)
    language(ctx, 'sorted', g, w)


def language(ctx, rule, g, w):
    def ev(e, c): return ['sort'] if e[0] == 'sort' else ['other'] if e[0] == 'reverse' and 'sorted' in c.show(e[1]) else None
    ctx.language(rule, g, ev, sym('sort'), canon=g.canon)


def glob(ctx, s, o):
    force = {'sort': s, 'order': o}
    g = invoke(ctx, 'glob', force=force)
    w = '(%%glob ...) sort %s, %s' % (s, o or 'without order')
    want = -1 if o == 'descending' else 1
    # the direction in which the sorted list is read
    dirs = set()
    for x in g.exits:
        if not is_ok(x): continue
        v = abbr(g.canon.show(x.info['value']))
        if v == 'Ok([])': continue
        dirs.add(-1 if re.search(r'\)\[len\(.*\)-i-1\]\}', v) else 1 if re.search(r'\)\[i\]\}', v) else 0)
    if len(dirs) != 1 or 0 in dirs: return ctx.violation('glob', w, g.fn.span, 'the direction of the list is not decided')
    d = dirs.pop()
    rs = table(ctx, w, g, force)
    if rs is None:
        ctx.require(s in ('none', None), 'glob', w, 'does not sort', g.fn.span)
        return ctx.require(d == want, 'glob', w, 'lists in the wrong direction', g.fn.span)
    language(ctx, 'sorted', g, w)
    for r in rs:
        if r is None: continue
        first = {}
        for c, keys, cls in r:
            for k in keys: first[k[0] if k else None] = 1
        if s in ('none', None):
            ctx.require(len(r) == 1 and list(first) == [None] and d == want, 'glob', w, 'does not keep the order found', g.fn.span)
            continue
        if s in ('created', 'modified'):
            cl = '%s(%s).Ok.0' % (s, MD)
            # paths with a time, and then those without one
            sgn = {sg for c, keys, cls in r for k in keys for t, sg in k[:1] if t == cl}
            good = len(r) == 2 and len(sgn) == 1 and all((k and k[0][0] == cl) == (('kind(%s(%s))' % (s, MD), 'Ok') in c) for c, keys, cls in r for k in keys)
            ctx.require(good and sgn.pop() * d == -want, 'glob', w, 'compares by %s' % sorted(map(str, first)), g.fn.span)
        else:
            t = PATH if s == 'name' else 'extension(%s)' % PATH
            sgn = {k[0][1] if k else 0 for c, keys, cls in r for k in keys}
            good = all(k and k[0][0] == t for c, keys, cls in r for k in keys) and len(sgn) == 1
            ctx.require(good and sgn.pop() * d == want, 'glob', w, 'compares by %s' % sorted(map(str, first)), g.fn.span)
            if s == 'name': ctx.require(len(r) == 1, 'glob', w, 'ranks paths by something else than their name', g.fn.span)
            else:
                rank = ['directory' if all(v == 'True' for x in cls for k, v in x.items() if 'is_dir' in repr(k)) and any('is_dir' in repr(k) for x in cls for k in x)
                        else 'file' if all(v == 'True' for x in cls for k, v in x.items() if 'is_file' in repr(k)) and any('is_file' in repr(k) for x in cls for k in x) else 'other' for c, keys, cls in r]
                if want * d < 0: rank.reverse()
                ctx.require(rank == ['directory', 'file', 'other'], 'glob', w, 'ranks %s' % rank, g.fn.span)


def filters(ctx, t):
    g = invoke(ctx, 'glob', force={'type': t, 'sort': None, 'order': None})
    w = '(%%glob ...) type %s' % t
    def ev(e, c):
        if e[0] == 'lt':
            m = more(e, c)
            return [m[0]] if m and abbr(m[1]) == 'glob($1).Ok.0' else None
        if e[0] == 'push':
            s = abbr(c.show(e[2]))
            return ['keep'] if PATH in s and 'ParseNode::String' in s and 'sorted(' not in s else None
        if e[0] == 'is':
            s = abbr(c.show(e[1]))
            if s in ('is_file(%s)' % MD, 'is_dir(%s)' % MD): return ['%s %s' % (s[:s.index('(')], e[2][0])]
        return None
    if t in ('any', None): one = sym('keep')
    else:
        q = 'is_file' if t == 'file' else 'is_dir'
        one = alt(cat_(sym(q + ' True'), sym('keep')), sym(q + ' False'))
    ctx.language('filter', g, ev, cat_(star(cat_(sym('more'), one)), sym('end')), canon=g.canon)


def items(ctx):
    g = invoke(ctx, 'sort')
    def ev(e, c):
        if e[0] == 'lt':
            m = more(e, c)
            return [m[0]] if m and abbr(m[1]) == '@1.List.nodes' else None
        if e[0] == 'call' and short(e[1]) == 'expand_invocation': return ['key']
        if e[0] == 'push' and e[2].op == 'agg' and e[2].args[0] != PN:
            s = [abbr(c.show(x)) for x in e[2].args[3]]
            return ['item'] if '@1.List.nodes[i]' in s and any(fits(KEY, x) for x in s) else ['item %s' % s] if any('expand_invocation' in x for x in s) else None
        return None
    ctx.language('items', g, ev, cat_(star(cat_(sym('more'), sym('key'), sym('item'))), sym('end')), canon=g.canon)
    for n in ('sort', 'glob'): results(ctx, 'complete', invoke(ctx, n), '(%%%s ...)' % n, RESULT[n])
