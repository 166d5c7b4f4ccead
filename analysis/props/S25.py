"""Output depends only on the documents and declared inputs."""
import json
from macros import *
from props.S24 import mentions

TECHNIQUE = 'effect analysis: reachability of clock, environment and file operations in the call graph, cut at the macros that may use them; dataflow of hash-ordered sequences; absence of address-dependent values and mutable statics'
NOTE = 'the dependencies are taken to be deterministic (terminal colours of messages excepted); glob lists paths in alphabetical order'
MIN_OBLIGATIONS = 400

CLASSES = (
    ('clock', r'chrono::(?:Local|Utc)::(?:now|today)$|std::time::(?:SystemTime|Instant)::|chrono::.*@.*chrono::Local'),
    ('environment', r'std::env::'),
    ('files', r'std::fs::|std::path::Path::(?:try_)?(?:exists|is_file|is_dir|is_symlink|metadata|symlink_metadata|canonicalize|read_link|read_dir)$|glob::|std::io::stdin|std::io::Std'),
    ('forbidden', r'std::(?:net|thread|os)::|std::process::(?!exit)|std::fs::(?:write|remove|create|rename|copy|hard_link|set_)|std::fs::File::(?:create|set)|std::fs::OpenOptions|'
                  r'std::fs::read_dir|std::path::Path::read_dir|std::env::(?:set|remove)_|std::(?:collections::hash_map|hash)::(?:RandomState|BuildHasher)|std::hash::BuildHasher|'
                  r'std::alloc::|std::panic::|std::any::|std::sync::(?:mpsc|atomic)|core::arch::|std::intrinsics::'),
)
PURE = r'(?:std|core|alloc|colored|fixed|formatx|markdown|regex|unicode_width|yaml_rust2|descape|chrono|glob|toml|fixed_macro)(?:::|$)|<'
FILEINFO = r'std::fs::(?:Metadata|FileType)::'
OWNERS = {'clock': ('date', 'timestamp'), 'environment': ('os/env',), 'files': ('include', 'embed', 'glob')}
MUTABLE = r'Mutex|RwLock|Atomic|Cell<|\*mut'
ADDRESS = r'Pointer(?:Expose|With).*|FnPtrToPtr'


def classify(c):
    p = c['path']
    s = {k for k, r in CLASSES if re.match(r, p) or re.match(r, p + '@' + ' '.join(c.get('targs', [])))}
    if 'forbidden' in s: return 'forbidden'
    if re.match(FILEINFO, p): return None
    return sorted(s)[0] if s else None


def walk(x, fns, statics):
    """Functions and statics mentioned in MIR."""
    if isinstance(x, list):
        if len(x) == 2 and x[0] == 'fn' and isinstance(x[1], dict): fns.append(x[1])
        elif len(x) == 2 and x[0] in ('static', 'tls') and isinstance(x[1], str): statics.append(x[1])
        elif len(x) == 3 and x[0] == 'fnptr': fns.append({'path': x[2], 'uid': x[1]})
        for y in x: walk(y, fns, statics)
    elif isinstance(x, dict):
        for y in x.values(): walk(y, fns, statics)


def check(ctx):
    fs = sorted((f for f in ctx.F.fns.values() if f.crate != 'models'), key=lambda f: f.path)
    ctx.attempt('effects', 'call graph', lambda: effects(ctx, fs))
    ctx.attempt('addresses', 'all functions', lambda: addresses(ctx, fs))
    res = {f.path: named(f.name or short(f.path), havoc=False) for f in fs if f.kind != 'closure' and not f.derived and re.match(r'std::result::Result<', f.locals[0][0])}
    n = 0
    for f in fs:
        # functions in which a hashed collection is turned into a sequence, or that call one
        sites = [i for i, b in enumerate(f.blocks) if b['t'][0] == 'call' and hashed(b['t'])]
        if sites: n += 1
    users = callers(fs, {f.uid for f in fs if any(b['t'][0] == 'call' and hashed(b['t']) for b in f.blocks)}, set(res))
    for f in users: ctx.attempt('hash order', f.path, lambda: order(ctx, f, {k: v for k, v in res.items() if k != f.path}))
    ctx.ok('hash order', 'all functions', '%d functions with %d that iterate over a hashed collection' % (len(fs), n))


def hashed(t):
    """A call whose result walks a hashed collection."""
    ty = t[3][2]
    return bool(re.search(r'hash_(?:map|set)::(?!Entry|OccupiedEntry|VacantEntry|OccupiedError)|hash_table', ty)) or \
        t[1][0] == 'fn' and any(re.match(r'&*(?:mut )?(?:std::collections::|hashbrown::)?Hash(?:Map|Set)<', x) for x in t[1][1].get('targs', [])) and \
        re.search(r'IntoIterator::into_iter|fmt::|Argument::|to_string|Hash::hash|Extend|from_iter', t[1][1]['path']) is not None and 'from_iter' not in t[1][1]['path']


def callers(fs, sites, stop):
    """The functions to look at so that every site is seen in a context that is analysed: the sites,
    and for sites in closures or infallible helpers the functions that use them."""
    by = {f.uid: f for f in fs}
    out, todo, seen = [], list(sites), set()
    rev = {}
    for f in fs:
        l = []
        walk([b['t'] for b in f.blocks] + [b['s'] for b in f.blocks], l, [])
        for c in l:
            for u in targets(c, by): rev.setdefault(u, set()).add(f.uid)
        if f.parent: rev.setdefault(f.uid, set()).update(g.uid for g in fs if g.uid == f.parent or g.path == f.parent)
    while todo:
        u = todo.pop()
        if u in seen or u not in by: continue
        seen.add(u)
        f = by[u]
        if f.kind != 'closure': out.append(f)
        if f.path not in stop: todo += rev.get(u, ())
    return sorted(out, key=lambda f: f.path)


def targets(c, by):
    r = [u for u in (c.get('uid'), c.get('resuid')) if u in by]
    if not r:
        p = {c.get('path'), c.get('res')}
        r = [u for u, f in by.items() if f.path in p]
    if not r and c.get('trait'):
        base = c['path'].split('::')[-1]
        r = [u for u, f in by.items() if f.trait and f.trait.split('<')[0] == c['trait'].split('<')[0] and f.name == base]
    return r


def effects(ctx, fs):
    by = {f.uid: f for f in fs}
    edges, direct, n = {}, {}, 0
    for f in fs:
        fns, statics = [], []
        for b in f.blocks: walk(b['s'], fns, statics); walk(b['t'], fns, statics)
        es = edges.setdefault(f.uid, set())
        for c in fns:
            ts = targets(c, by)
            es.update(ts)
            if ts or re.match(r'seam::|<seam', c['path']): continue
            n += 1
            k = classify(c)
            if k is None:
                ctx.require(re.match(PURE, c['path']), 'known', f.path, 'calls %s, whose effects are not known' % c['path'], f.span)
            else: direct.setdefault(f.uid, set()).add((k, c['path']))
        for s in sorted(set(statics)):
            ty = [l[0] for l in f.locals if '&' in l[0]]
            bad = [t for t in statictypes(f, s) if re.search(MUTABLE, t)]
            ctx.require(not bad, 'static', f.path, 'uses the mutable static %s, which outlives a run' % s, f.span)
        for g in fs:
            if g.parent and g.parent in (f.uid, f.path): es.add(g.uid)
    ctx.floor('calls of other crates', n, 500)
    owners = implementations(ctx, by)
    main = {f.uid for f in fs if f.path == 'seam::main'}
    ctx.floor('main', len(main), 1)
    roots = {f.uid for f in fs if f.kind != 'closure' and (f.trait or f.path == 'seam::main' or
             (f.pub and re.match(r'seam::(?:parse::(?:expander|parser|lexer|macros|tokens)|assemble)::', f.path)))}
    ctx.floor('roots', len(roots), 60)
    for k, _ in CLASSES:
        own = set()
        for m in OWNERS.get(k, ()):
            o = owners[m] - set().union(*(owners[x] for x in owners if x not in OWNERS.get(k, ())))
            if any(reach(edges, direct, o, k, set())): ctx.ok('effects', '(%%%s ...)' % m, 'may use %s' % k)
            own |= o
        # the command line names the documents to read and its own arguments
        users = [u for u, s in direct.items() if any(x == k for x, _ in s)]
        for u in users:
            for x, p in sorted(direct[u]):
                if x != k: continue
                path = witness(edges, roots - own - (main if k in ('files', 'environment') else set()), own | (main if k in ('files', 'environment') else set()), u)
                ctx.require(path is None, 'effects', by[u].path, '%s (%s) is used by %s' % (p, k, ' > '.join(short(by[q].path) for q in path or ())), by[u].span)
    # what the command line itself may do: read its own arguments and name files, in functions which nothing else uses
    line = {u for u in by if u in main or witness(edges, main, set(), u) and not witness(edges, roots - main, set(), u)}
    for u in line:
        for x, p in sorted(direct.get(u, ())):
            ctx.require(x == 'environment' and re.fullmatch(r'std::env::args(_os)?', p) or x == 'files', 'effects', by[u].path, 'the command line uses %s (%s)' % (p, x), by[u].span)
    # the environment is read only from the command line and os/env: file reading helpers must not do it
    for u, s in direct.items():
        for x, p in s:
            if x == 'environment' and u not in line:
                path = witness(edges, main, owners['os/env'], u)
                ctx.require(path is None, 'effects', by[u].path, '%s is used by the command line through %s' % (p, ' > '.join(short(by[q].path) for q in path or ())), by[u].span)


def statictypes(f, s):
    out = []
    for b in f.blocks:
        for st in b['s']:
            if st[0] == '=' and s in json.dumps(st[2]): out.append(st[1][2])
        if b['t'][0] == 'call' and s in json.dumps(b['t'][2]): out += [str(x) for x in b['t'][2]]
    return out


def reach(edges, direct, start, k, stop):
    seen, todo = set(), list(start)
    while todo:
        u = todo.pop()
        if u in seen or u in stop: continue
        seen.add(u)
        for x, p in direct.get(u, ()):
            if x == k: yield p
        todo += edges.get(u, ())


def witness(edges, roots, cut, goal):
    """A call path from a root to the goal that avoids the cut."""
    prev = {r: None for r in roots if r not in cut}
    todo = sorted(prev)
    while todo:
        u = todo.pop(0)
        if u == goal:
            p = []
            while u is not None: p.append(u); u = prev[u]
            return p[::-1]
        for v in sorted(edges.get(u, ())):
            if v not in prev and v not in cut: prev[v] = u; todo.append(v)
    return None


def implementations(ctx, by):
    """Macro name -> functions that its dispatch runs."""
    fn = ctx.fn(EX + 'expand_invocation')
    names = {f.path: named('fn:' + f.uid, havoc=False) for f in by.values() if f.kind != 'closure' and f.uid != fn.uid and f.crate != 'models'}
    out = {}
    for name in NAMES:
        args = [None] * fn.argc
        for i in range(1, fn.argc + 1):
            if fn.locals[i][0].lstrip('&').split(' ')[-1] == 'str': args[i - 1] = kstr(name)
        g = ctx.explore(fn, anchors=names, args=args)
        out[name] = {e[1][3:] for i in g.reach for evs, m in g.nodes[i].out for e in evs if e[0] == 'call' and e[1].startswith('fn:')}
    return out


def addresses(ctx, fs):
    """No value is computed from an address."""
    n = 0
    for f in fs:
        for b in f.blocks:
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'cast':
                    n += 1
                    ctx.require(not re.match(ADDRESS, s[2][1]), 'addresses', f.path, 'a pointer is converted to a number (%s)' % s[2][1], b['sp'])
            t = b['t']
            if t[0] != 'call' or t[1][0] != 'fn': continue
            c = t[1][1]
            n += 1
            ptr = [x for x in c.get('targs', []) if re.match(r'\*(const|mut) ', x)]
            bad = re.search(r'new_pointer|fmt::Pointer|ptr::hash|\bexpose_|::addr$', c['path']) or \
                (ptr and re.search(r'(Hash::hash|Debug::fmt|Ord::\w+|PartialOrd::\w+|new_debug)$', c['path']))
            ctx.require(not bad, 'addresses', f.path, 'the value depends on an address (%s of %s)' % (c['path'], ptr), b['sp'])
    ctx.floor('casts and calls', n, 1000)


def hashterm(t):
    return t.op == 'call' and t.args[0] in ('entries', 'keys', 'values')


def order(ctx, f, names):
    """Nothing that can be observed depends on the order of a hashed collection."""
    g = ctx.explore(f, anchors=names, opts={'same': ATOM, 'keep': lambda t: any(hashterm(a) for a in atoms(t))})
    c = Canon(g)
    bad = lambda t: type(t) is Term and ordered(t)
    n = 0
    for i in g.reach:
        for evs, m in g.nodes[i].out:
            for e in evs:
                if e[0] in ('is', 'kind', 'lt', 'pred'): continue
                n += 1
                if e[0] in ('insert', 'remove_key') and any(ordered(x) for x in e[1:] if type(x) is Term):
                    # one entry of the other table for each entry of this one
                    key = next((x for x in e[2:] if type(x) is Term), None)
                    ctx.require(key is not None and ordered(key), 'hash order', f.path, 'which entry is kept depends on the order of a hashed collection: %s' % text(c, e), ctx.span(g, i))
                    continue
                for x in e[1:]:
                    for y in x if isinstance(x, tuple) else (x,):
                        ctx.require(not bad(y) , 'hash order', f.path, '%s depends on the order of a hashed collection: %s' % (e[0], text(c, e)), ctx.span(g, i))
    for x in g.exits:
        v = x.info['value']
        if x.info['kind'] != 'return' or v is None: continue
        n += 1
        ctx.require(not bad(v) , 'hash order', f.path, 'the result depends on the order of a hashed collection: %s' % abbr(c.show(v))[:200])
    for loc, info in g.loops.items():
        for rec in info['back']:
            for k, v in rec[0].items():
                if v.op == 'seq':
                    n += 1
                    ctx.require(not ordered(v), 'hash order', f.path, 'a sequence is built in the order of a hashed collection: %s' % abbr(c.show(v))[:200])
    ctx.ok('hash order', f.path, '%d events and results' % n)


def ordered(t):
    """Does the value contain a hash-ordered sequence (or an item at a position of one)?"""
    if hashterm(t): return True
    if t.op == 'call' and t.args[0] == 'sorted' and len(t.args[1]) == 1: return False
    if t.op in ('len',): return False
    return any(ordered(x) for x in flat(t.args))


def flat(a):
    for x in a:
        if type(x) is Term: yield x
        elif isinstance(x, tuple): yield from flat(x)


def text(c, e): return ' '.join(abbr(c.show(z)) if type(z) is Term else str(z) for z in e)[:300]
