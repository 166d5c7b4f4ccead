"""No failure is swallowed."""
from macros import *

TECHNIQUE = 'path analysis of every function: no path on which an operation failed ends in success, except where documented; liveness of every result of a fallible call; location and cause of the error values built'
NOTE = 'failures that the standard library and the dependencies do not report cannot be seen; a predicate that answers no because of a failure is judged where it is used'
MIN_OBLIGATIONS = 300

INC = r'(?:\w+\()*.*join\(self\.includes\[i\].*'
# (function, failed operation, why success may follow)
ABSORBED = (
    (r'expand_match_macro', r'bind\(.*', 'a pattern that does not match'),
    (r'expand_get_macro', r'parse<usize>\(.*\)', 'an item that is no position is a keyword'),
    (r'expand_timestamp_macro', r'(?:parse_from_str|parse_and_remainder)\(.*\)', 'a date without a time zone is read as local time, which reports its own failure'),
    (r'GlobPath::<.*>::compare|expand_glob_macro', r'(?:created|modified)\(.*\)', 'files without a time are ordered by a rank of their own'),
    (r'expand_sort_macro', r'parse<\w+>\(.*\)', 'keys that are no numbers are ordered as text'),
    (r'check_all', r'check\(.*\)', 'an argument has to satisfy one of several declared kinds'),
)
# a file missing in one include directory, as long as it is found under a later one
SEARCHES = (
    (r'expand_embed_macro', r'read_to_string\(%s\)' % INC),
    (r'expand_include_macro', r'parser_for_file\(%s\)' % INC),
)
SILENT = r'(?:Paths|ReadDir|Lines|Result<|Chars)'


def fallible(f): return re.match(r'std::result::Result<', f.locals[0][0])


def check(ctx):
    fs = sorted((f for f in ctx.F.fns.values() if f.crate != 'models' and not f.derived), key=lambda f: f.path)
    res = [f for f in fs if f.kind != 'closure' and fallible(f)]
    ctx.floor('fallible functions', len(res), 60)
    names = {f.path: named(f.name or short(f.path), havoc=False) for f in res}
    for f in fs:
        if f.kind != 'closure': ctx.attempt('absorbed', f.path, lambda: absorbed(ctx, f, names))
    for f in fs:
        if f.kind == 'closure' and f.uid not in ctx.functions: ctx.attempt('absorbed', f.path, lambda: absorbed(ctx, f, names))
    n = 0
    for f in fs: n += discarded(ctx, f)
    ctx.floor('results of fallible calls', n, 200)


def absorbed(ctx, f, names):
    g = ctx.explore(f, anchors={k: v for k, v in names.items() if k != f.path}, opts={'same': ATOM, 'kinds': lambda x, adt: adt == RES})
    c = Canon(g)
    def ev(e, c, handed=None):
        # a result that is handed on as it is reports its own failure
        if e[0] not in ('is', 'kind') or e[2] not in (('Ok',), ('Err',)) or e[1] is handed: return None
        s = abbr(c.show(e[1]))
        if any(re.search(w, f.path) and re.fullmatch(o, s, re.S) for w, o in SEARCHES): return ['found' if e[2] == ('Ok',) else 'missing']
        if e[2] == ('Ok',): return None
        if any(re.search(w, f.path) and re.fullmatch(o, s, re.S) for w, o, _ in ABSORBED): return None
        return ['failure of ' + s[:160]]
    def success(x, c=None):
        # a predicate that answers no reports the failure to its caller
        return is_ok(x, c) and not (f.locals[0][0] == 'bool' and x.info['value'] is FALSE)
    if not any(success(x) for x in g.exits): return ctx.ok('absorbed', f.path, 'never reports success')
    whole = {x.info['value'] for x in g.exits if success(x) and x.info['value'] is not None}
    asked = {e[1] for i in g.reach for evs, _ in g.nodes[i].out for e in evs if e[0] in ('is', 'kind')}
    for v in [None] + sorted(whole & asked, key=lambda t: c.show(t)):
        ctx.language('absorbed', g, lambda e, c, v=v: ev(e, c, v), opt(cat_(star(alt(sym('missing'), sym('found'))), sym('found'))), nonempty=False,
                     accept=lambda x, c=None, v=v: success(x, c) and (x.info['value'] is v if v is not None else x.info['value'] not in asked), canon=c)


def mentions(x, out):
    """Locals of the places in an operand, rvalue or terminator."""
    if isinstance(x, (list, tuple)):
        if len(x) == 3 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list) and isinstance(x[2], str):
            out.add(x[0])
            for p in x[1]:
                if p[0] == 'i' and len(p) > 1 and isinstance(p[1], int): out.add(p[1])
        else:
            for y in x: mentions(y, out)
    elif isinstance(x, dict):
        for y in x.values(): mentions(y, out)


def succ(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'switch': return [b for _, b in t[2]] + [t[3]]
    if k == 'call': return [b for b in t[4:5] if b is not None]
    return [b for b in t[1:] if isinstance(b, int) and not isinstance(b, bool)]


def discarded(ctx, f):
    """Every result of a fallible call is looked at or handed on."""
    sites = [(i, b) for i, b in enumerate(f.blocks) if b['t'][0] == 'call' and re.match(r'std::result::Result<', b['t'][3][2]) and not b['t'][3][1]]
    for i, b in enumerate(f.blocks):
        t = b['t']
        if t[0] == 'call' and t[1][0] == 'fn' and re.search(r'Iterator::(flatten|flat_map)$', t[1][1]['path']) and re.search(SILENT, ' '.join(t[1][1]['targs'])):
            ctx.violation('discarded', f.path, b['sp'], 'items that could not be obtained are left out (%s of %s)' % (t[1][1]['path'], t[1][1]['targs']))
    if not sites: return 0
    n = len(f.blocks)
    use, kill = [set() for _ in range(n)], [set() for _ in range(n)]
    for i, b in enumerate(f.blocks):
        for s in b['s']:
            if s[0] == 'dead' or s[0] == 'live': continue
            m = set()
            if s[0] == '=':
                mentions(s[2], m)
                if s[1][1]: m.add(s[1][0]) if any(p[0] == 'd' for p in s[1][1]) else None
            else: mentions(s[1:], m)
            use[i] |= m - kill[i]
            if s[0] == '=' and not s[1][1]: kill[i].add(s[1][0])
        t = b['t']
        m = set()
        if t[0] == 'call': mentions(t[1:3], m)
        elif t[0] not in ('drop', 'goto', 'return', 'unreachable'): mentions(t[1:], m)
        elif t[0] == 'return': m.add(0)
        use[i] |= m - kill[i]
        if t[0] == 'call' and not t[3][1]: kill[i].add(t[3][0])
    live = [set() for _ in range(n)]
    change = True
    while change:
        change = False
        for i in reversed(range(n)):
            out = set()
            for j in succ(f.blocks[i]['t']):
                if 0 <= j < n: out |= live[j]
            new = use[i] | (out - kill[i])
            if new != live[i]: live[i] = new; change = True
    for i, b in sites:
        t = b['t']
        l = t[3][0]
        if t[1][0] == 'fn' and re.search(r'fmt::Write::write_(fmt|str|char)$', t[1][1]['path']) and t[1][1]['targs'][:1] == ['std::string::String']: continue # cannot fail
        seen = l == 0 or any(l in live[j] for j in succ(t) if 0 <= j < n)
        what = t[1][1]['path'] if t[1][0] == 'fn' else 'a closure'
        ctx.require(seen or not succ(t), 'discarded', f.path, 'the result of %s is never looked at' % what, b['sp'])
    return len(sites)
