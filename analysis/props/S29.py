"""Equal nodes hash equally."""
from macros import *

TECHNIQUE = 'abstract interpretation of equality and hashing for every pair of kinds: what equality compares, and that hashing is fed with nothing else'
NOTE = 'equality and hashing of text and of slices are those of the standard library'
MIN_OBLIGATIONS = 20

ATOMS = ('Symbol', 'Number', 'String', 'Raw')
KINDS_ = ATOMS + ('List', 'Attribute')
PARTS = {k: {'%s.0.value' % k} for k in ATOMS}
PARTS['List'] = {'List.nodes'}
PARTS['Attribute'] = {'Attribute.keyword', 'Attribute.node'}
PARTS['Node'] = {'value'}


def impl(ctx, trait, ty):
    l = [f for f in ctx.F.fns.values() if f.crate != 'models' and f.trait and re.match(r'std::(cmp|hash)::%s\b' % trait, f.trait)
         and f.name in ('eq', 'hash') and re.match(r"seam::parse::parser::%s(<.*>)?$" % ty, f.self_ty or '')]
    if len(l) == 1: return l[0]
    ctx.violation('missing', '%s for %s' % (trait, ty), None, 'the implementation to analyse was not found')


def check(ctx):
    for ty in ('Node', 'ParseNode'):
        for trait, rule in (('PartialEq', equality), ('Hash', hashing)):
            f = impl(ctx, trait, ty)
            if f: ctx.attempt(rule.__name__, f.path, lambda: rule(ctx, f, ty))


def params(f): return [f.locals[i][1] or 'arg%d' % i for i in (1, 2)]


def part(s, name):
    """self.Raw.0.value -> Raw.0.value; a whole Node is judged by its own implementation."""
    m = re.fullmatch(re.escape(name) + r'\.(.*)', s)
    if not m: return None
    r = m.group(1)
    return r + '.value' if re.fullmatch(r'(Symbol|Number|String|Raw)\.0', r) else r


def compared(s, a, b):
    m = re.fullmatch(r'\((.*)==(.*)\)', s)
    if not m: return None
    l, r = m.groups()
    for x, y in ((l, r), (r, l)):
        p, q = part(x, a), part(y, b)
        if p and p == q: return p


def pairwise(g, c, a, b, p):
    """Sequences of one length, of which every round of the loop found two items equal."""
    same = lambda facts: any(compared(c.show(t), a, b) == p + '[i]' and (TRUE in f[1]) == f[0] for t, f in facts.items())
    long = lambda facts: any(re.fullmatch(r'\(len\(.*\)==len\(.*\)\)', c.show(t)) and compared(re.sub(r'len\(([^()]*)\)', r'\1', c.show(t)), a, b) == p and (TRUE in f[1]) == f[0] for t, f in facts.items())
    backs = [r[1] for i in g.loops.values() for r in i['back']]
    entries = [r[1] for i in g.loops.values() for r in i['entry']]
    return bool(backs) and all(map(same, backs)) and bool(entries) and all(map(long, entries))


def equality(ctx, f, ty):
    g = ctx.explore(f, opts={'keep': lambda t: True}, nodeops=False)
    c = Canon(g)
    a, b = params(f)
    n = 0
    kinds = KINDS_ if ty == 'ParseNode' else ('Node',)
    cover = {}
    for x in g.exits:
        if x.info['kind'] in ('unreachable',): continue
        ctx.require(x.info['kind'] == 'return', 'equality', f.path, 'comparing can end in %s' % x.info['kind'])
        ks = {a: set(kinds), b: set(kinds)}
        yes, no, other = set(), set(), []
        for t, (pos, vals) in x.info['facts'].items():
            s = c.show(t)
            m = re.fullmatch(r'kind\((\w+)\)', s)
            if m and m.group(1) in ks:
                v = {z.args[1] for z in vals}
                ks[m.group(1)] &= v if pos else set(kinds) - v
                continue
            val = TRUE in vals if pos else FALSE in vals
            m = re.fullmatch(r'\(len\((.*)\)==len\((.*)\)\)', s)
            p = compared('(%s==%s)' % m.groups(), a, b) if m else compared(s, a, b)
            if m and p:
                if not val: no.add(p)
                continue
            m = re.fullmatch(r'(.*)\[i\]', p or '')
            if m:
                if not val: no.add(m.group(1))
                continue
            m = re.fullmatch(r'\(i<len\((.*)\)\)', s)
            p = p or m and (part(m.group(1), a) or part(m.group(1), b))
            if m and p:
                # item by item, to the end
                if not val and pairwise(g, c, a, b, p): yes.add(p)
                elif not val: other.append(s)
                continue
            if p: (yes if val else no).add(p)
            else: other.append(s)
        v = x.info['value']
        for i in ks[a]:
            for j in ks[b]:
                n += 1
                w = '%s: %s and %s' % (f.path, i, j)
                cover[i, j] = True
                if other: ctx.violation('equality', w, None, 'depends on %s' % ', '.join(other)[:200]); continue
                if i != j:
                    ctx.require(v is FALSE, 'equality', w, 'nodes of different kinds can be equal')
                    continue
                if v is FALSE: ctx.require(no and no <= PARTS[i], 'equality', w, 'unequal although no part of the content differs (compared: %s)' % sorted(no)); continue
                p = set() if v is TRUE else {compared(c.show(v), a, b)}
                ctx.require(yes | p == PARTS[i] and not no, 'equality', w, 'equal when %s is, but the content is %s' % (sorted(map(str, yes | p)), sorted(PARTS[i])))
    for i in kinds:
        for j in kinds: ctx.require((i, j) in cover, 'equality', f.path, 'no result for %s and %s' % (i, j))


def hashing(ctx, f, ty):
    g = ctx.explore(f, opts={'keep': lambda t: True}, nodeops=False)
    c = Canon(g)
    me, state = params(f)
    kinds = KINDS_ if ty == 'ParseNode' else ('Node',)
    def content(t):
        if t.op in ('k', 'loop', 'phi', 'acc'): return True
        s = c.show(t)
        p = part(s, me)
        if p is not None: return any(p in PARTS[k] for k in kinds) or bool(re.fullmatch(r'List\.nodes\[[^\]]*\]', p))
        if s == 'kind(%s)' % me: return True
        if s == me or t.op in ('fld', 'elem', 'ref', 'var', 'sym', 'arg'): return False
        ts = [x for x in t.args if type(x) is Term] + [y for x in t.args if isinstance(x, tuple) for y in x if type(y) is Term]
        return bool(ts) and all(content(x) for x in ts)
    n = 0
    for i in g.reach:
        for evs, m in g.nodes[i].out:
            for e in evs:
                if e[0] in ('kind', 'is', 'pred', 'lt'): continue
                args = None
                if e[0] == 'mut' and c.show(e[1]) == state and e[2].op == 'call' and len(e[2].args) > 1: args = e[2].args[1]
                if e[0] == 'call' and e[1].split('::')[-1] == 'hash': args = e[2]
                if args is not None:
                    for y in args:
                        if y.op in ('upd', 'loop') or c.show(y) == state: continue
                        n += 1
                        ctx.require(content(y), 'hashing', f.path, 'the hash depends on %s, which equality does not compare' % c.show(y), ctx.span(g, i))
                else: ctx.violation('hashing', f.path, ctx.span(g, i), 'not understood: %s' % ' '.join(c.show(z) if type(z) is Term else str(z) for z in e)[:200])
    for x in g.exits:
        if x.info['kind'] == 'unreachable': continue
        ctx.require(x.info['kind'] == 'return', 'hashing', f.path, 'hashing can end in %s' % x.info['kind'])
        for t in x.info['facts']:
            ctx.require(content(t), 'hashing', f.path, 'what is hashed depends on %s, which equality does not compare' % c.show(t))
    ctx.floor('hashed values in ' + f.path, n, 1)
