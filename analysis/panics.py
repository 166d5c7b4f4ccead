"""Ways a function can abort the program, and why they cannot be taken."""
from macros import *
from sites import View, SITE, known
import lang

RICH = {'preds': ('starts_with',), 'keep': lambda t: True, 'houdini': True,
        'kinds': lambda x, adt: adt == PN or (x.op == 'call' and x.args[0] == 'map_get')}
# (function, message, what is known there, why it is never reached)
REVIEWED = (
    (r'EventSink<.*on_event', r"expect on None|'cannot be defining an item outside of a map or sequence\.'|'seq is always defining something\.'", r'',
     'the YAML parser closes what it opened, and gives a value after every key'),
    (r'.', r'.*unreachable.*', r'discr\(to_mdast\(.*\)\.Ok\.0, markdown::mdast::Node\)', 'the Markdown parser always returns a root node'),
)


def fallible(f): return re.match(r'std::result::Result<', f.locals[0][0])


# ---- linear reasoning ----------------------------------------------------------------------------
def infeasible(cons, limit=400):
    """Whether no assignment satisfies every `sum + k >= 0` (Fourier-Motzkin, rational)."""
    cons = {(frozenset(d.items()), k) for d, k in cons}
    while True:
        for d, k in cons:
            if not d and k < 0: return True
        vs = {}
        for d, k in cons:
            for t, c in d:
                p = vs.setdefault(t, [0, 0]); p[0 if c > 0 else 1] += 1
        if not vs: return False
        v = min(vs, key=lambda t: vs[t][0] * vs[t][1])
        pos, neg, rest = [], [], set()
        for d, k in cons:
            m = dict(d)
            c = m.get(v, 0)
            (pos if c > 0 else neg).append((m, k)) if c else rest.add((d, k))
        for m, k in pos:
            for n, l in neg:
                a, b = m[v], -n[v]
                s = {}
                for t, c in m.items(): s[t] = s.get(t, 0) + b * c
                for t, c in n.items(): s[t] = s.get(t, 0) + a * c
                rest.add((frozenset((t, c) for t, c in s.items() if c), b * k + a * l))
        if len(rest) > limit: return False
        cons = rest


class Linear:
    """Linear forms in which values that change by a constant per round are written with the
    number of rounds of their loop."""
    def __init__(self, g):
        self.g, self.e = g, g.engine
        self.memo = {}

    def records(self, p):
        info = self.g.loops.get((p.args[0], p.args[1]))
        return info or {'entry': [], 'back': []}

    def rounds(self, p, per):
        """entry + c * rounds, when every round adds c and all entries agree."""
        key = (p.args[2], p.args[3])
        info = self.records(p)
        ent = {r[0].get(key) for r in info['entry']}
        back = [r[0].get(key) for r in info['back']]
        if None in ent or len(ent) != 1 or None in back: return None
        steps = {per(b) for b in back}
        if len(steps) != 1 or None in steps: return None
        return ent.pop(), steps.pop()

    def form(self, t, depth=6):
        """({variable: coefficient}, constant)"""
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = ({t: 1}, 0)
            d, k = self.e.lin(t)
            out, c0 = {}, k
            for x, c in d.items():
                dx, kx = self.atom(x, depth)
                c0 += c * kx
                for y, z in dx.items(): out[y] = out.get(y, 0) + c * z
            r = self.memo[t] = ({x: c for x, c in out.items() if c}, c0)
        return r

    def atom(self, x, depth):
        e = self.e
        if depth == 0: return {x: 1}, 0
        if x.op == 'phi':
            def per(b):
                if b is x: return 0
                d = e.sub(b, x)
                return d.args[1] if d.op == 'k' and d.args[0] == 'int' else None
            r = self.rounds(x, per)
            if r and r[0].op != 'phi' or r and r[0] is not x:
                return self.plus(self.form(r[0], depth - 1), self.n(x), r[1])
        if x.op == 'len' and x.args[0].op == 'phi':
            p = x.args[0]
            def per(b):
                if b is p: return 0
                d = e.sub(e.length(b), x)
                return d.args[1] if d.op == 'k' and d.args[0] == 'int' else None
            r = self.rounds(p, per)
            if r: return self.plus(self.form(e.length(r[0]), depth - 1), self.n(p), r[1])
        return {x: 1}, 0

    def n(self, p): return T('rounds', p.args[0], p.args[1])

    def plus(self, f, n, c):
        if not c: return f
        d = dict(f[0]); d[n] = d.get(n, 0) + c
        return d, f[1]

    def diff(self, a, b, k=0):
        """a - b + k >= 0"""
        (x, i), (y, j) = self.form(a), self.form(b)
        d = dict(x)
        for t, c in y.items(): d[t] = d.get(t, 0) - c
        return {t: c for t, c in d.items() if c}, i - j + k

    def known(self, facts):
        out, late = [], []
        num = lambda t: self.e.numeric(t) or self.e.nonneg(t)
        for t, (pos, vals) in facts.items():
            one = pos and len(vals) == 1
            if t.op == 'lt' and one:
                a, b = t.args
                out.append(self.diff(b, a, -1) if TRUE in vals else self.diff(a, b))
            elif t.op == 'eq' and one and TRUE in vals and num(t.args[0]) and num(t.args[1]):
                out += [self.diff(t.args[0], t.args[1]), self.diff(t.args[1], t.args[0])]
            elif vals and all(v.op == 'k' and v.args[0] == 'int' for v in vals):
                ns = {v.args[1] for v in vals}
                if pos: out += [self.diff(t, kint(min(ns))), self.diff(kint(max(ns)), t)]
                elif not self.e.nonneg(t): late.append((t, ns))
                else:
                    m = 0
                    while m in ns: m += 1
                    out.append(self.diff(t, kint(m)))
        for t, ns in late:
            if 0 in ns and infeasible(self.positive(out + [self.diff(kint(-1), t)])): out.append(self.diff(t, kint(1)))
        return out

    def positive(self, cons):
        vs = {t for d, _ in cons for t in d}
        return cons + [({t: 1}, 0) for t in vs if t.op == 'rounds' or self.e.nonneg(t)]

    def refutes(self, facts, extra=()):
        return infeasible(self.positive(self.known(facts) + list(extra)))


# ---- reasons why an exit is not taken ---------------------------------------------------------------
class Judge:
    def __init__(self, ctx, g, lengths=None):
        self.ctx, self.g, self.c, self.e = ctx, g, getattr(g, 'canon', None) or Canon(g), g.engine
        self.lin = Linear(g)

    def fine(self, x):
        """Why the exit is allowed or impossible, or None."""
        k = x.info['kind']
        if k == 'return': return 'returns'
        if k == 'unreachable': return 'excluded by the compiler'
        ex = tuple(x.info.get('extra') or (None,))
        if k == 'diverge':
            return 'ends the program with a status' if ex[0] == 'std::process::exit' else None
        facts = x.info['facts']
        for f, m, k, why in REVIEWED:
            if ex[0] == 'panic' and any(re.search(f, h) for h in x.info['chain']) and re.fullmatch(m, self.text(ex[1]), re.S) and (not k or any(re.fullmatch(k, 'discr(%s, %s)' % (abbr(self.c.show(t.args[0])), t.args[1]), re.S) for t in facts if t.op == 'discr')): return why
        # (the program's own panics are functions of the model crate: the caller is looked at)
        if ex[0] == 'panic' and re.search('unreachable', self.text(ex[1])) and self.asked(x, facts): return 'the declared arguments'
        if self.invocation(facts): return 'macros are invoked for calls, which are lists'
        if ex[0] == 'assert' and ex[1] == 'overflow' and ex[2] == 'Add' and self.counter(ex): return 'a count of things in memory'
        if self.lin.refutes(facts, self.negated(ex)): return 'arithmetic'
        if self.site(ex, facts): return 'positions lie within their text'
        if self.stored(facts): return 'what was put into the map'
        return None

    def text(self, y): return self.c.show(y) if isinstance(y, Term) else str(y)

    def negated(self, ex):
        """What would have to hold for the check to fail."""
        L = self.lin
        if ex[0] == 'assert' and ex[1] == 'bounds': return [L.diff(ex[2], ex[3])]
        if ex[0] == 'assert' and ex[1] == 'overflow' and ex[2] == 'Sub': return [L.diff(ex[4], ex[3], -1)]
        if ex[0] in ('index', 'remove'): return [L.diff(ex[2], self.e.length(ex[1]))]
        if ex[0] in ('insert', 'split_at') and not str_like(ex[1]): return [L.diff(ex[2], self.e.length(ex[1]), -1)]
        if ex[0] == 'slice':
            # either end may be wrong: both have to be impossible
            a, b = [L.diff(ex[2], ex[3], -1)], [L.diff(ex[3], self.e.length(ex[1]), -1)]
            if L.refutes({}, a): return b
            if L.refutes({}, b): return a
        return []

    def counter(self, ex):
        """A number that grows by a constant for everything that is stored."""
        a, b = ex[3], ex[4]
        small = lambda t: t.op == 'k' and t.args[0] == 'int' and 0 <= t.args[1] <= 16
        if small(a): a, b = b, a
        if not small(b): return False
        if len(ex) > 5 and not re.fullmatch(r'[iu](32|64|128|size)', str(ex[5])): return False
        if a.op != 'phi': return False
        key = (a.args[2], a.args[3])
        info = self.lin.records(a)
        for r in info['entry']:
            v = r[0].get(key)
            if v is None or not (v.op == 'k' and v.args[0] == 'int' and 0 <= v.args[1] < 1 << 16 or v.op in ('len', 'phi')): return False
        return True

    def asked(self, x, facts):
        """A macro that declares its first argument to be of a kind and takes no named ones may
        rely on the kind of the first value it was given."""
        d = getattr(self.g, 'decl', None)
        if d is None or not d.pos or not d.pos.get(1) or not d.pos[1][0] or any(not isinstance(k, int) for k in d.pos): return False
        for t, (pos, vals) in facts.items():
            if t.op == 'discr' and t.args[1] == PN and abbr(self.c.show(t.args[0])) == 'P[0]':
                kinds = {K('var', n) for n in KINDS[d.pos[1][1]]}
                if pos and not (set(vals) & kinds) or not pos and kinds <= set(vals): return True
        return False

    def invocation(self, facts):
        """The node a macro is called with is no list (the rule `invoked` excludes it)."""
        f = self.g.fn
        if f.name != 'expand_invocation': return False
        node = [argn(f, i) for i in range(1, f.argc + 1) if re.fullmatch(r"&.*ParseNode<.*>", f.locals[i][0])]
        v = facts.get(T('discr', node[0], PN)) if len(node) == 1 else None
        return v is not None and (K('var', 'List') in v[1]) != v[0]

    def given(self, ex):
        d = getattr(self.g, 'decl', None)
        if d is None or ex[0] != 'assert' or ex[1] != 'bounds': return False
        if abbr(self.c.show(ex[3])) != 'len(P)' or ex[2].op != 'k': return False
        return all(d.pos.get(i + 1) and d.pos[i + 1][0] for i in range(ex[2].args[1] + 1))

    def site(self, ex, facts):
        """Checks that hold because a position lies within its text."""
        base = self.owner(ex)
        if base is None: return self.given(ex)
        v = View(self.g, self.c, base)
        s = lambda t: self.c.show(t)
        if ex[0] == 'assert' and ex[1] == 'overflow' and ex[2] == 'Sub': return s(ex[3]) == v.off and s(ex[4]) == v.bol
        text = ex[1] if ex[0] == 'str-slice' else ex[1].args[1][0] if ex[0] == 'slice' and ex[1].op == 'call' and ex[1].args[0] == 'as_bytes' else None
        if text is not None:
            lo, hi = ex[2], ex[3]
            if text.op == 'slice':
                # a part of what follows a place
                if text.args[2] is not self.e.length(text.args[0]): return False
                lo, hi, text = self.e.add(text.args[1], lo), self.e.add(text.args[1], hi), text.args[0]
        if text is not None and s(text) == v.code:
            good = lambda t: s(t) in (v.sol, v.off, '%s+%s' % (v.off, v.span), '%s+%s' % (v.span, v.off)) or t is self.e.length(text) or (t.op == 'k' and t.args[1] == 0)
            order = lambda t: 0 if t.op == 'k' else 1 if s(t) == v.sol else 2 if s(t) == v.off else 3 if v.span in s(t) else 4
            if good(lo) and good(hi): return order(lo) <= order(hi) and (order(hi), order(lo)) != (3, 3)
            return s(lo) in (v.sol, v.off) and v.eol(hi, facts)
        return False

    def owner(self, ex):
        for y in ex:
            if not isinstance(y, Term): continue
            for t in within(y):
                if t.op == 'fld' and t.args[2] in ('bytes_from_start', 'bytes_from_start_of_line', 'source_code') and t.args[0].op != 'agg': return t.args[0]
        return None

    def stored(self, facts):
        """The exit needs a value from a map that no value put into it can be."""
        for t, (pos, vals) in facts.items():
            if t.op != 'discr': continue
            v = t.args[0]
            if not (v.op == 'fld' and v.args[1] == 'Some' and v.args[0].op == 'call' and v.args[0].args[0] == 'map_get'): continue
            def wrong(y, known, adt=t.args[1], pos=pos, vals=vals):
                if y.op == 'agg': return (K('var', y.args[1]) in vals) != pos
                f = known.get(T('discr', y, adt))
                if f is None: return False
                if pos: return not (f[1] & vals) if f[0] else vals <= f[1]
                return f[0] and f[1] <= vals
            if self.values(v.args[0].args[1][0], wrong, facts, set()): return True
        return False

    def values(self, m, ok_, known, seen):
        if m in seen: return True
        seen.add(m)
        if m.op == 'map': return True
        if m.op == 'ins': return ok_(m.args[2], known) and self.values(m.args[0], ok_, known, seen)
        if m.op == 'rem': return self.values(m.args[0], ok_, known, seen)
        if m.op == 'phi':
            key = (m.args[2], m.args[3])
            info = self.lin.records(m)
            recs = info['entry'] + info['back']
            return bool(recs) and all(r[0].get(key) is not None and self.values(r[0][key], ok_, r[1], seen) for r in recs)
        return False


def str_like(v): return v.op in ('cat',) or v.op == 'k' and v.args[0] == 'str'


# ---- all functions of a part of the program -----------------------------------------------------------
class Sweep:
    def __init__(self, ctx, mine):
        self.ctx = ctx
        F = ctx.F
        self.all = sorted((f for f in F.fns.values() if f.crate != 'models' and not f.derived), key=lambda f: f.path)
        self.fs = [f for f in self.all if mine(f)]
        self.names = {f.path: named(f.name or short(f.path), havoc=False) for f in self.all if f.kind != 'closure' and fallible(f)}
        self.inl = {}       # function -> functions judged inside it
        self.bad = {}       # function -> exits not justified
        self.exits = 0
        self.seen = None
        self.callers = {}
        for f in self.all:
            for i, c, b in calls_in(F, f, lambda c: True):
                for q in {c['path'], c.get('res')}:
                    if q and f.crate != 'models': self.callers.setdefault(q, set()).add(self.home(f))

    def home(self, f):
        """The function a closure is written in."""
        return re.sub(r'(::\{closure#\d+\})+$', '', f.path)

    def look(self, key, run):
        """Explores something; what is not justified, and the functions looked at."""
        ctx = self.ctx
        before, ctx.functions = ctx.functions, set()
        try: g = run()
        finally: inner, ctx.functions = ctx.functions, before | ctx.functions
        j = Judge(ctx, g)
        g.canon = j.c
        if self.seen: self.seen(g)
        bad = []
        for x in g.exits:
            if x.info['kind'] == 'return': continue
            self.exits += 1
            why = j.fine(x)
            if why is None: bad.append((x, j, g))
        return bad, {self.home(ctx.F.fns[u]) for u in inner if u in ctx.F.fns}

    def one(self, f, open_=()):
        anchors = {k: v for k, v in self.names.items() if k != f.path and k not in open_}
        bad, inl = self.look(f.path, lambda: self.ctx.explore(f, anchors=anchors, limit=100))
        if bad:
            try: bad, inl = self.look(f.path, lambda: self.ctx.explore(f, anchors=anchors, limit=200, opts=RICH))
            except (AnalysisError, Timeout): pass
        mine = set() if not bad else self.helpers({f.path, *open_}) & set(anchors)
        if mine:
            anchors = {k: v for k, v in anchors.items() if k not in mine}
            try: bad, inl = self.look(f.path, lambda: self.ctx.explore(f, anchors=anchors, limit=200, opts=RICH))
            except (AnalysisError, Timeout): pass
        return bad, inl

    def helpers(self, fs):
        """Private functions that only these call."""
        F = self.ctx.F
        return {q for q in self.names if self.callers.get(q, {None}) <= fs and all(not h.pub and not h.trait for h in F.bypath.get(q, ()))}

    def run(self, macros=()):
        ctx = self.ctx
        self.macro = ctx.inside = set()
        for name, kw in macros:
            def m(name=name, kw=kw):
                bad, inl = self.look(name, lambda: invoke(ctx, name, **kw))
                if bad: bad, inl = self.look(name, lambda: invoke(ctx, name, **dict(kw, opts=dict(RICH, houdini=False))))
                self.macro |= inl
                self.report('(%%%s ...)' % name, bad)
            ctx.attempt('aborts', '(%%%s ...)' % name, m)
        for f in self.fs:
            if f.path in self.macro and self.callers.get(f.path, set()) <= self.macro: continue
            if f.kind != 'closure': ctx.attempt('aborts', f.path, lambda: self.function(f))
        for f in self.fs:
            # functions handed on to something that is not followed
            if f.kind == 'closure' and f.uid not in ctx.functions: ctx.attempt('aborts', f.path, lambda: self.report(f.path, self.one(f)[0]))

    def function(self, f):
        bad, inl = self.one(f)
        if not bad: return self.report(f.path, bad)
        if f.path in self.macro: return self.ctx.ok('aborts', f.path, 'decided for every macro that uses it')
        if self.const(f): return self.ctx.ok('aborts', f.path, 'run by the compiler')
        up = self.above(f)
        if up is None: return self.report(f.path, bad)
        self.upwards(f, up, {f.path}, bad)

    def const(self, f):
        """Nothing that runs uses it."""
        return f.name != 'main' and not f.pub and not f.trait and not self.callers.get(f.path)

    def above(self, f):
        """The functions that call it, when all of them are known."""
        if f.trait or re.search(r' as .*>::', f.path): return None
        h = {c for c in self.callers.get(f.path, ()) if c != f.path}
        return h or None

    def upwards(self, f, up, open_, bad, depth=0):
        """Decides the function in the places it is called from."""
        if depth > 3: return self.report(f.path, bad)
        for h in sorted(up):
            for q in self.ctx.F.bypath.get(h, ()):
                b, inl = self.one(q, open_)
                if f.path not in inl: self.report(f.path, bad); return
                if not b: self.ctx.ok('aborts', '%s in %s' % (f.path, h)); continue
                if h in self.macro: continue
                higher = self.above(q)
                if higher is None: self.report(h, b)
                else: self.upwards(q, higher, open_ | {h}, b, depth + 1)

    def report(self, where, bad):
        if not bad: return self.ctx.ok('aborts', where)
        for x, j, g in bad:
            ex = tuple(x.info.get('extra') or ('',))
            self.ctx.violation('aborts', where, self.ctx.span(g, x.id), 'may abort the program: %s %s' % (x.info['kind'], ' '.join(j.text(y)[:120] for y in ex)[:300]))
