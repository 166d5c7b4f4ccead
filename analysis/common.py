"""Context of one check: facts of the current tree, exploration with the standard named
operations, obligations, violations."""
import os, re, signal, sys, time
from facts import Facts
import engine as E
from engine import Engine, AnalysisError
from terms import *
import terms
import models
from lang import *

PN = 'seam::parse::parser::ParseNode'
PNF = PN + "::<'a>::"
EX = "seam::parse::expander::Expander::<'a>::"


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout('analysis time limit')


def pure_op(name, drop=()):
    def f(e, st, c, args, t, blk, node, ev):
        return e.done(st, t, T('call', name, tuple(e.resolve(st, a) for i, a in enumerate(args) if i not in drop)))
    return f


def fallible_op(name, drop=(), okname=None):
    """A pure operation that can fail: forks into Ok(okname(args)) and Err."""
    def f(e, st, c, args, t, blk, node, ev):
        ra = tuple(e.resolve(st, a) for i, a in enumerate(args) if i not in drop)
        return e.done(st, t, T('call', name, ra))
    return f


def set_ws(e, st, c, args, t, blk, node, ev):
    loc = models.location(e, st, args[0])
    if loc is None: loc = (T('D', args[0]), ())
    e.write(st, loc[0], loc[1], T('call', 'with_ws', (e.read(st, *loc), e.resolve(st, args[1]))))
    return e.done(st, t, UNIT)


def named(name, drop=(), havoc=True):
    return {'name': name, 'skip': drop, 'havoc': havoc}


def node_ops():
    return {PNF + 'site': pure_op('site'), PNF + 'owned_site': pure_op('site'), PNF + 'node_type': pure_op('node_type'),
            PNF + 'leading_whitespace': pure_op('ws'), PNF + 'set_leading_whitespace': set_ws,
            'seam::parse::tokens::Site::<\'a>::unknown': pure_op('nosite')}


class Ctx:
    def __init__(self, pid, facts, tier='quick'):
        self.pid, self.F, self.tier = pid, facts, tier
        self.violations = {}
        self.obligations = []
        self.functions = set()
        self.sites = 0
        self.states = 0
        self.edges = 0
        self.notes = []
        signal.signal(signal.SIGALRM, _alarm)

    # ---- lookup --------------------------------------------------------------------
    def fn(self, path, optional=False):
        """A function by path; falls back to the only function of that name."""
        l = self.F.bypath.get(path, [])
        if len(l) == 1: return l[0]
        name = path.split('::')[-1]
        base = re.sub(r".*?(\w+)(?:::)?(<.*?>)?(?: as .*)?>?::\w+$", r'\1', path)
        cand = [f for f in self.F.fns.values() if f.crate != 'models' and f.kind != 'closure' and f.path.endswith('::' + name) and base in f.path]
        if len(cand) == 1: return cand[0]
        cand = [f for f in self.F.fns.values() if f.crate != 'models' and f.kind != 'closure' and (f.name == name or f.path.endswith('::' + name))]
        if len(cand) == 1: return cand[0]
        if optional: return None
        self.violation('missing:' + path, path, None, 'function to analyse not found (the rule has no instance to decide)')
        return None

    # ---- exploration ------------------------------------------------------------------
    def explore(self, fn, anchors=None, args=None, setup=None, limit=200, opts=None, nodeops=True):
        a = node_ops() if nodeops else {}
        a.update(anchors or {})
        for k in list(a):
            for f in self.F.bypath.get(k, ()):
                if f.trait: a.setdefault(f.uid, a[k])
        e = Engine(self.F, a, opts)
        signal.alarm(limit)
        try:
            g = e.explore(fn, args=args, setup=setup)
        finally:
            signal.alarm(0)
        self.functions |= {u for u, _ in e.visited if not u.startswith('models')}
        self.states += len(g.reach)
        self.edges += sum(len(g.nodes[i].out) for i in g.reach)
        return g

    def attempt(self, rule, path, fnc):
        """Runs one obligation; an analysis failure is an undecided (failed) obligation."""
        try:
            return fnc()
        except (AnalysisError, Timeout, KeyError, IndexError, AttributeError, TypeError, RecursionError, ValueError) as x:
            import traceback
            tb = traceback.extract_tb(x.__traceback__)[-1]
            if os.environ.get('SEAM_DEBUG'): traceback.print_exc()
            self.violation(rule + ':undecided', path, None, 'cannot be decided: %s: %s (%s:%d)' % (type(x).__name__, str(x)[:200], os.path.basename(tb.filename), tb.lineno))

    # ---- results -----------------------------------------------------------------------
    def ok(self, rule, where, detail=''):
        self.obligations.append((rule, where, True, detail))

    def violation(self, rule, where, span, msg, trace=None):
        self.obligations.append((rule, where, False, msg))
        key = '%s @ %s' % (rule, where)
        self.violations.setdefault(key, {'rule': rule, 'function': where, 'span': span, 'message': msg, 'trace': trace or []})

    def require(self, cond, rule, where, msg, span=None, trace=None):
        if cond: self.ok(rule, where)
        else: self.violation(rule, where, span, msg, trace)
        return bool(cond)

    def floor(self, name, n, least):
        self.require(n >= least, 'floor:' + name, name, 'only %d instances found, expected at least %d' % (n, least))

    def language(self, rule, g, evmap, spec, accept=is_ok, canon=None, nonempty=True):
        """Every accepted path of g is a word of spec."""
        n = automaton(g, evmap, accept, canon)
        where = g.fn.path
        if nonempty and not n.accept:
            return self.violation(rule, where, g.fn.span, 'no path reports success')
        self.sites += sum(len(x) for x in n.trans.values())
        r = included(n, spec)
        if r is None: return self.ok(rule, where, '%d states' % len(n.live))
        tr, label, origin, exp = r
        sp = self.span(g, origin[0]) if origin else None
        self.violation(rule, where, sp, 'unexpected %s after: %s; expected one of: %s' % (label if not isinstance(label, tuple) else repr(label[1]), words(tr)[-600:], ', '.join(sorted({str(x[1] if isinstance(x, tuple) else x) for x in exp}))[:500]), tr)

    def span(self, g, nid):
        """Source position of a node, outermost program function."""
        n = g.nodes[nid]
        seen = set()
        while n.loc is None and n.inn and n.id not in seen:
            seen.add(n.id); n = g.nodes[n.inn[0]]
        if n.kind == 'exit' or n.loc is None: return n.info['span'] if n.info else None
        ctx, blk = n.loc
        fn = self.F.fns.get(ctx.args[1])
        while fn is not None and fn.crate == 'models' and ctx.args[0] is not None:
            blk = ctx.args[2]; ctx = ctx.args[0]; fn = self.F.fns.get(ctx.args[1])
        if fn is None or blk < 0: return fn.span if fn else None
        return fn.blocks[blk]['sp']


def spanstr(sp):
    if not sp: return '?'
    return '%s:%s' % (sp[0], sp[1]) if isinstance(sp, (list, tuple)) else str(sp)


# ---- common helpers for setups -----------------------------------------------------------
def fact(st, t, *consts, positive=True):
    st.facts[t] = (positive, frozenset(consts))


def variant(st, t, adt, name):
    st.facts[T('discr', t, adt)] = (True, frozenset([K('var', name)]))


def arg(fn, name):
    for i in range(1, fn.argc + 1):
        if fn.locals[i][1] == name: return T('arg', i, name)
    return None


def argn(fn, i):
    return T('arg', i, fn.locals[i][1] or 'arg%d' % i)


def calls_in(F, fn, pred):
    """(block index, callee) of calls in one body that satisfy pred."""
    out = []
    for i, b in enumerate(fn.blocks):
        t = b['t']
        if t[0] == 'call' and t[1][0] == 'fn' and pred(t[1][1]): out.append((i, t[1][1], b))
    return out
