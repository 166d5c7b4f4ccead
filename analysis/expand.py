"""Shared parts of the macro-expansion properties: one macro invocation by name, with the
expansion of sub-trees, bindings and definitions as named operations."""
from common import *

MA = 'seam::parse::macros::'
CLONE = "<seam::parse::expander::Expander<'a> as std::clone::Clone>::clone"


def clone_ctx(e, st, c, args, t, blk, node, ev):
    return e.unique(st, 'clone', args, t, blk, node, ev, havoc=False)


def ops(ctx, drop=()):
    a = {CLONE: clone_ctx}
    for n in ('expand_nodes', 'expand_node', 'expand_invocation', 'bind', 'bind_list', 'insert_variable', 'get_variable',
              'has_variable', 'register_parser', 'create_subcontext', 'remove_subcontext'):
        if n not in drop: a[EX + n] = named(n, havoc=False)
    return a


ATOM = {k: 'atom' for k in ('Symbol', 'Number', 'String', 'Raw')}
KINDS = {'Literal': ('Symbol', 'Number', 'String', 'Raw'), 'String': ('String', 'Raw'), 'Symbol': ('Symbol',), 'Number': ('Number',),
         'Symbolic': ('Symbol', 'Number'), 'List': ('List',), 'Any': ('Symbol', 'Number', 'String', 'Raw', 'List', 'Attribute')}


def key_of(k): return k.args[1] if k.op == 'k' else None


class Decl:
    """The declared arguments of one macro, read from the rules it hands to the argument parser."""

    def __init__(self, ctx, force=None):
        self.ctx = ctx
        self.force = force or {}     # key -> the value given for it, or None: not given
        self.pos = {}        # key -> (mandatory, type, allowed values or None)
        self.rest = None
        self.calls = set()   # (call node, arguments) terms given to the parser

    def matcher(self, fn):
        """Keys accepted by a position matcher, or None if that is not decided."""
        strs = set()

        def leaves(x):
            if isinstance(x, str): strs.add(x)
            elif isinstance(x, (list, tuple)): [leaves(y) for y in x]
            elif isinstance(x, dict): [leaves(y) for y in x.values()]
        leaves([b['s'] for b in fn.blocks] + [b['t'] for b in fn.blocks])
        strs = sorted(x for x in strs if re.fullmatch(r'[\w -]{1,24}', x))
        q = T('call', 'key', ())

        def run(v, setup=None):
            g = self.ctx.explore(fn, anchors={MA + 'ArgMatcher::unwrap': lambda e, st, c, args, t, blk, node, ev: e.done(st, t, v)}, setup=setup)
            return {x.info['value'] if x.info['kind'] == 'return' else None for x in g.exits}
        pos = lambda n, v: agg(MA + 'ArgPos', n, ('0',), (v,))
        keys = set()
        for k in [kint(n) for n in range(12)] + [kstr(x) for x in strs]:
            r = run(pos('Int' if k.args[0] == 'int' else 'Str', k))
            if r == {TRUE}: keys.add(k.args[1])
            elif r != {FALSE}: return None
        if run(pos('Int', q), lambda e, st: st.facts.__setitem__(T('lt', kint(11), q), (True, frozenset([TRUE])))) != {FALSE}: return None
        if run(pos('Str', q), lambda e, st: st.facts.__setitem__(q, (False, frozenset(kstr(x) for x in strs)))) != {FALSE}: return None
        return keys

    def typ(self, t):
        if t.op != 'agg' or t.args[0] != MA + 'ArgType': raise AnalysisError('argument type not constant: %s' % terms.show(t))
        p = t.args[3][0]
        if p.op != 'seq': raise AnalysisError('argument predicates not constant')
        vals = None
        for k, x in p.args[0]:
            if k == 's' or x.op != 'agg' or x.args[1] != 'Exactly' or x.args[3][0].op != 'k': return t.args[1], ('?',)
            vals = (vals or ()) + (x.args[3][0].args[1],)
        return t.args[1], tuple(sorted(vals)) if vals else None

    def read(self, st, e, rules):
        if rules.op != 'agg': raise AnalysisError('argument rules not constant: %s' % terms.show(rules))
        d = dict(zip(rules.args[2], rules.args[3]))
        pats, tr = d['patterns'], d['trailing']
        if pats.op != 'seq' or tr.op != 'agg': raise AnalysisError('argument rules not constant')
        pos, rest = {}, None
        for k, x in pats.args[0]:
            f = dict(zip(x.args[2], x.args[3]))
            a, m = f['argument'], f['pattern']
            if m.op != 'k' or m.args[0] != 'fn': raise AnalysisError('position matcher not constant')
            fn = self.ctx.F.fns.get(str(m.args[1]).split('|')[0]) or self.ctx.F.fns.get(m.args[1])
            keys = self.matcher(fn)
            if keys is None: raise AnalysisError('position matcher %s not decided' % fn.path)
            for q in keys:
                if q not in pos: pos[q] = (a.args[1] == 'Mandatory',) + self.typ(a.args[3][0])
        if tr.args[1] == 'Some': rest = self.typ(tr.args[3][0])
        if self.calls and (pos, rest) != (self.pos, self.rest): raise AnalysisError('two argument declarations')
        self.pos, self.rest = pos, rest

    def new(self, e, st, c, args, t, blk, node, ev):
        a = [e.resolve(st, x) for x in args]
        self.read(st, e, a[0])
        e.kindof = self.kindof
        self.calls.add(tuple(a[1:]))
        ev1 = ('call', 'args', tuple(a[1:]), T('call', 'parsed', ()))
        s2 = st.copy()
        return e.done(st, t, ok(T('call', 'parsed', ())), [ev1]) + e.done(s2, t, err(T('call', 'badargs', ())), [ev1])

    def kindof(self, st, v, adt):
        if adt != PN or v.op != 'elem': return None
        if self.rest and v.args[0].op == 'fld' and v.args[0].args[2] == 'trailing' and v.args[0].args[0].op == 'call' and v.args[0].args[0].args[0] == 'parsed':
            return (True, frozenset(K('var', n) for n in KINDS[self.rest[0]]))
        return None

    def param(self, e, st, key):
        if key.op != 'k': raise AnalysisError('argument read under a computed key: %s' % terms.show(key))
        p = T('call', 'param', (key,))
        d = self.pos.get(key.args[1])
        if d and self.force.get(key.args[1]) is not None: d = d[:2] + ((self.force[key.args[1]],),)
        if d:
            st.facts[T('discr', p, PN)] = (True, frozenset(K('var', n) for n in KINDS[d[1]]))
            if d[2]:
                for n in KINDS[d[1]]:
                    if n in ('List', 'Attribute'): continue
                    st.facts[e.field(e.field(p, n, '0'), None, 'value')] = (True, frozenset(kstr(x) for x in d[2]))
        return p, d

    def get(self, e, st, c, args, t, blk, node, ev):
        p, d = self.param(e, st, e.resolve(st, args[1]))
        if d and d[0]: return e.done(st, t, ok(p))
        s2 = st.copy()
        return e.done(st, t, ok(p)) + e.done(s2, t, err(T('call', 'notgiven', (e.resolve(st, args[1]),))))

    def opt(self, e, st, c, args, t, blk, node, ev):
        s2 = st.copy()
        p, d = self.param(e, st, e.resolve(st, args[1]))
        out = []
        k = key_of(e.resolve(st, args[1]))
        if k in self.force:
            if self.force[k] is None: return e.done(s2, t, agg(OPT, 'None', (), ()), [('given', p, False)])
            return e.done(st, t, some(p), [('given', p, True)])
        if d is None or not d[0]: out += e.done(s2, t, agg(OPT, 'None', (), ()), [('given', p, False)])
        if d is not None: out += e.done(st, t, some(p), [('given', p, True)])
        return out

    def anchors(self):
        p = MA + "ArgParser::<'params, 'rules, 'tree>::"
        return {p + 'new': self.new, p + 'get': self.get, p + 'get_optional': self.opt}


def invoke(ctx, name, drop=(), extra=None, limit=300, opts=None, force=None, setup=None):
    """The behaviour of (%name ...)."""
    fn = ctx.fn(EX + 'expand_invocation')
    a = ops(ctx, drop)
    d = Decl(ctx, force)
    a.update(d.anchors())
    a.update(extra or {})
    args = [None] * fn.argc
    for i in range(1, fn.argc + 1):
        if fn.locals[i][0].lstrip('&').split(' ')[-1] == 'str': args[i - 1] = kstr(name)
    g = ctx.explore(fn, anchors=a, args=args, limit=limit, setup=setup, opts=dict({'same': ATOM}, **(opts or {})))
    g.decl = d
    g.canon = Canon(g)
    return g
