"""Expanding any document never crashes."""
from panics import *
import effects
from props.S16 import SIG
from props.S22 import INCLUDE

TECHNIQUE = 'enumeration of every panicking operation reachable in the expander and in every built-in macro, each refuted by path facts, the declared arguments, inductive loop facts or linear arithmetic'
NOTE = 'exhaustion of the stack and of memory excepted'
MIN_OBLIGATIONS = 100

MINE = ('parse/expander.rs', 'parse/macros.rs')


def mine(f): return any(m in (f.span or [''])[0] for m in MINE)


def check(ctx):
    s = Sweep(ctx, mine)
    s.seen = lambda g: invoked(ctx, g)
    s.run([(n, {'extra': INCLUDE} if n == 'include' else {}) for n in SIG])
    ctx.floor('calls of libraries', effects.library(ctx, mine), 300)
    ctx.floor('borrows of cells', effects.guards(ctx, mine), 7)
    ctx.floor('functions', len(s.fs), 60)
    ctx.floor('panicking operations', s.exits, 30)


INV = EX + 'expand_invocation'


def invoked(ctx, g):
    """Macros are invoked for lists: their own call, or one that is known to be a list."""
    f = ctx.fn(INV)
    pos = [i for i in range(1, f.argc + 1) if re.fullmatch(r"&.*ParseNode<.*>", f.locals[i][0])]
    if len(pos) != 1: raise AnalysisError('expand_invocation has %d nodes' % len(pos))
    own = g.fn.uid == f.uid
    for i in g.reach:
        for evs, m in g.nodes[i].out:
            for e in evs:
                if e[0] != 'call' or e[1] != 'expand_invocation': continue
                a = e[2][pos[0] - 1]
                sp = ctx.span(g, i)
                if own: ctx.require(a is argn(f, pos[0]), 'invoked', g.fn.path, 'a macro is invoked for %s instead of the call' % g.canon.show(a)[:120], sp)
                elif a.op == 'arg' and g.fn.path in ctx.inside: ctx.ok('invoked', g.fn.path)
                else: ctx.require(all(lists(k, a) for k in known(g, i)), 'invoked', g.fn.path, 'a macro is invoked for a node that may be no list', sp)


def lists(k, a):
    v = k.get(T('discr', a, PN))
    return a.op == 'agg' and a.args[1] == 'List' or v is not None and v == (True, frozenset([K('var', 'List')]))
