"""The tree builder (Parser): what it does with the tokens it reads."""
from macros import *

LX = 'seam::parse::lexer::Lexer::'
PA = 'seam::parse::parser::Parser::'
VER = T('D', T('arg', 0, 'position'))      # how far the reader has got


class Ops:
    """Operations of the reader as the tree builder sees them.  A position is a term;
    looking ahead and reading at the same position give the same token (S05)."""
    def __init__(self, guard):
        self.guard = guard              # guard(what, engine, state, node): told when something is read at a position that may be the end

    def ver(self, e, st): return e.read_root(st, VER)

    def need(self, what, e, st, ver, node):
        f = st.facts.get(T('call', 'eof', (ver,)))
        self.guard(what, f == (True, frozenset([FALSE])), e, node)

    def eof(self, e, st, c, args, t, blk, node, ev):
        return e.done(st, t, T('call', 'eof', (self.ver(e, st),)))

    def peek(self, e, st, c, args, t, blk, node, ev):
        v = self.ver(e, st)
        self.need('peek', e, st, v, node)
        return e.done(st, t, T('call', 'token', (v,)))

    def consume(self, e, st, c, args, t, blk, node, ev):
        v = self.ver(e, st)
        self.need('consume', e, st, v, node)
        ev.append(('call', 'consume', (v,), T('call', 'token', (v,))))
        e.write(st, VER, (), T('call', 'next', (v,)))
        return e.done(st, t, T('call', 'token', (v,)))

    def expr(self, e, st, c, args, t, blk, node, ev):
        v = self.ver(e, st)
        self.need('parse_expr', e, st, v, node)
        ev.append(('call', 'expr', (v,), T('call', 'expr', (v,))))
        e.write(st, VER, (), T('call', 'after', (v,)))
        return e.done(st, t, T('call', 'expr', (v,)))

    def anchors(self):
        return {LX + 'eof': self.eof, LX + 'peek': self.peek, LX + 'consume': self.consume, PA + 'parse_expr': self.expr}


def explore(ctx, name, guard=None, sanitize=True, opts=None):
    f = ctx.fn(PA + name)
    if f is None: return None
    a = Ops(guard or (lambda *x: None)).anchors()
    if sanitize:
        for n in ('escape_sanitize', 'escape_string'):
            h = ctx.fn('seam::parse::parser::' + n, optional=True)
            if h is not None: a[h.path] = pure_op(n)
    p0 = T('arg', 0, 'start')

    def setup(e, st):
        st.store[VER] = p0
        if name != 'parse': fact(st, T('call', 'eof', (p0,)), FALSE)
    return ctx.explore(f, anchors=a, setup=setup, opts=dict({'keep': lambda t: True}, **(opts or {})))
