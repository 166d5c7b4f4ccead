"""Generating output and printing errors never crashes."""
from panics import *
import effects
from props import S06
from props.S06 import SITE

TECHNIQUE = 'enumeration of every panicking operation reachable in the generators, the error messages and the command line, each refuted by path facts, inductive loop facts, linear arithmetic or the cursor typestate that positions lie within their text'
NOTE = 'exhaustion of the stack and of memory, and a standard output that cannot be written to, excepted'
MIN_OBLIGATIONS = 100

MINE = ('assemble/', 'parse/tokens.rs', 'parse/parser.rs', 'src/lib.rs', 'src/bin.rs', 'parse/mod.rs')


def mine(f): return any(m in (f.span or [''])[0] for m in MINE) and not re.match(r'seam::parse::parser::Parser(?:::<.*?>)?::', f.path)


def check(ctx):
    s = Sweep(ctx, mine)
    s.run()
    ctx.floor('calls of libraries', effects.library(ctx, mine), 200)
    ctx.floor('borrows of cells', effects.guards(ctx, mine), 0)
    # positions lie within their text
    ctx.attempt('lines', 'consume', lambda: S06.lines(ctx))
    ctx.attempt('made', 'Site', lambda: S06.made(ctx))
    ctx.attempt('constants', 'Site', lambda: constants(ctx))
    ctx.floor('functions', len(s.fs), 60)
    ctx.floor('panicking operations', s.exits, 30)


def constants(ctx):
    """A position that is no position lies within its text too."""
    names = [n for n, _ in ctx.F.adts[SITE]['variants'][0]['fields']]
    n = 0
    def walk(x):
        if isinstance(x, (list, tuple)):
            if len(x) == 4 and x[0] == 'adt' and isinstance(x[1], str) and re.match(re.escape(SITE) + r'\b', x[1]): yield x[3]
            for y in x: yield from walk(y)
    where = [(c['path'], c['span'], c['val']) for c in ctx.F.consts.values()]
    where += [(f.path, f.span, f.blocks) for f in ctx.F.fns.values() if f.crate != 'models']
    for path, span, x in where:
        for v in walk(x):
            n += 1
            d = dict(zip(names, (y[1] if isinstance(y, (list, tuple)) and y[0] in ('int', 'str') else None for y in v)))
            text, at, col, size = (d.get(k) for k in ('source_code', 'bytes_from_start', 'bytes_from_start_of_line', 'bytes_span'))
            good = isinstance(text, str) and text.isascii() and None not in (at, col, size) and 0 <= col <= at and at + size <= len(text)
            ctx.require(good, 'constants', path, 'a constant position lies outside of its text', span)
    ctx.floor('constant positions', n, 1)
