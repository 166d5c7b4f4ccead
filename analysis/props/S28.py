"""List and string macros return exactly their items."""
from macros import *

TECHNIQUE = 'abstract interpretation of each macro over symbolic arguments: exact shape of every returned value, loop-completeness of every successful path'
NOTE = 'item macros only; argument declarations are decided under S20, evaluation order under S17'
MIN_OBLIGATIONS = 30

ITEMS = 'list apply map filter splat strip reverse number symbol join concat string raw sort get format'.split()


def check(ctx):
    M = Macros(ctx)
    for name in ITEMS:
        def one():
            kw = {}
            g = M.get(name)
            w = M.where(name)
            results(ctx, 'result', g, w, RESULT[name])
            rounds(ctx, 'all items', g, w, early=(RX(r'fold\{.*\}\.List\.nodes'),) if name == 'get' else ())
        ctx.attempt('result', M.where(name), one)
    ctx.attempt('dropped', M.where('filter'), lambda: dropped(ctx))
    ctx.attempt('picked', M.where('get'), lambda: picked(ctx))
    ctx.attempt('logged', M.where('log'), lambda: logged(ctx))
    ctx.attempt('trailing', M.where('join'), lambda: trailing(ctx))


def dropped(ctx):
    """filter drops an expansion exactly when it is a single empty list."""
    hold = lambda t: any(a.op == 'res' and short(a.args[2]) == 'expand_invocation' for a in atoms(t))
    g = invoke(ctx, 'filter', opts={'keep': hold})
    c = g.canon
    w = '(%filter ...)'
    n = 0
    for loc, info in g.loops.items():
        for rec in info['back']:
            raw, facts = rec[0], rec[1]
            f = {abbr(c.show(t)).replace(INV, 'X'): v for t, v in facts.items() if hold(t)}
            if not any(k.startswith('kind(X)') for k in f): continue
            n += 1
            single = consts(f.get('len(X.Ok.0)'))
            kind = f.get('kind(X.Ok.0[0])')
            empty = consts(f.get('len(X.Ok.0[0].List.nodes)'))
            isnull = single == (True, {1}) and kind and kind[0] and {x.args[1] for x in kind[1]} == {'List'} and empty == (True, {0})
            notnull = excludes(single, 1) or (kind and kind[0] and 'List' not in {x.args[1] for x in kind[1]}) or excludes(empty, 0)
            grows = [k for k, v in raw.items() if v.op == 'seq' and any((x.op == 'fld' and q == 's' or x.op == 'elem' and q == 'i') and hold(x) for q, x in v.args[0])]
            kept = bool(grows)
            if grows and all(len(raw[k].args[0]) == 2 and raw[k].args[0][1][0] == 'i' for k in grows):
                ctx.require(single == (True, {1}), 'dropped', w, 'only the first of several expanded nodes can be kept (known: %s)' % sorted(f))
            if kept: ctx.require(notnull, 'dropped', w, 'an expansion can be kept although it is the empty list (known: %s)' % f)
            else: ctx.require(isnull, 'dropped', w, 'an expansion can be dropped although it is not the empty list (known: %s)' % sorted(f))
    ctx.floor('filter rounds', n, 2)


def picked(ctx):
    """get follows a name to the first attribute that has it, when it is not the position of an item."""
    g = invoke(ctx, 'get', opts={'keep': lambda t: True, 'eqs': True})
    c = g.canon
    w = '(%get ...)'
    step = re.compile(r"split\(\$1, ('/'|\$'separator')\)\[i\]")
    taken = passed = 0
    for loc, info in g.loops.items():
        for rec in info['back']:
            raw, facts = rec[0], rec[1]
            named = {}
            for t, v in facts.items():
                if t.op != 'eq' or not consts(v): continue
                for a, b in (t.args, t.args[::-1]):
                    if a.op == 'fld' and a.args[1:] == ('Attribute', 'keyword') and step.fullmatch(abbr(c.show(b))): named[a.args[0]] = (consts(v) == (True, {True}), b)
            for x in {v.args[0] for v in raw.values() if v.op == 'fld' and v.args[1:] == ('Attribute', 'node')}:
                taken += 1
                ctx.require(named.get(x, (0,))[0], 'picked', w, 'an attribute can be followed that is not named as the path says', g.fn.span)
                if not named.get(x, (0,))[0]: continue
                name = named[x][1]
                ctx.require(name.args[1].op == 'phi' and name.args[1].args[:2] == loc, 'picked', w, 'goes on looking after the first attribute of that name', g.fn.span)
            for t, v in facts.items():
                if t.op == 'discr' and t.args[0].op == 'elem' and v[0] and {x.args[1] for x in v[1]} == {'Attribute'} and not any(y.op == 'fld' and y.args[0] is t.args[0] for y in raw.values()):
                    if not re.search(r'\.List\.nodes\[', abbr(c.show(t.args[0]))): continue
                    if any(y is t.args[0] for y in raw.values()): continue
                    passed += 1
                    ctx.require(named.get(t.args[0], (1,))[0] is False, 'picked', w, 'an attribute can be passed over although it has the name', g.fn.span)
    # a position within the list is followed without looking for names
    def ev(e, c):
        if e[0] == 'lt' and e[3]:
            a, b = abbr(c.show(e[1])), abbr(c.show(e[2]))
            if re.fullmatch(r"len\(split\(\$1, ('/'|\$'separator')\)\)", b): return ['step']
            if a.startswith('parse<usize>(split($1, ') and b.endswith('.List.nodes)'): return ['inside']
        if e[0] == 'eq' and any(step.fullmatch(abbr(c.show(x))) for x in e[1:3]): return ['named' if e[3] else 'other']
        return None
    ctx.language('picked', g, ev, star(cat_(sym('step'), alt(sym('inside'), cat_(star(sym('other')), opt(sym('named')))))), canon=c)
    ctx.floor('attributes followed', taken, 1)
    ctx.floor('attributes passed over', passed, 1)


def consts(f):
    if f is None: return None
    return f[0], {x.args[1] for x in f[1]}


def excludes(f, n):
    return f is not None and ((f[0] and n not in f[1]) or (not f[0] and n in f[1]))


def trailing(ctx):
    """join ends with the separator exactly when asked to."""
    plain, more = RESULT['join']
    for val, want in (('true', more), ('false', plain), (None, plain)):
        g = invoke(ctx, 'join', force={'trailing': val})
        results(ctx, 'trailing', g, '(%%join :trailing %s ...)' % val if val else '(%join ...)', [want])


def logged(ctx):
    """log writes every item once, in order, to standard error, with where it was called."""
    g = invoke(ctx, 'log')
    def ev(e, c):
        if e[0] not in ('print', 'eprint'): return None
        s = abbr(c.show(e[1]))
        return ['logged' if e[0] == 'eprint' and re.search(r"\{site\(node\):display\}", s) and re.search(r"join\(each\{P\[i\]\.atom\.0\.value\}, ' '\) \+ '\\n'\"?$", s) else s[:200]]
    ctx.language('logged', g, ev, sym('logged'), canon=g.canon)
    rounds(ctx, 'logged', g, '(%log ...)')
