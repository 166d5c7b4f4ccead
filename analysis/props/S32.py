"""Dates and times are converted as asked."""
from macros import *

TECHNIQUE = 'abstract interpretation: the result of date and timestamp as a term over their arguments, per combination of arguments given'
NOTE = 'calendar, formats and time zone rules are those of the chrono library (assumed); decided is which instant, format and zone it is handed, and what is made of its answers'
MIN_OBLIGATIONS = 12

LOCAL = 'east_opt(local_minus_utc(offset(now()))).Some.0'
HOURS = r"east_opt\(to_num\(checked_round\(checked_mul_int\(\w+(?:<[^()]*>)?\(\$'timezone'\)\.Ok\.0, 3600\)\.Some\.0\)\.Some\.0\)\)\.Some\.0"
GIVEN = re.escape('from_timestamp(parse<i64>($2).Ok.0, 0).Some.0')
NODE = r'Ok\(\[ParseNode::%s\(Node\{value: \{%s:display\}, site: site\(node\), leading_whitespace: ws\(node\)\}\)\]\)'


def check(ctx):
    for tz in (False, True):
        for at in (False, True): ctx.attempt('date', '(%date ...)', lambda: date(ctx, at, tz))
        ctx.attempt('timestamp', '(%timestamp ...)', lambda: stamp(ctx, tz))


def zone(tz): return HOURS if tz else re.escape(LOCAL)


def date(ctx, at, tz):
    g = invoke(ctx, 'date', force={2: '1' if at else None, 'timezone': '1' if tz else None}, opts={'keep': lambda t: t.op == 'discr'})
    w = '(%%date format%s%s)' % (' instant' * at, ' :timezone hours' * tz)
    want = NODE % ('String', r'format\(with_timezone\(%s, %s\), \$1\)' % (GIVEN if at else r'now\(\)', zone(tz)))
    n = 0
    for x in g.exits:
        if not is_ok(x): continue
        n += 1
        s = abbr(g.canon.show(x.info['value']))
        ctx.require(re.fullmatch(want, s), 'date', w, 'is %s' % s[:400], ctx.span(g, x.id))
    ctx.require(n, 'date', w, 'never succeeds', g.fn.span)


def stamp(ctx, tz):
    g = invoke(ctx, 'timestamp', force={'timezone': '1' if tz else None}, opts={'keep': lambda t: t.op == 'discr'})
    c = g.canon
    w = '(%%timestamp format text%s)' % (' :timezone hours' * tz)
    whole = NODE % ('Number', r'timestamp\(parse_from_str\(\$2, \$1\)\.Ok\.0\)')
    part = NODE % ('Number', r'timestamp\((?:earliest|latest|single)\(from_local_datetime\(%s, parse_from_str\(\$2, \$1\)\.Ok\.0\)\)\.Some\.0\)' % zone(tz))
    seen = set()
    for x in g.exits:
        if not is_ok(x): continue
        s = abbr(c.show(x.info['value']))
        m = 'whole' if re.fullmatch(whole, s) else 'part' if re.fullmatch(part, s) else None
        seen.add(m)
        ctx.require(m, 'timestamp', w, 'is %s' % s[:400], ctx.span(g, x.id))
        failed = [t for t, (p, vs) in x.info['facts'].items() if t.op == 'discr' and abbr(c.show(t.args[0])) == 'parse_from_str($2, $1)' and p and {str(v.args[1]) for v in vs} == {'Err'}]
        if m == 'part': ctx.require(failed, 'timestamp', w, 'the zone is added although the text may name one', ctx.span(g, x.id))
        if m == 'whole': ctx.require(not failed, 'timestamp', w, 'a zone is read from a text that names none', ctx.span(g, x.id))
    ctx.require(seen == {'whole', 'part'}, 'timestamp', w, 'texts are read as %s' % sorted(map(str, seen)), g.fn.span)
