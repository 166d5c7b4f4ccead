"""Files are searched for where and in the order asked."""
from macros import *
from props.S22 import INCLUDE

TECHNIQUE = 'path language of the search loops of include and embed, and value analysis of the names tried, the list of directories and the text read'
NOTE = 'which nodes the included text is read as is the subject of S07; -I options are collected under S15'
MIN_OBLIGATIONS = 20

PATH = 'join(self.includes[i], P[0].atom.0.value)'
STEM = r'file_name\(%s\)(?:\.Some\.0)?' % re.escape(PATH)
FOUND = {'include': 'parser_for_file', 'embed': 'read_to_string'}


def check(ctx):
    M = Macros(ctx)
    for name in ('include', 'embed'): ctx.attempt('search', M.where(name), lambda: search(ctx, M, name))
    ctx.attempt('result', M.where('include'), lambda: result(ctx, M))
    ctx.attempt('read', 'parser_for_file', lambda: read(ctx))
    ctx.attempt('directories', 'Expander::new', lambda: directories(ctx))


def candidate(s):
    """Which of the two names of a directory a path term is."""
    if s == PATH: return 'exact'
    if not s.count("'.sex'") == 1 or PATH not in s or 'with_extension' in s or 'set_extension' in s: return s
    # the same directory and file name, with the suffix added behind it
    add = r"(?:upd\(push\(upd\(push\((?:new\(\)|\[\]|''), X\), 0\), '\.sex'\), 0\)|upd\(push\((?:to_os_string|to_owned)?\(?X\)?, '\.sex'\), 0\)|\"?X \+ '\.sex'\"?|\"\{X:display\} \+ '\.sex'\")".replace('X', STEM)
    whole = [r'upd\(push\(upd\(pop\(%s\), 0\), %s\), 0\)' % (re.escape(PATH), add), r'with_file_name\(%s, %s\)' % (re.escape(PATH), add),
             r"join\(self\.includes\[i\], \"?P\[0\]\.atom\.0\.value \+ '\.sex'\"?\)"]
    return 'sex' if any(re.fullmatch(w, s) for w in whole) else s


def ev(name):
    op = FOUND[name]
    def f(e, c):
        if e[0] in ('call', 'ext') and short(e[1]) == op: return ['try ' + candidate(abbr(c.show(e[2][0])))]
        if e[0] == 'call' and short(e[1]) in ('register_parser', 'parse', 'expand_node', 'expand_nodes', 'insert_variable'):
            s = abbr('%s(%s)' % (short(e[1]), ', '.join(c.show(x) for x in e[2])))
            m = re.fullmatch(r'register_parser\(self, %s\((.*)\)\.Ok\.0\)' % op, s)
            if m: return ['register ' + candidate(m.group(1))]
            if re.fullmatch(r'parse\(register_parser\(self, %s\(.*\)\.Ok\.0\)\)' % op, s): return ['parse']
            if s == 'expand_nodes(self, params)': return ['arguments']
            if re.fullmatch(r'expand_node\(self, parse\(register_parser\(self, .*\)\)\.Ok\.0\[i\]\)', s): return ['expand']
            if re.fullmatch(r'expand_nodes\(self, parse\(register_parser\(self, .*\)\)\.Ok\.0\)', s): return ['expand all']
            return [s]
        if e[0] == 'is' and e[1].op == 'res':
            n = short(e[1].args[2])
            if n == op: return ['found' if e[2] == ('Ok',) else 'absent']
            if n in ('parse', 'expand_node'): return ['%s %s' % (n, '|'.join(e[2]))]
            return None
        if e[0] == 'lt':
            m = more(e, c)
            if not m: return None
            if m[1] == 'self.includes': return [m[0] + ' directories']
            if abbr(m[1]).startswith('parse(register_parser('): return [m[0] + ' nodes']
        return None
    return f


def is_err(x, c=None): return x.info['kind'] == 'return' and not is_ok(x)


def search(ctx, M, name):
    g = M.get(name, extra=INCLUDE)
    s = sym
    if name == 'include':
        miss = cat_(s('more directories'), s('try exact'), s('absent'), opt(cat_(s('try sex'), s('absent'))))
        hit = cat_(s('more directories'), s('try exact'), alt(cat_(s('found'), s('register exact')), cat_(s('absent'), s('try sex'), s('found'), s('register sex'))))
        each = cat_(s('more nodes'), s('expand'), s('expand_node Ok'))
        tail = alt(cat_(star(each), s('end nodes')), s('expand all'))
        bad = cat_(s('parse'), alt(s('parse Err'), cat_(s('parse Ok'), alt(cat_(star(each), s('more nodes'), s('expand'), s('expand_node Err')), s('expand all')))))
        good = cat_(s('parse'), s('parse Ok'), tail)
    else:
        miss = cat_(s('more directories'), s('try exact'), s('absent'))
        hit = cat_(s('more directories'), s('try exact'), s('found'))
        good, bad = cat_(), None
    ctx.language('search', g, ev(name), cat_(s('arguments'), star(miss), hit, good), canon=g.canon)
    fails = alt(cat_(), cat_(star(miss), s('end directories')))
    if bad is not None: fails = alt(fails, cat_(star(miss), hit, bad))
    ctx.language('failure', g, ev(name), cat_(s('arguments'), fails), accept=is_err, canon=g.canon)
    # the directory tried is the one of the round, from the first on, one after another
    n = 0
    for loc, info in g.loops.items():
        keys = {k for rec in info['back'] for k in rec[0]}
        for k in keys:
            if 'pos' not in str(k[1]): continue
            ents = {rec[0].get(k) for rec in info['entry']}
            n += 1
            ctx.require(ents <= {kint(0)}, 'search', M.where(name), 'a loop starts at %s' % [g.canon.show(x) for x in ents if x is not None], g.fn.span)
    # a name without a last part has no second candidate: only then may it be left out
    if name == 'include':
        n = 0
        exact = 'kind(parser_for_file(%s))' % PATH
        for loc, info in g.loops.items():
            for rec in info['back']:
                f = {abbr(g.canon.show(t)): v for t, v in rec[1].items()}
                if (True, frozenset([TRUE])) != f.get('(i<len(self.includes))') or any(k.startswith('kind(parse(') for k in f): continue
                n += 1
                tried = any(k.startswith('kind(parser_for_file(') and "'.sex'" in k for k in f)
                none = any(k.startswith('kind(file_name(') and v[0] and {y.args[1] for y in v[1]} == {'None'} for k, v in f.items())
                ctx.require(tried or none, 'search', M.where(name), 'a directory can be left without trying the name with .sex', g.fn.span)
        ctx.floor('rounds of the search', n, 1)


def result(ctx, M):
    g = M.get('include', extra=INCLUDE)
    n = 0
    for x in g.exits:
        if not is_ok(x): continue
        n += 1
        s = shown(g, x)
        m = re.fullmatch(r'Ok\((.*)\{\[0\]:=with_ws\((.*)\[0\], ws\(node\)\)\}\)', s)
        body = s[3:-1]
        if '{[0]:=' in s:
            ctx.require(m and m.group(1) == m.group(2), 'result', M.where('include'), 'returns %s' % s[:300], x.info['span'])
            if m: body = m.group(1)
        one = r'parse\(register_parser\(self, parser_for_file\((?:(?! \| ).)*\)\.Ok\.0\)\)\.Ok\.0'
        item = r'\.\.expand_node\(self, %s\[i\]\)\.Ok\.0' % one
        good = re.fullmatch(r'each\{%s(?: \| %s)*\}' % (item, item), body) or re.fullmatch(r'expand_nodes\(self, %s\)\.Ok\.0' % one, body) or body == '[]'
        ctx.require(good, 'result', M.where('include'), 'returns %s' % s[:300], x.info['span'])
        if body == '[]': ctx.require(any('parse(' in g.canon.show(t) and t.op == 'len' and v == (True, frozenset([kint(0)])) for t, v in x.info['facts'].items()), 'result', M.where('include'), 'returns nothing for a file that has nodes', x.info['span'])
    ctx.floor('results of include', n, 1)


def read(ctx):
    f = ctx.fn('seam::parse::parser_for_file')
    if f is None: return
    g = ctx.explore(f, opts={'same': ATOM})
    c = Canon(g)
    p = c.show(argn(f, 1))
    for x in g.exits:
        s = c.show(x.info['value']) if x.info['kind'] == 'return' else x.info['kind']
        r = r'read_to_string\(%s\)' % re.escape(p)
        ok_ = re.fullmatch(r"Ok\(Parser\{lexer: Lexer\{source_path: to_string_lossy\(%s\), source: %s\.Ok\.0, line: 1, byte_offset: 0, byte_offset_line: 0\}\}\)" % (re.escape(p), r), s)
        bad = re.fullmatch(r"Err\(.*%s\.Err\.0\)*" % r, s)
        ctx.require(ok_ or bad, 'read', 'parser_for_file', 'ends with %s' % s[:300], x.info['span'])
    ctx.floor('ways to read a file', len(g.exits), 2)


def directories(ctx):
    f = ctx.fn(EX + 'new')
    if f is not None:
        g = ctx.explore(f)
        c = Canon(g)
        for x in g.exits:
            v = x.info['value']
            inc = dict(zip(v.args[2], v.args[3])).get('includes') if v is not None and v.op == 'agg' else None
            ctx.require(inc is not None and re.fullmatch(r"\[(\w+\()?'\.'\)?\]", c.show(inc)), 'directories', 'Expander::new', 'starts with the directories %s' % (c.show(inc) if inc is not None else None), x.info['span'])
    f = ctx.fn(EX + 'add_includes')
    if f is None: return
    g = ctx.explore(f)
    c = Canon(g)
    d = c.show(argn(f, 2))
    def ev(e, c):
        if e[0] in ('push', 'extend'):
            t, v = c.show(e[1]).lstrip('*'), c.show(e[2])
            if t == 'self.includes' and v == d + '[i]': return ['add']
            if t == 'self.includes' and re.fullmatch(r'(each\{)?%s(\[i\]\})?' % re.escape(d), v): return ['add all']
            return ['%s %s %s' % (e[0], t, v)]
        if e[0] in ('insert', 'set', 'pop', 'reverse', 'sort', 'remove_key', 'mut'): return [e[0]]
        if e[0] == 'lt':
            m = more(e, c)
            return [m[0]] if m and m[1] == d else None
        return None
    ctx.language('directories', g, ev, alt(sym('add all'), cat_(star(cat_(sym('more'), sym('add'))), sym('end'))), accept=lambda x, c=None: x.info['kind'] == 'return', canon=c)
    for x in g.exits:
        if x.info['kind'] == 'unreachable': continue
        for t, v in x.info['store'].items():
            sv = c.show(v)
            good = re.fullmatch(r'fold\{self; @0\{\.includes:=\[\.\.@0\.includes, %s\[i\]\]\}\}|\[\.\.self\.includes, \.\.(each\{)?%s(\[i\]\})?\]|self\{\.includes:=.*\}' % (re.escape(d), re.escape(d)), sv)
            ctx.require(good, 'directories', 'add_includes', 'leaves %s' % sv[:200], x.info['span'])
    # nothing else changes the list
    for h in ctx.F.fns.values():
        if h.crate == 'models' or h is f: continue
        for sp in changes(h, 'includes'): ctx.violation('directories', h.path, sp, 'changes the list of include directories')
    ctx.ok('directories', 'no other change')


def changes(fn, field):
    """Where a body writes to a field of that name or takes a mutable reference into it."""
    def has(p): return any(q[0] == 'f' and q[-1] == field for q in p[1])
    for b in fn.blocks:
        for s in b['s']:
            if s[0] != '=': continue
            if has(s[1]) or (s[2][0] == 'ref' and s[2][1] and has(s[2][2])): yield s[3]
        t = b['t']
        if t[0] == 'call' and t[3] and has(t[3]): yield b['sp']
