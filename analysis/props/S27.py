"""Loaded data defines every value under its full name."""
from macros import *

TECHNIQUE = 'transition table of the YAML event receiver for every (mode, pending key, event), checked against the transitions of a stack machine that keeps one name per nesting level; structural induction over the TOML value; data flow from the macros into both loaders'
NOTE = 'the YAML, TOML and markdown libraries are trusted to deliver the data; among entries with the same full name the last definition counts'
MIN_OBLIGATIONS = 60

SINK = r'EventSink(?:<.*>)?$'
STR = ('String', 'Raw', 'Symbol', 'Number')


class Sink:
    """The state of the receiver, by the types of its fields."""

    def __init__(self, ctx, f):
        adt = re.sub(r'^&mut |<.*', '', f.locals[1][0])
        fields = ctx.F.adts[adt]['variants'][0]['fields']
        def one(what, rx):
            l = [n for n, t in fields if re.search(rx, re.sub(r"'\w+", "'_", t))]
            if len(l) != 1: raise AnalysisError('the receiver has %d fields for %s' % (len(l), what))
            return l[0]
        mode = [t for n, t in fields if re.match(r'std::option::Option<seam::', t)]
        if len(mode) != 1: raise AnalysisError('the receiver has no mode')
        self.adt, self.modeadt = adt, re.sub(r'^std::option::Option<|>$', '', mode[0])
        M = re.escape(self.modeadt)
        self.mode = one('the mode', r'^std::option::Option<%s>$' % M)
        self.modes = one('enclosing modes', r'^std::vec::Vec<%s>$' % M)
        self.nodes = one('collected nodes', r'^std::vec::Vec<seam::parse::parser::ParseNode')
        self.parent = one('enclosing nodes', r'^std::vec::Vec<std::vec::Vec<seam::parse::parser::ParseNode')
        self.key = one('the pending name', r'^std::option::Option<std::string::String>$')
        self.prefix = one('enclosing names', r'^std::vec::Vec<std::string::String>$')
        self.sep = one('the separator', r'^std::string::String$')
        self.fault = one('what is not supported', r'^std::option::Option<&')
        self.site = one('the location', r'^seam::parse::tokens::Site')
        self.context = one('the context', r'^&.*Expander')
        vs = [v['name'] for v in ctx.F.adts[self.modeadt]['variants']]
        if sorted(vs) != ['Map', 'Seq']: raise AnalysisError('modes %s' % vs)


def check(ctx):
    fs = [f for f in ctx.F.fns.values() if f.name == 'on_event' and f.crate != 'models']
    if len(fs) != 1: return ctx.violation('events', 'on_event', None, '%d event receivers' % len(fs))
    f = fs[0]
    s = Sink(ctx, f)
    for mode, key in ((None, 0), ('Map', 0), ('Map', 1), ('Seq', 1)):
        for ev in ('Scalar', 'MappingStart', 'SequenceStart', 'Alias', 'Nothing', 'StreamStart', 'StreamEnd', 'DocumentStart', 'DocumentEnd'):
            ctx.attempt('event', '%s in %s' % (ev, mode), lambda: event(ctx, f, s, ev, mode, key))
    for ev in ('MappingEnd', 'SequenceEnd'):
        for mode in (None, 'Map', 'Seq'):
            for first in (True, False): ctx.attempt('event', '%s within %s' % (ev, mode), lambda: end(ctx, f, s, ev, mode, first))
    ctx.attempt('fault', f.path, lambda: fault(ctx, f, s))
    ctx.attempt('load', 'expand_yaml', lambda: load_yaml(ctx, f, s))
    ctx.attempt('load', 'expand_toml', lambda: load_toml(ctx))
    for n in ('yaml', 'json', 'toml'): ctx.attempt('macro', '(%%%s ...)' % n, lambda: macro(ctx, n))
    for o in ('frontmatter', 'content', None): ctx.attempt('macro', '(%markdown ...)', lambda: markdown(ctx, o))


class Step:
    """One event in one class of states: what each field holds afterwards."""

    def __init__(self, ctx, f, s, ev, mode, key, more=None, fault=None):
        me, evt = argn(f, 1), argn(f, 2)
        def setup(e, st):
            variant(st, evt, 'yaml_rust2::Event', ev)
            variant(st, e.field(me, None, s.fault), OPT, 'Some' if fault else 'None')
            if ev not in ('MappingEnd', 'SequenceEnd'):
                m = e.field(me, None, s.mode)
                variant(st, m, OPT, 'Some' if mode else 'None')
                if mode: variant(st, e.field(m, 'Some', '0'), s.modeadt, mode)
                variant(st, e.field(me, None, s.key), OPT, 'Some' if key else 'None')
            if more: more(e, st, me)
        self.ctx, self.s = ctx, s
        g = self.g = ctx.explore(f, anchors=ops(ctx), setup=setup, opts={'same': ATOM, 'keep': lambda t: True})
        g.canon = Canon(g)
        self.me = me
        self.E = g.canon.show(evt)
        self.calls = sorted(calls_made(g))
        self.w = '%s %s' % (ev, 'in %s%s' % (mode or 'no collection', ', name pending' if key else ''))

    def ends(self, w, **want):
        """Every end of the step is a return that leaves the fields as given."""
        n = 0
        for x in self.g.exits:
            if x.info['kind'] == 'unreachable': continue
            if x.info['kind'] != 'return':
                self.ctx.violation('event', w, x.info['span'], 'can end with %s' % x.info['kind'])
                continue
            n += 1
            for name in ('mode', 'modes', 'nodes', 'parent', 'key', 'prefix', 'sep', 'fault', 'site', 'context'):
                was, now = self.before(name), self.after(x, name)
                p = want.get(name, was)
                if callable(p): p = p(self, x)
                self.ctx.require(fits(p, now), 'event', w, 'leaves %s as %s; defined: %s' % (getattr(self.s, name), now[:300], p.pattern if isinstance(p, re.Pattern) else p), x.info['span'])
        if not n: self.ctx.violation('event', w, self.g.fn.span, 'never ends')

    def term(self, name): return self.g.engine.field(self.me, None, getattr(self.s, name))

    def before(self, name): return abbr(self.g.canon.show(self.term(name)))

    def after(self, x, name):
        for place, v in x.info['store'].items():
            if self.g.canon.show(place) == '*' + self.g.canon.show(self.me) or place is self.me:
                return abbr(self.g.canon.show(self.g.engine.field(v, None, getattr(self.s, name))))
        return self.before(name)

    def named(self, name, prefix):
        """The full name of an entry under the given enclosing names."""
        p = re.escape(prefix)
        sep = re.escape(self.before('sep'))
        return r'(?:"join\(%s, %s\) \+ %s \+ (?:%s)"|(?:%s))' % (p, sep, sep, name, name)

    def defines(self, w, body=None, name=None):
        """Exactly one definition on every path, or none."""
        g = self.g
        if body is None:
            self.ctx.require(not self.calls, 'event', w, 'performs %s' % self.calls, g.fn.span)
            return
        want = RX(r'insert_variable\(%s, %s, Macro\{name: .*, params: \[\], body: \[%s\]\}\)' % (re.escape(self.before('context')), name, body))
        self.ctx.require(bool(self.calls) and all(fits(want, c) for c in self.calls), 'event', w, 'performs %s; defined: %s' % (self.calls, want.pattern), g.fn.span)
        self.ctx.language('event', g, lambda e, c: ['def'] if e[0] == 'call' else None, sym('def'), canon=g.canon)


def string(s, E, ws):
    n = r'ParseNode::String\(Node\{value: %s\.Scalar\.0, site: %s, leading_whitespace: %s\}\)'
    a = n % (re.escape(E), re.escape(s.before('site')), "' '")
    b = n % (re.escape(E), re.escape(s.before('site')), "''")
    return a if ws == 'spaced' else r"(?:%s|with_ws\(%s, '(?: )?'\)|%s)" % (a, a, b)


def event(ctx, f, s, ev, mode, key):
    if ev == 'Scalar' and key: return scalar(ctx, f, s, mode)
    t = Step(ctx, f, s, ev, mode, key)
    E = t.E
    if ev == 'Scalar':
        t.defines(t.w)
        if mode == 'Map': t.ends(t.w, key='Some(%s.Scalar.0)' % E)
        else: t.ends(t.w, nodes=RX(r'\[\.\.%s, %s\]' % (re.escape(t.before('nodes')), string(t, E, 'any'))))
    elif ev in ('MappingStart', 'SequenceStart'):
        t.defines(t.w)
        if mode == 'Map' and not key: return t.ends(t.w, fault=RX(r'Some\(.*\)'))
        kind = 'Map' if ev == 'MappingStart' else 'Seq'
        add = lambda a, b: '[..%s, %s]' % (t.before(a), b)
        t.ends(t.w, mode=RX(r'Some\((?:Mode::)?%s\)' % kind), nodes='[]', parent=add('parent', t.before('nodes')),
               modes=add('modes', t.before('mode') + '.Some.0') if mode else t.before('modes'),
               prefix=add('prefix', t.before('key') + '.Some.0') if key else t.before('prefix'),
               key='None' if kind == 'Map' else "Some('0')")
    else:
        t.defines(t.w)
        t.ends(t.w, **({'fault': RX(r'Some\(.*\)')} if ev == 'Alias' else {}))


def scalar(ctx, f, s, mode):
    """A value with a name: defined, and added to the collection."""
    for empty in (True, False):
        for top in (True, False):
            def more(e, st, me):
                fact(st, T('len', e.field(me, None, s.prefix)), kint(0), positive=top)
                fact(st, T('len', e.field(me, None, s.nodes)), kint(0), positive=empty)
            t = Step(ctx, f, s, 'Scalar', mode, 1, more)
            w = '%s, %s, %s' % (t.w, 'at the top' if top else 'nested', 'first' if empty else 'later')
            k, nodes, E = re.escape(t.before('key') + r'.Some.0'), t.before('nodes'), t.E
            t.defines(w, string(t, E, 'any'), k if top else full(t, k, t.before('prefix')))
            ws = '' if empty else ' '
            had = r'(?:\.\.%s, )?' % re.escape(nodes) if empty else r'\.\.%s, ' % re.escape(nodes)
            if mode == 'Map':
                t.ends(w, key='None', nodes=RX(r"\[%sParseNode::Attribute\{keyword: %s, node: %s, site: %s, leading_whitespace: '%s'\}\]" % (had, k, string(t, E, 'spaced'), re.escape(t.before('site')), ws)))
            else:
                n = r'len\(%s\)' % re.escape(nodes)
                t.ends(w, key=RX(r"Some\(\{(?:%s\+1%s):display\}\)|%s" % (n, '|1|0\\+1' if empty else '', r"Some\('1'\)" if empty else 'Some')),
                       nodes=RX(r'\[%s%s\]' % (had, string(t, E, 'any') if empty else string(t, E, 'spaced'))))


def full(t, name, prefix):
    p, sep = re.escape(prefix), re.escape(t.before('sep'))
    return r'"join\(%s, %s\) \+ %s \+ %s"' % (p, sep, sep, name)


def end(ctx, f, s, ev, mode, first):
    """The end of a collection: it is defined under its own name, and added to what surrounds it."""
    for top in ((True,) if mode is None else (True, False)):
        def more(e, st, me):
            modes, prefix, parent = [e.field(me, None, n) for n in (s.modes, s.prefix, s.parent)]
            # one enclosing mode and one name for every level but the first
            fact(st, T('len', modes), kint(0), positive=mode is None)
            if mode is None: fact(st, T('len', prefix), kint(0))
            elif top: fact(st, T('len', prefix), kint(1))
            else: fact(st, T('len', prefix), kint(0), kint(1), positive=False)
            fact(st, T('len', parent), kint(0), positive=False)
            if mode: variant(st, e.elem(st, modes, e.sub(T('len', modes), kint(1))), s.modeadt, mode)
            last = lambda v: e.elem(st, v, e.sub(T('len', v), kint(1)))
            fact(st, T('len', last(parent)), kint(0), positive=first)
        t = Step(ctx, f, s, ev, mode, 0, more)
        w = '%s within %s, %s, %s' % (ev, mode or 'nothing', 'at the top' if top else 'nested', 'first' if first else 'later')
        last = lambda n: '%s[len(%s)-1]' % (t.before(n), t.before(n))
        cut = lambda n: '%s[0..len(%s)-1]' % (t.before(n), t.before(n))
        lst = r"ParseNode::List\{nodes: %s, site: %s, end_token: Token\{kind: (?:Kind::)?RParen, value: '\)', leading_whitespace: '', site: %s\}, leading_whitespace: '%s'\}" % (
            re.escape(t.before('nodes')), re.escape(t.before('site')), re.escape(t.before('site')), '' if first else ' ')
        outer = last('parent')
        had = r'(?:\.\.%s, )?' % re.escape(outer) if first else r'\.\.%s, ' % re.escape(outer)
        item = lst
        if mode == 'Map':
            ws = r"(?:'%s'|ws\(%s\))" % ('' if first else ' ', lst)
            item = r"ParseNode::Attribute\{keyword: %s, node: with_ws\(%s, ' '\), site: %s, leading_whitespace: %s\}" % (re.escape(last('prefix')), lst, re.escape(t.before('site')), ws)
        n = r'len\(%s\)' % re.escape(outer)
        key = 'None' if mode != 'Seq' else RX(r"Some\(\{(?:%s\+1%s):display\}\)%s" % (n, r'|1|0\+1' if first else '', r"|Some\('1'\)" if first else ''))
        t.ends(w, mode='None' if mode is None else RX(r'Some\((?:%s|(?:Mode::)?%s)\)' % (re.escape(last('modes')), mode)),
               modes=t.before('modes') if mode is None else cut('modes'), prefix=t.before('prefix') if mode is None else cut('prefix'),
               parent=cut('parent'), nodes=RX(r'\[%s%s\]' % (had, item)), key=key)
        if mode is None: t.defines(w)
        else:
            k = re.escape(last('prefix'))
            t.defines(w, r"(?:%s|with_ws\(%s, '(?: )?'\))" % (lst, lst), k if top else full(t, k, cut('prefix')))


def fault(ctx, f, s):
    """Once something is not supported, nothing is taken from later events."""
    for ev in ('Scalar', 'MappingStart', 'SequenceStart', 'MappingEnd', 'SequenceEnd', 'DocumentEnd'):
        t = Step(ctx, f, s, ev, 'Map', 1, fault=True)
        t.defines('%s after a fault' % ev)
        t.ends('%s after a fault' % ev, fault=RX(r'Some\(.*\)|%s' % re.escape(t.before('fault'))))


def load_yaml(ctx, f, s):
    path = s.adt.rsplit('::', 1)[0]
    g = scenario(ctx, path, opts={'keep': lambda t: True})
    c, fn = g.canon, g.fn
    text, site = c.show(argn(fn, 2)), c.show(param(fn, 'Site'))
    sep = c.show(argn(fn, 3))
    exp = c.show(param(fn, 'Expander'))
    start = {s.mode: 'None', s.modes: '[]', s.nodes: '[]', s.parent: '[]', s.key: 'None', s.prefix: '[]', s.fault: 'None', s.sep: sep, s.site: site, s.context: exp}
    sink = r'EventSink\{%s\}' % ', '.join('%s: %s' % (n, re.escape(start[n]) if n in start else '.*') for n, _ in ctx.F.adts[s.adt]['variants'][0]['fields'])
    load = r'load\(new_from_str\(%s\), %s, True\)' % (re.escape(text), sink)
    after = r'upd\(%s, 1\)' % load
    outcomes(ctx, 'load', g, path, [RX(r'Ok\(%s\.%s\)' % (after, s.nodes)), E_('.*Failed to (?:parse|load).*')])
    for x in g.exits:
        if x.info['kind'] != 'return': continue
        facts = {abbr(c.show(t)): v for t, v in x.info['facts'].items()}
        got = [v for t, v in facts.items() if re.fullmatch(r'kind\(%s\)' % load, t)]
        bad = [v for t, v in facts.items() if re.fullmatch(r'kind\(%s\.%s\)' % (after, s.fault), t)]
        names = lambda l: {str(y) for pos, vs in l if pos for y in vs}
        if is_ok(x, c): ctx.require(any('Ok' in n for n in names(got)) and any('None' in n for n in names(bad)), 'load', path, 'reports success although loading failed or something was not supported', x.info['span'])
    # how the text, the separator and the location are told apart
    ctx.require(re.search('str', fn.locals[2][0]) and re.search('str', fn.locals[3][0]), 'load', path, 'takes %s' % [fn.locals[i][0] for i in range(1, fn.argc + 1)], fn.span)


VALUE = 'toml::Value'
ATOMS = {'String': ('String', r'{V}\.atom\.0'), 'Integer': ('Number', r'\{{{V}\.Integer\.0:display\}}'), 'Float': ('Number', r'\{{{V}\.Float\.0:display\}}'),
         'Datetime': ('(?:Symbol|String)', r'\{{{V}\.Datetime\.0:display\}}'), 'Boolean': ('Symbol', r'\{{{V}\.Boolean\.0:display\}}')}


def load_toml(ctx):
    fs = {}
    for f in ctx.F.fns.values():
        if f.crate != 'models' and re.search(r'expand_toml::Traverser::<.*>::\w+$', f.path): fs[f.name] = f
    want = ('traverse_value', 'traverse_array', 'traverse_table', 'define')
    miss = [n for n in want if n not in fs]
    if miss: return ctx.violation('toml', 'expand_toml', None, 'no %s' % ', '.join(miss))
    named_ = {fs[n].path: named(n, havoc=False) for n in want}
    vs = [v['name'] for v in ctx.F.adts[VALUE]['variants']] if VALUE in ctx.F.adts else None
    ctx.require(vs and sorted(vs) == sorted(list(ATOMS) + ['Array', 'Table']), 'toml', 'toml::Value', 'has the variants %s' % vs)
    def look(n, setup=None):
        g = scenario(ctx, fs[n].path, setup, extra={p: o for p, o in named_.items() if p != fs[n].path}, opts={'keep': lambda t: True})
        for x in g.exits:
            if x.info['kind'] != 'return': continue
            me = argn(fs[n], 1)
            for place, v in x.info['store'].items():
                if g.canon.show(place) in ('*self', '*' + g.canon.show(me)):
                    now = abbr(g.canon.show(v))
                    ctx.require(now in ('self', 'fold{self; }', 'fold{self; @0}'), 'toml', n, 'leaves the traverser as %s' % now[:300], x.info['span'])
        return g
    for v in list(ATOMS) + ['Array', 'Table']: ctx.attempt('toml', 'traverse_value %s' % v, lambda: value(ctx, fs, look, v))
    for n in ('array', 'table'): ctx.attempt('toml', 'traverse_' + n, lambda: collection(ctx, fs, look, n))
    for top in (True, False):
        def setup(e, st): fact(st, T('len', e.field(argn(fs['define'], 1), None, 'prefix')), kint(0), positive=top)
        g = look('define', setup)
        k, b = [g.canon.show(argn(fs['define'], i)) for i in (2, 3)]
        name = re.escape(k) if top else r'"join\(self\.prefix, self\.sep\) \+ self\.sep \+ %s"' % re.escape(k)
        calls = sorted(calls_made(g))
        ctx.require(len(calls) == 1 and re.fullmatch(r'insert_variable\(self\.context, %s, Macro\{name: .*, params: \[\], body: \[%s\]\}\)' % (name, re.escape(b)), calls[0]), 'toml', 'define, %s' % ('at the top' if top else 'nested'), 'performs %s' % calls, g.fn.span)
        ctx.language('toml', g, lambda e, c: ['def'] if e[0] == 'call' else None, sym('def'), canon=g.canon)
    # the start
    path = fs['define'].path.split('::Traverser')[0]
    g = scenario(ctx, path, extra=named_, opts={'keep': lambda t: True})
    c, fn = g.canon, g.fn
    text, sep, site, exp = re.escape(c.show(argn(fn, 2))), re.escape(c.show(argn(fn, 3))), re.escape(c.show(param(fn, 'Site'))), re.escape(c.show(param(fn, 'Expander')))
    fields = [n for n, _ in ctx.F.adts[path + '::Traverser']['variants'][0]['fields']]
    start = {'context': exp, 'site': site, 'sep': sep, 'prefix': r'\[\]'}
    root = r'Ok\(\[traverse_table\(Traverser\{%s\}, parse\(%s\)\.Ok\.0, True\)\]\)' % (', '.join('%s: %s' % (n, start.get(n, '.*')) for n in fields), text)
    outcomes(ctx, 'load', g, path, [RX(root), E_('.*Failed to parse.*')])


def value(ctx, fs, look, v):
    f = fs['traverse_value']
    val, lead = argn(f, 2), argn(f, 3)
    for leading, which in ((l, w) for l in (True, False) for w in ((TRUE, FALSE) if v == 'Boolean' else (None,))):
        def setup(e, st):
            variant(st, val, VALUE, v)
            fact(st, lead, TRUE if leading else FALSE)
            if which is not None: fact(st, e.field(val, v, '0'), which)
        g = look('traverse_value', setup)
        V, L = re.escape(g.canon.show(val)), re.escape(g.canon.show(lead))
        if v in ATOMS:
            kind, text = ATOMS[v]
            if which is not None: text = "(?:%s|'%s')" % (text, 'true' if which is TRUE else 'false')
            outcomes(ctx, 'toml', g, 'a %s' % v, [RX(r"ParseNode::%s\(Node\{value: (?:%s|%s\.%s\.0), site: self\.site, leading_whitespace: '%s'\}\)" % (kind, text.format(V=V), V, v if v == 'String' else '-', '' if leading else ' '))], panics=True)
            ctx.require(not calls_made(g), 'toml', 'a %s' % v, 'performs %s' % sorted(calls_made(g)))
        else:
            outcomes(ctx, 'toml', g, 'a %s' % v, [RX(r'traverse_%s\(self, %s\.%s\.0, (?:%s|%s)\)' % (v.lower(), V, v, L, leading))], panics=True)


def collection(ctx, fs, look, n):
    g = look('traverse_' + n)
    f = g.fn
    c = g.canon
    seq = c.show(argn(f, 2))
    L = c.show(argn(f, 3))
    me = r'(?:self|fold\{self; (?:@0)?\})'
    item = r'%s\[i\]' % re.escape(seq)
    name, val = (r'\{i:display\}', item) if n == 'array' else (item + r'\.0', item + r'\.1')
    sub = r'traverse_value\(%s\{\.prefix:=\[\.\.%s\.prefix, %s\]\}, %s, %s\)' % (me, me, name, val, r'(?:True|False|\(i==0\)|[^,()]*)' if n == 'array' else 'False')
    node = sub if n == 'array' else r"ParseNode::Attribute\{keyword: %s, node: %s, site: %s\.site, leading_whitespace: '(?: )?'\}" % (name, sub, me)
    lists = r"ParseNode::List\{nodes: each\{%s(?: \| %s)*\}, site: %s\.site, end_token: %s\.the_dreaded_rparen, leading_whitespace: (?:'(?: )?')\}" % (node, node, me, me)
    outcomes(ctx, 'toml', g, 'a list' if n == 'array' else 'a table', [RX(lists)])
    def ev(e, c):
        if e[0] == 'lt':
            m = more(e, c)
            return [(m[0], abbr(m[1]))] if m else None
        if e[0] == 'call': return [abbr('%s(%s)' % (short(e[1]), ', '.join(c.show(x) for x in e[2])))]
        if e[0] in ('push', 'pop') and re.search('prefix', c.show(e[1])): return ['%s %s' % (e[0], ', '.join(abbr(c.show(x)) for x in e[2:3] if type(x) is Term))]
        if e[0] == 'push': return ['item ' + abbr(c.show(e[2]))]
        return None
    define = r'define\(%s, %s, %s\)' % (me, name, sub)
    body = (sym(RX(r'push %s' % name)), sym(RX(sub)), sym(RX(r'pop.*')), sym(RX(define)), sym(RX('item ' + node)))
    ctx.language('toml', g, ev, loop(abbr(seq), *body), canon=g.canon)
    # white space: none before the first item, one blank before every other
    def gap(e, c):
        if e[0] != 'push' or re.search('prefix', c.show(e[1])): return None
        s = abbr(c.show(e[2]))
        return ['first' if re.search(r", True\)$" if n == 'array' else r"leading_whitespace: ''\}$", s) else 'apart' if re.search(r", False\)$" if n == 'array' else r"leading_whitespace: ' '\}$", s) else 'other']
    ctx.language('toml', g, gap, opt(cat_(alt(sym('first'), sym('other')), star(alt(sym('apart'), sym('other'))))), canon=g.canon)
    firsts = [x for x in g.exits if x.info['kind'] == 'return']
    for x in firsts:
        s = shown(g, x)
        fs_ = {c.show(t): v for t, v in x.info['facts'].items()}
        h = fs_.get(L)
        want = {(True, frozenset([TRUE])): "leading_whitespace: ''}", (True, frozenset([FALSE])): "leading_whitespace: ' '}"}.get(h)
        ctx.require(want is not None and s.endswith(want), 'toml', n, 'ends with %s' % s[-60:], x.info['span'])


LOADERS = {'yaml': 'expand_yaml', 'json': 'expand_yaml', 'toml': 'expand_toml'}


def loaders(ctx):
    return {p: named(f.name) for p, f in ctx.F.fns.items() if f.crate != 'models' and re.search(r'(?:^|::)expand_(?:yaml|toml)$', p)}


SEPS = ("'/'", "$'separator'")


def macro(ctx, n):
    """The macro gives its text, its separator and its location to the loader, and returns what it returns."""
    g = invoke(ctx, n, extra=loaders(ctx))
    w = '(%%%s ...)' % n
    good = ['%s(self, $1, %s, site(node))' % (LOADERS[n], p) for p in SEPS]
    outcomes(ctx, 'macro', g, w, good + [RX(r'Err\(.*\)')])
    chosen(ctx, g, w)


def chosen(ctx, g, w):
    """The separator that was given is used, and the default one only if none was."""
    def ev(e, c):
        if e[0] == 'given' and 'separator' in c.show(e[1]): return ['given' if e[2] else 'not given']
        if e[0] == 'call' and short(e[1]) in ('expand_yaml', 'expand_toml'): return ['own' if abbr(c.show(e[2][2])) == SEPS[1] else 'default' if abbr(c.show(e[2][2])) == SEPS[0] else 'other']
        return None
    ctx.language('macro', g, ev, alt(cat_(sym('given'), star(sym('given')), opt(sym('own'))), cat_(sym('not given'), star(sym('not given')), opt(sym('default')))), canon=g.canon)


def markdown(ctx, o):
    g = invoke(ctx, 'markdown', extra=loaders(ctx), force={'only': o}, opts={'keep': lambda t: True})
    c = g.canon
    w = '(%%markdown ...) only %s' % o
    MD = r'to_mdast\(\$1, .*\)\.Ok\.0\.Root\.0\.children'
    html = RX(r"Ok\(\[ParseNode::Raw\(Node\{value: to_html_with_options\(\$1, .*\)\.Ok\.0, site: site\(node\), leading_whitespace: ws\(node\)\}\)\]\)")
    res = ['Ok([])'] if o == 'frontmatter' else [html]
    results(ctx, 'macro', g, w, res)
    calls = [x for x in sorted(calls_made(g)) if re.match('expand_(yaml|toml)', x)]
    want = [r"expand_%s\(self, %s\[0\]\.%s\.0\.value, %s, site\(node\)\)" % (l, MD, k, re.escape(sp)) for l, k in (('yaml', 'Yaml'), ('toml', 'Toml')) for sp in SEPS]
    if o == 'content':
        ctx.require(not calls, 'macro', w, 'loads data: %s' % [x[-200:] for x in calls], g.fn.span)
        return
    hit = [[x for x in calls if re.fullmatch(p, x)] for p in want]
    ctx.require(all(hit) and len(calls) == sum(map(len, hit)), 'macro', w, 'loads %s' % [x[-200:] for x in calls], g.fn.span)
    chosen(ctx, g, w)
    def names(l): return {str(y) for y in l[1]} if l and l[0] else set()
    for x in g.exits:
        if not is_ok(x, c): continue
        facts = {abbr(c.show(t)): v for t, v in x.info['facts'].items()}
        at = lambda rx: [v for t, v in facts.items() if re.fullmatch(rx, t)]
        done = {k for p, k in zip(want, ('Yaml', 'Yaml', 'Toml', 'Toml')) for v in at(r'kind\(%s\)' % p) if any('Ok' in n for n in names(v))}
        kind = at(r'kind\(%s\[0\]\)' % MD)
        empty = any(v[0] and {str(y) for y in v[1]} <= {'0', 'int0'} for v in at(r'len\(%s\)' % MD))
        none = any((not v[0] and {str(y) for y in v[1]} >= {'Yaml', 'Toml'}) or (v[0] and not ({str(y) for y in v[1]} & {'Yaml', 'Toml'})) for v in kind)
        ok = (done and any(names(v) == done for v in kind)) or (o != 'frontmatter' and (empty or none or nothing(at, MD)))
        ctx.require(ok, 'macro', w, 'reports success without having loaded the front matter: %s' % [(k[-80:], v) for k, v in facts.items() if re.search('children|expand_', k)], x.info['span'])


def nothing(at, MD):
    """No first node: the list is empty."""
    return any(v == (True, frozenset([FALSE])) for v in at(r'\((?:0<len\(%s\)|1<=len\(%s\)|i<len\(%s\))\)' % (MD, MD, MD)))
