"""Command line: right target, right stream, right exit status."""
from macros import *

TECHNIQUE = 'abstract interpretation of the command line loop: every path through a round is matched with the arguments it handles; path language of the processing of inputs and of the output step for every target'
NOTE = 'that the standard library prints an error returned from main and exits with status 1 is taken for granted; the text of messages is not judged'
MIN_OBLIGATIONS = 150

TARGETS = {'text': 'PlainTextFormatter', 'sexp': 'SExpFormatter', 'html': 'HTMLFormatter', 'xml': 'XMLFormatter', 'css': 'CSSFormatter'}
# argument -> what it does
ARGS = {'--' + t: ('target', t) for t in TARGETS}
ARGS.update({'--nodoc': ('fragment',), '--nodocument': ('fragment',), '-': ('stdin',), '-v': ('version',)})
ARGS.update({'-I' + d: ('include', d) for d in ('', 'x', 'dir/sub', '/abs dir', '.', 'I', '-')})
ARGS.update({a: ('file',) for a in ('a', 'a.sex', 'dir/b-c.sex', '/x', '', ' -', 'html', 'é', 'v', '~', '.-', 'x--html')})
ARGS.update({a: ('error',) for a in ('--', '---', '--bogus', '--htm', '--htmlx', '--html ', '--HTML', '--nodocs', '--nodo', '--I', '--v', '--text=', '--json', '--é', '-x',
                                     '-vv', '-vx', '-xI', '-h', '-html', '-i', '-ix', '-V', '-n', '-é', '- ', '-1')})


def check(ctx):
    l = [f for f in ctx.F.fns.values() if f.path == 'seam::main']
    ctx.floor('main', len(l), 1)
    gen = ctx.F.bypath.get('seam::generate_and_print', [])
    if len(gen) != 1: return ctx.violation('missing', 'seam::generate_and_print', None, 'the output step was not found')
    lib = {n: ctx.fn('seam::' + n) for n in ('tree_builder_file', 'tree_builder_stream')}
    inc = ctx.fn(EX + 'add_includes')
    if not l or inc is None or None in lib.values(): return
    names = {f.path: named(n, havoc=False) for n, f in list(lib.items()) + [('add_includes', inc), ('generate', gen[0])]}
    ctx.attempt('arguments', l[0].path, lambda: arguments(ctx, l[0], names))
    for t in list(TARGETS) + ['json', '']:
        for doc in (TRUE, FALSE): ctx.attempt('output', gen[0].path, lambda: output(ctx, gen[0], t, doc))
    ctx.attempt('inputs', lib['tree_builder_file'].path, lambda: builder(ctx, lib['tree_builder_file'], r'read_to_string\(path\)', r'to_string_lossy\(path\)', r'read_to_string\(path\)\.Ok\.0'))
    ctx.attempt('inputs', lib['tree_builder_stream'].path, lambda: builder(ctx, lib['tree_builder_stream'], r"read_to_string\(stream(?:, '')?\)", r"'<stdin>'", r"(?:upd\(read_to_string\(stream, ''\), 1\)|read_to_string\(stream\)\.Ok\.0)"))
    ctx.attempt('includes', inc.path, lambda: includes(ctx, inc))


# ---- the argument loop ------------------------------------------------------------------------
def subs(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in seen or x.op == 'ctx': continue
        seen.add(x)
        todo += terms.subterms(x)
    return seen


def has(t, x): return x in subs(t)


class Unknown(Exception): pass


def value(t, x, s):
    """The value of a term when the argument x is the text s."""
    if t is x: return s
    if t.op == 'k':
        return t.args[1]
    if t.op == 'len':
        v = value(t.args[0], x, s)
        return len(v.encode()) if isinstance(v, str) else len(v)
    if t.op == 'elem':
        v, i = value(t.args[0], x, s), value(t.args[1], x, s)
        if isinstance(v, str): raise Unknown()
        if i >= len(v): raise Unknown()
        return v[i]
    if t.op == 'slice':
        v, lo, hi = [value(a, x, s) for a in t.args]
        if not isinstance(v, str): return v[lo:hi]
        try: return v.encode()[lo:hi].decode()
        except UnicodeDecodeError: raise Unknown()
    if t.op == 'add': return sum(value(a, x, s) for a in t.args)
    if t.op == 'lt': return value(t.args[0], x, s) < value(t.args[1], x, s)
    if t.op == 'eq': return value(t.args[0], x, s) == value(t.args[1], x, s)
    if t.op == 'call':
        n, a = t.args[0].split('::')[-1], [value(y, x, s) for y in t.args[1]]
        if n == 'chars': return list(a[0])
        if n in ('as_bytes', 'bytes'): return list(a[0].encode())
        if n == 'starts_with': return a[0].startswith(a[1])
        if n == 'ends_with': return a[0].endswith(a[1])
        if n == 'contains': return a[1] in a[0]
        if n == 'to_lowercase': return a[0].lower()
        if n in ('is_empty',): return not a[0]
        if n in ('as_str', 'as_ref', 'to_owned', 'to_string', 'deref', 'from', 'clone', 'borrow', 'into'): return a[0]
    raise Unknown()


def consistent(facts, x, s):
    for t, (pos, vals) in facts.items():
        if not has(t, x): continue
        try: v = value(t, x, s)
        except (Unknown, TypeError, IndexError, AttributeError): continue
        if t.op in ('lt', 'eq') or isinstance(v, bool): hit = (TRUE if v else FALSE) in vals
        else: hit = any(c.op == 'k' and c.args[1] == v for c in vals)
        if hit != pos: return False
    return True


def infeasible(facts, x):
    """No text has the beginning that these facts require."""
    begin = {}
    for t, f in facts.items():
        if t.op == 'call' and t.args[0] == 'starts_with' and t.args[1][0] is x and t.args[1][1].op == 'k' and len(t.args[1][1].args[1]) <= 2: begin[t] = f
        if t.op == 'len' and t.args[0].op == 'call' and t.args[0].args[0] == 'chars' and t.args[0].args[1][0] is x and all(q.args[1] in (0, 1) for q in f[1]): begin[t] = f
        if t.op == 'elem' and t.args[0].op == 'call' and t.args[0].args[0] == 'chars' and t.args[0].args[1][0] is x and t.args[1] is kint(0): begin[t] = f
    letters = {'a'} | {ch for t, f in begin.items() for q in list(f[1]) + list(subs(t)) if q.op == 'k' and isinstance(q.args[1], str) for ch in q.args[1]}
    return not any(consistent(begin, x, p + q + r) for p in letters | {''} for q in letters | {''} for r in letters | {''})


def root(t): return (t.args[2], t.args[3]) if t.op == 'phi' else None


def arguments(ctx, f, names):
    g = ctx.explore(f, anchors=names, opts={'keep': lambda t: True})
    c = Canon(g)
    w = f.path
    # the variables: what is passed on after the loop
    roles, calls = {}, {'generate': [], 'add_includes': [], 'tree_builder_file': [], 'tree_builder_stream': []}
    for i in g.reach:
        for evs, m in g.nodes[i].out:
            for e in evs:
                if e[0] == 'call' and e[1] in calls: calls[e[1]].append((i, e))
    for k, l in calls.items(): ctx.floor('calls of ' + k, len(l), 1)
    def role(name, t):
        r = root(t) if t.op == 'phi' else None
        if r is None: return ctx.violation('arguments', w, None, 'the %s is not what the argument loop collected: %s' % (name, abbr(c.show(t))[:200]))
        if roles.setdefault(name, t) is not t and root(roles[name]) != r: ctx.violation('arguments', w, None, 'the %s is taken from two places' % name)
    for i, e in calls['generate']: role('target', e[2][1])
    for i, e in calls['add_includes']:
        d = e[2][1]
        role('include directories', d.args[3][0] if d.op == 'agg' and d.args[1] == 'SliceIter' and d.args[3][1] is kint(0) else d)
    for i, e in calls['tree_builder_file']:
        p = e[2][0]
        role('files', p.args[0] if p.op == 'elem' else p)
    if set(roles) != {'target', 'include directories', 'files'}: return
    loop = [loc for loc in g.loops if all((loc[0], loc[1]) == (t.args[0], t.args[1]) for t in roles.values())]
    if len(loop) != 1: return ctx.violation('arguments', w, None, 'the loop over the arguments was not found')
    loc = loop[0]
    info = g.loops[loc]
    # the arguments are the program's, without its name
    elems = {a for rec in info['back'] for t in list(rec[1]) + list(rec[0].values()) for a in subs(t) if a.op == 'elem' and c.show(a.args[0]) == 'args()'}
    ctx.require(len(elems) == 1, 'arguments', w, 'arguments are read at different places in one round: %s' % [c.show(x) for x in elems])
    if len(elems) != 1: return
    x = elems.pop()
    ctx.require(c.show(x) in ('args()[i+{0|1}]', 'args()[i+1]', 'args()[i+{1|len(args())}]'), 'arguments', w, 'the arguments handled are %s, instead of each one after the program name' % c.show(x))
    rounds_(ctx, f, g, c, loc, info, roles, x)


def headstates(g, loc): return [i for i in g.reach if g.nodes[i].loc == loc]


def rounds_(ctx, f, g, c, loc, info, roles, x):
    w = f.path
    beh = {}
    # behaviour after the loop, per head state: only paths that leave the loop
    for h in headstates(g, loc): beh[h] = after(g, loc, h, roles)
    def doc(h): return beh[h][0]
    def std(h): return beh[h][1]
    first = [h for h in beh if any(m == h and not any(rec[2] == i for rec in info['back']) for i in g.reach for evs, m in g.nodes[i].out)]
    for h in first:
        ctx.require(doc(h) == {TRUE}, 'arguments', w, 'without options the output is not the whole document')
        ctx.require(std(h) == 'when no file', 'arguments', w, 'without options standard input is read %s' % std(h))
    ctx.floor('first states', len(first), 1)
    for rec in info['entry']:
        for name, t in roles.items():
            v = rec[0].get(root(t))
            empty = v is not None and (v is kstr('') or (v.op == 'seq' and not v.args[0]) or v is T('seq', ()))
            ctx.require(empty, 'arguments', w, 'the %s is not empty to begin with' % name)
    used = set()
    recs = [(rec, m) for rec in info['back'] for evs, m in g.nodes[rec[2]].out if m in beh]
    div = [y for y in g.exits if y.info['kind'] in ('diverge', 'return') and any(has(t, x) for t in y.info['facts'])]
    exists = lambda facts: next((TRUE in vals if pos else FALSE in vals for t, (pos, vals) in facts.items() if c.show(t) == 'exists(%s)' % c.show(x)), None)
    for s, want in sorted(ARGS.items()):
        at = '%s %r' % (w, s)
        ends = []
        for k, (rec, m) in enumerate(recs):
            if not consistent(rec[1], x, s): continue
            used.add(('r', k))
            origin = rec[3]
            ch = {}
            for name, t in roles.items():
                v = rec[0].get(root(t))
                if v is None or (v.op == 'phi' and root(v) == root(t)): continue
                try:
                    if v.op == 'seq': ch[name] = [value(q, x, s) for kk, q in v.args[0] if not (kk == 's' and q.op == 'phi' and root(q) == root(t))]
                    else: ch[name] = value(v, x, s)
                except (Unknown, TypeError, IndexError): ch[name] = c.show(v)
            flags = []
            if doc(m) != doc(origin): flags.append('fragment' if doc(m) == {FALSE} else 'document')
            if std(m) != std(origin): flags.append('stdin ' + std(m))
            now = (ch, flags, doc(m), std(m), exists(rec[1]))
            ends.append('round')
            ok_ = {'target': lambda: ch == {'target': s[2:]} and not flags,
                   'include': lambda: ch == {'include directories': [s[2:]]} and not flags,
                   'file': lambda: ch == {'files': [s]} and not flags and now[4] is True,
                   'fragment': lambda: not ch and doc(m) == {FALSE} and std(m) == std(origin),
                   'stdin': lambda: not ch and std(m) == 'always' and doc(m) == doc(origin)}.get(want[0])
            ctx.require(ok_ is not None and ok_(), 'arguments', at, 'expected: %s; what it does: %s %s%s' % (' '.join(want), ch or 'nothing', flags or '', '' if now[4] is not False else ' (missing file)'))
        for k, y in enumerate(div):
            if not consistent(y.info['facts'], x, s): continue
            used.add(('e', k))
            code = y.info['extra'][1][0] if y.info['kind'] == 'diverge' and y.info['extra'] and y.info['extra'][0] == 'std::process::exit' else None
            ends.append('exit')
            if want[0] == 'version': good = code is kint(0)
            elif want[0] == 'error': good = code is not None and code.op == 'k' and code is not kint(0)
            elif want[0] == 'file': good = code is not None and code is not kint(0) and exists(y.info['facts']) is False
            else: good = False
            ctx.require(good, 'arguments', at, 'expected: %s; the run ends with status %s' % (' '.join(want), terms.show(code) if code is not None else 'of success'))
        need = {'version': {'exit'}, 'error': {'exit'}, 'file': {'round', 'exit'}}.get(want[0], {'round'})
        ctx.require(set(ends) == need, 'arguments', at, 'expected: %s; ends found: %s' % (' '.join(want), sorted(set(ends))))
    for k, (rec, m) in enumerate(recs):
        ctx.require(('r', k) in used or infeasible(rec[1], x), 'arguments', w, 'some arguments are treated specially: %s' % {abbr(c.show(t)): str(v[1]) for t, v in rec[1].items() if has(t, x)})
    for k, y in enumerate(div):
        ctx.require(('e', k) in used or infeasible(y.info['facts'], x), 'arguments', w, 'some arguments are treated specially: %s' % {abbr(c.show(t)): str(v[1]) for t, v in y.info['facts'].items() if has(t, x)})
    # what is refused after the arguments were read: only a missing target
    late = [y for y in g.exits if y.info['kind'] == 'diverge' and not any(has(t, x) for t in y.info['facts'])]
    for y in late:
        refused = [t for t in TARGETS if all(consistent(y.info['facts'], q, t) for q in subsof(y.info['facts'], root(roles['target'])) or [roles['target']])]
        ctx.require(not refused, 'arguments', w, 'a run for the targets %s is refused after the arguments were read (%s)' % (', '.join(refused), {abbr(c.show(t)): str(v[1]) for t, v in y.info['facts'].items()}))
    inputs(ctx, f, g, c, roles, x)


def subsof(facts, r): return {q for t in facts for q in subs(t) if q.op == 'phi' and root(q) == r}


def after(g, loc, h, roles):
    """(document flags passed on, when standard input is read) on the paths that leave the loop at h."""
    docs, stat = set(), set()
    def out(i):
        return [(evs, m) for evs, m in g.nodes[i].out]
    # nodes of the rounds: those that can come back to the head
    back = inloop(g, loc)
    seen, todo = set(), [(m, None, scan(evs, False, docs)) for evs, m in out(h) if m not in back]
    # decisions at the head may take several steps inside the loop body region
    walk, vis = [h], set()
    while walk:
        i = walk.pop()
        if i in vis: continue
        vis.add(i)
        for evs, m in out(i):
            if g.nodes[m].loc == loc: continue
            if m in back: walk.append(m)
            else: todo.append((m, None, scan(evs, False, docs)))
    while todo:
        n, files, s = todo.pop()
        for t, (p, vals) in (g.nodes[n].state.facts if g.nodes[n].state else {}).items():
            if t.op == 'len' and t.args[0].op == 'phi' and root(t.args[0]) == root(roles['files']) and kint(0) in vals and files is None: files = 'none' if p else 'some'
        if (n, files, s) in seen: continue
        seen.add((n, files, s))
        nd = g.nodes[n]
        if not nd.out:
            if nd.info and nd.info['kind'] == 'return' and is_ok(nd): stat.add((files, s))
            continue
        for evs, m in nd.out: todo.append((m, files, scan(evs, s, docs)))
    if all(s for _, s in stat): when = 'always'
    elif all(s == (files == 'none') for files, s in stat): when = 'when no file'
    else: when = 'in other cases: %s' % sorted(map(str, stat))
    return docs, when


def scan(evs, s, docs):
    for e in evs:
        if e[0] == 'call' and e[1] == 'generate': docs.add(e[2][2])
        if e[0] == 'call' and e[1] == 'tree_builder_stream': s = True
    return s


def inloop(g, loc):
    """Nodes from which the head of the loop can be reached again."""
    rev = {}
    for i in g.reach:
        for evs, m in g.nodes[i].out: rev.setdefault(m, set()).add(i)
    heads = [i for i in g.reach if g.nodes[i].loc == loc]
    seen, todo = set(), list(heads)
    while todo:
        for p in rev.get(todo.pop(), ()):
            if p not in seen: seen.add(p); todo.append(p)
    # and which are reached from it
    fwd, todo = set(heads), list(heads)
    while todo:
        for evs, m in g.nodes[todo.pop()].out:
            if m not in fwd: fwd.add(m); todo.append(m)
    return seen & fwd


def inputs(ctx, f, g, c, roles, x):
    """Standard input first, then every file, each built, given the include directories and written."""
    files = roles['files']
    def ev(e, c):
        if e[0] == 'call' and e[1] == 'tree_builder_stream': return ['S' if c.show(e[2][0]) == 'stdin()' else 'standard input is read from %s' % c.show(e[2][0])]
        if e[0] == 'call' and e[1] == 'tree_builder_file':
            s = c.show(e[2][0])
            return ['F' if s == c.show(files) + '[i]' else 'file %s is read instead of the next one' % s]
        if e[0] == 'call' and e[1] in ('add_includes', 'generate'):
            b = c.show(e[2][0])
            src = 'S' if b == 'tree_builder_stream(stdin()).Ok.0' else 'F' if b == 'tree_builder_file(%s[i]).Ok.0' % c.show(files) else None
            return ['%s %s' % (e[1], src or b)]
        if e[0] in ('print',): return ['print']
        return None
    one = lambda k: cat_(sym(k), sym('add_includes ' + k), sym('generate ' + k))
    ctx.language('inputs', g, ev, cat_(opt(one('S')), star(one('F'))), canon=c)
    n = 0
    for y in g.exits:
        k = y.info['kind']
        if k != 'return': continue
        v = y.info['value']
        n += 1
        if is_ok(y):
            # all files done
            done = any(t.op == 'lt' and c.show(t) == '(i<len(%s))' % c.show(files) and TRUE not in vals if pos else False for t, (pos, vals) in y.info['facts'].items())
            done |= any(t.op == 'len' and c.show(t) == 'len(%s)' % c.show(files) and pos and vals == {kint(0)} for t, (pos, vals) in y.info['facts'].items())
            ctx.require(done, 'inputs', f.path, 'the run can end with success before every file was processed (%s)' % {abbr(c.show(t)): str(v) for t, v in y.info['facts'].items()})
        else:
            s = c.show(v)
            ctx.require(re.search(r'Err\(.*tree_builder_(stream|file)\(.*\)\.Err\.0\)*$', s), 'inputs', f.path, 'the run fails with %s' % s[:200])
    ctx.floor('ends of the run', n, 2)
    # failing ends say why
    def msg(e, c):
        if e[0] == 'eprint': return ['message']
        if e[0] == 'print': return ['output']
        return None
    ctx.language('message', g, msg, cat_(sym('message')), accept=lambda y, c=None: y.info['kind'] == 'diverge', canon=c)


# ---- output -----------------------------------------------------------------------------------
def output(ctx, f, target, doc):
    names = {}
    for q in ctx.F.fns.values():
        if q.crate == 'models' or q.kind == 'closure': continue
        if q.name in ('document', 'display') and 'MarkupFormatter' in q.path: names[q.path] = named('write ' + q.name, havoc=False)
    names[EX + 'expand'] = named('expand', havoc=False)
    ctx.floor('formatters', len(names), 6)
    args = [None] * f.argc
    for i in range(1, f.argc + 1):
        ty = f.locals[i][0]
        if ty == 'bool': args[i - 1] = doc
        elif ty.lstrip('&').split(' ')[-1] == 'str': args[i - 1] = kstr(target)
    g = ctx.explore(f, anchors=names, args=args, opts={'keep': lambda t: True})
    c = Canon(g)
    w = '%s %s%s' % (f.path, target or "''", '' if doc is TRUE else ' fragment')
    tree = 'expand(expander).Ok.0'
    if target in TARGETS:
        meth = 'write document' if doc is TRUE else 'write display'
        made = 'seam::assemble::%s::%s' % (target, TARGETS[target])
        res = set()
        def ev(e, c):
            if e[0] == 'call' and e[1] == 'expand': return ['expand']
            if e[0] == 'call' and e[1].startswith('write '):
                a = e[2][0]
                fmt = a.args[0] if a.op == 'agg' else c.show(a)
                has = a.op == 'agg' and any(c.show(q) == tree for q in a.args[3])
                res.add(e[3] if len(e) > 3 else None)
                return ['write' if fmt == made and has and e[1] == meth else '%s with %s of %s' % (e[1], fmt, 'the expanded tree' if has else 'another tree')]
            if e[0] == 'is':
                s = c.show(e[1])
                if s == 'expand(expander)': return ['expand ' + e[2][0]]
                if s.startswith('write '): return ['write ' + e[2][0]]
            if e[0] == 'print':
                s = c.show(e[1])
                return ['print' if re.fullmatch(r'"?%s\(.*\)\.Ok\.0( \+ \'\\n\')?"?' % meth, s) else 'prints %s' % s[:120]]
            if e[0] == 'eprint':
                s = c.show(e[1])
                return ['message ' + ('expand' if 'expand(expander).Err.0' in s else 'write' if re.search(r'%s\(.*\)\.Err\.0' % meth, s) else s[:80])]
            if e[0] == 'ext' and e[1] == 'std::process::exit': return ['exit' if e[2][0] is not kint(0) else 'exit with success']
            return None
        good = cat_(sym('expand'), sym('expand Ok'), sym('write'), sym('write Ok'), sym('print'))
        bad = alt(cat_(sym('expand'), sym('expand Err'), sym('message expand'), sym('exit')),
                  cat_(sym('expand'), sym('expand Ok'), sym('write'), sym('write Err'), sym('message write'), sym('exit')))
        ctx.language('output', g, ev, good, accept=lambda y, c=None: y.info['kind'] == 'return', canon=c)
        ctx.language('output', g, ev, bad, accept=lambda y, c=None: y.info['kind'] == 'diverge', canon=c)
        for y in g.exits: ctx.require(y.info['kind'] in ('return', 'diverge', 'unreachable'), 'output', w, 'the output step can end in %s %s' % (y.info['kind'], y.info['extra']))
        ok_, fail = [y for y in g.exits if y.info['kind'] == 'return'], [y for y in g.exits if y.info['kind'] == 'diverge']
        ctx.require(ok_ and len(fail) >= 2, 'output', w, 'no success or no failure of the output step was found')
    else:
        for y in g.exits: ctx.require(y.info['kind'] in ('diverge', 'unreachable'), 'output', w, 'an unknown target is accepted (%s)' % y.info['kind'])
        def ev(e, c):
            if e[0] == 'print': return ['print']
            if e[0] == 'eprint': return ['message']
            if e[0] == 'ext' and e[1] == 'std::process::exit': return ['exit' if e[2][0] is not kint(0) else 'exit with success']
            return None
        ctx.language('output', g, ev, cat_(sym('message'), sym('exit')), accept=lambda y, c=None: y.info['kind'] == 'diverge', canon=c)


def builder(ctx, f, read, path, text):
    lex = [q for q in ctx.F.fns.values() if q.crate != 'models' and q.path.endswith('lexer::Lexer::new')]
    g = ctx.explore(f, anchors={q.path: named('lexer', havoc=False) for q in lex}, opts={'keep': lambda t: True})
    c = Canon(g)
    n = 0
    for y in g.exits:
        s = c.show(y.info['value']) if y.info['value'] is not None else y.info['kind']
        n += 1
        if is_ok(y): ctx.require(re.fullmatch(r'Ok\(Expander\{parser: Parser\{lexer: lexer\(%s, %s\)\}, .*\}\)' % (path, text), s) and "includes: ['.']" in s, 'inputs', f.path, 'the document read is %s' % s[:300])
        else: ctx.require(re.fullmatch(r'Err\((From\()?%s\.Err\.0\)?\)' % read, s), 'inputs', f.path, 'fails with %s' % s[:200])
    ctx.floor('results of ' + f.path, n, 2)


def includes(ctx, f):
    g = ctx.explore(f)
    c = Canon(g)
    l = []
    def ev(e, c):
        if e[0] == 'lt': return ['more' if e[3] else 'end'] if c.show(e[2]).startswith('len(dirs') else None
        if e[0] in ('push', 'extend', 'insert'): return ['%s %s' % (e[0], ' '.join(c.show(z) for z in e[1:] if type(z) is Term))]
        return None
    ctx.language('includes', g, ev, alt(cat_(star(cat_(sym('more'), sym('push self.includes dirs[i]'))), sym('end')), sym('extend self.includes dirs')), accept=lambda y, c=None: y.info['kind'] == 'return', canon=c)
