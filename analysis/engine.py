"""Abstract interpreter over MIR.

explore(fn, ...) computes the automaton of the abstract behaviours of one function: nodes
are abstract states at block entries, edges carry the observable events (writes, calls of
named operations, effects, result tests) in between.  Values are hash-consed terms (value
numbering); local functions and the models of the standard library are interpreted in
place with a call string as context, recursion is cut at named operations; loops are
closed by widening the locations that change per iteration to loop terms; branch facts
are sets of constants per term.  No solver is involved and no program path is executed:
the exploration is a worklist fixpoint in reverse post order with joins.
"""
import heapq, json, re
from terms import *
import terms


class AnalysisError(Exception):
    pass


class Restart(Exception):
    pass


class Node:
    __slots__ = ('id', 'loc', 'state', 'kind', 'info', 'out', 'inn')

    def __init__(self, id, loc, state, kind):
        self.id, self.loc, self.state, self.kind = id, loc, state, kind
        self.info = None
        self.out = []   # (events tuple, target id)
        self.inn = []


class Frame:
    __slots__ = ('fn', 'ctx', 'dest', 'ret', 'post')

    def __init__(self, fn, ctx, dest, ret, post=None):
        self.fn, self.ctx, self.dest, self.ret, self.post = fn, ctx, dest, ret, post


class State:
    __slots__ = ('frames', 'blk', 'store', 'facts', 'loops')

    def __init__(self, frames, blk, store, facts, loops):
        self.frames, self.blk, self.store, self.facts, self.loops = frames, blk, store, facts, loops

    def copy(self):
        return State(self.frames, self.blk, dict(self.store), dict(self.facts), dict(self.loops))

    @property
    def top(self):
        return self.frames[-1]

    def loc(self):
        return (self.frames[-1].ctx, self.blk)


# ---- per-function CFG facts --------------------------------------------------------
def succs(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'switch': return [b for _, b in t[2]] + [t[3]]
    if k == 'drop': return [t[2]]
    if k == 'call': return [t[4]] if t[4] is not None else []
    if k == 'assert': return [t[4]]
    return []


def cfg(fn):
    c = fn.cache.get('cfg')
    if c: return c
    n = len(fn.blocks)
    sc = [succs(b['t']) for b in fn.blocks]
    # skip blocks that are unreachable terminators
    seen, order, onst, back = set(), [], set(), set()
    st = [(0, iter(sc[0]))]
    seen.add(0); onst.add(0)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); onst.add(s); st.append((s, iter(sc[s]))); break
            elif s in onst:
                back.add((b, s))
        else:
            st.pop(); onst.discard(b); order.append(b)
    rpo = {b: i for i, b in enumerate(reversed(order))}
    preds = {b: [] for b in range(n)}
    for b in seen:
        for s in set(sc[b]): preds[s].append(b)
    heads = {h for _, h in back}
    body = {}
    for u, h in back:
        s = body.setdefault(h, {h})
        w = [u]
        while w:
            x = w.pop()
            if x not in s:
                s.add(x); w += preds[x]
    # RPO in which loop bodies are contiguous: exits of a loop come after its body
    # (blocks outside every loop they follow get later numbers).
    joins = {b for b in seen if len(preds[b]) > 1} | heads
    # liveness of locals
    use, deff = {}, {}
    for b in seen:
        u, d = set(), set()
        def rd(l):
            if l not in d: u.add(l)
        def rplace(p):
            rd(p[0])
            for e in p[1]:
                if e[0] == 'i': rd(e[1])
        def rop(o):
            if o[0] in 'cm' and o[0] != 'k': rplace(o[1])
        def wplace(p):
            if not p[1]: d.add(p[0])
            else: rplace(p)
        blk = fn.blocks[b]
        for s in blk['s']:
            if s[0] == '=':
                r = s[2]
                k = r[0]
                if k == 'use': rop(r[1])
                elif k == 'repeat': rop(r[1])
                elif k in ('ref', 'rawptr'): rplace(r[2])
                elif k == 'cast': rop(r[2])
                elif k == 'bin': rop(r[2]); rop(r[3])
                elif k == 'un': rop(r[2])
                elif k == 'discr': rplace(r[1])
                elif k == 'agg':
                    for o in r[2]: rop(o)
                wplace(s[1])
            elif s[0] == 'sd': rplace(s[1])
            elif s[0] == 'dead': d.add(s[1])
        t = blk['t']
        if t[0] == 'switch': rop(t[1])
        elif t[0] == 'call':
            rop(t[1])
            for o in t[2]: rop(o)
            wplace(t[3])
        elif t[0] == 'assert':
            rop(t[1])
            for o in t[3][1:]:
                if isinstance(o, list): rop(o)
        elif t[0] == 'return': rd(0)
        use[b], deff[b] = u, d
    live = {b: set() for b in seen}
    ch = True
    while ch:
        ch = False
        for b in order:
            o = set()
            for s in sc[b]: o |= live[s]
            i = use[b] | (o - deff[b])
            if i != live[b]:
                live[b] = i; ch = True
    c = dict(succ=sc, rpo=rpo, preds=preds, heads=heads, body=body, joins=joins, live=live, reach=seen)
    fn.cache['cfg'] = c
    return c


STRTY = re.compile(r"^(&(mut )?)*(alloc::|std::)?(string::String|str|char|boxed::Box<str>|borrow::Cow<'_, str>|rc::Rc<str>|fmt::Arguments<'_>)$")


def strip_refs(t):
    while True:
        if t.startswith('&mut '): t = t[5:]
        elif t.startswith('&'): t = t[1:]
        else: return t


def norm_ty(t):
    return re.sub(r"'[a-z_]+\s?", '', t).replace('<>', '').replace('::<', '<')


def counted(t): return t.op == 'len' and t.args[0].op == 'call' and t.args[0].args[0] == 'chars'


class Engine:
    MAXSTATES = 400
    MAXNODES = 60000

    def __init__(self, facts, anchors=None, opts=None):
        self.F = facts
        self.anchors = anchors or {}
        self.opts = opts or {}
        self.fnmeta = {}
        self.L = {}            # head loc -> set of (root, path) widened there
        self.split = {}        # head loc -> {(root,path): set of constants}
        self.restarts = 0
        self.cellcache = {}
        self.visited = set()   # (fn uid, block)
        self.inlined = {}
        self.methods = {}
        for f in facts.fns.values():
            if f.trait and f.self_ty and f.trait.startswith('seam'):
                self.methods[(f.trait, re.sub(r'<.*', '', f.self_ty), f.name)] = f
        self.same = self.opts.get('same', {})   # variants whose payload is named alike
        self.kindof = None     # (state, term, type) -> fact: kinds known from elsewhere
        import models
        self.models = models
        models.attach(self)

    # ---- types -------------------------------------------------------------------
    def tyinfo(self, t): return self.F.types.get(t)

    def has_cell(self, t, seen=None):
        c = self.cellcache.get(t)
        if c is not None: return c
        seen = seen or set()
        if t in seen: return False
        seen.add(t)
        r = False
        i = self.tyinfo(t)
        if i:
            k = i['k']
            if k == 'adt':
                p = i['path']
                if p in ('std::cell::Cell', 'std::cell::RefCell', 'std::cell::UnsafeCell', 'std::cell::OnceCell'): r = True
                elif p in ('std::cell::Ref', 'std::cell::RefMut'): r = False
                elif p in ('std::boxed::Box', 'std::rc::Rc', 'std::option::Option', 'std::sync::Arc'):
                    r = any(self.has_cell(a, seen) for a in i['args'])
                elif p.startswith('seam'):
                    a = self.F.adts.get(p)
                    if a:
                        for v in a['variants']:
                            for f in v['fields']:
                                if self.has_cell(f[1], seen): r = True
            elif k in ('array', 'slice'): r = self.has_cell(i['t'], seen)
            elif k == 'tuple': r = any(self.has_cell(a, seen) for a in i['args'])
            elif k == 'closure': r = False
        self.cellcache[t] = r
        return r

    def variants(self, adt):
        a = self.F.adts.get(adt)
        if not a: return None
        return a['variants']

    def adt_of(self, ty):
        i = self.tyinfo(ty)
        if i and i['k'] == 'adt': return i['path']
        return None

    # ---- store -------------------------------------------------------------------
    def initial(self, root):
        o = root.op
        if o == 'D': return root.args[0]
        if o == 'C': return root.args[0]
        return T('undef', root)

    def read_root(self, st, root):
        v = st.store.get(root)
        if v is None:
            if root.op == 'C':
                return T('cell', root.args[0], st.store.get(T('E'), kint(0)))
            return self.initial(root)
        return v

    def read(self, st, root, path):
        v = self.read_root(st, root)
        for p in path:
            v = self.project(st, v, p)
        return v

    def project(self, st, v, p):
        if p[0] == 'f': return self.field(v, p[1], p[2])
        return self.elem(st, v, p[1])

    def field(self, v, variant, name):
        o = v.op
        if o == 'agg':
            names = v.args[2]
            for n, x in zip(names, v.args[3]):
                if n == name: return x
            return T('undef', v, name)
        if o == 'clo':
            for n, x in zip(v.args[1], v.args[2]):
                if n == name: return x
        if o == 'with':
            if v.args[1] == ('f', variant, name): return v.args[2]
            if v.args[1][0] == 'f': return self.field(v.args[0], variant, name)
        if o == 'call' and v.args[0] == 'with_ws':
            if name == 'leading_whitespace': return v.args[1][1]
            if name != '0' and variant is not None: return self.field(v.args[1][0], variant, name)
        if o == 'fld' and v.args[0].op == 'call' and v.args[0].args[0] == 'with_ws':
            if name == 'leading_whitespace': return v.args[0].args[1][1]
            return self.field(self.field(v.args[0].args[1][0], v.args[1], v.args[2]), variant, name)
        if variant in self.same and name == '0': variant = self.same[variant]
        return T('fld', v, variant, name)

    def length(self, v):
        o = v.op
        if o == 'seq':
            c, terms_ = 0, []
            for k, x in v.args[0]:
                if k == 'i': c += 1
                else: terms_.append(self.length(x))
            r = None
            for x in terms_: r = x if r is None else self.add(r, x)
            if r is None: return kint(c)
            return self.add(r, kint(c)) if c else r
        if o == 'slice': return self.sub(v.args[2], v.args[1])
        if o == 'k' and v.args[0] in ('str',): return kint(len(v.args[1].encode()))
        if o == 'k' and v.args[0] in ('bytes',): return kint(len(v.args[1]))
        if o == 'with' and v.args[1][0] == 'e': return self.length(v.args[0])
        if o == 'call' and v.args[0] in ('as_bytes', 'ascii_lower', 'ascii_upper'): return self.length(v.args[1][0])
        if o == 'call' and v.args[0] in ('reverse', 'sorted'): return self.length(v.args[1][0])
        if o == 'call' and v.args[0] == 'repeat': return v.args[1][1]
        return T('len', v)

    def add(self, a, b):
        if a.op == 'k' and b.op == 'k' and a.args[0] == 'int': return kint(a.args[1] + b.args[1])
        if b.op == 'k' and b.args[1] == 0: return a
        if a.op == 'k' and a.args[1] == 0: return b
        if a.op == 'k': a, b = b, a
        if b.op == 'k' and a.op == 'add' and a.args[1].op == 'k': return self.add(a.args[0], kint(a.args[1].args[1] + b.args[1]))
        if 'sub' in (a.op, b.op) or b.op == 'add':
            la, ka = self.lin(a); lb, kb = self.lin(b)
            d = dict(la)
            for t, c in lb.items(): d[t] = d.get(t, 0) + c
            d = {t: c for t, c in d.items() if c}
            if len(d) < len(la) + len(lb):
                pos = [t for t, c in d.items() if c == 1]
                if len(pos) == len(d):
                    r = None
                    for t in pos: r = t if r is None else T('add', r, t)
                    return self.add(r, kint(ka + kb)) if r is not None else kint(ka + kb)
        return T('add', a, b)

    def sub(self, a, b):
        if a is b: return kint(0)
        if b.op == 'k' and b.args[0] == 'int': return self.add(a, kint(-b.args[1]))
        # (x + k) - x
        la, lb = self.lin(a), self.lin(b)
        d = dict(la[0])
        for t, c in lb[0].items():
            d[t] = d.get(t, 0) - c
        d = {t: c for t, c in d.items() if c}
        k = la[1] - lb[1]
        if not d: return kint(k)
        if len(d) == 1 and list(d.values()) == [1]: return self.add(list(d)[0], kint(k))
        return T('sub', a, b)

    def lin(self, t):
        if t.op == 'k' and t.args[0] == 'int': return {}, t.args[1]
        if t.op in ('add', 'sub'):
            a, ca = self.lin(t.args[0]); b, cb = self.lin(t.args[1])
            s = 1 if t.op == 'add' else -1
            d = dict(a)
            for x, c in b.items():
                d[x] = d.get(x, 0) + s * c
            return {x: c for x, c in d.items() if c}, ca + s * cb
        return {t: 1}, 0

    def elem(self, st, v, i):
        if v.op == 'seq':
            parts = v.args[0]
            if i.op == 'k' and i.args[0] == 'int':
                n = i.args[1]
                for k, x in parts:
                    if k == 's':
                        break
                    if n == 0: return x
                    n -= 1
            # from the end: index = len - c
            d = self.sub(self.length(v), i)
            if d.op == 'k':
                n = d.args[1]
                for k, x in reversed(parts):
                    n -= 1
                    if k == 's': break
                    if n == 0: return x
            if parts and parts[0][0] == 's' and st is not None and self.prove_lt(st, i, self.length(parts[0][1])):
                return self.elem(st, parts[0][1], i)
        if v.op == 'slice':
            return self.elem(st, v.args[0], self.add(v.args[1], i))
        if v.op == 'with' and v.args[1][0] == 'e':
            j = v.args[1][1]
            if j is i: return v.args[2]
            d = self.sub(i, j)
            if d.op == 'k' and d.args[1] != 0: return self.elem(st, v.args[0], i)
        return T('elem', v, i)

    def slice(self, v, lo, hi):
        if lo.op == 'k' and lo.args[1] == 0 and hi is self.length(v): return v
        if v.op == 'slice':
            return self.slice(v.args[0], self.add(v.args[1], lo), self.add(v.args[1], hi))
        if v.op == 'seq' and all(k == 'i' for k, _ in v.args[0]) and lo.op == 'k' and hi.op == 'k' and hi.args[1] <= len(v.args[0]):
            return seq(v.args[0][lo.args[1]:hi.args[1]])
        return T('slice', v, lo, hi)

    def write(self, st, root, path, val):
        if not path:
            st.store[root] = val
            return
        st.store[root] = self.updated(st, self.read_root(st, root), path, val)

    def updated(self, st, v, path, val):
        if not path: return val
        p = path[0]
        inner = self.updated(st, self.project(st, v, p), path[1:], val)
        if p[0] == 'f':
            if v.op == 'agg' and p[2] in v.args[2]:
                i = v.args[2].index(p[2])
                vals = v.args[3][:i] + (inner,) + v.args[3][i + 1:]
                return T('agg', v.args[0], v.args[1], v.args[2], vals)
            if v.op == 'clo' and p[2] in v.args[1]:
                i = v.args[1].index(p[2])
                return T('clo', v.args[0], v.args[1], v.args[2][:i] + (inner,) + v.args[2][i + 1:])
            if v.op == 'undef':
                return T('with', v, p, inner)
        if p[0] == 'e' and v.op == 'seq' and p[1].op == 'k' and all(k == 'i' for k, _ in v.args[0]) and 0 <= p[1].args[1] < len(v.args[0]):
            l = list(v.args[0]); l[p[1].args[1]] = ('i', inner)
            return T('seq', tuple(l))
        if p[0] == 'e' and v.op == 'seq':
            d = self.sub(self.length(v), p[1])
            if d.op == 'k' and 1 <= d.args[1] <= len(v.args[0]):
                n = d.args[1]
                if all(k == 'i' for k, _ in v.args[0][-n:]):
                    l = list(v.args[0]); l[-n] = ('i', inner)
                    return T('seq', tuple(l))
        base = v
        if base.op == 'with' and base.args[1] == p: base = base.args[0]
        if inner is self.project(st, base, p): return base
        return T('with', base, p, inner)

    # ---- places ------------------------------------------------------------------
    def place(self, st, p):
        """MIR place -> (root, path)."""
        fr = st.top
        root, path = T('L', fr.ctx, p[0]), ()
        variant = None
        for e in p[1]:
            k = e[0]
            if k == 'd':
                v = self.read(st, root, path)
                if v.op == 'ref':
                    root, path = v.args
                else:
                    root, path = T('D', v), ()
                variant = None
            elif k == 'v':
                variant = e[1]
            elif k == 'f':
                path = path + (('f', variant, e[2]),)
                variant = None
            elif k == 'i':
                path = path + (('e', self.read(st, T('L', fr.ctx, e[1]), ())),)
            elif k == 'ci':
                if e[3]:
                    v = self.read(st, root, path)
                    path = path + (('e', self.sub(self.length(v), kint(e[1]))),)
                else:
                    path = path + (('e', kint(e[1])),)
            elif k == 's':
                v = self.read(st, root, path)
                hi = self.sub(self.length(v), kint(e[2])) if e[3] else kint(e[2])
                root, path = T('D', self.slice(v, kint(e[1]), hi)), ()
        return root, path

    def read_place(self, st, p):
        r, q = self.place(st, p)
        return self.read(st, r, q)

    def operand(self, st, o):
        k = o[0]
        if k == 'c' or k == 'm': return self.read_place(st, o[1])
        if k == 'k': return self.const(o)
        if k == 'fn': return self.fnval(o[1])
        return FALSE    # runtime checks

    def fnval(self, c):
        key = c.get('ruid') or c.get('uid') or c['path']
        key = key + '|' + ','.join(c.get('targs', []))
        self.fnmeta[key] = c
        return K('fn', key)

    def const(self, o):
        v = self.cval(o[2], o[1])
        return v

    def cval(self, v, ty=None):
        k = v[0]
        if k == 'int': return kint(v[1])
        if k == 'bool': return kbool(v[1])
        if k == 'char': return K('char', v[1])
        if k == 'str': return kstr(v[1])
        if k == 'bytes': return K('bytes', tuple(v[1]))
        if k == 'array': return seq([('i', self.cval(x)) for x in v[1]])
        if k == 'adt':
            adt = v[1]
            if adt not in self.F.adts and adt.endswith('>'):
                # its arguments, but not those of an item it is declared in
                i, d = len(adt), 0
                while i:
                    i -= 1
                    d += {'>': 1, '<': -1}.get(adt[i], 0) if adt[i - 1:i + 1] != '->' else 0
                    if not d: break
                adt = adt[:i]
            names = None
            a = self.F.adts.get(adt)
            if a:
                for va in a['variants']:
                    if v[2] is None or va['name'] == v[2]:
                        names = tuple(f[0] for f in va['fields']); break
            if names is None or len(names) != len(v[3]): names = tuple(str(i) for i in range(len(v[3])))
            vn = v[2]
            if a and a['enum'] is False: vn = a['variants'][0]['name']
            return agg(adt, vn, names, [self.cval(x) for x in v[3]])
        if k == 'zst':
            if v[1] == '()': return UNIT
            i = self.tyinfo(v[1]) or {}
            if i.get('k') == 'fndef':
                key = i.get('uid', v[1])
                self.fnmeta.setdefault(key, {'path': i['path'], 'uid': key, 'ruid': key, 'targs': []})
                return K('fn', key)
            if i.get('k') == 'closure': return T('clo', i['path'], (), ())
            if i.get('k') == 'adt':
                a = self.F.adts.get(i['path'])
                if a and not a['enum'] and not a['variants'][0]['fields']: return agg(i['path'], a['variants'][0]['name'], (), ())
            return K('zst', v[1])
        if k == 'fnptr':
            self.fnmeta.setdefault(v[1], {'path': v[2] if len(v) > 2 else v[1], 'uid': v[1], 'ruid': v[1], 'targs': []})
            return K('fn', v[1])
        if k == 'static': return T('static', v[1])
        if k == 'float': return K('float', v[1])
        return K('opaque', json.dumps(v))

    # ---- rvalues -----------------------------------------------------------------
    def rvalue(self, st, r, dty):
        k = r[0]
        if k == 'use': return self.operand(st, r[1])
        if k == 'ref' or k == 'rawptr':
            p = r[2]
            root, path = self.place(st, p)
            mut = r[1] is True or (k == 'rawptr')
            v = self.read(st, root, path)
            if mut or v.op == 'ref' or self.has_cell(p[2]):
                if root.op == 'D' and not path and root not in st.store and root.args[0].op in ('arg', 'fld', 'elem') and not mut:
                    return T('ref', root, path)
                return T('ref', root, path)
            return v
        if k == 'cast':
            kind = r[1]
            if kind == 'BoxDerefTransmute':
                p = r[2][1]
                # _x.0 (or the field itself): pointer to the content of the box _x
                q = [p[0], p[1][:-1] if p[1] and p[1][-1][0] == 'f' else p[1], p[2]]
                root, path = self.place(st, q)
                v = self.read(st, root, path)
                if v.op == 'ref': return v
                return T('ref', root, path)
            v = self.operand(st, r[2])
            if kind.startswith('PointerCoercion') or kind.startswith('PtrToPtr') or kind.startswith('Subtype'): return v
            if kind == 'Transmute':
                return v
            if kind == 'IntToInt':
                return converted(v, r[3], r[4])
            return T('cast', r[3], v)
        if k == 'bin': return self.binop(st, r[1], self.operand(st, r[2]), self.operand(st, r[3]))
        if k == 'un':
            a = self.operand(st, r[2])
            if r[1] == 'Not':
                return self.neg(a)
            if r[1] == 'PtrMetadata':
                if a.op == 'ref': a = self.read(st, *a.args)
                return self.length(a)
            if r[1] == 'Neg' and a.op == 'k' and a.args[0] == 'int': return kint(-a.args[1])
            return T('un', r[1], a)
        if k == 'discr':
            v = self.read_place(st, r[1])
            while v.op == 'call' and v.args[0] == 'with_ws': v = v.args[1][0]
            return T('discr', v, self.adt_of(r[1][2]) or r[1][2])
        if k == 'agg':
            kk = r[1]
            vals = [self.operand(st, o) for o in r[2]]
            if kk[0] == 'adt':
                v = agg(kk[1], kk[2], kk[3], vals)
                if 'built' in self.opts: self.opts['built'](self, st, v)
                return v
            if kk[0] == 'tuple': return tup(*vals)
            if kk[0] == 'array': return seq([('i', x) for x in vals])
            if kk[0] == 'closure': return T('clo', kk[1], tuple(kk[2]), tuple(vals))
            return T('agg', kk[0], None, tuple(str(i) for i in range(len(vals))), tuple(vals))
        if k == 'repeat':
            x = self.operand(st, r[1])
            if r[2] is not None and r[2] <= 8: return seq([('i', x)] * r[2])
            return T('call', 'repeat', (x, kint(r[2] if r[2] is not None else -1)))
        return K('opaque', json.dumps(r))

    def neg(self, a):
        if a.op == 'k' and a.args[0] == 'bool': return kbool(not a.args[1])
        if a.op == 'not': return a.args[0]
        return T('not', a)

    def eq(self, a, b):
        if a is b: return TRUE
        if a.op == 'k' and b.op == 'k':
            if a.args[0] == b.args[0] and a.args[0] in ('int', 'bool', 'char', 'str', 'bytes', 'unit'): return kbool(a.args[1] == b.args[1])
        if a.op == 'agg' and b.op == 'agg' and a.args[0] == b.args[0]:
            if a.args[1] != b.args[1]: return FALSE
            r = TRUE
            for x, y in zip(a.args[3], b.args[3]):
                e = self.eq(x, y)
                if e is FALSE: return FALSE
                r = e if r is TRUE else (r if e is TRUE else T('and', r, e))
            return r
        if a.op == 'k' or (b.op != 'k' and b.n < a.n): a, b = b, a
        if b.op == 'k' and b.args[0] == 'str' and b.args[1] == '' : return T('eq', T('len', a), kint(0)) if a.op not in ('cat',) else T('eq', self.length(a), kint(0))
        if b.op == 'k' and b.args[0] == 'bool': return a if b.args[1] else self.neg(a)
        if b.op == 'k' and b.args[0] == 'char' and a.op == 'cast' and a.args[0] == 'char': return self.eq(a.args[1], kint(ord(b.args[1])))
        if b.op == 'k' and b.args == ('int', 0) and a.op == 'sub': return self.neg(self.lt(a.args[1], a.args[0]))   # unsigned
        if b.op == 'k' and b.args[0] == 'int' and a.op == 'add' and a.args[1].op == 'k': return self.eq(a.args[0], kint(b.args[1] - a.args[1].args[1]))
        return T('eq', a, b)

    def lt(self, a, b):
        if a.op == 'k' and b.op == 'k' and a.args[0] == 'int': return kbool(a.args[1] < b.args[1])
        if a is b: return FALSE
        if b.op == 'k' and b.args[0] == 'int' and b.args[1] == 1 and a.op in ('len', 'sub'): return self.eq(a, kint(0))
        if a.op == 'k' and a.args[0] == 'int' and a.args[1] == 0 and b.op in ('len', 'sub'): return self.neg(self.eq(b, kint(0)))
        return T('lt', a, b)

    def binop(self, st, op, a, b):
        o = op.replace('WithOverflow', '').replace('Unchecked', '')
        r = None
        if o == 'Add': r = self.add(a, b)
        elif o == 'Sub': r = self.sub(a, b)
        elif o == 'Eq': r = self.eq(a, b)
        elif o == 'Ne': r = self.neg(self.eq(a, b))
        elif o == 'Lt': r = self.lt(a, b)
        elif o == 'Gt': r = self.lt(b, a)
        elif o == 'Le': r = self.neg(self.lt(b, a))
        elif o == 'Ge': r = self.neg(self.lt(a, b))
        elif o in ('BitAnd', 'BitOr', 'BitXor'):
            for x, y in ((a, b), (b, a)):
                if x.op == 'k' and x.args[0] == 'bool':
                    if o == 'BitAnd': r = y if x.args[1] else FALSE
                    elif o == 'BitOr': r = TRUE if x.args[1] else y
                    else: r = self.neg(y) if x.args[1] else y
            if r is None: r = T({'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor'}[o], a, b)
        elif a.op == 'k' and b.op == 'k' and a.args[0] == 'int' and o in ('Mul', 'Shl', 'Shr', 'Div', 'Rem'):
            x, y = a.args[1], b.args[1]
            if o == 'Mul': r = kint(x * y)
            elif o == 'Shl': r = kint(x << y)
            elif o == 'Shr': r = kint(x >> y)
            elif y: r = kint(x // y if o == 'Div' else x % y)
        if r is None: r = T('bin', o, a, b)
        if 'WithOverflow' in op: return tup(r, T('ovf', o, a, b))
        return r

    # ---- facts -------------------------------------------------------------------
    # facts[term] = (True, frozenset consts)  the term is one of;  (False, ...)  none of
    def fact(self, st, t): return st.facts.get(t)

    def is_const(self, st, t, c):
        """True/False/None: does term t equal constant c?"""
        if t is c: return True
        if t.op == 'k' and c.op == 'k': return t.args == c.args
        f = st.facts.get(t)
        if f:
            if f[0]:
                if c not in f[1]: return False
                if len(f[1]) == 1: return True
            elif c in f[1]: return False
        return None

    def truth(self, st, t):
        if t.op == 'k': return t.args[1]
        o = t.op
        if o == 'not':
            r = self.truth(st, t.args[0])
            return None if r is None else not r
        f = st.facts.get(t)
        if f and f[0] and len(f[1]) == 1: return next(iter(f[1])).args[1]
        if o == 'and':
            a, b = self.truth(st, t.args[0]), self.truth(st, t.args[1])
            if a is False or b is False: return False
            if a and b: return True
            return None
        if o == 'or':
            a, b = self.truth(st, t.args[0]), self.truth(st, t.args[1])
            if a or b: return True
            if a is False and b is False: return False
            return None
        if o == 'in':
            f = st.facts.get(t.args[0])
            s = t.args[1]
            if f and f[0]:
                if f[1] <= frozenset(s): return True
                if not (f[1] & frozenset(s)): return False
            if f and not f[0] and frozenset(s) <= f[1]: return False
            if t.args[0].op == 'k': return t.args[0] in s
            return None
        if o == 'eq':
            a, b = t.args
            if b.op == 'k':
                r = self.is_const(st, a, b)
                if r is not None: return r
                if b.args[0] == 'int':
                    if self.prove_lt(st, a, b) or self.prove_lt(st, b, a): return False
                    if self.prove_le(st, a, b) and self.prove_le(st, b, a): return True
            else:
                fa, fb = st.facts.get(a), st.facts.get(b)
                if fa and fb and fa[0] and fb[0]:
                    if not (fa[1] & fb[1]): return False
                    if len(fa[1]) == 1 and fa[1] == fb[1]: return True
                if a.op != 'k' and (self.numeric(a) or self.numeric(b)):
                    if self.prove_lt(st, a, b) or self.prove_lt(st, b, a): return False
            return None
        if o == 'isvar':
            pv = self.possible_variants(st, t.args[0], t.args[1])
            if t.args[2] not in pv: return False
            if len(pv) == 1: return True
            return None
        if o == 'lt':
            if self.prove_lt(st, t.args[0], t.args[1]): return True
            if self.prove_le(st, t.args[1], t.args[0]): return False
            return None
        return None

    def numeric(self, t): return t.op in ('len', 'add', 'sub') or (t.op == 'k' and t.args[0] == 'int')

    def nonneg(self, t):
        return t.op == 'len' or (t.op == 'phi' and t.args[4] == 'u') or t.op == 'usize' or t in self.unsigned

    def prove_le(self, st, a, b): return self.prove(st, a, b, 0)
    def prove_lt(self, st, a, b): return self.prove(st, a, b, 1)

    def prove(self, st, a, b, s):
        """b - a - s >= 0 ?"""
        la, lb = self.lin(a), self.lin(b)
        d = dict(lb[0])
        for t, c in la[0].items():
            d[t] = d.get(t, 0) - c
        d = {t: c for t, c in d.items() if c}
        k = lb[1] - la[1] - s
        cons = None
        for t in list(d):
            if counted(t): cons = (self._cons(st) if cons is None else cons) + self.characters(t)
        return self._prove(st, d, k, 3, cons)

    def characters(self, t):
        """A text has at least one and at most four bytes per character."""
        l, k = self.lin(self.length(t.args[0].args[1][0]))
        more = lambda a, b: {x: c for x, c in ((x, a * l.get(x, 0) + (b if x is t else 0)) for x in {*l, t}) if c}
        return [(more(1, -1), k), (more(-1, 4), -k)]

    def _cons(self, st):
        """Linear facts: list of (dict, k) meaning sum + k >= 0."""
        out = []
        for t, f in st.facts.items():
            if t.op == 'lt' and f[0] and len(f[1]) == 1:
                tv = next(iter(f[1])).args[1]
                x, y = t.args
                for z in (x, y):
                    if counted(z): out += self.characters(z)
                if tv is False: x, y = y, x
                lx, ly = self.lin(x), self.lin(y)
                d = dict(ly[0])
                for z, c in lx[0].items(): d[z] = d.get(z, 0) - c
                out.append(({z: c for z, c in d.items() if c}, ly[1] - lx[1] - (1 if tv else 0)))
            elif t.op == 'eq' and f[0] and len(f[1]) == 1 and next(iter(f[1])).args[1] is True and (self.numeric(t.args[0]) or self.numeric(t.args[1])):
                lx, ly = self.lin(t.args[0]), self.lin(t.args[1])
                d = dict(ly[0])
                for z, c in lx[0].items(): d[z] = d.get(z, 0) - c
                d = {z: c for z, c in d.items() if c}
                out.append((d, ly[1] - lx[1]))
                out.append(({z: -c for z, c in d.items()}, lx[1] - ly[1]))
            elif f[0] and f[1] and all(c.op == 'k' and c.args[0] == 'int' for c in f[1]):
                out.append(({t: 1}, -min(c.args[1] for c in f[1])))
                out.append(({t: -1}, max(c.args[1] for c in f[1])))
            elif not f[0] and self.nonneg(t):
                n = 0
                while kint(n) in f[1]: n += 1
                if n: out.append(({t: 1}, -n))
            elif t.op == 'call' and t.args[0] == 'starts_with' and f[0] and TRUE in f[1] and len(f[1]) == 1 and t.args[1][1].op == 'k' and t.args[1][1].args[0] in ('str', 'char'):
                out.append(({T('len', t.args[1][0]): 1}, -len(t.args[1][1].args[1].encode())))
            elif f[0] and f[1] and all(c.op == 'k' and c.args[0] == 'str' for c in f[1]):
                out.append(({T('len', t): 1}, -min(len(c.args[1].encode()) for c in f[1])))
        return out

    def _prove(self, st, d, k, depth, cons):
        if k >= 0 and all(c > 0 and self.nonneg(t) for t, c in d.items()): return True
        if not d or depth == 0: return False
        if cons is None: cons = self._cons(st)
        for cd, ck in cons:
            # subtract a constraint that removes a negative term
            if any(d.get(t, 0) < 0 and c < 0 for t, c in cd.items()) or any(d.get(t, 0) > 0 and c > 0 and not self.nonneg(t) for t, c in cd.items()) or (k < 0 and any(d.get(t, 0) > 0 and c > 0 for t, c in cd.items())):
                nd = dict(d)
                for t, c in cd.items(): nd[t] = nd.get(t, 0) - c
                nd = {t: c for t, c in nd.items() if c}
                if len(nd) <= len(d) + 1 and self._prove(st, nd, k - ck, depth - 1, cons): return True
        return False

    def assume(self, st, t, val):
        """Assume boolean term t has the given value; False when impossible."""
        if t.op == 'not': return self.assume(st, t.args[0], not val)
        r = self.truth(st, t)
        if r is not None: return r == val
        if t.op == 'and':
            if val: return self.assume(st, t.args[0], True) and self.assume(st, t.args[1], True)
        if t.op == 'or':
            if not val: return self.assume(st, t.args[0], False) and self.assume(st, t.args[1], False)
        if t.op == 'isvar':
            names = [n for n in self.vnames(t.args[1]) if (n == t.args[2]) == val]
            return self.assume_variant(st, t.args[0], t.args[1], names)
        if t.op == 'in': return self.restrict(st, t.args[0], val, frozenset(t.args[1]))
        if t.op == 'eq' and t.args[1].op == 'k': return self.restrict(st, t.args[0], val, frozenset([t.args[1]]))
        if t.op == 'eq' and t.args[0].op != 'k':
            # variant-only enums etc.
            pass
        st.facts[t] = (True, frozenset([kbool(val)]))
        return True

    def restrict(self, st, t, positive, consts):
        f = st.facts.get(t)
        if f is None:
            n = (positive, consts)
        elif positive:
            n = (True, f[1] & consts) if f[0] else (True, consts - f[1])
        else:
            n = (True, f[1] - consts) if f[0] else (False, f[1] | consts)
        if n[0] and not n[1]: return False
        st.facts[t] = n
        return True

    # ---- discriminants -----------------------------------------------------------
    def vnames(self, adt):
        vs = self.variants(adt)
        return [v['name'] for v in vs] if vs else None

    def variant_of(self, st, v, adt):
        """Known variant name of enum value v, or None."""
        while v.op == 'call' and v.args[0] == 'with_ws': v = v.args[1][0]
        if v.op == 'agg': return v.args[1]
        f = st.facts.get(T('discr', v, adt)) or (self.kindof and self.kindof(st, v, adt))
        if f and f[0] and len(f[1]) == 1: return next(iter(f[1])).args[1]
        return None

    def possible_variants(self, st, v, adt):
        while v.op == 'call' and v.args[0] == 'with_ws': v = v.args[1][0]
        if v.op == 'agg': return [v.args[1]]
        names = self.vnames(adt) or []
        f = st.facts.get(T('discr', v, adt)) or (self.kindof and self.kindof(st, v, adt))
        if f is None: return names
        s = {c.args[1] for c in f[1]}
        return [n for n in names if (n in s) == f[0]]

    def assume_variant(self, st, v, adt, names):
        while v.op == 'call' and v.args[0] == 'with_ws': v = v.args[1][0]
        if v.op == 'agg': return v.args[1] in names
        pv = self.possible_variants(st, v, adt)
        s = [n for n in pv if n in names]
        if not s: return False
        st.facts[T('discr', v, adt)] = (True, frozenset(K('var', n) for n in s))
        return True

    # ---- garbage collection of states -----------------------------------------------
    def gc(self, st):
        """Drop dead locals and facts about values nothing can reach any more."""
        roots = set()
        store = st.store
        n = len(st.frames)
        for i, fr in enumerate(st.frames):
            live = cfg(fr.fn)['live']
            if i == n - 1:
                lv = live.get(st.blk, ())
            else:
                nxt = st.frames[i + 1]
                lv = set(live.get(nxt.ret, ())) if nxt.ret is not None else set()
                d = nxt.dest
                if d:
                    if not d[1]: lv = lv - {d[0]}
                    else: lv = lv | {d[0]}
                    for e in d[1]:
                        if e[0] == 'i': lv = lv | {e[1]}
            for l in lv: roots.add(T('L', fr.ctx, l))
            if fr.post:
                for x in fr.post[1:]:
                    if type(x) is Term: roots |= refs(x)
        keep = set()
        work = list(roots)
        for k in store:
            if k.op in ('D', 'C', 'E'): work.append(k)
        while work:
            r = work.pop()
            if r in keep: continue
            v = store.get(r)
            if v is None: continue
            keep.add(r)
            for x in refs(v):
                if x not in keep: work.append(x)
            if r.op in ('D', 'C'): pass
        for k in list(store):
            if k not in keep: del store[k]
        at = set()
        for k, v in store.items():
            at |= atoms(v)
            if k.op in ('D', 'C'): at |= atoms(k)
        hold = self.opts.get('keep')
        for t in list(st.facts):
            a = atoms(t)
            if a and not a <= at and not (hold and hold(t)): del st.facts[t]

    # ---- exploration ---------------------------------------------------------------
    def prio(self, st):
        p = []
        for i, fr in enumerate(st.frames):
            r = cfg(fr.fn)['rpo']
            b = st.blk if i == len(st.frames) - 1 else st.frames[i + 1].ctx.args[2]
            p.append(r.get(b, 0))
        return tuple(p)

    def explore(self, fn, args=None, setup=None):
        self.L = {}
        self.split = {}
        self.conv = {}
        self.inv = {}
        self.restarts = 0
        while True:
            try:
                self._explore(fn, args, setup)
                return Graph(self)
            except Restart:
                self.restarts += 1
                if self.restarts > 400: raise AnalysisError('no fixpoint for %s' % fn.path)

    def newnode(self, loc, st, kind='state'):
        nd = Node(len(self.nodes), loc, st, kind)
        self.nodes.append(nd)
        if len(self.nodes) > self.MAXNODES: raise AnalysisError('state explosion in %s (at %s bb%s)' % (self.root.path, loc[0].args[1:] if loc else '', loc[1] if loc else ''))
        return nd

    def edge(self, a, ev, b):
        e = (tuple(ev), b.id)
        if e not in a.out:
            a.out.append(e)
            b.inn.append(a.id)

    def _explore(self, fn, args, setup):
        self.root = fn
        self.nodes = []
        self.bykey = {}
        self.loopinfo = {}
        self.exits = []
        self.obl = {}
        self.unsigned = set()          # values known to be of an unsigned type
        self.pending = {}
        self.heap = []
        ctx = T('ctx', None, fn.uid, -1)
        fr = Frame(fn, ctx, None, None)
        st = State((fr,), 0, {}, {}, {})
        for i in range(1, fn.argc + 1):
            nm = fn.locals[i][1] or 'arg%d' % i
            v = T('arg', i, nm)
            if args and i - 1 < len(args) and args[i - 1] is not None: v = args[i - 1]
            st.store[T('L', ctx, i)] = v
        if setup: setup(self, st)
        n0 = self.newnode((ctx, -1), st.copy(), 'start')
        self.push(st, n0, [])
        while self.heap:
            _, _, loc = heapq.heappop(self.heap)
            arr = self.pending.pop(loc, None)
            if arr: self.process(loc, arr)

    def push(self, st, src, ev):
        self.gc(st)
        fr = st.top
        c = cfg(fr.fn)
        # leaving loops
        if st.loops:
            for h in list(st.loops):
                ok_ = False
                for i, f in enumerate(st.frames):
                    if f.ctx is h[0]:
                        b = st.blk if i == len(st.frames) - 1 else st.frames[i + 1].ctx.args[2]
                        ok_ = b in cfg(f.fn)['body'][h[1]]
                        break
                if not ok_: del st.loops[h]
        loc = st.loc()
        if loc not in self.pending:
            self.pending[loc] = []
            heapq.heappush(self.heap, (self.prio(st), len(self.nodes) * 1000 + len(self.heap), loc))
        self.pending[loc].append((st, src, tuple(ev)))

    def skey(self, st):
        return (frozenset(st.store.items()), frozenset(st.loops.items()))

    def process(self, loc, arr):
        groups = {}
        fn = arr[0][0].top.fn
        ishead = loc[1] in cfg(fn)['heads']
        if ishead and (self.opts.get('peel') or self.opts.get('decide')): arr = [x for a in arr for x in self.decide(*a)]
        for st, src, ev in arr:
            if ishead:
                self.at_head(loc, st, src, ev)
            k = self.skey(st)
            apart = self.opts.get('apart')      # facts that are never given up where paths meet
            if apart: k += (frozenset((t, f) for t, f in st.facts.items() if apart(t)),)
            groups.setdefault(k, []).append((st, src, ev))
        if loc[1] in cfg(fn)['joins']:
            total = 0
            out = []
            for k, l in groups.items():
                l2 = self.merge_facts(l)
                out += l2
            if len(out) > self.opts.get('maxstates', self.MAXSTATES):
                # too many facts: keep only what the group agrees on
                out = []
                for k, l in groups.items():
                    out.append(self.meet_facts(l))
                if len(out) > 4 * self.MAXSTATES: raise AnalysisError('state explosion in %s at %s bb%d: %d' % (self.root.path, fn.path, loc[1], len(out)))
        else:
            out = [(st, [(src, ev)]) for l in groups.values() for st, src, ev in l]
        for st, srcs in out:
            key = (loc, self.skey(st), frozenset(st.facts.items()))
            nd = self.bykey.get(key)
            new = nd is None
            if new:
                nd = self.newnode(loc, st)
                self.bykey[key] = nd
            for src, ev in srcs: self.edge(src, ev, nd)
            if new:
                self.visited.add((fn.uid, loc[1]))
                w = st.copy()
                if ishead: w.loops[loc] = nd.id
                self.run(w, nd)

    def merge_facts(self, l):
        """States with equal stores: unite pairs that differ in one set-valued fact."""
        items = []
        seen = {}
        for st, src, ev in l:
            fk = frozenset(st.facts.items())
            if fk in seen: items[seen[fk]][1].append((src, ev))
            else:
                seen[fk] = len(items)
                items.append([st, [(src, ev)]])
        ch = True
        while ch and len(items) > 1:
            ch = False
            # bucket by facts minus one term
            buckets = {}
            for i, it in enumerate(items):
                fs = it[0].facts
                for t, f in fs.items():
                    k = (t, f[0], frozenset((x, y) for x, y in fs.items() if x is not t))
                    j = buckets.get(k)
                    if j is None: buckets[k] = i
                    elif j != i:
                        a, b = items[j], it
                        na = a[0].copy()
                        nf = (f[0], (a[0].facts[t][1] | f[1]) if f[0] else (a[0].facts[t][1] & f[1]))
                        if not f[0] and not nf[1]: del na.facts[t]
                        elif f[0] and t.op not in ('discr',) and nf[1] == frozenset([TRUE, FALSE]): del na.facts[t]
                        elif f[0] and t.op == 'discr' and len(nf[1]) == len(self.vnames(t.args[1]) or [0] * 99): del na.facts[t]
                        else: na.facts[t] = nf
                        items[j] = [na, a[1] + b[1]]
                        del items[i]
                        ch = True
                        break
                if ch: break
            if not ch:
                # complementary facts: t in S on one side, t not in S' on the other
                idx = {}
                for i, it in enumerate(items):
                    fs = it[0].facts
                    for t, f in fs.items():
                        k = (t, frozenset((x, y) for x, y in fs.items() if x is not t))
                        j = idx.get(k)
                        if j is None: idx[k] = i
                        elif j != i and items[j][0].facts[t][0] != f[0]:
                            a = items[j]
                            pos, neg = (a[0].facts[t][1], f[1]) if a[0].facts[t][0] else (f[1], a[0].facts[t][1])
                            rest = neg - pos
                            na = a[0].copy()
                            if rest: na.facts[t] = (False, rest)
                            else: del na.facts[t]
                            items[j] = [na, a[1] + it[1]]
                            del items[i]
                            ch = True
                            break
                    if ch: break
            if not ch:
                # absorption: one state's facts a subset of another's (weaker covers stronger)
                for i in range(len(items)):
                    for j in range(len(items)):
                        if i != j:
                            fi, fj = items[i][0].facts, items[j][0].facts
                            if len(fi) < len(fj) and all(fj.get(t) == f for t, f in fi.items()):
                                items[i][1].extend(items[j][1])
                                del items[j]
                                ch = True
                                break
                    if ch: break
        return [(a, b) for a, b in items]

    def meet_facts(self, l):
        st = l[0][0].copy()
        for t in list(st.facts):
            f = st.facts[t]
            for s2, _, _ in l[1:]:
                g = s2.facts.get(t)
                if g is None: f = None; break
                if f[0] and g[0]: f = (True, f[1] | g[1])
                elif not f[0] and not g[0]: f = (False, f[1] & g[1])
                elif f[0]: f = (False, g[1] - f[1])
                else: f = (False, f[1] - g[1])
            if f is None or (not f[0] and not f[1]): del st.facts[t]
            else: st.facts[t] = f
        return (st, [(src, ev) for _, src, ev in l])

    # ---- loop heads -----------------------------------------------------------------
    BOOLS = ('eq', 'lt', 'in', 'not', 'and', 'or', 'isvar')

    def decide(self, st, src, ev):
        """Truth values that a loop carries are decided before the head."""
        for root, v in st.store.items():
            if root.op == 'L' and root.args[0] is st.top.ctx and v.op in self.BOOLS:
                out = []
                for b in (True, False):
                    s2 = st.copy()
                    if not self.assume(s2, v, b): continue
                    s2.store[root] = kbool(b)
                    mid = self.newnode(src.loc, s2.copy(), 'split')
                    self.edge(src, ev, mid)
                    out += self.decide(s2, mid, [])
                return out
        return [(st, src, ev)]

    def seqlike(self, v): return v.op in ('fld', 'elem', 'arg', 'call', 'slice', 'seq', 'res', 'with', 'phi')

    def as_slice(self, v): return v.args if v.op == 'slice' else (v, kint(0), self.length(v))

    def get_path(self, v, path):
        for p in path:
            if p[0] in ('lo', 'hi'):
                if not self.seqlike(v): return None
                v = self.as_slice(v)[1 if p[0] == 'lo' else 2]
            elif p[0] == 'f':
                if v.op == 'agg' and v.args[1] == p[1] and p[2] in v.args[2]: v = v.args[3][v.args[2].index(p[2])]
                elif v.op == 'clo' and p[2] in v.args[1]: v = v.args[2][v.args[1].index(p[2])]
                else: return None
            else: return None
        return v

    def set_path(self, v, path, x):
        if not path: return x
        p = path[0]
        if p[0] in ('lo', 'hi'):
            b, lo, hi = self.as_slice(v)
            return T('slice', b, x, hi) if p[0] == 'lo' else T('slice', b, lo, x)
        if v.op == 'clo':
            i = v.args[1].index(p[2])
            return T('clo', v.args[0], v.args[1], v.args[2][:i] + (self.set_path(v.args[2][i], path[1:], x),) + v.args[2][i + 1:])
        i = v.args[2].index(p[2])
        return T('agg', v.args[0], v.args[1], v.args[2], v.args[3][:i] + (self.set_path(v.args[3][i], path[1:], x),) + v.args[3][i + 1:])

    def at_head(self, loc, st, src, ev):
        L = self.L.setdefault(loc, {})
        origin = st.loops.get(loc)
        back = origin is not None
        for root, path in self.conv.get(loc, ()):
            v = st.store.get(root)
            x = self.get_path(v, path) if v is not None else None
            if x is not None and x.op not in ('agg', 'ref'): st.store[root] = self.set_path(v, path, self.models.slice_iter(self, x))
        raw = {}
        peel = self.opts.get('peel') and not back
        for (root, path), flag in L.items():
            v = st.store.get(root)
            if v is None: continue
            x = self.get_path(v, path)
            if x is None: continue
            ph = T('phi', loc[0], loc[1], root, path, flag)
            raw[(root, path)] = x
            if x is not ph and not peel: st.store[root] = self.set_path(v, path, ph)
        info = self.loopinfo.setdefault(loc, {'entry': [], 'back': []})
        rec = (raw, dict(st.facts), src.id)
        if back:
            info['back'].append(rec + (origin,))
            o = self.nodes[origin].state
            # compare with the state at the head this iteration started from
            changed = False
            for k in list(st.store):
                if k not in o.store:
                    if k.op in ('L', 'H'): del st.store[k]
                    else:
                        # effect location first written inside the loop
                        changed |= self.widen(loc, k, (), self.read_root(self.nodes[origin].state, k), st.store[k])
            for k, ov in o.store.items():
                nv = st.store.get(k)
                if nv is None:
                    if k.op in ('D', 'C', 'E'):
                        changed |= self.widen(loc, k, (), ov, self.read_root(st, k))
                    else: st.store[k] = ov
                elif nv is not ov:
                    changed |= self.diff(loc, k, (), ov, nv)
            if changed: raise Restart()
            st.facts = {t: f for t, f in st.facts.items() if o.facts.get(t) == f}
            # a different constant at the head: a new head state of the same loop
            ph_atoms = {a for a in self.loop_atoms(loc)}
            st.loops = dict(self.nodes[origin].state.loops)
        else:
            info['entry'].append(rec)
            for k in L if not peel else ():
                # effect locations that are not in the store yet
                if k[0] not in st.store and k[0].op in ('D', 'C', 'E') and not k[1]:
                    raw[k] = self.read_root(st, k[0])
                    st.store[k[0]] = T('phi', loc[0], loc[1], k[0], k[1], L[k])
        # facts about the loop's own terms are stale at its head
        la = self.loop_atoms(loc)
        for t in list(st.facts):
            if any(a in la or (a.op == 'phi' and a.args[0] is loc[0] and a.args[1] == loc[1]) for a in atoms(t)): del st.facts[t]
        self.houdini(loc, st, raw, back, rec[1])

    def houdini(self, loc, st, raw, back, facts):
        """Facts about a value that changes in the loop and hold of every value it takes."""
        if not self.opts.get('houdini'): return
        inv = self.inv.setdefault(loc, {})
        own = lambda a: a.op == 'phi' and a.args[0] is loc[0] and a.args[1] == loc[1]
        for (root, path), x in raw.items():
            ph = T('phi', loc[0], loc[1], root, path, self.L[loc][(root, path)])
            key = (root, path)
            if self.L[loc][key] == 'u': self.bounded(loc, st, key, ph, x, back, facts, own)
            if x is not ph:
                cand = {}
                if x.op not in ('k', 'agg', 'seq', 'cat', 'add', 'sub'):
                    for t, f in facts.items():
                        if x not in within(t): continue
                        t = subst(t, {x: ph})
                        if not any(a is not ph and own(a) for a in within(t)): cand[t] = f
                old = inv.get(key)
                if old is None: inv[key] = cand
                else:
                    new = {}
                    for t, f in old.items():
                        g = cand.get(t)
                        if g is None: continue
                        if g == f: new[t] = f
                        elif g[0] and f[0]: new[t] = (True, g[1] | f[1])
                        elif not g[0] and not f[0] and g[1] & f[1]: new[t] = (False, g[1] & f[1])
                    if new != old:
                        inv[key] = new
                        raise Restart()
            st.facts.update(inv.get(key, {}))

    def bounded(self, loc, st, key, ph, x, back, facts, own):
        """A counter that starts within a bound and only grows while it is below it never exceeds it."""
        inv = self.inv.setdefault((loc, 'le'), {})
        old = new = inv.get(key)
        if not back:
            if old is not None: new = frozenset(b for b in old if self.prove_le(st, x, b))
        elif x is not ph:
            new = frozenset(t.args[1] for t, f in facts.items() if t.op == 'lt' and t.args[0] is ph and f == (True, frozenset([TRUE]))
                            and self.numeric(t.args[1]) and not any(own(a) for a in atoms(t.args[1]))) if self.sub(x, ph) is kint(1) else frozenset()
            if old is not None: new &= old
        if new != old:
            inv[key] = new
            raise Restart()
        for b in new or (): st.facts[T('lt', b, ph)] = (True, frozenset([FALSE]))

    def loop_atoms(self, loc):
        return {T('phi', loc[0], loc[1], r, p, f) for (r, p), f in self.L.get(loc, {}).items()}

    def widen(self, loc, root, path, ov, nv):
        L = self.L.setdefault(loc, {})
        # drop deeper entries
        for k in list(L):
            if k[0] is root and k[1][:len(path)] == path and k[1] != path: del L[k]
        if (root, path) in L: return False
        flag = 'u' if (ov.op == 'k' and ov.args[0] == 'int' and ov.args[1] >= 0) or ov.op == 'len' or self.numeric(ov) else ''
        L[(root, path)] = flag
        return True

    def diff(self, loc, root, path, a, b):
        """Widen the parts in which b (back edge) differs from a (head)."""
        if a is b: return False
        if a.op not in ('agg', 'phi') and b.op == 'agg' and b.args[0] == 'models::SliceIter' and b.args[3][0] is a:
            self.conv.setdefault(loc, set()).add((root, path))
            return True
        if a.op == 'agg' and b.op == 'agg' and a.args[0] == b.args[0]:
            if a.args[1] == b.args[1] and a.args[2] == b.args[2]:
                ch = False
                for n, x, y in zip(a.args[2], a.args[3], b.args[3]):
                    if x is not y: ch |= self.diff(loc, root, path + (('f', a.args[1], n),), x, y)
                return ch
            if a.args[1] != b.args[1]:
                # enum variants are kept apart; the payload must not mention loop values
                if not self.room(loc, root, path, K('var', b.args[1])): return self.widen(loc, root, path, a, b)
                ch = False
                for n, y in zip(b.args[2], b.args[3]):
                    if y.op == 'agg' and not y.args[3]: continue
                    if y.op == 'k' and y.args[0] in ('bool', 'fn'): continue
                    if y.op == 'phi' and y.args[0] is loc[0] and y.args[1] == loc[1] and y.args[2] is root: continue
                    if atoms(y) or y.op == 'k': ch |= self.widen(loc, root, path + (('f', b.args[1], n),), y, y)
                return ch
        if a.op == 'clo' and b.op == 'clo' and a.args[0] == b.args[0]:
            ch = False
            for n, x, y in zip(a.args[1], a.args[2], b.args[2]):
                if x is not y: ch |= self.diff(loc, root, path + (('f', None, n),), x, y)
            return ch
        if a.op == 'k' and b.op == 'k' and a.args[0] == b.args[0] == 'bool':
            return False
        if self.opts.get('unroll'):
            # rounds over a sequence that is written out are kept apart
            if a.op == 'k' and b.op == 'k' and a.args[0] == b.args[0] == 'int' and self.room(loc, root, path, b): return False
            if a.op == 'seq' and b.op == 'seq' and all(k == 'i' for k, _ in a.args[0] + b.args[0]) and self.room(loc, root, path, b): return False
            if a.op in ('map', 'ins', 'rem') and b.op in ('map', 'ins', 'rem') and self.room(loc, root, path, b): return False
            if a.op == 'call' and b.op == 'call' and a.args[0] == b.args[0] and all(x.op == 'k' for x in a.args[1] + b.args[1]) and self.room(loc, root, path, b): return False
        if b.op == 'slice' and self.seqlike(a):
            # a shrinking view of one sequence: widen its bounds only
            sa, la, ha = self.as_slice(a)
            sb, lb, hb = b.args
            if sa is sb:
                ch = False
                if la is not lb: ch |= self.widen(loc, root, path + (('lo',),), la, lb)
                if ha is not hb: ch |= self.widen(loc, root, path + (('hi',),), ha, hb)
                return ch
        if a.op == 'k' and b.op == 'k' and a.args[0] == b.args[0] == 'fn' and self.room(loc, root, path, b): return False
        return self.widen(loc, root, path, a, b)

    def room(self, loc, root, path, c):
        s = self.split.setdefault(loc, {}).setdefault((root, path), set())
        s.add(c)
        return len(s) <= 6

    # ---- running a state to the next block boundary ------------------------------------
    def run(self, st, node):
        ev = []
        while True:
            fr = st.top
            blk = fr.fn.blocks[st.blk]
            for s in blk['s']:
                k = s[0]
                if k == '=':
                    p = s[1]
                    v = self.rvalue(st, s[2], p[2])
                    if not p[1]: st.store[T('L', fr.ctx, p[0])] = v
                    else:
                        root, path = self.place(st, p)
                        self.store_to(st, root, path, v, ev)
                elif k == 'sd':
                    root, path = self.place(st, s[1])
                    a = self.adt_of(s[1][2])
                    vs = self.variants(a)
                    if vs: self.store_to(st, root, path, agg(a, vs[s[2]]['name'], (), ()), ev)
                elif k == 'dead':
                    pass
            t = blk['t']
            k = t[0]
            if k == 'goto':
                nxt = t[1]
            elif k == 'drop':
                nxt = t[2]
            elif k == 'switch':
                outs = self.switch(st, t, blk['sp'])
                if len(outs) == 1 and outs[0][2] is None:
                    st = outs[0][1]
                    nxt = outs[0][0]
                else:
                    if ev and len(outs) > 1:
                        mid = self.newnode(st.loc(), None, 'mid')
                        self.edge(node, ev, mid)
                        node, ev = mid, []
                    for tgt, s2, e in outs:
                        s2.blk = tgt
                        self.push(s2, node, ev + (e if type(e) is list else [e] if e else []))
                    return
            elif k == 'assert':
                self.do_assert(st, t, blk, node, ev)
                nxt = t[4]
            elif k == 'return':
                v = st.store.get(T('L', fr.ctx, 0), UNIT)
                if len(st.frames) == 1:
                    self.exit(node, ev, 'return', st, v, blk['sp'])
                    return
                st.frames = st.frames[:-1]
                if fr.ret is None: return
                if fr.post: v = self.models.post(self, st, fr.post, v)
                for key in list(st.store):
                    if key.op == 'L' and key.args[0] is fr.ctx: 
                        # keep only if referenced (returning references to locals cannot happen)
                        del st.store[key]
                if fr.dest is not None:
                    root, path = self.place(st, fr.dest)
                    self.store_to(st, root, path, v, ev)
                st.blk = fr.ret
                if self.boundary(st):
                    self.push(st, node, ev); return
                continue
            elif k == 'call':
                outs = self.call(st, t, blk, node, ev)
                # outs: list of (state, events) ; each state positioned at its next block
                if len(outs) == 1:
                    st, e = outs[0]
                    ev = ev + list(e)
                    if self.boundary(st):
                        self.push(st, node, ev); return
                    continue
                if not outs: return
                if ev:
                    mid = self.newnode(st.loc(), None, 'mid')
                    self.edge(node, ev, mid)
                    node = mid
                for s2, e in outs: self.push(s2, node, list(e))
                return
            elif k in ('unreachable',):
                self.exit(node, ev, 'unreachable', st, None, blk['sp'])
                return
            else:
                self.exit(node, ev, 'other', st, None, blk['sp'])
                return
            st.blk = nxt
            if self.boundary(st):
                self.push(st, node, ev)
                return

    def boundary(self, st):
        self.visited.add((st.top.fn.uid, st.blk))
        return st.blk in cfg(st.top.fn)['joins']

    def store_to(self, st, root, path, v, ev):
        if root.op == 'D':
            old = self.read(st, root, path)
            if old is not v and not self.scratch(root): ev.append(('set', self.placeterm(root, path), v))
        self.write(st, root, path, v)

    def scratch(self, root): return root.op == 'D' and root.args[0].op in ('seq', 'agg', 'call', 'undef', 'clo', 'k', 'cat')

    def placeterm(self, root, path):
        v = root.args[0] if root.op in ('D', 'C') else root
        for p in path:
            v = T('fld', v, p[1], p[2]) if p[0] == 'f' else T('elem', v, p[1])
        return v

    def exit(self, node, ev, kind, st, v, sp, extra=None):
        if kind == 'return' and v is not None: v = self.resolve(st, v)
        nd = self.newnode(None, None, 'exit')
        nd.info = dict(kind=kind, value=v, span=sp, facts=dict(st.facts), extra=extra, fn=st.top.fn.path,
                       store={k: x for k, x in st.store.items() if k.op in ('D', 'C')})
        nd.info['chain'] = [f.fn.path for f in st.frames]
        self.edge(node, ev, nd)
        self.exits.append(nd)

    def resolve(self, st, v, depth=0):
        """Replace references to places by the values there."""
        if depth > 12 or not refs(v): return v
        if v.op == 'ref':
            return self.resolve(st, self.read(st, *v.args), depth + 1)
        if v.op == 'agg': return T('agg', v.args[0], v.args[1], v.args[2], tuple(self.resolve(st, x, depth + 1) for x in v.args[3]))
        if v.op == 'seq': return seq([(k, self.resolve(st, x, depth + 1)) for k, x in v.args[0]])
        if v.op == 'cat': return cat([self.resolve(st, x, depth + 1) for x in v.args[0]])
        if v.op == 'call': return T('call', v.args[0], tuple(self.resolve(st, x, depth + 1) for x in v.args[1]))
        if v.op == 'fld': return self.field(self.resolve(st, v.args[0], depth + 1), v.args[1], v.args[2])
        return v

    def switch(self, st, t, sp):
        v = self.operand(st, t[1])
        ty = t[4]
        outs = []
        if v.op == 'discr':
            x, adt = v.args
            vs = self.variants(adt)
            if vs is None: raise AnalysisError('discriminant of unknown type %s' % adt)
            names = {w['discr']: w['name'] for w in vs}
            poss = self.possible_variants(st, x, adt)
            used = set()
            for val, b in t[2]:
                n = names.get(val)
                if n is None:
                    # negative discriminants
                    n = names.get(val - (1 << 64)) or names.get(val - (1 << 8)) or names.get(val & 0xff)
                used.add(n)
                if n in poss: outs.append((b, [n]))
            rest = [n for n in poss if n not in used]
            if rest: outs.append((t[3], rest))
            # merge outs with the same target
            m = {}
            for b, ns in outs: m.setdefault(b, []).extend(ns)
            res = []
            for b, ns in m.items():
                if fnblk_unreachable(st.top.fn, b): continue
                s2 = st if len(m) == 1 else st.copy()
                self.assume_variant(s2, x, adt, ns)
                e = None
                if x.op == 'res' and len(m) > 1: e = ('is', x, tuple(sorted(ns)))
                elif self.opts.get('kinds') and len(m) > 1 and (self.opts['kinds'](x, adt) if callable(self.opts['kinds']) else adt == self.opts['kinds']): e = ('kind', x, tuple(sorted(ns)))
                res.append((b, s2, e))
            return res
        # boolean
        i = self.tyinfo(ty)
        if ty == 'bool':
            tb = {val: b for val, b in t[2]}
            fb = tb.get(0, t[3]); tr = tb.get(1, t[3])
            r = self.truth(st, v)
            if r is not None: return [(tr if r else fb, st, None)]
            res = []
            for val, b in ((True, tr), (False, fb)):
                for s2 in self.assume_split(st.copy(), v, val):
                    e = None
                    if v.op == 'lt' or (v.op == 'not' and v.args[0].op == 'lt'):
                        w, tv = (v.args[0], not val) if v.op == 'not' else (v, val)
                        if atoms(w): e = ('lt', w.args[0], w.args[1], tv)
                    elif self.opts.get('eqs') and (v.op == 'eq' or v.op == 'not' and v.args[0].op == 'eq'):
                        w, tv = (v.args[0], not val) if v.op == 'not' else (v, val)
                        e = ('eq', w.args[0], w.args[1], tv)
                    elif self.opts.get('preds'):
                        w, tv = (v.args[0], not val) if v.op == 'not' else (v, val)
                        if w.op == 'call' and w.args[0] in self.opts['preds']: e = ('pred', w, tv)
                    if e is None and self.opts.get('kinds'): e = self.learned(st, s2) or None
                    res.append((b, s2, e))
            if v.op == 'res' or (v.op == 'not' and v.args[0].op == 'res'):
                res = [(b, s2, ('is', v, (str(b == tr),))) for b, s2, _ in res]
            return res
        # integers / chars
        if v.op == 'cast' and v.args[0] == 'char' and ty == 'char': v, ty = v.args[1], 'u8'
        mk = (lambda n: K('char', chr(n))) if ty == 'char' else kint
        if ty in ('i8', 'i16', 'i32', 'i64', 'isize'):
            bits = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64}[ty]
            mk = lambda n: kint(n - (1 << bits) if n >> (bits - 1) else n)
        consts = [(mk(val), b) for val, b in t[2]]
        if v.op == 'k':
            for c, b in consts:
                if c is v: return [(b, st, None)]
            return [(t[3], st, None)]
        m = {}
        for c, b in consts:
            if self.truth(st, self.eq(v, c)) is not False: m.setdefault(b, []).append(c)
        res = []
        known = None
        for b, cs in m.items():
            s2 = st.copy()
            if self.restrict(s2, *self.eqrestrict(v, True, cs)): res.append((b, s2, None))
        s2 = st.copy()
        if not fnblk_unreachable(st.top.fn, t[3]) and self.restrict(s2, *self.eqrestrict(v, False, [c for c, _ in consts])):
            if not any(self.is_const(st, v, c) for c, _ in consts): res.append((t[3], s2, None))
        return res

    def eqrestrict(self, v, pos, cs):
        # fold "x + k == c"
        if v.op == 'add' and v.args[1].op == 'k' and all(c.args[0] == 'int' for c in cs):
            return v.args[0], pos, frozenset(kint(c.args[1] - v.args[1].args[1]) for c in cs)
        return v, pos, frozenset(cs)

    def learned(self, st, s2):
        """Kinds of values that became known from a to b, as events."""
        ks = self.opts['kinds']
        out = []
        for t, f in s2.facts.items():
            if t.op == 'discr' and st.facts.get(t) != f and (ks(*t.args) if callable(ks) else t.args[1] == ks):
                out.append(('kind', t.args[0], tuple(sorted(self.possible_variants(s2, *t.args)))))
        return out

    def assume_split(self, st, v, val):
        """States in which boolean v has the given value; disjunctions are kept apart."""
        if v.op == 'not': return self.assume_split(st, v.args[0], not val)
        r = self.truth(st, v)
        if r is not None: return [st] if r == val else []
        if v.op in ('and', 'or'):
            a, b = v.args
            if val == (v.op == 'and'):
                return [s2 for s1 in self.assume_split(st, a, val) for s2 in self.assume_split(s1, b, val)]
            out = self.assume_split(st.copy(), a, val)
            for s1 in self.assume_split(st, a, not val): out += self.assume_split(s1, b, val)
            return out
        return [st] if self.assume(st, v, val) else []

    def do_assert(self, st, t, blk, node, ev):
        kind = t[3][0]
        if kind in ('ptrcheck', 'other'): return
        c = self.operand(st, t[1])
        key = (st.top.fn.uid, st.blk, kind)
        proved = False
        desc = None
        if kind == 'bounds':
            ln, ix = self.operand(st, t[3][1]), self.operand(st, t[3][2])
            proved = self.prove_lt(st, ix, ln)
            desc = ('bounds', ix, ln)
        elif kind == 'overflow':
            op = t[3][1]
            a, b = self.operand(st, t[3][2]), self.operand(st, t[3][3])
            if self.int_ty(t[3][2]) in ('usize', 'u64', 'u32', 'u16', 'u8'): self.unsigned.update((a, b))
            if op == 'Sub': proved = self.prove_le(st, b, a)
            elif op == 'Add' and self.int_ty(t[3][2]) in ('usize', 'u64') and not (self.parsed(a) or self.parsed(b)): proved = True   # counts of things in memory
            desc = ('overflow', op, a, b, self.int_ty(t[3][2]))
            if a.op == 'k' and b.op == 'k': proved = True
        elif kind in ('divzero',):
            desc = ('divzero', c)
            proved = self.truth(st, c) == t[2]
        else:
            desc = (kind, c)
            proved = self.truth(st, c) == t[2]
        o = self.obl.setdefault(key, {'kind': kind, 'fn': st.top.fn.path, 'span': blk['sp'], 'proved': 0, 'failed': []})
        if proved: o['proved'] += 1
        else:
            o['failed'].append((desc, dict(st.facts), node.id))
            if not self.opts.get('no_panic_exits'):
                self.exit(node, ev, 'panic', st, None, blk['sp'], extra=('assert',) + desc)
        # execution continues with the assertion true
        if kind == 'bounds': self.assume(st, self.lt(ix, ln), True)
        elif kind == 'overflow' and t[3][1] == 'Sub':
            x = self.neg(self.lt(a, b))
            if x.op != 'k': self.assume(st, x, True)

    def parsed(self, t):
        """A number read from a text: as large as its author likes."""
        while t.op == 'fld': t = t.args[0]
        if t.op in ('add', 'sub'): return self.parsed(t.args[0]) or self.parsed(t.args[1])
        return t.op == 'call' and re.match(r'parse<|(?:.*::)?from_str', t.args[0]) is not None

    def int_ty(self, o):
        if o[0] in ('c', 'm'): return o[1][2]
        if o[0] == 'k': return o[1]
        return None

    # ---- calls -----------------------------------------------------------------------
    def call(self, st, t, blk, node, ev):
        fr = st.top
        f = t[1]
        args = [self.operand(st, a) for a in t[2]]
        if f[0] == 'fn': callee = f[1]
        else:
            fv = self.operand(st, f)
            return self.call_value(st, fv, args, t, blk, node, ev)
        return self.dispatch(st, callee, args, t, blk, node, ev)

    def call_value(self, st, fv, args, t, blk, node, ev):
        """Call through a function value."""
        n = 0
        env = fv
        while fv.op == 'ref' and n < 6:
            env = fv
            fv = self.read(st, *fv.args); n += 1
        if fv.op == 'clo':
            fn = self.F.fns.get(fv.args[0])
            if fn is None: raise AnalysisError('closure without body ' + fv.args[0])
            ty = fn.locals[1][0]
            a0 = env if ty.startswith('&mut') else fv
            if ty.startswith('&mut') and env.op != 'ref':
                # closure moved into the callee: give it a cell of its own
                h = T('H', st.top.ctx, st.blk, 'env')
                st.store[h] = fv
                a0 = T('ref', h, ())
            elif ty.startswith('&'): a0 = fv
            return self.enter(st, fn, [a0] + args, t, blk, node, ev)
        if fv.op == 'k' and fv.args[0] == 'fn':
            c = self.fnmeta[fv.args[1]]
            return self.dispatch(st, c, args, t, blk, node, ev)
        # unknown function value
        return self.unique(st, 'call_value', [fv] + args, t, blk, node, ev)

    def enter(self, st, fn, args, t, blk, node, ev, post=None):
        depth = len(st.frames)
        if depth > 60: raise AnalysisError('call depth at %s in %s' % (fn.path, self.root.path))
        if t[4] is None and False: return []
        ctx = T('ctx', st.top.ctx, fn.uid, st.blk)
        self.inlined[fn.uid] = self.inlined.get(fn.uid, 0) + 1
        fr = Frame(fn, ctx, t[3], t[4], post)
        for i, a in enumerate(args):
            st.store[T('L', ctx, i + 1)] = a
        st.frames = st.frames + (fr,)
        st.blk = 0
        return [(st, [])]

    def recursive(self, st, fn):
        return any(f.fn is fn for f in st.frames)

    def finish(self, st, t, v, ev):
        """Store a call's value and move to its target."""
        if t[4] is None: return None
        evs = []
        root, path = self.place(st, t[3])
        self.store_to(st, root, path, v, evs)
        st.blk = t[4]
        return (st, list(ev) + evs)

    def done(self, st, t, v, ev=()):
        r = self.finish(st, t, v, ev)
        return [r] if r else []

    def resterm(self, st, name, args):
        r = T('res', st.top.ctx, st.blk, name, tuple(args))
        for x in list(st.facts):
            if r in atoms(x): del st.facts[x]
        return r

    def unique(self, st, name, args, t, blk, node, ev, evname=None, havoc=False):
        """An observable operation: an event and a fresh result."""
        ra = tuple(self.resolve(st, a) for a in args)
        r = self.resterm(st, name, ra)
        if havoc: self.havoc(st, r)
        e = (evname or 'call', name, ra, r)
        if t[4] is None:
            self.exit(node, list(ev) + [e], 'diverge', st, None, blk['sp'], extra=(name, ra))
            return []
        dt = t[3][2]
        v = UNIT if dt == '()' else r
        return self.done(st, t, v, [e])

    def havoc(self, st, r):
        st.store[T('E')] = T('ep', r.args[0], r.args[1])
        for k in list(st.store):
            if k.op == 'C': del st.store[k]

    def dispatch(self, st, c, args, t, blk, node, ev):
        fn = None
        ruid = c.get('ruid')
        # 1. anchors
        a = self.anchors.get(ruid)
        if a is None: a = self.anchors.get(c['path'])
        if a is not None:
            return self.anchor(st, a, c, args, t, blk, node, ev)
        # 2. models of library functions
        r = self.models.handle(self, st, c, args, t, blk, node, ev)
        if r is not None: return r
        # 3. local functions
        if c.get('rkind') in ('item', None) and ruid in self.F.fns:
            fn = self.F.fns[ruid]
            if fn.derived and fn.name in ('clone',):
                return self.done(st, t, self.deref(st, args[0]))
            if fn.derived and fn.name in ('eq', 'ne'):
                e = self.eq(self.resolve(st, args[0]), self.resolve(st, args[1]))
                return self.done(st, t, e if fn.name == 'eq' else self.neg(e))
            if self.recursive(st, fn):
                return self.unique(st, fn.path, args, t, blk, node, ev, havoc=True)
            return self.enter(st, fn, args, t, blk, node, ev)
        if c.get('trait', '') and c['trait'].startswith('seam') and args:
            x = self.deref(st, args[0])
            if x.op == 'agg':
                m = self.methods.get((c['trait'], x.args[0], c['path'].split('::')[-1]))
                if m:
                    a = self.anchors.get(m.uid)
                    if a is None: a = self.anchors.get(m.path)
                    c2 = dict(c, ruid=m.uid, res=m.path)
                    if a is not None: return self.anchor(st, a, c2, args, t, blk, node, ev)
                    if self.recursive(st, m): return self.unique(st, m.path, args, t, blk, node, ev, havoc=True)
                    return self.enter(st, m, args, t, blk, node, ev)
        if c.get('rkind') == 'virtual' or (c.get('trait') or '').startswith('seam'):
            return self.unique(st, c['path'], args, t, blk, node, ev, havoc=False)
        # 4. everything else
        return self.models.external(self, st, c, args, t, blk, node, ev)

    def deref(self, st, v):
        n = 0
        while v.op == 'ref' and n < 8:
            v = self.read(st, *v.args); n += 1
        return v

    def anchor(self, st, a, c, args, t, blk, node, ev):
        if callable(a): 
            r = a(self, st, c, args, t, blk, node, ev)
            if r is not None: return r
            a = {}
        name = a.get('name') or c.get('res') or c['path']
        drop = a.get('skip', ())
        ar = [x for i, x in enumerate(args) if i not in drop]
        return self.unique(st, name, ar, t, blk, node, ev, havoc=a.get('havoc', True))


def fnblk_unreachable(fn, b):
    k = fn.cache.get(('unr', b))
    if k is None:
        blk = fn.blocks[b]
        k = blk['t'][0] == 'unreachable' and not blk['s']
        fn.cache[('unr', b)] = k
    return k


class Graph:
    """The finished automaton of one function."""

    def __init__(self, e):
        self.engine = e
        self.fn = e.root
        self.nodes = e.nodes
        self.exits = e.exits
        self.loops = e.loopinfo
        self.L = e.L
        self.obl = e.obl
        self.prune()

    def prune(self):
        """Keep nodes reachable from the start."""
        seen = {0}
        w = [0]
        while w:
            n = w.pop()
            for _, m in self.nodes[n].out:
                if m not in seen:
                    seen.add(m); w.append(m)
        self.reach = seen
        self.exits = [x for x in self.exits if x.id in seen]

    def returns(self): return [x for x in self.exits if x.info['kind'] == 'return']
    def panics(self): return [x for x in self.exits if x.info['kind'] in ('panic', 'unreachable', 'other')]
