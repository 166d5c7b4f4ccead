"""Source text and generated nodes never dangle."""
import re
from common import *
from props.S10 import escaper

TECHNIQUE = ('ownership analysis of the compiled program: inventory of every unsafe operation (dereference of a raw pointer, call of an unsafe function), with the owner of '
             'each reference whose lifetime the program extends; type and effect rules for those owners (elements behind a pointer, never removed or replaced, shared by all '
             'copies); liveness of references into a growing list across calls that may change it')
NOTE = ('everything outside the listed unsafe operations is taken to be sound because the compiler accepts it; the bounds of unchecked text slices in the lexer are decided by S05')
MIN_OBLIGATIONS = 60

POINTER = r'std::(?:rc::Rc|boxed::Box|sync::Arc)<'
READS = r'(?:Deref(?:Mut)?::deref(?:_mut)?|RefCell::<T>::(?:new|borrow|borrow_mut|as_ptr|try_borrow|try_borrow_mut)|::(?:last|last_mut|first|first_mut|get|get_mut|len|is_empty|iter|as_slice|capacity|reserve|with_capacity)|' \
        r'IntoIterator::into_iter|Index::index|IndexMut::index_mut|Clone::clone|Default::default|Debug::fmt|debug_struct_field\d_finish|Rc::<T>::(?:new|clone|ptr_eq)|Vec::<T>::new|<impl \*(?:const|mut) T>::(?:as_ref|as_mut|is_null))$'
CHANGES = r'::push$'
REMOVES = r'::pop$'


def places(x, out):
    if isinstance(x, list):
        if len(x) == 3 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list) and isinstance(x[2], str): out.append(x)
        else:
            for y in x: places(y, out)
    return out


def callees(x, out):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == 'fn' and isinstance(x[1], dict): out.append(x[1])
        else:
            for y in x: callees(y, out)
    return out


def strip(t): return re.sub(r"'\w+ ?(?:\+ )?", '', t).replace('<, ', '<').replace('<>', '').replace('(dyn seam', 'dyn seam')


def erase(t): return re.sub(r"<'_>|'_, |<'\w+>", '', t)


class Fun:
    """Definitions and calls of one function."""
    def __init__(self, f):
        self.f, self.defs, self.calls = f, {}, []
        self.live = [i for i, b in enumerate(f.blocks) if not b['cl']]
        for i in self.live:
            b = f.blocks[i]
            for s in b['s']:
                if s[0] == '=' and not s[1][1]: self.defs.setdefault(s[1][0], []).append(('=', s[2]))
            t = b['t']
            if t[0] == 'call':
                if not t[3][1]: self.defs.setdefault(t[3][0], []).append(('call', t))
                self.calls.append((i, t))

    def origin(self, l, seen=()):
        """What a local is, followed through copies, references, casts and single definitions."""
        d = self.defs.get(l, [])
        if len(d) != 1 or l in seen: return ('local', l, len(d))
        k, r = d[0]
        if k == 'call': return ('call', r, l)
        src = None
        if r[0] == 'use' and r[1][0] in 'cm': src = r[1][1]
        elif r[0] in ('ref', 'rawptr'): src = r[2] if r[0] == 'ref' else r[2] if isinstance(r[2], list) else r[1]
        elif r[0] == 'cast' and r[2][0] in 'cm': src = r[2][1]
        if src is None: return ('value', r, l)
        if all(e[0] == 'd' for e in src[1]): return self.origin(src[0], seen + (l,))
        return ('place', src, l)

    def arg(self, t, n):
        a = t[2][n]
        return self.origin(a[1][0]) if a[0] in 'cm' and all(e[0] == 'd' for e in a[1][1]) else ('place', a[1], None) if a[0] in 'cm' else ('value', a, None)


def check(ctx):
    fs = sorted((f for f in ctx.F.fns.values() if f.crate != 'models' and f.crate != 'seam_argparse_proc_macro'), key=lambda f: f.path)
    A = Analysis(ctx, fs)
    ctx.attempt('unsafe', 'all functions', A.inventory)
    ctx.attempt('owner', 'all functions', A.owners)
    ctx.attempt('copy', 'output generators', A.copies)


class Analysis:
    def __init__(self, ctx, fs):
        self.ctx, self.fs = ctx, fs
        self.fun = {f.uid: Fun(f) for f in fs}
        self.by = {f.uid: f for f in fs}
        self.bypath = {}
        for f in fs: self.bypath.setdefault(f.path, []).append(f)
        self.lists = {}          # container type -> functions that reach into it without a guard

    # -- every unsafe operation ---------------------------------------------------------------
    def inventory(self):
        ctx, n = self.ctx, 0
        for f in self.fs:
            F = self.fun[f.uid]
            for i in F.live:
                b = f.blocks[i]
                for p in places([b['s'], b['t']], []):
                    ty = f.locals[p[0]][0]
                    if p[1] and p[1][0][0] == 'd' and ty.startswith('*'):
                        n += 1
                        self.pointer(f, F, p[0])
                    if re.search(r'\*(?:const|mut) ', p[2]) and any(e[0] == 'f' for e in p[1]) and not 'BoxRaw' in ty and not ty.startswith('std::boxed::Box'):
                        ctx.violation('unsafe', f.path, f.span, 'a raw pointer is kept in %s' % ty[:100])
                for s in b['s']:
                    if s[0] == '=' and s[2][0] == 'cast' and s[2][1] == 'Transmute' and not (s[2][3] == 'usize' and s[2][4] == '*const ()') and not (s[2][4] == 'std::ptr::NonNull<%s>' % s[2][3][7:] and re.match(r'std::(?:boxed::Box|ptr::Unique|boxed::BoxRaw)<', f.locals[s[2][2][1][0]][0])):
                        ctx.violation('unsafe', f.path, f.span, 'a value of type %s is reinterpreted as %s' % (s[2][4][:80], s[2][3][:80]))
                t = b['t']
                if t[0] == 'call' and t[1][0] == 'fn' and t[1][1].get('unsafe') and t[1][1]['path'] != "std::fmt::Arguments::<'a>::new":
                    n += 1
                    self.call(f, F, t)
            if f.unsafe: ctx.violation('unsafe', f.path, f.span, 'the function is unsafe to call')
        ctx.floor('unsafe operations', n, 10)

    def pointer(self, f, F, l):
        o = F.origin(l)
        if o[0] == 'value' and o[1][0] == 'cast' and o[1][1] == 'BoxDerefTransmute' or self.boxed(F, l): return self.ctx.ok('unsafe', f.path)
        if o[0] == 'call' and o[1][1][0] == 'fn' and re.search(r'RefCell::<T>::as_ptr$', o[1][1][1]['path']):
            c = erase(o[1][1][1]['targs'][0])
            m = re.fullmatch(r'std::vec::Vec<(.*)>', c)
            if self.ctx.require(m, 'unsafe', f.path, 'a reference into a %s is made without a guard' % c[:100], f.span):
                self.lists.setdefault(c, set()).add(f.uid)
            return
        self.ctx.violation('unsafe', f.path, f.span, 'dereferences a raw pointer of type %s that is not from a list of owners' % f.locals[l][0][:100])

    def boxed(self, F, l):
        d = F.defs.get(l, [])
        return d and all(k == '=' and r[0] == 'cast' and r[1] == 'BoxDerefTransmute' for k, r in d)

    def call(self, f, F, t):
        p, ctx = t[1][1]['path'], self.ctx
        if p.endswith('str::from_utf8_unchecked'):
            o = F.arg(t, 0)
            if o[0] == 'call' and re.search(r'Index::index$|::get_unchecked$', o[1][1][1]['path']): o = F.arg(o[1], 0)
            while o[0] == 'call' and re.search(r'Deref::deref$', o[1][1][1]['path']): o = F.arg(o[1], 0)
            good = o[0] == 'call' and re.search(r'(?:str>?|String)::as_bytes$', o[1][1][1]['path'])
            return ctx.require(good and re.match(r'<?seam::parse::lexer::', f.path), 'unsafe', f.path, 'takes bytes that are not part of the source text for text', f.span)
        if p.endswith('String::from_utf8_unchecked'):
            if not ctx.require(f.path == 'seam::assemble::escape_xml', 'unsafe', f.path, 'takes bytes for text', f.span): return
            return ctx.attempt('unsafe', f.path, lambda: escaper(ctx, f))
        if re.search(r'Box::<T>::from_raw$', p): return self.rebox(f, F, t)
        if re.search(r'<impl \*(?:const|mut) T>::(?:as_ref|as_mut)$', p) and t[2][0][0] in 'cm': return self.pointer(f, F, t[2][0][1][0])
        ctx.violation('unsafe', f.path, f.span, 'calls the unsafe function %s' % p)

    def rebox(self, f, F, t):
        """Box::from_raw(from_raw_parts_mut(clone_box(inner), metadata(inner))) of a dynamically dispatched clone_box."""
        ty = t[1][1]['targs'][0]
        o = F.arg(t, 0)
        why = 'a box is made of a pointer that is not a fresh copy of the boxed value'
        if not self.ctx.require(o[0] == 'call' and o[1][1][1]['path'].endswith('ptr::from_raw_parts_mut'), 'copy', f.path, why, f.span): return
        a, b = F.arg(o[1], 0), F.arg(o[1], 1)
        good = a[0] == 'call' and a[1][1][1]['path'] == 'seam::CloneBox::clone_box' and a[1][1][1].get('rkind') == 'virtual' and erase(a[1][1][1]['targs'][0]) == erase(ty) and \
            b[0] == 'call' and b[1][1][1]['path'].endswith('ptr::metadata') and erase(b[1][1][1]['targs'][0]) == erase(ty)
        if not self.ctx.require(good, 'copy', f.path, why, f.span): return
        x, y = F.arg(a[1], 0), F.arg(b[1], 0)
        self.ctx.require(x == y, 'copy', f.path, 'the copy and the type of the copy are taken from different values', f.span)

    # -- owners of references whose lifetime is extended ---------------------------------------
    def owners(self):
        ctx = self.ctx
        ctx.floor('lists reached without a guard', len(self.lists), 1)
        for c in sorted(self.lists):
            e = re.fullmatch(r'std::vec::Vec<(.*)>', c).group(1)
            stable = re.match(POINTER, e) is not None
            self.effects(c, e, stable)
            self.fields(c, e, stable)
            self.regions(c, e, stable)

    def about(self, ty, c, e):
        """Whether a type gives access to the list."""
        t = erase(ty)
        return c in t and not re.match(r'seam::', t) or re.search(r'&mut \[%s\]' % re.escape(e), t) is not None

    def kind(self, c):
        """What a library function does to a list it is given."""
        p = c['path']
        return 'read' if re.search(READS, p) else 'grow' if re.search(CHANGES, p) else 'remove' if re.search(REMOVES, p) else None

    def local(self, c):
        r = [self.by[u] for u in (c.get('ruid'), c.get('uid')) if u in self.by]
        if r and c.get('rkind') != 'virtual': return r[:1]
        if r or c.get('trait'):
            b = c['path'].split('::')[-1]
            return [f for f in self.fs if f.trait and f.trait.split('<')[0] == (c.get('trait') or '').split('<')[0] and f.name == b]
        return []

    def effects(self, c, e, stable):
        ctx, n = self.ctx, 0
        self.direct = {}
        for f in self.fs:
            F = self.fun[f.uid]
            for i, t in F.calls:
                if t[1][0] != 'fn': continue
                cal = t[1][1]
                tys = [a[1][2] for a in t[2] if a[0] in 'cm']
                if re.search(r'mem::(?:replace|swap|take)$|RefCell::<T>::(?:replace|swap|take|into_inner|get_mut|replace_with)$', cal['path']) and any(erase(x) in (c, e) for x in cal.get('targs', ())):
                    ctx.violation('owner', f.path, f.span, '%s replaces what references into %s refer to' % (cal['path'], c)); continue
                if not any(self.about(x, c, e) for x in tys): continue
                if self.local(cal) and cal.get('rkrate') != 'alloc': continue
                n += 1
                k = self.kind(cal)
                if cal['path'].endswith('Drop::drop') or cal['path'].endswith('mem::drop'): k = 'read' if re.search(r'Ref(?:Mut)?<|^&', tys[0]) else None
                if not ctx.require(k is not None, 'owner', f.path, 'calls %s on the list of owners %s' % (cal['path'], c), f.span): continue
                if k == 'remove': ctx.require(not stable, 'owner', f.path, 'removes an owner from %s while what it owns can still be read' % c, f.span)
                if k != 'read': self.direct.setdefault(f.uid, set()).add(i)
            for i in F.live:
                for s in f.blocks[i]['s']:
                    if s[0] != '=' or not s[1][1]: continue
                    # assignments through a reference or to a field, of the list or of one of its elements
                    t = erase(s[1][2])
                    if t == c or t == e and s[1][1][-1][0] in ('d', 'i', 'ci') or c in t and s[1][1][-1][0] == 'f' and not re.match('seam::', t) and '&' not in t and not t.startswith('*'):
                        if not f.locals[s[1][0]][0].startswith('{closure'):
                            ctx.violation('owner', f.path, f.span, 'replaces what references into %s refer to' % c)
        ctx.floor('uses of ' + c, n, 3)

    def fields(self, c, e, stable):
        """The values that hold the list: copies of them must share it."""
        ctx = self.ctx
        for name, a in sorted(self.ctx.F.adts.items()):
            if not name.startswith('seam::') or not a: continue
            hit = [(fl, ty) for v in a['variants'] for fl, ty in v['fields'] if c in erase(ty)]
            for fl, ty in hit:
                copied = [f for f in self.fs if not f.derived for _, t in self.fun[f.uid].calls if t[1][0] == 'fn' and t[1][1]['path'].endswith('Clone::clone') and erase((t[1][1].get('targs') or [''])[0]) == name]
                shared = re.match(r'std::(?:rc::Rc|sync::Arc)<', ty) is not None
                if not stable or not copied: ctx.ok('shared', '%s.%s' % (name, fl), 'never outlived by what it owns'); continue
                if not ctx.require(shared, 'shared', '%s.%s' % (name, fl), 'copies (%s) own what they add themselves, and it goes when they go' % copied[0].path, copied[0].span): continue
                self.constructions(name, a, fl)

    def constructions(self, name, a, fl):
        ctx = self.ctx
        idx = [x[0] for x in a['variants'][0]['fields']].index(fl)
        makers = []
        has = lambda f: any(erase(l[0]).lstrip('&').replace('mut ', '') == name for l in f.locals[1:1 + f.argc])
        for f in self.fs:
            F = self.fun[f.uid]
            for i in F.live:
                for s in f.blocks[i]['s']:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] == name:
                        o = s[2][2][idx]
                        if not has(f) and not any(erase(l[0]) == name and n for n, l in enumerate(f.locals) if n != 0 and n != s[1][0]): makers.append(f); continue
                        p = o[1] if o[0] in 'cm' else None
                        good = False
                        if p is not None:
                            q = F.origin(p[0]) if not p[1] else ('place', p, None)
                            if q[0] == 'call' and q[1][1][0] == 'fn' and re.search(r'Clone::clone$|Rc::<T.*>::clone$', q[1][1][1]['path']): q = F.arg(q[1], 0)
                            good = q[0] == 'place' and any(x[0] == 'f' and x[2] == fl for x in q[1][1])
                        ctx.require(good, 'shared', f.path, 'makes a %s with a list of its own: what is added there goes when it goes' % name, f.span)
                    if s[0] == '=' and s[1][1] and s[1][1][-1][0] == 'f' and s[1][1][-1][2] == fl and erase(f.locals[s[1][0]][0]).lstrip('&').replace('mut ', '') == name:
                        ctx.violation('shared', f.path, f.span, 'replaces the shared list of a %s' % name)
        for m in {f.uid: f for f in makers}.values():
            for f in self.fs:
                if not has(f): continue
                ctx.require(not any(m in self.local(t[1][1]) for _, t in self.fun[f.uid].calls if t[1][0] == 'fn'), 'shared', f.path, 'makes a %s with a list of its own' % name, f.span)

    def regions(self, c, e, stable):
        """References to the storage of the list itself are not used after the list may have changed."""
        ctx = self.ctx
        ref = re.compile(r'&(?:mut )?(?:%s|%s|\[%s\])(?![\w:])' % (re.escape(e), re.escape(c), re.escape(e)))
        inner = lambda ty: ref.search(erase(ty)) is not None or not stable and '&' in ty and e in erase(ty)
        # functions that may change the list
        changing = set(self.direct)
        graph = {f.uid: {g.uid for _, t in self.fun[f.uid].calls for cal in callees([t[1], t[2]], []) for g in self.local(cal)} for f in self.fs}
        for f in self.fs:
            if f.parent:
                for g in self.fs:
                    if g.uid == f.parent or g.path == f.parent: graph[g.uid].add(f.uid)
        while True:
            more = {u for u, s in graph.items() if s & changing} - changing
            if not more: break
            changing |= more
        access = set()
        while True:
            new = {f.uid for f in self.fs if f.uid not in access and (f.uid in self.lists[c] or graph[f.uid] & access) and inner(f.locals[0][0])}
            if not new: break
            access |= new
        n = 0
        for u in sorted(access):
            if not stable: ctx.require(not self.by[u].extends, 'extended', self.by[u].path, 'returns a reference into the list %s that can outlive it, and the list moves its elements when it grows' % c, self.by[u].span)
        for f in self.fs:
            F = self.fun[f.uid]
            raw = {l for l in range(len(f.locals)) if f.locals[l][0].startswith('*') and F.origin(l)[0] == 'call'} if f.uid in self.lists[c] else set()
            raw = self.derived(f, F, raw, lambda ty: True)
            for i, t in F.calls:
                if t[1][0] != 'fn' or t[3][1] or t[4] is None: continue
                isacc = any(g.uid in access for g in self.local(t[1][1]))
                israw = inner(t[3][2]) and any(a[0] in 'cm' and a[1][0] in raw for a in t[2]) and ref.search(erase(t[3][2])) and not re.search(r'\[|Vec<', erase(t[3][2]).replace(e, ''))
                if not (isacc or israw): continue
                n += 1
                d = self.derived(f, F, {t[3][0]}, lambda ty: '&' in ty or '*' in ty)
                bad = self.stale(f, F, i, t, d, c, e, changing)
                ctx.require(bad is None, 'stale reference', f.path, 'a reference into the list %s is used after %s may have moved or removed what it refers to' % (c, bad), f.span)
        ctx.floor('references into ' + c, n, 1)

    def derived(self, f, F, start, carries):
        d = set(start)
        while True:
            m = len(d)
            for l, ds in F.defs.items():
                if l in d: continue
                for k, r in ds:
                    ps = places(r[2] if k == 'call' else r, [])
                    if any(p[0] in d for p in ps) and carries(f.locals[l][0]): d.add(l)
            if len(d) == m: return d

    def stale(self, f, F, i, t, d, c, e, changing):
        def succ(b):
            t = f.blocks[b]['t']
            return [x for x in numbers(t) if not f.blocks[x]['cl']]
        def numbers(t):
            if t[0] == 'call': return [t[4]] if t[4] is not None else []
            if t[0] == 'switch': return [x[1] for x in t[2]] + [t[3]]
            if t[0] == 'drop': return [t[2]]
            if t[0] == 'assert': return [t[4]]
            if t[0] == 'goto': return [t[1]]
            return []
        seen, todo, after = set(), [t[4]], []
        while todo:
            b = todo.pop()
            if b in seen: continue
            seen.add(b)
            x = f.blocks[b]['t']
            if b == i: continue
            if x[0] == 'call' and x[1][0] == 'fn':
                args = [a[1] for a in x[2] if a[0] in 'cm']
                direct = self.kind(x[1][1]) in ('grow', 'remove') and any(self.about(p[2], c, e) for p in args)
                via = any(g.uid in changing for g in self.local(x[1][1])) and any(p[0] not in d and re.search(r'seam::(?:parse::expander::Expander|assemble::\w+::\w+Formatter)|\{closure|dyn', p[2]) for p in args)
                indirect = any(g.uid in changing for g in [h for cal in callees(x[2], []) for h in self.local(cal)])
                if (direct or via or indirect) and x[4] is not None: after.append((x[4], x[1][1]['path']))
            todo += succ(b)
        for start, what in after:
            seen, todo = set(), [start]
            while todo:
                b = todo.pop()
                if b in seen: continue
                seen.add(b)
                for s in f.blocks[b]['s']:
                    if s[0] == '=' and any(p[0] in d for p in places(s[2], [])): return what
                x = f.blocks[b]['t']
                if x[0] in ('call', 'switch', 'assert') and any(p[0] in d for p in places(x[1:3], [])): return what
                if b != i: todo += succ(b)
        return None

    # -- copies of output generators ------------------------------------------------------------
    def copies(self):
        ctx, n = self.ctx, 0
        for f in self.fs:
            F = self.fun[f.uid]
            if f.trait == 'seam::CloneBox':
                n += 1
                rets = [F.origin(0)]
                o = rets[0]
                why = 'does not return a fresh copy of the value'
                if o[0] == 'call' and re.search(r'Box::<T.*>::into_raw$', o[1][1][1]['path']): o = F.arg(o[1], 0)
                if not ctx.require(o[0] == 'call' and re.search(r'Box::<T>::new$', o[1][1][1]['path']), 'copy', f.path, why, f.span): continue
                x = F.arg(o[1], 0)
                ty = erase(f.locals[1][0]).lstrip('&')
                ctx.require(x[0] == 'call' and x[1][1][1]['path'].endswith('Clone::clone') and erase(x[1][1][1]['targs'][0]) == ty and F.arg(x[1], 0)[:2] == ('local', 1), 'copy', f.path, why, f.span)
            if f.name == 'clone' and f.trait and f.trait.startswith('std::clone::Clone') and re.match(r'std::boxed::Box<\(?dyn', f.self_ty or ''):
                n += 1
                for _, t in F.calls:
                    if t[1][0] == 'fn': ctx.require(not any(erase(x).replace('(', '').startswith('std::boxed::Box<dyn') for x in t[1][1].get('targs', ())), 'copy', f.path, 'copies the box with %s, which copies the box again without end' % t[1][1]['path'], f.span)
        ctx.floor('copying functions', n, 1)
        for im in ctx.F.impls:
            if im['trait'] != 'seam::assemble::MarkupFormatter': continue
            name = erase(im['ty'])
            cl = [i for i in ctx.F.impls if i['trait'] == 'std::clone::Clone' and erase(i['ty']) == name]
            if not ctx.require(len(cl) == 1 and cl[0]['derived'], 'copy', name, 'is not copied field by field'): continue
            a = ctx.F.adts.get(name)
            for v in (a or {'variants': []})['variants']:
                for fl, ty in v['fields']:
                    ctx.require(not re.search(r'std::(?:rc|sync)::|&mut |\*', ty), 'copy', '%s.%s' % (name, fl), 'copies share %s' % ty[:100])
