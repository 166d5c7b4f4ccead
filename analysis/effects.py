"""Library calls that can abort the program, and borrows of cells at run time."""
from macros import *

# Functions of the standard library that panic for some arguments and are not followed by the
# exploration (which refutes the panics of unwrap, expect, indexing, slicing, insert, remove,
# split_at, integer arithmetic and assertions).
DENY = (
    (r'(?:std|core|alloc)::.*<impl \[T\]>::(?:chunks|chunks_mut|chunks_exact|chunks_exact_mut|rchunks|rchunks_exact|windows|copy_from_slice|clone_from_slice|copy_within|swap|swap_with_slice|rotate_left|rotate_right|select_nth_unstable\w*|split_at_mut|as_chunks\w*|partition_dedup\w*)', 'the size or position is not known to fit'),
    (r'std::vec::Vec::<.*>::(?:drain|splice|split_off|swap_remove|extend_from_within|extract_if)', 'the position is not known to lie within the vector'),
    (r'std::collections::(?:\w+::)?VecDeque::<.*>::(?:drain|split_off|swap|range\w*|insert|rotate_\w+)', 'the position is not known to lie within the queue'),
    (r'std::string::String::(?:drain|split_off|insert|insert_str|remove|replace_range)', 'the position is not known to be that of a character'),
    (r'(?:std|core)::str::<impl str>::split_at(?:_mut)?', 'the position is not known to be that of a character'),
    (r'(?:std|core)::.*<impl \w+>::(?:pow|abs|div_euclid|rem_euclid|ilog|ilog2|ilog10|isqrt|next_power_of_two|next_multiple_of|div_ceil|abs_diff_strict|strict_\w+|clamp|to_digit|is_digit)', 'the numbers are not known to be in range'),
    (r'(?:std|core)::(?:cmp::Ord::clamp|char::(?:methods::)?(?:from_digit|<impl char>::(?:to_digit|is_digit)|from_u32_unchecked))', 'the numbers are not known to be in range'),
    (r'(?:std|core)::iter::Iterator::(?:step_by|sum|product|array_chunks|map_windows)', 'the numbers are not known to be in range'),
    (r'(?:std|core)::time::Duration::(?:from_secs_f\w+|mul_f\w+|div_f\w+|new|from_(?:mins|hours|days|weeks))', 'the duration is not known to be in range'),
    (r'std::env::(?:set_var|remove_var|vars)', 'the environment may hold something else than text'),
    (r'std::thread::\w+|std::process::abort|std::sync::mpsc::.*', 'may abort'),
    (r'(?:std|core)::(?:option|result)::(?:Option|Result)::<.*>::(?:unwrap_unchecked|expect_err|unwrap_err_unchecked|get_or_insert_unchecked)', 'nothing shows that the value is there'),
    (r'(?:std|core)::hint::(?:unreachable_unchecked|assert_unchecked)', 'nothing shows that this is not reached'),
)
CELL = r'std::cell::RefCell::<T>::(borrow|borrow_mut|replace|replace_with|swap|take|try_borrow\w*|get_mut|into_inner)$'
# What the program uses of other libraries: these report what they cannot do.
SAFE = (
    r'chrono::DateTime::<.*>::(?:format|offset|timestamp|timestamp_millis|with_timezone|parse_from_str|parse_from_rfc\w+|from_timestamp|to_utc|parse_and_remainder|timezone|fixed_offset)',
    r'chrono::FixedOffset::(?:east_opt|west_opt|local_minus_utc|utc_minus_local)', r'chrono::(?:Local|Utc)::now',
    r'chrono::Naive(?:DateTime|Date|Time)::(?:parse_from_str|parse_and_remainder|from_\w+_opt|and_hms_opt|and_local_timezone|and_time|date|time|and_utc|checked_\w+)',
    r'chrono::TimeZone::(?:from_local_datetime|from_utc_datetime|timestamp_opt|timestamp_millis_opt|with_ymd_and_hms)', r'chrono::offset::LocalResult::<T>::(?:earliest|latest|single)', r'chrono::Offset::fix', r'chrono::MappedLocalTime::<T>::(?:earliest|latest|single)',
    r'colored::.*', r'descape::UnescapeExt::\w+', r'fixed::\w+::<Frac>::(?:checked_\w+|saturating_\w+|wrapping_\w+|overflowing_\w+|from_str\w*|from_bits|to_bits)', r'formatx::Template::(?:new|replace|replace_positional|text)', r'formatx::Error::message',
    r'glob::(?:glob|glob_with)', r'glob::\w+::\w+', r'regex::Regex::(?:as_str|is_match|new|find|captures|is_match_at)', r'unicode_width::\w+::\w+', r'yaml_rust2::parser::Parser::<.*>::(?:load|new_from_str|new|next_token|peek)',
    r'toml::(?:from_str|to_string|Value::\w+|map::Map::<.*>::\w+|de::\w+::\w+|ser::\w+::\w+)', r'serde\w*::.*', r'unicode_segmentation::.*', r'once_cell::.*', r'lazy_static::.*',
)
FRAC = re.compile(r'typenum::bit::B([01])')


def library(ctx, mine):
    """Every call out of the program is to something that reports what it cannot do."""
    n = 0
    local = set(ctx.F.bypath)
    for f in ctx.F.fns.values():
        if f.crate == 'models' or not mine(f): continue
        for i, c, b in calls_in(ctx.F, f, lambda c: True):
            p = c['path']
            if p in local or p.startswith('seam') or p.startswith('<seam'): continue
            n += 1
            q = re.sub(r"<'\w+>|::<impl '.*?>", '', p)
            if re.match(r'(?:std|core|alloc)::|<', p):
                for d, why in DENY:
                    if re.fullmatch(d, p): ctx.violation('library', '%s in %s' % (p, home(f)), b['sp'], '%s: %s' % (p, why))
                m = re.match(r'(?:std|core)::(?:num::)?.*<impl (\w+)>::from_str_radix$', p)
                if m and not radix(f, b): ctx.violation('library', '%s in %s' % (p, home(f)), b['sp'], 'the radix is not a constant between 2 and 36')
                if re.match(r'std::ops::(?:Add|Sub|Mul|Div|Neg|AddAssign|SubAssign|MulAssign|DivAssign)::', p) and re.match(r'(?:std::time|core::time|chrono|fixed)::', (c.get('targs') or [''])[0]):
                    ctx.violation('library', '%s in %s' % (p, home(f)), b['sp'], 'arithmetic on %s that may leave its range' % c['targs'][0].split('<')[0])
                if re.match(r'std::ops::Index(?:Mut)?::', p) and re.match(r'(?:toml|yaml_rust2|regex|chrono|serde)', (c.get('targs') or [''])[0]):
                    ctx.violation('library', '%s in %s' % (p, home(f)), b['sp'], 'an item of %s that may not exist' % c['targs'][0])
                continue
            if re.fullmatch(r'fixed::Fixed(I|U)(\d+)::<Frac>::to_num', p):
                bits = FRAC.findall(c['targs'][0])
                frac = int(''.join(bits) or '0', 2)
                size = int(re.search(r'Fixed.(\d+)', p).group(1)) - frac
                m = re.fullmatch(r'i(\d+)', c['targs'][1]) if len(c['targs']) > 1 else None
                good = c['targs'][1:] and (m and int(m.group(1)) >= size or c['targs'][1] in ('f32', 'f64'))
                ctx.require(good, 'library', '%s in %s' % (p, home(f)), 'a number of up to %d bits is converted to %s' % (size, c['targs'][1:]), b['sp'])
                continue
            if re.match(r'markdown::', p): ctx.violation('library', p, b['sp'], '%s aborts for some texts' % p); continue
            ctx.require(any(re.fullmatch(s, p) for s in SAFE), 'library', '%s in %s' % (p, home(f)), 'nothing is known about when %s aborts' % p, b['sp'])
        displays(ctx, f)
    return n


def home(f): return re.sub(r'(::\{closure#\d+\})+$', '', f.path)


def radix(f, b):
    a = b['t'][2][-1]
    v = a[2] if a[0] == 'k' else None
    if isinstance(v, list): v = v[1]
    try: return 2 <= int(v) <= 36
    except (TypeError, ValueError): return False


# ---- texts that may refuse to be written --------------------------------------------------------------
REFUSES = r'chrono::format::(?:DelayedFormat|StrftimeItems)'


def displays(ctx, f):
    """Something whose Display can fail only goes where the failure is looked at."""
    taint = set()
    for b in f.blocks:
        t = b['t']
        if t[0] != 'call' or t[1][0] != 'fn': continue
        c = t[1][1]
        ty = ' '.join(c.get('targs') or ())
        if re.match(r'&*' + REFUSES, (c.get('targs') or [''])[0]):
            if re.search(r'Argument::<.*>::new_display$', c['path']): taint.add(t[3][0])
            elif re.search(r'ToString::to_string$', c['path']): ctx.violation('library', 'to_string in %s' % home(f), b['sp'], 'to_string of a date aborts when its format is invalid')
    if not taint: return
    change = True
    while change:
        n = len(taint)
        for b in f.blocks:
            for s in b['s']:
                if s[0] == '=' and touches(s[2], taint): taint.add(s[1][0])
            t = b['t']
            if t[0] == 'call' and t[1][0] == 'fn' and re.search(r'Arguments::<.*>::new', t[1][1]['path']) and touches(t[2], taint): taint.add(t[3][0])
        change = len(taint) != n
    for b in f.blocks:
        t = b['t']
        if t[0] == 'call' and t[1][0] == 'fn' and re.search(r'fmt::format$|io::_e?print$|panic_fmt$', t[1][1]['path']) and touches(t[2], taint):
            ctx.violation('library', '%s in %s' % (t[1][1]['path'], home(f)), b['sp'], 'writing a date aborts when its format is invalid')


def touches(x, locals_):
    if isinstance(x, (list, tuple)):
        if len(x) == 3 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list): return x[0] in locals_
        return any(touches(y, locals_) for y in x)
    if isinstance(x, dict): return any(touches(y, locals_) for y in x.values())
    return False


# ---- cells ----------------------------------------------------------------------------------------------
class Cells:
    """What each function may borrow at run time."""
    def __init__(self, ctx):
        self.ctx, self.F = ctx, ctx.F
        self.fs = [f for f in ctx.F.fns.values() if f.crate != 'models']
        self.byname = {}
        for f in self.fs:
            if f.trait: self.byname.setdefault((f.trait.split('<')[0], f.name), []).append(f)
        self.eff = {f.uid: set() for f in self.fs}
        self.out = {f.uid: [] for f in self.fs}
        for f in self.fs:
            for i, b in enumerate(f.blocks):
                if b['t'][0] == 'call': self.out[f.uid].append((i, b) + self.targets(f, b))
        change = True
        while change:
            change = False
            for f in self.fs:
                e = self.eff[f.uid]
                n = len(e)
                for i, b, own, fs in self.out[f.uid]:
                    e |= own
                    for g in fs: e |= self.eff[g.uid]
                change |= len(e) != n

    def norm(self, t): return re.sub(r"'\w+ ?|<'_>|\s", '', t)

    def targets(self, f, b):
        """(borrows made by the call itself, functions it may run)"""
        t = b['t']
        own, fs = set(), []
        if t[1][0] != 'fn': return own, fs
        c = t[1][1]
        m = re.match(CELL, c['path'])
        if m:
            cell = self.norm(c['targs'][0])
            k = m.group(1)
            if k in ('borrow',): own.add((cell, 'r'))
            elif k in ('borrow_mut', 'replace', 'replace_with', 'swap', 'take'): own.add((cell, 'w'))
        hit = []
        for p in (c.get('res'), c['path']):
            if p and p in self.F.bypath: hit = self.F.bypath[p]; break
        fs += [g for g in hit if g.crate != 'models']
        if not hit:
            parts = c['path'].split('::')
            tr = re.sub(r'<.*', '', c.get('trait') or '::'.join(parts[:-1]))
            if c.get('trait') and c['trait'].startswith('seam') or tr.startswith('seam'):
                fs += [g for (x, n), l in self.byname.items() if n == parts[-1] and x.split('::')[-1] == tr.split('::')[-1] for g in l]
        # functions handed on may be run
        for a in t[2]:
            ty = f.locals[a[1][0]][0] if a[0] in ('c', 'm') else a[1] if a[0] == 'k' and len(a) > 1 and isinstance(a[1], str) else ''
            if 'closure@' in ty: fs += self.closures(f, ty)
        if re.search(r'ToString::to_string$|Write::write_fmt$|fmt::format$', c['path']):
            for ty in c.get('targs') or ():
                fs += [g for g in self.byname.get(('std::fmt::Display', 'fmt'), ()) if ty.split('<')[0].lstrip('&') in g.path]
        return own, fs

    def closures(self, f, ty):
        out = []
        root = home(f)
        for g in self.fs:
            if g.kind == 'closure' and home(g) == root: out.append(g)
        return out


def guards(ctx, mine):
    """While a cell is borrowed nothing runs that borrows it in a way that excludes the borrow."""
    C = Cells(ctx)
    n = 0
    for f in C.fs:
        if not mine(f): continue
        for i, b, own, fs in C.out[f.uid]:
            c = b['t'][1][1] if b['t'][1][0] == 'fn' else None
            if c is None or not own or not re.match(r'std::cell::Ref', f.locals[b['t'][3][0]][0]): continue
            n += 1
            cell, how = next(iter(own))
            bad = None
            for j, what in held(f, i, b['t'][3][0]):
                bb = f.blocks[j]
                for k, b2, own2, fs2 in C.out[f.uid]:
                    if k != j: continue
                    e = set(own2)
                    if own2 and apart(f, b['t'][2][0], b2['t'][2][0]): e = set()
                    for g in fs2: e |= C.eff[g.uid]
                    if any(x == cell and (how == 'w' or h == 'w') for x, h in e): bad = bb
            ctx.require(bad is None, 'guards', home(f), 'while %s is borrowed, something runs that borrows it again (%s)' % (cell[:60], bad and bad['sp']), b['sp'])
    return n


def apart(f, a, b):
    """One cell is the function's own, the other belongs to another object: one made here, or one that
    the function's own object holds by value."""
    x, y = origin(f, a), origin(f, b)
    if y and y[0] == 'arg': x, y = y, x
    if not (x and y and x[0] == 'arg' and y[0] == 'call') or x[-1] or y[-1]: return False
    plain = lambda t: re.sub(r"'\w+ ?|<'_>|&|mut ", '', t)
    ty = re.sub(r'<.*', '', plain(f.locals[x[1]][0]))
    if re.sub(r'<.*', '', plain(y[2])) == ty and not y[2].startswith('&'): return True
    return ty in plain(y[2]) and y[1].startswith('seam')


def origin(f, o):
    """('arg', local, shared) or ('call', path, type, shared): where the reference in an operand comes from;
    shared: reached through an Rc."""
    if o[0] not in ('c', 'm'): return None
    l = o[1][0]
    shared = False
    for _ in range(40):
        if 1 <= l <= f.argc: return 'arg', l, shared
        defs = [(s[2], None) for b in f.blocks for s in b['s'] if s[0] == '=' and s[1][0] == l and not s[1][1]]
        defs += [(None, b['t']) for b in f.blocks if b['t'][0] == 'call' and b['t'][3][0] == l]
        if len(defs) != 1: return None
        r, t = defs[0]
        if t is not None:
            if t[1][0] != 'fn': return None
            p = t[1][1]['path']
            if re.search(r'Deref(?:Mut)?::deref(?:_mut)?$|(?:Option|Result)::<.*>::(?:unwrap|expect|unwrap_or_else)$|Try::branch$|as_(?:ref|mut)$', p) and t[2] and t[2][0][0] in ('c', 'm'):
                l = t[2][0][1][0]
                shared = shared or 'Rc<' in f.locals[l][0].split('RefCell')[0]
                continue
            return 'call', p, t[3][2], shared
        if r[0] in ('use',) and r[1][0] in ('c', 'm'): l = r[1][1][0]
        elif r[0] in ('ref', 'rawptr'): l = r[2][0]
        elif r[0] == 'cast' and r[2][0] in ('c', 'm'): l = r[2][1][0]
        else: return None
    return None


def held(f, start, guard):
    """Blocks whose call runs while the guard made at the end of block `start` lives."""
    holders0 = frozenset([guard])
    seen, work, out = set(), [], []
    t = f.blocks[start]['t']
    if t[4] is not None: work.append((t[4], holders0))
    while work:
        i, hold = work.pop()
        if (i, hold) in seen: continue
        seen.add((i, hold))
        b = f.blocks[i]
        hold = set(hold)
        for s in b['s']:
            if s[0] == 'dead': hold.discard(s[1])
            elif s[0] == '=':
                moved = [h for h in hold if moves(s[2], h)]
                for h in moved: hold.discard(h)
                if moved: hold.add(s[1][0])
        t = b['t']
        if not hold: continue
        if t[0] == 'drop':
            p = t[1]
            if not p[1]: hold.discard(p[0])
        if t[0] == 'call':
            out.append((i, t))
            gone = [h for h in hold if moves(t[2], h)]
            for h in gone:
                hold.discard(h)
                # handed to a function: lives on in its result if that is a guard
                if re.match(r'std::cell::Ref|std::option::Option<std::cell::Ref', f.locals[t[3][0]][0]): hold.add(t[3][0])
        if t[0] == 'return': continue
        if hold:
            for j in succ_(t): work.append((j, frozenset(hold)))
    return out


def moves(x, l):
    if isinstance(x, (list, tuple)):
        if len(x) == 2 and x[0] == 'm': return x[1][0] == l and not x[1][1]
        return any(moves(y, l) for y in x)
    return False


def succ_(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'switch': return [b for _, b in t[2]] + [t[3]]
    if k == 'call': return [b for b in t[4:5] if b is not None]
    if k == 'assert': return [t[4]]
    if k == 'drop': return [t[2]]
    return [b for b in t[1:] if isinstance(b, int) and not isinstance(b, bool)]
