"""Meaning of the library functions the analysed code calls: values are identified up to
ownership wrappers, containers are sequences, strings are concatenations, formatting is a
sequence of writes; combinators and iterators are the Rust models in /verif/models."""
import re
from terms import *
from terms import OPT, RES
import terms

P = 'models::'
NUMBER = re.compile(r'[iu](?:8|16|32|64|128|size)|char|bool')

# library function (trait path or resolved path) -> model function
MODEL = {}
for n in '''map inspect map_or map_or_else and_then and or or_else xor unwrap_or unwrap_or_else unwrap_or_default unwrap expect
is_some is_none is_some_and is_none_or ok_or ok_or_else filter flatten zip transpose take replace'''.split():
    MODEL['std::option::Option::<T>::' + n] = 'option_' + n
MODEL['std::option::Option::<std::option::Option<T>>::flatten'] = 'option_flatten'
MODEL['std::option::Option::<std::result::Result<T, E>>::transpose'] = 'option_transpose'
for n in '''map map_err map_or map_or_else and_then and or or_else ok err is_ok is_err is_ok_and is_err_and unwrap expect unwrap_err
unwrap_or unwrap_or_else unwrap_or_default'''.split():
    MODEL['std::result::Result::<T, E>::' + n] = 'result_' + n
MODEL['std::result::Result::<std::option::Option<T>, E>::transpose'] = 'result_transpose'
for n in 'then then_some'.split():
    MODEL['std::bool::<impl bool>::' + n] = 'bool_' + n
    MODEL['core::bool::<impl bool>::' + n] = 'bool_' + n
for n in 'then then_with is_lt is_le is_gt is_ge is_eq is_ne'.split():
    MODEL['std::cmp::Ordering::' + n] = 'ordering_' + n
for n in 'map filter filter_map inspect enumerate rev zip chain skip take take_while skip_while peekable flat_map flatten nth last count fold try_fold try_for_each for_each any all find find_map position sum max map_while step_by rfind reduce min'.split():
    MODEL['std::iter::Iterator::' + n] = 'it_' + n
MODEL['std::iter::DoubleEndedIterator::rfind'] = 'it_rfind'
MODEL['std::iter::DoubleEndedIterator::rfold'] = 'it_rev_fold'
MODEL['std::iter::Iterator::partition'] = 'partition'
MODEL['std::iter::Iterator::unzip'] = 'unzip'
MODEL['std::iter::zip'] = 'it_zip'
MODEL['std::iter::once'] = 'it_once'
MODEL['std::iter::empty'] = 'it_empty'
MODEL['std::iter::repeat'] = 'it_repeat'
MODEL['std::iter::from_fn'] = 'it_from_fn'
MODEL['std::iter::Peekable::<I>::peek'] = 'peekable_peek'
MODEL['std::iter::Peekable::<I>::next_if'] = 'peekable_next_if'
for n in 'first last first_mut last_mut'.split():
    MODEL['core::slice::<impl [T]>::' + n] = 'slice_' + n
MODEL['std::vec::Vec::<T, A>::retain'] = 'vec_retain'
MODEL['std::cell::Cell::<T>::update'] = 'cell_update'

IDENT = set('''std::boxed::Box::<T>::new std::clone::Clone::clone std::borrow::ToOwned::to_owned
std::vec::Vec::<T, A>::into_boxed_slice std::string::String::as_str std::vec::Vec::<T, A>::as_slice
std::convert::AsRef::as_ref std::borrow::Borrow::borrow std::option::Option::<T>::as_ref std::option::Option::<T>::as_deref
std::option::Option::<&T>::cloned std::option::Option::<&T>::copied std::result::Result::<T, E>::as_ref std::iter::Iterator::cloned
std::iter::Iterator::copied std::slice::<impl [T]>::to_vec std::slice::<impl [T]>::into_vec std::str::<impl str>::into_string
std::string::String::into_boxed_str std::hint::must_use std::cell::RefCell::<T>::new std::cell::Cell::<T>::new
std::iter::Iterator::by_ref std::path::Path::new std::path::Path::to_path_buf std::path::Path::as_os_str std::path::PathBuf::as_path std::ffi::OsStr::to_os_string
std::iter::Iterator::fuse std::cell::RefCell::<T>::into_inner std::cell::Cell::<T>::into_inner std::boxed::Box::<T, A>::into_inner
core::str::<impl str>::as_str std::boxed::Box::<T, A>::as_ref std::rc::Rc::<T, A>::as_ref std::boxed::Box::<T>::pin
std::vec::Vec::<T, A>::into_iter std::string::String::leak std::boxed::Box::<T, A>::leak std::boxed::Box::<T>::from_raw std::boxed::Box::<T>::into_raw
std::boxed::Box::<T, A>::into_raw std::boxed::Box::<T, A>::from_raw std::borrow::Cow::<'_, B>::into_owned std::option::Option::<&mut T>::cloned
std::path::Path::as_ref std::slice::<impl [T]>::to_owned core::slice::<impl [T]>::as_ref std::boxed::Box::<T, A>::as_mut std::convert::identity std::hint::black_box
std::boxed::box_assume_init_into_vec_unsafe std::slice::<impl [T]>::into_boxed_slice std::rc::Rc::<T>::from std::option::Option::<T>::iter std::result::Result::<T, E>::iter'''.split('\n'))
IDENT = {x for l in IDENT for x in re.split(r'\s+(?=std::|core::)', l.strip())}

# calls that read the outside world: every call is an observable event with its own result
IMPURE = re.compile(r'^(std::env::|std::fs::|std::io::|std::process::|std::net::|std::thread::|std::time::(SystemTime|Instant)::|<?std::fs::|<?std::io::|glob::glob|chrono::(Local|Utc)::now|std::path::Path::(exists|is_file|is_dir|metadata|read_dir|canonicalize|symlink_metadata|try_exists)|rand::|std::path::Path::is_symlink|<std::env::|<std::fs::|<glob::Paths|iana_time_zone)')

PANICS = re.compile(r'^(std::rt::panic_fmt|std::rt::begin_panic|core::panicking::|std::panic::|std::panicking::|std::process::abort|std::option::unwrap_failed|std::option::expect_failed|std::result::unwrap_failed)')

STRFNS = {  # pure string functions under short names
    'starts_with': 'starts_with', 'ends_with': 'ends_with', 'contains': 'str_contains', 'trim': 'trim',
    'trim_start': 'trim_start', 'trim_end': 'trim_end', 'to_lowercase': 'lower', 'to_ascii_lowercase': 'ascii_lower',
    'to_uppercase': 'upper', 'to_ascii_uppercase': 'ascii_upper', 'chars': 'chars', 'bytes': 'as_bytes', 'as_bytes': 'as_bytes',
    'into_bytes': 'as_bytes', 'strip_prefix': 'strip_prefix', 'strip_suffix': 'strip_suffix', 'split': 'split', 'lines': 'lines',
    'replace': 'str_replace', 'repeat': 'str_repeat', 'find': 'str_find', 'char_indices': 'char_indices', 'split_whitespace': 'split_whitespace',
    'eq_ignore_ascii_case': 'eq_ignore_ascii_case', 'is_char_boundary': 'is_char_boundary', 'rfind': 'str_rfind', 'splitn': 'splitn', 'split_once': 'split_once',
}


def attach(e):
    e.FROM = {}
    for fn in e.F.fns.values():
        if fn.trait in ('std::convert::From', 'std::convert::TryFrom') and fn.name in ('from', 'try_from') and fn.self_ty:
            e.FROM[(fn.trait, nty(fn.self_ty), nty(fn.locals[1][0]))] = fn
    e.ITER = {}
    for i in e.F.impls:
        if i['trait'] == 'models::It':
            adt = re.sub(r'<.*', '', i['ty'])
            e.ITER[adt] = i
    e.unknown = {}
    e.itfn = {}
    for fn in e.F.fns.values():
        if fn.crate == 'models' and fn.trait == 'models::It':
            adt = re.sub(r'<.*', '', fn.self_ty)
            e.itfn[(adt, fn.name)] = fn


def nty(t):
    t = re.sub(r"'[a-z_]+,? ?", '', t)
    return t.replace('<>', '')


def model(e, name):
    l = e.F.bypath.get(P + name)
    return l[0] if l else None


def post(e, st, p, v):
    if p[0] == 'const': return p[1]
    return v


def location(e, st, v):
    """The innermost place a (mutable) reference value leads to."""
    if v.op != 'ref': return None
    n = 0
    while n < 8:
        x = e.read(st, *v.args)
        if x.op != 'ref': return v.args
        v = x; n += 1
    return v.args


def islocal(root): return root.op in ('L', 'H')


def cellref(e, st, v):
    """Reference to the content of a Cell/RefCell given a reference to (or value of) it."""
    n = 0
    while v.op == 'ref':
        root, path = v.args
        x = e.read(st, root, path)
        if x.op == 'ref' and n < 6:
            v = x; n += 1; continue
        if root.op == 'D' or root.op == 'C' and path:
            if root.op == 'D':
                # a cell inside an object that came from outside: one location per place
                return T('ref', T('C', e.placeterm(root, path)), ())
        if root.op in ('L', 'H') and x.op in ('fld', 'elem', 'arg', 'call') and not refs(x):
            return T('ref', T('C', x), ())
        return v
    return T('ref', T('C', v), ())


def fork(e, st, t, cond, a, b):
    """Value a when cond holds, else b (thunks of a state)."""
    r = e.truth(st, cond)
    outs = []
    for val, f in ((True, a), (False, b)):
        if r is not None and r != val: continue
        s2 = st.copy() if r is None else st
        if r is None and not e.assume(s2, cond, val): continue
        x = f(s2) if callable(f) else f
        d = e.finish(s2, t, x, [])
        if d: outs.append(d)
    return outs


def extend_option(e, st, loc, v, t):
    """At most one item: a push, or nothing."""
    if v.op == 'agg' and v.args[0] == 'models::OptIter': v = v.args[3][0]
    r = e.truth(st, T('isvar', v, OPT, 'Some')) if v.op != 'agg' else v.args[1] == 'Some'
    outs = []
    for val in (True, False):
        if r is not None and r != val: continue
        s2 = st.copy() if r is None else st
        if r is None and not e.assume_variant(s2, v, OPT, ('Some',) if val else ('None',)): continue
        evs = []
        if val:
            x = v.args[3][0] if v.op == 'agg' else e.field(v, 'Some', '0')
            e.write(s2, loc[0], loc[1], seq([('s', e.read(s2, *loc)), ('i', x)]))
            evs = [('push', e.placeterm(*loc), e.resolve(s2, x))]
        d = e.finish(s2, t, UNIT, [])
        if d: outs.append((d[0], evs + list(d[1])))
    return outs


def pure(name, *args): return T('call', name, tuple(args))


def iter_of(e, st, v, ty=''):
    """IntoIterator::into_iter."""
    if v.op == 'ref' and (ty.startswith('&mut') or 'IterMut' in ty):
        loc = location(e, st, v)
        x = e.read(st, *loc)
        if x.op == 'agg' and x.args[0].startswith('models::'): return v
        if x.op == 'agg' and x.args[0].startswith('std::ops::Range'): return v
        return agg('models::SliceIterMut', 'SliceIterMut', ('s', 'pos', 'end'), (T('ref', *loc), kint(0), e.length(x)))
    if v.op == 'ref':
        v2 = e.deref(st, v)
        if v2.op == 'agg' and v2.args[0].startswith('models::'): return v
        v = v2
    if v.op == 'agg':
        if v.args[0].startswith('models::') or v.args[0].startswith('std::ops::Range'): return v
        if v.args[0] == OPT: return agg('models::OptIter', 'OptIter', ('o',), (v,))
        if v.args[0] == RES:
            return agg('models::OptIter', 'OptIter', ('o',), (some(v.args[3][0]) if v.args[1] == 'Ok' else NONE,))
    bt = re.sub(r'^(&(mut )?)+', '', ty)
    if bt.startswith('std::option::Option<'): return agg('models::OptIter', 'OptIter', ('o',), (v,))
    if 'HashMap' in bt or 'hash_map' in bt or 'HashSet' in bt or 'hash_set' in bt:
        if v.op != 'call' or v.args[0] not in ('entries', 'keys', 'values'):
            v = pairs_of(e, st, v)
    return slice_iter(e, v)


def slice_iter(e, v):
    return agg('models::SliceIter', 'SliceIter', ('s', 'pos', 'end'), (v, kint(0), e.length(v)))


def fresh_slice(e, v):
    """The whole sequence when v is an untouched sequence or iterator, else None."""
    if v.op == 'agg':
        if v.args[0] == 'models::SliceIter':
            s, pos, end = v.args[3]
            if pos.op == 'k' and pos.args[1] == 0 and end is e.length(s): return s
            return e.slice(s, pos, end)
        return None
    if v.op == 'ref': return None
    return v


def handle(e, st, c, args, t, blk, node, ev):
    path = c['path']
    res = c.get('res') or path
    targs = c.get('targs', [])
    tr = c.get('trait') or ''
    D = lambda v, evs=(): e.done(st, t, v, evs)
    base = path.split('::')[-1]

    if c.get('ctor'):
        a = path
        parts = path.split('::')
        adt, var = '::'.join(parts[:-1]), parts[-1]
        for cand in (adt, path):
            q = re.sub(r'::<.*?>(?=$|::)', '', cand)
            vs = e.variants(q)
            if vs:
                for v in vs:
                    if v['name'] == var:
                        return D(agg(q, var, [f[0] for f in v['fields']], args))
        return None

    if PANICS.match(res) or PANICS.match(path):
        msg = show(args[0])[:120] if args else path
        e.exit(node, ev, 'panic', st, None, blk['sp'], extra=('panic', msg))
        return []

    # ---- primitives of the model library ------------------------------------------------
    if path.startswith('models::prim::'):
        if base == 'len': return D(e.length(e.deref(st, args[0])))
        if base == 'elem': return D(e.elem(st, e.deref(st, args[0]), args[1]))
        if base == 'elem_mut':
            loc = location(e, st, args[0])
            if loc is None: return D(e.elem(st, args[0], args[1]))
            return D(T('ref', loc[0], loc[1] + (('e', args[1]),)))
        if base == 'append':
            root, p = location(e, st, args[0])
            old = e.read(st, root, p)
            e.write(st, root, p, cat([old, e.deref(st, args[1])]))
            return D(UNIT)
        if base == 'equal': return D(e.eq(e.resolve(st, args[0]), e.resolve(st, args[1])))
        if base == 'map_insert':
            root, p = location(e, st, args[0])
            old = e.read(st, root, p)
            k, v = e.resolve(st, args[1]), e.resolve(st, args[2])
            e.write(st, root, p, T('ins', old, k, v))
            return D(UNIT, [('insert', e.placeterm(root, p), k, v)])
        if base == 'panics':
            if not e.opts.get('no_panic_exits'):
                e.exit(node, ev, 'panic', st, None, blk['sp'], extra=('panic', args[0].args[1] if args[0].op == 'k' else '?', caller(st)))
            note_panic(e, st, blk, args[0].args[1] if args[0].op == 'k' else '?')
            return []
        if base == 'default': return D(pure('default'))
        if base == 'add': return D(e.add(args[0], args[1]))
        return D(pure(base, *args))

    # ---- calling function values ----------------------------------------------------------
    if tr in ('std::ops::FnOnce', 'std::ops::FnMut', 'std::ops::Fn') and base in ('call_once', 'call_mut', 'call'):
        a = args[1]
        l = list(a.args[3]) if a.op == 'agg' else [e.field(a, None, str(i)) for i in range(1)]
        return e.call_value(st, args[0], l, t, blk, node, ev)

    # ---- iterators ------------------------------------------------------------------------
    if path in ('std::iter::IntoIterator::into_iter', 'models::into_it') and c.get('ruid') not in locals_(e):
        if path == 'models::into_it' or not is_local(e, c): return D(iter_of(e, st, args[0], targs[0] if path != 'models::into_it' and targs else ''))
    if base in ('iter', 'into_iter') and re.search(r'(slice::<impl \[T\]>|HashMap|Vec|BTreeMap|HashSet|toml::map::Map).*::iter$', path):
        return D(iter_of(e, st, args[0] if args[0].op != 'ref' else e.deref(st, args[0]), 'HashMap' if 'Hash' in path else ''))
    if base in ('iter_mut',) and 'HashMap' not in path:
        return D(iter_of(e, st, args[0], '&mut'))
    if base in ('keys', 'values', 'into_keys', 'into_values', 'drain') and 'Hash' in path:
        m = e.deref(st, args[0])
        if base == 'drain':
            loc = location(e, st, args[0])
            e.write(st, loc[0], loc[1], T('map'))
            return D(slice_iter(e, pairs_of(e, st, m)))
        return D(slice_iter(e, pairs_of(e, st, m, base.replace('into_', ''))))
    if base == 'drain' and 'Vec' in path:
        loc = location(e, st, args[0])
        old = e.read(st, *loc)
        if 'RangeFull' in str(targs) or (args[1].op == 'agg' and 'RangeFull' in args[1].args[0]) or args[1].op == 'k':
            e.write(st, loc[0], loc[1], EMPTYSEQ)
            return D(slice_iter(e, old))
    if path in ('std::iter::Iterator::next', 'std::iter::DoubleEndedIterator::next_back', 'models::It::next', 'models::It::next_back') and not is_local(e, c, 'seam'):
        return it_step(e, st, base, args, t, blk, node, ev, targs)
    if path == 'std::iter::ExactSizeIterator::len' or (base == 'len' and tr.startswith('std::iter')):
        v = e.deref(st, args[0])
        if v.op == 'agg' and v.args[0] == 'models::SliceIter': return D(e.sub(v.args[3][2], v.args[3][1]))
        return D(e.length(v))
    if path == 'std::iter::Iterator::collect' or path == 'std::iter::FromIterator::from_iter':
        dest = targs[1] if base == 'collect' and len(targs) > 1 else (targs[0] if targs else '')
        return collect(e, st, dest, args[0], t, blk, node, ev, targs)
    if path == 'std::iter::Extend::extend' or re.search(r'(Vec|String).*::(extend_from_slice|append|extend)$', path):
        loc = location(e, st, args[0])
        if loc:
            ty = targs[0] if path == 'std::iter::Extend::extend' else path
            src = args[1]
            if base == 'append' and src.op == 'ref':
                l2 = location(e, st, src)
                val = e.read(st, *l2)
                e.write(st, l2[0], l2[1], EMPTYSEQ)
                src = val
            elif src.op == 'ref': src = e.deref(st, src)
            if src.op == 'agg' and src.args[0] in (OPT, RES): src = iter_of(e, st, src)
            if re.match(r'^(&mut )?std::(string::String|ffi::OsString)\b', ty):
                return model_call(e, st, 'extend_string', [T('ref', *loc), src], t, blk, node, ev)
            if re.match(r'^(&mut )?std::collections::(\w+::)?(HashMap|BTreeMap)\b', ty):
                return model_call(e, st, 'extend_map', [T('ref', *loc), src], t, blk, node, ev)
            if path == 'std::iter::Extend::extend' and len(targs) > 2 and re.match(r'^(&)?std::option::Option<', targs[2]):
                return extend_option(e, st, loc, src, t)
            s = fresh_slice(e, src)
            if s is not None and not (len(targs) > 2 and re.match(r'^(&)?std::option::Option<', targs[2])):
                if s.op == 'k' and s.args[0] == 'bytes': s = seq([('i', kint(b)) for b in s.args[1]])
                old = e.read(st, *loc)
                e.write(st, loc[0], loc[1], seq([('s', old), ('s', s)]))
                return D(UNIT, [('extend', e.placeterm(*loc), e.resolve(st, s))])
            return model_call(e, st, 'extend_vec', [T('ref', *loc), src], t, blk, node, ev)
    if path == 'std::iter::Peekable::<I>::peek' or path.endswith('::peek'):
        if path.startswith('std::iter::Peekable'):
            return model_call(e, st, 'peekable_peek', args, t, blk, node, ev)

    if path == 'std::option::Option::<T>::unwrap_or_default' or path == 'std::result::Result::<T, E>::unwrap_or_default':
        pass
    if path in ('std::iter::Iterator::skip', 'std::iter::Iterator::take') and targs and targs[0].startswith('std::env::Args') and args[0].op == 'res': args = [slice_iter(e, args[0])] + args[1:]
    if path in ('std::iter::Iterator::skip', 'std::iter::Iterator::take', 'std::iter::Iterator::step_by') and args[0].op in ('agg',) and args[0].args[0] == 'models::SliceIter':
        s_, pos, end = args[0].args[3]
        mk = lambda lo, hi: agg('models::SliceIter', 'SliceIter', ('s', 'pos', 'end'), (s_, lo, hi))
        q = e.add(pos, args[1])
        if base == 'skip': return fork(e, st, t, e.lt(end, q), mk(end, end), mk(q, end)) if q.op != 'phi' else e.done(st, t, mk(q, end))
        if base == 'take': return fork(e, st, t, e.lt(end, q), mk(pos, end), mk(pos, q))
    m = MODEL.get(path)
    if m and c.get('rkrate') != 'seam':
        if base in ('first', 'last', 'is_some', 'is_none', 'is_ok', 'is_err'):
            args = [e.deref(st, args[0])] + args[1:]
        if base == 'fold' or tr == 'std::iter::Iterator':
            if base in ('any', 'all', 'find', 'rfind', 'position', 'nth', 'try_fold', 'try_for_each', 'find_map') and args[0].op != 'ref':
                h = T('H', st.top.ctx, st.blk, 'it')
                st.store[h] = args[0]
                args = [T('ref', h, ())] + args[1:]
            if base in ('any', 'all', 'find', 'position'):
                v = e.deref(st, args[0])
                if v.op == 'agg' and v.args[0] == 'models::SliceIter' and v.args[3][1].op == v.args[3][2].op == 'k' and v.args[3][0].op == 'seq' and all(k == 'i' and y.op == 'k' for k, y in v.args[3][0].args[0]):
                    n = v.args[3][2].args[1] - v.args[3][1].args[1]
                    if 1 <= n <= 8: m = '%s_%d' % (m, n)
        return model_call(e, st, m, args, t, blk, node, ev)

    if path == 'std::ops::Try::branch':
        v = args[0]
        if 'option::Option' in res: return model_call(e, st, 'option_branch', args, t, blk, node, ev)
        if 'result::Result' in res: return model_call(e, st, 'result_branch', args, t, blk, node, ev)
        return None
    if path == 'std::ops::Try::from_output':
        return D(ok(args[0]) if 'result' in res else some(args[0]))
    if path == 'std::ops::FromResidual::from_residual':
        v = args[0]
        if 'option::Option' in res: return D(NONE)
        er = v.args[3][0] if v.op == 'agg' else e.field(v, 'Err', '0')
        if len(targs) == 2:
            F = result_err(e, targs[0]); E_ = result_err(e, targs[1])
            if F != E_:
                fn = e.FROM.get(('std::convert::From', nty(F or ''), nty(E_ or '')))
                if fn:
                    h = T('H', st.top.ctx, st.blk, 'conv')
                    return wrap_err(e, st, fn, er, t, blk, node, ev)
                return D(err(pure('From', er)))
        return D(err(er))

    # ---- wrappers ------------------------------------------------------------------------
    if path in IDENT or res in IDENT:
        v = args[0]
        if path == 'std::convert::AsRef::as_ref' or path == 'std::borrow::Borrow::borrow' or base in ('as_ref', 'as_deref', 'as_slice', 'as_str'):
            if is_local(e, c): return None
            x = e.deref(st, v) if v.op == 'ref' else v
            if v.op == 'ref' and refs(x): return D(x if x.op != 'ref' else v)
            return D(x)
        if base in ('clone', 'to_owned', 'cloned'):
            if is_local(e, c):
                fn = e.F.fns[c['ruid']]
                if not fn.derived: return None
            if v.op == 'ref':
                x = e.read(st, *v.args)
                return D(x)
            return D(v)
        if base == 'iter' and ('option' in path or 'result' in path): return D(iter_of(e, st, e.deref(st, v)))
        if path in ('std::iter::Iterator::cloned', 'std::iter::Iterator::copied', 'std::iter::Iterator::by_ref', 'std::iter::Iterator::fuse'): return D(v)
        if path == 'std::boxed::box_assume_init_into_vec_unsafe':
            if v.op == 'ref': v = e.deref(st, v)
            # MaybeUninit<[T; N]> { value: ManuallyDrop { value: [..] } }
            n = 0
            while v.op in ('with', 'agg') and n < 6:
                v = v.args[2] if v.op == 'with' else v.args[3][0] if v.args[3] else v
                n += 1
            return D(v)
        return D(v)
    if path == 'std::boxed::Box::<T>::new_uninit': return D(T('undef', T('H', st.top.ctx, st.blk, 'box')))
    if path in ('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut') and not is_local(e, c):
        v = args[0]
        if v.op == 'ref':
            x = e.read(st, *v.args)
            if x.op == 'ref': return D(x)
            if base == 'deref_mut' or e.has_cell(targs[0] if targs else ''): 
                if x.op in ('fld', 'elem', 'arg', 'call', 'res') and re.match(r'^std::(rc::Rc|sync::Arc)', targs[0] if targs else ''):
                    return D(T('ref', T('D', x), ()))
                return D(v)
            return D(x)
        if targs and e.has_cell(targs[0]) and v.op != 'agg': return D(T('ref', T('D', v), ()))
        return D(v)
    if base in ('as_mut', 'as_mut_slice', 'get_mut', 'as_deref_mut', 'as_mut_str') and re.match(r'^std::(option::Option|vec::Vec|boxed|rc::Rc|cell|convert::AsMut|result)', path) and len(args) == 1:
        v = args[0]
        if 'option::Option' in path or 'result::Result' in path:
            loc = location(e, st, v)
            if loc is None: return D(v)
            x = e.read(st, *loc)
            if 'option' in path:
                adt, y, n = OPT, 'Some', 'None'
            else: return D(x)
            if x.op == 'agg': return D(x if x.args[1] == 'None' else some(T('ref', loc[0], loc[1] + (('f', 'Some', '0'),))))
            outs = []
            for names in (['Some'], ['None']):
                s2 = st.copy()
                if e.assume_variant(s2, x, OPT, names):
                    d = e.finish(s2, t, NONE if names == ['None'] else some(T('ref', loc[0], loc[1] + (('f', 'Some', '0'),))), [])
                    if d: outs.append(d)
            return outs
        if base == 'get_mut' and 'cell' in path: return D(cellref(e, st, v))
        if base == 'get_mut' and 'rc::Rc' in path: return D(some(v))
        return D(v)
    if path in ('std::rc::Rc::<T>::new', 'std::sync::Arc::<T>::new'):
        if targs and e.has_cell(targs[0]):
            h = T('H', st.top.ctx, st.blk, 'rc')
            st.store[h] = args[0]
            return D(T('ref', h, ()))
        return D(args[0])
    if path in ('std::rc::Rc::<T, A>::ptr_eq', 'std::ptr::eq'):
        return D(pure('ptr_eq', *args))

    # ---- cells ---------------------------------------------------------------------------
    if path.startswith('std::cell::'):
        if path.startswith('std::cell::RefCell') or path.startswith('std::cell::Cell'):
            if base in ('borrow', 'borrow_mut', 'as_ptr', 'get_mut'): return D(cellref(e, st, args[0]))
            if base in ('try_borrow', 'try_borrow_mut'): return D(ok(cellref(e, st, args[0])))
            r = cellref(e, st, args[0])
            if base == 'get': return D(e.read(st, *r.args))
            if base in ('set', 'replace', 'take'):
                old = e.read(st, *r.args)
                nv = args[1] if base != 'take' else default_of(e, targs[0] if targs else '')
                evs = [('set', e.placeterm(*r.args), e.resolve(st, nv))] if not islocal(r.args[0]) else []
                e.write(st, r.args[0], r.args[1], nv)
                return D(UNIT if base == 'set' else old, evs)
    # ---- mem -------------------------------------------------------------------------------
    if path in ('std::mem::replace', 'std::mem::take', 'std::mem::swap'):
        loc = location1(e, st, args[0])
        old = e.read(st, *loc)
        evs = []
        if base == 'swap':
            l2 = location1(e, st, args[1])
            o2 = e.read(st, *l2)
            e.store_to(st, loc[0], loc[1], o2, evs); e.store_to(st, l2[0], l2[1], old, evs)
            return D(UNIT, evs)
        nv = args[1] if base == 'replace' else default_of(e, targs[0] if targs else '')
        e.store_to(st, loc[0], loc[1], nv, evs)
        return D(old, evs)
    if path in ('std::mem::drop', 'core::mem::drop', 'std::mem::forget'): return D(UNIT)
    if path == 'std::default::Default::default' and not is_local(e, c):
        return D(default_of(e, targs[0] if targs else t[3][2]))

    # ---- equality and order -------------------------------------------------------------------
    if tr == 'std::cmp::PartialEq' and base in ('eq', 'ne'):
        a, b = e.resolve(st, args[0]), e.resolve(st, args[1])
        if is_local(e, c) and not e.F.fns[c['ruid']].derived:
            r = e.eq(a, b)
        else:
            r = eq_deep(e, a, b)
        return D(r if base == 'eq' else e.neg(r))
    if tr == 'std::cmp::PartialOrd' and base in ('lt', 'le', 'gt', 'ge'):
        a, b = e.deref(st, args[0]), e.deref(st, args[1])
        if base in ('gt', 'le'): a, b = b, a
        r = e.lt(a, b)
        return D(r if base in ('lt', 'gt') else e.neg(r))
    if tr == 'std::cmp::Ord' and base in ('min', 'max', 'cmp') or tr == 'std::cmp::PartialOrd' and base == 'partial_cmp':
        if not is_local(e, c):
            a, b = e.resolve(st, args[0]), e.resolve(st, args[1])
            if base in ('min', 'max') and a.op == 'k' and b.op == 'k': return D(kint(min(a.args[1], b.args[1]) if base == 'min' else max(a.args[1], b.args[1])))
            if base in ('min', 'max') and b.op != 'k' and a.op == 'k': a, b = b, a
            if base == 'cmp': return D(compare(a, b))
            return D(pure(base, a, b))

    # ---- conversions ---------------------------------------------------------------------------
    if path in ('std::convert::Into::into', 'std::convert::TryInto::try_into') and len(targs) >= 2:
        trn = 'std::convert::From' if base == 'into' else 'std::convert::TryFrom'
        fn = e.FROM.get((trn, nty(targs[1]), nty(targs[0])))
        if fn:
            if fn.uid in e.anchors or fn.path in e.anchors: return e.anchor(st, e.anchors.get(fn.uid, e.anchors.get(fn.path)), c, args, t, blk, node, ev)
            return e.enter(st, fn, args, t, blk, node, ev)
        if base == 'into' and NUMBER.fullmatch(targs[0]) and NUMBER.fullmatch(targs[1]): return D(terms.converted(args[0], targs[1], targs[0]))
        if base == 'into':
            if re.search(r'dyn std::error::Error', targs[1]): return D(args[0])
            return D(args[0])
        if nty(targs[0]) == nty(targs[1]): return D(ok(args[0]))
        return D(pure('try_into<%s>' % nty(targs[1]), e.deref(st, args[0])))
    if tr == 'std::convert::From' and base == 'from' and not is_local(e, c):
        if len(targs) > 1 and NUMBER.fullmatch(targs[0]) and NUMBER.fullmatch(targs[1]): return D(terms.converted(args[0], targs[0], targs[1]))
        if re.search(r'^<(std::string::String|std::path::PathBuf|std::boxed::Box<(str|\[T\])|std::vec::Vec|std::rc::Rc|std::ffi::OsString|std::borrow::Cow|T as std::convert::From<T>)', res) or 'for' in res or True:
            v = args[0]
            return D(e.deref(st, v) if v.op == 'ref' else v)
    if path == 'std::string::ToString::to_string' or path.endswith('ToString>::to_string'):
        v = e.resolve(st, args[0])
        return D(cat([display(e, v, targs[0] if targs else '')]))
    if path == 'std::str::FromStr::from_str' or (base == 'parse' and 'str' in path):
        ty = targs[0] if targs else ''
        return D(pure('parse<%s>' % ty, e.deref(st, args[0])))

    # ---- formatting ----------------------------------------------------------------------------
    if path.startswith('core::fmt::rt::Argument'):
        v = e.resolve(st, args[0])
        ty = targs[0] if targs else ''
        if base == 'new_display': return D(display(e, v, ty))
        if base == 'from_usize': return D(T('width', v))
        return D(T('hole', base.replace('new_', ''), v, ty, ''))
    if path.startswith('std::fmt::Arguments'):
        if base in ('from_str', 'from_str_nonconst'): return D(cat([args[0]]))
        if base == 'new': return D(decode_args(e, st, args))
    if path in ('std::fmt::format', 'std::fmt::Arguments::<\'a>::to_string'): return D(cat([args[0]]))
    if base in ('write_fmt', 'write_str', 'write_char', 'pad') and ('fmt' in path or 'io::Write' in path) and not is_local(e, c):
        return write(e, st, args, targs, c, t, blk, node, ev)
    if path in ('std::io::_print', 'std::io::_eprint'):
        return D(UNIT, [('print' if base == '_print' else 'eprint', cat([e.resolve(st, args[0])]))])
    if path == 'std::io::Write::write_all': 
        return write(e, st, args, targs, c, t, blk, node, ev)

    # ---- strings -----------------------------------------------------------------------------
    if path in ('std::string::String::new', 'std::string::String::with_capacity'): return D(kstr(''))
    if path.startswith('std::string::String::') and base in ('push', 'push_str', 'insert_str', 'insert', 'clear', 'truncate', 'pop'):
        loc = location(e, st, args[0])
        if loc is None:
            if base == 'truncate': obligation(e, st, blk, node, ev, 'truncate', False, (e.resolve(st, args[0]), args[1]))
            return None
        old = e.read(st, *loc)
        evs = []
        if base in ('push', 'push_str'):
            e.store_to(st, loc[0], loc[1], cat([old, e.deref(st, args[1])]), evs)
            return D(UNIT, evs)
        if base == 'clear':
            e.store_to(st, loc[0], loc[1], kstr(''), evs); return D(UNIT, evs)
        if base in ('insert_str', 'insert') and args[1].op == 'k' and args[1].args[1] == 0:
            e.store_to(st, loc[0], loc[1], cat([e.deref(st, args[2]), old]), evs); return D(UNIT, evs)
        if base == 'truncate':
            obligation(e, st, blk, node, ev, 'truncate', e.prove_le(st, e.length(old), args[1]) or boundary(e, st, old, args[1]), (old, args[1]))
            d = e.sub(e.length(old), args[1])
            ps = list(old.args[0]) if old.op == 'cat' else [old]
            if d.op == 'k' and ps[-1].op == 'k':
                b = ps[-1].args[1].encode()
                if 0 <= d.args[1] <= len(b):
                    try: e.store_to(st, loc[0], loc[1], cat(ps[:-1] + [kstr(b[:len(b) - d.args[1]].decode())]), evs)
                    except UnicodeDecodeError: return None
                    return D(UNIT, evs)
        if base == 'pop':
            ps = list(old.args[0]) if old.op == 'cat' else [old]
            if ps and ps[-1].op == 'k' and ps[-1].args[1]:
                e.store_to(st, loc[0], loc[1], cat(ps[:-1] + [kstr(ps[-1].args[1][:-1])]), evs)
                return D(some(K('char', ps[-1].args[1][-1])), evs)
            e.store_to(st, loc[0], loc[1], pure('str_popped', old), evs)
            return D(pure('str_last', old), evs)
        e.store_to(st, loc[0], loc[1], pure('str_' + base, old, *args[1:]), evs)
        return D(UNIT, evs)
    if path == 'std::ops::AddAssign::add_assign' and 'String' in res:
        loc = location(e, st, args[0])
        evs = []
        e.store_to(st, loc[0], loc[1], cat([e.read(st, *loc), e.deref(st, args[1])]), evs)
        return D(UNIT, evs)
    if path == 'std::ops::Add::add' and 'String' in res: return D(cat([args[0], e.deref(st, args[1])]))
    if re.search(r'str::<impl str>::|string::String::', path):
        v = e.deref(st, args[0])
        if base == 'len': return D(e.length(v))
        if base == 'is_empty': return D(e.eq(e.length(v), kint(0)))
        if base == 'get' and len(args) == 2: return str_get(e, st, v, args[1], t)
        if base in STRFNS:
            a = [e.deref(st, x) for x in args[1:]]
            n = STRFNS[base]
            if n == 'str_contains' and a[0].op == 'clo':
                return model_call(e, st, 'str_contains_fn', [slice_iter(e, pure('chars', v)), a[0]], t, blk, node, ev)
            kv = known(st, v)
            if n in ('starts_with', 'ends_with', 'str_contains') and kv.op == 'k' and a[0].op == 'k' and kv.args[0] == 'str':
                s, p = kv.args[1], a[0].args[1]
                if isinstance(p, str): return D(kbool(s.startswith(p) if n == 'starts_with' else s.endswith(p) if n == 'ends_with' else p in s))
            if n in ('lower', 'ascii_lower') and kv.op == 'k': return D(kstr(kv.args[1].lower()))
            if n == 'eq_ignore_ascii_case' and kv.op == 'k' and a[0].op == 'k' and isinstance(a[0].args[1], str): return D(kbool(kv.args[1].lower() == a[0].args[1].lower()))
            if n == 'is_char_boundary' and char_end(e, st, v, a[0]): return D(TRUE)
            if n == 'strip_prefix': return strip_prefix(e, st, v, a[0], t)
            if base in ('chars', 'bytes', 'char_indices', 'split', 'lines', 'split_whitespace', 'splitn'): return D(slice_iter(e, pure(n, v, *a)))
            if n in ('starts_with', 'str_contains') and a[0].op == 'k' and a[0].args[0] == 'char': a[0] = kstr(a[0].args[1])
            if n == 'ends_with' and a[0].op == 'k' and a[0].args[0] == 'char': a[0] = kstr(a[0].args[1])
            return D(pure(n, v, *a))
        if base in ('as_bytes',): return D(pure('as_bytes', v))
    if path in ('std::string::String::from_utf8_unchecked', 'std::str::from_utf8_unchecked'):
        v = utf8(args[0])
        if v.op == 'slice' and e.opts.get('utf8'): return D(v, [('utf8', v)])
        return D(v)
    if path in ('std::string::String::from_utf8', 'std::str::from_utf8'): return D(pure('from_utf8', args[0]))
    if path == 'std::slice::<impl [T]>::join' or path == 'std::slice::<impl [T]>::concat':
        s = e.resolve(st, args[0])
        sep = e.deref(st, args[1]) if len(args) > 1 else kstr('')
        if s.op == 'seq' and len(s.args[0]) > 1 and s.args[0][0][0] == 's' and all(k == 'i' for k, _ in s.args[0][1:]):
            # items after others: the others are followed by the separator when there are any
            first, last = s.args[0][0][1], join(seq(s.args[0][1:]), sep)
            return fork(e, st, t, e.eq(e.length(first), kint(0)), last, lambda s2: cat([join(first, sep), sep, last]))
        return D(join(s, sep))

    # ---- vectors and slices -----------------------------------------------------------------
    if path in ('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', 'std::vec::Vec::<T, A>::new_in'): return D(EMPTYSEQ)
    if path == 'std::vec::from_elem': return D(pure('repeat', args[0], args[1]))
    if re.search(r'(slice::<impl \[T\]>|vec::Vec::<T, A>|vec::Vec::<T>|VecDeque.*)::', path) or (tr in ('std::ops::Index', 'std::ops::IndexMut') and not is_local(e, c)):
        r = vec_op(e, st, c, base, args, t, blk, node, ev)
        if r is not None: return r
    # ---- maps ---------------------------------------------------------------------------------
    if re.search(r'(HashMap|BTreeMap|HashSet|BTreeSet)', path) and not is_local(e, c):
        r = map_op(e, st, c, base, args, t, blk, node, ev)
        if r is not None: return r
    # ---- integers ----------------------------------------------------------------------------
    if 'core::num::' in path or path.startswith('std::num::') or path.startswith('core::num'):
        if base == 'checked_sub':
            return fork(e, st, t, e.neg(e.lt(args[0], args[1])), some(e.sub(args[0], args[1])), NONE)
        if base in ('wrapping_add',): return D(e.add(args[0], args[1]))
        if base == 'checked_add': pass
    if path == 'core::bool::<impl bool>::then': return None
    return None


def locals_(e): return ()


def is_local(e, c, crate='seam'):
    return c.get('ruid') in e.F.fns and c.get('rkrate') == crate


def caller(st):
    """The innermost frame outside the model library."""
    for f in reversed(st.frames):
        if f.fn.crate != 'models': return f.fn.path
    return '?'


def note_panic(e, st, blk, msg):
    i = len(st.frames) - 1
    while i > 0 and st.frames[i].fn.crate == 'models': i -= 1
    fr = st.frames[i]
    b = st.blk if i == len(st.frames) - 1 else st.frames[i + 1].ctx.args[2]
    sp = fr.fn.blocks[b]['sp']
    key = (fr.fn.uid, b, 'panics')
    o = e.obl.setdefault(key, {'kind': msg, 'fn': fr.fn.path, 'span': sp, 'proved': 0, 'failed': []})
    o['failed'].append(((msg,), dict(st.facts), -1))


def location1(e, st, v):
    """Place a &mut argument refers to (one level)."""
    return v.args if v.op == 'ref' else (T('D', v), ())


def result_err(e, ty):
    i = e.tyinfo(ty)
    if i and i.get('k') == 'adt' and i['path'] == RES: return i['args'][1]
    return None


def wrap_err(e, st, fn, er, t, blk, node, ev):
    r = e.enter(st, fn, [er], t, blk, node, ev, post=('err',))
    return r


def post(e, st, p, v):
    if p[0] == 'err': return err(v)
    if p[0] == 'const': return p[1]
    return v


def known(st, v):
    """The one constant a text is known to be."""
    f = st.facts.get(v)
    if f and f[0] and len(f[1]) == 1:
        k = next(iter(f[1]))
        if k.op == 'k' and k.args[0] == 'str': return k
    return v


def model_call(e, st, name, args, t, blk, node, ev):
    fn = model(e, name)
    if fn is None: raise Exception('no model ' + name)
    return e.enter(st, fn, args, t, blk, node, ev)


def it_step(e, st, base, args, t, blk, node, ev, targs):
    v = args[0]
    if v.op != 'ref':
        h = T('H', st.top.ctx, st.blk, 'it')
        st.store[h] = v
        v = T('ref', h, ())
    root, path = location(e, st, v)
    x = e.read(st, root, path)
    if x.op == 'agg':
        a = x.args[0]
        fn = e.itfn.get((a, base))
        if fn: return e.enter(st, fn, [T('ref', root, path)], t, blk, node, ev)
        if a == 'std::ops::Range': return model_call(e, st, 'range_' + base, [T('ref', root, path)], t, blk, node, ev)
        if a == 'std::ops::RangeFrom': return model_call(e, st, 'range_from_next', [T('ref', root, path)], t, blk, node, ev)
        # a struct of the analysed program that implements Iterator
        for f in e.F.bypath.get('<%s as std::iter::Iterator>::next' % a, []):
            return e.enter(st, f, [T('ref', root, path)], t, blk, node, ev)
        for f in e.F.fns.values():
            if f.trait == 'std::iter::Iterator' and f.name == base and f.self_ty and re.sub(r'<.*', '', f.self_ty) == a:
                return e.enter(st, f, [T('ref', root, path)], t, blk, node, ev)
    # an opaque iterator: a sequence read from its start
    w = slice_iter(e, x)
    e.write(st, root, path, w)
    return e.enter(st, e.itfn[('models::SliceIter', base)], [T('ref', root, path)], t, blk, node, ev)


def collect(e, st, dest, v, t, blk, node, ev, targs):
    D = lambda x: e.done(st, t, x)
    s = fresh_slice(e, v)
    itemty = ''
    if dest.startswith('std::vec::Vec<') or dest.startswith('std::boxed::Box<['):
        if s is not None: return D(s)
        return model_call(e, st, 'collect_vec', [v], t, blk, node, ev)
    if dest.startswith('std::string::String') or dest.startswith('std::boxed::Box<str>'):
        if s is not None and s.op == 'call' and s.args[0] == 'chars': return D(s.args[1][0])
        return model_call(e, st, 'collect_string', [v], t, blk, node, ev)
    if dest.startswith('std::result::Result<'):
        if dest.startswith('std::result::Result<std::string::String'): m = 'collect_result_string'
        elif dest.startswith('std::result::Result<()'): m = 'collect_result_unit'
        elif re.match(r'std::result::Result<std::(vec::Vec|boxed::Box<\[)', dest): m = 'collect_result_vec'
        else: return None
        return model_call(e, st, m, [v], t, blk, node, ev)
    if dest.startswith('std::option::Option<std::vec'):
        return model_call(e, st, 'collect_option_vec', [v], t, blk, node, ev)
    if dest.split('<')[0].endswith('Map'):
        return model_call(e, st, 'collect_map', [v], t, blk, node, ev)
    return D(pure('collect', v))


def default_of(e, ty):
    ty = nty(ty)
    while True:
        m = re.match(r'^std::(cell::RefCell|cell::Cell|rc::Rc|boxed::Box)<(.*)>$', ty)
        if not m: break
        ty = m.group(2)
    if ty.startswith('std::string::String') or ty in ('str', '&str'): return kstr('')
    if ty.startswith('std::vec::Vec') or ty.startswith('['): return EMPTYSEQ
    if ty.startswith('std::option::Option'): return NONE
    if 'Map<' in ty.split(',')[0] or ty.startswith('std::collections::HashMap'): return T('map')
    if ty in ('usize', 'u8', 'i32', 'u32', 'u64', 'i64', 'isize', 'u16'): return kint(0)
    if ty == 'bool': return FALSE
    if ty == '()': return UNIT
    return pure('default<%s>' % ty)


def eq_deep(e, a, b):
    """Equality; on enums, by variant and payload."""
    if a is b: return TRUE
    if a.op == 'agg' and b.op != 'agg': a, b = b, a
    if b.op == 'agg' and a.op != 'agg':
        vs = e.variants(b.args[0])
        if vs and len(vs) > 1:
            r = T('isvar', a, b.args[0], b.args[1])
            for n, x in zip(b.args[2], b.args[3]):
                q = eq_deep(e, e.field(a, b.args[1], n), x)
                r = r if q is TRUE else T('and', r, q)
            return r
        if b.args[0] == '()':
            r = TRUE
            for n, x in zip(b.args[2], b.args[3]):
                q = eq_deep(e, e.field(a, None, n), x)
                r = q if r is TRUE else (r if q is TRUE else T('and', r, q))
            return r
    if a.op == 'agg' and b.op == 'agg' and a.args[0] == b.args[0]:
        if a.args[1] != b.args[1]: return FALSE
        r = TRUE
        for x, y in zip(a.args[3], b.args[3]):
            q = eq_deep(e, x, y)
            if q is FALSE: return FALSE
            r = q if r is TRUE else (r if q is TRUE else T('and', r, q))
        return r
    return e.eq(a, b)


def display(e, v, ty):
    from engine import STRTY
    if STRTY.match(ty): return v if v.op != 'k' or v.args[0] != 'char' else kstr(v.args[1])
    if v.op == 'cat' or (v.op == 'k' and v.args[0] in ('str', 'char')): return v
    if v.op == 'k' and v.args[0] == 'int': return kstr(str(v.args[1]))
    return T('hole', 'display', v, re.sub(r'^(&(mut )?)+', '', ty), '')


def decode_args(e, st, args):
    tm = args[0]
    if tm.op == 'k' and tm.args[0] == 'bytes': b = list(tm.args[1])
    elif tm.op == 'seq': b = [x.args[1] for _, x in tm.args[0]]
    else: return pure('format', *[e.resolve(st, a) for a in args])
    av = e.resolve(st, args[1]) if len(args) > 1 else EMPTYSEQ
    holes = [x for _, x in av.args[0]] if av.op == 'seq' else []
    out = []
    i = 0
    nxt = 0
    while i < len(b):
        n = b[i]; i += 1
        if n == 0: break
        if n < 0x80:
            out.append(kstr(bytes(b[i:i + n]).decode('utf8', 'replace'))); i += n
        elif n == 0x80:
            ln = b[i] | (b[i + 1] << 8); i += 2
            out.append(kstr(bytes(b[i:i + ln]).decode('utf8', 'replace'))); i += ln
        else:
            spec = []
            wid = None
            if n & 1: fl = int.from_bytes(bytes(b[i:i + 4]), 'little'); i += 4; spec.append('f%x' % fl)
            if n & 2:
                w = b[i] | (b[i + 1] << 8); i += 2
                if n & 16 and w < len(holes): spec.append(T('width', holes[w]))
                else: spec.append('w%d' % w)
            if n & 4:
                w = b[i] | (b[i + 1] << 8); i += 2
                spec.append('p%d' % w)
            if n & 8: nxt = b[i] | (b[i + 1] << 8); i += 2
            h = holes[nxt] if nxt < len(holes) else K('opaque', 'hole')
            nxt += 1
            if spec:
                if h.op == 'hole': h = T('hole', h.args[0], h.args[1], h.args[2], tuple(spec))
                else: h = T('hole', 'display', h, 'str', tuple(spec))
            out.append(h)
    return cat(out)


def write(e, st, args, targs, c, t, blk, node, ev):
    """A write to a formatter: appended to a local String, or an event."""
    v = args[0]
    text = cat([e.resolve(st, args[1])])
    if v.op == 'ref':
        root, path = location(e, st, v)
        x = e.read(st, root, path)
    else:
        root, path, x = T('D', v), (), v
    isstr = (targs and targs[0] == 'std::string::String') or x.op == 'cat' or (x.op == 'k' and x.args[0] == 'str')
    if not isstr and root.op == 'L':
        for f in st.frames:
            if f.ctx is root.args[0] and not path and f.fn.locals[root.args[1]][0] == 'std::string::String': isstr = True
    if isstr:
        evs = []
        e.store_to(st, root, path, cat([x, text]), evs)
        return e.done(st, t, ok(UNIT), evs)
    sink = e.placeterm(root, path) if root.op in ('D', 'C') else x
    r = e.resterm(st, 'write', (sink, text))
    return e.done(st, t, r, [('write', sink, text, r)])


def utf8(v):
    if v.op == 'call' and v.args[0] == 'as_bytes': return v.args[1][0]
    if v.op == 'slice' and v.args[0].op == 'call' and v.args[0].args[0] == 'as_bytes': return T('slice', v.args[0].args[1][0], v.args[1], v.args[2])
    return pure('utf8', v)


def join(s, sep):
    if s.op == 'seq' and all(k == 'i' for k, _ in s.args[0]):
        out = []
        for i, (k, x) in enumerate(s.args[0]):
            if i: out.append(sep)
            out.append(x)
        return cat(out)
    return pure('join', s, sep)


def strip_prefix(e, st, v, p, t):
    if p.op == 'k' and p.args[0] == 'char': p = kstr(p.args[1])
    c = pure('starts_with', v, p)
    n = kint(len(p.args[1].encode())) if p.op == 'k' else e.length(p)
    if v.op == 'k' and p.op == 'k':
        s = v.args[1]
        return e.done(st, t, some(kstr(s[len(p.args[1]):])) if s.startswith(p.args[1]) else NONE)
    return fork(e, st, t, c, lambda s: some(e.slice(v, n, e.length(v))), NONE)


def range_bounds(e, st, v, r):
    """(lo, hi) of a range value over sequence v, or None."""
    if r.op == 'agg':
        a = r.args[0].split('::')[-1]
        f = dict(zip(r.args[2], r.args[3]))
        if a == 'Range': return f['start'], f['end']
        if a == 'RangeFrom': return f['start'], e.length(v)
        if a == 'RangeTo': return kint(0), f['end']
        if a == 'RangeFull': return kint(0), e.length(v)
        if a == 'RangeToInclusive': return kint(0), e.add(f['end'], kint(1))
        if a == 'RangeInclusive' and 'start' in f: return f['start'], e.add(f['end'], kint(1))
    if r.op == 'call' and 'RangeInclusive' in r.args[0]: return r.args[1][0], e.add(r.args[1][1], kint(1))
    if r.op == 'k' and r.args[0] == 'zst' and 'RangeFull' in r.args[1]: return kint(0), e.length(v)
    return None


def str_get(e, st, v, r, t):
    b = range_bounds(e, st, v, r)
    if b is None: return e.done(st, t, pure('str_get', v, r))
    lo, hi = b
    return fork(e, st, t, pure('valid_range', v, lo, hi), lambda s: some(e.slice(v, lo, hi)), NONE)


def obligation(e, st, blk, node, ev, kind, proved, desc):
    i = len(st.frames) - 1
    fr = st.frames[i]
    key = (fr.fn.uid, st.blk, kind)
    o = e.obl.setdefault(key, {'kind': kind, 'fn': fr.fn.path, 'span': blk['sp'], 'proved': 0, 'failed': []})
    if proved: o['proved'] += 1
    else:
        o['failed'].append((desc, dict(st.facts), node.id))
        if not e.opts.get('no_panic_exits'): e.exit(node, ev, 'panic', st, None, blk['sp'], extra=(kind,) + desc)


def vec_op(e, st, c, base, args, t, blk, node, ev):
    D = lambda v, evs=(): e.done(st, t, v, evs)
    path, tr = c['path'], c.get('trait') or ''
    targs = c.get('targs', [])
    v = e.deref(st, args[0]) if args else None
    if tr in ('std::ops::Index', 'std::ops::IndexMut'):
        ix = args[1]
        ty = targs[0] if targs else ''
        if ty.split('<')[0].endswith('HashMap'):
            g = map_get(e, st, v, e.resolve(st, ix))
            obligation(e, st, blk, node, ev, 'map-index', g.op == 'agg' and g.args[1] == 'Some', (v, ix))
            return D(e.field(g, 'Some', '0'))
        isstr = bool(re.match(r'^(std::string::String|str|std::boxed::Box<str>)$', ty))
        if not isstr and re.search(r'IndexMut', tr) is None and ('str' == ty): isstr = True
        b = range_bounds(e, st, v, ix)
        if b is None:
            proved = e.prove_lt(st, ix, e.length(v))
            obligation(e, st, blk, node, ev, 'index', proved, (v, ix))
            e.assume(st, e.lt(ix, e.length(v)), True) if e.truth(st, e.lt(ix, e.length(v))) is None else None
            if tr == 'std::ops::IndexMut':
                loc = location(e, st, args[0])
                return D(T('ref', loc[0], loc[1] + (('e', ix),)))
            if args[0].op == 'ref' and e.elem(st, v, ix).op == 'ref':
                loc = location(e, st, args[0])
                return D(T('ref', loc[0], loc[1] + (('e', ix),)))
            return D(e.elem(st, v, ix))
        lo, hi = b
        if isstr:
            proved = str_slice_ok(e, st, v, lo, hi)
            obligation(e, st, blk, node, ev, 'str-slice', proved, (v, lo, hi))
        else:
            proved = e.prove_le(st, lo, hi) and e.prove_le(st, hi, e.length(v))
            obligation(e, st, blk, node, ev, 'slice', proved, (v, lo, hi))
        r = e.slice(v, lo, hi)
        if tr == 'std::ops::IndexMut':
            # all of it is the thing itself; what happens to a part is not followed
            loc = location(e, st, args[0])
            if r is v: return D(T('ref', loc[0], loc[1]))
            e.write(st, loc[0], loc[1], pure('partly_changed', v, r))
        return D(r)
    if base == 'len': return D(e.length(v))
    if base == 'is_empty': return D(e.eq(e.length(v), kint(0)))
    if base in ('get', 'get_mut') and len(args) == 2:
        b = range_bounds(e, st, v, args[1])
        if b:
            lo, hi = b
            cond = T('and', e.neg(e.lt(hi, lo)), e.neg(e.lt(e.length(v), hi))) if e.neg(e.lt(hi, lo)).op != 'k' else e.neg(e.lt(e.length(v), hi))
            return fork(e, st, t, cond, lambda s: some(e.slice(v, lo, hi)), NONE)
        return model_call(e, st, 'slice_' + base, [v if base == 'get' else args[0], args[1]], t, blk, node, ev)
    if base == 'contains' and len(args) == 2:
        x = e.deref(st, args[1])
        if v.op == 'seq' and all(k == 'i' for k, _ in v.args[0]):
            items = [y for _, y in v.args[0]]
            if all(y.op == 'k' for y in items):
                if x.op == 'k': return D(kbool(x in items))
                return D(T('in', x, tuple(items)))
        return D(pure('contains', v, x))
    if base == 'binary_search' and len(args) == 2:
        x = e.deref(st, args[1])
        if v.op == 'seq' and all(k == 'i' and y.op == 'k' for k, y in v.args[0]):
            items = [y for _, y in v.args[0]]
            ks = [y.args[1].encode() if isinstance(y.args[1], str) else y.args[1] for y in items]
            if ks == sorted(ks):
                return fork(e, st, t, T('in', x, tuple(items)), lambda s: ok(pure('index_of', v, x)), lambda s: err(pure('index_for', v, x)))
        return D(pure('binary_search', v, x))
    if base in ('as_slice', 'as_mut_slice', 'to_vec', 'into_boxed_slice'): return D(args[0] if base == 'as_mut_slice' else v)
    if base == 'iter': return D(slice_iter(e, v))
    if base in ('split_first', 'split_last'):
        n = e.length(v)
        if base == 'split_first': f = lambda s: some(tup(e.elem(s, v, kint(0)), e.slice(v, kint(1), n)))
        else: f = lambda s: some(tup(e.elem(s, v, e.sub(n, kint(1))), e.slice(v, kint(0), e.sub(n, kint(1)))))
        return fork(e, st, t, e.eq(n, kint(0)), NONE, f)
    if base == 'split_at':
        obligation(e, st, blk, node, ev, 'split_at', e.prove_le(st, args[1], e.length(v)), (v, args[1]))
        return D(tup(e.slice(v, kint(0), args[1]), e.slice(v, args[1], e.length(v))))
    if base in ('starts_with', 'ends_with', 'concat', 'windows', 'chunks', 'capacity'):
        return D(pure('slice_' + base, v, *[e.deref(st, a) for a in args[1:]]))
    if base in ('shrink_to_fit', 'reserve'): return D(UNIT)
    # mutators
    loc = location(e, st, args[0]) if args else None
    if loc is None: return None
    pt = e.placeterm(*loc)
    evs = []
    W = lambda x: e.write(st, loc[0], loc[1], x)
    if base in ('push', 'push_back'):
        x = e.resolve_shallow(st, args[1]) if hasattr(e, 'resolve_shallow') else args[1]
        W(seq([('s', v), ('i', x)]))
        return D(UNIT, [('push', pt, e.resolve(st, x))])
    if base == 'push_front': W(seq([('i', args[1]), ('s', v)])); return D(UNIT, [('push_front', pt, e.resolve(st, args[1]))])
    if base in ('pop', 'pop_back', 'pop_front'):
        n = e.length(v)
        front = base == 'pop_front'

        def popped(s):
            y = e.elem(s, v, kint(0) if front else e.sub(n, kint(1)))
            if front: nv = e.slice(v, kint(1), n)
            elif v.op == 'seq' and v.args[0] and v.args[0][-1][0] == 'i': nv = seq(v.args[0][:-1])
            else: nv = e.slice(v, kint(0), e.sub(n, kint(1)))
            e.write(s, loc[0], loc[1], nv)
            return some(y)
        outs = fork(e, st, t, e.eq(n, kint(0)), NONE, popped)
        return [(s, [('pop', pt)] + list(x)) for s, x in outs]
    if base == 'clear': W(EMPTYSEQ); return D(UNIT, [('clear', pt)])
    if base == 'insert':
        i = args[1]
        x = args[2]
        obligation(e, st, blk, node, ev, 'insert', e.prove_le(st, i, e.length(v)), (v, i))
        if i.op == 'k' and i.args[1] == 0: W(seq([('i', x), ('s', v)]))
        elif i is e.length(v): W(seq([('s', v), ('i', x)]))
        else: W(seq([('s', e.slice(v, kint(0), i)), ('i', x), ('s', e.slice(v, i, e.length(v)))]))
        return D(UNIT, [('insert_at', pt, i, e.resolve(st, x))])
    if base in ('remove', 'swap_remove'):
        i = args[1]
        obligation(e, st, blk, node, ev, 'remove', e.prove_lt(st, i, e.length(v)), (v, i))
        y = e.elem(st, v, i)
        if base == 'remove':
            if i.op == 'k' and i.args[1] == 0: W(e.slice(v, kint(1), e.length(v)))
            else: W(seq([('s', e.slice(v, kint(0), i)), ('s', e.slice(v, e.add(i, kint(1)), e.length(v)))]))
        else: W(pure('swap_removed', v, i))
        return D(y, [('remove', pt, i)])
    if base == 'truncate': W(pure('truncate', v, args[1])); return D(UNIT, [('truncate', pt, args[1])])
    if base == 'reverse': W(pure('reverse', v)); return D(UNIT, [('reverse', pt)])
    if base in ('sort', 'sort_unstable', 'sort_by', 'sort_by_key', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key'):
        W(pure('sorted', v, *args[1:]))
        return D(UNIT, [('sort', pt, base) + tuple(args[1:])])
    if base in ('dedup', 'dedup_by_key', 'rotate_left', 'rotate_right', 'swap', 'fill', 'resize', 'drain', 'split_off', 'retain', 'dedup_by', 'extend_from_within', 'append', 'splice'):
        W(pure(base, v, *[e.resolve(st, a) for a in args[1:]]))
        return D(pure(base + '_ret', v, *[e.resolve(st, a) for a in args[1:]]) if t[3][2] != '()' else UNIT, [(base, pt)])
    return None


ORDERING = 'std::cmp::Ordering'


def compare(a, b):
    """cmp of two values, as far as it is known."""
    o = lambda n: agg(ORDERING, n, (), ())
    if a.op == 'k' and b.op == 'k' and a.args[0] == b.args[0] == 'int': return o('Equal' if a is b else 'Less' if a.args[1] < b.args[1] else 'Greater')
    if a.op == 'agg' and b.op == 'agg' and a.args[0] == b.args[0] == OPT:
        if a.args[1] == b.args[1] == 'Some': return compare(a.args[3][0], b.args[3][0])
        return o('Equal' if a.args[1] == b.args[1] else 'Less' if a.args[1] == 'None' else 'Greater')
    return pure('cmp', a, b)


def written_out(e, st, m):
    """The entries of a map all of whose keys are known (only where sequences are written out)."""
    if not e.opts.get('unroll'): return None
    chain = []
    while m.op in ('ins', 'rem'): chain.append(m); m = m.args[0]
    if m.op != 'map': return None
    out = {}
    for x in reversed(chain):
        k = constkey(e, st, x.args[1])
        if k is None: return None
        if x.op == 'ins': out[k] = (x.args[1], x.args[2])
        else: out.pop(k, None)
    return out


def constkey(e, st, k):
    k = e.resolve(st, k)
    if k.op == 'k': return k
    f = st.facts.get(k)
    return next(iter(f[1])) if f and f[0] and len(f[1]) == 1 else None


def pairs_of(e, st, v, which='entries'):
    w = written_out(e, st, v)
    if w is None: return pure(which, v)
    pair = lambda k, x: tup(k, x) if which == 'entries' else k if which == 'keys' else x
    return seq([('i', pair(k, x)) for k, x in w.values()])


def map_get(e, st, m, k):
    w = written_out(e, st, m)
    if w is not None:
        c = constkey(e, st, k)
        if c is not None: return some(w[c][1]) if c in w else NONE
    while True:
        if m.op == 'map': return NONE
        if m.op in ('ins', 'rem'):
            q = eq_deep(e, m.args[1], k)
            tr = e.truth(st, q)
            if tr is True: return some(m.args[2]) if m.op == 'ins' else NONE
            if tr is False: m = m.args[0]; continue
        return pure('map_get', m, k)


def map_op(e, st, c, base, args, t, blk, node, ev):
    D = lambda v, evs=(): e.done(st, t, v, evs)
    path = c['path']
    if base in ('new', 'with_capacity'): return D(T('map'))
    m = e.deref(st, args[0])
    k = e.resolve(st, args[1]) if len(args) > 1 else None
    isset = 'Set' in path
    if base in ('get', 'get_key_value') and len(args) == 2: return D(map_get(e, st, m, k))
    if base in ('contains_key', 'contains'):
        g = map_get(e, st, m, k)
        if g.op == 'agg': return D(kbool(g.args[1] == 'Some'))
        return D(T('isvar', g, OPT, 'Some'))
    w = written_out(e, st, m) if base in ('len', 'is_empty') else None
    if w is not None: return D(kint(len(w)) if base == 'len' else kbool(not w))
    if base == 'len': return D(e.length(m))
    if base == 'is_empty': return D(TRUE if m.op == 'map' else e.eq(e.length(m), kint(0)))
    loc = location(e, st, args[0])
    if loc is None: return None
    pt = e.placeterm(*loc)
    W = lambda x: e.write(st, loc[0], loc[1], x)
    if base == 'insert':
        val = args[2] if len(args) > 2 else UNIT
        old = map_get(e, st, m, k)
        W(T('ins', m, k, val))
        return D(old if not isset else e.neg(T('isvar', old, OPT, 'Some')) if old.op != 'agg' else kbool(old.args[1] == 'None'), [('insert', pt, k, e.resolve(st, val))])
    if base in ('remove', 'remove_entry'):
        old = map_get(e, st, m, k)
        W(T('rem', m, k))
        return D(old, [('remove_key', pt, k)])
    if base == 'get_mut':
        g = map_get(e, st, m, k)
        return D(g)
    if base == 'clear': W(T('map')); return D(UNIT, [('clear', pt)])
    return None


def char_end(e, st, v, i):
    """i is one past the start of a character of v known to be ASCII."""
    def whole(b, j):
        while b.op == 'slice': b, j = b.args[0], e.add(b.args[1], j)
        return b, j
    w, i = whole(v, i)
    for tt, f in st.facts.items():
        if f[0] and tt.op == 'elem' and tt.args[0].op == 'call' and tt.args[0].args[0] == 'as_bytes':
            # a byte below 128 is a character
            b, j = whole(tt.args[0].args[1][0], tt.args[1])
            if b is w and (i is j or i is e.add(j, kint(1))) and all(c.op == 'k' and c.args[0] == 'int' and 0 <= c.args[1] < 128 for c in f[1]): return True
        if f[0] and tt.op == 'elem' and tt.args[1] is kint(0):
            b = tt.args[0]
            if b.op == 'call' and b.args[0] == 'chars':
                if b.args[1][0].op != 'slice' or b.args[1][0].args[2] is not e.length(b.args[1][0].args[0]): continue
                b, j = whole(b.args[1][0], kint(0))
                if b is w and e.add(j, kint(1)) is i and all(c.op == 'k' and c.args[0] == 'char' and ord(c.args[1]) < 128 for c in f[1]): return True
    return False


def str_slice_ok(e, st, v, lo, hi):
    """Both ends are character boundaries inside the string."""
    return boundary(e, st, v, lo) and boundary(e, st, v, hi) and e.prove_le(st, lo, hi)


def boundary(e, st, v, i):
    if i.op == 'k' and i.args[1] == 0: return True
    if v.op == 'cat' and v.args[0][-1].op == 'k':
        # in the literal it ends with
        d, s = e.sub(e.length(v), i), v.args[0][-1].args[1]
        if d.op == 'k' and len(s.encode()) - d.args[1] in prefix_boundaries(s): return True
    if i is e.length(v) or char_end(e, st, v, i): return True
    for tt, f in st.facts.items():
        if f[0] and len(f[1]) == 1 and tt.op == 'call' and TRUE in f[1]:
            if tt.args[0] == 'starts_with' and tt.args[1][0] is v:
                p = tt.args[1][1]
                if p.op == 'k' and i.op == 'k' and i.args[1] in prefix_boundaries(p.args[1]): return True
                if e.length(p) is i: return True
            if tt.args[0] == 'is_char_boundary' and tt.args[1] == (v, i): return True
    if v.op == 'k' and i.op == 'k' and v.args[0] == 'str': return i.args[1] in prefix_boundaries(v.args[1])
    f = st.facts.get(v)
    if f and f[0] and i.op == 'k' and all(c.op == 'k' and i.args[1] in prefix_boundaries(c.args[1]) for c in f[1]): return True
    return False


def prefix_boundaries(s):
    out, n = {0}, 0
    for ch in s:
        n += len(ch.encode()); out.add(n)
    return out


def external(e, st, c, args, t, blk, node, ev):
    """A library function without a model."""
    path = c.get('res') or c['path']
    ra = [e.resolve(st, a) for a in args]
    name = path
    if IMPURE.match(path) or IMPURE.match(c['path']):
        r = e.resterm(st, name, ra)
        upd_mut(e, st, args, ra, t, r)
        evn = ('ext', name, tuple(ra), r)
        if t[4] is None:
            e.exit(node, list(ev) + [evn], 'diverge', st, None, blk['sp'], extra=(name, tuple(ra)))
            return []
        return e.done(st, t, UNIT if t[3][2] == '()' else r, [evn])
    hof = any(a.op == 'clo' for a in args)
    e.unknown[(name, hof)] = e.unknown.get((name, hof), 0) + 1
    if t[4] is None:
        e.exit(node, ev, 'diverge', st, None, blk['sp'], extra=(name, tuple(ra)))
        return []
    r = T('call', name, tuple(ra))
    evs = upd_mut(e, st, args, ra, t, r)
    return e.done(st, t, UNIT if t[3][2] == '()' else r, evs)


def upd_mut(e, st, args, ra, t, r):
    evs = []
    for i, a in enumerate(args):
        o = t[2][i]
        ty = o[1][2] if o[0] in ('c', 'm') else (o[1] if o[0] == 'k' else '')
        if isinstance(ty, str) and ty.startswith('&mut') and a.op == 'ref':
            loc = location(e, st, a)
            e.write(st, loc[0], loc[1], T('upd', r, kint(i)))
            if not islocal(loc[0]): evs.append(('mut', e.placeterm(*loc), r))
    return evs
