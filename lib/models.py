"""Models of the core/alloc functions the analysed code calls, for lib/absint.py.

A model takes (I, fr, st, args, site, dty, t) and returns (state, value), None (diverges) or NotImplemented.
Iterators are ('it', count, consumed, item): `count` is an upper bound that is exact unless the item is filtered; an
element is produced for consumed <= count-1 and the end is reached for consumed >= count."""
import lin as L
import re
from absint import mk, TM, USIZE, BOOL, FD, cge, cneg, cand, ceq, INTMAX

OPT = 'core::option::Option'
RES = 'core::result::Result'
CF = 'core::ops::ControlFlow'
MODELS = {}
EMPTY = frozenset()


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


TOTAL = {
    'core::option::Option::<T>::take', 'core::num::<impl u32>::rotate_right', 'core::num::<impl u32>::rotate_left',
    'core::num::<impl u64>::rotate_right', 'core::num::<impl u64>::rotate_left',
    'core::slice::<impl [T]>::contains', 'core::slice::<impl [T]>::reverse',
    'core::tuple::<impl core::cmp::PartialEq for (U, T)>::eq', 'core::cmp::PartialEq::ne',
    'core::array::equality::<impl core::cmp::PartialEq<[U; N]> for [T; N]>::eq',
    'core::num::<impl u64>::wrapping_add', 'core::num::<impl i32>::unsigned_abs',
    'core::num::<impl u32>::saturating_add',
    'core::fmt::Arguments::<\'a>::from_str', 'core::fmt::Arguments::<\'a>::from_str_nonconst',
    'core::option::Option::<T>::is_none', 'alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity',
    'alloc::vec::Vec::<T, A>::clear', 'alloc::vec::Vec::<T, A>::truncate',
    '<alloc::vec::Vec<T, A> as core::clone::Clone>::clone',
    'core::convert::num::<impl core::convert::TryFrom<u32> for i32>::try_from',
    'core::convert::num::ptr_try_from_impls::<impl core::convert::TryFrom<usize> for u32>::try_from',
    'core::slice::<impl [T]>::fill', 'core::mem::replace', 'core::mem::take',
    'core::cmp::PartialOrd::partial_cmp', 'core::option::Option::<T>::as_ref', 'core::option::Option::<T>::as_mut',
}
TOTAL_PREFIX = (
    'core::fmt::', 'libm::', 'core::f64::', 'core::f32::', 'core::num::<impl f64>', 'core::num::<impl f32>',
    'std::f64::<impl f64>', 'std::f32::<impl f32>', 'core::str::', 'core::error::Error::',
    'core::cmp::impls::', 'core::convert::num::', 'core::hash::', 'core::mem::swap', 'alloc::vec::partial_eq::',
)


import re
STD_DERIVED = re.compile(r"^<(core|alloc)::[A-Za-z_:]+(<.*>)? as core::(clone::Clone|cmp::PartialEq|cmp::PartialOrd|cmp::Eq|cmp::Ord|default::Default|hash::Hash|convert::From<.*>)>::")


def is_total(p):
    return p in TOTAL or STD_DERIVED.match(p) is not None or p.startswith(TOTAL_PREFIX) or '::saturating_' in p or '::wrapping_' in p or '::checked_' in p or '::overflowing_' in p


PURE_TRAITS = ('core::ops::', 'core::cmp::', 'multicalc::scalar::', 'core::clone::', 'core::default::', 'core::convert::')
IMPURE = ('core::ops::AddAssign', 'core::ops::Fn')


def pure_trait(tr):
    if tr.startswith('core::ops::Fn') or tr.startswith('core::ops::Deref') or 'Assign' in tr or tr.startswith('multicalc::scalar::function'):
        return False
    return tr.startswith(PURE_TRAITS)


# ------------------------------------------------------------------ helpers
def opt_ty(t):
    return ('adt', OPT, (t,))


def enum(ty, d):
    """d: variant -> (vals, facts, tf)"""
    return ('e', ty, FD({k: (tuple(v[0]), None, frozenset(v[1]), frozenset(v[2])) for k, v in d.items()}))


def some(ty, v):
    return ('s', ty, 1, (v,))


def none(ty):
    return ('s', ty, 0, ())


def as_e(I, st, v, ty=None):
    """enum value as {variant: (vals, facts, tf)}, with its type"""
    if v[0] == 's':
        return v[1], {v[2]: (v[3], EMPTY, EMPTY)}
    if v[0] == 'e':
        return v[1], {k: (x[0], x[2], x[3]) for k, x in v[2].items()}
    ty = v[2] if v[0] == 't' and v[2] is not None else ty
    if ty is None or ty[0] != 'adt' or ty[1] not in I.P.adts:
        return ty, None
    t = I.to_term(v)
    d = {}
    for vi in range(len(I.P.adts[ty[1]]['v'])):
        fs = I.fields_of(ty, vi)
        if fs is None:
            return ty, None
        if any(z[0] == 'var' and z[1] == t and z[2] != vi for z in st.tf):
            continue
        vals = tuple(I.of_term(mk(('fld', vi, i, t, n), ft), ft) for i, (n, ft) in enumerate(fs))
        d[vi] = (vals, EMPTY, frozenset([('var', t, vi)]))
    return ty, d


def enter(I, st, e):
    """state in which variant alternative e=(vals,facts,tf) holds, or None"""
    s = st.copy()
    for f in e[1]:
        if not I.add_fact(s, f):
            return None
    for a in e[2]:
        if a[0] == 'A':
            if I.assume_atom(s, a[1], a[2]) is None:
                return None
        elif a[0] == 'ne':
            s = I.assume(s, ('ne', a[1]), True)
            if s is None:
                return None
        elif a[0] == 'var':
            if any(z[0] == 'var' and z[1] == a[1] and z[2] != a[2] for z in s.tf):
                return None
            s.tf.add(a)
        else:
            s.tf.add(a)
    return s


def join_results(I, rs, key):
    """rs: list of (state, value) from alternatives"""
    rs = [r for r in rs if r is not None]
    if not rs:
        return None
    root = ('L', key, 0)
    out = None
    for n, (s, v) in enumerate(rs):
        s = s.copy()
        s.env[root] = v
        out = s if out is None else I.join(out, s, (key, 'mj', n))
    v = out.env.pop(root)
    return out, v


def deref(I, st, a):
    """value behind a reference argument"""
    if a[0] == 'r':
        return I.read(st, (a[1], a[2]))
    if a[0] == 't' and a[2] is not None and a[2][0] == 'ref':
        return I.root_value(st, ('D', a[1], a[2][2]))
    return a


def loc_of(a):
    if a[0] == 'r':
        return a[1], a[2]
    if a[0] == 't':
        ty = a[2]
        return ('D', a[1], ty[2] if ty is not None and ty[0] == 'ref' else None), ()
    return None


def elem_ref(a, idx, mut=None):
    l = loc_of(a)
    m = a[3] if a[0] == 'r' else (a[2] is not None and a[2][0] == 'ref' and a[2][1] == 'mut')
    return ('r', l[0], l[1] + (('i', idx),), m if mut is None else mut)


def sub_ref(a, lo, hi):
    l = loc_of(a)
    m = a[3] if a[0] == 'r' else (a[2] is not None and a[2][0] == 'ref' and a[2][1] == 'mut')
    return ('r', l[0], l[1] + (('ss', lo, hi, False),), m)


def need(I, fr, st, t, kind, lin_, what):
    I.nchecked += 1
    if I.check_panics and not I.entails(st, lin_):
        I.obl(fr, kind, t['sp'], lin_, st, what)
    I.assume(st, cge(lin_), True)


def fresh_int(I, st, site, tag, ty=USIZE):
    return I.fresh(st, site, tag, ty)[1]


# ------------------------------------------------------------------ iterators
def mk_it(count, item):
    return ('it', count, L.ZERO, item)


def as_it(I, st, v, site=None):
    """iterator value of something that is (into) an iterator, or None"""
    if v[0] == 'it':
        return v
    if v[0] == 's' and v[1] is not None and v[1][0] == 'adt':
        d = v[1][1]
        if d == 'core::ops::Range' and v[3][0][0] == 'i':
            return mk_it(L.sub(v[3][1][1], v[3][0][1]), ('range', v[3][0][1], v[3][1][1]))
        if d == 'core::ops::RangeFrom' and v[3][0][0] == 'i':
            return mk_it(None, ('range', v[3][0][1], None))
    if v[0] == 'rinc':
        return mk_it(L.addc(L.sub(v[2], v[1]), 1), ('range', v[1], L.addc(v[2], 1)))
    if v[0] == 't' and v[2] is not None and v[2][0] == 'adt' and v[2][1] == 'core::ops::Range':
        a, b = (I.to_lin(I.sub_value(st, v, ('f', i, 0, USIZE, n))) for i, n in ((0, 'start'), (1, 'end')))
        return mk_it(L.sub(b, a), ('range', a, b))
    # array by value
    ty = I.arr_ty(v)
    if ty is not None and ty[0] == 'array':
        return mk_it(ty[2], ('val', v))
    # reference to array / slice / vec
    r = v
    if r[0] == 'r' or (r[0] == 't' and r[2] is not None and r[2][0] == 'ref'):
        tgt = deref(I, st, r)
        if tgt[0] == 'it':
            return None
        ty = I.arr_ty(tgt)
        ty = ty or (r[2][2] if r[0] == 't' else None)
        if ty is not None and (ty[0] in ('array', 'slice') or (ty[0] == 'adt' and ty[1].endswith('vec::Vec'))):
            l = loc_of(r)
            return mk_it(I.len_of(st, r), ('slice', l[0], l[1], r[3] if r[0] == 'r' else r[2][1] == 'mut'))
        if tgt[0] == 'vec':
            l = loc_of(r)
            return mk_it(tgt[2], ('slice', l[0], l[1], True))
        if ty is None and r[0] == 'r':
            l = loc_of(r)
            return mk_it(I.len_of(st, r), ('slice', l[0], l[1], r[3]))
    if v[0] in ('s', 'e', 't'):
        ty = v[1] if v[0] in ('s', 'e') else v[2]
        if ty is not None and ty[0] == 'adt' and ty[1] == OPT:
            return mk_it(L.const(1), ('opt', v))
    return None


def norm_it(it):
    """item indexed from the current position"""
    _, c, k, item = it
    if k == L.ZERO:
        return c, item
    return (L.sub(c, k) if c is not None else None), ('skip', item, k)


def item_at(I, fr, st, item, j, site, t):
    """(state, value) of element j, or None when evaluating it diverges"""
    k = item[0]
    if k == 'range':
        st = st.copy()
        x = L.add(item[1], j)
        return st, ('i', x)
    if k == 'slice':
        return st, ('r', item[1], item[2] + (('i', j),), item[3])
    if k == 'val':
        return st, I.sub_value(st, item[1], ('i', j))
    if k == 'skip':
        return item_at(I, fr, st, item[1], L.add(item[2], j), site, t)
    if k == 'rev':
        return item_at(I, fr, st, item[1], L.addc(L.sub(item[2], j), -1), site, t)
    if k == 'enum':
        r = item_at(I, fr, st, item[1], j, (site, 'e'), t)
        if r is None:
            return None
        return r[0], ('s', ('tuple', (USIZE, None)), 0, (('i', j), r[1]))
    if k == 'zip':
        r = item_at(I, fr, st, item[1], j, (site, 'z0'), t)
        if r is None:
            return None
        r2 = item_at(I, fr, r[0], item[2], j, (site, 'z1'), t)
        if r2 is None:
            return None
        return r2[0], ('s', ('tuple', (None, None)), 0, (r[1], r2[1]))
    if k == 'windows':
        return st, ('r', item[1], item[2] + (('ss', j, L.add(j, item[3]), False),), False)
    if k == 'map':
        r = item_at(I, fr, st, item[1], j, (site, 'm'), t)
        if r is None:
            return None
        return I.call_value(fr, r[0], item[2], [r[1]], (site, 'mf'), item[3], t)
    if k == 'copied':
        r = item_at(I, fr, st, item[1], j, (site, 'c'), t)
        if r is None:
            return None
        return r[0], deref(I, r[0], r[1])
    if k == 'filter':
        # element at an unknown later position of the underlying iterator
        jj = fresh_int(I, st, (site, 'flt'), 'j')
        st = st.copy()
        st.facts.add(L.sub(jj, j))
        if item[3] is not None:
            st.facts.add(L.addc(L.sub(item[3], jj), -1))
        r = item_at(I, fr, st, item[1], jj, (site, 'fi'), t)
        if r is None:
            return None
        if item[2] is None:
            return r
        root = ('L', ('flt', site), 0)
        r[0].env[root] = r[1]
        c = I.call_value(fr, r[0], item[2], [('r', root, (), False)], (site, 'ff'), BOOL, t)
        if c is None:
            return None
        s = I.assume(c[0], I.cond(c[1]))
        if s is None:
            return None
        return s, r[1]
    if k == 'chain':
        # element of either part
        rs = []
        s1 = I.assume(st, cge(L.addc(L.sub(item[2], j), -1))) if item[2] is not None else st.copy()
        if s1 is not None:
            rs.append(item_at(I, fr, s1, item[1], j, (site, 'c1'), t))
        if item[2] is not None:
            s2 = I.assume(st, cge(L.sub(j, item[2])))
            if s2 is not None:
                rs.append(item_at(I, fr, s2, item[3], L.sub(j, item[2]), (site, 'c2'), t))
        return join_results(I, rs, ('chain', site))
    if k == 'opt':
        ty, d = as_e(I, st, item[1])
        if d is not None and 1 in d:
            s = enter(I, st, d[1])
            if s is None:
                return None
            return s, d[1][0][0]
    ty = item[1] if k == 'opaque' else None
    return st, I.fresh(st, (site, 'item'), 'x', ty)


def nonneg(c):
    return c


@model('<I as core::iter::IntoIterator>::into_iter', 'core::iter::IntoIterator::into_iter',
       'core::slice::iter::<impl core::iter::IntoIterator for &\'a [T]>::into_iter',
       'core::slice::iter::<impl core::iter::IntoIterator for &\'a mut [T]>::into_iter',
       'core::array::iter::<impl core::iter::IntoIterator for [T; N]>::into_iter',
       'core::array::<impl core::iter::IntoIterator for &\'a [T; N]>::into_iter',
       'core::array::<impl core::iter::IntoIterator for &\'a mut [T; N]>::into_iter',
       '<&\'a alloc::vec::Vec<T, A> as core::iter::IntoIterator>::into_iter',
       '<&\'a mut alloc::vec::Vec<T, A> as core::iter::IntoIterator>::into_iter',
       'core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut',
       'core::option::Option::<T>::into_iter', 'core::option::Option::<T>::iter')
def m_into_iter(I, fr, st, args, site, dty, t):
    it = as_it(I, st, args[0], site)
    if it is None:
        if args[0][0] == 'r' and deref(I, st, args[0])[0] == 'it':
            return st, args[0]
        return st, mk_it(None, ('opaque', item_ty(I, dty)))
    return st, it


def item_ty(I, ty):
    if ty is not None and ty[0] == 'adt':
        if ty[1] in ('core::slice::Iter', 'core::slice::IterMut') and ty[2]:
            return ('ref', 'mut' if 'Mut' in ty[1] else 'shared', ty[2][-1])
        if ty[1] == 'core::array::IntoIter':
            return ty[2][0]
    return None


def take_it(I, st, a):
    it = as_it(I, st, a)
    if it is None and a[0] == 'r':
        x = deref(I, st, a)
        if x[0] == 'it':
            return x
        if x[0] in ('s', 'rinc'):
            it = as_it(I, st, x)
    return it if it is not None else mk_it(None, ('opaque', None))


def _bits(n):
    def m(I, fr, st, args, site, dty, t):
        return st, ('i', L.var(mk(('bits', n, I.to_term(args[0]), t['f']['d'].rsplit('::', 1)[1]), dty)))
    return m


for _n in (8, 16, 32, 64):
    for _m in ('leading_zeros', 'trailing_zeros', 'count_ones', 'count_zeros'):
        MODELS['core::num::<impl u%d>::%s' % (_n, _m)] = _bits(_n)


@model('core::iter::Iterator::enumerate')
def m_enum(I, fr, st, args, site, dty, t):
    c, item = norm_it(take_it(I, st, args[0]))
    return st, mk_it(c, ('enum', item))


@model('core::iter::Iterator::rev')
def m_rev(I, fr, st, args, site, dty, t):
    c, item = norm_it(take_it(I, st, args[0]))
    if c is None:
        return st, mk_it(None, ('opaque', None))
    return st, mk_it(c, ('rev', item, c))


@model('core::iter::Iterator::skip')
def m_skip(I, fr, st, args, site, dty, t):
    c, item = norm_it(take_it(I, st, args[0]))
    n = I.to_lin(args[1])
    return st, mk_it(L.sub(c, n) if c is not None else None, ('skip', item, n))


def lmin(I, st, a, b, site):
    if a is None:
        return b
    if b is None:
        return a
    if I.entails(st, L.sub(b, a)):
        return a
    if I.entails(st, L.sub(a, b)):
        return b
    t = mk(('min', a, b) if a <= b else ('min', b, a), ('int', 'i128'))
    st.facts.add(L.sub(a, L.var(t)))
    st.facts.add(L.sub(b, L.var(t)))
    return L.var(t)


@model('core::iter::Iterator::take')
def m_take(I, fr, st, args, site, dty, t):
    c, item = norm_it(take_it(I, st, args[0]))
    return st, mk_it(lmin(I, st, c, I.to_lin(args[1]), site), item)


@model('core::iter::Iterator::zip')
def m_zip(I, fr, st, args, site, dty, t):
    c, item = norm_it(take_it(I, st, args[0]))
    c2, item2 = norm_it(take_it(I, st, args[1]))
    return st, mk_it(lmin(I, st, c, c2, site), ('zip', item, item2))


@model('core::iter::Iterator::chain')
def m_chain(I, fr, st, args, site, dty, t):
    c, item = norm_it(take_it(I, st, args[0]))
    c2, item2 = norm_it(take_it(I, st, args[1]))
    if c is None or c2 is None or not I.entails(st, c):
        return st, mk_it(None, ('opaque', None))
    return st, mk_it(L.add(c, c2), ('chain', item, c, item2))


@model('core::iter::Iterator::copied', 'core::iter::Iterator::cloned')
def m_copied(I, fr, st, args, site, dty, t):
    c, item = norm_it(take_it(I, st, args[0]))
    return st, mk_it(c, ('copied', item))


@model('core::iter::Iterator::map')
def m_map(I, fr, st, args, site, dty, t):
    c, item = norm_it(take_it(I, st, args[0]))
    return st, mk_it(c, ('map', item, args[1], None))


@model('core::iter::Iterator::filter')
def m_filter(I, fr, st, args, site, dty, t):
    c, item = norm_it(take_it(I, st, args[0]))
    return st, mk_it(None, ('filter', item, args[1], c))


def callback(I, fr, st, cv, site, t):
    """analyse a function value that is handed to something that may call it any number of times with anything"""
    from absint import Frame
    v = cv
    if v[0] == 'r':
        v = I.read(st, (v[1], v[2]))
    if v[0] == 'cl':
        fn = I.P.fns[v[1]]
        s = st.copy()
        I.havoc_val(s, v, (site, 'cb'))
        f2 = Frame(fn, dict(v[2]), I.ctxterm((site, v[1], 'prm')), fr.depth + 1, fr)
        a = []
        for i in range(2, fn.argc + 1):
            a.append(I.fresh(s, (site, 'prm', i), 'p', I.ty(f2, fn.lty(i))))
        I.call_value(fr, s, cv, a, (site, 'cbk'), None, t)
    elif v[0] == 'fn':
        fn = I.P.fns.get(v[1][2])
        s = st.copy()
        if fn is not None and fn.body:
            f2 = Frame(fn, I.callee_subst(fn, v[1][3]), I.ctxterm((site, fn.id, 'prm')), fr.depth + 1, fr)
            a = [I.fresh(s, (site, 'prm', i), 'p', I.ty(f2, fn.lty(i))) for i in range(1, fn.argc + 1)]
        else:
            a = []
            if v[1][1] not in I.models and not is_total(v[1][1]) and not ext_total(v[1][1]) and I.check_panics:
                I.obl(fr, 'external ' + v[1][1], t['sp'], L.const(-1), st, 'function value without a model: ' + v[1][1])
            return
        I.call_value(fr, s, cv, a, (site, 'cbk'), None, t)
    elif v[0] == 'it':
        walk_item(I, fr, st, v[3], (site, 'itm'), t)


def walk_item(I, fr, st, item, site, t):
    if item[0] in ('map', 'filter'):
        walk_item(I, fr, st, item[1], (site, 0), t)
        j = fresh_int(I, st, (site, 'each'), 'j')
        s = st.copy()
        I.havoc_item(s, item, (site, 'items'))
        s.facts.add(j)
        item_at(I, fr, s, item, j, (site, 'wi'), t)
    elif item[0] in ('enum', 'skip', 'rev', 'copied'):
        walk_item(I, fr, st, item[1], (site, 0), t)
    elif item[0] == 'zip':
        walk_item(I, fr, st, item[1], (site, 0), t)
        walk_item(I, fr, st, item[2], (site, 1), t)
    elif item[0] == 'chain':
        walk_item(I, fr, st, item[1], (site, 0), t)
        walk_item(I, fr, st, item[3], (site, 1), t)


@model('core::iter::Iterator::flatten', 'core::iter::Iterator::flat_map', 'core::iter::Iterator::filter_map', 'core::iter::Iterator::scan',
       'core::iter::Iterator::map_while', 'core::iter::Iterator::cycle', 'core::iter::Iterator::peekable', 'core::iter::Iterator::fuse')
def m_flatten(I, fr, st, args, site, dty, t):
    it = take_it(I, st, args[0])
    m = t['f']['m'] if t['f'] else ''
    if m == 'fuse':
        return st, it
    if m == 'peekable':
        return st, it
    cl = args[-1] if len(args) > 1 else None

    def f(s, x):
        if cl is None:
            return
        a = [x]
        if m == 'scan':
            s.env[('L', ('scan', site), 0)] = I.fresh(s, (site, 'scan'), 'a', None)
            a = [('r', ('L', ('scan', site), 0), (), True), x]
        I.call_value(fr, s, cl, a, (site, 'cb'), None, t)
    st2 = each(I, fr, st, it, site, t, f, cl)
    return st2, mk_it(None, ('opaque', None))


@model('core::iter::Iterator::take_while', 'core::iter::Iterator::skip_while', 'core::iter::Iterator::inspect')
def m_while(I, fr, st, args, site, dty, t):
    it = take_it(I, st, args[0])
    c, item = norm_it(it)
    cl = args[1]

    def f(s, x):
        root = ('L', ('eachref', site), 0)
        s.env[root] = x
        I.call_value(fr, s, cl, [('r', root, (), False)], (site, 'cb'), None, t)
    st2 = each(I, fr, st, it, site, t, f, cl)
    m = t['f']['m'] if t['f'] else ''
    if m == 'inspect':
        return st2, mk_it(c, item)
    return st2, mk_it(None, ('filter', item, None, c))


@model('core::iter::Iterator::step_by')
def m_step(I, fr, st, args, site, dty, t):
    need(I, fr, st, t, 'zero step', L.addc(I.to_lin(args[1]), -1), 'step is not zero')
    c, item = norm_it(take_it(I, st, args[0]))
    return st, mk_it(None, ('filter', item, None, c))


@model('core::slice::<impl [T]>::windows')
def m_windows(I, fr, st, args, site, dty, t):
    n = I.to_lin(args[1])
    need(I, fr, st, t, 'windows(0)', L.addc(n, -1), 'window size is not zero')
    l = loc_of(args[0])
    return st, mk_it(L.addc(L.sub(I.len_of(st, args[0]), n), 1), ('windows', l[0], l[1], n))


@model('core::iter::range::<impl core::iter::Iterator for core::ops::Range<A>>::next',
       'core::iter::range::<impl core::iter::Iterator for core::ops::RangeInclusive<A>>::next',
       '<core::iter::Enumerate<I> as core::iter::Iterator>::next', '<core::slice::Iter<\'a, T> as core::iter::Iterator>::next',
       '<core::slice::IterMut<\'a, T> as core::iter::Iterator>::next', '<core::iter::Zip<A, B> as core::iter::Iterator>::next',
       '<core::iter::Take<I> as core::iter::Iterator>::next', '<core::iter::Skip<I> as core::iter::Iterator>::next',
       '<core::iter::Rev<I> as core::iter::Iterator>::next', '<core::iter::Chain<A, B> as core::iter::Iterator>::next',
       '<core::array::IntoIter<T, N> as core::iter::Iterator>::next', '<core::iter::Map<B, I, F> as core::iter::Iterator>::next',
       '<core::iter::Map<I, F> as core::iter::Iterator>::next', '<core::iter::Filter<I, P> as core::iter::Iterator>::next',
       '<core::iter::Copied<I> as core::iter::Iterator>::next', '<core::slice::Windows<\'a, T> as core::iter::Iterator>::next',
       '<core::iter::Flatten<I> as core::iter::Iterator>::next', 'core::iter::Iterator::next',
       '<core::iter::Cloned<I> as core::iter::Iterator>::next', '<core::slice::Chunks<\'a, T> as core::iter::Iterator>::next')
def m_next(I, fr, st, args, site, dty, t):
    loc = loc_of(args[0])
    v = I.read(st, loc)
    it = as_it(I, st, v)
    ty = dty if dty is not None and dty[0] == 'adt' else opt_ty(None)
    if it is None:
        I.write(st, loc, mk_it(None, ('opaque', None)))
        it = mk_it(None, ('opaque', None))
    _, c, k, item = it
    if k is None:
        k = fresh_int(I, st, (site, 'k'), 'k')
    if item[0] == 'opaque' and item[1] is None:
        item = ('opaque', ty[2][0] if ty[2] else None)
    I.write(st, loc, ('it', c, L.addc(k, 1), item))
    facts = [k]
    nf = []
    if c is not None:
        facts.append(L.addc(L.sub(c, k), -1))
        nf.append(L.sub(k, c))
    s = st.copy()
    for f in facts:
        if not I.add_fact(s, f):
            return st, none(ty)
    base = set(s.facts)
    r = item_at(I, fr, s, item, k, (site, 'it'), t)
    if r is None:
        return st, none(ty)
    s2, val = r
    simple = item_simple(item)
    sf = frozenset(facts) | (frozenset(s2.facts - st.facts) if not simple else EMPTY)
    if simple:
        # evaluating the item has no effect besides naming it
        d = {1: ((val,), sf | frozenset(s2.facts - base), s2.tf - st.tf)}
        d[0] = ((), nf, ())
        return st, enum(ty, d)
    # general: join the two alternatives
    s0 = st.copy()
    ok0 = all(I.add_fact(s0, f) for f in nf)
    rs = [(s2, some(ty, val))]
    if ok0:
        rs.append((s0, none(ty)))
    return join_results(I, rs, ('next', site))


@model('core::iter::DoubleEndedIterator::next_back')
def m_next_back(I, fr, st, args, site, dty, t):
    loc = loc_of(args[0])
    it = as_it(I, st, I.read(st, loc))
    ty = dty if dty is not None and dty[0] == 'adt' else opt_ty(None)
    if it is None:
        I.write(st, loc, mk_it(None, ('opaque', None)))
        return st, I.fresh(st, site, 'r', dty)
    _, c, k, item = it
    if c is None or item[0] in ('filter', 'opaque') or not item_simple(item):
        st = each(I, fr, st, it, site, t, lambda s, x: None)
        I.write(st, loc, mk_it(None, ('opaque', None)))
        return st, I.fresh(st, site, 'r', dty)
    # the last element; the shortened iterator forgets how many are left (they stay within the same bounds)
    I.write(st, loc, ('it', L.addc(c, -1), k, item))
    if k is None:
        k = fresh_int(I, st, (site, 'k'), 'k')
    last = L.addc(c, -1)
    r = item_at(I, fr, st.copy(), item, last, (site, 'it'), t)
    if r is None:
        return st, none(ty)
    return st, enum(ty, {1: ((r[1],), (L.sub(last, k), k), ()), 0: ((), (L.sub(k, c),), ())})


def item_simple(item):
    k = item[0]
    if k in ('range', 'slice', 'val', 'windows', 'opaque'):
        return True
    if k in ('skip', 'rev', 'enum', 'copied'):
        return item_simple(item[1])
    if k == 'zip':
        return item_simple(item[1]) and item_simple(item[2])
    return False


def each(I, fr, st, it, site, t, f, extra=None):
    """run f(state, item) once at an arbitrary position, with everything the callee may write forgotten;
    returns the state after the whole traversal"""
    c, item = norm_it(it)
    j = fresh_int(I, st, (site, 'each'), 'j')
    s = st.copy()
    if extra is not None:
        I.havoc_val(s, extra, (site, 'cap'))
    I.havoc_item(s, item, (site, 'items'))
    out = s.copy()
    s.facts.add(j)
    if c is not None:
        if not I.add_fact(s, L.addc(L.sub(c, j), -1)):
            return st
    r = item_at(I, fr, s, item, j, (site, 'ea'), t)
    if r is not None:
        f(r[0], r[1])
    return out


def unit_item(I, st, it, args):
    if args[0][0] == 'r' and deref(I, st, args[0])[0] == 'it':
        I.write(st, loc_of(args[0]), mk_it(None, ('opaque', None)))


def m_closure_each(I, fr, st, args, site, dty, t):
    it = take_it(I, st, args[0])
    cl = args[-1]
    meth = t['f']['m'] if t['f'] else ''
    byref = meth in ('find', 'max_by_key', 'min_by_key', 'partition', 'max_by', 'min_by', 'is_sorted_by', 'is_partitioned')
    two = meth in ('max_by', 'min_by', 'reduce', 'is_sorted_by')

    def f(s, x):
        a = []
        if meth in ('fold', 'try_fold', 'rfold', 'try_rfold'):
            ity = I.opty(fr, t['a'][1])
            acc = I.fresh(s, (site, 'acc'), 'a', ity)
            a.append(acc)
        b = [x]
        if two:
            c, item = norm_it(it)
            j2 = fresh_int(I, s, (site, 'each2'), 'j')
            s.facts.add(j2)
            if c is not None:
                I.add_fact(s, L.addc(L.sub(c, j2), -1))
            r2 = item_at(I, fr, s, item, j2, (site, 'ea2'), t)
            if r2 is None:
                return
            s, y = r2
            b = [I.fresh(s, (site, 'red'), 'a', _ty_of(I, s, x)) if meth == 'reduce' else y, x]
        if byref:
            for n, y in enumerate(b):
                root = ('L', ('eachref', site), n)
                s.env[root] = y
                b[n] = ('r', root, (), False)
        I.call_value(fr, s, cl, a + b, (site, 'cb'), None, t)
    st2 = each(I, fr, st, it, site, t, f, cl)
    unit_item(I, st2, it, args)
    c = norm_it(it)[0]
    if meth in ('position', 'rposition') and c is not None:
        p = fresh_int(I, st2, (site, 'pos'), 'p')
        return st2, enum(dty, {0: ((), (), ()), 1: ((('i', p),), (p, L.addc(L.sub(c, p), -1)), ())})
    if meth in ('find', 'rfind', 'max_by', 'min_by', 'max_by_key', 'min_by_key') and dty is not None:
        r = some_item(I, fr, st2, it, site, dty, t)
        if r is not None:
            return r
    if meth in ('any', 'all'):
        return st2, I.fresh(st2, site, 'r', BOOL)
    return st2, I.fresh(st2, site, 'r', dty)


def _ty_of(I, st, x):
    if x[0] == 'i':
        return I.lin_ty(x[1]) or USIZE
    if x[0] in ('s', 'e'):
        return x[1]
    if x[0] == 't':
        return x[2]
    if x[0] == 'b':
        return BOOL
    return None


def some_item(I, fr, st2, it, site, dty, t):
    """Option of one of the items"""
    c, item = norm_it(it)
    if not item_simple(item):
        return None
    j = fresh_int(I, st2, (site, 'fnd'), 'j')
    facts = [j] + ([L.addc(L.sub(c, j), -1)] if c is not None else [])
    r = item_at(I, fr, st2.copy(), item, j, (site, 'fi'), t)
    if r is None:
        return None
    return st2, enum(dty, {0: ((), (), ()), 1: ((r[1],), facts, ())})


for _n in ('any', 'all', 'fold', 'for_each', 'find', 'position', 'rposition', 'max_by', 'min_by', 'max_by_key', 'min_by_key', 'rfold', 'try_fold',
           'try_for_each', 'find_map', 'reduce', 'partition', 'is_sorted_by', 'rfind', 'is_partitioned'):
    MODELS['core::iter::Iterator::%s' % _n] = m_closure_each


@model('core::iter::Iterator::count', 'core::iter::Iterator::sum', 'core::iter::Iterator::last', 'core::iter::Iterator::max', 'core::iter::Iterator::min',
       'core::iter::Iterator::product', 'core::iter::Iterator::collect', 'core::iter::Iterator::nth', 'core::iter::Iterator::unzip', 'core::iter::Iterator::eq',
       'core::iter::Iterator::nth_back', 'core::iter::Iterator::is_sorted', 'core::iter::Iterator::cmp', 'core::iter::Iterator::partial_cmp',
       'core::iter::Iterator::ne', 'core::iter::Iterator::size_hint')
def m_consume(I, fr, st, args, site, dty, t):
    it = take_it(I, st, args[0])
    meth = t['f']['m'] if t['f'] else ''
    if meth in ('collect', 'eq', 'size_hint') and it[3][0] == 'opaque' and it[1] is None and len(args) > 1:
        return NotImplemented
    st = each(I, fr, st, it, site, t, lambda s, x: None)
    if meth not in ('size_hint',):
        unit_item(I, st, it, args)
    if meth in ('last', 'max', 'min', 'nth', 'nth_back') and dty is not None and dty[0] == 'adt' and dty[1] == OPT:
        r = some_item(I, fr, st, it, site, dty, t)
        if r is not None:
            return r
    if meth == 'count' and it[1] is not None and it[2] == L.ZERO and it[3][0] not in ('filter', 'opaque') and I.entails(st, it[1]):
        return st, ('i', it[1])
    if meth == 'count' and it[3][0] == 'filter' and it[3][3] is not None:
        r = fresh_int(I, st, (site, 'cnt'), 'n')
        st.facts.add(r)
        if I.entails(st, it[3][3]):
            st.facts.add(L.sub(it[3][3], r))
        return st, ('i', r)
    return st, I.fresh(st, site, 'r', dty)


@model('core::iter::ExactSizeIterator::len')
def m_exact_len(I, fr, st, args, site, dty, t):
    it = take_it(I, st, args[0])
    c, item = norm_it(it)
    if c is not None and item[0] != 'filter' and I.entails(st, c):
        return st, ('i', c)
    return st, I.fresh(st, site, 'r', dty)


@model('core::iter::zip')
def m_zip_fn(I, fr, st, args, site, dty, t):
    return MODELS['core::iter::Iterator::zip'](I, fr, st, args, site, dty, t)


ITER_PATH = re.compile(r"^(?:<(?:core|alloc|std)::.* as core::iter::(?:traits::\w+::\w+::)?(\w*Iterator)>|<&mut I as core::iter::(\w*Iterator)>|(?:core|alloc)::.*<impl core::iter::(\w*Iterator) for .*>)::(\w+)$")
BACK = {'rfind': 'find', 'rposition': 'position'}


def iter_model(path):
    """model of an iterator method, whichever adapter it is implemented on"""
    m = ITER_PATH.match(path)
    if m is None:
        return None
    tr = m.group(1) or m.group(2) or m.group(3)
    meth = m.group(4)
    if tr == 'IntoIterator':
        return MODELS['core::iter::IntoIterator::into_iter'] if meth == 'into_iter' else None
    return MODELS.get('core::iter::%s::%s' % (tr, meth)) or MODELS.get('core::iter::Iterator::' + meth)


for _n in ('rfold', 'rfind', 'nth_back', 'try_rfold'):
    MODELS['core::iter::DoubleEndedIterator::' + _n] = MODELS['core::iter::Iterator::' + BACK.get(_n, _n)] if _n != 'try_rfold' else m_closure_each

# Methods of core and alloc whose documentation names a panic (or whose integer form can overflow); everything else there
# returns for all arguments.
PANICKY = set("""advance array_chunks array_windows as_chunks as_rchunks as_flattened as_flattened_mut borrow borrow_mut chunks chunks_exact chunks_exact_mut
chunks_mut clamp clone_from_slice copy_from_slice copy_within drain expect expect_err extend_from_within from_digit from_str_radix get_or_init
get_mut_or_init index index_mut insert into_flattened is_digit panic panic_fmt panic_display panic_explicit panic_str_2015 rchunks rchunks_exact
rchunks_exact_mut rchunks_mut remove repeat replace_range resume rotate_left rotate_right rsplit_array_mut rsplit_array_ref select_nth_unstable
select_nth_unstable_by select_nth_unstable_by_key sort sort_by sort_by_cached_key sort_by_key sort_unstable sort_unstable_by sort_unstable_by_key splice
split_array_mut split_array_ref split_at split_at_mut split_off step_by swap swap_remove swap_with_slice unreachable unwrap unwrap_err unwrap_failed
expect_failed windows assert_failed from_secs_f32 from_secs_f64 strict_add strict_sub strict_mul strict_div exit abort""".split())
INT_OK = set("""abs_diff min max leading_zeros trailing_zeros count_ones count_zeros is_power_of_two signum midpoint unsigned_abs swap_bytes reverse_bits to_be_bytes
to_le_bytes to_ne_bytes from_be_bytes from_le_bytes from_ne_bytes isqrt rotate_left rotate_right is_positive is_negative cmp partial_cmp eq ne lt le gt ge
is_multiple_of wrapping_neg leading_ones trailing_ones bit_width cast_signed cast_unsigned clone hash""".split())
INT_IMPL = re.compile(r"<impl (?:core::ops::\w+(?:<.*>)? for )?&?'?\w*\s?(?:[ui](?:8|16|32|64|128|size))>|<[ui](?:8|16|32|64|128|size) as ")


def ext_total(path):
    meth = path.rsplit('::', 1)[-1]
    if not path.startswith(('core::', 'alloc::', '<core::', '<alloc::', '<&', '<(', '<[', '<f64', '<f32', '<usize', '<u32', '<u64', '<i32', '<bool')):
        return False
    if INT_IMPL.search(path):
        return meth in INT_OK
    return meth not in PANICKY


@model('core::array::from_fn')
def m_from_fn(I, fr, st, args, site, dty, t):
    n = dty[2] if dty is not None and dty[0] == 'array' else None
    cl = args[0]
    j = fresh_int(I, st, (site, 'ff'), 'j')
    s = st.copy()
    I.havoc_val(s, cl, (site, 'cap'))
    out = s.copy()
    res = None
    if I.add_fact(s, j) and (n is None or I.add_fact(s, L.addc(L.sub(n, j), -1))):
        r = I.call_value(fr, s, cl, [('i', j)], (site, 'cb'), dty[1] if dty else None, t)
        if r is not None and dty is not None and I.has_int(dty[1]):
            s2 = r[0].copy()
            m = I.make_arr(s2, dty, r[1], n)
            if m is not None:
                # keep only facts that do not mention the element position
                res = m
    if res is not None:
        return out, res
    return out, I.fresh(out, site, 'r', dty)


@model('core::array::<impl [T; N]>::map')
def m_arr_map(I, fr, st, args, site, dty, t):
    it = as_it(I, st, args[0])
    cl = args[1]
    st2 = each(I, fr, st, it, site, t, lambda s, x: I.call_value(fr, s, cl, [x], (site, 'cb'), None, t), cl)
    return st2, I.fresh(st2, site, 'r', dty)


# ------------------------------------------------------------------ ranges
@model('core::ops::RangeInclusive::<Idx>::new')
def m_rinc(I, fr, st, args, site, dty, t):
    if args[0][0] == 'i' and args[1][0] == 'i':
        return st, ('rinc', args[0][1], args[1][1])
    return NotImplemented


# ------------------------------------------------------------------ slices
@model('core::slice::<impl [T]>::len')
def m_len(I, fr, st, args, site, dty, t):
    return st, ('i', I.len_of(st, args[0]))


@model('alloc::vec::Vec::<T, A>::len')
def m_vlen(I, fr, st, args, site, dty, t):
    return st, ('i', vec_len(I, st, args[0]))


def vec_len(I, st, a):
    v = deref(I, st, a)
    if v[0] == 'vec':
        return v[2]
    return L.var(mk(('len', I.to_term(v)), USIZE))


@model('core::slice::<impl [T]>::is_empty', 'alloc::vec::Vec::<T, A>::is_empty')
def m_is_empty(I, fr, st, args, site, dty, t):
    n = vec_len(I, st, args[0]) if 'Vec' in (t['f'] or {}).get('d', '') else I.len_of(st, args[0])
    return st, ('b', ceq(n))


def get_model(checked):
    def m(I, fr, st, args, site, dty, t):
        a, ix = args
        isvec = 'Vec' in (t['f'] or {}).get('d', '') or 'Vec' in (t['f'] or {}).get('r', '')
        n = vec_len(I, st, a) if isvec else I.len_of(st, a)
        if ix[0] == 'i':
            i = ix[1]
            ref = elem_ref(a, i)
            if not checked:
                need(I, fr, st, t, 'bounds', L.addc(L.sub(n, i), -1), 'index in bounds')
                return st, ref
            return st, enum(dty, {0: ((), (L.sub(i, n),), ()), 1: ((ref,), (L.addc(L.sub(n, i), -1),), ())})
        lo, hi = range_bounds(I, st, ix, n)
        if lo is None:
            if checked:
                return st, I.fresh(st, site, 'r', dty)
            return NotImplemented
        ref = sub_ref(a, lo, hi)
        if not checked:
            need(I, fr, st, t, 'slice', L.sub(hi, lo), 'slice start not after its end')
            need(I, fr, st, t, 'slice', L.sub(n, hi), 'slice end in bounds')
            return st, ref
        return st, enum(dty, {0: ((), (), ()), 1: ((ref,), (L.sub(n, hi), L.sub(hi, lo)), ())})
    return m


def range_bounds(I, st, v, n):
    if v[0] == 'rinc':
        return v[1], L.addc(v[2], 1)
    if v[0] == 's' and v[1] is not None and v[1][0] == 'adt':
        d = v[1][1]
        if d == 'core::ops::Range':
            return I.to_lin(v[3][0]), I.to_lin(v[3][1])
        if d == 'core::ops::RangeTo':
            return L.ZERO, I.to_lin(v[3][0])
        if d == 'core::ops::RangeFrom':
            return I.to_lin(v[3][0]), n
        if d == 'core::ops::RangeFull':
            return L.ZERO, n
    return None, None


for _n in ('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut'):
    MODELS[_n] = get_model(True)
for _n in ('<alloc::vec::Vec<T, A> as core::ops::Index<I>>::index', '<alloc::vec::Vec<T, A> as core::ops::IndexMut<I>>::index_mut',
           'core::array::<impl core::ops::Index<I> for [T; N]>::index', 'core::array::<impl core::ops::IndexMut<I> for [T; N]>::index_mut',
           'core::slice::index::<impl core::ops::Index<I> for [T]>::index', 'core::slice::index::<impl core::ops::IndexMut<I> for [T]>::index_mut'):
    MODELS[_n] = get_model(False)


@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut')
def m_first(I, fr, st, args, site, dty, t):
    n = I.len_of(st, args[0])
    return st, enum(dty, {0: ((), (L.neg(n),), ()), 1: ((elem_ref(args[0], L.ZERO),), (L.addc(n, -1),), ())})


@model('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut')
def m_last(I, fr, st, args, site, dty, t):
    n = I.len_of(st, args[0])
    return st, enum(dty, {0: ((), (L.neg(n),), ()), 1: ((elem_ref(args[0], L.addc(n, -1)),), (L.addc(n, -1),), ())})


@model('core::slice::<impl [T]>::swap')
def m_swap(I, fr, st, args, site, dty, t):
    n = I.len_of(st, args[0])
    i, j = I.to_lin(args[1]), I.to_lin(args[2])
    need(I, fr, st, t, 'swap', L.addc(L.sub(n, i), -1), 'first swapped index in bounds')
    need(I, fr, st, t, 'swap', L.addc(L.sub(n, j), -1), 'second swapped index in bounds')
    loc = loc_of(args[0])
    vi, vj = I.read(st, (loc[0], loc[1] + (('i', i),))), I.read(st, (loc[0], loc[1] + (('i', j),)))
    I.cur_site = (site, 'sw1')
    I.write(st, (loc[0], loc[1] + (('i', i),)), vj)
    I.cur_site = (site, 'sw2')
    I.write(st, (loc[0], loc[1] + (('i', j),)), vi)
    return st, ('s', ('tuple', ()), 0, ())


@model('core::mem::swap')
def m_mswap(I, fr, st, args, site, dty, t):
    a, b = loc_of(args[0]), loc_of(args[1])
    va, vb = I.read(st, a), I.read(st, b)
    I.cur_site = (site, 'sw1')
    I.write(st, a, vb)
    I.cur_site = (site, 'sw2')
    I.write(st, b, va)
    return st, ('s', ('tuple', ()), 0, ())


@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def m_cfs(I, fr, st, args, site, dty, t):
    d = L.sub(I.len_of(st, args[0]), I.len_of(st, args[1]))
    need(I, fr, st, t, 'copy_from_slice', d, 'equal lengths')
    need(I, fr, st, t, 'copy_from_slice', L.neg(d), 'equal lengths')
    I.havoc_val(st, args[0], site)
    return st, ('s', ('tuple', ()), 0, ())


@model('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut')
def m_split(I, fr, st, args, site, dty, t):
    n, i = I.len_of(st, args[0]), I.to_lin(args[1])
    need(I, fr, st, t, 'split_at', L.sub(n, i), 'split position in bounds')
    return st, ('s', dty, 0, (sub_ref(args[0], L.ZERO, i), sub_ref(args[0], i, n)))


@model('core::slice::<impl [T]>::chunks', 'core::slice::<impl [T]>::chunks_exact', 'core::slice::<impl [T]>::chunks_mut', 'core::slice::<impl [T]>::chunks_exact_mut')
def m_chunks(I, fr, st, args, site, dty, t):
    need(I, fr, st, t, 'zero size', L.addc(I.to_lin(args[1]), -1), 'chunk size is not zero')
    return st, mk_it(None, ('opaque', None))


# ------------------------------------------------------------------ vec
@model('alloc::vec::from_elem')
def m_from_elem(I, fr, st, args, site, dty, t):
    v = I.fresh(st, site, 'vec', dty)
    n = L.var(mk(('len', I.to_term(v)), USIZE))
    I.kill_term(st, n[1][0][0])
    st.facts.add(L.sub(n, I.to_lin(args[1])))
    st.facts.add(L.sub(I.to_lin(args[1]), n))
    return st, v


@model('alloc::vec::Vec::<T, A>::push')
def m_push(I, fr, st, args, site, dty, t):
    I.havoc_val(st, args[0], site)
    return st, ('s', ('tuple', ()), 0, ())


@model('<alloc::vec::Vec<T, A> as core::ops::Deref>::deref', '<alloc::vec::Vec<T, A> as core::ops::DerefMut>::deref_mut',
       'alloc::vec::Vec::<T, A>::as_slice', 'alloc::vec::Vec::<T, A>::as_mut_slice', 'core::array::<impl [T; N]>::as_slice')
def m_deref(I, fr, st, args, site, dty, t):
    return st, args[0]


# ------------------------------------------------------------------ Option / Result
def split(f):
    """model for combinators: f(I, ty, dty, variant, vals) -> value, or ('call', fn, args, wrap)"""
    def m(I, fr, st, args, site, dty, t):
        v = args[0]
        if v[0] == 'r':
            v = deref(I, st, v)
        ty, d = as_e(I, st, v, I.opty(fr, t['a'][0]))
        if d is None:
            return NotImplemented
        outs = []
        simple = {}
        for vi, e in d.items():
            r = f(I, dty, vi, e[0], args)
            if r[0] == 'call':
                s = enter(I, st, e)
                if s is None:
                    continue
                rr = I.call_value(fr, s, r[1], list(r[2]), (site, 'cb', vi), None if r[3] else dty, t)
                if rr is None:
                    continue
                s, x = rr
                outs.append((s, r[3](x) if r[3] else x))
            elif r[0] == 'diverge':
                s = enter(I, st, e)
                if s is not None:
                    if I.check_panics:
                        I.obl(fr, r[1], t['sp'], L.const(-1), s, r[1])
            else:
                simple[vi] = (r[1], e)
        if not outs:
            # pure re-labelling keeps the per-variant facts
            en = {}
            for vi, (x, e) in simple.items():
                if x[0] == 's' and x[1] is not None and I.is_enum(x[1]) and x[2] not in en:
                    en[x[2]] = (x[3], e[1], e[2])
                else:
                    en = None
                    break
            if en is not None and en and dty is not None and dty[0] == 'adt':
                if len(en) == 1 and len(d) == 1:
                    k = next(iter(en))
                    s = enter(I, st, en[k])
                    return None if s is None else (s, ('s', dty, k, tuple(en[k][0])))
                return st, enum(dty, en)
            if dty == BOOL and all(x[0] == 'b' for x, e in simple.values()):
                tr = [e for x, e in simple.values() if x[1] is True]
                fa = [e for x, e in simple.values() if x[1] is False]
                if len(tr) <= 1 and len(fa) <= 1 and len(tr) + len(fa) == len(simple):
                    g = lambda l: (frozenset(l[0][1]), frozenset(l[0][2]), None) if l else None
                    return st, ('b', ('ph', g(tr), g(fa), I.keyterm(('opt', site))))
        for vi, (x, e) in simple.items():
            s = enter(I, st, e)
            if s is not None:
                outs.append((s, x))
        return join_results(I, outs, ('comb', site))
    return m


def val(x):
    return ('v', x)


def _b(x):
    return ('v', ('b', x))


def S(dty, vi, *vals):
    return ('v', ('s', dty, vi, tuple(vals)))


def reg(n, f):
    MODELS['core::option::Option::<T>::' + n] = split(f)


def regr(n, f):
    MODELS['core::result::Result::<T, E>::' + n] = split(f)


MODELS['<core::result::Result<T, E> as core::ops::Try>::branch'] = split(
    lambda I, dty, vi, x, a: S(dty, 0, x[0]) if vi == 0 else S(dty, 1, ('s', dty[2][0] if dty and dty[0] == 'adt' and dty[2] else None, 1, (x[0],))))
MODELS['<core::option::Option<T> as core::ops::Try>::branch'] = split(
    lambda I, dty, vi, x, a: S(dty, 0, x[0]) if vi == 1 else S(dty, 1, ('s', dty[2][0] if dty and dty[0] == 'adt' and dty[2] else None, 0, ())))


@model('<core::result::Result<T, F> as core::ops::FromResidual<core::result::Result<!, E>>>::from_residual',
       '<core::result::Result<T, F> as core::ops::FromResidual<core::result::Result<core::convert::Infallible, E>>>::from_residual')
def m_from_residual(I, fr, st, args, site, dty, t):
    x = I.fresh(st, (site, 'e'), 'err', dty[2][1] if dty and dty[0] == 'adt' and len(dty[2]) > 1 else None)
    return st, ('s', dty, 1, (x,))


@model('<core::option::Option<T> as core::ops::FromResidual<core::option::Option<!>>>::from_residual',
       '<core::option::Option<T> as core::ops::FromResidual<core::option::Option<core::convert::Infallible>>>::from_residual')
def m_from_residual_o(I, fr, st, args, site, dty, t):
    return st, ('s', dty, 0, ())


reg('is_some', lambda I, d, vi, x, a: _b(vi == 1))
reg('is_none', lambda I, d, vi, x, a: _b(vi == 0))
regr('is_ok', lambda I, d, vi, x, a: _b(vi == 0))
regr('is_err', lambda I, d, vi, x, a: _b(vi == 1))
reg('unwrap_or', lambda I, d, vi, x, a: val(x[0] if vi == 1 else a[1]))
regr('unwrap_or', lambda I, d, vi, x, a: val(x[0] if vi == 0 else a[1]))
reg('ok_or', lambda I, d, vi, x, a: S(d, 0, x[0]) if vi == 1 else S(d, 1, a[1]))
reg('ok_or_else', lambda I, d, vi, x, a: S(d, 0, x[0]) if vi == 1 else ('call', a[1], (), lambda y: ('s', d, 1, (y,))))
reg('map', lambda I, d, vi, x, a: S(d, 0) if vi == 0 else ('call', a[1], x, lambda y: ('s', d, 1, (y,))))
reg('and_then', lambda I, d, vi, x, a: S(d, 0) if vi == 0 else ('call', a[1], x, None))
reg('map_or', lambda I, d, vi, x, a: val(a[1]) if vi == 0 else ('call', a[2], x, None))
reg('is_some_and', lambda I, d, vi, x, a: _b(False) if vi == 0 else ('call', a[1], x, None))
reg('is_none_or', lambda I, d, vi, x, a: _b(True) if vi == 0 else ('call', a[1], x, None))
reg('unwrap_or_else', lambda I, d, vi, x, a: val(x[0]) if vi == 1 else ('call', a[1], (), None))
reg('or', lambda I, d, vi, x, a: S(d, 1, x[0]) if vi == 1 else val(a[1]))
reg('unwrap', lambda I, d, vi, x, a: val(x[0]) if vi == 1 else ('diverge', 'unwrap of None'))
reg('expect', lambda I, d, vi, x, a: val(x[0]) if vi == 1 else ('diverge', 'expect of None'))
regr('unwrap', lambda I, d, vi, x, a: val(x[0]) if vi == 0 else ('diverge', 'unwrap of Err'))
regr('expect', lambda I, d, vi, x, a: val(x[0]) if vi == 0 else ('diverge', 'expect of Err'))
regr('map', lambda I, d, vi, x, a: S(d, 1, x[0]) if vi == 1 else ('call', a[1], x, lambda y: ('s', d, 0, (y,))))
regr('map_err', lambda I, d, vi, x, a: S(d, 0, x[0]) if vi == 0 else ('call', a[1], x, lambda y: ('s', d, 1, (y,))))
regr('and_then', lambda I, d, vi, x, a: S(d, 1, x[0]) if vi == 1 else ('call', a[1], x, None))
regr('ok', lambda I, d, vi, x, a: S(d, 1, x[0]) if vi == 0 else S(d, 0))
reg('unwrap_or_default', lambda I, d, vi, x, a: val(x[0]) if vi == 1 else val(default_of(I, d)))


def default_of(I, d):
    if d is not None and d[0] == 'int':
        return ('i', L.ZERO)
    return I.unk(('default',), d)


@model('core::option::Option::<&T>::copied', 'core::option::Option::<&T>::cloned', 'core::option::Option::<&mut T>::copied')
def m_ocopied(I, fr, st, args, site, dty, t):
    ty, d = as_e(I, st, args[0], I.opty(fr, t['a'][0]))
    if d is None:
        return NotImplemented
    en = {}
    for vi, e in d.items():
        if vi == 0:
            en[0] = ((), e[1], e[2])
        else:
            s = enter(I, st, e)
            if s is None:
                continue
            I.cur_site = (site, 'cp')
            x = deref(I, s, e[0][0])
            en[1] = ((x,), e[1] | frozenset(s.facts - st.facts), e[2] | frozenset(s.tf - st.tf))
    if not en:
        return None
    return st, enum(dty, en)


@model('core::option::Option::<T>::as_ref', 'core::option::Option::<T>::as_mut', 'core::option::Option::<T>::filter')
def m_ofilter(I, fr, st, args, site, dty, t):
    if t['f']['m'] != 'filter':
        loc = loc_of(args[0])
        ty, d = as_e(I, st, I.read(st, loc), None)
        if d is None:
            return st, I.fresh(st, site, 'r', dty)
        en = {}
        for vi, e in d.items():
            en[vi] = ((), e[1], e[2]) if vi == 0 else ((('r', loc[0], loc[1] + (('d', 1), ('f', 0, 1, None, '0')), args[0][3] if args[0][0] == 'r' else False),), e[1], e[2])
        return st, enum(dty, en)
    ty, d = as_e(I, st, args[0], I.opty(fr, t['a'][0]))
    if d is None:
        return NotImplemented
    outs = []
    for vi, e in d.items():
        s = enter(I, st, e)
        if s is None:
            continue
        if vi == 0:
            outs.append((s, none(dty)))
            continue
        root = ('L', ('ofilter', site), 0)
        s.env[root] = e[0][0]
        r = I.call_value(fr, s, args[1], [('r', root, (), False)], (site, 'cb'), BOOL, t)
        if r is None:
            continue
        c = I.cond(r[1])
        s1 = I.assume(r[0], c)
        if s1 is not None:
            outs.append((s1, some(dty, e[0][0])))
        s2 = I.assume(r[0], cneg(c))
        if s2 is not None:
            outs.append((s2, none(dty)))
    return join_results(I, outs, ('ofl', site))


@model('core::bool::<impl bool>::then')
def m_then(I, fr, st, args, site, dty, t):
    c = I.cond(args[0])
    outs = []
    s1 = I.assume(st, c) if c is not True else st.copy()
    if s1 is not None:
        r = I.call_value(fr, s1, args[1], [], (site, 'cb'), None, t)
        if r is not None:
            outs.append((r[0], some(dty, r[1])))
    s2 = I.assume(st, cneg(c))
    if s2 is not None:
        outs.append((s2, none(dty)))
    return join_results(I, outs, ('then', site))


@model('core::bool::<impl bool>::then_some')
def m_then_some(I, fr, st, args, site, dty, t):
    c = I.cond(args[0])
    outs = []
    s1 = I.assume(st, c)
    if s1 is not None:
        outs.append((s1, some(dty, args[1])))
    s2 = I.assume(st, cneg(c))
    if s2 is not None:
        outs.append((s2, none(dty)))
    return join_results(I, outs, ('thens', site))


# ------------------------------------------------------------------ integers
def checked(op):
    def m(I, fr, st, args, site, dty, t):
        a, b = I.to_lin(args[0]), I.to_lin(args[1])
        ity = dty[2][0] if dty is not None and dty[0] == 'adt' and dty[2] else USIZE
        r = I.arith(st, op, a, b, ity)
        hi = INTMAX.get(ity[1], INTMAX['usize'])
        ok = [L.addc(L.neg(r), hi)]
        bad = []
        if op == 'Sub':
            ok.append(r)
            bad = [L.addc(L.neg(r), -1)] if ity[1][0] == 'u' else []
        elif op == 'Add' and ity[1][0] == 'u':
            bad = [L.addc(r, -hi - 1)]
        if ity[1][0] == 'i':
            ok = []
            bad = []
        return st, enum(dty, {0: ((), bad, ()), 1: ((('i', r),), ok, ())})
    return m


for _t in ('usize', 'u32', 'u64', 'u16', 'u8', 'i32', 'i64', 'isize'):
    for _o, _n in (('Add', 'checked_add'), ('Sub', 'checked_sub'), ('Mul', 'checked_mul')):
        MODELS['core::num::<impl %s>::%s' % (_t, _n)] = checked(_o)


def ssub(I, fr, st, args, site, dty, t):
    a, b = I.to_lin(args[0]), I.to_lin(args[1])
    d = L.sub(a, b)
    if I.entails(st, d):
        return st, ('i', d)
    if I.entails(st, L.neg(d)):
        return st, ('i', L.ZERO)
    x = mk(('ssub', a, b), dty or USIZE)
    st.facts.add(L.var(x))
    st.facts.add(L.sub(L.var(x), d))
    st.facts.add(L.sub(a, L.var(x)))
    return st, ('i', L.var(x))


def minmax(which):
    def m(I, fr, st, args, site, dty, t):
        if not (dty and dty[0] == 'int'):
            return NotImplemented
        a, b = I.to_lin(args[0]), I.to_lin(args[1])
        if I.entails(st, L.sub(a, b)):
            return st, ('i', a if which == 'max' else b)
        if I.entails(st, L.sub(b, a)):
            return st, ('i', b if which == 'max' else a)
        x = mk((which,) + tuple(sorted((a, b))), dty)
        sg = 1 if which == 'max' else -1
        for y in (a, b):
            st.facts.add(L.scale(L.sub(L.var(x), y), sg))
        if which == 'max' and a[0] >= 0 and b[0] >= 0 and I.entails(st, a) and I.entails(st, b):
            st.facts.add(L.sub(L.add(a, b), L.var(x)))
        # lower/upper bounds shared by both operands carry over
        for f in list(st.facts):
            pass
        return st, ('i', L.var(x))
    return m


for _t in ('usize', 'u32', 'u64', 'u16', 'u8', 'i32', 'i64', 'isize'):
    MODELS['core::num::<impl %s>::saturating_sub' % _t] = ssub if _t[0] == 'u' else MODELS.get('x', None) or (lambda *a: NotImplemented)
    for _w in ('max', 'min'):
        MODELS['core::cmp::impls::<impl core::cmp::Ord for %s>::%s' % (_t, _w)] = minmax(_w)
    MODELS['core::cmp::Ord::max'] = minmax('max')
    MODELS['core::cmp::Ord::min'] = minmax('min')


@model('core::num::<impl u64>::next_multiple_of', 'core::num::<impl usize>::next_multiple_of', 'core::num::<impl u32>::next_multiple_of')
def m_nmo(I, fr, st, args, site, dty, t):
    a, b = I.to_lin(args[0]), I.to_lin(args[1])
    need(I, fr, st, t, 'rem0', L.addc(b, -1), 'multiple of a positive number')
    need(I, fr, st, t, 'overflow', L.addc(L.neg(L.add(a, b)), INTMAX[dty[1]] + 1), 'next multiple fits')
    return st, I.fresh(st, site, 'r', dty)


for _t in ('bool', 'usize', 'u8', 'u16', 'u32', 'u64', 'i32', 'i64', 'f64', 'f32', '&T', 'char'):
    MODELS['core::clone::impls::<impl core::clone::Clone for %s>::clone' % _t] = lambda *a: m_clone(*a)
MODELS['core::array::<impl core::clone::Clone for [T; N]>::clone'] = lambda *a: m_clone(*a)


@model('core::clone::Clone::clone', 'core::clone::impls::<impl core::clone::Clone for usize>::clone')
def m_clone(I, fr, st, args, site, dty, t):
    return st, deref(I, st, args[0])


@model('core::panicking::panic_fmt', 'core::panicking::panic', 'core::panicking::panic_display', 'core::panicking::assert_failed',
       'core::panicking::unreachable_display', 'core::panicking::panic_explicit', 'core::option::unwrap_failed', 'core::option::expect_failed')
def m_panic(I, fr, st, args, site, dty, t):
    I.nchecked += 1
    I.obl(fr, 'panic', t['sp'], L.const(-1), st, 'explicit panic')
    return None


def trait_call(I, fr, st, f, gargs, args, site, dty, t):
    tr = f['trait']
    if tr in ('core::iter::Iterator', 'core::iter::IntoIterator', 'core::iter::DoubleEndedIterator', 'core::iter::ExactSizeIterator'):
        m = MODELS.get('%s::%s' % (tr, f['m'])) or MODELS.get('core::iter::Iterator::' + f['m'])
        if m is not None:
            return m(I, fr, st, args, site, dty, t)
    return NotImplemented
