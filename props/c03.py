"""Errors are never swallowed, and conversions keep the cause.

Rule swallow: the Result of every call, in both crates, is returned, propagated by `?`, mapped to another Result (decided the same
way), or tested - and then every path from its failing arm to the end of the function returns an error.
Rule convert: every From between the crate's error types moves the whole source error into one variant.
Rule source: for every variant carrying another error, source() evaluates to that payload."""
import ctx
from view import View, pkey

MAPPERS = {'map_err', 'map', 'and_then', 'or_else', 'inspect_err', 'as_ref', 'as_mut', 'copied', 'cloned'}
TESTS = {'is_err', 'is_ok'}
# not failures of the library but value probes whose fallback is the documented result
PROBES = {'core::num::TryFromIntError', 'core::array::TryFromSliceError', 'core::convert::Infallible'}
EXEMPT = {
    # documented: the determinant of a matrix that cannot be factorised is zero
    'determinant': 'multicalc::error::LinalgError',
}


def err_type(P, ty):
    t = P.T[ty]
    if t.get('d') != 'core::result::Result':
        return None
    return t['a'][1] if isinstance(t['a'][1], int) else -1


def returns_error_only(f, v, start):
    """every path from block `start` to a return goes through an assignment of an Err to the return place"""
    good = set()
    for b in f.cfg.reach:
        bb = f.bbs[b]
        for st in bb['s']:
            if st[0] == '=' and st[1] == [0] and st[2][0] == 'agg' and st[2][1][0] == 'adt' and st[2][1][1] == 'core::result::Result' and st[2][1][3] == 'Err':
                good.add(b)
        t = bb['t']
        if t['k'] == 'call' and t['dst'] == [0] and t['f'] and t['f'].get('m') == 'from_residual':
            good.add(b)
    seen, st = set(), [start]
    while st:
        b = st.pop()
        if b in seen or b in good:
            continue
        seen.add(b)
        if f.bbs[b]['t']['k'] == 'return':
            return False
        st += f.cfg.succ[b]
    return True


def classify(P, f, v, b, t, depth=0):
    """None when fine, else a description"""
    l = t['dst'][0]
    if len(t['dst']) > 1:
        return None  # stored into a larger value
    if l == 0:
        return None
    return use_of(P, f, v, l, depth)


def use_of(P, f, v, l, depth):
    if depth > 6:
        return 'not followed'
    found = None
    any_use = False
    for b in sorted(f.cfg.reach):
        bb = f.bbs[b]
        for st in bb['s']:
            if st[0] != '=':
                continue
            r = st[2]
            if r[0] == 'use' and r[1][0] in 'cm' and r[1][1] == [l]:
                any_use = True
                if st[1] == [0]:
                    continue
                if len(st[1]) == 1:
                    x = use_of(P, f, v, st[1][0], depth + 1)
                    found = found or x
            elif r[0] == 'agg' and any(o[0] in 'cm' and o[1] == [l] for o in r[2]):
                any_use = True
            elif r[0] == 'discr' and r[1] == [l]:
                any_use = True
                x = arm(P, f, v, st[1][0], 1)
                found = found or x
            elif r[0] == 'ref' and r[2][0] == l:
                any_use = True
                # a reference: to is_err()/is_ok(), or to a match on the reference
                rl = st[1][0]
                x = ref_use(P, f, v, rl, depth)
                found = found or x
        t = bb['t']
        if t['k'] == 'call':
            for a in t['a']:
                if a[0] in 'cm' and a[1] == [l]:
                    any_use = True
                    m = t['f'].get('m') if t['f'] else None
                    d = t['f']['d'] if t['f'] else '?'
                    if d == 'core::ops::Try::branch':
                        continue
                    if m in MAPPERS and err_type(P, f.lty(t['dst'][0])) is not None:
                        x = classify(P, f, v, b, t, depth + 1)
                        found = found or x
                    elif d.startswith('core::result::Result'):
                        found = found or 'its error is dropped by Result::%s' % (m or d.rsplit('::', 1)[-1])
                    # handed to another function of the program: that function decides
    if not any_use:
        return 'the result is never looked at'
    return found


def ref_use(P, f, v, rl, depth):
    out = None
    for b in sorted(f.cfg.reach):
        bb = f.bbs[b]
        for st in bb['s']:
            if st[0] == '=' and st[2][0] == 'discr' and st[2][1][0] == rl:
                out = out or arm(P, f, v, st[1][0], 1)
            if st[0] == '=' and st[2][0] == 'use' and st[2][1][0] in 'cm' and st[2][1][1] == [rl] and len(st[1]) == 1 and st[1][0] != 0:
                out = out or ref_use(P, f, v, st[1][0], depth + 1)
        t = bb['t']
        if t['k'] == 'call' and any(a[0] in 'cm' and a[1] == [rl] for a in t['a']):
            m = t['f'].get('m') if t['f'] else None
            if m in TESTS:
                out = out or arm(P, f, v, t['dst'][0], 1 if m == 'is_err' else 0)
            elif m in ('as_ref', 'as_mut') and err_type(P, f.lty(t['dst'][0])) is not None:
                out = out or use_of(P, f, v, t['dst'][0], depth + 1)
    return out


def arm(P, f, v, l, failing):
    """local l is switched on; value `failing` means the call failed"""
    hit = False
    for b in f.cfg.reach:
        t = f.bbs[b]['t']
        if t['k'] != 'switch' or t['d'][0] not in 'cm':
            continue
        e = v.expand(t['d'])
        neg = False
        while e[0] == 'un' and e[1] == 'Not':
            neg = not neg
            e = e[2]
        src = t['d'][1][0]
        direct = src == l or (e[0] == 'call' and e[1]['dst'] == [l]) or (e[0] == 'var' and e[1] == (l,))
        if not direct:
            continue
        hit = True
        val = failing ^ (1 if neg else 0)
        tgt = t['o']
        for x, y in t['v']:
            if int(x) == val:
                tgt = y
        if not returns_error_only(f, v, tgt):
            return 'its failing arm can end without returning an error'
    if not hit:
        return None
    return None


# ---- conversions
def eval_variant(P, f, variant):
    """follow the only path of a match on (*_1) for one variant: expression assigned to _0"""
    env = {}
    b = 0
    for _ in range(200):
        bb = f.bbs[b]
        for st in bb['s']:
            if st[0] == '=' and len(st[1]) == 1:
                env[st[1][0]] = (st[2], dict(env))
        t = bb['t']
        if t['k'] == 'return':
            return env
        if t['k'] in ('goto', 'drop', 'assert'):
            b = t['t']
        elif t['k'] == 'switch':
            # the operand must be the discriminant of the argument
            o = t['d']
            r = env.get(o[1][0]) if o[0] in 'cm' else None
            if not r or r[0][0] != 'discr':
                return None
            nxt = t['o']
            for x, y in t['v']:
                if int(x) == variant:
                    nxt = y
            b = nxt
        elif t['k'] == 'call':
            env[t['dst'][0]] = (('call', t), dict(env))
            if t['t'] is None:
                return None
            b = t['t']
        else:
            return None
    return None


def payload_of(env, l=0, depth=20):
    """which place the Some(..) in local l refers to"""
    r = env.get(l)
    if r is None or depth == 0:
        return ('local', l)
    rv, e = r
    if rv[0] == 'agg' and rv[1][0] == 'adt' and rv[1][1] == 'core::option::Option':
        if rv[1][3] == 'None':
            return ('none',)
        o = rv[2][0]
        return payload_of(e, o[1][0], depth - 1) if o[0] in 'cm' and len(o[1]) == 1 else ('place', o[1] if o[0] in 'cm' else None)
    if rv[0] == 'cast':
        o = rv[2]
        return payload_of(e, o[1][0], depth - 1) if o[0] in 'cm' and len(o[1]) == 1 else ('?',)
    if rv[0] == 'use' and rv[1][0] in 'cm':
        return payload_of(e, rv[1][1][0], depth - 1) if len(rv[1][1]) == 1 else ('place', resolve(e, rv[1][1]))
    if rv[0] == 'ref':
        p = rv[2]
        if len(p) == 2 and p[1] == '*':
            return payload_of(e, p[0], depth - 1)
        return ('place', resolve(e, p))
    return ('?', rv[0])


def resolve(env, p, depth=10):
    r = env.get(p[0])
    if r and depth and r[0][0] == 'ref' and len(p) > 1 and p[1] == '*':
        return resolve(r[1], r[0][2] + p[2:], depth - 1)
    if r and depth and r[0][0] == 'use' and r[0][1][0] in 'cm':
        return resolve(r[1], r[0][1][1] + p[1:], depth - 1)
    return p


def check(rep):
    P = ctx.program('full')
    errs = {im_self(P, im): im for im in P.impls if im.get('trait') == 'core::error::Error' and im_self(P, im)}
    # --- swallow
    for f in P.fns.values():
        if not f.body:
            continue
        v = None
        for b in sorted(f.cfg.reach):
            t = f.bbs[b]['t']
            if t['k'] != 'call' or len(t['dst']) != 1:
                continue
            et = err_type(P, f.lty(t['dst'][0]))
            if et is None:
                continue
            ep = P.T[et].get('d', P.tstr(et)) if et >= 0 else '?'
            if ep == 'core::fmt::Error' or ep in PROBES or (ep.startswith('alloc::vec::Vec')):
                continue
            v = v or View(f)
            callee = (t['f'] or {}).get('r', (t['f'] or {}).get('d', 'indirect'))
            bad = classify(P, f, v, b, t)
            if bad and (f.j.get('name') in EXEMPT) and ep == EXEMPT[f.j.get('name')]:
                rep.ok('swallow:documented', f.d)
                continue
            if bad:
                rep.bad('swallow', 'swallow:%s:%s' % (f.d, callee), 'the call of %s can fail and %s' % (callee, bad), t['sp'])
            else:
                rep.ok('swallow', '%s -> %s' % (f.d, callee))
    rep.floor('swallow', 400)
    # --- source
    sources = {}
    for d, im in sorted(errs.items()):
        a = P.adts.get(d)
        src = [x for nm, x, kd in im['items'] if nm == 'source']
        for vi, vr in enumerate(a['v']):
            carried = [i for i, fl in enumerate(vr['f']) if fl['t'] >= 0 and P.T[fl['t']].get('d') in errs]
            if not carried:
                continue
            if not src:
                rep.bad('source', 'source:%s::%s' % (d, vr['n']), 'carries a cause but the type has no source()')
                continue
            f = P.fns[src[0]]
            env = eval_variant(P, f, int(vr.get('disc', vi)) if vr.get('disc') is not None else vi)
            got = payload_of(env) if env else ('?',)
            want_ok = got[0] == 'place' and got[1][0] == 1 and any(isinstance(x, (list, tuple)) and x[0] == 'd' and x[2] == vr['n'] for x in got[1][1:]) and [x[1] for x in got[1][1:] if isinstance(x, (list, tuple)) and x[0] == 'f'] == [carried[0]]
            if want_ok:
                rep.ok('source', '%s::%s' % (d, vr['n']))
                sources[(d, vr['n'])] = carried[0]
            else:
                rep.bad('source', 'source:%s::%s' % (d, vr['n']), 'source() does not return the wrapped cause of this variant (got %s)' % (got,), f.span)
    rep.floor('source', 20)
    # --- From between error types
    top = 'multicalc::error::CalcError'
    into_top = set()
    for im in P.impls:
        if im.get('trait') != 'core::convert::From':
            continue
        d = im_self(P, im)
        ta = [x for x in im.get('trait_args', []) if isinstance(x, int)]
        ta = [P.T[x].get('d') for x in ta]
        srcs = [x for x in ta if x in errs and x != d]
        if d not in errs or not srcs:
            continue
        fid = [x for nm, x, k in im['items'] if nm == 'from'][0]
        f = P.fns[fid]
        v = View(f)
        e = v.expand(['c', [0]])
        okc = e[0] == 'agg' and e[1][0] == 'adt' and e[1][1] == d and len(e[2]) == 1 and e[2][0] == ('var', (1,))
        if okc and (d, e[1][3]) in sources:
            rep.ok('convert', '%s -> %s::%s' % (srcs[0], d, e[1][3]))
            if d == top:
                into_top.add(srcs[0])
        else:
            rep.bad('convert', 'convert:%s->%s' % (srcs[0], d), 'the conversion does not keep the whole source error as the cause (%s)' % (e[:2],), f.span)
    rep.floor('convert', 20)
    for d in sorted(errs):
        if d.startswith('multicalc::error::') and d != top:
            if d in into_top:
                rep.ok('reaches-top', d)
            else:
                rep.bad('reaches-top', 'top:' + d, 'no conversion into the top-level error')
    return ('Def-use chains of every Result produced by a call in both crates; per-variant evaluation of every source(); value flow of every From between error types.')


def im_self(P, im):
    return P.T[im['self']].get('d')
