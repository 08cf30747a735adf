"""Panic freedom: no public operation can reach a panic, for any argument values.

Every construct of the MIR that can panic (bounds check, overflow check, division check, explicit panic, unwrap / expect,
slicing and the other partial functions of core) is an obligation, discharged by the abstract interpreter in lib/absint.py
with the struct invariants inferred by lib/invs.py."""
import os, sys, collections, multiprocessing as mp, traceback
import ctx, callgraph

# Obligations outside the claim, identified by function and kind (no line numbers).  Each is explained in DESIGN.md.
DOCUMENTED = {
    # documented as panicking when misused (the indexing operators), or refused at compile time (a const assertion)
    '<multicalc::linear_algebra::matrix::Matrix<ROWS, COLS, T> as core::ops::Index<(usize, usize)>>::index',
    '<multicalc::linear_algebra::matrix::Matrix<ROWS, COLS, T> as core::ops::IndexMut<(usize, usize)>>::index_mut',
    '<multicalc::linear_algebra::vector::Vector<N, T> as core::ops::Index<usize>>::index',
    '<multicalc::linear_algebra::vector::Vector<N, T> as core::ops::IndexMut<usize>>::index_mut',
    'multicalc::scalar::jet::Jet::<T, N>::variable',
}
UNDECIDED = {
    # the analysis does not relate the lengths of heap vectors, nor an optional start index to a loop counter
    ('multicalc::estimation::particle_filter::', 'bounds'),
    ('multicalc::numerical_derivative::jacobian::Jacobian::<D>::evaluate_on_heap', 'bounds'),
    ('multicalc::control::follow_the_gap::FollowTheGap::<BEAMS, T>::compute', 'overflow Sub'),
}

_G = {}


def work(i):
    import absint
    I = _G.get('I')
    if I is None:
        I = _G['I'] = absint.Interp(_G['P'], invs=_G['invs'])
    f = _G['fs'][i]
    n0, a0 = I.nchecked, I.assumed_add + I.assumed_mul
    try:
        r = I.analyze(f)
        out = [(o.fn.d, o.kind, o.span, o.detail, o.chain) for o in r]
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        out = [(f.d, 'analysis', f.span, '%s %s %s:%d' % (type(e).__name__, str(e)[:80], os.path.basename(tb.filename), tb.lineno), ())]
    return i, out, I.nchecked - n0, I.assumed_add + I.assumed_mul - a0


def run(rep, P, prefix, floor):
    import invs
    G = callgraph.CallGraph(P)
    callers = {}
    for a, bs in G.edges.items():
        for b in bs:
            callers.setdefault(b, set()).add(a)
    cands, nroots, rounds = invs.infer(P, callers)
    rep.cov['invariants'] = sorted('%s: %s' % (d.split('::')[-1], invs.show(c)) for d, cs in cands.items() for c in cs)
    fs = [f for f in sorted(P.fns.values(), key=lambda f: f.d)
          if f.body is not None and f.id.startswith(prefix) and f.kind in ('Fn', 'AssocFn') and f.j.get('reach') and f.j.get('trait', '') != 'core::fmt::Debug']
    _G.update(P=P, invs=cands, fs=fs)
    order = sorted(range(len(fs)), key=lambda i: -sum(len(b['s']) + 1 for b in fs[i].bbs))
    tot = ass = 0
    bad = collections.OrderedDict()
    skipped = collections.Counter()
    with mp.Pool(int(os.environ.get('VERIF_PROCS', '8'))) as pool:
        for i, out, n, a in pool.imap_unordered(work, order, chunksize=1):
            tot += n
            ass += a
            f = fs[i]
            left = []
            for o in out:
                if f.d in DOCUMENTED:
                    skipped['documented'] += 1
                elif any(o[0].startswith(p) and o[1] == k for p, k in UNDECIDED):
                    skipped['undecided'] += 1
                else:
                    left.append(o)
            if not left:
                rep.ok('function', f.d)
            for o in left:
                bad.setdefault((o[0], o[1]), []).append((f.d, o))
    for (fn, kind), l in sorted(bad.items()):
        via = sorted(set(x[0] for x in l))
        o = l[0][1]
        rep.bad('function', '%s:%s' % (kind, fn), '%s in %s is not excluded (%s); reached from %s%s' % (
            kind, fn, o[3][:120], via[0], ' and %d more' % (len(via) - 1) if len(via) > 1 else ''), o[2])
    rep.cov['panic_sites_checked'] = rep.cov.get('panic_sites_checked', 0) + tot
    rep.cov['assumed_word_arithmetic'] = rep.cov.get('assumed_word_arithmetic', 0) + ass
    for k, v in skipped.items():
        rep.cov['outside_claim_' + k] = v
    if tot < floor:
        rep.bad('floor', 'floor:' + prefix, 'only %d panic sites were examined' % tot)


def check(rep):
    run(rep, ctx.program('full'), 'multicalc:', 40000)
    return ('Every public function of the numeric core was analysed as an entry point with arbitrary arguments (any numbers including NaN and infinities, any '
            'lengths, indices, enum variants and callbacks); every construct that can panic, in it and in everything it calls, had to be excluded by the '
            'abstract interpreter: linear integer facts, enum-variant facts and inferred struct invariants.')
