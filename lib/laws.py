"""Decides the laws of one module of /verif/laws by value numbering: a law is a function returning a pair whose two
components must receive the same value number (or a bool that must fold to true) wherever the law returns."""
import os, signal, sys, time, multiprocessing as mp
import ctx, vn

MAXTRY = 600
LAWTIME = 270      # seconds per law


def one(prog, root, seed0, formal=False, subs=None, depth=0):
    """('ok'|'bad'|'undecided', detail, stats)"""
    t0 = time.time()
    oks = 0
    stats = {}
    tries = 0
    seed = seed0 * 100000
    zeros = []
    while True:
        tries += 1
        seed += 1
        if tries > (MAXTRY if not depth else 40):
            return 'undecided', 'no consistent assignment of square roots found', stats
        m = vn.Machine(prog, seed, formal=formal)
        m.subs = subs or {}
        try:
            r, st, g = m.analyse(root)
        except vn.Retry:
            continue
        except vn.Undecided as e:
            if str(e) == 'time limit':
                if oks:
                    break
                raise
            return 'undecided', '%s in %s' % (e, ' > '.join(x.split('::<')[0] for x in m.stack[-3:])), stats
        except (RecursionError, KeyError, IndexError, TypeError, AttributeError, ZeroDivisionError, ValueError) as e:
            return 'undecided', 'not modelled: %s %s in %s' % (type(e).__name__, e, ' > '.join(x.split('::<')[0] for x in m.stack[-3:])), stats
        stats = {'steps': m.steps, 'nodes': len(m.d.nodes), 'fns': sorted((v[0], f, v[1]) for f, v in m.fns.items() if f.startswith(('multicalc', '<multicalc')) or ' multicalc' in f), 'total': g == 1, 'wall': round(time.time() - t0, 2)}
        if m.d.dead and (r is vn.UNDEF or g == 0):
            continue
        if r is vn.UNDEF or g == 0:
            return 'bad', 'no input reaches the end of the law: every path fails or panics', stats
        try:
            if type(r) is tuple and r[0] == 'S' and len(r[1]) == 2:
                bad = m.same(g, r[1][0], r[1][1])
            else:
                bad = m.same(g, r, 1)
        except (vn.Undecided, TypeError, IndexError, KeyError) as e:
            return 'undecided', 'comparison: %s' % e, stats
        if bad:
            w, path, a, b = bad[0]
            n = sum(1 for _ in path)
            return 'bad', 'component %s: the two value graphs differ%s' % ('.'.join(map(str, w)) or '0', ' (under %d branch decisions)' % n if n else ''), stats
        for z in m.degenerate:
            if z not in zeros:
                zeros.append(z)
        oks += 1
        if oks >= (1 if depth else 3 if m.d.dead else 2):
            break
    # the law on the zero sets of compared quantities, where the paths taken there differ in value
    if depth < 2:
        for z in zeros[:8]:
            try:
                r = one(prog, root, seed0, formal, {**(subs or {}), **z}, depth + 1)
            except vn.Undecided:
                break
            if r[0] == 'bad' and 'no input reaches' not in r[1]:
                return 'bad', r[1] + ' where %s' % ', '.join('%s = %s' % ('.'.join(map(str, k)), x if type(x) is not tuple else '%s * %s' % (x[0], '.'.join(map(str, x[1])))) for k, x in z.items()), stats
    return 'ok', '', stats


_prog = None


def _late(*a):
    raise vn.Undecided('time limit')


def _work(a):
    root, seed = a
    signal.signal(signal.SIGPROF, _late)
    r = None
    for formal, limit in ((False, 15), (True, 25), (False, 90), (True, LAWTIME - 90)):
        r = None
        try:
            try:
                signal.setitimer(signal.ITIMER_PROF, limit)
                r = one(_prog, root, seed, formal)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
        except vn.Undecided as e:
            r = r or ('undecided', str(e), {})
        except Exception as e:
            r = r or ('undecided', 'not modelled: %s %s' % (type(e).__name__, e), {})
        if r[0] != 'undecided' or r[1].startswith('not modelled'):
            break
    return root, r


def decide(rep, module, floor, what):
    """runs every law of laws::<module>"""
    global _prog
    mods = module if isinstance(module, (list, tuple)) else [module]
    _prog = vn.MonoProgram(ctx.extract_laws(','.join(mods)))
    roots = sorted(r for r in _prog.roots if any(r.startswith('laws::%s::' % x) for x in mods) and not r.split('::')[-1].startswith(('opaque_', 'h_')))
    rep.cov['laws_file'] = ['/verif/laws/src/%s.rs' % x for x in mods]
    und = []
    fns = set()
    steps = 0
    tot = 0
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 2)) as pool:
        for root, (st, detail, stats) in pool.imap(_work, [(r, rep.seed) for r in roots], chunksize=1):
            name = '::'.join(root.split('::')[1:])
            fns.update(f[1] for f in stats.get('fns', ()))
            steps += stats.get('steps', 0)
            tot += 1 if stats.get('total') else 0
            if st == 'ok':
                rep.ok(what, name)
            elif st == 'bad':
                it = _prog.items[_prog.roots[root]]
                near = ['%s (%s)' % (f, str(sp).replace(ctx.REPO + '/', '')) for dep, f, sp in stats.get('fns', ())][:6]
                rep.bad(what, 'law:%s' % name, '%s; value graph built through %s' % (detail, ', '.join(near) or 'nothing that returns'), it.get('span'))
            else:
                und.append('%s: %s' % (name, detail))
    rep.cov['undecided'] = und
    rep.cov['functions_in_the_value_graphs'] = sorted(fns)
    rep.cov['mir_statements_numbered'] = steps
    rep.cov['laws_total_on_their_inputs'] = tot
    for u in und:
        print('undecided: ' + u)
    # anti-vacuity: the laws exist, and most of them are decided
    dec = rep.rules.get(what, [0, 0])[0]
    if len(roots) < floor:
        rep.bad('floor', 'floor:' + what, 'only %d laws found, expected %d' % (len(roots), floor))
    if dec * 2 < floor:
        rep.bad('floor', 'floor:' + what, 'only %d of %d laws could be decided' % (dec, len(roots)))
    rep.cov['laws'] = len(roots)
    return 'Value numbering of %d laws: %d decided, %d undecided.' % (len(roots), dec, len(und))
