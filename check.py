#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current tree."""
import sys, os, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'props')]
sys.setrecursionlimit(20000)
import ctx


def main():
    pid = sys.argv[1]
    rep = ctx.Report(pid)
    mod = importlib.import_module(pid.lower())
    try:
        expl = mod.check(rep)
    except ctx.Broken as e:
        rep.bad('anchor', 'anchor:' + str(e), str(e))
        expl = mod.__doc__ or ''
    sys.exit(rep.finish(expl or mod.__doc__ or ''))


main()
