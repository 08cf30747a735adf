"""Bodies, trees, drives and collision shapes obey rigid mechanics."""
import laws


def check(rep):
    return __doc__ + ' ' + laws.decide(rep, 'mechanics', 54, 'mechanics law')
