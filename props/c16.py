"""Motion profiles, paths and minimum-snap curves are the stated ones."""
import laws


def check(rep):
    return __doc__ + ' ' + laws.decide(rep, 'motion', 34, 'motion law')
