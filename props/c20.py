"""A particle cloud scatters, moves, weighs and renews itself as it says, and the localiser built on it scores scans beam by beam."""
import laws


def check(rep):
    return __doc__ + ' ' + laws.decide(rep, 'cloud', 21, 'cloud law')
