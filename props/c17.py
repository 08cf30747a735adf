"""Filters, smoothers and conditioning blocks compute their stated response."""
import laws


def check(rep):
    return __doc__ + ' ' + laws.decide(rep, 'signals', 46, 'signal law')
