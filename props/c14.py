"""Polynomials compute exactly and root finders report roots."""
import laws


def check(rep):
    return __doc__ + ' ' + laws.decide(rep, 'roots', 82, 'polynomial and root law')
