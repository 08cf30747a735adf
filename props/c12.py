"""Filters compute the estimates and covariances their equations define."""
import laws


def check(rep):
    return __doc__ + ' ' + laws.decide(rep, 'estimation', 80, 'estimation law')
