"""Controllers issue exactly the command their control law defines."""
import laws


def check(rep):
    return __doc__ + ' ' + laws.decide(rep, 'control', 52, 'control law')
