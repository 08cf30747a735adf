"""An inverse-kinematics step solves its damped, weighted least-squares problem and the report is that of the returned configuration."""
import laws


def check(rep):
    return __doc__ + ' ' + laws.decide(rep, 'reach', 24, 'reach law')
