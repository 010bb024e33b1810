from common import *
from ops import ops_jobs
from rec import indexheader, index
from tree import meta_jobs
from drv import drive_jobs


def jobs(prog):
    J = [f('C07') for f in (indexheader, index)]
    return J + ops_jobs('C07') + meta_jobs('C07') + drive_jobs('C07')
