from common import *
from ops import ops_jobs
from rec import indexheader, nextheader, index
from tree import meta_jobs
from drv import drive_jobs


def jobs(prog):
    J = [f('C16') for f in (indexheader, nextheader, index)]
    return J + ops_jobs('C16') + meta_jobs('C16') + drive_jobs('C16')
