from common import *
from compr import codec_jobs
from ops import ops_jobs
from rec import indexheader, nextheader, index, fetch
from tree import meta_jobs
from drv import drive_jobs


def jobs(prog):
    J = [f('C04') for f in (indexheader, nextheader, index, fetch)]
    return J + ops_jobs('C04') + meta_jobs('C04') + drive_jobs('C04') + codec_jobs('C04')
