"""C10: no operation leaves the drive or a lock taken, and none panics."""
from common import *
from compr import codec_jobs
from ops import ops_jobs
from fsw import fs_jobs
from rec import indexheader, nextheader, index, fetch
from sec import enc_jobs, sig_jobs
from tree import meta_jobs
from drv import drive_jobs


def jobs(prog):
    J = []
    chk = {'lock'} | PANICS

    for j in [f('C10') for f in (indexheader, nextheader, index, fetch)] + enc_jobs('C10') + sig_jobs('C10') + meta_jobs('C10'):
        j.checks = PANICS
        J.append(j)
    J += ops_jobs('C10', checks=chk)
    J += fs_jobs(prog, 'C10', checks=chk)
    return J + drive_jobs('C10') + codec_jobs('C10')
