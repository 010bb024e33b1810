from common import *
from compr import codec_jobs
from ops import ops_jobs
from rec import indexheader, nextheader, index, fetch
from tree import meta_jobs, opstree, opsextra, fstree


def jobs(prog):
    J = [f('C01') for f in (indexheader, nextheader, index, fetch)]
    J += opstree('C01', ops_jobs('C01', extra=opsextra('C01')))
    J += meta_jobs('C01')
    return J + codec_jobs('C01')
