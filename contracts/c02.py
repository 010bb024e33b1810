from common import *
from compr import codec_jobs
from ops import ops_jobs
from rec import indexheader, fetch
from tree import meta_jobs, opstree, opsextra, fstree


def jobs(prog):
    J = [f('C02') for f in (indexheader, fetch)]
    J += opstree('C02', ops_jobs('C02', extra=opsextra('C02')))
    J += meta_jobs('C02')
    return J + fstree(prog, 'C02') + codec_jobs('C02')
