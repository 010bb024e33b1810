from common import *
from compr import codec_jobs
from ops import ops_jobs
from rec import indexheader, nextheader, index, fetch


def jobs(prog):
    J = [f('C06') for f in (indexheader, nextheader, index, fetch)]
    return J + ops_jobs('C06') + codec_jobs('C06')
