from common import *
from ops import ops_jobs
from rec import index, fetch
from sec import sig_jobs


def jobs(prog):
    J = [f('C08') for f in (index, fetch)]
    J += sig_jobs('C08')
    return J + ops_jobs('C08')
