from common import *
from ops import ops_jobs
from rec import index, fetch
from sec import enc_jobs


def jobs(prog):
    J = [f('C09') for f in (index, fetch)]
    J += enc_jobs('C09')
    return J + ops_jobs('C09')
