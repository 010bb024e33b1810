from common import *
from compr import codec_jobs
from sec import enc_jobs, sig_jobs
from ops import ops_jobs
from rec import index, fetch


def jobs(prog):
    J = [f('C03') for f in (index, fetch)]
    return J + ops_jobs('C03') + codec_jobs('C03') + enc_jobs('C03') + sig_jobs('C03')
