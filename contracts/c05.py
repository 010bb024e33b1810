from common import *
from compr import codec_jobs
from ops import ops_jobs
from drv import drive_jobs


def jobs(prog):
    return ops_jobs('C05') + drive_jobs('C05') + codec_jobs('C05')
