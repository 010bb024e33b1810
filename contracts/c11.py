from common import *
from fsw import fs_jobs
from drv import drive_jobs


def jobs(prog):
    return fs_jobs(prog, 'C11', checks={'lock'} if 'C11' == 'C11' else ()) + drive_jobs('C11')
