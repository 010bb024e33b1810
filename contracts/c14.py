from common import *
from fsw import fs_jobs, FS_METHODS
from buf import buf_jobs, open_job, cache_jobs


def jobs(prog):
    J = open_job(prog) + fs_jobs(prog, 'C14', (), tuple(m for m in FS_METHODS if m != 'OpenFile'), ('Name', 'Readdir', 'Readdirnames'))
    return J + buf_jobs(prog) + cache_jobs(prog)
