from common import *
from tree import meta_jobs, fstree


def jobs(prog):
    return meta_jobs('C13') + fstree(prog, 'C13')
