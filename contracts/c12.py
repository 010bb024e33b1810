from common import *
from tree import meta_jobs, opstree, fstree


def jobs(prog):
    return meta_jobs('C12') + opstree('C12') + fstree(prog, 'C12')
