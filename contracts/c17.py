from common import *
from rec import nextheader, index
from tree import meta_jobs


def jobs(prog):
    return [f('C17') for f in (nextheader, index)] + meta_jobs('C17')
