from common import *
from keys import key_jobs
from sec import enc_jobs, sig_jobs

ASSUMED = ['age, OpenPGP and minisign: what is sealed or locked is opened by its key or password only, and only what has been signed verifies',
           'reading and writing memory does not fail']


def jobs(prog):
    return key_jobs('C18') + enc_jobs('C18') + sig_jobs('C18')
