"""C22: the obligations of contracts/marshmodel.py."""
from contracts import marshmodel

TRUSTED = marshmodel.TRUSTED


def procedures(tier):
    return marshmodel.procs("C22", tier)
