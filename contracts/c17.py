"""C17: the obligations of contracts/marshmodel.py on filters."""
from contracts import marshmodel

TRUSTED = marshmodel.TRUSTED


def procedures(tier):
    return marshmodel.procs("C17", tier)
