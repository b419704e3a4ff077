"""C15: the obligations of contracts/marshmodel.py."""
from contracts import marshmodel

TRUSTED = marshmodel.TRUSTED


def procedures(tier):
    return marshmodel.procs("C15", tier)
