"""C18: the obligations of contracts/marshmodel.py, and the header (contracts/filemodel.py)."""
from contracts import filemodel, marshmodel

TRUSTED = marshmodel.TRUSTED


def procedures(tier):
    return filemodel.procs("C18") + marshmodel.procs("C18", tier)
