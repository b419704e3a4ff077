"""C06: the obligations of the File contracts that belong to it (contracts/filemodel.py)."""
from contracts import filemodel

TRUSTED = filemodel.TRUSTED


def procedures(tier):
    return filemodel.procs("C06")
