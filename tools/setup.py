"""Checks that what the checks need is there (nothing has to be built)."""
import os
import subprocess

PY = "/opt/venv/bin/python"
code = "import sys; sys.path.insert(0, '.'); sys.path.insert(0, '/repo/src'); import hdf5storage, h5py, numpy; from pyvc import engine; print('ok', hdf5storage.__version__)"
subprocess.run([PY, "-B", "-c", code], check=True, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
subprocess.run([PY, "-B", os.path.join("tools", "selftest.py")], check=True, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
