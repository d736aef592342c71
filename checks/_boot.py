"""Puts /verif on the import path and sets the process up (must be the first import of a check)."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import env  # noqa: F401,E402
