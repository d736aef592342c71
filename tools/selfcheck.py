"""setup_cmd: nothing to build (pure Python); checks that the interpreter and the libraries are usable."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import env, gen, runner, sim  # noqa: F401,E402
import hypothesis  # noqa: E402

print("ok: python %s, hypothesis %s, code under test %s" % (sys.version.split()[0], hypothesis.__version__, env.REPO))
