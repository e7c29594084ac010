"""Checks that everything the simulator needs is installed (nothing is built)."""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sim import boot
boot.ensure_env([os.path.abspath(__file__)])
boot.boot()
import shutil
tmp = os.environ.get('VERIF_MPL_TMP')
if tmp and os.path.basename(tmp).startswith('verif_mpl_'):
    shutil.rmtree(tmp, ignore_errors=True)
print('ready')
sys.stdout.flush()
os._exit(0)
