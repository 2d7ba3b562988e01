"""setup_cmd: nothing to build; check that the tools the checks use are there."""
import subprocess
import sys
import os
sys.dont_write_bytecode = True
os.chdir(os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
sys.path.insert(0, '.')
import z3  # noqa
from pyvc import engine, transform, values, objects, models, loops, streams  # noqa
subprocess.run(['cvc5', '--version'], check=True, stdout=subprocess.DEVNULL)
subprocess.run(['/opt/venv/bin/python', '-B', '-c', 'import xattr, git, packaging'], check=True, cwd='/')
os.makedirs('evidence', exist_ok=True)
print('ok')
